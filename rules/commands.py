"""P01 requests carry the caller's values; P02 the robot's verdict is reported faithfully."""
from base import *  # noqa
import props
from props import PROPS, Prop

# root: (device, command number, [(argument, bytes)], number of wire bytes of the status, extra)
REQ = {
    "robot_stop": ("robot", 2, []),
    "robot_get_virtual_wall": ("robot", 3, [("id", 4)]),
    "robot_set_collision_behavior": ("robot", 4, [("a", 56), ("b", 56), ("c", 56), ("d", 56), ("e", 48), ("f", 48), ("g", 48), ("h", 48)]),
    "robot_set_joint_impedance": ("robot", 5, [("k", 56)]),
    "robot_set_cartesian_impedance": ("robot", 6, [("k", 48)]),
    "robot_set_guiding_mode": ("robot", 7, [("g", 6), ("elbow", 1)]),
    "robot_set_K": ("robot", 8, [("m", 128)]),
    "robot_set_EE": ("robot", 9, [("m", 128)]),
    "robot_set_load": ("robot", 10, [("m", 8), ("x", 24), ("i", 72)]),
    "robot_set_filters": ("robot", 11, [("a", 8), ("b", 8), ("c", 8), ("d", 8), ("e", 8)]),
    "robot_automatic_error_recovery": ("robot", 12, []),
    "gripper_homing": ("gripper", 1, []),
    "gripper_grasp": ("gripper", 2, None),
    "gripper_move": ("gripper", 3, [("width", 8), ("speed", 8)]),
    "gripper_stop": ("gripper", 4, []),
}
HEADER = {"robot": (12, 4), "gripper": (10, 2)}  # bytes of the header, bytes of the command number
STATUS = {"robot": 1, "gripper": 2}


def args_of(cx):
    """root parameter name -> symbol, parameters in declaration order without the receiver"""
    out = []
    for n, (v, ty) in cx.eng.rootargs.items():
        out.append((n, v[0][1] if v else UNDEF, ty))
    return out


def scalar_same(x, y, boolean):
    if x is y:
        return True
    if boolean:
        return TM.is_true(x) is TM.is_true(y)
    return False


def compare_wire(cx, tyname, content, expect, key):
    """expect: list of (wire offset, size, term); every scalar of the message must match"""
    eng, rep = cx.eng, cx.rep
    w = wire(eng, tyname)
    if not rep.check(w is not None, key + ":static-layout", "the message has a fixed wire layout", tyname):
        return
    total = sum(s for _, s, _ in expect)
    rep.check(w[0] == total, key + ":size", "the message has %d bytes on the wire" % total, "%s has %d" % (tyname, w[0]))
    for wo, sz, mo, ty in w[1]:
        got = SEL(content, mo, sz)
        ex = [SEL(t, wo - o, sz) for o, s, t in expect if o <= wo and wo + sz <= o + s]
        ok = bool(ex) and scalar_same(got, ex[0], eng.tys[ty]["k"] == "bool")
        rep.check(ok, key + ":byte%d" % wo, "wire bytes %d..%d carry %s" % (wo, wo + sz, show(ex[0], 4) if ex else "a documented field"), lambda: "found %s in %s" % (show(got, 5), tyname))


def id_term(x):
    """offset in the connection object if x is an untouched word of its initial state"""
    if x.op == "sel" and x.a[0].op == "sym" and str(x.a[0].a[0]).startswith("*"):
        return x.a[1]
    return None


def request_rule(cx):
    cx.run()
    rep, eng = cx.rep, cx.eng
    dev, num, fields = REQ[cx.root]
    sends = [e for e in cx.events if is_tcp_send(e)]
    rep.check(len(sends) == 1, "one-request", "the call sends exactly one request", ", ".join(where(e) for e in sends))
    rep.check(not [e for e in cx.events if is_udp_send(e)], "no-datagram", "a command call sends no motion datagram")
    if len(sends) != 1:
        return
    e = sends[0]
    s = sent(eng, e)
    if not rep.check(s is not None and s[2], "whole-message", "the bytes sent are one complete serialised request", lambda: show(e.deep[1], 4)):
        return
    tyname, content, _ = s
    hs, cs = HEADER[dev]
    cid = wire_value(eng, tyname, content, cs, 4)
    a = {n: t for n, t, _ in args_of(cx)}
    if cx.root == "gripper_grasp":
        fields = grasp_fields(cx)
    else:
        fields = [(a[n], s) for n, s in fields]
    expect = [(0, cs, C(cs, num)), (cs, 4, cid), (cs + 4, 4, None)]
    o = hs
    for t, s in fields:
        expect.append((o, s, t))
        o += s
    expect[2] = (cs + 4, 4, C(4, o))
    compare_wire(cx, tyname, content, expect, "request")
    # the send happens on every path (an exhausted id counter aside)
    bad = [at for at in atoms_of(e.pc) if at.op != "ovf"]
    rep.check(not bad and not e.ctx, "always-sent", "no condition can suppress the request", lambda: show(e.pc, 5))
    # command id: a word of the connection state that is incremented by this call
    off = id_term(cid)
    if rep.check(off is not None, "own-id", "the command id is read from the connection state", lambda: show(cid, 5)):
        recv = cid.a[0].a[0][1:]
        o = cx.st.mem[("P", recv)]
        fin = CAT(o.read(off, 4), 4)
        want = iadd(cid, C(4, 1))
        rep.check(expand(eng, fin) is want, "id-advances", "the id counter is incremented by the call", lambda: show(fin, 5))
        rep.fact("id", (dev, off))


def grasp_fields(cx):
    a = {n: t for n, t, _ in args_of(cx)}
    names = [n for n, _, ty in args_of(cx)]
    out = []
    for n in ("width", "inner", "outer", "speed", "force"):
        t = a[n]
        if n in ("inner", "outer"):
            ty = cx.eng.rootargs[n][1]
            some = variant_cond(cx.eng, ty, cx.eng.rootargs[n][0], "Some")[0]
            p, _ = cx.payload("Some", cx.eng.rootargs[n][0], ty)
            t = ite(some, p[0][1], F(0.005))
        out.append((t, 8))
    return out


def request_final(reports, fin):
    offs = {}
    for r in reports:
        if "id" in r.facts:
            d, o = r.facts["id"]
            offs.setdefault(d, {}).setdefault(o, []).append(r.root)
    for d, m in offs.items():
        fin.check(len(m) == 1, "one-counter:" + d, "all %s commands draw their ids from one counter" % d, str(m))


PROPS["P01"] = Prop(
    list(REQ), request_rule, request_final, floor=250,
    rule_text="value-flow: for every command entry point the unique TCP write is reached unconditionally and each scalar of the serialised "
    "message equals the caller's argument / documented constant for that wire offset; command id is the connection's counter and the counter is incremented.",
)


# ------------------------------------------------------------------ P02
def strip(t):
    """container term behind slice/deref/selection"""
    while True:
        if t.op in ("slice", "deref"):
            t = t.a[0]
        elif t.op == "sel" and t.a[0].op in ("deref", "slice"):
            t = t.a[0]
        else:
            return t


def response_sources(cx, data):
    """events that delivered the bytes of a decoded response, or None for something else"""
    out = []
    work = [strip(data)]
    seen = set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        for o in origins(cx.eng, t):
            if o.op == "undef":
                continue
            s = strip(o)
            if s is not o:
                work.append(s)
                continue
            b = o.a[0] if o.op == "sel" else o
            if b.op in ("deref", "slice"):
                work.append(b.a[0])
                continue
            i = ev_id(o)
            out.append((o, cx.eng.events.get(i) if i is not None else None))
    return out


def decoded(cx, *ts):
    s = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "de":
                s[x] = 1
    return list(s)


def response_is_own(cx, de, cid, key):
    rep = cx.rep
    src = response_sources(cx, de.a[1])
    ok = bool(src)
    det = []
    for o, e in src:
        good = e is not None and (is_map(e, "remove") or is_map(e, "get") or is_map(e, "remove_entry")) and len(e.deep) > 1 and expand(cx.eng, e.deep[1]) is cid
        if not good:
            ok = False
            det.append("%s from %s" % (show(o, 4), e and where(e)))
    rep.check(ok, key, "the response that decides the outcome was filed under this call's own command id", "; ".join(det) or show(de, 5))
    return ok


def verdict_rule(cx):
    cx.run()
    rep, eng = cx.rep, cx.eng
    dev, num, _ = REQ[cx.root]
    hs, cs = HEADER[dev]
    sends = [e for e in cx.events if is_tcp_send(e)]
    s = sent(eng, sends[0]) if len(sends) == 1 else None
    if not rep.check(s is not None, "one-request", "the call sends exactly one request"):
        return
    cid = wire_value(eng, s[0], s[1], cs, 4)
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
    ds = decoded(cx, okc, exc.get("CommandException", ZERO))
    ds = [d for d in ds if wire(eng, d.a[0]) and wire(eng, d.a[0])[0] > hs and any(d is y for c in (okc, exc["CommandException"]) for a in atoms_of(c) for y in subterms(a))]
    if not rep.check(len(ds) == 1, "one-response", "the outcome is decided by exactly one decoded response", ", ".join(show(d, 4) for d in ds)):
        return
    de = ds[0]
    response_is_own(cx, de, cid, "own-response")
    lay = [x for x in wire(eng, de.a[0])[1] if x[0] == hs]
    if not rep.check(len(lay) == 1 and lay[0][1] == STATUS[dev], "status-field", "the status follows the header on the wire", de.a[0]):
        return
    status = SEL(de, lay[0][2], lay[0][1])
    vals = sorted(v["d"] for v in eng.tys[lay[0][3]]["variants"])
    rep.check(vals == list(range(len(vals))) and len(vals) == NSTATUS[cx.root], "status-values", "the status enumeration has the protocol's %d values" % NSTATUS[cx.root], str(vals))
    is_ = lambda v: ieq(status, C(lay[0][1], v))
    cmd, net = exc["CommandException"], exc["NetworkException"]
    for v in vals:
        c = is_(v)
        okv, cmdv = band(okc, c), band(cmd, c)
        if dev == "gripper":
            cells, pty = cx.payload("Ok")
            val = TM.is_true(expand(eng, cells[0][1]))
            if v == 0:
                rep.check(cmdv is ZERO and okv is not ZERO and band(okv, bnot(val)) is ZERO, "status:0", "Success is reported as Ok(true)")
            elif v == 2:
                rep.check(cmdv is ZERO and okv is not ZERO and band(okv, val) is ZERO, "status:2", "Unsuccessful is reported as Ok(false)")
            else:
                rep.check(okv is ZERO and cmdv is not ZERO, "status:%d" % v, "Fail and Aborted are reported as CommandException")
        else:
            if v == 0:
                rep.check(cmdv is ZERO and okv is not ZERO, "status:0", "Success is reported as Ok")
            else:
                rep.check(okv is ZERO and cmdv is not ZERO, "status:%d" % v, "status %d is reported as CommandException" % v, lambda: "Ok under %s" % show(okv, 4))
    st_atoms = {a for v in vals for a in atoms_of(is_(v))}
    rep.check(not any(a in st_atoms for a in atoms_of(net)), "network-independent", "a network error does not depend on the status")
    for k, c in exc.items():
        if k not in ("CommandException", "NetworkException"):
            rep.check(c is ZERO, "no:" + k, "no other kind of error is returned", lambda: show(c, 4))
    messages(cx, cmd, lay[0][3], is_)
    if cx.root == "robot_get_virtual_wall":
        wall(cx, de)


CAUSES = {"EmergencyAborted": ("user stop", "emergency"), "ReflexAborted": ("reflex",), "ManualErrorRecoveryRequiredRejected": ("manual",), "InvalidArgumentRejected": ("invalid argument",)}
CAUSE_AT = {  # status number -> cause, by entry point
    "robot_stop": {2: "EmergencyAborted", 3: "ReflexAborted"},
    "robot_automatic_error_recovery": {2: "ManualErrorRecoveryRequiredRejected", 3: "ReflexAborted", 4: "EmergencyAborted"},
}


def texts(t, cond=ONE):
    """the texts in t, without those in branches excluded by cond"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo.extend(reversed(x))
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "bytes" and isinstance(x.a[0], bytes):
            out.append(x.a[0].decode("utf8", "replace"))
        elif x.op == "ite":
            a = atom(x.a[0])
            if band(cond, bnot(a)) is not ZERO:
                todo.append(x.a[2])
            if band(cond, a) is not ZERO:
                todo.append(x.a[1])
        else:
            todo.extend(reversed(x.a))
    return out


def messages(cx, cmd, sty, is_):
    """the text of a command error names the cause, and no other one"""
    eng, rep = cx.eng, cx.rep
    cells, ety = cx.payload("Err")
    v = [x for x in eng.tys[ety]["variants"] if x["n"] == "CommandException"][0]
    o, ft = v["fields"][0][:2]
    msg = eng.sval(sub_cells(cells, o, eng.size(ft)), eng.size(ft))
    dev = REQ[cx.root][0]
    table = {} if dev == "gripper" else CAUSE_AT.get(cx.root, {2: "InvalidArgumentRejected"})
    for d in sorted(x["d"] for x in eng.tys[sty]["variants"]):
        c = band(cmd, is_(d))
        if c is ZERO:
            continue
        tx = " ".join(texts(value_under(eng, msg, c), c)).lower()
        own = table.get(d)
        if own is not None:
            rep.check(any(k in tx for k in CAUSES[own]), "message:%d" % d, "the error for status %d names its cause" % d, tx)
        wrong = [k for n, ks in CAUSES.items() if n != own for k in ks if k in tx]
        rep.check(not wrong, "message-only:%d" % d, "the error for status %d names no other cause" % d, "%s in %s" % (wrong, tx))


def wall(cx, de):
    """the returned wall mirrors the response"""
    eng, rep = cx.eng, cx.rep
    cells, ty = cx.payload("Ok")
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    idarg = {n: t for n, t, _ in args_of(cx)}["id"]
    exp = {"id": idarg, "object_world_size": wire_field(eng, de.a[0], de, 13, 24), "p_frame": wire_field(eng, de.a[0], de, 37, 128), "active": wire_field(eng, de.a[0], de, 165, 1)}
    for o, ft, fn in eng.tys[ty]["fields"]:
        sz = eng.size(ft)
        got = eng.sval(sub_cells(cells, o, sz), sz)
        rep.check(fn in exp and same_under(eng, got, exp[fn], okc, fn == "active"), "wall:" + fn, "the wall's %s is taken from the response" % fn, lambda: "%s" % show(value_under(eng, got, okc), 4))


NSTATUS = {k: 3 for k in REQ}
NSTATUS.update({"robot_stop": 5, "robot_automatic_error_recovery": 6, "gripper_homing": 4, "gripper_grasp": 4, "gripper_move": 4, "gripper_stop": 4})

PROPS["P02"] = Prop(
    list(REQ), verdict_rule, floor=120,
    rule_text="value-flow: for every command entry point the condition of each outcome (Ok / CommandException / NetworkException) is computed and compared "
    "with the protocol's status table; the decoded response must come out of the response table under the command id that this call sent.",
)
