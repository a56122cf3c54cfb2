"""P08 default behaviour; P21 the read loop; P22 gripper states and setpoint values."""
from base import *  # noqa
from props import PROPS, Prop
from commands import compare_wire, decoded, response_is_own, HEADER, STATUS, id_term
from dgram import Dg
from state import millis, fields_of

# ------------------------------------------------------------------ P08
DEFAULT = [
    (4, [20.0] * 7 + [20.0] * 7 + [10.0] * 7 + [10.0] * 7 + [20.0] * 6 + [20.0] * 6 + [10.0] * 6 + [10.0] * 6, "collision behavior"),
    (5, [3000.0, 3000.0, 3000.0, 2500.0, 2500.0, 2000.0, 2000.0], "joint impedance"),
    (6, [3000.0, 3000.0, 3000.0, 300.0, 300.0, 300.0], "Cartesian impedance"),
]


def default_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    sends = sorted([e for e in cx.events if is_tcp_send(e)], key=lambda e: e.id)
    if not rep.check(len(sends) == 3 and not any(e.loops for e in sends), "three-requests", "three requests are sent", ", ".join(where(e) for e in sends)):
        return
    rep.check(not [e for e in cx.events if is_udp_send(e)], "no-datagram", "no motion datagram is sent")
    hs, cs = HEADER["robot"]
    first = None
    cids = []
    for k, (e, (num, vals, what)) in enumerate(zip(sends, DEFAULT)):
        s = sent(eng, e)
        if not rep.check(s is not None and s[2], "request%d/whole" % k, "a complete request is sent", where(e)):
            return
        cid = expand(eng, wire_value(eng, s[0], s[1], cs, 4))
        if k == 0:
            first = cid
            rep.check(id_term(cid) is not None, "request0/id", "the id is the connection's counter", lambda: show(cid, 5))
        rep.check(cid is iadd(first, C(4, k)), "request%d/id" % k, "consecutive ids", lambda: show(cid, 5))
        cids.append(cid)
        expect = [(0, 4, C(4, num)), (4, 4, wire_value(eng, s[0], s[1], cs, 4)), (8, 4, C(4, hs + 8 * len(vals)))]
        expect += [(hs + 8 * i, 8, F(v)) for i, v in enumerate(vals)]
        compare_wire(cx, s[0], s[1], expect, "request%d" % k)
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
    cmd = exc["CommandException"]
    ds = [d for d in decoded(cx, okc, cmd) if wire(eng, d.a[0]) and wire(eng, d.a[0])[0] == hs + 1 and any(d is y for c in (okc, cmd) for a in atoms_of(c) for y in subterms(a))]
    if not rep.check(len(ds) == 3, "three-responses", "each request has its own response", ", ".join(show(d, 4) for d in ds)):
        return
    by = {}
    for d in ds:
        for k, c in enumerate(cids):
            q = Quiet()
            if response_is_own(Sub(cx, q), d, c, ""):
                by[k] = d
    if not rep.check(len(by) == 3, "own-responses", "each response was filed under the id of its request", str({k: show(v, 4) for k, v in by.items()})):
        return
    stat = []
    for k in range(3):
        lay = [x for x in wire(eng, by[k].a[0])[1] if x[0] == hs][0]
        stat.append((SEL(by[k], lay[2], lay[1]), lay[1], sorted(v["d"] for v in eng.tys[lay[3]]["variants"])))
    for k, (t, sz, vals) in enumerate(stat):
        for v in vals:
            c = ieq(t, C(sz, v))
            if v == 0:
                rep.check(band(okc, c) is not ZERO, "status%d:0" % k, "%s accepted: goes on" % DEFAULT[k][2])
            else:
                rep.check(band(okc, c) is ZERO, "status%d:%d" % (k, v), "a refused %s is not reported as success" % DEFAULT[k][2], lambda: show(band(okc, c), 5))
                for e in sends[k + 1:]:
                    rep.check(band(expand(eng, e.pc), c) is ZERO, "stops%d:%d" % (k, v), "nothing is sent after a refusal", where(e))
                first_bad = conj(cmd, c, *[ieq(stat[j][0], C(stat[j][1], 0)) for j in range(k)])
                rep.check(first_bad is not ZERO, "error%d:%d" % (k, v), "the refusal is reported as a command error")
    allok = conj(*[ieq(t, C(sz, 0)) for t, sz, _ in stat])
    rep.check(band(cmd, allok) is ZERO, "no-spurious-error", "no command error if all three were accepted", lambda: show(band(cmd, allok), 5))


class Quiet:
    def check(self, cond, *a, **k):
        return cond


class Sub:
    def __init__(self, cx, rep):
        self.eng, self.rep = cx.eng, rep


PROPS["P08"] = Prop(
    ["robot_set_default_behavior"], default_rule, floor=90,
    rule_text="value-flow: the three TCP writes in order, every scalar against the documented default, each send conditional on the success status of the response to the one before; outcome conditions against the three statuses.",
)


# ------------------------------------------------------------------ P21
def read_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    rep.check(not [e for e in cx.events if is_udp_send(e) or is_tcp_send(e)], "passive", "reading sends nothing")
    cbs = [e for e in cx.events if e.kind == "callback"]
    if not rep.check(len(cbs) == 1 and len(cbs[0].loops) == 1, "one-call", "the callback is called from one place, in one loop", "; ".join(where(e) for e in cbs)):
        return
    e = cbs[0]
    cb = cx.eng.rootargs["cb"][0][0][1]
    rep.check(expand(eng, e.inst["fn"]) is cb if isinstance(e.inst, dict) and "fn" in e.inst else True, "the-callback", "the function called is the caller's")
    lid = e.loops[0]
    go = TM.is_true(e.ret)
    bc = expand(eng, eng.loop_info[lid]["back_pc"])
    rep.check(bc is not ZERO and band(bc, bnot(go)) is ZERO, "stops", "the loop goes on only if the callback returned true", lambda: show(bc, 6))
    rep.check(band(bc, bnot(expand(eng, e.pc))) is ZERO, "every-state", "no state is skipped: an iteration that goes on has called the callback", lambda: show(bc, 6))
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
    rep.check(okc is not ZERO and band(okc, go) is ZERO, "ok", "Ok is returned only after the callback returned false", lambda: show(okc, 6))
    rep.check(go in (okc, bnot(okc)) or any(a in set(atoms_of(go)) for a in atoms_of(okc)), "ok-after-call", "Ok depends on the callback's answer", lambda: show(okc, 6))
    for k, c in exc.items():
        if k == "NetworkException":
            rep.check(c is not ZERO, "network", "a lost connection ends the loop with a network error")
            # the error is not raised after the callback was called in the iteration
            rep.check(not any(a in set(atoms_of(go)) for a in atoms_of(c)), "err-before-call", "an error does not depend on the callback's answer", lambda: show(c, 6))
        else:
            rep.check(c is ZERO, "no:" + k, "no other kind of error is returned", lambda: show(c, 5))
    panics = [p for p in cx.events if p.kind == "panic" and any(a in set(atoms_of(go)) for a in atoms_of(p.pc))]
    rep.check(not panics, "no-panic", "no answer of the callback makes the library panic", "; ".join(where(p) for p in panics))


PROPS["P21"] = Prop(
    ["robot_read"], read_rule, floor=10,
    rule_text="loop summary of the read loop: condition of the back edge, of Ok and of every error against the callback's return value; no send is reachable.",
)


# ------------------------------------------------------------------ P22
GWIRE = {"width": (4, 8), "max_width": (12, 8), "is_grasped": (20, 1), "temperature": (21, 2)}
SETPOINTS = {
    "torques": [("tau_J", 56)], "joint_positions": [("q", 56)], "joint_velocities": [("dq", 56)],
    "cartesian_pose": [("O_T_EE", 128)], "cartesian_velocities": [("O_dP_EE", 48)],
}


def values_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    if cx.root == "gripper_read_once":
        return gripper_rule(cx)
    kind, _, name = cx.root.partition("_")
    args = [v for v, _ in eng.rootargs.values()]
    tys = [t for _, t in eng.rootargs.values()]
    if kind in ("new", "finished"):
        fl = fields_of(eng, cx.retty)
        rep.check(cx.st.pc is ONE and not [e for e in cx.events if e.kind in ("panic", "effect")], "total", "every value is accepted", lambda: show(cx.st.pc, 5))
        src = eng.sval(args[0], eng.size(tys[0]))
        for n, sz in SETPOINTS[name]:
            if not rep.check(n in fl and eng.size(fl[n][1]) == sz, "field:" + n, "the setpoint has a field %s" % n):
                continue
            o = fl[n][0]
            got = eng.sval(sub_cells(cx.rv, o, sz), sz)
            want = SEL(src, o, sz) if kind == "finished" else src
            rep.check(got is want, "value:" + n, "%s is stored unchanged" % n, lambda: show(got, 5))
        flag = [(o, t) for n, (o, t) in fl.items() if eng.tys[t]["k"] == "bool"]
        if rep.check(len(flag) == 1, "flag", "the setpoint has one finished flag", str(flag)):
            got = TM.is_true(eng.sval(sub_cells(cx.rv, flag[0][0], 1), 1))
            rep.check(got is (ONE if kind == "finished" else ZERO), "finished", "a fresh setpoint is not the last one, motion_finished marks it as the last one", lambda: show(got, 4))
        el = fl.get("elbow")
        if "cartesian" in name and rep.check(el is not None, "elbow", "the setpoint has an elbow"):
            o, t = el
            sz = eng.size(t)
            got = sub_cells(cx.rv, o, sz)
            src = args[1] if kind == "new" else sub_cells(args[0], o, sz)
            some_g, some_w = variant_cond(eng, t, got, "Some")[0], variant_cond(eng, t, src, "Some")[0]
            rep.check(some_g is some_w, "elbow:some", "an elbow is stored exactly if one is given", lambda: show(some_g, 5))
            a, b = cx.payload("Some", got, t)[0], cx.payload("Some", src, t)[0]
            x, y = restrict(eng.sval(a, 16), some_w), restrict(eng.sval(b, 16), some_w)
            rep.check(x is y, "elbow:value", "the elbow is stored unchanged", lambda: show(x, 5))
        return
    got = TM.is_true(eng.sval(cx.rv, 1))
    if cx.root == "is_valid_elbow":
        s = [x for x in subterms(got) if x.op == "sym"]
        e1 = SEL(s[0], 8, 8) if s else UNDEF
        want = fcmp("eq", fabs(e1), F(1.0)) if s else ZERO
        w2 = bor(fcmp("eq", e1, F(1.0)), fcmp("eq", e1, F(-1.0))) if s else ZERO
        rep.check(got is want or got is w2, "valid-elbow", "an elbow is valid exactly if its second value is +1 or -1", lambda: show(got, 6))
        return
    # has_elbow
    t = [x for x in eng.rootargs.values()][0][1]
    pt = eng.tys[t].get("to", eng.tys[t].get("elem"))
    sy = [x for x in subterms(got) if x.op == "sym"]
    ok = len(sy) == 1
    if ok:
        want = None
        for i, u in enumerate(eng.tys):
            if u.get("fields") and u.get("def", "").endswith("CartesianPose" if "pose" in cx.root else "CartesianVelocities"):
                o, ft = fields_of(eng, i)["elbow"]
                want = variant_cond(eng, ft, [(0, SEL(sy[0], o, eng.size(ft)))], "Some")[0]
        ok = got is want
    rep.check(ok, "has-elbow", "an elbow is reported exactly if one is stored", lambda: show(got, 6))


def gripper_rule(cx):
    eng, rep = cx.eng, cx.rep
    rep.check(not [e for e in cx.events if is_udp_send(e) or is_tcp_send(e)], "passive", "reading sends nothing")
    dg = Dg(eng, 23)
    cells, pty = cx.payload("Ok")
    okc = band(cx.variant("Ok"), cx.st.pc)
    cells = [(o, dg.absorb(piecewise(t, lambda p: restrict(p, okc)))) for o, t in cells]
    fl = fields_of(eng, pty)
    if not rep.check(set(GWIRE) | {"time"} <= set(fl), "fields", "the state has the documented fields", str(sorted(fl))):
        return
    w = eng.sval(sub_cells(cells, fl["width"][0], 8), 8)
    sg = dg.sigs(w)
    if not rep.check(len(sg) == 1, "datagram", "the state is decoded from one received datagram", lambda: show(w, 6)):
        return
    sig = next(iter(sg))
    s = dg.state(sig)
    for n, (o, sz) in GWIRE.items():
        got = eng.sval(sub_cells(cells, fl[n][0], sz), sz)
        same = TM.is_true(got) is TM.is_true(SEL(s, o, 1)) if sz == 1 else got is SEL(s, o, sz)
        rep.check(same and eng.size(fl[n][1]) == sz, "field:" + n, "%s is the wire field at byte %d" % (n, o), lambda: show(got, 6))
    off, fty = fl["time"]
    want = millis(TM.zext(SEL(s, 0, 4), 8))
    got = {eng.sval(sub_cells(cells, off + o, eng.size(t)), eng.size(t)) for o, t, _ in eng.tys[fty]["fields"]}
    rep.check(got == set(want), "time", "the time stamp is the message id in milliseconds", lambda: "; ".join(show(x, 6) for x in got))
    leafs = {ev_id(x.a[0]) for x in subterms(sig) if x.op == "dg"}
    leafs.discard(None)
    polls = [e for e in cx.events if re.search(r"Poll::poll", e.name)]
    first = min(leafs, default=0)
    drains = [l for l, li in eng.loop_info.items() if li["head"] in eng.events and li["head"] < first and not eng.events[li["head"]].loops
              and any(l in e.loops and is_udp_recv(e) for e in cx.events) and not any(l in e.loops and e.key in leafs for e in cx.events)]
    rep.check(bool(drains), "waits", "datagrams queued before the call are discarded: the returned state arrived after it")
    rep.check(any(e.id < first and not any(l in drains for l in e.loops) and e.id > max(eng.loop_info[d]["head"] for d in drains) for e in polls) if drains else False, "blocks", "the call waits for a datagram")
    exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
    for k, c in exc.items():
        if k != "NetworkException":
            rep.check(c is ZERO, "no:" + k, "only network errors are returned", lambda: show(c, 5))
        else:
            rep.check(c is not ZERO, "network", "a timeout is a network error")


PROPS["P22"] = Prop(
    ["gripper_read_once"] + [k + "_" + n for k in ("new", "finished") for n in SETPOINTS] + ["pose_has_elbow", "vel_has_elbow", "is_valid_elbow"], values_rule, floor=50,
    rule_text="value-flow: fields of the returned gripper state against the wire offsets of one received datagram; setpoint values, finished flag and elbow against the constructor's argument.",
)
