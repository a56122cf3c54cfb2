"""P04: connecting."""
from base import *  # noqa
from props import PROPS, Prop
from commands import compare_wire, decoded, response_is_own, HEADER, STATUS

DEV = {
    "robot_new": ("robot", 1337, 5, "robot_server_version", "r"),
    "gripper_new": ("gripper", 1338, 3, "gripper_server_version", "g"),
}


def const_in(t, n):
    s = str(n).encode()
    for x in subterms(t):
        if x.op == "c" and x.a[0] == n and x.sz >= 2:
            return True
        if x.op == "bytes" and s in x.a[0]:
            return True
        if x.op == "c" and s in x.a[0].to_bytes(max(x.sz, 1), "little"):
            return True
    return False


def opt_or(cx, name, default):
    v, ty = cx.eng.rootargs[name]
    none = variant_cond(cx.eng, ty, v, "None")[0]
    p, pty = cx.payload("Some", v, ty)
    return ite(none, default, cx.eng.sval(p, cx.eng.size(pty))), pty


def connect_rule(cx):
    eng, rep = cx.eng, cx.rep
    dev, port, version, vroot, recv = DEV[cx.root]
    cx.run(vroot)
    sv = cx.eng.sval(cx.rv, 2) if cx.rv else UNDEF
    svo = sv.a[1] if sv.op == "sel" and sv.a[0].op == "sym" and sv.a[0].a[0] == "*" + recv else None
    cx.run()
    con = [e for e in cx.events if e.kind == "effect" and re.search(r"TcpStream::connect", e.name)]
    if rep.check(len(con) == 1, "one-connection", "one TCP connection is opened", str(con)):
        t = expand(eng, con[0].deep[0])
        rep.check(mentions(t, lambda x: x.op == "sym" and str(x.a[0]).startswith("*addr")), "address", "the connection goes to the given address", show(t, 8))
        rep.check(const_in(t, port), "port", "the connection goes to port %d" % port, show(t, 12))
    sends = [e for e in cx.events if is_tcp_send(e)]
    s = sent(eng, sends[0]) if len(sends) == 1 else None
    if not rep.check(s is not None and s[2], "one-request", "exactly one request, the connect request, is sent", str(sends)):
        return
    rep.check(not [e for e in cx.events if is_udp_send(e)], "no-datagram", "connecting sends no motion datagram")
    binds = [e for e in cx.events if e.kind == "effect" and re.search(r"UdpSocket::bind", e.name)]
    addr = [e for e in cx.events if e.kind == "effect" and re.search(r"UdpSocket::local_addr", e.name)]
    hs, cs = HEADER[dev]
    w = wire(eng, s[0])
    pv = wire_value(eng, s[0], s[1], hs + 2, 2)
    ok = len(binds) == 1 and any(mentions(expand(eng, pv), lambda x: x is a.ret) for a in addr) and any(mentions(a.deep[0], lambda x: x is binds[0].ret) for a in addr)
    rep.check(ok, "udp-port", "the announced UDP port is the port of the socket that receives the states", lambda: show(pv, 6))
    compare_wire(cx, s[0], s[1], [(0, cs, C(cs, 0)), (cs, 4, C(4, 0)), (cs + 4, 4, C(4, hs + 4)), (hs, 2, C(2, version)), (hs + 2, 2, pv)], "request")
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
    inc, net = exc["IncompatibleLibraryVersionError"], exc["NetworkException"]
    for k, c in exc.items():
        if k not in ("IncompatibleLibraryVersionError", "NetworkException"):
            rep.check(c is ZERO, "no:" + k, "no other kind of error is returned", lambda: show(c, 4))
    ds = [d for d in decoded(cx, okc, inc) if wire(eng, d.a[0]) and hs < wire(eng, d.a[0])[0] < 64]
    if not rep.check(len(ds) == 1, "one-response", "the outcome is decided by one decoded connect response", ", ".join(show(d, 3) for d in ds)):
        return
    de = ds[0]
    response_is_own(cx, de, C(4, 0), "own-response")
    lay = wire(eng, de.a[0])
    stf = [x for x in lay[1] if x[0] == hs]
    vf = wire_field(eng, de.a[0], de, hs + STATUS[dev], 2)
    if not rep.check(len(stf) == 1 and stf[0][1] == STATUS[dev] and lay[0] == hs + STATUS[dev] + 2, "response-layout", "the response is header, status, version", de.a[0]):
        return
    status = SEL(de, stf[0][2], stf[0][1])
    vals = sorted(v["d"] for v in eng.tys[stf[0][3]]["variants"])
    rep.check(len(vals) >= 2 and vals[0] == 0, "status-values", "the status has a success and at least one failure value", str(vals))
    for v in vals:
        c = ieq(status, C(stf[0][1], v))
        o, i = band(okc, c), band(inc, c)
        if v == 0:
            rep.check(o is not ZERO and i is ZERO, "status:0", "success: connected", lambda: show(i, 5))
        else:
            rep.check(o is ZERO and i is not ZERO, "status:%d" % v, "refusal is reported as an incompatible version", lambda: show(o, 5))
    at = {a for v in vals for a in atoms_of(ieq(status, C(stf[0][1], v)))}
    # error payload
    cells, ety = cx.payload("Err")
    iv = [x for x in eng.tys[ety]["variants"] if x["n"] == "IncompatibleLibraryVersionError"][0]
    for o, ft, fn in iv["fields"]:
        got = eng.sval(sub_cells(cells, o, eng.size(ft)), eng.size(ft))
        want = {"server_version": vf, "library_version": C(2, version)}.get(fn)
        rep.check(want is not None and same_under(eng, got, want, inc), "error:" + fn, "the error reports the %s" % fn, lambda: show(value_under(eng, got, inc), 5))
    # the connected object
    cells, oty = cx.payload("Ok")
    if rep.check(svo is not None, "server-version-read", "the server version is remembered in the connection", show(sv, 4)):
        got = eng.sval(sub_cells(cells, svo, 2), 2)
        rep.check(same_under(eng, got, vf, okc), "server-version", "the reported server version is the one of the connect response", lambda: show(value_under(eng, got, okc), 5))
    vals_ = [(o, value_under(eng, t, okc)) for o, t in cells]
    if dev == "robot":
        rc, rty = opt_or(cx, "rt", None) if False else (None, None)
        v, ty = eng.rootargs["rt"]
        _, pty = cx.payload("Some", v, ty)
        enf = [x["d"] for x in eng.tys[pty]["variants"] if x["n"] == "Enforce"]
        want, _ = opt_or(cx, "rt", C(1, enf[0] if enf else 0))
        offs = [o for o, t in vals_ if t is want]
        rep.check(bool(offs), "realtime-default", "realtime is enforced unless the caller says otherwise", "no field of the robot holds %s" % show(want, 4))
        rep.fact("rt", offs)
        want, _ = opt_or(cx, "log", C(8, 50))
        offs = [o for o, t in vals_ if t is want]
        rep.check(bool(offs), "log-default", "the log keeps the given number of entries, 50 by default")
        rep.fact("log", offs)
        sd = [d for o, t in vals_ for d in subterms(t) if d.op == "de" and wire(eng, d.a[0]) and wire(eng, d.a[0])[0] == 2373]
        ids = [o for o, t in vals_ if t.op == "sel" and t.a[0] in sd and t is wire_field(eng, t.a[0].a[0], t.a[0], 0, 8)]
        rep.check(bool(ids), "first-state", "the robot is handed out only after a first state datagram was received", "no field holds the message id of a received state")
        rep.fact("mid", ids)


PROPS["P04"] = Prop(
    ["robot_new", "gripper_new"], connect_rule, floor=50,
    rule_text="value-flow over the constructors: target address and port of the TCP connection, bytes of the connect request (version, UDP port of the bound socket), "
    "condition of every outcome against the response status, provenance of the reported versions, defaults of omitted options.",
)
