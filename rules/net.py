"""P07 failures of the network are reported, and nothing waits for ever."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
import commands  # noqa

IO = re.compile(r"TcpStream|UdpSocket|Poll::poll|Poll::new|Registry::(re)?register|setsockopt|to_socket_addrs")
SOFT = {"WouldBlock", "Interrupted"}    # not a failure of the connection


def results(eng, events):
    """I/O events whose result can be an error: (event, condition of the error)"""
    out = []
    for e in events:
        if e.kind != "effect" or e.ret is None or e.retty is None or not IO.search(e.name):
            continue
        t = eng.tys[e.retty]
        if {v["n"] for v in t.get("variants", [])} == {"Ok", "Err"}:
            out.append((e, variant_cond(eng, e.retty, [(0, e.ret)], "Err")[0]))
    return out


def payload(eng, e):
    """the number in Ok, or None"""
    v = [x for x in eng.tys[e.retty]["variants"] if x["n"] == "Ok"][0]
    if not v["fields"]:
        return None
    off, fty = v["fields"][0][0], v["fields"][0][1]
    t = eng.tys[fty]
    while t.get("fields") and t["k"] not in ("uint", "int"):
        off += t["fields"][0][0]
        fty = t["fields"][0][1]
        t = eng.tys[fty]
    return off if eng.size(fty) == 8 else None


def hard(eng, events):
    """no error is one of the soft kinds"""
    r = ONE
    k = ty_by_name(eng, "std::io::ErrorKind")
    soft = {v["d"] for v in eng.tys[k]["variants"] if v["n"] in SOFT} if k is not None else set()
    for e in events:
        if e.kind != "effect" or e.ret is None:
            continue
        if e.name.endswith("Error::kind"):
            for d in soft:
                r = band(r, bnot(ieq(e.ret, C(e.ret.sz, d))))
        m = re.search(r"ErrorKind as std::cmp::PartialEq.*>::(eq|ne)$", e.name)
        if m and any(x is C(x.sz, d) for x in e.deep for d in soft):
            t = TM.is_true(e.ret)
            r = band(r, bnot(t) if m.group(1) == "eq" else t)
    return r


def known_token(eng, events):
    """mio reports only tokens that were registered: the one token of the library"""
    r = ONE
    seen = set()
    for e in events:
        if e.kind == "panic":
            for a in atoms_of(e.pc):
                subterms(a, seen) if a not in seen else None
    for x in seen:
        if (x.op == "app" and isinstance(x.a[0], str) and x.a[0].endswith("Event::token")) or (x.op == "ret" and "Event::token" in str(x.a[0].a[1])):
            r = band(r, ieq(x, C(8, 1)))
    return r


def next_round(eng, lid, c):
    """the condition c of round n, in terms of the values of round n-1"""
    mine = {m: n for m, n in eng.mu_next.items() if m.a[0] == lid}
    return expand(eng, rewrite_cond(c, mine))


def rewrite_cond(c, sub):
    return rewrite(c, lambda x: None, dict(sub))


def again(eng, events, lid):
    """the condition, at the end of a round of the loop, that another round starts and gets to its first network operation"""
    bc = expand(eng, eng.loop_info[lid]["back_pc"])
    first = min((e for e in events if lid in e.loops and e.kind == "effect" and IO.search(e.name)), key=lambda e: e.id, default=None)
    if first is None:
        return bc
    return band(bc, next_round(eng, lid, expand(eng, first.pc)))


def received(eng, events, size):
    """the results of receiving, and the loop-carried copies of them: [(term, lies in the result at, size)]"""
    rets = {e.ret: e for e in events if is_udp_recv(e) and e.ret is not None}
    out = [(t, 0, t.sz, e) for t, e in rets.items()]
    for m in eng.mu_next:
        off, ev, ok = set(), None, True
        for o in origins(eng, m):
            if o.op == "undef":
                continue
            b, p = (o.a[0], o.a[1]) if o.op == "sel" else (o, 0)
            if b in rets:
                off.add(p)
                ev = rets[b]
            elif o.op != "c":
                ok = False
        if ok and ev is not None and len(off) == 1:
            out.append((m, off.pop(), m.sz, ev))
    return out


def no_datagram(eng, rec, size=None):
    """every receive failed (or, with a size, brought a datagram of another size): [(term, condition)]"""
    r = []
    for t, off, sz, e in rec:
        if off == 0 and sz == e.ret.sz:
            c = variant_cond(eng, e.retty, [(0, t)], "Err")[0]
        elif size is None:
            continue
        else:
            c = ZERO
        if size is not None:
            p = payload(eng, e)
            if p is not None and off <= p and p + 8 <= off + sz:
                c = bor(c, bnot(ieq(SEL(t, p - off, 8), C(8, size))))
        if c is not ZERO:
            r.append((t, c))
    return r


def case(c, facts):
    """c in the case of those facts it is about"""
    seen = set()
    for a in atoms_of(c):
        subterms(a, seen)
    for t, x in facts:
        if t in seen:
            c = band(c, x)
    return c


def outcome(cx):
    eng = cx.eng
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    return okc, {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}


def not_past(cx, key, e, c, okc, exc, what, loops=True, others=True):
    """in the case c of event e nothing but a network error comes out"""
    eng, rep = cx.eng, cx.rep
    rep.check(band(okc, c) is ZERO, key + "/ok", what + " is not reported as success", lambda: "%s: %s" % (where(e), show(band(okc, c), 4)))
    if others:
        for k, x in exc.items():
            if k == "NetworkException":
                rep.check(band(x, c) is not ZERO, key + "/network", what + " is reported as a network error", lambda: where(e))
            elif x is not ZERO:
                rep.check(band(x, c) is ZERO, key + "/" + k, what + " is not reported as another error", lambda: "%s: %s" % (where(e), show(band(x, c), 4)))
    if loops:
        for l in e.loops:
            rep.check(band(again(eng, cx.events, l), c) is ZERO, key + "/retry%d" % e.loops.index(l), what + " does not lead to another round", lambda: where(e))
    for p in cx.events:
        if p.kind == "panic" and p.id > e.id:
            x = band(expand(eng, p.pc), c)
            if x is not ZERO:
                rep.fail(key + "/panic", what + " does not panic", "%s then %s" % (where(e), where(p)))
                return
    rep.ok(key + "/panic", what + " does not panic")


def timeouts(cx):
    eng, rep = cx.eng, cx.rep
    polls = [e for e in cx.events if e.kind == "effect" and "Poll::poll" in e.name]
    for k, e in enumerate(polls):
        a = e.args[2]
        ty = [i for i, t in enumerate(eng.tys) if t["n"] == "std::option::Option<std::time::Duration>"][0]
        none = expand(eng, band(variant_cond(eng, ty, a, "None")[0], e.pc))
        t = eng.sval(a, 16)
        x = expand(eng, t)
        good = none is ZERO
        if not good and len(leaves(x)) == 1 and x.op == "sel" and x.a[0].op in ("mem", "sym", "deref"):
            good = True
        rep.check(good or is_field(x), "bounded-wait%d" % k, "waiting for the network is bounded by a timeout", lambda: "%s: %s" % (where(e), show(x, 4)))
        if is_field(x):
            rep.fact("timeout", str(x.a[1]))


def is_field(x):
    return x.op == "sel" and x.a[0].op not in ("mu", "phi", "ite", "ret", "out")


def tcp_rule(cx):
    """commands: every network operation is on the command connection"""
    cx.run()
    eng, rep = cx.eng, cx.rep
    okc, exc = outcome(cx)
    care = band(hard(eng, cx.events), known_token(eng, cx.events))
    rs = results(eng, cx.events)
    n = 0
    good = ONE
    for e, err in rs:
        udp = is_udp_recv(e)
        if udp:
            continue
        n += 1
        op = e.name.split("::")[-1].split("<")[0]
        key = "%s%d" % (op, n)
        c = conj(err, expand(eng, e.pc), care)
        rep.check(c is not ZERO, key + "/reached", "the operation is reachable")
        not_past(cx, key, e, c, okc, exc, "a failing '%s'" % op)
        good = band(good, bnot(err))
        if re.search(r"TcpStream.*::(peek|read)$", e.name):
            p = payload(eng, e)
            z = conj(bnot(err), expand(eng, e.pc), ieq(SEL(e.ret, p, 8), C(8, 0)), care)
            not_past(cx, key + "-closed", e, z, okc, exc, "a connection closed by the peer")
            good = band(good, bnot(ieq(SEL(e.ret, p, 8), C(8, 0))))
    timeouts(cx)
    rep.check(n >= 5, "operations", "the network operations were found", str(n))
    if not any(is_udp_recv(e) for e in cx.events):
        x = conj(exc["NetworkException"], good, *call_facts(eng, cx.exception()["NetworkException"]))
        rep.check(x is ZERO, "no-false-alarm", "a network error is reported only if a network operation failed or the peer closed the connection", lambda: show(x, 5))


def udp_rule(cx, size=None):
    """reads: every network operation is on the state connection"""
    cx.run()
    eng, rep = cx.eng, cx.rep
    okc, exc = outcome(cx)
    size = 23 if cx.root.startswith("gripper") else 2373
    token = known_token(eng, cx.events)
    rec = received(eng, cx.events, size)
    rep.check(len(rec) >= 2, "receives", "the receive operations were found", str(len(rec)))
    progress(cx, rec)
    for k, x in sorted(exc.items()):
        if k == "NetworkException":
            rep.check(x is not ZERO, "network", "a robot that sends no state is reported as a network error")
        else:
            rep.check(x is ZERO, "no:" + k, "a read fails only with a network error", lambda: show(x, 5))
    panics = [p for p in cx.events if p.kind == "panic"]
    wrong = no_datagram(eng, rec, size)
    for k, p in enumerate(panics):
        c = band(expand(eng, p.pc), token)
        dec = [a for a in atoms_of(c) if a.op == "decodes" and (wire(eng, a.a[0]) or (0,))[0] == size]
        if dec and "result" in p.name:
            rep.check(case(c, wrong) is ZERO, "length%d" % k, "a datagram of another length is not decoded", lambda: where(p))
        elif not p.loops and not dec:
            rep.check(case(c, wrong) is ZERO, "no-panic%d" % k, "neither silence nor a datagram of a wrong length panics", lambda: where(p))
    timeouts(cx)


def progress(cx, rec):
    eng, rep = cx.eng, cx.rep
    n = 0
    for l in sorted(eng.loop_info):
        mine = [e for e in cx.events if is_udp_recv(e) and l in e.loops]
        inner = {x for e in cx.events if "Poll::poll" in e.name and l in e.loops for x in e.loops[e.loops.index(l) + 1:]}
        if not mine or inner:
            continue    # the loops that wait for datagrams themselves
        n += 1
        a = case(again(eng, cx.events, l), no_datagram(eng, [x for x in rec if x[3] in mine]))
        rep.check(a is ZERO, "progress%d" % n, "no round of a receiving loop is followed by another one unless a datagram was received in it",
                  lambda: "%s: %s" % (eng.loop_info[l]["loc"], show(a, 5)))
    rep.check(n > 0, "loops", "the receiving loops were found")
    return n


def motion_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    okc, exc = outcome(cx)
    rec = received(eng, cx.events, 2373)
    progress(cx, rec)
    n = 0
    for e, err in results(eng, cx.events):
        if not is_udp_send(e):
            continue
        n += 1
        p = payload(eng, e)
        for tag, bad in (("err", err), ("short", band(bnot(err), bnot(ieq(SEL(e.ret, p, 8), C(8, 370)))))):
            c = conj(bad, expand(eng, e.pc))
            key = "send%d-%s" % (n, tag)
            what = "a command that could not be sent" if tag == "err" else "a command sent in part"
            for l in e.loops:
                rep.check(band(again(eng, cx.events, l), c) is ZERO, key + "/retry%d" % e.loops.index(l), what + " does not lead to another round", lambda: where(e))
            later = [x for x in cx.events if x.id > e.id and x.loops[:len(e.loops)] == e.loops and (x.kind == "callback" or is_udp_send(x)) and band(expand(eng, x.pc), c) is not ZERO]
            rep.check(not later, key + "/ends", what + " ends the motion", lambda: "; ".join(where(x) for x in later))
    rep.check(n >= 2, "sends", "the sends were found", str(n))
    timeouts(cx)


def rule(cx):
    if cx.root in CONTROL:
        return motion_rule(cx)
    if cx.root in ("robot_read_once", "robot_read", "gripper_read_once"):
        return udp_rule(cx)
    return tcp_rule(cx)


PROPS["P07"] = Prop(
    sorted(set(PROPS["P02"].roots) | {"robot_new", "gripper_new", "robot_read_once", "robot_read", "gripper_read_once"} | set(CONTROL)),
    rule, floor=900,
    rule_text="outcome of every network operation's failure: the conditions of success, of every other error, of panics and of another round of each enclosing loop exclude it; receiving loops make progress only with a datagram; every wait has a timeout.",
)
