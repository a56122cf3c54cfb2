"""P12 a motion is started as requested; P13 it ends when the robot says so; P14 errors stop it; P16 callbacks."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
from commands import compare_wire, decoded, response_is_own, response_sources, HEADER, texts, id_term
from connect import opt_or
from dgram import Dg
from control import Ctl, ROOT, spec_apply
from misc import Quiet, Sub
from state import millis, fields_of, robot_state_ty
from fresh import gated

GENERATOR = {"JointPositions": 0, "JointVelocities": 1, "CartesianPose": 2, "CartesianVelocities": 3}
MODE, CTRL, RMODE = 2280, 2281, 2364  # wire offsets in a state datagram
MOVING, EXTERNAL, IDLE = 2, 2, 0
MOVE_BYTES, STOP_BYTES = 68, 12
NMOVE = 10
DEVIATION = (10.0, 3.12, 6.283185307179586)
REALTIME_FILE = b"/sys/kernel/realtime"


def kept(cx):
    """where a robot object keeps the modes of the newest state and its realtime setting, found in what Robot::new returns"""
    cx.run("robot_new")
    eng = cx.eng
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    cells, ty = cx.payload("Ok")
    dg = Dg(eng)
    out = {MODE: [], CTRL: [], "rt": [], "enforce": None}
    v, oty = eng.rootargs["rt"]
    _, pty = cx.payload("Some", v, oty)
    enf = [x["d"] for x in eng.tys[pty]["variants"] if x["n"] == "Enforce"]
    rt, _ = opt_or(cx, "rt", C(1, enf[0] if enf else 0))
    out["enforce"] = enf[0] if enf else None
    for o in range(eng.size(ty)):
        c = sub_cells(cells, o, 1)
        if len(c) != 1:
            continue
        t = value_under(eng, c[0][1], okc)
        if t is rt:
            out["rt"].append(o)
        x = dg.absorb(t)
        if x.op == "sel" and x.a[0].op == "state" and x.a[1] in (MODE, CTRL):
            out[x.a[1]].append(o)
        elif t.op == "sel" and t.a[0].op == "de":
            for w in (MODE, CTRL):
                if t is wire_field(eng, t.a[0].a[0], t.a[0], w, 1):
                    out[w].append(o)
    return out


class Life:
    """requests, responses and outcomes of one control function"""

    def __init__(self, cx, ctl=True):
        self.keep = kept(cx)
        self.cx, self.eng, self.rep = cx, cx.eng, cx.rep
        self.ok = False
        rep = self.rep
        k = self.keep
        if not rep.check(k[MODE] and k[CTRL] and k["rt"] and k["enforce"] is not None, "kept", "a robot remembers the modes of its newest state and the realtime setting", str(k)):
            return
        if ctl:
            self.ctl = Ctl(cx)
            if not self.ctl.ok:
                return
        else:
            self.ctl = None
            cx.run()
        eng = self.eng
        self.r = "r"
        sends = sorted([e for e in cx.events if is_tcp_send(e)], key=lambda e: e.id)
        self.moves, self.stops, other = [], [], []
        for e in sends:
            s = sent(eng, e)
            n = wire(eng, s[0]) if s is not None and s[2] else None
            num = wire_value(eng, s[0], s[1], 0, 4) if n else None
            if num is C(4, 1):
                self.moves.append((e, s))
            elif num is C(4, 2):
                self.stops.append((e, s))
            else:
                other.append(e)
        if not rep.check(not other, "requests", "the only requests are Move and Stop", "; ".join(where(e) for e in other)):
            return
        if not rep.check(len(self.moves) == 1 and not self.moves[0][0].loops, "one-move", "a motion is requested from one place, once", "; ".join(where(e) for e, _ in self.moves)):
            return
        self.move, self.ms = self.moves[0]
        self.cid = expand(eng, wire_value(eng, self.ms[0], self.ms[1], 4, 4))
        self.okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
        self.exc = {k: expand(eng, band(v, cx.st.pc)) for k, v in cx.exception().items()}
        self.ok = True

    def word(self, off):
        """a byte of the robot object at entry"""
        for x in subterms(self.move.pc) | subterms(expand(self.eng, self.move.pc)):
            if x.op == "sel" and x.a[0].op == "sym" and x.a[0].a[0] == "*" + self.r and x.a[1] == off and x.sz == 1:
                return x
        return None

    def statuses(self, cond):
        """own Move responses cond depends on: [(de, status term)], and the others"""
        own, other = [], []
        for d in decoded(self.cx, cond):
            w = wire(self.eng, d.a[0])
            if not w or w[0] != HEADER["robot"][0] + 1:
                if w and w[0] < 200:
                    other.append(d)
                continue
            lay = [x for x in w[1] if x[0] == HEADER["robot"][0]][0]
            st = SEL(d, lay[2], 1)
            if not any(st in subterms(a) for a in atoms_of(cond)):
                continue
            n = len(self.eng.tys[lay[3]]["variants"])
            if response_is_own(Sub(self.cx, Quiet()), d, self.cid, "") and n == NMOVE:
                own.append((d, st))
            else:
                other.append(d)
        return own, other

    def frames(self, e):
        """conditions known to hold when e happens"""
        out = [e.pc] + list(e.ctx)
        for l in e.loops:
            h = self.eng.events.get(self.eng.loop_info[l]["head"])
            if h is not None:
                out.append(h.pc)
        return [expand(self.eng, f) for f in out]

    def cond(self, e):
        """condition of e, an event outside all loops"""
        r = expand(self.eng, e.pc)
        for c in e.ctx:
            r = band(r, expand(self.eng, c))
        return r

    def excluded(self, e, cond):
        return any(band(f, cond) is ZERO for f in self.frames(e))

    def actions(self):
        return [e for e in self.cx.events if is_udp_send(e) or (e.kind == "callback")]


def is_status(st, v):
    return ieq(st, C(1, v))


# ------------------------------------------------------------------ P12
def start_rule(cx):
    if cx.root in ("robot_read_once", "robot_read"):
        return modes_rule(cx)
    lf = Life(cx, cx.root in CONTROL)
    if not lf.ok:
        return
    eng, rep, k = cx.eng, cx.rep, lf.keep
    e, s = lf.move, lf.ms
    # the request
    if cx.root in CONTROL:
        kind, torque = ROOT[cx.root]
    else:
        kind, torque = "JointPositions", False
    gen = GENERATOR[kind or "JointVelocities"]
    con = expand(eng, wire_value(eng, s[0], s[1], 12, 4))
    text = "the requested controller is the one the function and its argument stand for"
    if "cm" in eng.rootargs:
        v, ty = eng.rootargs["cm"]
        p, pty = cx.payload("Some", v, ty)
        none, some = variant_cond(eng, ty, v, "None")[0], variant_cond(eng, ty, v, "Some")[0]
        cart, joint = (variant_cond(eng, pty, p, n)[0] for n in ("CartesianImpedance", "JointImpedance"))
        for n, c, want in (("none", band(none, bnot(some)), 0), ("joint", conj(bnot(none), some, joint, bnot(cart)), 0), ("cartesian", conj(bnot(none), some, cart, bnot(joint)), 1)):
            g = restrict(con, c)
            rep.check(g is C(4, want), "request/controller:" + n, text, lambda: "found %s" % show(g, 6))
    else:
        rep.check(con is C(4, 2 if torque else 0), "request/controller", text, lambda: "found %s" % show(con, 6))
    got = wire_value(eng, s[0], s[1], 12, 4)
    expect = [(0, 4, C(4, 1)), (4, 4, wire_value(eng, s[0], s[1], 4, 4)), (8, 4, C(4, MOVE_BYTES)), (12, 4, got), (16, 4, C(4, gen))]
    expect += [(20 + 8 * i, 8, F(DEVIATION[i % 3])) for i in range(6)]
    compare_wire(cx, s[0], s[1], expect, "request")
    rep.check(id_term(lf.cid) is not None, "request/id", "the id of the motion is the connection's counter", lambda: show(lf.cid, 5))
    # when it is sent
    mv = expand(eng, e.pc)
    mg, ct, rt = (lf.word(k[x][0]) for x in (MODE, CTRL, "rt"))
    if rep.check(mg is not None and ct is not None and rt is not None, "depends", "a motion is started depending on the modes of the newest state and the realtime setting", lambda: show(mv, 6)):
        for v in (1, 2, 3, 4):
            rep.check(band(mv, ieq(mg, C(1, v))) is ZERO, "idle/generator:%d" % v, "no motion is requested while the newest state reports a running motion", lambda: show(mv, 6))
        rep.check(band(mv, ieq(ct, C(1, EXTERNAL))) is ZERO, "idle/controller", "no motion is requested while the newest state reports an external controller", lambda: show(mv, 6))
        enforce = ieq(rt, C(1, k["enforce"]))
        idle = conj(ieq(mg, C(1, IDLE)), *[bnot(ieq(mg, C(1, x))) for x in (1, 2, 3, 4)], bnot(ieq(ct, C(1, EXTERNAL))))
        for a in atoms_of(mv):
            # 'no state yet' cannot be: the constructor waits for a first state
            if a.op == "eq" and a.a[0] is mg and a.a[1].op == "c" and a.a[1].a[0] > 4:
                idle = band(idle, bnot(atom(a)))
        rest = under(mv, band(idle, bnot(enforce)))
        rep.check(rest is not ZERO and all(a.op == "ovf" for a in atoms_of(rest)), "unconditional", "with realtime ignored and no motion running the motion is always requested", lambda: show(rest, 6))
        realtime(lf, mv, enforce, idle)
    # refusal
    cmd = lf.exc["CommandException"]
    own, other = lf.statuses(cmd)
    if not rep.check(len(own) == 1 and not other, "one-response", "a refusal is decided by the response to this request", "; ".join(show(d, 4) for d in [x for x, _ in own] + other)):
        return
    st = own[0][1]
    for v in range(NMOVE):
        c = is_status(st, v)
        if v in (0, 1):
            rep.check(band(cmd, c) is ZERO, "status:%d" % v, "an accepted motion is no command error", lambda: show(band(cmd, c), 5))
            rep.check(band(lf.okc, c) is not ZERO, "status:%d/goes-on" % v, "an accepted motion can succeed")
            continue
        rep.check(band(cmd, c) is not ZERO and band(lf.okc, c) is ZERO and band(lf.exc["ControlException"], c) is ZERO, "status:%d" % v, "a refusal is reported as a command error", lambda: show(band(lf.okc, c), 5))
        for a in lf.actions() + [x for x, _ in lf.stops]:
            rep.check(lf.excluded(a, c), "status:%d/quiet:%s" % (v, short(a.name)), "after a refusal no callback is called and nothing is sent", where(a))
    for n, c in lf.exc.items():
        if n not in ("ControlException", "NetworkException", "CommandException", "RealTimeException"):
            rep.check(c is ZERO, "no:" + n, "no other kind of error is returned", lambda: show(c, 4))
    if lf.ctl is not None:
        running(lf, gen + 1, con)
        waits(lf, gen + 1, con)


def waits(lf, gen, con):
    """an accepted motion goes on when a state reports it, or after a further verdict of the robot"""
    cx, eng, rep, ctl, k = lf.cx, lf.eng, lf.rep, lf.ctl, lf.keep
    head = eng.events[eng.loop_info[ctl.loop]["head"]].id
    obj = ("P", "r")
    text = "after the robot accepted the motion the function waits until a state reports it"
    ws = [l for l, li in eng.loop_info.items() if li["head"] in eng.events and lf.move.id < eng.events[li["head"]].id < head and all(any(t.a[0] == l and t.a[1] == obj and t.a[2] == k[x][0] for t in eng.mu_next if t.op == "mu") for x in (MODE, CTRL))]
    ws = [l for l in ws if any(l in e.loops and "HashMap" in e.name for e in cx.events)]
    if not rep.check(len(ws) == 1, "waits", text, str(len(ws))):
        return
    w = ws[0]
    last = max(e.id for e in cx.events if w in e.loops)
    after = [e for e in cx.events if last < e.id < head and e.kind == "effect"]
    if not rep.check(bool(after), "waits/goes-on", text):
        return
    # the conditions under which the first thing is done afterwards, up to the next receive (an abstracted condition may be weaker than the next)
    n = next((i for i, e in enumerate(after) if re.search(r"UdpSocket|recv", e.name)), 0)
    xs = [f for e in after[:n + 1] for f in lf.frames(e)]
    mode, ctrl = ([t for t in eng.mu_next if t.op == "mu" and t.a[0] == w and t.a[1] == obj and t.a[2] == k[y][0]][0] for y in (MODE, CTRL))
    store = {e.key for e in cx.events if w in e.loops and "HashMap" in e.name and not e.name.endswith("insert")}

    def answered(c):
        return c is ZERO or any(decided(c, a) is not None for a in atoms_of(c) if mentions(a, lambda y: y.op == "ev" and y.a[0] in store))

    for j in range(5):
        if j != gen:
            c = [band(x, exactly(mode, j, 5)) for x in xs]
            rep.check(any(answered(x) for x in c), "waits/generator:%d" % j, "%s (motion generator)" % text, lambda: show(c[0], 5))
    for l in set(leaves(con)):
        sel = ite_cond(con, l)
        for j in range(4):
            if j != l.a[0]:
                c = [conj(x, sel, exactly(ctrl, j, 4)) for x in xs]
                rep.check(any(answered(x) for x in c), "waits/controller:%d:%d" % (l.a[0], j), "%s (controller)" % text, lambda: show(c[0], 5))


def decided(cond, a):
    """value of atom a wherever cond holds"""
    if band(cond, atom(a)) is ZERO:
        return 0
    if band(cond, bnot(atom(a))) is ZERO:
        return 1
    return None


def realtime(lf, mv, enforce, idle):
    eng, rep, cx = lf.eng, lf.rep, lf.cx
    R = lf.exc["RealTimeException"]
    rep.check(R is not ZERO and band(R, bnot(enforce)) is ZERO, "realtime/only-enforced", "a realtime error is returned only if realtime is enforced", lambda: show(R, 6))
    E = band(mv, enforce)
    rep.check(band(R, mv) is ZERO, "realtime/before", "after a realtime error no motion is requested", lambda: show(band(R, mv), 6))
    kern = [x for x in cx.events if x.kind == "effect" and any(REALTIME_FILE in y.a[0] for d in x.deep for y in subterms(d) if y.op == "bytes" and isinstance(y.a[0], bytes))]
    ok = False
    for x in kern:
        if x.name.endswith("exists"):
            ok = ok or band(E, bnot(TM.is_true(x.ret))) is ZERO
        else:
            ok = ok or any(decided(E, a) is not None for a in atoms_of(E) if x.ret is not None and mentions(a, lambda y: y is x.ret))
    rep.check(ok, "realtime/kernel", "with realtime enforced a motion is requested only on a realtime kernel", "; ".join(where(x) for x in kern) or "the kernel is not asked")
    for fn, what in (("pthread_setschedparam|sched_setscheduler", "realtime scheduling was granted"), ("mlockall", "the memory was locked")):
        ev = [x for x in cx.events if x.kind == "effect" and re.search(r"\b(%s)\b" % fn, x.name)]
        ok = any(x.ret is not None and band(E, bnot(ieq(x.ret, C(4, 0)))) is ZERO for x in ev)
        rep.check(ok, "realtime/" + fn.split("|")[0], "with realtime enforced a motion is requested only if " + what, "; ".join(where(x) for x in ev))
    for x in cx.events:
        if x.kind == "effect" and re.search(r"\bpthread_setschedparam\b", x.name):
            mx = [y for y in cx.events if re.search(r"\bsched_get_priority_max\b", y.name)]
            pol = expand(eng, x.deep[1]) if len(x.deep) > 1 else UNDEF
            rep.check(pol is C(4, 1), "realtime/policy", "the scheduling policy is first-in-first-out", lambda: show(pol, 4))
            pr = expand(eng, x.deep[2]) if len(x.deep) > 2 else UNDEF
            pr = SEL(pr, 0, 4) if pr.op != "undef" and pr.sz >= 4 else pr
            ok = any(y.ret is not None and pr in (y.ret, isub(y.ret, C(4, 1)), iadd(y.ret, C(4, 0xFFFFFFFF))) and expand(eng, y.deep[0]) is C(4, 1) for y in mx)
            rep.check(ok, "realtime/priority", "the priority is derived from the highest one", lambda: show(pr, 5))
    good = under(mv, conj(idle, enforce))
    evs = {x.ret for x in cx.events if x.kind == "effect" and x.ret is not None and re.search(r"exists|sched|mlock|metadata|try_exists|read", x.name)}
    rep.check(all(a.op == "ovf" or mentions(a, lambda y: y in evs) for a in atoms_of(good)), "realtime/else", "with realtime enforced nothing but the realtime checks can prevent the motion", lambda: show(good, 6))


def running(lf, gen, con):
    """callbacks see only states that report the requested motion"""
    cx, eng, rep, ctl, dg = lf.cx, lf.eng, lf.rep, lf.ctl, lf.ctl.dg
    sig = ctl.cur.a[0]
    for name, phi in motion_invariant(lf, gen, con):
        first = ctl.calls[0].e
        if lf_implies(lf, first, phi(ctl.cur)):
            rep.ok("running/" + name, "the state a callback gets reports the motion")
            continue
        ok, why = inductive(lf, sig, phi)
        rep.check(ok, "running/" + name, "every state a callback gets reports the requested motion (%s)" % name, why)


def motion_invariant(lf, gen, con):
    out = [("moving", lambda s: is_value(SEL(s, RMODE, 1), MOVING, 7)), ("generator", lambda s: is_value(SEL(s, MODE, 1), gen, 5))]
    done = set()
    for l in leaves(con):
        if l in done:
            continue
        done.add(l)
        # condition on the arguments that selects this controller
        sel = ite_cond(con, l)
        out.append(("controller %d" % l.a[0], lambda s, sel=sel, l=l: bor(bnot(sel), is_value(SEL(s, CTRL, 1), l.a[0], 4))))
    return out


def is_value(x, k, n):
    """x, an enumeration with n values, is k: said directly or by excluding the others"""
    return bor(ieq(x, C(1, k)), conj(*[bnot(ieq(x, C(1, j))) for j in range(n) if j != k]))


def exactly(x, k, n):
    return conj(ieq(x, C(1, k)), *[bnot(ieq(x, C(1, j))) for j in list(range(n)) + [255] if j != k])


def ite_cond(t, leaf):
    if t.op != "ite":
        return ONE if t is leaf else ZERO
    a = atom(t.a[0])
    return bor(band(a, ite_cond(t.a[1], leaf)), band(bnot(a), ite_cond(t.a[2], leaf)))


def lf_implies(lf, e, phi):
    dg = lf.ctl.dg
    return any(band(dg.absorb(f), bnot(phi)) is ZERO for f in lf.frames(e)[:2])


def inductive(lf, sig, phi):
    eng, ctl, dg = lf.eng, lf.ctl, lf.ctl.dg
    if sig.op != "dgmu" or sig.a[0] != ctl.loop:
        return False, "the state is not carried by the control loop: %s" % show(sig, 4)
    li = eng.loop_info[ctl.loop]
    head = eng.events[li["head"]]
    i, n = dg.state(sig.a[1]), dg.state(sig.a[2])
    if band(absorbed(lf, head.pc), bnot(phi(i))) is not ZERO:
        return False, "not implied when the control loop is entered"
    if band(absorbed(lf, li["back_pc"]), bnot(phi(n))) is not ZERO:
        return False, "not implied when the control loop goes on"
    return True, ""


def absorbed(lf, c):
    m = getattr(lf, "_abs", None)
    if m is None:
        m = lf._abs = {}
    if c not in m:
        m[c] = lf.ctl.dg.absorb(expand(lf.eng, c))
    return m[c]


def modes_rule(cx):
    """reading keeps the remembered modes in step with the newest state"""
    k = kept(cx)
    cx.run()
    eng, rep = cx.eng, cx.rep
    dg = Dg(eng)
    okc = band(cx.variant("Ok"), cx.st.pc)
    o = cx.st.mem[("P", "r")]
    if cx.root == "robot_read_once":
        cells, ty = cx.payload("Ok")
        from state import fields_of
        f = fields_of(eng, ty)["q"]
        q = dg.absorb(piecewise(eng.sval(sub_cells(cells, f[0], 56), 56), lambda p: restrict(p, okc)))
    else:
        from state import fields_of, robot_state_ty
        cb = [e for e in cx.events if e.kind == "callback"]
        off, _ = fields_of(eng, robot_state_ty(eng))["q"]
        q = dg.absorb(restrict(SEL(cb[0].deep[0], off, 56), cb[0].pc)) if cb else UNDEF
    sg = dg.sigs(q)
    if not rep.check(len(sg) == 1, "state", "one state is read", lambda: show(q, 5)):
        return
    s = dg.state(next(iter(sg)))
    for w in (MODE, CTRL):
        for off in k[w]:
            got = dg.absorb(restrict(CAT(o.read(off, 1), 1), okc))
            rep.check(got is SEL(s, w, 1), "remembered:%d" % w, "after a state was read its modes are the remembered ones", lambda: show(got, 6))


PROPS["P12"] = Prop(CONTROL + ["robot_joint_motion", "robot_read_once", "robot_read"], start_rule, floor=300,
    rule_text="value-flow: the single Move request of every motion function byte by byte; its send condition against the remembered modes, the realtime setting and the results of the realtime calls; "
              "outcome and action conditions against the status of the response filed under its id; by induction over the control loop, every state passed to a callback reports the requested motion.")


# ------------------------------------------------------------------ P13
def finished_(lf):
    r = ZERO
    for c in lf.ctl.calls:
        r = bor(r, c.finished)
    return r


def invariant_now(lf):
    """what is known of the state the last callback got (proved by P12's induction)"""
    gen = GENERATOR[lf.ctl.motion_kind or "JointVelocities"] + 1
    return conj(bnot(ieq(SEL(lf.ctl.cur, MODE, 1), C(1, IDLE))), *[bnot(ieq(SEL(lf.ctl.cur, MODE, 1), C(1, j))) for j in range(5) if j != gen], ieq(SEL(lf.ctl.cur, MODE, 1), C(1, gen)))


def finish_rule(cx):
    lf = Life(cx)
    if not lf.ok:
        return
    eng, rep, ctl, dg = cx.eng, cx.rep, lf.ctl, lf.ctl.dg
    gen = GENERATOR[ctl.motion_kind or "JointVelocities"] + 1
    ok, why = inductive(lf, ctl.cur.a[0], lambda s: is_value(SEL(s, MODE, 1), gen, 5))
    rep.check(ok or lf_implies(lf, ctl.calls[0].e, is_value(SEL(ctl.cur, MODE, 1), gen, 5)), "running", "the motion is running whenever a callback is called", why)
    okc = band(absorbed(lf, lf.okc), invariant_now(lf))
    fin = finished_(lf)
    rep.check(okc is not ZERO, "can-succeed", "a motion can end with success")
    rep.check(band(okc, bnot(fin)) is ZERO, "after-last-setpoint", "success is reported only after a callback marked its setpoint as the last one", lambda: show(band(okc, bnot(fin)), 6))
    # the robot's answer
    own, other = lf.statuses(lf.okc)
    ctrl = lf.exc["ControlException"]
    late = [(d, st) for d, st in own if min((i for i in src_events(cx, d)), default=0) > max(c.e.id for c in ctl.calls)]
    if rep.check(len(late) == 1 and not other, "answer", "success depends on one response to the motion request that is read after the last setpoint", "; ".join(show(d, 4) for d in [x for x, _ in late] + other)):
        d, st = late[0]
        ast = dg.absorb(st)
        for v in range(NMOVE):
            c = ieq(ast, C(1, v))
            o = band(okc, c)
            if v in (0, 1):
                rep.check(o is not ZERO, "status:%d" % v, "a motion the robot finished is reported as success")
            else:
                rep.check(o is ZERO, "status:%d" % v, "a motion the robot did not finish is not reported as success", lambda: show(o, 5))
                rep.check(band(ctrl, is_status(st, v)) is not ZERO, "status:%d/error" % v, "but as a control error")
        for n, c in lf.exc.items():
            if n not in ("ControlException", "NetworkException"):
                own2, _ = lf.statuses(c)
                rep.check(not any(x is d for x, _ in own2), "kind:" + n, "the final answer leads to no other kind of error")
    # at rest: by the condition of Ok itself, or already when the answer it needs is taken
    ends = [absorbed(lf, f) for d, _ in late for i in src_events(cx, d) for f in lf.frames(eng.events[i])]
    obj = cx.st.mem[("P", "r")]
    for w, name, bad in ((MODE, "generator", (1, 2, 3, 4)), (CTRL, "controller", (EXTERNAL,))):
        for off in lf.keep[w]:
            v = settle(lf, dg.absorb(restrict(expand(eng, CAT(obj.read(off, 1), 1)), lf.okc)), okc)
            for b in bad:
                x = exactly(v, b, 5)
                rep.check(band(okc, x) is ZERO or any(band(f, x) is ZERO for f in ends), "rest/%s:%d" % (name, b), "success is reported only after a state that reports no running motion", lambda: show(v, 5))
            sg = dg.sigs(restrict(v, okc))
            rep.check(len(sg) == 1 and finishing(lf, next(iter(sg))), "rest/%s-newest" % name, "that state was received while the finished command was being sent", lambda: show(restrict(v, okc), 5))
    # the finishing commands
    for e, s in ctl.fin:
        rep.check(band(absorbed(lf, e.pc), bnot(fin)) is ZERO or any(band(f, bnot(fin)) is ZERO for f in lf.frames(e)), "finish-after-last", "a finishing command is sent only after the last setpoint", where(e))
        rep.check(all(not lf.excluded(e, is_status(st, v)) for d, st in late for v in (0, 1)) and not any(mentions(f, lambda x: x in {st for _, st in late}) for f in lf.frames(e)[:1]), "finish-before-answer",
                  "the finishing command is sent without waiting for the answer", where(e))
    for e, s in ctl.main:
        for c in ctl.calls:
            rep.check(at_event(bnot(c.finished), e) is ONE or lf.excluded(e, c.finished), "main-not-last:" + c.kind, "an ordinary command is sent only if the setpoint is not the last one", where(e))
    back = expand(eng, eng.loop_info[ctl.loop]["back_pc"])
    for c in ctl.calls:
        rep.check(band(back, c.finished) is ZERO, "no-call-after-last:" + c.kind, "no callback is called after the last setpoint")
    for e, _ in lf.stops:
        rep.check(band(lf.cond(e), lf.okc) is ZERO, "no-stop", "a motion that succeeds is not stopped", where(e))


def settle(lf, t, cond):
    """t with the choices of a datagram that cond (absorbed) excludes removed"""
    dg = lf.ctl.dg
    if t.op == "ite":
        t = restrict(t, cond)
    b = t.a[0] if t.op == "sel" else t
    if b.op != "state" or b.a[0].op != "ite":
        return t
    left = {s for c, s in gated(b.a[0]) if band(absorbed(lf, c), cond) is not ZERO}
    if len(left) != 1:
        return t
    x = dg.state(next(iter(left)))
    return SEL(x, t.a[1], t.sz) if t.op == "sel" else x


def src_events(cx, d):
    return [e.id for _, e in response_sources(cx, d.a[1]) if e is not None]


def fin_loops(lf):
    return {l for e, _ in lf.ctl.fin for l in e.loops}


def finishing(lf, sig):
    """sig was received in the loop that sends the finishing command"""
    if sig.op == "ite":
        return all(finishing(lf, x) for x in leaves(sig))
    fin = fin_loops(lf)
    if sig.op == "dgmu":
        head = lf.eng.events.get(lf.eng.loop_info[sig.a[0]]["head"])
        return sig.a[0] in fin or (head is not None and bool(fin & set(head.loops)))
    return sig.op == "dg" and any(x.op == "ev" and fin & set(ev.loops) for x in subterms(sig) for ev in lf.cx.events if x.op == "ev" and ev.key == x.a[0])


PROPS["P13"] = Prop(CONTROL, finish_rule, floor=150,
    rule_text="value-flow: condition of Ok against the finished flags of the setpoints, the status of the final response (provenance: filed under the id of the Move request, read after the last setpoint), and the "
              "remembered modes of the newest state; conditions of the ordinary and finishing commands and of the loop's back edge against the finished flags.")


# ------------------------------------------------------------------ P14
def abort_rule(cx):
    lf = Life(cx)
    if not lf.ok:
        return
    eng, rep, ctl = cx.eng, cx.rep, lf.ctl
    if not rep.check(len(lf.stops) == 1 and not lf.stops[0][0].loops, "one-stop", "a motion is stopped from one place, once", "; ".join(where(e) for e, _ in lf.stops)):
        return
    e, s = lf.stops[0]
    cid = expand(eng, wire_value(eng, s[0], s[1], 4, 4))
    compare_wire(cx, s[0], s[1], [(0, 4, C(4, 2)), (4, 4, wire_value(eng, s[0], s[1], 4, 4)), (8, 4, C(4, STOP_BYTES))], "request")
    rep.check(cid is iadd(lf.cid, C(4, 1)), "request/id", "the Stop request has an id of its own", lambda: show(cid, 5))
    sp = lf.cond(e)
    rep.check(band(sp, lf.okc) is ZERO, "never-on-success", "a successful motion is not stopped")
    head = expand(eng, eng.events[eng.loop_info[ctl.loop]["head"]].pc)
    err = expand(eng, band(cx.variant("Err"), cx.st.pc))
    left = conj(err, head, bnot(drop_ovf(sp)))
    rep.check(left is ZERO, "always-on-error", "every error after the first callback stops the motion", lambda: show(left, 7))
    for a in lf.actions():
        if a.id > e.id:
            rep.check(lf.excluded(a, sp), "quiet:%s" % short(a.name), "after the Stop no callback is called and no command sent", where(a))
    rep.check(not any(l in e.loops for l in (ctl.loop,)), "after-loop", "the motion is stopped after the control loop")
    # the error reported is the one that happened
    late = {ev.key for ev in cx.events if ev.id >= e.id}
    for n, c in lf.exc.items():
        bad = [a for a in atoms_of(c) if mentions(a, lambda x: x.op == "ev" and x.a[0] in late)]
        rep.check(not bad, "original:" + n, "the kind of error does not depend on what happens while stopping", lambda: "; ".join(show(b, 4) for b in bad[:4]))
    cells, ety = cx.payload("Err")
    val = [(o, value_under(eng, t, err)) for o, t in cells]
    bad = [x for o, t in val for x in subterms(t) if x.op == "ev" and x.a[0] in late]
    rep.check(not bad, "original-content", "nor does its content", lambda: "; ".join(show(b, 3) for b in bad[:4]))
    control_errors(lf)


def drop_ovf(c):
    """an exhausted id counter aside"""
    for a in atoms_of(c):
        if a.op == "ovf":
            c = restrict(c, bnot(atom(a)))
    return c


REFLEX = 6
CAUSE = {6: ("reflex",), 7: ("user stop", "emergency")}


def control_errors(lf):
    """a robot that leaves the motion: the error is its own verdict on this motion"""
    cx, eng, rep, ctl = lf.cx, lf.eng, lf.rep, lf.ctl
    c = lf.exc["ControlException"]
    own, other = lf.statuses(c)
    rep.check(own and not other, "verdict", "a control error is decided by responses to this motion's request only", "; ".join(show(d, 4) for d in other))
    cells, ety = cx.payload("Err")
    v = [x for x in eng.tys[ety]["variants"] if x["n"] == "ControlException"][0]
    fl = {n: (o, t) for o, t, n in v["fields"]}
    if not rep.check(set(fl) == {"log", "error"}, "fields", "a control error has a log and a text", str(fl)):
        return
    o, t = fl["error"]
    n = eng.size(t)
    # the word that names the text: leaves of its first byte
    val = {x: live_value(eng, eng.sval(sub_cells(cells, o + x, 1), 1), c) for x in range(0, n, 8)}
    word = [x for x, v in sorted(val.items()) if v is not None and all(texts(l) for l in leaves(v))]
    if not rep.check(bool(word), "text", "a control error has a text"):
        return
    msg = restrict(val[word[-1]], c)
    sts = set()
    for d in decoded(cx, msg):
        w = wire(eng, d.a[0])
        if w and w[0] == HEADER["robot"][0] + 1:
            response_is_own(cx, d, lf.cid, "text/own")
            lay = [x for x in w[1] if x[0] == HEADER["robot"][0]][0]
            sts.add(SEL(d, lay[2], 1))
    off, ft = fields_of(eng, robot_state_ty(eng))["last_motion_errors"]
    call = ctl.calls[0].e
    tm = ctl.dg.absorb(restrict(SEL(call.deep[0], off, eng.size(ft)), call.pc))
    sg = ctl.dg.sigs(tm)
    tmpl = ctl.dg.hole(tm, next(iter(sg))) if len(sg) == 1 else None
    listed = set()
    for s in range(2, NMOVE):
        for l in leaves(rewrite(msg, lambda x: C(1, s) if x in sts else None, {})):
            tx = " ".join(texts(l)).lower()
            own_, other_ = CAUSE.get(s, ()), [w for k, ws in CAUSE.items() if k != s for w in ws]
            errs = set()
            if s == REFLEX and tmpl is not None:
                for x in subterms(ctl.dg.absorb(l)):
                    if x.op == tmpl.op and x.sz == tmpl.sz:
                        y = ctl.dg.sigs(x)
                        if len(y) == 1 and ctl.dg.hole(x, next(iter(y))) is tmpl:
                            errs |= y
            listed |= errs
            rep.check(not own_ or any(w in tx for w in own_) or errs, "text:%d" % s, "the text of a control error names the robot's reason", tx[:300])
            rep.check(not any(w in tx for w in other_), "text-only:%d" % s, "and no other one", tx[:300])
    sig = ctl.cur.a[0]
    want = [("before the first callback", lambda x: sig.op == "dgmu" and x is sig.a[1]), ("during the motion", lambda x: sig.op == "dgmu" and x is sig.a[2]), ("at the end", lambda x: finishing(lf, x))]
    for name, f in want:
        rep.check(any(f(x) for x in listed), "reflex-errors: " + name, "after a reflex the text lists the errors of the state in which the motion ended", lambda: "; ".join(show(x, 3) for x in listed))
    rep.check(all(any(f(x) for _, f in want) for x in listed), "reflex-errors", "and of no other state", lambda: "; ".join(show(x, 3) for x in listed))


PROPS["P14"] = Prop(CONTROL, abort_rule, floor=150,
    rule_text="value-flow: send condition of the single Stop request against the outcome conditions and the entry condition of the control loop; independence of the returned error from every call made while "
              "stopping; provenance and texts of control errors.")


# ------------------------------------------------------------------ P16
def protocol_rule(cx):
    lf = Life(cx)
    if not lf.ok:
        return
    eng, rep, ctl = cx.eng, cx.rep, lf.ctl
    li = eng.loop_info[ctl.loop]
    back = expand(eng, li["back_pc"])
    rep.check(back is not ZERO, "loop", "the control loop can go on")
    for c in ctl.calls:
        rep.check(band(back, bnot(expand(eng, c.e.pc))) is ZERO, "every-round:" + c.kind, "the callback is called in every round of the control loop", where(c.e))
        rep.check(c.e.loops == (ctl.loop,), "once:" + c.kind, "and only once per round", where(c.e))
    if ctl.motion and ctl.torque:
        rep.check(ctl.motion.e.id < ctl.torque.e.id, "order", "the motion callback is called before the torque callback")
        rep.check(lf.excluded(ctl.torque.e, ctl.motion.finished), "motion-first", "the torque callback is not called once the motion callback gave its last setpoint", where(ctl.torque.e))
    # one command per round
    pcs = [expand(eng, e.pc) for e, _ in ctl.main]
    for i, p in enumerate(pcs):
        rep.check(ctl.main[i][0].loops == (ctl.loop,), "send-once", "a command is not sent repeatedly in a round", where(ctl.main[i][0]))
        rep.check(ctl.main[i][0].id > max(c.e.id for c in ctl.calls), "send-after-calls", "the command is sent after the callbacks", where(ctl.main[i][0]))
        for j in range(i):
            rep.check(band(p, pcs[j]) is ZERO, "send-one", "only one command is sent in a round", "%s; %s" % (where(ctl.main[i][0]), where(ctl.main[j][0])))
    some = ZERO
    for p in pcs:
        some = bor(some, p)
    rep.check(band(back, bnot(some)) is ZERO, "send-every-round", "a command is sent in every round")
    # the time since the state before
    for c in ctl.calls:
        ok, why = time_step(lf, c.e)
        rep.check(ok, "time-step:" + c.kind, "the time step a callback gets is the time of its state minus the time of the state before it (zero at first)", why)


def time_step(lf, e):
    """(holds, what was found instead)"""
    eng, ctl, dg = lf.eng, lf.ctl, lf.ctl.dg
    cur = ctl.cur.a[0]
    if cur.op != "dgmu" or cur.a[0] != ctl.loop:
        return False, "the state is not carried by the control loop: %s" % show(cur, 4)
    init, nxt = dg.state(cur.a[1]), dg.state(cur.a[2])
    prev = dg.state(mk("dgmu", 0, cur.a[0], cur.a[1], cur))
    pc = absorbed(lf, e.pc)
    arg = expand(eng, e.deep[1]) if len(e.deep) > 1 else None
    if arg is None or arg.sz != 16:
        return False, "no time step is given"
    for spec in ctl.steps:
        def want(a, b):
            return [(o, x) for (o, _), x in zip(spec, spec_apply([t for _, t in spec], a=SEL(a, 0, 8), b=SEL(b, 0, 8)))]

        def same(got, w, pc):
            return all(restrict(got(o, t.sz), pc) is restrict(t, pc) for o, t in w)

        a = dg.absorb(restrict(arg, expand(eng, e.pc)))
        if same(lambda o, n: SEL(a, o, n), want(ctl.cur, prev), pc):
            return True, ""
        # carried by the loop as a value of its own
        mus = {o: SEL(arg, o, t.sz) for o, t in spec}
        if all(m.op == "mu" and m in eng.mu_next and m.a[0] == ctl.loop for m in mus.values()):
            back = eng.loop_info[ctl.loop]["back_pc"]
            if all(eng.mu_init[m] is C(m.sz, 0) for m in mus.values()) and same(
                    lambda o, n: dg.absorb(expand(eng, restrict(eng.mu_next[mus[o]], back))), want(nxt, ctl.cur), absorbed(lf, back)):
                return True, ""
    return False, show(a, 6)[:400]


PROPS["P16"] = Prop(CONTROL, protocol_rule, floor=60,
    rule_text="value-flow: condition of the control loop's back edge against the conditions of the callbacks and of the sends (every round, once, mutually exclusive); the time step argument equals the difference of the "
              "time stamps of the datagram of this round and of the round before (loop-carried datagram signatures), as defined by reference functions.")
