"""Control loops: what is sent for what the callbacks return."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
from dgram import Dg
from numeric import Num, same_number
from state import WIRE, fields_of, robot_state_ty, fadd_, fmul_, fsub_
from fresh import innermost

COMMAND = 370
# command field: wire offset, number of doubles
FIELD = {"q_c": (8, 7), "dq_c": (64, 7), "O_T_EE_c": (120, 16), "O_dP_EE_c": (248, 6), "elbow_c": (296, 2), "tau_J_d": (314, 7)}
ELBOW_FLAG, FINISHED_FLAG = 312, 313
# setpoint type: setpoint field, command field, reference fields of the state
KIND = {
    "JointPositions": ("q", "q_c", ("q_d", "dq_d", "ddq_d")),
    "JointVelocities": ("dq", "dq_c", ("dq_d", "ddq_d")),
    "CartesianPose": ("O_T_EE", "O_T_EE_c", ("O_T_EE_c", "O_dP_EE_c", "O_ddP_EE_c")),
    "CartesianVelocities": ("O_dP_EE", "O_dP_EE_c", ("O_dP_EE_c", "O_ddP_EE_c")),
    "Torques": ("tau_J", "tau_J_d", ("tau_J_d",)),
}
ROOT = {
    "control_joint_positions": ("JointPositions", False), "control_joint_velocities": ("JointVelocities", False),
    "control_cartesian_pose": ("CartesianPose", False), "control_cartesian_velocities": ("CartesianVelocities", False),
    "control_torques": (None, True), "control_torques_and_joint_positions": ("JointPositions", True),
    "control_torques_and_joint_velocities": ("JointVelocities", True), "control_torques_and_cartesian_pose": ("CartesianPose", True),
    "control_torques_and_cartesian_velocities": ("CartesianVelocities", True),
    "robot_joint_motion": ("JointPositions", False),
}


class Call:
    """a setpoint a callback returned"""

    def __init__(self, ctl, e, kind):
        eng = ctl.eng
        self.e, self.kind = e, kind
        self.ty = e.retty
        self.fl = fields_of(eng, e.retty)
        name, self.cmd, self.refs = KIND[kind]
        self.off = self.fl[name][0]
        flags = [o for n, (o, t) in self.fl.items() if eng.tys[t]["k"] == "bool"]
        self.finished = TM.is_true(SEL(e.ret, flags[0], 1)) if len(flags) == 1 else None
        self.eng = eng

    def value(self, i):
        return SEL(self.e.ret, self.off + 8 * i, 8)

    def elbow(self):
        """(condition that one is given, its two values)"""
        if "elbow" not in self.fl:
            return None
        o, t = self.fl["elbow"]
        cells = [(0, SEL(self.e.ret, o, self.eng.size(t)))]
        some = variant_cond(self.eng, t, cells, "Some")[0]
        v = [x for x in self.eng.tys[t]["variants"] if x["n"] == "Some"][0]
        return some, [SEL(self.e.ret, o + v["fields"][0][0] + 8 * i, 8) for i in range(2)]


class Ctl:
    def __init__(self, cx):
        self.spec = spec_terms(cx) if ROOT[cx.root][0] == "CartesianPose" else None
        self.steps = step_terms(cx)
        cx.run()
        self.cx, self.eng, self.rep = cx, cx.eng, cx.rep
        eng = self.eng
        self.dg = Dg(eng)
        self.motion_kind, self.has_torque = ROOT[cx.root]
        self.ok = False
        self.calls = []
        for e in cx.events:
            if cx.root == "robot_joint_motion" and e.name.endswith("MotionGenerator::generate_motion"):
                e.kind, e.info, e.deep = "callback", {"gen": e.deep[0]}, e.deep[1:]
            if e.kind == "callback" and e.retty is not None:
                k = eng.tys[e.retty]["n"].split("::")[-1]
                if k in KIND:
                    self.calls.append(Call(self, e, k))
        want = ([self.motion_kind] if self.motion_kind else []) + (["Torques"] if self.has_torque else [])
        got = [c.kind for c in sorted(self.calls, key=lambda c: c.e.id)]
        if not self.rep.check(got == want, "callbacks", "each given callback is called from exactly one place, the motion callback first", "%s" % got):
            return
        self.motion = next((c for c in self.calls if c.kind != "Torques"), None)
        self.torque = next((c for c in self.calls if c.kind == "Torques"), None)
        loops = {c.e.loops for c in self.calls}
        if not self.rep.check(len(loops) == 1 and all(len(l) >= 1 for l in loops), "main-loop", "the callbacks are called in one loop", str(loops)):
            return
        self.loop = next(iter(loops))[-1]
        self.sends = []
        for e in cx.events:
            if is_udp_send(e):
                s = sent(eng, e)
                if not self.rep.check(s is not None and s[2] and wire(eng, s[0]) is not None and wire(eng, s[0])[0] == COMMAND, "send-whole:%s" % innermost_name(self, e), "every datagram sent is one complete command", where(e)):
                    return
                self.sends.append((e, s))
        self.main = [(e, s) for e, s in self.sends if innermost(e) == self.loop]
        self.fin = [(e, s) for e, s in self.sends if self.loop not in e.loops and e.id > max(c.e.id for c in self.calls)]
        if not self.rep.check(len(self.main) >= 1 and any(e.loops for e, _ in self.fin) and len(self.main) + len(self.fin) == len(self.sends), "sends",
                              "commands are sent in the control loop and, after the last setpoint, until the robot has stopped", "; ".join(where(e) for e, _ in self.sends)):
            return
        # the datagram the callbacks see
        off, _ = fields_of(eng, robot_state_ty(eng))["q"]
        sigs = set()
        for c in self.calls:
            sigs |= self.dg.sigs(self.dg.absorb(restrict(SEL(c.e.deep[0], off, 56), c.e.pc)))
        if not self.rep.check(len(sigs) == 1, "state", "the callbacks see one state", "; ".join(show(x, 4) for x in sigs)):
            return
        self.cur = self.dg.state(next(iter(sigs)))
        self.options()
        self.ok = True

    def options(self):
        eng, ra = self.eng, self.eng.rootargs
        if "l" not in ra:
            self.lim, self.cf_none, self.cf, self.cut = ONE, ZERO, F(1000.0), F(1000.0)
            self.cases = [("unfiltered, limited", True, False, self.cf, ONE)]
            return
        v, ty = ra["l"]
        none, some = variant_cond(eng, ty, v, "None")[0], variant_cond(eng, ty, v, "Some")[0]
        p, _ = self.cx.payload("Some", v, ty)
        on = TM.is_true(p[0][1])
        self.lim = bor(none, band(some, on))
        v, ty = ra["cf"]
        self.cf_none = variant_cond(eng, ty, v, "None")[0]
        p, _ = self.cx.payload("Some", v, ty)
        self.cf = p[0][1]
        self.cut = ite(self.cf_none, F(100.0), self.cf)
        # frequencies that are numbers: exactly one of < and >= holds
        below = band(fcmp("lt", self.cf, F(1000.0)), bnot(fcmp("le", F(1000.0), self.cf)))
        above = band(fcmp("le", F(1000.0), self.cf), bnot(fcmp("lt", self.cf, F(1000.0))))
        self.cases = []
        for lim, lname, lc in ((False, "not limited", conj(bnot(none), some, bnot(on))), (True, "limited", conj(bnot(none), some, on)), (True, "limited by default", conj(none, bnot(some)))):
            self.cases.append(("filtered by default, " + lname, lim, True, F(100.0), band(lc, self.cf_none)))
            self.cases.append(("filtered, " + lname, lim, True, self.cf, conj(lc, bnot(self.cf_none), below)))
            self.cases.append(("unfiltered, " + lname, lim, False, self.cf, conj(lc, bnot(self.cf_none), above)))

    def num(self, cond):
        """value numbering for one case: gates on the options are decided by the case"""
        memo = {}
        opts = {s for s in subterms(band(self.lim, band(self.cf_none, fcmp("lt", self.cf, F(1000.0))))) if s.op == "sym"}
        known = {}

        def about(a):
            r = known.get(a)
            if r is None:
                r = known[a] = mentions(a, lambda x: x in opts)
            return r

        amemo = {}

        def fix(a):
            r = memo.get(a)
            if r is None:
                r = -1
                if about(a):
                    # look into the compared values: they may be gated by the same options
                    x = restrict(self.case_atom(a, cond, amemo), cond)
                    r = 1 if x is ONE else 0 if x is ZERO else -1
                memo[a] = r
            return None if r == -1 else r

        return Num(leaf=self.leaf, fix=fix)

    def case_atom(self, a, cond, memo):
        def f(x):
            return None

        def go(t):
            return restrict(t, cond) if t.op == "ite" else t

        na = [go(x) if isinstance(x, T) else x for x in a.a]
        if all(x is y for x, y in zip(na, a.a)):
            return atom(a)
        from base import _CMP
        if a.op in _CMP:
            return _CMP[a.op](*na)
        if a.op == "is":
            return ieq(na[0], C(na[0].sz, a.a[1]))
        return atom(a)

    def leaf(self, t):
        if t.op in ("mu", "phi") or (t.op == "sel" and t.a[0].op in ("mu", "phi", "de")):
            return self.dg.absorb(t)
        return None

    def ref(self, name, i):
        return SEL(self.cur, WIRE[name][0] + 8 * i, 8)

    def field(self, e, s, name, i=0):
        w, n = FIELD[name]
        return under(wire_value(self.eng, s[0], s[1], w + 8 * i, 8), e.pc, *e.ctx)

    def elbow_field(self, e, s, i, cond):
        """what is sent if the setpoint has an elbow (part of cond)"""
        return under(restrict(self.field(e, s, "elbow_c", i), cond), *[band(c, cond) for c in (e.pc, *e.ctx)])

    def flag(self, e, s, off):
        return under(TM.is_true(wire_value(self.eng, s[0], s[1], off, 1)), e.pc, *e.ctx)


def innermost_name(ctl, e):
    return "main" if innermost(e) == ctl.loop else "finish"


# ------------------------------------------------------------------ filter and limiter, as the documentation defines them
DT = F(0.001)
EPS = 1e-3


def gain_(cut):
    return fbin("fdiv", DT, fadd_(DT, fbin("fdiv", F(1.0), fmul_(F(6.283185307179586), cut))))


def low_pass(y, last, cut):
    gain = gain_(cut)
    return fadd_(fmul_(gain, y), fmul_(fsub_(F(1.0), gain), last))


def clamp(x, hi):
    return fmax(fmin(x, hi), fneg(hi))


def limit_velocity(V, A, J, v, vl, al):
    V, A, J = F(V), F(A), F(J)
    jerk = fbin("fdiv", fsub_(fbin("fdiv", fsub_(v, vl), DT), al), DT)
    a = fadd_(al, fmul_(clamp(jerk, J), DT))
    r = fbin("fdiv", J, A)
    hi = fmin(fmul_(r, fsub_(V, vl)), A)
    lo = fmax(fmul_(r, fsub_(fneg(V), vl)), fneg(A))
    return fadd_(vl, fmul_(fmax(fmin(a, hi), lo), DT))


def limit_position(V, A, J, p, pl, vl, al):
    return fadd_(pl, fmul_(limit_velocity(V, A, J, fbin("fdiv", fsub_(p, pl), DT), vl, al), DT))


def limit_torque(t, tl):
    return fadd_(tl, fmul_(clamp(fbin("fdiv", fsub_(t, tl), DT), F(1000.0 - EPS)), DT))


def sqrt_(x):
    return mk("app", 8, "sqrt", (x,))


def dot_(a, b):
    return fadd_(*[fmul_(x, y) for x, y in zip(a, b)])


def norm_(v):
    return sqrt_(dot_(v, v))


def limit_vector(V, A, J, v, vl, al):
    """three components at once; v, vl, al: lists of three terms"""
    V, A, J = F(V), F(A), F(J)
    eps = F(2.220446049250313e-16)
    jerk = [fbin("fdiv", fsub_(fbin("fdiv", fsub_(x, y), DT), z), DT) for x, y, z in zip(v, vl, al)]
    n = norm_(jerk)
    step = fmul_(clamp(n, J), DT)
    acc = [ite(fcmp("lt", eps, n), fadd_(z, fmul_(fbin("fdiv", x, n), step)), z) for x, z in zip(jerk, al)]
    na = norm_(acc)
    unit = [fbin("fdiv", x, na) for x in acc]
    d = dot_(unit, vl)
    dist = fsub_(sqrt_(fadd_(fsub_(fmul_(d, d), dot_(vl, vl)), fmul_(V, V))), d)
    hi = fmin(fmul_(fbin("fdiv", J, A), dist), A)
    m = fmul_(fmin(na, hi), DT)
    return [ite(fcmp("lt", eps, na), fadd_(y, fmul_(u, m)), y) for u, y in zip(unit, vl)]


JOINT_J = [x - EPS for x in (7500.0, 3750.0, 5000.0, 6250.0, 7500.0, 10000.0, 10000.0)]
JOINT_A = [x - EPS for x in (15.0, 7.5, 10.0, 12.5, 15.0, 20.0, 20.0)]
JOINT_V = [x - EPS - 1e-3 * 1e-3 * a for x, a in zip((2.175,) * 4 + (2.61,) * 3, JOINT_A)]
TRANS = (2.0 - EPS - 1e-3 * 1e-3 * (13.0 - EPS), 13.0 - EPS, 6500.0 - EPS)
ROT = (2.5 - EPS - 1e-3 * 1e-3 * (25.0 - EPS), 25.0 - EPS, 12500.0 - EPS)
ELBOW = (2.175 - EPS - 1e-3 * 1e-3 * (10.0 - EPS), 10.0 - EPS, 5000.0 - EPS)


def expected(ctl, kind, value, lim, filt, cut):
    """{component: term} the command must contain for the setpoint value(i)"""
    R = ctl.ref
    n = FIELD[KIND[kind][1]][1]
    refs = KIND[kind][2]
    y = {i: value(i) for i in range(n)}
    comps = range(n)
    if kind == "CartesianPose":
        return expected_pose(ctl, y, lim, filt, cut)
    if filt:
        y = {i: low_pass(y[i], R(refs[0], i), cut) for i in comps}
    if lim:
        if kind == "JointPositions":
            y = {i: limit_position(JOINT_V[i], JOINT_A[i], JOINT_J[i], y[i], R("q_d", i), R("dq_d", i), R("ddq_d", i)) for i in comps}
        elif kind == "JointVelocities":
            y = {i: limit_velocity(JOINT_V[i], JOINT_A[i], JOINT_J[i], y[i], R("dq_d", i), R("ddq_d", i)) for i in comps}
        elif kind == "Torques":
            y = {i: limit_torque(y[i], R("tau_J_d", i)) for i in comps}
        elif kind == "CartesianVelocities":
            a = limit_vector(*TRANS, [y[i] for i in range(3)], [R("O_dP_EE_c", i) for i in range(3)], [R("O_ddP_EE_c", i) for i in range(3)])
            b = limit_vector(*ROT, [y[i] for i in range(3, 6)], [R("O_dP_EE_c", i) for i in range(3, 6)], [R("O_ddP_EE_c", i) for i in range(3, 6)])
            y = dict(enumerate(a + b))
    return {i: y[i] for i in comps}


STEP_SPEC = ("spec_step_sub", "spec_step_millis", "spec_step_saturating")
POSE_SPEC = ("spec_pose_filter", "spec_pose_omega", "spec_pose_turn")


def spec_terms(cx):
    """terms of the reference definitions (harness/src/lib.rs)"""
    out = {}
    for root in POSE_SPEC:
        cx.run(root)
        out[root] = [expand(cx.eng, wire_free(cx.rv, 8 * i)) for i in range(3 if root == "spec_pose_omega" else 16)]
    return out


def wire_free(cells, o):
    for p, t in cells:
        if p <= o and o + 8 <= p + t.sz:
            return SEL(t, o - p, 8)
    raise KeyError(o)


def step_terms(cx):
    """the time between two states, however it is computed"""
    out = []
    for root in STEP_SPEC:
        cx.run(root)
        f = fields_of(cx.eng, cx.retty)
        out.append([(o, restrict(expand(cx.eng, CAT(sub_cells(cx.rv, o, cx.eng.size(t)), cx.eng.size(t))), expand(cx.eng, cx.st.pc))) for o, t in sorted(f.values())])
    return out


def spec_apply(terms, **args):
    """args: parameter name -> term or list of terms"""
    sub = {}
    for n, v in args.items():
        sub["*" + n if isinstance(v, list) else n] = CAT([(8 * i, x) for i, x in enumerate(v)], 8 * len(v)) if isinstance(v, list) else v
    memo = {x: x for v in args.values() for x in (v if isinstance(v, list) else [v])}
    return [rewrite(t, lambda t: sub.get(t.a[0]) if t.op == "sym" else None, memo) for t in terms]


def expected_pose(ctl, y, lim, filt, cut):
    R = ctl.ref
    y = [y[i] for i in range(16)]
    last = [R("O_T_EE_c", i) for i in range(16)]
    if filt:
        y = spec_apply(ctl.spec["spec_pose_filter"], y=y, last=last, gain=gain_(cut))
    if lim:
        v = [fbin("fdiv", fsub_(y[12 + i], last[12 + i]), DT) for i in range(3)]
        w = spec_apply(ctl.spec["spec_pose_omega"], y=y, last=last)
        v = limit_vector(*TRANS, v, [R("O_dP_EE_c", i) for i in range(3)], [R("O_ddP_EE_c", i) for i in range(3)])
        w = limit_vector(*[0.99 * x for x in ROT], w, [R("O_dP_EE_c", i) for i in range(3, 6)], [R("O_ddP_EE_c", i) for i in range(3, 6)])
        y = spec_apply(ctl.spec["spec_pose_turn"], last=last, w=w, t=[fadd_(last[12 + i], fmul_(v[i], DT)) for i in range(3)])
    return dict(enumerate(y))


def expected_elbow(ctl, e0, lim, filt, cut):
    y = e0
    if filt:
        y = low_pass(y, ctl.ref("elbow_c", 0), cut)
    if lim:
        y = limit_position(*ELBOW, y, ctl.ref("elbow_c", 0), ctl.ref("delbow_c", 0), ctl.ref("ddelbow_c", 0))
    return y


# ------------------------------------------------------------------ P10, P11
def content_rule(which):
    def rule(cx):
        ctl = Ctl(cx)
        if not ctl.ok:
            return
        rep = cx.rep
        for name, lim, filt, cut, cond in ctl.cases:
            if lim != which:
                continue
            num = ctl.num(cond)
            tag = name
            for e, s in ctl.sends:
                w = innermost_name(ctl, e)
                kind = ctl.motion_kind or "JointVelocities"
                value = ctl.motion.value if ctl.motion is not None else (lambda i: F(0.0))
                cf = KIND[kind][1]
                for i, want in expected(ctl, kind, value, lim, filt, cut).items():
                    got = restrict(ctl.field(e, s, cf, i), cond)
                    rep.check(same_number(got, want, num), "%s/%s/%s[%d]" % (w, tag, cf, i),
                              "%s[%d] is the %s%s setpoint" % (cf, i, "filtered" if filt else "unfiltered", " and rate-limited" if lim else ""),
                              lambda: "%s, %s: found %s" % (where(e), name, show(restrict(got, cond), 9)))
                el = ctl.motion.elbow() if ctl.motion is not None else None
                if el is not None:
                    some, ev = el
                    for i in range(2):
                        got = ctl.elbow_field(e, s, i, band(some, cond))
                        want = expected_elbow(ctl, ev[0], lim, filt, cut) if i == 0 else ev[1]
                        rep.check(same_number(got, want, num), "%s/%s/elbow_c[%d]" % (w, tag, i), "the elbow is the %s%s elbow setpoint" % ("filtered" if filt else "unfiltered", " and rate-limited" if lim else ""),
                                  lambda: "%s, %s: found %s" % (where(e), name, show(restrict(got, cond), 9)))
                if ctl.torque is not None:
                    torque_content(ctl, e, s, w, tag, name, lim, filt, cut, cond, num)

    return rule


def torque_content(ctl, e, s, w, tag, name, lim, filt, cut, cond, num):
    rep = ctl.rep
    for i, want in expected(ctl, "Torques", ctl.torque.value, lim, filt, cut).items():
        got = restrict(ctl.field(e, s, "tau_J_d", i), cond)
        key = "%s/%s/tau_J_d[%d]" % (w, tag, i)
        text = "tau_J_d[%d] is the %s%s torque" % (i, "filtered" if filt else "unfiltered", " and rate-limited" if lim else "")
        det = lambda: "%s, %s: found %s" % (where(e), name, show(restrict(got, cond), 9))
        if w == "main" or ctl.motion is None:
            rep.check(same_number(got, want, num), key, text, det)
            continue
        # after the motion callback's last setpoint no torque is computed: the last computed one is kept
        fin = ctl.motion.finished
        rep.check(same_number(restrict(got, bnot(fin)), want, num), key, text, det)
        kept = restrict(got, conj(fin, cond))
        b = kept.a[0] if kept.op == "sel" else kept
        ok = b.op == "mu" and b in ctl.eng.mu_next and b.a[0] == ctl.loop
        if ok:
            o = kept.a[1] if kept.op == "sel" else 0
            init, nxt = SEL(ctl.eng.mu_init[b], o, 8), SEL(ctl.eng.mu_next[b], o, 8)
            nxt = restrict(nxt, ctl.eng.loop_info[ctl.loop]["back_pc"])
            ok = init is F(0.0) and same_number(nxt, want, num)
        rep.check(ok, key + "/kept", "after the last motion setpoint the torque computed last is kept", lambda: show(kept, 8))


PROPS["P10"] = Prop(CONTROL, content_rule(False), floor=300,
    rule_text="value-flow: for every control function, every place that sends a command and every combination of the filter options with limiting off, each component of the serialised command "
              "has the same value number as the documented formula (identity or first-order low-pass) over the callback's setpoint and the last commanded value in the state it was given.")
PROPS["P11"] = Prop(CONTROL, content_rule(True), floor=300,
    rule_text="value-flow: as P10 with limiting on; each component has the same value number as the documented limiter (jerk, acceleration and velocity clamps, limits per axis) over the "
              "(filtered) setpoint and the last commanded values in the state the callback was given.")
