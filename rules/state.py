"""P03: a robot state is one datagram, faithfully decoded."""
from base import *  # noqa
from interp import State, Frame, Obj
from props import PROPS, Prop, CONTROL
from dgram import Dg
from numeric import Num, same_number

STATE = 2373
WIRE = {
    "O_T_EE": (8, 128), "O_T_EE_d": (136, 128), "F_T_EE": (264, 128), "EE_T_K": (392, 128), "F_T_NE": (520, 128),
    "NE_T_EE": (648, 128), "m_ee": (776, 8), "I_ee": (784, 72), "F_x_Cee": (856, 24), "m_load": (880, 8),
    "I_load": (888, 72), "F_x_Cload": (960, 24), "elbow": (984, 16), "elbow_d": (1000, 16), "tau_J": (1016, 56),
    "tau_J_d": (1072, 56), "dtau_J": (1128, 56), "q": (1184, 56), "q_d": (1240, 56), "dq": (1296, 56),
    "dq_d": (1352, 56), "ddq_d": (1408, 56), "joint_contact": (1464, 56), "cartesian_contact": (1520, 48),
    "joint_collision": (1568, 56), "cartesian_collision": (1624, 48), "tau_ext_hat_filtered": (1672, 56),
    "O_F_ext_hat_K": (1728, 48), "K_F_ext_hat_K": (1776, 48), "O_dP_EE_d": (1824, 48), "O_ddP_O": (1872, 24),
    "elbow_c": (1896, 16), "delbow_c": (1912, 16), "ddelbow_c": (1928, 16), "O_T_EE_c": (1944, 128),
    "O_dP_EE_c": (2072, 48), "O_ddP_EE_c": (2120, 48), "theta": (2168, 56), "dtheta": (2224, 56),
    "robot_mode": (2364, 1), "control_command_success_rate": (2365, 8),
}
ERRORS = {"current_errors": 2282, "last_motion_errors": 2323}
NERR = 41
ERRNAMES = """JointPositionLimitsViolation CartesianPositionLimitsViolation SelfCollisionAvoidanceViolation
JointVelocityViolation CartesianVelocityViolation ForceControlSafetyViolation JointReflex CartesianReflex
MaxGoalPoseDeviationViolation MaxPathPoseDeviationViolation CartesianVelocityProfileSafetyViolation
JointPositionMotionGeneratorStartPoseInvalid JointMotionGeneratorPositionLimitsViolation
JointMotionGeneratorVelocityLimitsViolation JointMotionGeneratorVelocityDiscontinuity
JointMotionGeneratorAccelerationDiscontinuity CartesianPositionMotionGeneratorStartPoseInvalid
CartesianMotionGeneratorElbowLimitViolation CartesianMotionGeneratorVelocityLimitsViolation
CartesianMotionGeneratorVelocityDiscontinuity CartesianMotionGeneratorAccelerationDiscontinuity
CartesianMotionGeneratorElbowSignInconsistent CartesianMotionGeneratorStartElbowInvalid
ForceControllerDesiredForceToleranceViolation StartElbowSignInconsistent CommunicationConstraintsViolation
PowerLimitViolation CartesianMotionGeneratorJointPositionLimitsViolation
CartesianMotionGeneratorJointVelocityLimitsViolation CartesianMotionGeneratorJointVelocityDiscontinuity
CartesianMotionGeneratorJointAccelerationDiscontinuity CartesianPositionMotionGeneratorInvalidFrame
ControllerTorqueDiscontinuity JointP2PInsufficientTorqueForPlanning TauJRangeViolation InstabilityDetection
JointMoveInWrongDirection CartesianSplineViolation JointViaPlanLimitViolation
BaseAccelerationInitializationTimeout BaseAccelerationInvalidReading""".split()
ROBOT_MODES = {"Other": 0, "Idle": 1, "Move": 2, "Guiding": 3, "Reflex": 4, "UserStopped": 5, "AutomaticErrorRecovery": 6}


def fadd_(*a):
    r = a[0]
    for x in a[1:]:
        r = fbin("fadd", r, x)
    return r


def fmul_(a, b):
    return fbin("fmul", a, b)


def fsub_(a, b):
    return fbin("fsub", a, b)


F0 = F(0.0)


def f64(s, off, i=0):
    return SEL(s, off + 8 * i, 8)


def skew2(c):
    """square of the skew matrix of c, row-major list"""
    s = [[F0, fneg(c[2]), c[1]], [c[2], F0, fneg(c[0])], [fneg(c[1]), c[0], F0]]
    return [[fadd_(*[fmul_(s[i][k], s[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def derived(s):
    """the fields that are computed, over the wire image s of a state: name -> list of 8-byte terms"""
    me, ml = f64(s, 776), f64(s, 880)
    ce = [f64(s, 856, i) for i in range(3)]
    cl = [f64(s, 960, i) for i in range(3)]
    mt = fadd_(me, ml)
    pos = fcmp("lt", F0, mt)
    ct = [ite(pos, fbin("fdiv", fadd_(fmul_(me, ce[i]), fmul_(ml, cl[i])), mt), F0) for i in range(3)]
    ie = [ite(fcmp("eq", me, F0), F0, f64(s, 784, i)) for i in range(9)]
    il = [ite(fcmp("eq", ml, F0), F0, f64(s, 888, i)) for i in range(9)]
    se, sl, st = skew2(ce), skew2(cl), skew2(ct)
    it = []
    for col in range(3):
        for row in range(3):
            k = col * 3 + row
            it.append(fadd_(fsub_(ie[k], fmul_(me, se[row][col])), fsub_(il[k], fmul_(ml, sl[row][col])), fmul_(mt, st[row][col])))
    return {"m_total": [mt], "F_x_Ctotal": ct, "I_total": it}


def millis(ms):
    """Duration::from_millis: (secs, nanos)"""
    return idiv(ms, C(8, 1000), False), imul(SEL(irem(ms, C(8, 1000), False), 0, 4), C(4, 1000000))


def fields_of(eng, ty):
    return {n: (o, t) for o, t, n in eng.tys[ty]["fields"]}


def robot_state_ty(eng):
    r = [i for i, t in enumerate(eng.tys) if t.get("def", "").endswith("RobotState") and t.get("crate", "franka") == "franka" and t.get("fields")]
    return r[0] if r else None


def check_state(cx, dg, ty, cells, cond, tag, seen_apps=None):
    """cells (offset, term) of a RobotState value; returns its datagram signature"""
    eng, rep = cx.eng, cx.rep
    fl = fields_of(eng, ty)
    if cond is not None:
        cells = [(o, piecewise(t, lambda p: restrict(p, cond))) for o, t in cells]
    cells = [(o, dg.absorb(t)) for o, t in cells]

    def get(off, sz):
        return eng.sval(sub_cells(cells, off, sz), sz)

    if not rep.check("O_T_EE" in fl, tag + "fields", "the state has the documented fields"):
        return None
    v = get(fl["O_T_EE"][0], 128)
    sg = dg.sigs(v)
    if not rep.check(len(sg) == 1, tag + "datagram", "the state is decoded from one received datagram", lambda: show(v, 6)):
        return None
    sig = next(iter(sg))
    s = dg.state(sig)
    for n, (w, sz) in WIRE.items():
        if not rep.check(n in fl, tag + "has:" + n, "the state has the field " + n):
            continue
        off, fty = fl[n]
        got = get(off, sz)
        rep.check(eng.size(fty) == sz and got is SEL(s, w, sz), tag + "field:" + n,
                  "%s is the wire field at byte %d of the datagram" % (n, w), lambda: show(got, 6))
    num = Num()
    for n, want in derived(s).items():
        if not rep.check(n in fl, tag + "has:" + n, "the state has the field " + n):
            continue
        off, fty = fl[n]
        for i, x in enumerate(want):
            got = get(off + 8 * i, 8)
            rep.check(same_number(got, x, num), tag + "derived:%s[%d]" % (n, i), "%s combines end effector and load" % n, lambda: show(got, 8))
    if rep.check("time" in fl, tag + "has:time", "the state has a time stamp"):
        off, fty = fl["time"]
        want = millis(SEL(s, 0, 8))
        df = eng.tys[fty]["fields"]
        got = {(o if isinstance(o, int) else 0): get(off + o, eng.size(t)) for o, t, _ in df}
        vals = sorted(got.items())
        ok = len(vals) == 2 and {x for _, x in vals} == set(want)
        rep.check(ok, tag + "time", "the time stamp is the message id in milliseconds", lambda: "; ".join(show(x, 6) for _, x in vals))
    for n, w in ERRORS.items():
        if not rep.check(n in fl, tag + "has:" + n, "the state has the field " + n):
            continue
        off, fty = fl[n]
        sz = eng.size(fty)
        got = [(o, SEL(t, 0, t.sz)) for o, t in sub_cells(cells, off, sz)]
        apps = {x.a[0] if x.op == "sel" else x for _, x in got}
        ok = len(apps) == 1 and next(iter(apps)).op == "app" and all(x.op == "app" or x.a[1] == o for o, x in got) and sum(x.sz for _, x in got) == sz
        a = next(iter(apps)) if apps else None
        ok = ok and dg.sigs(a) == frozenset([sig])
        rep.check(ok, tag + "errors:" + n, "%s is computed from the error flags of the same datagram" % n, lambda: "; ".join(show(x, 6) for _, x in got))
        if ok and seen_apps is not None:
            seen_apps[n] = (dg.hole(a, sig), fty)
    return sig


# ------------------------------------------------------------------ error flags -> error list
def error_lists(cx, dg, apps):
    """partial evaluation of the flag-to-error conversion: one flag unknown, a background of known flags"""
    eng, rep = cx.eng, cx.rep

    pol = eng.policy
    old = pol.pure_ret
    pol.pure_ret = ()
    eng._expand_memo = None
    try:
        for n, (app, fty) in sorted(apps.items()):
            base = ERRORS[n]
            ety = elem_ty(eng, fty)
            if not rep.check(ety is not None, "errors:%s:type" % n, "the errors are a list of FrankaError"):
                continue
            names = {v["n"]: v["d"] for v in eng.tys[ety]["variants"]}
            if n == "current_errors":
                for i, e in enumerate(ERRNAMES):
                    rep.check(names.get(e) == i, "error-name:%d" % i, "error number %d is %s" % (i, e), str([k for k, d in names.items() if d == i]))
            for i in range(NERR):
                for j in ((None,) if cx.tier == "quick" and i % 5 else (None, (i + 1) % NERR)) if cx.tier == "quick" else (None, (i + 1) % NERR, (i + 7) % NERR, (i + 33) % NERR):
                    one_flag(cx, dg, app, base, i, j, n)
    finally:
        pol.pure_ret = old


def elem_ty(eng, fty):
    """element type of the Vec inside FrankaErrors"""
    t = eng.tys[fty]
    m = re.search(r"Vec<([\w:]+)", " ".join(eng.tys[x[1]]["n"] for x in t.get("fields", [])))
    if not m:
        return None
    for i, u in enumerate(eng.tys):
        if u["n"] == m.group(1) and u.get("variants"):
            return i
    return None


def one_flag(cx, dg, app, base, i, j, n):
    eng, rep = cx.eng, cx.rep
    inst = eng.by_name.get(app.a[0]) if isinstance(app.a[0], str) else eng.by_name.get(app.a[0].a[0])
    key = "flag:%s[%d]%s" % (n, i, "" if j is None else "+%d" % j)
    msg = "%s lists error %d exactly if its flag is set" % (n, i)
    if inst is None:
        rep.fail(key, "the conversion of error flags is a function of the library", show(app, 3))
        return
    # a second flag: propagate constants for both; one flag alone: leave it unknown
    flag = SYM("flag", 1) if j is None else C(1, 1)
    d = {base + i: flag}
    if j is not None:
        d[base + j] = C(1, 1)

    def f(x):
        if x.op == "sel" and x.a[0].op == "state":
            return CAT([(k, d.get(x.a[1] + k, C(1, 0))) for k in range(x.sz)], x.sz)
        return None

    args = [rewrite(a, f, {}) for a in app.a[1]]
    eng.reset()
    eng._expand_memo = None
    st = State()
    root = Frame()
    root.uid, root.inst, root.iters, root.bb, root.parent, root.depth, root.body = 0, {"name": "root"}, [], 0, None, 0, None
    vals = []
    for k, a in enumerate(args):
        vals.append(list(a.a[0]) if a.op == "cat" else [(0, a)])
    r = eng.inline(root, st, inst, vals, [None] * len(vals), "root")
    if r is None or r[1] is None:
        rep.fail(key, msg, "no result")
        return
    s, rv = r
    fset = TM.is_true(flag)
    for on in (0, 1) if j is None else (1,):
        want = sorted(([i] if on else []) + ([j] if j is not None else []))
        c = ONE if j is not None else fset if on else bnot(fset)
        got = vec_of(eng, s, rv, c)
        rep.check(got == want, key + ("=1" if on else "=0"), msg, lambda: "flags set: %s, listed: %s" % (want, got))


def vec_of(eng, s, rv, c):
    """list of constants in the Vec rv = (cap, ptr, len) under c; None if unknown"""
    vals = [(o, restrict(t, c)) for o, t in rv]
    ptr = [t for _, t in vals if t.op not in ("c",)]
    consts = [t.a[0] for _, t in vals if t.op == "c"]
    if not ptr:
        return [] if min(consts) == 0 else None
    if len(ptr) != 1:
        return None
    p = ptr[0]
    obj = off = None
    if p.op == "ptr":
        obj, off = p.a[0], 0
    for o in s.mem:
        if p.op == "ptr" and o == p.a[0]:
            obj = o
    if obj is None or obj not in s.mem:
        return None
    n = min(consts) if len(consts) == 2 else None
    # the smaller of capacity and length is the length
    if n is None:
        return None
    cells = s.mem[obj].cells
    out = []
    for k in range(n):
        x = cells.get(8 * k)
        x = restrict(x, c) if x is not None else None
        if x is None or x.op != "c":
            return None
        out.append(x.a[0])
    return sorted(out) if out == sorted(out) else out


# ------------------------------------------------------------------ the rule
def rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    ty = robot_state_ty(eng)
    if not rep.check(ty is not None and cx.rv is not None, "state-type", "the state type is known"):
        return
    dg = Dg(eng)
    apps = {}
    if cx.root == "robot_read_once":
        cells, pty = cx.payload("Ok")
        okc = band(cx.variant("Ok"), cx.st.pc)
        check_state(cx, dg, pty, cells, okc, "result/", apps)
    else:
        cbs = [e for e in cx.events if e.kind == "callback"]
        if not rep.check(bool(cbs), "callback", "the caller's function is called"):
            return
        for k, e in enumerate(cbs):
            d = e.deep[0]
            cells = list(d.a[0]) if d.op == "cat" else [(0, d)]
            check_state(cx, dg, ty, cells, e.pc, "callback%d/" % k, apps if k == 0 else None)
    modes = [i for i, t in enumerate(eng.tys) if t.get("def", "").endswith("RobotMode") and t.get("variants")]
    if rep.check(len(modes) >= 1, "robot-mode", "the robot mode is an enumeration"):
        got = {v["n"]: v["d"] for v in eng.tys[modes[0]]["variants"]}
        rep.check(got == ROBOT_MODES, "robot-mode-values", "robot modes have the protocol's numbers", str(got))
    if cx.root == "robot_read_once" and rep.check(set(apps) == set(ERRORS), "errors", "both error lists are computed"):
        error_lists(cx, dg, apps)


PROPS["P03"] = Prop(
    ["robot_read_once", "robot_read"] + CONTROL, rule, floor=600,
    rule_text="datagram provenance: every field of every robot state handed to the user (return value of read_once, argument of every callback) is rewritten to the wire bytes of "
    "the received datagram it stems from (induction over receive loops) and compared with the protocol's offset table; computed fields by value numbering over the reals; "
    "error lists by partial evaluation of the conversion with one unknown flag.",
)
