"""P18 public filters and pose conversion; P23 the joint motion generator."""
from base import *  # noqa
from props import PROPS, Prop
from models import Policy
from numeric import same_number, Num, Bits, Signs, H, P
from lifecycle import Life, time_step
from control import content_rule, spec_apply, spec_terms, wire_free, fadd_, fmul_, fsub_
from state import fields_of

CASES = 300
SPECS = ("spec_motion", "spec_motion0", "spec_motioni")


def policy(root):
    if root == "robot_joint_motion":
        return Policy(pure_ret=("franka::robot::errors::FrankaErrors",), extra_effect=r"MotionGenerator::(new|generate_motion)$")
    return Policy(inline="Duration::as_secs_f64|Duration::as_millis|Duration::as_secs$|Duration::as_nanos|Duration::as_micros|Duration::subsec_")


def cells_at(cx, offs):
    pc = expand(cx.eng, cx.st.pc)
    return [restrict(expand(cx.eng, SEL(t, o - p, n)), pc) for o, n in offs for p, t in cx.rv if p <= o and o + n <= p + t.sz]


def positions(eng, ty):
    """offsets of the seven positions and of the finished flag in a JointPositions"""
    f = fields_of(eng, ty)
    q = [o for n, (o, t) in f.items() if eng.size(t) == 56]
    b = [o for n, (o, t) in f.items() if eng.size(t) == 1]
    return (q[0], b[0]) if len(q) == 1 and len(b) == 1 else None


class Traj:
    """value numbers of the setpoints and of the reference under one outcome of all comparisons"""

    def __init__(self, k, secs, time):
        self.asg = {}
        self.k = k
        leaf = lambda x: time if x.op == "sym" and x.a[0] == "t" else None
        self.code = Bits(self.pick, None, self.fix)
        self.spec = Bits(self.pick, leaf, self.fix)
        self.code.reps = self.spec.reps = Signs()
        self.code.signs = self.spec.signs = {}
        self.secs = self.code(secs)
        self.time = self.code(time)
        if self.time:
            self.code.signs[self.time] = 1

    def fix(self, a):
        """some time has passed"""
        if a.op == "feq":
            d = (self.code(a.a[0]) - self.code(a.a[1])) % P
            if d == 0:
                return 1
            if d in (self.secs, P - self.secs):
                return 0
        return None

    def pick(self, key):
        r = self.asg.get(key)
        if r is None:
            r = self.asg[key] = H("bit", self.k, key) & 1
        return r

    def phase(self, ph):
        """choose the phase of the trajectory each joint is in: its switching times are in order"""
        sg = self.code.signs
        for j in range(7):
            k = H("phase", self.k, j) & 3 if self.time else 0
            ds = [(self.spec(ph[3 * j + i]) - self.time) % P for i in range(3)]
            if ds[0] == (P - self.time) % P:  # does not move
                continue
            lo, hi = 0, 3
            for i, d in enumerate(ds):  # joints may share a switching time
                if sg.get(d) == 1:
                    hi = min(hi, i)
                elif sg.get(d) == 0:
                    lo = max(lo, i + 1)
            if lo > hi:
                return False
            k = min(max(k, lo), hi)
            for i, d in enumerate(ds):
                sg.setdefault(d, 1 if k <= i else 0)
        return True


def motion_rule(cx):
    eng, rep = cx.eng, cx.rep
    spec = []
    for r in SPECS:
        cx.run(r)
        f = fields_of(eng, cx.retty)
        spec.append((cells_at(cx, [(f["0"][0] + 8 * i, 8) for i in range(7)] + [(f["1"][0], 1)]), cells_at(cx, [(f["2"][0] + 8 * i, 8) for i in range(21)])))
    # ---- the time between two calls
    cx.run("spec_seconds")
    secs = expand(eng, wire_free(cx.rv, 0))
    # ---- two calls of a new generator
    cx.run("util_motion")
    if not rep.check(cx.st is not None and not [e for e in cx.events if e.kind in ("effect", "callback")], "pure", "a setpoint depends on the arguments only", "; ".join(where(e) for e in cx.events)):
        return
    fs = fields_of(eng, cx.retty)
    got = []
    for k in "01":
        o, ty = fs[k]
        p = positions(eng, ty)
        if not rep.check(p is not None, "shape" + k, "a joint position setpoint is returned"):
            return
        got.append(cells_at(cx, [(o + p[0] + 8 * i, 8) for i in range(7)] + [(o + p[1], 1)]))
    zero = F(0.0)
    for name, cells, t in (("first", got[0], zero), ("later", got[1], secs)):
        best = None
        for sp, ph in spec:
            bad, n = set(), 0
            for k in range(CASES):
                tr = Traj(k, secs, t)
                if not tr.phase(ph):
                    continue
                n += 1
                bad |= {i for i in range(8) if tr.code(cells[i]) != tr.spec(sp[i])}
            if best is None or len(bad) < len(best):
                best = bad
            if not bad:
                break
        rep.check(n > CASES // 2, name + "/cases", "enough outcomes of the comparisons are consistent", str(n))
        for i in range(8):
            rep.check(i not in best, "%s/%s" % (name, "finished" if i == 7 else "q[%d]" % i),
                      ("the %s setpoint of joint %d lies on the synchronised trajectory" % (name, i + 1)) if i < 7 else "the %s setpoint is the last exactly if every joint arrived" % name, lambda: show(cells[i], 5)[:600])
    num = Num()
    # ---- any later call: only the time advances, so that the setpoints of all calls lie on the trajectory
    cx.run("util_generate_motion")
    old = eng.rootargs["m"][0][0][1]
    n = eng.size(eng.tys[cx.inst["locals"][1]]["e"])
    a, o = old.a[0], old.a[1]
    new = eng.load(cx.st, a, o, n)
    changed = []
    for p in range(0, n, 8):
        t = expand(eng, CAT(sub_cells(new, p, 8), 8))
        was = expand(eng, SEL(SYM("*m", n), p, 8))
        changed.append((p, was, t))
    tm = [(p, w, t) for p, w, t in changed if same_number(t, fadd_(w, secs), num)]
    if not rep.check(len(tm) == 1, "time", "every call advances the time by the period it is given", ", ".join(str(p) for p, _, _ in tm)):
        return
    zero = fcmp("eq", F(0.0), tm[0][2])
    for p, w, t in changed:
        if p != tm[0][0]:
            t = restrict(t, bnot(zero))
            rep.check(t is w, "kept/%d" % p, "the trajectory is planned once", lambda: "word at %d: %s" % (p, show(t, 5)))


def joint_motion_rule(cx):
    content_rule(True)(cx)
    eng, rep = cx.eng, cx.rep
    gen = [e for e in cx.events if "gen" in (e.info or {})]
    new = [e for e in cx.events if e.name.endswith("MotionGenerator::new")]
    if not rep.check(len(new) == 1 and not new[0].loops and new[0].pc is ONE and len(gen) == 1, "generator", "one generator gives all setpoints", str([e.name for e in new + gen])):
        return
    ra = eng.rootargs
    rep.check(expand(eng, new[0].deep[0]) is ra["speed"][0][0][1], "speed", "with the caller's speed factor", lambda: show(new[0].deep[0], 4))
    rep.check(expand(eng, new[0].deep[1]) is SYM("*goal", 56), "goal", "and the caller's goal", lambda: show(new[0].deep[1], 4))
    g = gen[0].info["gen"]
    b = g.a[0] if g.op == "sel" else g
    ok = b is new[0].ret or (b.op == "mu" and b in eng.mu_next and mentions(eng.mu_init[b], lambda x: x is new[0].ret) and not mentions(eng.mu_init[b], lambda x: x.op in ("sym", "mu")))
    rep.check(ok, "same-generator", "every setpoint is asked of that generator", lambda: show(g, 4))
    lf = Life(cx)
    if lf.ok:
        gen = [e for e in cx.events if "gen" in (e.info or {})]
        for e in gen:
            ok, d = time_step(lf, e)
            rep.check(ok, "time-step", "with the time that passed since the state before", d)


def utilities_rule(cx):
    (joint_motion_rule if cx.root == "robot_joint_motion" else motion_rule)(cx)


PROPS["P23"] = Prop(["util_motion", "robot_joint_motion"], utilities_rule, policy=policy, floor=115,
    rule_text="value numbering of both setpoints of a new generator against the reference trajectory (harness, spec_motion); one inductive step: any later call changes nothing but the time, by the given period; joint_motion takes its setpoints from one generator made of its arguments, and sends them rate-limited and unfiltered.")


# ------------------------------------------------------------------ P18
NAN, INF = float("nan"), float("inf")


def points(conds, x):
    """values of x between which no comparison of x with a constant, and no classification, changes"""
    ks = {0.0}
    for c in conds:
        for a in atoms_of(c):
            if mentions(a, lambda y: y is x):
                ks |= {fval(y) for y in a.a if isinstance(y, T) and y.op == "c" and y.sz == 8 and fval(y) == fval(y) and abs(fval(y)) != INF}
    ks = sorted(ks)
    out = [ks[0] - 1.0] + ks + [(p + q) / 2 for p, q in zip(ks, ks[1:])] + [ks[-1] + 1.0]
    return out + [NAN, INF, -INF]


def put(c, sub):
    return rewrite(c, lambda t: None, dict(sub))


def panics_rule(cx, args, what):
    """args: (name, term, is the value valid: True / False / None either way)"""
    eng, rep = cx.eng, cx.rep
    ok = expand(eng, cx.st.pc)
    for p in cx.events:
        if p.kind == "panic":
            ok = band(ok, bnot(expand(eng, p.pc)))
    for a in atoms_of(ok):
        xs = [n for n, t, _ in args if mentions(a, lambda y: y is t)]
        if not rep.check(len(xs) <= 1, "separate", "every argument is checked for itself", show(a, 5)):
            return
    good = {}
    for n, t, valid in args:
        for v in points([ok], t):
            r = valid(v)
            c = put(ok, {t: F(v)})
            if r is False:
                rep.check(c is ZERO, "refuses/%s=%r" % (n, v), "%s: %s = %r is refused" % (what, n, v), lambda: show(c, 4))
            elif r is True:
                good.setdefault(n, (t, []))[1].append(v)
    base = {t: F(vs[0]) for t, vs in good.values()}
    for n, (t, vs) in good.items():
        for v in vs:
            sub = dict(base)
            sub[t] = F(v)
            c = put(ok, sub)
            rep.check(c is ONE, "accepts/%s=%r" % (n, v), "%s: %s = %r is accepted" % (what, n, v), lambda: show(c, 4))


is_finite = lambda v: v == v and abs(v) != INF
cut_ok = lambda v: is_finite(v) and v > 0
# negative zero may count as negative
time_ok = lambda v: None if v == 0 else is_finite(v) and v > 0


def gain_of(t, c):
    return fbin("fdiv", t, fadd_(t, fbin("fdiv", F(1.0), fmul_(F(6.283185307179586), c))))


def filter_rule(cx):
    eng, rep = cx.eng, cx.rep
    if cx.root == "util_array_to_isometry":
        cx.run("spec_isometry")
        n = eng.size(cx.retty)
        want = [expand(eng, wire_free(cx.rv, o)) for o in range(0, n, 8)]
        cx.run()
        rep.check(not [e for e in cx.events if e.kind != "loop"], "pure", "the conversion depends on the matrix only and never panics", "; ".join(where(e) for e in cx.events))
        for i, w in enumerate(want):
            g = expand(eng, wire_free(cx.rv, 8 * i))
            rep.check(same_number(g, w), "value[%d]" % i, "the pose is that of the column-major matrix", lambda: show(g, 6))
        return
    spec = spec_terms(cx) if cx.root == "util_cartesian_low_pass" else None
    cx.run()
    rep.check(not [e for e in cx.events if e.kind in ("effect", "callback")], "pure", "the filter depends on its arguments only", "; ".join(where(e) for e in cx.events))
    ra = eng.rootargs
    t, c = ra["t"][0][0][1], ra["c"][0][0][1]
    g = gain_of(t, c)
    pc = expand(eng, cx.st.pc)
    if spec:
        y, l = ([SEL(SYM("*" + n, 128), 8 * i, 8) for i in range(16)] for n in ("y", "yl"))
        want = spec_apply(spec["spec_pose_filter"], y=y, last=l, gain=g)
        args = [("y[%d]" % i, x, is_finite_) for i, x in enumerate(y)] + [("y_last[%d]" % i, x, is_finite_) for i, x in enumerate(l)]
    else:
        y, l = ra["y"][0][0][1], ra["yl"][0][0][1]
        want = [fadd_(fmul_(g, y), fmul_(fsub_(F(1.0), g), l))]
        args = [("y", y, is_finite_), ("y_last", l, is_finite_)]
    for i, w in enumerate(want):
        got = restrict(expand(eng, wire_free(cx.rv, 8 * i)), pc)
        rep.check(same_number(got, w), "value[%d]" % i, "the value is gain * y + (1 - gain) * last" if not spec else "translation low-pass filtered, rotation interpolated", lambda: show(got, 8))
    panics_rule(cx, args + [("cutoff", c, cut_ok), ("sample_time", t, time_ok)], "the filter")


is_finite_ = lambda v: bool(is_finite(v))

PROPS["P18"] = Prop(["util_low_pass", "util_cartesian_low_pass", "util_array_to_isometry"], filter_rule, floor=150,
    rule_text="value numbering of every component against the documented filter and conversion; the condition of a return, partially evaluated at one value of every class the code's comparisons distinguish, per argument.")
