"""Control loops: validity and composition of commands, callback protocol, start and end of a motion."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
from numeric import Num, same_number, P as PRIME
from control import *  # noqa
from control import Ctl, innermost_name, sqrt_
from fresh import gated


def literals(e, cond=ONE):
    """{atom: value} of the comparisons whose outcome is known where e happens, if cond holds"""
    out = {}
    for f in (e.pc,) + tuple(e.ctx):
        f = band(f, cond)
        if f.op != "ite":
            continue
        for a in atoms_of(f):
            if a in out:
                continue
            if band(f, atom(a)) is ZERO:
                out[a] = 0
            elif band(f, bnot(atom(a))) is ZERO:
                out[a] = 1
    return out


class Known:
    """comparisons known at an event, by value number"""

    def __init__(self, lits, num):
        self.num = num
        self.nan, self.inf, self.w = set(), set(), {}
        for a, v in lits.items():
            if a.op == "isnan" and v == 0:
                self.nan.add(num(a.a[0]))
            elif a.op == "isinf" and v == 0:
                self.inf.add(num(a.a[0]))
            elif a.op in ("flt", "fle", "feq"):
                w = num.weight_(a)
                self.w[w] = v
                self.w[(1 - w) % PRIME] = 1 - v

    def finite(self, t):
        if t.op == "c":
            return fval(t) - fval(t) == 0
        x = self.num(t)
        return x in self.nan and x in self.inf

    def holds(self, cond):
        """cond: a single comparison or a constant"""
        if cond is ONE:
            return True
        a = cond.a[0] if cond.op == "ite" else None
        if a is None:
            return False
        pos = cond.a[1] is ONE
        w = self.num.weight_(a)
        if w in (0, 1):
            return w == (1 if pos else 0)
        v = self.w.get(w)
        return v is not None and v == (1 if pos else 0)


def implies(e, cond, phi):
    return any(band(band(f, cond), bnot(phi)) is ZERO for f in (e.pc,) + tuple(e.ctx))


def near_one(n):
    """forms of |n - 1| <= 1e-5: lists of conditions"""
    eps = F(1e-5)
    return ([fcmp("le", fabs(fsub_(n, F(1.0))), eps)],
            [fcmp("le", n, F(1.00001)), fcmp("le", F(0.99999), n)],
            [fcmp("le", fsub_(n, F(1.0)), eps), fcmp("le", fsub_(F(1.0), n), eps)])


def controlled(ctl):
    """command fields the callbacks control"""
    out = []
    if ctl.motion is not None:
        out.append(ctl.motion.cmd)
    if ctl.torque is not None:
        out.append("tau_J_d")
    return out


# ------------------------------------------------------------------ P09
def valid_rule(cx):
    ctl = Ctl(cx)
    if not ctl.ok:
        return
    rep = cx.rep
    for e, s in ctl.sends:
        w = innermost_name(ctl, e)
        for name, lim, filt, cut, cond in ctl.cases:
            num = ctl.num(cond)
            know = Known(literals(e, cond), num)
            for f in controlled(ctl):
                for i in range(FIELD[f][1]):
                    got = restrict(ctl.field(e, s, f, i), cond)
                    key = "%s/%s/finite/%s[%d]" % (w, name, f, i)
                    ok = finite_there(ctl, e, got, num, know, cond)
                    rep.check(ok, key, "%s[%d] is finite whenever a command is sent" % (f, i), lambda: "%s, %s: %s may be infinite or NaN" % (where(e), name, show(got, 6)))
            if ctl.motion is not None and ctl.motion.kind == "CartesianPose":
                T = [restrict(ctl.field(e, s, "O_T_EE_c", i), cond) for i in range(16)]
                for i, v in ((3, 0.0), (7, 0.0), (11, 0.0), (15, 1.0)):
                    rep.check(same_number(T[i], F(v), num) or know.holds(fcmp("eq", T[i], F(v))), "%s/%s/last-row[%d]" % (w, name, i), "the last row of a commanded pose is 0 0 0 1",
                              lambda: "%s, %s: %s" % (where(e), name, show(T[i], 6)))
                for what, ix in [("column %d" % j, (4 * j, 4 * j + 1, 4 * j + 2)) for j in range(3)] + [("row %d" % j, (j, 4 + j, 8 + j)) for j in range(3)]:
                    n = sqrt_(fadd_(*[fmul_(T[k], T[k]) for k in ix]))
                    rep.check(any(all(know.holds(c) for c in form) for form in near_one(n)), "%s/%s/unit %s" % (w, name, what), "every row and column of the rotation of a commanded pose has unit length",
                              lambda: "%s, %s: the length of %s is not checked" % (where(e), name, what))
            el = ctl.motion.elbow() if ctl.motion is not None else None
            if el is not None:
                c2 = band(cond, el[0])
                know2 = Known(literals(e, c2), num)
                g0, g1 = (ctl.elbow_field(e, s, i, c2) for i in range(2))
                rep.check(know2.finite(g0), "%s/%s/elbow-finite" % (w, name), "a commanded elbow angle is finite", lambda: "%s, %s: %s" % (where(e), name, show(g0, 6)))
                one = bor(fcmp("eq", g1, F(1.0)), fcmp("eq", g1, F(-1.0)))
                rep.check(implies(e, c2, one) or implies(e, c2, fcmp("eq", fabs(g1), F(1.0))), "%s/%s/elbow-sign" % (w, name), "the sign of a commanded elbow is +1 or -1",
                          lambda: "%s, %s: %s" % (where(e), name, show(g1, 6)))


def finite_there(ctl, e, got, num, know, cond):
    if know.finite(got):
        return True
    if ctl.motion is not None and ctl.torque is not None and got.op == "ite":
        fin = ctl.motion.finished
        a, b = restrict(got, fin), restrict(got, bnot(fin))
        if a is got or b is got:
            return False
        # the value kept from the cycle before was checked when it was sent
        base = a.a[0] if a.op == "sel" else a
        if base.op != "mu" or base not in ctl.eng.mu_next or base.a[0] != ctl.loop:
            return False
        o = a.a[1] if a.op == "sel" else 0
        nxt = restrict(restrict(SEL(ctl.eng.mu_next[base], o, 8), ctl.eng.loop_info[ctl.loop]["back_pc"]), cond)
        init = SEL(ctl.eng.mu_init[base], o, 8)
        kn = [Known(literals(m, cond), num) for m, _ in ctl.main]
        kb = Known(literals(e, band(cond, bnot(fin))), num)
        return init.op == "c" and all(k.finite(nxt) for k in kn) and kb.finite(b)
    return False


PROPS["P09"] = Prop(CONTROL, valid_rule, floor=300,
    rule_text="value-flow: at every call that sends a command, the path condition implies, for every controlled component as it is sent, that it is neither NaN nor infinite; for poses that the last row "
              "is 0 0 0 1 and all rows and columns of the rotation are unit vectors within 1e-5; for elbows that the sign is +1 or -1. Values are identified by value number, per combination of the filter and limiter options.")


# ------------------------------------------------------------------ P17
def composition_rule(cx):
    ctl = Ctl(cx)
    if not ctl.ok:
        return
    rep = cx.rep
    mine = controlled(ctl)
    if ctl.motion is None:
        mine.append("dq_c")  # torque control holds the motion interface with (filtered, limited) zero velocities
    el = ctl.motion.elbow() if ctl.motion is not None else None
    for e, s in ctl.sends:
        w = innermost_name(ctl, e)
        for f, (o, n) in FIELD.items():
            if f in mine or (f == "elbow_c" and el is not None):
                continue
            for i in range(n):
                got = ctl.field(e, s, f, i)
                rep.check(got is F(0.0), "%s/unused/%s[%d]" % (w, f, i), "fields of interfaces that are not controlled are zero", lambda: "%s: %s = %s" % (where(e), f, show(got, 6)))
        valid = ctl.flag(e, s, ELBOW_FLAG)
        want = el[0] if el is not None else ZERO
        rep.check(any(band(f, bor(band(valid, bnot(want)), band(want, bnot(valid)))) is ZERO for f in (e.pc, *e.ctx)), "%s/valid-elbow" % w, "the elbow is marked valid exactly if the setpoint has one", lambda: "%s: %s, expected %s" % (where(e), show(valid, 6), show(want, 6)))
        if el is not None:
            for i in range(2):
                got = restrict(ctl.field(e, s, "elbow_c", i), bnot(el[0]))
                rep.check(got is F(0.0), "%s/no-elbow[%d]" % (w, i), "without an elbow the elbow fields are zero", lambda: "%s: %s" % (where(e), show(got, 6)))
        fin = ctl.flag(e, s, FINISHED_FLAG)
        rep.check(fin is (ZERO if w == "main" else ONE), "%s/finished-flag" % w, "the finished flag is set exactly in the commands that end a motion", lambda: "%s: %s" % (where(e), show(fin, 6)))


PROPS["P17"] = Prop(CONTROL, composition_rule, floor=300,
    rule_text="value-flow: in every command datagram the fields of interfaces the callbacks do not control are the constant zero, the elbow flag equals the condition that the setpoint has an elbow, "
              "and the finished flag is constant false in the control loop and constant true in the finishing loop.")
