"""Equality of floating-point value-flow terms up to rounding.

Value numbering over the reals by random interpretation (Gulwani & Necula): a term is mapped into the
field Z/P with + - * / interpreted, constants mapped exactly (12 significant digits), comparisons mapped
to weights, a gated value c ? a : b to c*a + (1-c)*b, and every other operator to a hash of its arguments.
Equal terms always get equal numbers; different rational functions differ with probability > 1 - 1e-30.
The order of operands, association, distribution, and min/max written as comparisons make no difference.
"""
import hashlib
from fractions import Fraction

from base import *  # noqa

P = (1 << 127) - 1


def H(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:16], "little") % P


def const(x):
    if x != x or x in (float("inf"), float("-inf")):
        return H("const", repr(x))
    f = TM.exact(x)
    return f.numerator * pow(f.denominator, -1, P) % P


def ratio(r, bound=1 << 44):
    """the rational with small numerator and denominator that r stands for, as its sign, or None"""
    a0, a1, t0, t1 = P, r, 0, 1
    while a1 >= bound:
        q = a0 // a1
        a0, a1, t0, t1 = a1, a0 - q * a1, t1, t0 - q * t1
    if a1 == 0 or abs(t1) >= bound:
        return None
    return 1 if t1 > 0 else -1


class Signs:
    """differences that are compared with zero, up to a constant factor"""

    def __init__(self):
        self.reps = []
        self.memo = {}

    def __call__(self, d):
        """(representative, sign of d relative to it)"""
        r = self.memo.get(d)
        if r is None:
            for rep, inv in self.reps:
                s = ratio(d * inv % P)
                if s is not None:
                    r = (rep, s)
                    break
            else:
                self.reps.append((d, pow(d, P - 2, P)))
                r = (d, 1)
            self.memo[d] = r
        return r


class Num:
    """leaf(t): term that a leaf stands for, or None; fix(atom): 0, 1 or None; signs: {number of d: 0 or 1}, assumptions d > 0"""

    def __init__(self, leaf=None, fix=None, signs=None):
        self.memo = {}
        self.leaf = leaf
        self.fix = fix
        self.signs = signs or {}
        self.reps = Signs()

    def pos(self, d):
        r = self.signs.get(d)
        if r is not None:
            return r
        r = self.signs.get(P - d)
        if r is not None:
            return 1 - r
        return self.pos_(d)

    def pos_(self, d):
        """weight of d > 0; pos(-d) = 1 - pos(d); pos(c*d) = pos(d) for a constant c > 0"""
        if d == 0:
            return self.weigh(("pos0",))
        s = ratio(d)
        if s is not None:  # a constant
            return 1 if s > 0 else 0
        rep, sign = self.reps(d)
        w = self.weigh(("pos", rep))
        return w if sign > 0 else (1 - w) % P

    def weigh(self, k):
        return H("weight", k)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def ev(self, t):
        op = t.op
        if op == "ite":
            w = self.weight(t.a[0])
            if w == 1:
                return self(t.a[1])
            if w == 0:
                return self(t.a[2])
            return (w * self(t.a[1]) + (1 - w) * self(t.a[2])) % P
        if op == "c":
            return const(fval(t)) if t.sz == 8 else t.a[0] % P
        if op == "fadd":
            return (self(t.a[0]) + self(t.a[1])) % P
        if op == "fsub":
            return (self(t.a[0]) - self(t.a[1])) % P
        if op == "fmul":
            return self(t.a[0]) * self(t.a[1]) % P
        if op == "fdiv":
            return self(t.a[0]) * pow(self(t.a[1]), P - 2, P) % P
        if op == "fneg":
            return -self(t.a[0]) % P
        if op == "fabs":
            x = self(t.a[0])
            return (2 * self.pos(x) - 1) * x % P
        if op == "fsignum":
            return (2 * self.pos(self(t.a[0])) - 1) % P
        if op in ("fmin", "fmax"):
            a, b = self(t.a[0]), self(t.a[1])
            w = self.pos((b - a) % P)  # a < b
            if op == "fmin":
                return (w * a + (1 - w) * b) % P
            return (w * b + (1 - w) * a) % P
        if op == "fclamp":
            x, lo, hi = (self(y) for y in t.a)
            w = self.pos((hi - x) % P)
            m = (w * x + (1 - w) * hi) % P
            w = self.pos((lo - m) % P)
            return (w * lo + (1 - w) * m) % P
        if self.leaf is not None:
            x = self.leaf(t)
            if x is not None and x is not t:
                return self(x)
        if op == "sel" and (t.a[0].op == "app" or (t.a[0].op == "out" and t.a[0].a[0].op == "app")):
            return H("part", self(t.a[0]), t.a[1], t.sz)
        if op == "out" and t.a[0].op == "app":
            return H("out", self(t.a[0]), t.a[1])
        if op in ("sym", "sel", "ret", "out", "mu", "phi", "de"):
            return H("leaf", t.id)
        return H(op, self.args(t.a))

    def args(self, a):
        out = []
        for x in a:
            if isinstance(x, T):
                if 8 < x.sz <= 512 and x.sz % 8 == 0:  # vectors and matrices, number by number
                    out.append([self(SEL(x, i, 8)) for i in range(0, x.sz, 8)])
                else:
                    out.append(self(x))
            elif isinstance(x, tuple):
                out.append(self.args(x))
            else:
                out.append(str(x))
        return out

    def weight(self, a):
        if self.fix is not None:
            r = self.fix(a)
            if r is not None:
                return r
        return self.weight_(a)

    def weight_(self, a):
        if a.op in ("flt", "fle"):
            x, y = self(a.a[0]), self(a.a[1])
            return self.pos((y - x) % P)
        if a.op == "feq":
            d = (self(a.a[0]) - self(a.a[1])) % P
            return H("feq", min(d, P - d))
        k = ("w", a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = H("atom", a.op, self.args(a.a))
        return r


class Bits(Num):
    """idempotent weights: every comparison is 0 or 1, chosen by an assignment"""

    def __init__(self, pick, leaf=None, fix=None, signs=None):
        Num.__init__(self, leaf, fix, signs)
        self.pick = pick

    def weight_(self, a):
        if a.op in ("flt", "fle"):
            d = (self(a.a[1]) - self(a.a[0])) % P
            return self.pos(d)
        if a.op == "feq":
            d = (self(a.a[0]) - self(a.a[1])) % P
            return self.pick(("feq", min(d, P - d)))
        k = ("w", a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.pick(("atom", a.op, str(self.args(a.a))))
        return r

    def weigh(self, k):
        return self.pick(k)


def cases(t, u, like, limit=10):
    """are t and u equal for every outcome of the comparisons in them (exhaustive up to 2^limit, else sampled)"""
    todo = [{}]
    n = 0
    while todo:
        asg = todo.pop()
        new = []

        def pick(k):
            if k not in asg:
                if len(asg) < limit:
                    other = dict(asg)
                    other[k] = 1
                    new.append(other)
                    asg[k] = 0
                else:
                    asg[k] = H("bit", n, k) & 1
            return asg[k]

        b = Bits(pick, like.leaf, like.fix, like.signs)
        b.reps = like.reps
        if b(t) != b(u):
            return False
        # a fork recorded the choices made before it
        todo.extend(new)
        n += 1
    return True


def same_number(t, u, num=None):
    n = num or Num()
    return t is u or n(t) == n(u) or cases(t, u, n)
