"""Hash-consed value terms (Herbrand universe + constant folding) and gated values.

Every abstract value is an interned term.  Values that depend on control flow are *gated*: a
reduced ordered decision diagram whose inner nodes are atomic boolean terms and whose leaves are
ordinary terms.  Path conditions are the special case with leaves 0/1.  All operations are purely
syntactic; there is no solver anywhere.
"""
import struct
import math

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "sz", "id")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, sz, *a):
    key = (op, sz) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.sz = sz
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def C(sz, v):
    return mk("c", sz, v & ((1 << (8 * sz)) - 1))


ONE = C(1, 1)
ZERO = C(1, 0)
UNDEF = mk("undef", 0)


def SYM(name, sz):
    return mk("sym", sz, name)


def is_c(t):
    return t.op == "c"


def cv(t):
    return t.a[0]


def scv(t):
    v = t.a[0]
    b = 8 * t.sz
    return v - (1 << b) if v >> (b - 1) else v


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def F(x):
    return C(8, fbits(x))


def fval(t):
    if t.sz == 4:
        return struct.unpack("<f", struct.pack("<I", t.a[0]))[0]
    return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0]


# ---------------------------------------------------------------- gated values (MTBDD)
_ite_memo = {}


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("ite", hi.sz if hi.sz else lo.sz, atom, hi, lo)


def atom(t):
    return mk("ite", 1, t, ONE, ZERO)


def ite(c, t, e):
    if c is ONE:
        return t
    if c is ZERO:
        return e
    if t is e:
        return t
    if t is UNDEF:
        return e
    if e is UNDEF:
        return t
    if t is ONE and e is ZERO:
        return c
    key = (c, t, e)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = c.a[0]
    if t.op == "ite" and t.a[0].id < v.id:
        v = t.a[0]
    if e.op == "ite" and e.a[0].id < v.id:
        v = e.a[0]
    c1, c0 = (c.a[1], c.a[2]) if c.a[0] is v else (c, c)
    t1, t0 = (t.a[1], t.a[2]) if t.op == "ite" and t.a[0] is v else (t, t)
    e1, e0 = (e.a[1], e.a[2]) if e.op == "ite" and e.a[0] is v else (e, e)
    r = node(v, ite(c1, t1, e1), ite(c0, t0, e0))
    _ite_memo[key] = r
    return r


def band(a, b):
    return ite(a, b, ZERO)


def bor(a, b):
    return ite(a, ONE, b)


def bnot(a):
    return ite(a, ZERO, ONE)


def implies(a, b):
    return bor(bnot(a), b)


def valid(a):
    return a is ONE


def unsat(a):
    return a is ZERO


_res_memo = {}


def restrict(f, c):
    """f simplified with c as the care set (sibling substitution)."""
    if f.op != "ite" or c is ONE or c is ZERO:
        return f
    key = (f, c)
    r = _res_memo.get(key)
    if r is not None:
        return r
    fa, ca = f.a[0], c.a[0]
    if ca.id < fa.id:
        r = restrict(f, bor(c.a[1], c.a[2]))
    elif ca is fa:
        if c.a[1] is ZERO:
            r = restrict(f.a[2], c.a[2])
        elif c.a[2] is ZERO:
            r = restrict(f.a[1], c.a[1])
        else:
            r = node(fa, restrict(f.a[1], c.a[1]), restrict(f.a[2], c.a[2]))
    else:
        r = node(fa, restrict(f.a[1], c), restrict(f.a[2], c))
    _res_memo[key] = r
    return r


def map1(fn, t, memo=None):
    if t.op != "ite":
        return fn(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = ite(atom(t.a[0]), map1(fn, t.a[1], memo), map1(fn, t.a[2], memo))
        memo[t] = r
    return r


def apply2(fn, a, b, memo=None):
    if a.op != "ite" and b.op != "ite":
        return fn(a, b)
    if memo is None:
        memo = {}
    k = (a, b)
    r = memo.get(k)
    if r is None:
        if a.op == "ite" and (b.op != "ite" or a.a[0].id <= b.a[0].id):
            v = a.a[0]
        else:
            v = b.a[0]
        a1, a0 = (a.a[1], a.a[2]) if a.op == "ite" and a.a[0] is v else (a, a)
        b1, b0 = (b.a[1], b.a[2]) if b.op == "ite" and b.a[0] is v else (b, b)
        r = ite(atom(v), apply2(fn, a1, b1, memo), apply2(fn, a0, b0, memo))
        memo[k] = r
    return r


_leaves_memo = {}


def leaves(t):
    if t.op != "ite":
        return (t,)
    r = _leaves_memo.get(t)
    if r is None:
        s = dict.fromkeys(leaves(t.a[1]))
        s.update(dict.fromkeys(leaves(t.a[2])))
        r = tuple(s)
        _leaves_memo[t] = r
    return r


def all_const(t):
    return all(l.op == "c" for l in leaves(t))


def all_ground(t):
    return all(l.op in ("c", "ptr", "fn", "vt", "undef") for l in leaves(t))


def cond_of(t, leaf_pred):
    """bool term: the condition under which gated value t has a leaf satisfying leaf_pred"""
    return map1(lambda l: ONE if leaf_pred(l) else ZERO, t)


def atoms_of(t, acc=None):
    if acc is None:
        acc = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        acc[x.a[0]] = 1
        st.append(x.a[1])
        st.append(x.a[2])
    return acc


def cofactor(t, assign, memo=None):
    """t with atoms fixed (dict atom -> bool), recursively inside operands as well"""
    if memo is None:
        memo = {}
    return _subst(t, assign, memo)


def _subst(t, assign, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        if t.a[0] in assign:
            r = _subst(t.a[1] if assign[t.a[0]] else t.a[2], assign, memo)
        else:
            r = ite(atom(t.a[0]), _subst(t.a[1], assign, memo), _subst(t.a[2], assign, memo))
    else:
        ch = False
        na = []
        for x in t.a:
            if isinstance(x, T):
                y = _subst(x, assign, memo)
                if y is not x:
                    ch = True
                na.append(y)
            else:
                na.append(x)
        r = rebuild(t, na) if ch else t
    memo[t] = r
    return r


def rebuild(t, na):
    f = _REBUILD.get(t.op)
    if f:
        return f(t, na)
    return mk(t.op, t.sz, *na)


# ---------------------------------------------------------------- chunks
def SEL(b, off, sz):
    if off == 0 and b.sz == sz:
        if b.op == "bytes" and sz <= 8:
            data, ptrs = b.a
            if not ptrs and len(data) == sz:
                return C(sz, int.from_bytes(data, "little"))
            if sz == 8 and len(ptrs) == 1 and ptrs[0][0] == 0:
                return ptrs[0][1]
        return b
    op = b.op
    if op == "sel":
        return SEL(b.a[0], b.a[1] + off, sz)
    if op == "c":
        return C(sz, b.a[0] >> (8 * off))
    if op == "bytes":
        data, ptrs = b.a
        for po, pt in ptrs:
            if po == off and sz == 8:
                return pt
            if po < off + sz and off < po + 8:
                return mk("sel", sz, b, off)
        if off + sz <= len(data):
            if sz <= 16:
                return C(sz, int.from_bytes(data[off : off + sz], "little"))
            np = tuple((po - off, pt) for po, pt in ptrs if off <= po and po + 8 <= off + sz)
            return mk("bytes", sz, data[off : off + sz], np)
    if op == "cat":
        for o, p in b.a[0]:
            if o <= off and off + sz <= o + p.sz:
                return SEL(p, off - o, sz)
        parts = []
        for o, p in b.a[0]:
            lo = max(o, off)
            hi = min(o + p.sz, off + sz)
            if lo < hi:
                parts.append((lo - off, SEL(p, lo - o, hi - lo)))
        return CAT(parts, sz)
    if op == "zext":
        x = b.a[0]
        if off == 0 and sz == x.sz:
            return x
        if off + sz <= x.sz:
            return SEL(x, off, sz)
        if off >= x.sz:
            return C(sz, 0)
    if op == "ite":
        return map1(lambda l: SEL(l, off, sz), b)
    if op == "undef":
        return UNDEF
    return mk("sel", sz, b, off)


def CAT(parts, sz):
    """parts: sorted list of (off, term)"""
    parts = [(o, p) for o, p in parts if p.sz > 0]
    if len(parts) == 1 and parts[0][0] == 0 and parts[0][1].sz == sz:
        return parts[0][1]
    # merge adjacent selections of one base
    m = []
    for o, p in parts:
        if m:
            o2, q = m[-1]
            if o2 + q.sz == o:
                if p.op == "sel" and q.op == "sel" and p.a[0] is q.a[0] and q.a[1] + q.sz == p.a[1]:
                    m[-1] = (o2, mk("sel", q.sz + p.sz, q.a[0], q.a[1]) if not (q.a[1] == 0 and q.a[0].sz == q.sz + p.sz) else q.a[0])
                    continue
                if p.op == "c" and q.op == "c" and p.sz + q.sz <= 16:
                    m[-1] = (o2, C(p.sz + q.sz, q.a[0] | (p.a[0] << (8 * q.sz))))
                    continue
        m.append((o, p))
    if len(m) == 1 and m[0][0] == 0 and m[0][1].sz == sz:
        return m[0][1]
    return mk("cat", sz, tuple(m))


def BYTES(data, ptrs=()):
    return mk("bytes", len(data), bytes(data), tuple(ptrs))


# ---------------------------------------------------------------- pointers
def PTR(aid, off):
    if isinstance(off, T) and off.op == "c":
        off = scv(off)
    if isinstance(aid, tuple) and aid[0] == "L" and isinstance(off, int) and off == 0:
        return aid[1]
    return mk("ptr", 8, aid, off)


def ptr_parts(t):
    if t.op == "ptr":
        return t.a[0], t.a[1]
    return ("L", t), 0


def ptr_add(t, delta):
    """t: pointer term; delta int or term (bytes, signed)"""
    if isinstance(delta, T) and delta.op == "c":
        delta = scv(delta)
    if isinstance(delta, int) and delta == 0:
        return t
    if t.op == "ite":
        return map1(lambda l: ptr_add(l, delta), t)
    if isinstance(delta, T) and delta.op == "ite" and all_const(delta):
        return map1(lambda d: ptr_add(t, d), delta)
    if t.op == "c" and isinstance(delta, int):
        return C(8, t.a[0] + delta)
    aid, off = ptr_parts(t)
    if isinstance(off, int) and isinstance(delta, int):
        return PTR(aid, off + delta)
    o = off if isinstance(off, T) else C(8, off)
    d = delta if isinstance(delta, T) else C(8, delta)
    s = iadd(o, d)
    if s.op == "c":
        return PTR(aid, scv(s))
    return mk("ptr", 8, aid, s)


# ---------------------------------------------------------------- integers
def iadd(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.sz, a.a[0] + b.a[0])
    if a.op == "ptr" and b.op in ("c",):
        return ptr_add(a, b)
    if b.op == "ptr" and a.op == "c":
        return ptr_add(b, a)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.a[0] == 0:
            return a
        if a.op == "add" and a.a[1].op == "c":
            return iadd(a.a[0], C(a.sz, a.a[1].a[0] + b.a[0]))
        if a.op == "ite" and all_ground(a):
            return map1(lambda l: iadd(l, b), a)
        return mk("add", a.sz, a, b)
    if a.op == "ite" and all_const(a) and (b.op != "ite" or all_const(b)):
        return apply2(iadd, a, b)
    if a.op == "add" and a.a[1].op == "c":
        return iadd(iadd(a.a[0], b), a.a[1])
    if b.op == "add" and b.a[1].op == "c":
        return iadd(iadd(a, b.a[0]), b.a[1])
    if a.op == "sub" and a.a[1] is b:
        return a.a[0]
    if b.op == "sub" and b.a[1] is a:
        return b.a[0]
    if b.id < a.id:
        a, b = b, a
    return mk("add", a.sz, a, b)


def isub(a, b):
    if b.op == "c":
        return iadd(a, C(b.sz, -b.a[0]))
    if a is b:
        return C(a.sz, 0)
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        x, y = a.a[1], b.a[1]
        x, y = (C(8, z) if isinstance(z, int) else z for z in (x, y))
        return isub(x, y)
    if a.op == "add" and b.op == "add" and a.a[1].op == "c" and b.a[1].op == "c":
        return iadd(isub(a.a[0], b.a[0]), C(a.sz, a.a[1].a[0] - b.a[1].a[0]))
    if a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    if a.op in ("ite", "c") and b.op in ("ite", "c") and all_ground(a) and all_ground(b):
        return apply2(isub, a, b)
    return mk("sub", a.sz, a, b)


def imul(a, b):
    if a.op == "c" and b.op == "c":
        return C(a.sz, a.a[0] * b.a[0])
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if b.a[0] == 0:
            return b
        if b.a[0] == 1:
            return a
        if a.op == "mul" and a.a[1].op == "c":
            return imul(a.a[0], C(a.sz, a.a[1].a[0] * b.a[0]))
        if a.op == "ite" and all_const(a):
            return map1(lambda l: imul(l, b), a)
        return mk("mul", a.sz, a, b)
    if b.id < a.id:
        a, b = b, a
    return mk("mul", a.sz, a, b)


def idiv(a, b, signed):
    if b.op == "c" and b.a[0] != 0:
        if a.op == "c":
            if signed:
                x, y = scv(a), scv(b)
                q = abs(x) // abs(y)
                return C(a.sz, q if (x < 0) == (y < 0) else -q)
            return C(a.sz, a.a[0] // b.a[0])
        if b.a[0] == 1:
            return a
        if a.op == "mul" and a.a[1] is b:
            return a.a[0]
    return mk("sdiv" if signed else "udiv", a.sz, a, b)


def irem(a, b, signed):
    if b.op == "c" and b.a[0] != 0 and a.op == "c":
        if signed:
            x, y = scv(a), scv(b)
            return C(a.sz, int(math.fmod(x, y)))
        return C(a.sz, a.a[0] % b.a[0])
    if b.op == "c" and b.a[0] == 1:
        return C(a.sz, 0)
    return mk("srem" if signed else "urem", a.sz, a, b)


def _bits(op, a, b):
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        return C(a.sz, x & y if op == "and" else x | y if op == "or" else x ^ y)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        full = (1 << (8 * b.sz)) - 1
        if op == "and":
            if b.a[0] == 0:
                return b
            if b.a[0] == full:
                return a
            if a.op == "ptr" and b.a[0] < 4096:
                return C(a.sz, 0)  # aligned
        if op == "or" and b.a[0] == 0:
            return a
        if op == "xor" and b.a[0] == 0:
            return a
        if a.op == "ite" and all_const(a):
            return map1(lambda l: _bits(op, l, b), a)
    if a is b:
        return a if op in ("and", "or") else C(a.sz, 0)
    if a.op == "ite" and b.op == "ite" and all_const(a) and all_const(b):
        return apply2(lambda x, y: _bits(op, x, y), a, b)
    if b.id < a.id:
        a, b = b, a
    return mk(op, a.sz, a, b)


def shift(op, a, b, signed=False):
    if b.op == "c":
        n = b.a[0] % (8 * a.sz)
        if n == 0:
            return a
        if a.op == "c":
            if op == "shl":
                return C(a.sz, a.a[0] << n)
            return C(a.sz, scv(a) >> n if signed else a.a[0] >> n)
        if a.op == "ite" and all_const(a):
            return map1(lambda l: shift(op, l, b, signed), a)
    return mk("sshr" if op == "shr" and signed else op, a.sz, a, b)


def inot(a):
    if a.op == "c":
        return C(a.sz, ~a.a[0])
    return mk("not", a.sz, a)


def ineg(a):
    if a.op == "c":
        return C(a.sz, -a.a[0])
    return mk("neg", a.sz, a)


def zext(a, sz):
    if a.sz == sz:
        return a
    if a.sz > sz:
        return SEL(a, 0, sz)
    if a.op == "c":
        return C(sz, a.a[0])
    if a.op == "ite":
        return map1(lambda l: zext(l, sz), a)
    if a.op == "zext":
        return zext(a.a[0], sz)
    return mk("zext", sz, a)


def sext(a, sz):
    if a.sz >= sz:
        return SEL(a, 0, sz) if a.sz > sz else a
    if a.op == "c":
        return C(sz, scv(a))
    if a.op == "ite":
        return map1(lambda l: sext(l, sz), a)
    return mk("sext", sz, a)


def ult(a, b):
    if a.op == "c" and b.op == "c":
        return ONE if a.a[0] < b.a[0] else ZERO
    if a is b:
        return ZERO
    if b.op == "c" and b.a[0] == 0:
        return ZERO
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0] and isinstance(a.a[1], int) and isinstance(b.a[1], int):
        return ONE if a.a[1] < b.a[1] else ZERO
    if b.op == "c" and b.a[0] == 1:
        return ieq(a, C(a.sz, 0))
    if a.op == "c" and a.a[0] == 0:
        return bnot(ieq(b, a))
    if a.op == "zext" and b.op == "c" and b.a[0] >= (1 << (8 * a.a[0].sz)):
        return ONE
    if b.op == "c" and a.op == "c":
        pass
    if a.op == "ite" or b.op == "ite":
        return apply2(ult, a, b)
    return atom(mk("ult", 1, a, b))


def slt(a, b):
    if a.op == "c" and b.op == "c":
        return ONE if scv(a) < scv(b) else ZERO
    if a is b:
        return ZERO
    if a.op == "ite" or b.op == "ite":
        return apply2(slt, a, b)
    return atom(mk("slt", 1, a, b))


# domain table: term -> ordered tuple of the values it can take (enum tags)
domain = {}
# term -> reserved values it was compared with before its domain was known: they stay possible
reserved = {}
# named value -> (first, count): reserved values it cannot have
never = {}


def never_top(a, v):
    """a: upper bytes of a word that has reserved values"""
    base, off = a.a[0], a.a[1]
    lo = off + a.sz - 8
    if lo < 0 or lo + 8 > base.sz:
        return False
    w = base if (lo == 0 and base.sz == 8) else mk("sel", 8, base, lo)
    nv = never.get(w)
    if nv is None:
        return False
    k = 8 * (8 - a.sz)
    return nv[0] <= (v << k) and ((v + 1) << k) <= nv[0] + nv[1]


def ieq(a, b):
    if a is b:
        return ONE
    if a.op == "c" and b.op == "c":
        return ONE if a.a[0] == b.a[0] else ZERO
    if a.op == "ite" or b.op == "ite":
        return apply2(ieq, a, b)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        nv = never.get(a)
        if nv is not None and (b.a[0] - nv[0]) & ((1 << (8 * a.sz)) - 1) < nv[1]:
            return ZERO
        if a.op == "sel" and a.sz < 8 and never_top(a, b.a[0]):
            return ZERO
        if a.op == "ptr":
            return ZERO
        if a.op == "fn" or a.op == "vt":
            return ZERO
        if a.op == "zext":
            if b.a[0] >> (8 * a.a[0].sz):
                return ZERO
            return ieq(a.a[0], C(a.a[0].sz, b.a[0]))
        if a.op == "add" and a.a[1].op == "c":
            return ieq(a.a[0], C(a.sz, b.a[0] - a.a[1].a[0]))
        d = domain.get(a)
        if d is not None and b.a[0] in reserved.get(a, ()):
            return atom(mk("eq", 1, a, b))
        if d is not None:
            return _dom_eq(a, d, b.a[0])
        if a.op == "cat" and any(p.op in ("c", "ite") for _, p in a.a[0]) and not any(p.op == "undef" for _, p in a.a[0]):
            r = ONE
            for o, p in a.a[0]:
                r = band(r, ieq(p, C(p.sz, (b.a[0] >> (8 * o)) & ((1 << (8 * p.sz)) - 1))))
                if r is ZERO:
                    break
            return r
        if a.op == "app" and a.a[0] == "nonnull" and b.a[0] == 0:
            return ZERO
    if a.op == "cat" and b.op == "cat" and a.sz == b.sz == 16 and all(p.op in ("ptr", "c") for p in [q for _, q in a.a[0]] + [q for _, q in b.a[0]]) and [o for o, _ in a.a[0]] == [o for o, _ in b.a[0]]:
        # type ids: two words
        rs = [ieq(p, q) for (_, p), (_, q) in zip(a.a[0], b.a[0])]
        if ZERO in rs:
            return ZERO
        if all(r is ONE for r in rs):
            return ONE
    if a.op == "ptr" and b.op == "ptr":
        x, y = a.a[1], b.a[1]
        if isinstance(x, int) and isinstance(y, int) and x >> 40 and y >> 40:
            # the words of a type id: provenance plus hash, only the hash is compared
            return ONE if x == y else ZERO
        if a.a[0] == b.a[0]:
            x, y = a.a[1], b.a[1]
            if isinstance(x, int) and isinstance(y, int):
                return ONE if x == y else ZERO
        elif not (isinstance(a.a[0], tuple) and a.a[0][0] == "L") and not (isinstance(b.a[0], tuple) and b.a[0][0] == "L"):
            return ZERO
    if b.id < a.id and b.op != "c":
        a, b = b, a
    return atom(mk("eq", 1, a, b))


def _dom_eq(a, d, v):
    if v not in d:
        return ZERO
    r = ONE
    for i, x in enumerate(d):
        last = i == len(d) - 1
        if last:
            return r if x == v else ZERO
        at = atom(mk("is", 1, a, x))
        if x == v:
            return band(r, at)
        r = band(r, bnot(at))
    return ZERO


def is_true(t):
    """bool value (1 byte) -> condition"""
    if t.op == "c":
        return ONE if t.a[0] else ZERO
    if t.op == "ite":
        return map1(is_true, t)
    if t.op == "undef":
        return ZERO
    return atom(t)


# ---------------------------------------------------------------- floats
EXACT = {}  # folded float constants -> the rational number they stand for


def exact(x):
    """the rational number a float constant stands for (decimal literals: 12 significant digits)"""
    from fractions import Fraction

    r = EXACT.get(x)
    return Fraction("%.12g" % x) if r is None else r


def note_exact(op, x, y, r):
    if r != r or r in (math.inf, -math.inf) or x != x or y != y or abs(x) == math.inf or abs(y) == math.inf or (op == "fdiv" and y == 0) or r in EXACT or op == "frem":
        return
    a, b = exact(x), exact(y)
    v = a + b if op == "fadd" else a - b if op == "fsub" else a * b if op == "fmul" else a / b
    from fractions import Fraction

    if v != Fraction("%.12g" % r) and v.denominator.bit_length() < 4000:
        EXACT[r] = v
        EXACT[-r] = -v


def _fold2(op, a, b):
    x, y = fval(a), fval(b)
    try:
        if op == "fadd":
            r = x + y
        elif op == "fsub":
            r = x - y
        elif op == "fmul":
            r = x * y
        elif op == "fdiv":
            if y == 0:
                if x == 0 or x != x:
                    r = math.nan
                else:
                    r = math.copysign(math.inf, x) * math.copysign(1.0, y)
            else:
                r = x / y
        elif op == "frem":
            r = math.fmod(x, y)
        else:
            return None
    except (OverflowError, ValueError, ZeroDivisionError):
        return None
    note_exact(op, x, y, r)
    return F(r)


def fbin(op, a, b):
    if a.op == "c" and b.op == "c" and a.sz == 8:
        r = _fold2(op, a, b)
        if r is not None:
            return r
    if op in ("fadd", "fmul") and b.id < a.id:
        a, b = b, a
    return mk(op, a.sz, a, b)


def fneg(a):
    if a.op == "c" and a.sz == 8:
        return F(-fval(a))
    if a.op == "fneg":
        return a.a[0]
    return mk("fneg", a.sz, a)


def fabs(a):
    if a.op == "c" and a.sz == 8:
        return F(abs(fval(a)))
    if a.op in ("fneg", "fabs"):
        return fabs(a.a[0])
    return mk("fabs", a.sz, a)


def fmin(a, b):
    if a.op == "c" and b.op == "c" and a.sz == 8:
        x, y = fval(a), fval(b)
        if x == x and y == y:
            return a if x <= y else b
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("fmin", a.sz, a, b)


def fmax(a, b):
    if a.op == "c" and b.op == "c" and a.sz == 8:
        x, y = fval(a), fval(b)
        if x == x and y == y:
            return a if x >= y else b
    if a is b:
        return a
    if b.id < a.id:
        a, b = b, a
    return mk("fmax", a.sz, a, b)


def fcmp(op, a, b):
    """op in lt, le, eq (ordered comparisons)"""
    if a.op == "c" and b.op == "c" and a.sz == 8:
        x, y = fval(a), fval(b)
        return ONE if (x < y if op == "lt" else x <= y if op == "le" else x == y) else ZERO
    if a.op == "ite" and all_const(a) or b.op == "ite" and all_const(b):
        return apply2(lambda x, y: fcmp(op, x, y), a, b)
    if a.op == "fabs" and b.op == "c" and b.sz == 8:
        y = fval(b)
        if op == "lt" and y == math.inf:
            return finite(a.a[0])
        if op == "le" and y == 1.7976931348623157e308:
            return finite(a.a[0])
    if op == "eq" and a is b:
        return bnot(isnan(a))
    if op == "eq" and a.op == "fabs" and b.op == "c" and b.sz == 8 and fval(b) == math.inf:
        return isinf(a.a[0])
    if op == "eq" and b.op == "fabs" and a.op == "c" and a.sz == 8 and fval(a) == math.inf:
        return isinf(b.a[0])
    if op == "eq" and b.id < a.id:
        a, b = b, a
    return atom(mk("f" + op, 1, a, b))


def isnan(a):
    if a.op == "c" and a.sz == 8:
        x = fval(a)
        return ONE if x != x else ZERO
    if a.op == "ite" and all_const(a):  # other gates stay inside: seven gated values must not multiply
        return map1(isnan, a)
    if a.op in ("fneg", "fabs"):
        return isnan(a.a[0])
    return atom(mk("isnan", 1, a))


def isinf(a):
    if a.op == "c" and a.sz == 8:
        return ONE if math.isinf(fval(a)) else ZERO
    if a.op == "ite" and all_const(a):
        return map1(isinf, a)
    if a.op in ("fneg", "fabs"):
        return isinf(a.a[0])
    return band(bnot(isnan(a)), atom(mk("isinf", 1, a)))


def finite(a):
    return band(bnot(isnan(a)), bnot(isinf(a)))


_REBUILD = {
    "sel": lambda t, na: SEL(na[0], na[1], t.sz),
    "add": lambda t, na: iadd(na[0], na[1]),
    "sub": lambda t, na: isub(na[0], na[1]),
    "mul": lambda t, na: imul(na[0], na[1]),
    "zext": lambda t, na: zext(na[0], t.sz),
    "fadd": lambda t, na: fbin("fadd", *na),
    "fsub": lambda t, na: fbin("fsub", *na),
    "fmul": lambda t, na: fbin("fmul", *na),
    "fdiv": lambda t, na: fbin("fdiv", *na),
    "fneg": lambda t, na: fneg(*na),
    "fabs": lambda t, na: fabs(*na),
    "fmin": lambda t, na: fmin(*na),
    "fmax": lambda t, na: fmax(*na),
    "ptr": lambda t, na: mk("ptr", 8, *na),
}


# ---------------------------------------------------------------- printing
_namer = [None]


def show(t, d=6):
    op = t.op
    if op == "c":
        if t.sz == 8:
            v = t.a[0]
            e = (v >> 52) & 0x7FF
            if 0x380 < e < 0x480:
                return "%r" % fval(t)
        return "%d" % scv(t) if t.sz > 1 else "%d" % t.a[0]
    if op == "sym":
        return str(t.a[0])
    if op == "undef":
        return "undef"
    if d <= 0:
        return "…"
    if op == "sel":
        if _namer[0]:
            n = _namer[0](t)
            if n:
                return n
        return "%s[%d:%d]" % (show(t.a[0], d - 1), t.a[1], t.a[1] + t.sz)
    if op == "bytes":
        return "bytes(%s)" % (t.a[0][:24].hex() if not _printable(t.a[0]) else repr(t.a[0][:60]))
    if op == "ite":
        return "(%s ? %s : %s)" % (show(t.a[0], d - 1), show(t.a[1], d - 1), show(t.a[2], d - 1))
    if op == "ptr":
        return "&%s+%s" % (t.a[0], t.a[1])
    if op == "cat":
        return "cat(%s)" % ", ".join("%d:%s" % (o, show(p, d - 1)) for o, p in t.a[0][:6])
    return "%s(%s)" % (op, ", ".join(show(x, d - 1) if isinstance(x, T) else (_showtup(x, d - 1)) for x in t.a))


def _showtup(x, d):
    if isinstance(x, tuple):
        if d <= 0:
            return "(…)"
        return "(" + ", ".join(show(y, d - 1) if isinstance(y, T) else _showtup(y, d - 1) for y in x[:8]) + ")"
    return str(x)


def _printable(b):
    return len(b) > 0 and all(32 <= x < 127 for x in b[:60])
