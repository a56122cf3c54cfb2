"""Which datagram a value stems from.

`Dg.absorb(t)` rewrites a value-flow term so that everything decoded from one received state datagram becomes a
selection of state(sig), addressed by wire offset; sig names the datagram.  Values carried around a loop are
recognised by induction: a loop-carried cell whose initial value is f(state(A)) and whose next value is f(state(B))
is f(state(dgmu(loop, A, B))).  Two cells with the same sig hold data of the same datagram at every iteration.
"""
from base import *  # noqa
from interp import _subterms

HOLE = mk("sg", 0, "hole")
NONE = mk("sg", 0, "none")
SELF = mk("sg", 0, "self")


class Memo(dict):
    """memo of a rewriting with a hook for gated values"""
    gated = None


class Dg:
    def __init__(self, eng, size=2373):
        self.eng, self.size = eng, size
        self.memo = self.new_memo()
        self.busy = {}
        self.fraw = {}
        self.maps = {}
        self.fmemo = {}
        self.smemo = {}

    def new_memo(self):
        m = Memo()
        m.gated = self.choice
        return m

    def choice(self, t):
        """a gated value: one state chosen by the gate"""
        f = self.factor_raw(t)
        if f is None or f[0] is None or f[1] is SELF or not self.refs(f[0]):
            return None
        return self.subst(f[0], f[1])

    def state(self, sig):
        return mk("state", self.size, sig)

    def is_state(self, t):
        return t.op == "state"

    # ---- decoded values
    def memmap(self, tyname):
        m = self.maps.get(tyname)
        if m is None:
            w = wire(self.eng, tyname)
            m = self.maps[tyname] = [] if w is None or w[0] != self.size else sorted((mo, sz, wo) for wo, sz, mo, _ in w[1])
        return m

    def from_de(self, de, off, sz):
        m = self.memmap(de.a[0])
        if not m:
            return None
        st = self.state(mk("dg", 0, de.a[1]))
        parts = []
        for mo, s, wo in m:
            lo, hi = max(mo, off), min(mo + s, off + sz)
            if lo < hi:
                parts.append((lo - off, SEL(st, wo + lo - mo, hi - lo)))
        return CAT(parts, sz) if parts else None

    # ---- rewriting
    def absorb(self, t):
        return rewrite(t, self.leaf, self.memo)

    def leaf(self, x):
        b, off = (x.a[0], x.a[1]) if x.op == "sel" else (x, 0)
        if b.op in ("state", "st_self"):
            return x
        if b.op == "de":
            return self.from_de(b, off, x.sz if x.op == "sel" else self.eng.size(ty_by_name(self.eng, b.a[0])))
        if b.op == "phi":
            d = self.eng.phi_def.get(b)
            if d is None:
                return None
            return SEL(d, off, x.sz) if x.op == "sel" else d
        if b.op == "mu" and b in self.eng.mu_next:
            return self.mu(x, b, off)
        return None

    def mu(self, x, b, off):
        if x in self.busy:
            self.busy[x] += 1
            return mk("st_self", x.sz, x)
        eng = self.eng
        i, n = eng.mu_init[b], eng.mu_next[b]
        if x.op == "sel":
            i = SEL(i, off, x.sz) if i.op != "undef" else i
            n = SEL(n, off, x.sz) if n.op != "undef" else n
        li = eng.loop_info.get(b.a[0])
        if li is None:
            return None
        head = eng.events.get(li["head"])
        if head is not None:
            i = piecewise(i, lambda p: restrict(p, head.pc))
        n = piecewise(n, lambda p: restrict(p, li["back_pc"]))
        self.busy[x] = 0
        save, savef = self.memo, self.fraw
        self.memo, self.fraw = self.new_memo(), {}
        try:
            fi = self.factor_raw(i)
            fn = self.factor_raw(n)
        finally:
            self.memo, self.fraw = save, savef
            del self.busy[x]
        if fi is None or fn is None:
            return None
        ti, si = fi
        tn, sn = fn
        if tn is None or sn is SELF:
            return self.subst(ti, si) if ti is not None else None
        if ti is None:
            ti = tn
        ti, si, tn, sn = niche(ti, si, tn, sn)
        if ti is not tn:
            return None
        if not self.refs(tn):
            return None
        return self.subst(tn, mk("dgmu", 0, b.a[0], si, sn))

    # ---- factoring f(state(sig))
    def sigs(self, t):
        r = self.smemo.get(t)
        if r is None:
            r = self.smemo[t] = frozenset(x.a[0] for x in self.refs(t) if x.op == "state")
        return r

    def refs(self, t):
        """state(..) and st_self(..) terms in t, not looking inside signatures"""
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("state", "st_self"):
                out.add(x)
            else:
                st.extend(_subterms(x.a))
        return out

    def has_self(self, t):
        return any(x.op == "st_self" for x in self.refs(t))

    def subst(self, t, sig):
        if t is None:
            return None
        s = self.state(sig)
        h = self.state(HOLE)
        return self._swap(t, h, s)

    def hole(self, t, sig):
        return self._swap(t, self.state(sig), self.state(HOLE))

    def _swap(self, t, a, b):
        def f(x):
            if x.op == "sel" and x.a[0].op in ("state", "st_self"):
                return SEL(b, x.a[1], x.sz) if x.a[0] is a else x
            if x.op in ("state", "st_self"):
                return b if x is a else x
            return None

        # results of f are final: rewriting them again leaves them alone
        return _rewrite1(t, f, {})

    def factor(self, t):
        """(template, sig) with t = template[sig]; template None: no information (undefined or the cell itself)"""
        key = t
        if key in self.fmemo:
            return self.fmemo[key]
        r = self._factor(t)
        if not self.has_self(t):
            self.fmemo[key] = r
        return r

    def _factor(self, t):
        if t.op == "undef":
            return None, NONE
        if t.op == "st_self":
            return None, SELF
        if t.op == "cat" and all(p.op in ("undef", "st_self") for _, p in t.a[0]):
            return None, SELF if any(p.op == "st_self" for _, p in t.a[0]) else NONE
        s = self.sigs(t)
        selfs = self.has_self(t)
        if not selfs and len(s) == 1:
            sig = next(iter(s))
            return self.hole(t, sig), sig
        if not selfs and not s:
            if t.op != "ite":
                return t, NONE
        if t.op == "cat":
            # gated parts: lift a common gate
            gates = [a for _, p in t.a[0] if p.op == "ite" for a in atoms_of(p)]
            if not gates:
                return None if (s or selfs) else (t, NONE)
            g = min(gates, key=self.rank)
            hi = CAT([(o, restrict(p, atom(g))) for o, p in t.a[0]], t.sz)
            lo = CAT([(o, restrict(p, bnot(atom(g)))) for o, p in t.a[0]], t.sz)
            return self.join(g, hi, lo)
        if t.op == "ite":
            g = min(atoms_of(t), key=self.rank)
            return self.join(g, restrict(t, atom(g)), restrict(t, bnot(atom(g))))
        return None

    def factor_raw(self, t):
        """factor of a term that is not absorbed yet: the gates that select a datagram keep their original atoms,
        so that all cells updated under the same condition get the same signature"""
        if t in self.fraw:
            return self.fraw[t]
        if t.op == "ite":
            r = self.joined(t.a[0], self.factor_raw(t.a[1]), self.factor_raw(t.a[2]), True)
        elif t.op == "cat":
            r = self.cat_raw(t)
        else:
            b, off = (t.a[0], t.a[1]) if t.op == "sel" else (t, 0)
            d = self.eng.phi_def.get(b) if b.op == "phi" else None
            if d is not None:
                r = self.factor_raw(SEL(d, off, t.sz) if t.op == "sel" else d)
            else:
                r = self.factor(self.absorb(t))
        self.fraw[t] = r
        return r

    def cat_raw(self, t):
        fs = []
        for o, p in t.a[0]:
            f = self.factor_raw(p)
            if f is None:
                return None
            fs.append((o, p, f))
        sig = None
        for o, p, (tm, sg) in fs:
            if tm is None and sg is NONE:
                continue
            if tm is not None and not self.refs(tm):
                continue
            if sig is None:
                sig = sg
            elif sig is not sg:
                return None
        if sig is None:
            sig = NONE
        if sig is SELF:
            return None, SELF
        parts = [(o, tm if tm is not None else UNDEF) for o, p, (tm, sg) in fs]
        if all(x.op == "undef" for _, x in parts):
            return None, sig
        return CAT([(o, x) for o, x in parts if x.op != "undef"], t.sz), sig

    def join(self, g, hi, lo):
        return self.joined(g, self.factor(hi), self.factor(lo), False)

    def joined(self, g, a, b, raw):
        if a is None or b is None:
            return None
        ta, sa, tb, sb = niche(a[0], a[1], b[0], b[1])
        a, b = (ta, sa), (tb, sb)
        if ta is None or tb is None or ta is tb:
            # 'no datagram' is a don't-care: the signature names the datagram where there is one
            sg = b[1] if a[1] is NONE else a[1] if b[1] is NONE else ite(atom(g), a[1], b[1])
            return (ta if ta is not None else tb), sg
        if a[1] is b[1] or NONE in (a[1], b[1]):
            sig = a[1] if a[1] is not NONE else b[1]
            if raw:
                c = rewrite_atom(g, self.leaf, self.memo)
                r = self.refs(c)
                if all(x.op == "state" and x.a[0] is sig for x in r):
                    return ite(self.hole(c, sig), ta, tb), sig
                return None
            if not self.refs(g):
                return ite(atom(g), ta, tb), sig
            if self.sigs(g) == frozenset([sig]) and not self.has_self(g):
                return ite(TM.is_true(self.hole(atom(g), sig)), ta, tb), sig
        return None

    def rank(self, a):
        return (bool(self.refs(a)), a.id)


def _rewrite1(t, f, memo):
    """like rewrite, but results of f are not rewritten again"""
    done = {}

    def g(x):
        if x in done:
            return x
        y = f(x)
        if y is not None:
            done[y] = 1
        return y

    return rewrite(t, g, memo)


def niche(ta, sa, tb, sb):
    """a one-byte constant > 1 where the other side has a flag of a state: the 'no datagram' marker of an Option"""
    def k(t):
        return t is not None and t.op == "c" and t.sz == 1 and t.a[0] > 1

    def flag(t):
        return t is not None and t.sz == 1 and t.op == "sel" and t.a[0].op == "state"

    if k(ta) and flag(tb):
        return tb, NONE, tb, sb
    if k(tb) and flag(ta):
        return ta, sa, ta, NONE
    return ta, sa, tb, sb
