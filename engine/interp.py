"""Interprocedural abstract interpreter over exported MIR.

Domain: gated terms (terms.py) over a byte-addressed store.  States are merged at every join
(no path enumeration); calls into the analysed crates are analysed in context; loops with constant
trip counts are expanded, all others are summarised by a fixpoint that replaces every loop-carried
cell by a loop symbol.  External calls, user callbacks and panics become events of an effect graph.
"""
import bisect
import json
import re
import sys
import threading
from terms import *

sys.setrecursionlimit(400000)


class AnalysisError(Exception):
    pass


class Obj:
    __slots__ = ("cells", "base", "keys")

    def __init__(self, base=None):
        self.cells = {}
        self.base = base
        self.keys = []

    def clone(self):
        o = Obj(self.base)
        o.cells = self.cells.copy()
        o.keys = self.keys[:]
        return o

    # -- reading: list of (relative offset, term) covering what is defined in [off, off+size)
    def read(self, off, size):
        c = self.cells.get(off)
        if c is not None and c.sz == size:
            return [(0, c)]
        out = []
        keys = self.keys
        i = bisect.bisect_right(keys, off) - 1
        if i < 0:
            i = 0
        end = off + size
        pos = off
        n = len(keys)
        while i < n:
            k = keys[i]
            if k >= end:
                break
            t = self.cells[k]
            ke = k + t.sz
            if ke <= off:
                i += 1
                continue
            lo = k if k > off else off
            hi = ke if ke < end else end
            if lo > pos and self.base is not None:
                out.append((pos - off, SEL(self.base, pos, lo - pos)))
            out.append((lo - off, t if lo == k and hi == ke else SEL(t, lo - k, hi - lo)))
            pos = hi
            i += 1
        if pos < end and self.base is not None:
            out.append((pos - off, SEL(self.base, pos, end - pos)))
        return out

    def clear(self, off, size):
        if size <= 0:
            return
        c = self.cells.get(off)
        keys = self.keys
        if c is not None and c.sz == size:
            del self.cells[off]
            i = bisect.bisect_left(keys, off)
            del keys[i]
            return
        end = off + size
        i = bisect.bisect_right(keys, off) - 1
        if i < 0:
            i = 0
        kill = []
        add = []
        n = len(keys)
        j = i
        while j < n:
            k = keys[j]
            if k >= end:
                break
            t = self.cells[k]
            ke = k + t.sz
            if ke > off:
                kill.append(k)
                if k < off:
                    add.append((k, SEL(t, 0, off - k)))
                if ke > end:
                    add.append((end, SEL(t, end - k, ke - end)))
            j += 1
        for k in kill:
            del self.cells[k]
            del keys[bisect.bisect_left(keys, k)]
        for k, t in add:
            self.put(k, t)

    def put(self, off, t):
        if off not in self.cells:
            bisect.insort(self.keys, off)
        self.cells[off] = t

    def write(self, off, size, vals):
        if len(vals) == 1 and vals[0][0] == 0:
            t = vals[0][1]
            if t.sz == size:
                c = self.cells.get(off)
                if c is not None and c.sz == size:
                    self.cells[off] = t
                    return
        self.clear(off, size)
        for o, t in vals:
            if t.sz > 0:
                self.put(off + o, t)


EMPTY = Obj()


class State:
    __slots__ = ("pc", "mem", "owned", "fr")

    def __init__(self):
        self.pc = ONE
        self.mem = {}
        self.owned = set()
        self.fr = frozenset()

    def fork(self):
        s = State()
        s.pc = self.pc
        s.mem = self.mem.copy()
        self.owned = set()
        s.fr = self.fr
        return s

    def w(self, aid):
        o = self.mem.get(aid)
        if o is None:
            o = Obj()
            self.mem[aid] = o
            self.owned.add(aid)
            return o
        if aid not in self.owned:
            o = o.clone()
            self.mem[aid] = o
            self.owned.add(aid)
        return o


def _bounds(v, acc):
    for o, t in v:
        acc.add(o)
        acc.add(o + t.sz)


def _split(v, cuts):
    """split cells of v at the sorted cut positions"""
    out = []
    for o, t in v:
        e = o + t.sz
        i = bisect.bisect_right(cuts, o)
        p = o
        while i < len(cuts) and cuts[i] < e:
            out.append((p, SEL(t, p - o, cuts[i] - p)))
            p = cuts[i]
            i += 1
        out.append((p, t if p == o else SEL(t, p - o, e - p)))
    return out


def merge_vals(c, A, B):
    """cellwise ite(c, A, B); a missing side is 'uninitialised' and does not matter"""
    if A == B:
        return A
    if len(A) == len(B):
        same = True
        for (o1, t1), (o2, t2) in zip(A, B):
            if o1 != o2 or t1.sz != t2.sz:
                same = False
                break
        if same:
            return [(o, t1 if t1 is t2 else ite(c, t1, t2)) for (o, t1), (_, t2) in zip(A, B)]
    acc = set()
    _bounds(A, acc)
    _bounds(B, acc)
    cuts = sorted(acc)
    da = dict(_split(A, cuts))
    db = dict(_split(B, cuts))
    out = []
    for o in sorted(set(da) | set(db)):
        x, y = da.get(o), db.get(o)
        if x is None:
            out.append((o, y))
        elif y is None:
            out.append((o, x))
        else:
            out.append((o, ite(c, x, y)))
    return out


def full_cells(o, cuts):
    """cells of an object refined at cuts, gaps filled from the base between first and last cut"""
    v = _split(sorted(o.cells.items()), cuts)
    if o.base is not None:
        have = dict(v)
        out = []
        covered = []
        for off, t in v:
            covered.append((off, off + t.sz))
        ci = 0
        for i in range(len(cuts) - 1):
            lo, hi = cuts[i], cuts[i + 1]
            if lo in have:
                continue
            # is [lo,hi) covered?
            j = bisect.bisect_right(covered, (lo, 1 << 60)) - 1
            if j >= 0 and covered[j][1] > lo:
                continue
            out.append((lo, SEL(o.base, lo, hi - lo)))
        v = sorted(v + out)
    return v


def merge_obj(c, a, b):
    if a is b:
        return a
    if a.base is b.base and a.cells == b.cells:
        return a
    acc = set()
    _bounds(a.cells.items(), acc)
    _bounds(b.cells.items(), acc)
    cuts = sorted(acc)
    if a.base is b.base and a.keys == b.keys and all(a.cells[k].sz == b.cells[k].sz for k in a.keys):
        A, B = sorted(a.cells.items()), sorted(b.cells.items())
    else:
        A, B = full_cells(a, cuts), full_cells(b, cuts)
    o = Obj()
    if a.base is b.base:
        o.base = a.base
    elif a.base is None:
        o.base = b.base
    elif b.base is None:
        o.base = a.base
    else:
        o.base = ite(c, a.base, b.base)
    for off, t in merge_vals(c, A, B):
        o.cells[off] = t
    o.keys = sorted(o.cells)
    return o


class Event:
    __slots__ = ("id", "key", "name", "inst", "kind", "args", "argtys", "deep", "pc", "ctx", "preds", "loc", "stack", "loops", "retty", "ret", "info")

    def __repr__(self):
        return "E%d:%s@%s" % (self.id, self.name, self.loc)


class Frame:
    __slots__ = ("uid", "inst", "body", "iters", "parent", "bb", "loops", "depth")


class Loop:
    __slots__ = ("header", "blocks", "parent", "order", "children")


class Body:
    """CFG facts of one instance"""

    def __init__(self, j):
        self.j = j
        self.blocks = j["blocks"]
        n = len(self.blocks)
        self.succ = [self._succ(b) for b in self.blocks]
        # RPO
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            adv = False
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    adv = True
                    break
            if not adv:
                order.append(x)
                st.pop()
        order.reverse()
        self.rpo = order
        idx = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b

        loops = {}
        for b in order:
            for s in self.succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        raise AnalysisError("irreducible control flow in " + j["name"])
                    L = loops.setdefault(s, set([s]))
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in L:
                            L.add(x)
                            wl.extend(pred[x])
        top = Loop()
        top.header = 0
        top.blocks = set(order)
        top.parent = None
        objs = []
        for h, bs in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            l = Loop()
            l.header = h
            l.blocks = bs
            l.parent = top
            for o in objs:
                if h in o.blocks and len(o.blocks) >= len(bs) and o.header != h:
                    if len(o.blocks) < len(l.parent.blocks):
                        l.parent = o
            objs.append(l)
        self.top = top
        for L in [top] + objs:
            L.children = {o.header: o for o in objs if o.parent is L}
            # nodes at this level
            inner = set()
            rep = {}
            for o in L.children.values():
                for b in o.blocks:
                    inner.add(b)
                    rep[b] = o.header
            nodes = [b for b in order if b in L.blocks and (b not in inner or b in L.children)]
            # edges in collapsed graph
            E = {x: set() for x in nodes}
            indeg = {x: 0 for x in nodes}
            for x in nodes:
                srcs = L.children[x].blocks if x in L.children else [x]
                for s in srcs:
                    for y in self.succ[s]:
                        if y not in L.blocks:
                            continue
                        ry = rep.get(y, y)
                        if ry == x or (ry == L.header and L is not top) or (L is top and ry == 0 and x != 0 and False):
                            continue
                        if ry in E and ry not in E[x]:
                            E[x].add(ry)
                            indeg[ry] += 1
            # topological order
            ready = [x for x in nodes if indeg[x] == 0]
            ready.sort(key=lambda x: idx[x])
            out = []
            import heapq

            hq = [(idx[x], x) for x in ready]
            heapq.heapify(hq)
            while hq:
                _, x = heapq.heappop(hq)
                out.append(x)
                for y in E[x]:
                    indeg[y] -= 1
                    if indeg[y] == 0:
                        heapq.heappush(hq, (idx[y], y))
            if len(out) != len(nodes):
                raise AnalysisError("cannot order blocks of " + j["name"])
            L.order = out

    def _succ(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            r = []
            for v, x in t[2]:
                if x not in r:
                    r.append(x)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[3]]
        return []


def flatten(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            st.extend(y)
        else:
            yield y


_supp = {}


def support(t):
    """identifiers of events, loops and named values a term depends on"""
    r = _supp.get(t)
    if r is not None:
        return r
    if t.op == "ev":
        r = frozenset([t.a[0]])
    elif t.op == "mu":
        r = frozenset([("mu", t.a[0])])
    elif t.op == "phi":
        r = frozenset([("phi",) + t.a])
    else:
        r = frozenset()
        for x in _subterms(t.a):
            r |= support(x)
    _supp[t] = r
    return r


def _subterms(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _subterms(x):
                yield y


def exists(f, bad, memo=None):
    """existential quantification of the atoms in bad"""
    if f.op != "ite":
        return f
    if memo is None:
        memo = {}
    r = memo.get(f)
    if r is None:
        h, l = exists(f.a[1], bad, memo), exists(f.a[2], bad, memo)
        r = bor(h, l) if f.a[0] in bad else ite(atom(f.a[0]), h, l)
        memo[f] = r
    return r


def bool_leaf(t):
    return t if t.op in ("c", "undef") else atom(t)


_nodes = {}


def nodes(t):
    """number of decision nodes"""
    if t.op != "ite":
        return 0
    r = _nodes.get(t)
    if r is None:
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen or x.op != "ite":
                continue
            seen.add(x)
            st.append(x.a[1])
            st.append(x.a[2])
        r = len(seen)
        _nodes[t] = r
    return r


def cube(f):
    """conjunction of the literals implied by f"""
    r = ONE
    while f.op == "ite":
        if f.a[1] is ZERO:
            r = band(r, bnot(atom(f.a[0])))
            f = f.a[2]
        elif f.a[2] is ZERO:
            r = band(r, atom(f.a[0]))
            f = f.a[1]
        else:
            break
    if f.op == "ite":
        for a in atoms_of(f):
            at = atom(a)
            if band(f, at) is ZERO:
                r = band(r, bnot(at))
            elif band(f, bnot(at)) is ZERO:
                r = band(r, at)
    return r


def dom_value(n):
    d = domain[n]
    r = C(n.sz, d[-1])
    for v in d[:-1]:
        r = ite(ieq(n, C(n.sz, v)), C(n.sz, v), r)
    return r


class Engine:
    MAX_UNROLL = 600
    seal_on = True

    def __init__(self, export):
        self.tys = export["tys"]
        self.insts = export["insts"]
        self.allocs = export["allocs"]
        self.vmap = {(v, t): i for v, t, i in export["vmap"]}
        self.bodies = {}
        self.by_name = {}
        for i in self.insts:
            self.by_name.setdefault(i["name"], i)
        self.models = []  # (predicate, handler)
        self.model_cache = {}
        self.policy = lambda inst: "inline" if "blocks" in inst else "effect"
        self.reset()
        self._galloc_memo = {}
        self._const_memo = {}
        self.drop_memo = {}

    def reset(self):
        self.uids = {}
        self.evkeys = {}
        self.events = {}
        self.mu_init = {}
        self.mu_next = {}
        self.loop_info = {}
        self.loopstack = []
        self.lids = ()
        self.steps = 0
        self.inlined = set()
        self.opaque = set()
        self.monitors = []
        self.analysed_calls = 0
        self.idstack = []
        self.ctx = ()
        self.phi_def = {}
        self.phi_ctx = {}

    # ------------------------------------------------------------ helpers
    def uid(self, key):
        r = self.uids.get(key)
        if r is None:
            r = len(self.uids) + 1
            self.uids[key] = r
        return r

    def size(self, ty):
        return self.tys[ty].get("size")

    def body(self, inst):
        b = self.bodies.get(inst["id"])
        if b is None:
            b = Body(inst)
            self.bodies[inst["id"]] = b
        return b

    def local(self, fr, i):
        return (fr.uid, i)

    def globj(self, n):
        """term/alloc for global allocation n"""
        return ("G", n)

    def get_obj(self, st, aid):
        o = st.mem.get(aid)
        if o is None:
            o = self._fresh_obj(aid)
            st.mem[aid] = o
        return o

    def _fresh_obj(self, aid):
        if aid[0] == "G":
            a = self.allocs[aid[1]]
            if "bytes" in a:
                o = Obj(self.const_chunk(a))
                return o
            return Obj(mk("global", -1, a.get("name", "?"), aid[1]))
        if aid[0] == "L":
            return Obj(mk("deref", -1, aid[1]))
        return Obj()

    def const_chunk(self, a):
        data = bytes.fromhex(a["bytes"])
        ptrs = []
        for off, tgt in a.get("ptrs", []):
            addend = int.from_bytes(data[off : off + 8], "little")
            ptrs.append((off, self.galloc_ptr(tgt, addend)))
        und = a.get("undef")
        if und == "all" or (und and len(und) == len(data)):
            return UNDEF
        return BYTES(data, ptrs)

    def galloc_ptr(self, n, addend):
        a = self.allocs[n]
        if a["k"] == "fn":
            return mk("fn", 8, a["inst"])
        if a["k"] == "vtable":
            return mk("vt", 8, a["ty"])
        return PTR(("G", n), addend)

    # ------------------------------------------------------------ loads / stores
    def load(self, st, aid, off, size):
        if size == 0:
            return []
        o = self.get_obj(st, aid)
        if isinstance(off, int):
            v = o.read(off, size)
        else:
            off = restrict(off, st.pc)
            if off.op == "c":
                v = o.read(scv(off), size)
            elif off.op == "ite" and all_const(off):
                v = None
                ls = leaves(off)
                v = o.read(scv(ls[-1]), size)
                for l in ls[:-1]:
                    v = merge_vals(cond_of(off, lambda x: x is l), o.read(scv(l), size), v)
            else:
                return [(0, mk("idx", size, self.blob(o), off))]
        pc = st.pc
        for i, (ro, t) in enumerate(v):
            if t.op == "ite":
                t2 = restrict(t, pc)
                if t2 is not t:
                    v = list(v)
                    v[i] = (ro, t2)
        return v

    def blob(self, o):
        if not o.cells and o.base is not None:
            return o.base
        return mk("blob", -1, o.base if o.base is not None else UNDEF, tuple(sorted(((k, t) for k, t in o.cells.items()), key=lambda x: x[0])))

    def scalar(self, st, aid, off, size):
        v = self.load(st, aid, off, size)
        if len(v) == 1 and v[0][0] == 0 and v[0][1].sz == size:
            return v[0][1]
        if not v:
            return UNDEF
        return CAT(v, size)

    def store(self, st, aid, off, size, vals):
        if size == 0:
            return
        o = st.mem.get(aid)
        if o is None:
            o = self._fresh_obj(aid)
            st.mem[aid] = o
            st.owned.add(aid)
        elif aid not in st.owned:
            o = o.clone()
            st.mem[aid] = o
            st.owned.add(aid)
        if isinstance(off, int):
            o.write(off, size, vals)
        else:
            b = self.blob(o)
            o.cells = {}
            o.keys = []
            o.base = mk("upd", -1, b, off, CAT(vals, size))

    def load_lv(self, st, lv, size):
        if len(lv) == 1:
            return self.load(st, lv[0][1], lv[0][2], size)
        v = None
        for g, aid, off, meta in reversed(lv):
            x = self.load(st, aid, off, size)
            v = x if v is None else merge_vals(g, x, v)
        return v

    def store_lv(self, st, lv, size, vals):
        if len(lv) == 1:
            self.store(st, lv[0][1], lv[0][2], size, vals)
            return
        for g, aid, off, meta in lv:
            old = self.load(st, aid, off, size)
            self.store(st, aid, off, size, merge_vals(g, vals, old))

    # ------------------------------------------------------------ places
    def lval(self, fr, st, p):
        locals_ = fr.inst["locals"]
        ty = locals_[p[0]]
        lv = [(ONE, (fr.uid, p[0]), 0, None)]
        variant = None
        for e in p[1:]:
            if e == "*":
                out = []
                tj = self.tys[ty]
                if tj["k"] not in ("ref", "ptr"):
                    # Box: the pointer is at offset 0
                    ety = tj["args"][0]
                else:
                    ety = tj["e"]
                fat = self.size(ty) == 16
                for g, aid, off, meta in lv:
                    pv = self.scalar(st, aid, off, 8)
                    m = self.scalar(st, aid, off + 8 if isinstance(off, int) else iadd(off, C(8, 8)), 8) if fat else None
                    pv = restrict(pv, st.pc)
                    if pv.op == "ite":
                        ls = leaves(pv)
                        for l in ls:
                            if l.op in ("c", "undef"):
                                continue
                            a2, o2 = ptr_parts(l)
                            gg = band(g, cond_of(pv, lambda x: x is l))
                            mm = m
                            if m is not None and m.op == "ite":
                                mm = restrict(m, gg)
                            out.append((gg, a2, o2, mm))
                    else:
                        a2, o2 = ptr_parts(pv)
                        out.append((g, a2, o2, m))
                if not out:
                    out = [(ONE, ("L", UNDEF), 0, None)]
                lv = out
                ty = ety
            elif e[0] == "f":
                tj = self.tys[ty]
                if tj["k"] == "enum":
                    fo = tj["variants"][variant if variant is not None else 0]["fields"][e[1]][0]
                else:
                    fs = tj.get("fields")
                    fo = fs[e[1]][0] if fs and e[1] < len(fs) else 0
                if fo:
                    lv = [(g, a, (o + fo if isinstance(o, int) else iadd(o, C(8, fo))), m) for g, a, o, m in lv]
                ty = e[2]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                ety = self.tys[ty]["e"]
                es = self.size(ety)
                iv = self.scalar(st, (fr.uid, e[1]), 0, 8)
                iv = restrict(iv, st.pc)
                lv = self._index(st, lv, iv, es)
                ty = ety
            elif e[0] == "ci":
                ety = self.tys[ty]["e"]
                es = self.size(ety)
                off, _, fe = e[1], e[2], e[3]
                out = []
                for g, a, o, m in lv:
                    if fe:
                        ln = self.tys[ty].get("len")
                        lt = C(8, ln) if ln is not None else m
                        d = imul(isub(lt, C(8, off)), C(8, es))
                    else:
                        d = C(8, off * es)
                    out.append((g, a, self._oadd(o, d), None))
                lv = out
                ty = ety
            elif e[0] == "ss":
                ety = self.tys[ty]["e"]
                es = self.size(ety)
                out = []
                for g, a, o, m in lv:
                    ln = self.tys[ty].get("len")
                    lt = C(8, ln) if ln is not None else m
                    to = isub(lt, C(8, e[2])) if e[3] else C(8, e[2])
                    out.append((g, a, self._oadd(o, C(8, e[1] * es)), isub(to, C(8, e[1]))))
                lv = out
                # type: slice or array; keep element-compatible type
            elif e[0] == "oc":
                ty = e[1]
            else:
                raise AnalysisError("projection %r" % (e,))
        return ty, lv

    def _oadd(self, o, d):
        if isinstance(o, int) and d.op == "c":
            return o + scv(d)
        r = iadd(C(8, o) if isinstance(o, int) else o, d)
        return scv(r) if r.op == "c" else r

    def _index(self, st, lv, iv, es):
        out = []
        for g, a, o, m in lv:
            if iv.op == "ite" and all_const(iv):
                for l in leaves(iv):
                    out.append((band(g, cond_of(iv, lambda x: x is l)), a, self._oadd(o, imul(l, C(8, es))), None))
            else:
                out.append((g, a, self._oadd(o, imul(iv, C(8, es))), None))
        return out

    # ------------------------------------------------------------ operands
    def const_val(self, c):
        k = id(c)
        r = self._const_memo.get(k)
        if r is not None:
            return r[1]
        ty = c["c"]
        size = self.size(ty) or 0
        if "zst" in c or size == 0:
            v = []
        elif "bytes" in c:
            ch = self.const_chunk(c)
            if ch is UNDEF:
                v = []
            elif c.get("undef"):
                und = set(c["undef"])
                v = []
                i = 0
                data = bytes.fromhex(c["bytes"])
                n = len(data)
                while i < n:
                    if i in und:
                        i += 1
                        continue
                    j = i
                    while j < n and j not in und:
                        j += 1
                    v.append((i, SEL(ch, i, j - i)))
                    i = j
            elif self.tys[ty]["k"] in ("ref", "ptr", "fnptr") and size == 16:
                v = [(0, SEL(ch, 0, 8)), (8, SEL(ch, 8, 8))]
            elif size <= 8 or (size == 16 and self.tys[ty]["k"] in ("int", "uint")):
                t = SEL(ch, 0, size) if ch.sz != size or True else ch
                if t.op == "bytes":
                    data, ptrs = t.a
                    if ptrs:
                        t = ptrs[0][1]
                    else:
                        t = C(size, int.from_bytes(data, "little"))
                v = [(0, t)]
            else:
                # aggregates: one cell per leaf field keeps gated merges fine grained
                v = self.explode(ch, ty)
        else:
            v = [(0, mk("constunk", size, json.dumps(c)[:80]))]
        self._const_memo[k] = (c, v)
        return v

    def explode(self, ch, ty):
        out = []
        for off, t in self.leaf_layout(ty):
            sz = self.size(t)
            if sz:
                out.append((off, SEL(ch, off, sz)))
        return out or [(0, ch)]

    def leaf_layout(self, ty, base=0):
        """(offset, scalar type) of every scalar leaf of a struct/tuple/array type"""
        j = self.tys[ty]
        k = j["k"]
        if k in ("struct", "tuple", "closure"):
            r = []
            for o, t, _ in j["fields"]:
                r += self.leaf_layout(t, base + o)
            return r
        if k == "array":
            r = []
            es = self.size(j["e"]) or 0
            if es == 0:
                return []
            if j["len"] > 4096:
                return [(base, ty)]
            sub = self.leaf_layout(j["e"], 0)
            for i in range(j["len"]):
                r += [(base + i * es + o, t) for o, t in sub]
            return r
        return [(base, ty)]

    def operand(self, fr, st, o):
        if "c" in o:
            return self.const_val(o), o["c"]
        if "p" in o:
            ty, lv = self.lval(fr, st, o["p"])
            v = self.load_lv(st, lv, self.size(ty) or 0)
            if v and self.tys[ty]["k"] == "bool" and len(v) == 1 and v[0][1].op not in ("c", "undef"):
                v = [(0, map1(bool_leaf, v[0][1]))]
            return v, ty
        # runtime checks (ub_checks etc.): false
        return [(0, ZERO)], None

    def sval(self, v, size=None):
        if len(v) == 1 and v[0][0] == 0 and (size is None or v[0][1].sz == size):
            return v[0][1]
        if not v:
            return UNDEF
        sz = size if size is not None else max(o + t.sz for o, t in v)
        return CAT(v, sz)

    # ------------------------------------------------------------ enums
    def discr_val(self, ty, rd, outsize, pc=ONE):
        """rd(off,size) -> scalar term"""
        j = self.tys[ty]
        if j["k"] != "enum":
            return C(outsize, 0)
        tag = j["tag"]
        vs = j["variants"]
        if tag[0] == "single":
            return C(outsize, vs[tag[1]]["d"])
        if tag[0] == "empty":
            return C(outsize, 0)
        t = rd(tag[1], tag[2])
        t = restrict(t, pc)
        if tag[0] == "direct":
            m = (1 << (8 * tag[2])) - 1
            dom = [v["d"] & m for v in vs if not self._uninhabited(v)]

            def f(l):
                if l.op == "c":
                    x = l.a[0]
                    for v in vs:
                        if v["d"] & m == x:
                            return C(outsize, v["d"])
                    return C(outsize, x)
                if l.op == "undef":
                    return UNDEF
                if len(dom) > 64:
                    return zext(l, outsize)
                if l not in domain:
                    domain[l] = tuple(dom)
                r = None
                dd = domain[l]
                byv = {v["d"] & m: v["d"] for v in vs}
                for x in reversed(dd):
                    lf = C(outsize, byv.get(x, x))
                    r = lf if r is None else ite(ieq(l, C(l.sz, x)), lf, r)
                return r

            return map1(f, t)
        # niche
        _, toff, tsz, untag, nlo, nhi, nstart = tag
        m = (1 << (8 * tsz)) - 1

        def g(l):
            if l.op == "undef":
                return UNDEF
            if l.op == "c":
                rel = (l.a[0] - nstart) & m
                if rel <= nhi - nlo:
                    return C(outsize, vs[nlo + rel]["d"])
                return C(outsize, vs[untag]["d"])
            r = C(outsize, vs[untag]["d"])
            for i in range(nhi - nlo, -1, -1):
                if nlo + i == untag or self._uninhabited(vs[nlo + i]):
                    continue
                if l not in domain and l.op in ("sym", "sel", "mu"):
                    reserved.setdefault(l, set()).add((nstart + i) & m)
                r = ite(ieq(l, C(tsz, (nstart + i) & m)), C(outsize, vs[nlo + i]["d"]), r)
            return r

        return map1(g, t)

    def _uninhabited(self, v):
        return any(self.tys[f[1]]["k"] == "never" for f in v["fields"])

    def tag_cells(self, ty, variant):
        """cells to write so that the enum has this variant"""
        j = self.tys[ty]
        tag = j.get("tag", ["single", 0])
        if tag[0] in ("single", "empty"):
            return []
        if tag[0] == "direct":
            return [(tag[1], C(tag[2], j["variants"][variant]["d"]))]
        _, toff, tsz, untag, nlo, nhi, nstart = tag
        if variant == untag:
            return []
        return [(toff, C(tsz, nstart + (variant - nlo)))]

    def mk_enum(self, ty, variant, fieldvals, st=None):
        """variant: index or name; fieldvals: list of values"""
        j = self.tys[ty]
        if isinstance(variant, str):
            variant = [i for i, v in enumerate(j["variants"]) if v["n"] == variant][0]
        out = []
        for (fo, ft, _), v in zip(j["variants"][variant]["fields"], fieldvals):
            out += [(fo + o, t) for o, t in v]
        tc = self.tag_cells(ty, variant)
        if tc:
            toff, tt = tc[0]
            out = [(o, t) for o, t in out if not (o < toff + tt.sz and toff < o + t.sz)] + tc
        else:
            tag = j.get("tag", ["single", 0])
            if tag[0] == "niche" and tag[3] == variant:
                # the payload is a valid value of its type: its niche word is none of the reserved ones
                _, toff, tsz, untag, nlo, nhi, nstart = tag
                for o, t in out:
                    if st is not None and o <= toff and toff + tsz <= o + t.sz:
                        w = restrict(SEL(t, toff - o, tsz), st.pc)
                        for l in leaves(w):
                            # result of an uninterpreted function: a valid value wherever it occurs
                            if l.op == "sel" and l.a[0].op in ("app", "out"):
                                a, n = nstart & ((1 << (8 * tsz)) - 1), nhi - nlo + 1
                                if l in never:
                                    e = max(never[l][0] + never[l][1], a + n)
                                    a = min(never[l][0], a)
                                    n = e - a
                                never[l] = (a, n)
                        if any(l.op in ("mu", "add", "sub") for l in leaves(w)):
                            for i in range(min(nhi - nlo + 1, 16)):
                                x = restrict(ieq(w, C(tsz, nstart + i)), st.pc)
                                if x is not ZERO:
                                    st.pc = band(st.pc, bnot(x))
        return sorted(out)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])[0]
        if k == "ref":
            ty, lv = self.lval(fr, st, rv[2])
            r = None
            fat = self.size(dty) == 16
            for g, a, o, m in reversed(lv):
                p = PTR(a, o)
                if fat and m is None:
                    ln = self.tys[ty].get("len")
                    m = C(8, ln) if ln is not None else UNDEF
                v = [(0, p), (8, m)] if fat else [(0, p)]
                r = v if r is None else merge_vals(g, v, r)
            return r
        if k == "bin":
            return self.binop(fr, st, rv, dty)
        if k == "cbin":
            a, ta = self.operand(fr, st, rv[2])
            b, tb = self.operand(fr, st, rv[3])
            sg = self.tys[ta]["k"] == "int"
            x, y = self.sval(a), self.sval(b)
            r = self.arith(rv[1], x, y, sg)
            ov = self.overflow(rv[1], x, y, sg)
            fs = self.tys[dty]["fields"]
            return [(fs[0][0], r), (fs[1][0], ov)]
        if k == "un":
            v, ty = self.operand(fr, st, rv[2])
            op = rv[1]
            tj = self.tys[ty]
            if op == "PtrMetadata":
                if len(v) >= 2:
                    return [(0, v[1][1])]
                if self.size(ty) == 16:
                    return [(0, SEL(self.sval(v, 16), 8, 8))]
                return []
            x = self.sval(v)
            if op == "Not":
                if tj["k"] == "bool":
                    return [(0, bnot(is_true(x)))]
                return [(0, inot(x))]
            if op == "Neg":
                if tj["k"] == "float":
                    return [(0, fneg(x))]
                return [(0, ineg(x))]
            raise AnalysisError("unop " + op)
        if k == "discr":
            ty, lv = self.lval(fr, st, rv[1])
            osz = self.size(dty)
            r = None
            for g, a, o, m in reversed(lv):
                d = self.discr_val(ty, lambda of, sz: self.scalar(st, a, self._oadd(o, C(8, of)), sz), osz, st.pc)
                r = d if r is None else ite(g, d, r)
            return [(0, r)]
        if k == "agg":
            ak = rv[1]
            ty = rv[3] if rv[3] is not None else dty
            tj = self.tys[ty]
            ops = [self.operand(fr, st, o) for o in rv[2]]
            if ak[0] == "array":
                es = self.size(tj["e"])
                out = []
                for i, (v, _) in enumerate(ops):
                    out += [(i * es + o, t) for o, t in v]
                return out
            if ak[0] == "rawptr":
                out = [(0, self.sval(ops[0][0]))]
                if self.size(dty) == 16 and ops[1][0]:
                    out.append((8, self.sval(ops[1][0])))
                return out
            if ak[0] in ("tuple", "closure"):
                out = []
                for (fo, ft, _), (v, _) in zip(tj["fields"], ops):
                    out += [(fo + o, t) for o, t in v]
                return sorted(out, key=lambda x: x[0])
            if ak[0] == "adt":
                if tj["k"] == "enum":
                    return self.mk_enum(ty, ak[1], [v for v, _ in ops], st)
                if len(ak) == 3:  # union
                    return ops[0][0]
                out = []
                for (fo, ft, _), (v, _) in zip(tj["fields"], ops):
                    out += [(fo + o, t) for o, t in v]
                return sorted(out, key=lambda x: x[0])
            raise AnalysisError("aggregate %r" % (ak,))
        if k == "cast":
            return self.cast(fr, st, rv, dty)
        if k == "repeat":
            v, ty = self.operand(fr, st, rv[1])
            n = rv[2]
            es = self.size(ty)
            if n is not None and n * max(1, len(v)) <= 8192:
                out = []
                for i in range(n):
                    out += [(i * es + o, t) for o, t in v]
                return out
            return [(0, mk("fill", es * (n or 1), self.sval(v)))]
        if k == "len":
            ty, lv = self.lval(fr, st, rv[1])
            ln = self.tys[ty].get("len")
            if ln is not None:
                return [(0, C(8, ln))]
            r = None
            for g, a, o, m in reversed(lv):
                r = m if r is None else ite(g, m, r)
            return [(0, r)]
        raise AnalysisError("rvalue %r" % (rv,))

    def arith(self, op, x, y, sg):
        if op.startswith("Add"):
            return iadd(x, y)
        if op.startswith("Sub"):
            return isub(x, y)
        if op.startswith("Mul"):
            return imul(x, y)
        if op.startswith("Shl"):
            return shift("shl", x, y)
        if op.startswith("Shr"):
            return shift("shr", x, y, sg)
        raise AnalysisError("arith " + op)

    def overflow(self, op, x, y, sg):
        if x.op == "c" and y.op == "c":
            if sg:
                a, b = scv(x), scv(y)
                lo, hi = -(1 << (8 * x.sz - 1)), (1 << (8 * x.sz - 1)) - 1
            else:
                a, b = x.a[0], y.a[0]
                lo, hi = 0, (1 << (8 * x.sz)) - 1
            r = a + b if op[0] == "A" else a - b if op[0] == "S" else a * b
            return ZERO if lo <= r <= hi else ONE
        if op.startswith("Sub") and not sg:
            return ult(x, y)
        if x.op == "ite" and all_const(x) or y.op == "ite" and all_const(y):
            return apply2(lambda a, b: self.overflow(op, a, b, sg), x, y)
        if op.startswith("Add") and not sg:
            for p, q in ((x, y), (y, x)):
                if p.op == "zext" and q.op == "c" and q.a[0] < (1 << (8 * (q.sz - 1))):
                    return ZERO
        return atom(mk("ovf", 1, op[:3], x, y))

    def binop(self, fr, st, rv, dty):
        op = rv[1]
        a, ta = self.operand(fr, st, rv[2])
        b, tb = self.operand(fr, st, rv[3])
        kind = self.tys[ta]["k"] if ta is not None else "uint"
        x, y = self.sval(a), self.sval(b)
        if x is UNDEF or y is UNDEF:
            if op == "Offset":
                return [(0, x)]
            return [(0, mk("undefop", self.size(dty)))]
        if kind == "float":
            f = {"Add": "fadd", "Sub": "fsub", "Mul": "fmul", "Div": "fdiv", "Rem": "frem"}.get(op)
            if f:
                return [(0, fbin(f, x, y))]
            if op == "Lt":
                return [(0, fcmp("lt", x, y))]
            if op == "Le":
                return [(0, fcmp("le", x, y))]
            if op == "Gt":
                return [(0, fcmp("lt", y, x))]
            if op == "Ge":
                return [(0, fcmp("le", y, x))]
            if op == "Eq":
                return [(0, fcmp("eq", x, y))]
            if op == "Ne":
                return [(0, bnot(fcmp("eq", x, y)))]
            raise AnalysisError("float op " + op)
        if op == "Offset":
            es = self.size(self.tys[ta]["e"]) if self.tys[ta]["k"] in ("ptr", "ref") else 1
            return [(0, ptr_add(x, imul(y, C(8, es))))]
        if len(a) == 2 and self.tys[ta]["k"] in ("ptr", "ref") and self.size(ta) == 16 and op in ("Eq", "Ne"):
            r = ieq(a[0][1], b[0][1])
            return [(0, r if op == "Eq" else bnot(r))]
        if kind == "bool":
            p, q = is_true(x), is_true(y)
            if op == "BitAnd":
                return [(0, band(p, q))]
            if op == "BitOr":
                return [(0, bor(p, q))]
            if op in ("BitXor", "Ne"):
                return [(0, ite(p, bnot(q), q))]
            if op == "Eq":
                return [(0, ite(p, q, bnot(q)))]
            if op == "Lt":
                return [(0, band(bnot(p), q))]
            if op == "Gt":
                return [(0, band(bnot(q), p))]
        sg = kind == "int"
        lt = slt if sg else ult
        if op == "Eq":
            return [(0, ieq(x, y))]
        if op == "Ne":
            return [(0, bnot(ieq(x, y)))]
        if op == "Lt":
            return [(0, lt(x, y))]
        if op == "Le":
            return [(0, bnot(lt(y, x)))]
        if op == "Gt":
            return [(0, lt(y, x))]
        if op == "Ge":
            return [(0, bnot(lt(x, y)))]
        if op == "Cmp":
            return [(0, ite(lt(x, y), C(1, -1), ite(ieq(x, y), C(1, 0), C(1, 1))))]
        if op in ("Div",):
            return [(0, idiv(x, y, sg))]
        if op in ("Rem",):
            return [(0, irem(x, y, sg))]
        if op == "BitAnd":
            return [(0, _bits_("and", x, y))]
        if op == "BitOr":
            return [(0, _bits_("or", x, y))]
        if op == "BitXor":
            return [(0, _bits_("xor", x, y))]
        return [(0, self.arith(op, x, y, sg))]

    def _pointee(self, ty):
        j = self.tys[ty]
        if j["k"] in ("ref", "ptr"):
            return j["e"]
        if j.get("args"):
            return j["args"][0]
        return None

    def cast(self, fr, st, rv, dty):
        kind, op, ty, sty, inst = rv[1], rv[2], rv[3], rv[4], rv[5]
        v, oty = self.operand(fr, st, op)
        if sty is None:
            sty = oty
        sj, dj = self.tys[sty], self.tys[ty]
        if kind in ("PtrToPtr", "Transmute", "PointerCoercion(MutToConstPointer)", "FnPtrToPtr", "Subtype", "PointerCoercion(ArrayToPointer)") or kind.startswith("PointerCoercion(UnsafeFn"):
            ds = self.size(ty)
            if kind == "PtrToPtr" and ds == 8 and self.size(sty) == 16:
                return [(0, v[0][1] if v[0][1].sz == 8 else SEL(v[0][1], 0, 8))]
            if kind == "Transmute" and v and self.size(ty) in (1, 2, 4, 8) and not (len(v) == 1 and v[0][1].sz == ds):
                return [(0, self.sval(v, ds))]
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            sp, dp = self._pointee(sty), self._pointee(ty)
            p = v[0][1]
            if p.sz > 8:
                p = SEL(p, 0, 8)
            if self.size(sty) == 16:
                return v
            if sp is not None and dp is not None:
                spj, dpj = self.tys[sp], self.tys[dp]
                if spj["k"] == "array" and dpj["k"] == "slice":
                    return [(0, p), (8, C(8, spj["len"]))]
                if dpj["k"] == "dyn":
                    return [(0, p), (8, mk("vt", 8, sp))]
            return [(0, p), (8, mk("meta", 8, sty, ty))]
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return [(0, mk("fn", 8, inst))]
        x = self.sval(v)
        ds = self.size(ty)
        if kind == "IntToInt":
            if sj["k"] == "enum":
                x = self.discr_val(sty, lambda o, s: self.sval([(a - o, b) for a, b in v if a == o], s), self.size(sty), st.pc)
            if sj["k"] == "int":
                return [(0, sext(x, ds))]
            if sj["k"] == "bool":
                return [(0, ite(is_true(x), C(ds, 1), C(ds, 0)))]
            return [(0, zext(x, ds))]
        if kind == "IntToFloat":
            if x.op == "c" and ds == 8:
                return [(0, F(float(scv(x) if sj["k"] == "int" else cv(x))))]
            return [(0, mk("i2f" if sj["k"] == "int" else "u2f", ds, x))]
        if kind == "FloatToInt":
            return [(0, mk("f2i" if dj["k"] == "int" else "f2u", ds, x))]
        if kind == "FloatToFloat":
            if sj["size"] == ds:
                return [(0, x)]
            return [(0, mk("f2f", ds, x))]
        if kind.startswith("PointerExpose") or kind.startswith("PointerWithExposed"):
            return v
        raise AnalysisError("cast " + kind)

    # ------------------------------------------------------------ execution
    def step_block(self, fr, st, bb):
        """execute block bb; returns list of (target, state); target None = return"""
        blk = fr.body.blocks[bb]
        fr.bb = bb
        locals_ = fr.inst["locals"]
        self.steps += len(blk["s"]) + 1
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                p = s[1]
                if len(p) == 1:
                    ty = locals_[p[0]]
                    v = self.rvalue(fr, st, s[2], ty)
                    self.store(st, (fr.uid, p[0]), 0, self.size(ty) or 0, v)
                else:
                    ty, lv = self.lval(fr, st, p)
                    v = self.rvalue(fr, st, s[2], ty)
                    self.store_lv(st, lv, self.size(ty) or 0, v)
            elif k == "sd":
                ty, lv = self.lval(fr, st, s[1])
                for o, t in self.tag_cells(ty, s[2]):
                    lv2 = [(g, a, self._oadd(of, C(8, o)), m) for g, a, of, m in lv]
                    self.store_lv(st, lv2, t.sz, [(0, t)])
            elif k == "cpy":
                a, _ = self.operand(fr, st, s[1])
                b, _ = self.operand(fr, st, s[2])
                n, _ = self.operand(fr, st, s[3])
                es = self.size(self.tys[s[4]]["e"])
                self.memcpy(st, self.sval(b), self.sval(a), imul(self.sval(n), C(8, es)))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [(None, st)]
        if k == "sw":
            return self.switch(fr, st, t)
        if k == "call":
            return self.call(fr, st, t, blk["l"])
        if k == "drop":
            if t[4] is not None and self.drop_matters(t[4]):
                ty, lv = self.lval(fr, st, t[1])
                for g, a, o, m in lv:
                    r = self.invoke(fr, st, self.insts[t[4]], [[(0, PTR(a, o))]], [None], None, 0, blk["l"])
                    if r is None:
                        return []
                    st = r[0]
            return [(t[2], st)]
        if k == "assert":
            v, _ = self.operand(fr, st, t[1])
            c = is_true(self.sval(v))
            ok = c if t[2] else bnot(c)
            pc_bad = band(st.pc, bnot(ok))
            if pc_bad is not ZERO:
                self.panic(fr, st, pc_bad, "assert:" + t[4], [], blk["l"])
            st.pc = band(st.pc, ok)
            if st.pc is ZERO:
                return []
            return [(t[3], st)]
        if k in ("unreachable", "resume", "abort"):
            return []
        raise AnalysisError("terminator %r" % (t[0],))

    def switch(self, fr, st, t):
        v, _ = self.operand(fr, st, t[1])
        x = self.sval(v)
        x = restrict(x, st.pc)
        if x.op == "undef":
            raise AnalysisError("switch on undefined value in %s bb%d" % (fr.inst["name"], fr.bb))
        if x.op == "c":
            tgt = t[3]
            for val, b in t[2]:
                if val == x.a[0]:
                    tgt = b
                    break
            if self.loopstack and self.loopstack[-1][0] is fr:
                L = self.loopstack[-1]
                if any(y not in L[1].blocks for y in fr.body.succ[fr.bb]):
                    L[2][0] = True
            return [(tgt, st)]
        outs = []
        rest = ONE
        isb = t[4] is not None and self.tys[t[4]]["k"] == "bool"
        byt = {}
        unr = fr.body.blocks[t[3]]["t"][0] == "unreachable" and not fr.body.blocks[t[3]]["s"]
        n = len(t[2])
        for i, (val, b) in enumerate(t[2]):
            if unr and i == n - 1:
                c = rest
            elif isb:
                c = is_true(x)
                if val == 0:
                    c = bnot(c)
            else:
                c = ieq(x, C(x.sz, val))
            g = band(rest, c)
            rest = band(rest, bnot(c))
            byt[b] = bor(byt.get(b, ZERO), g)
        if not unr:
            byt[t[3]] = bor(byt.get(t[3], ZERO), rest)
        live = []
        for b, g in byt.items():
            p = band(st.pc, g)
            if p is not ZERO:
                live.append((b, p))
        if len(live) == 1:
            if self.loopstack and self.loopstack[-1][0] is fr:
                L = self.loopstack[-1]
                if any(y not in L[1].blocks for y in fr.body.succ[fr.bb]):
                    pass
            st.pc = live[0][1]
            return [(live[0][0], st)]
        for i, (b, p) in enumerate(live):
            s2 = st.fork() if i < len(live) - 1 else st
            if i == len(live) - 1:
                s2.owned = set() if False else s2.owned
            s2.pc = p
            outs.append((b, s2))
        return outs

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return acc

    def merge2(self, a, b):
        pc = bor(a.pc, b.pc)
        c = restrict(a.pc, pc)
        r = State()
        r.pc = pc
        r.fr = a.fr | b.fr
        am, bm = a.mem, b.mem
        mem = {}
        for k, o in am.items():
            p = bm.get(k)
            if p is None:
                if k[0] in ("L", "G"):
                    p = self._fresh_obj(k)
                    mem[k] = merge_obj(c, o, p)
                else:
                    mem[k] = o
            elif p is o:
                mem[k] = o
            else:
                mem[k] = merge_obj(c, o, p)
        for k, p in bm.items():
            if k not in am:
                if k[0] in ("L", "G"):
                    mem[k] = merge_obj(c, self._fresh_obj(k), p)
                else:
                    mem[k] = p
        r.mem = mem
        return r

    def run_region(self, fr, L, entry):
        pending = {L.header: [entry]}
        back = []
        exits = []
        for nd in L.order:
            sts = pending.pop(nd, None)
            if not sts:
                continue
            st = self.merge(sts)
            if nd in L.children:
                outs = self.run_loop(fr, L.children[nd], st)
            else:
                outs = self.step_block(fr, st, nd)
            for tgt, s in outs:
                if tgt is None:
                    exits.append((None, s))
                elif tgt == L.header and L.parent is not None:
                    back.append(s)
                elif tgt in L.blocks:
                    pending.setdefault(tgt, []).append(s)
                else:
                    exits.append((tgt, s))
        return back, exits

    def run_loop(self, fr, L, st):
        exits = []
        fr.iters.append(0)
        it = 0
        cur = st
        try:
            while True:
                fr.iters[-1] = it
                ev_snap = dict(self.events)
                keep = cur.fork()
                entry_fr = cur.fr
                flag = [False]
                self.loopstack.append((fr, L, flag))
                cnt0 = dict(self.uids) if False else None
                back, ex = self.run_region(fr, L, cur)
                self.loopstack.pop()
                if not back:
                    exits += ex
                    return exits
                b = self.merge(back)
                if flag[0] and it < self.MAX_UNROLL and self.const_progress(keep, b, fr):
                    exits += ex
                    cur = b
                    it += 1
                    continue
                # summarise from the state at this header
                self.events = ev_snap
                exits += self.summarise(fr, L, keep, it)
                return exits
        finally:
            fr.iters.pop()

    def const_progress(self, a, b, fr):
        """some cell changed from one constant/pointer to another"""
        for k, o in b.mem.items():
            p = a.mem.get(k)
            if p is o or p is None:
                continue
            for off, t in o.cells.items():
                if t.op in ("c", "ptr"):
                    q = p.cells.get(off)
                    if q is not None and q is not t and q.op == t.op and q.sz == t.sz:
                        return True
        return False

    def summarise(self, fr, L, st, it):
        lid = self.uid(("loop", fr.uid, L.header, tuple(fr.iters)))
        fr.iters[-1] = ("s", it)
        head = self.new_event(fr, ("loophead", fr.uid, L.header, it), "loop", "loop", None, [], [], [], st.pc, fr.body.blocks[L.header]["l"])
        head.preds = st.fr
        hid = head.key
        init = {}
        if self.idstack:
            self.idstack[-1][0].append(("mu", lid))
        H = st
        H.fr = frozenset([hid])
        snap = dict(self.events)
        npass = 0
        while True:
            npass += 1
            if npass > 40:
                raise AnalysisError("loop fixpoint does not converge in " + fr.inst["name"])
            self.events = dict(snap)
            S = H.fork()
            self.loopstack.append((fr, L, [False]))
            self.lids = self.lids + (lid,)
            back, ex = self.run_region(fr, L, S)
            self.lids = self.lids[:-1]
            self.loopstack.pop()
            if not back:
                break
            B = self.merge(back)
            changed = False
            newH = H.fork()
            for k, o in B.mem.items():
                p = H.mem.get(k)
                if p is None:
                    p = self._fresh_obj(k) if k[0] in ("L", "G") else EMPTY
                if p is o:
                    continue
                if self.widen_obj(lid, k, p, o, newH, init):
                    changed = True
            if not changed:
                # record recurrences
                for (k, off), m in init.items():
                    ob = B.mem.get(k)
                    if ob is not None:
                        v = self.blob(ob) if off is None else self.load_raw(ob, off, m[0].sz)
                        self.mu_next[m[0]] = v
                        self.mu_init[m[0]] = m[1]
                head.preds = head.preds | B.fr
                self.events[hid].preds = head.preds
                self.loop_info[lid] = dict(fr=fr.inst["name"], head=hid, loc=fr.body.blocks[L.header]["l"], back_pc=B.pc)
                break
            H = newH
        return ex

    def load_raw(self, o, off, size):
        v = o.read(off, size)
        if not v:
            return UNDEF
        return CAT(v, size)

    def widen_obj(self, lid, k, p, o, newH, init):
        """p: header object, o: back-edge object"""
        acc = set()
        _bounds(p.cells.items(), acc)
        _bounds(o.cells.items(), acc)
        cuts = sorted(acc)
        ch = False
        if p.base is not o.base:
            if o.base is None:
                pass
            elif p.base is not None and p.base.op == "mu":
                pass
            else:
                # whole-object havoc
                m = mk("mu", -1, lid, k, "base")
                n = newH.w(k)
                init[(k, None)] = (m, p.base if p.base is not None else UNDEF)
                n.base = m
                n.cells = {}
                n.keys = []
                return True
        A = dict(full_cells(p, cuts))
        B = dict(full_cells(o, cuts))
        for off, u in B.items():
            t = A.get(off)
            if t is None:
                # not initialised on the first entry, carried around the loop afterwards
                m = mk("mu", u.sz, lid, k, off)
                if (k, off) not in init:
                    init[(k, off)] = (m, UNDEF)
                newH.w(k).write(off, u.sz, [(0, m)])
                ch = True
        for off, t in A.items():
            u = B.get(off)
            if u is None or u is t:
                continue
            if t.op == "mu" and t.a[0] == lid:
                continue
            if t.op == "sel" and t.a[0].op == "mu" and t.a[0].a[0] == lid:
                continue
            if t.op == "cat" and all(q.op == "mu" and q.a[0] == lid for _, q in t.a[0]):
                continue
            m = mk("mu", t.sz, lid, k, off)
            if (k, off) not in init:
                init[(k, off)] = (m, t)
            n = newH.w(k)
            n.write(off, t.sz, [(0, m)])
            ch = True
        return ch

    # ------------------------------------------------------------ calls
    def drop_matters(self, iid):
        r = self.drop_memo.get(iid)
        if r is not None:
            return r
        self.drop_memo[iid] = False
        inst = self.insts[iid]
        r = False
        if inst["crate"] in ("franka", "harness") and "::drop" in inst["def"]:
            r = True
        elif "blocks" in inst and inst["crate"] in ("core", "alloc", "franka", "harness"):
            for b in inst["blocks"]:
                t = b["t"]
                if t[0] == "drop" and t[4] is not None and self.drop_matters(t[4]):
                    r = True
                elif t[0] == "call" and isinstance(t[1], int) and self.insts[t[1]]["crate"] in ("franka",):
                    r = True
        self.drop_memo[iid] = r
        return r

    def memcpy(self, st, dst, src, nbytes):
        nbytes = restrict(nbytes, st.pc)
        dst = restrict(dst, st.pc)
        src = restrict(src, st.pc)
        if nbytes.op == "c":
            n = nbytes.a[0]
            if n == 0:
                return
            sv = None
            for l in leaves(src):
                if l.op in ("c", "undef"):
                    continue
                a, o = ptr_parts(l)
                x = self.load(st, a, o, n)
                sv = x if sv is None else merge_vals(cond_of(src, lambda y: y is l), x, sv)
            if sv is None:
                return
            for l in leaves(dst):
                if l.op in ("c", "undef"):
                    continue
                a, o = ptr_parts(l)
                if dst.op == "ite":
                    old = self.load(st, a, o, n)
                    self.store(st, a, o, n, merge_vals(cond_of(dst, lambda y: y is l), sv, old))
                else:
                    self.store(st, a, o, n, sv)
            return
        # unknown length: the destination object becomes an opaque function of both
        for l in leaves(dst):
            if l.op in ("c", "undef"):
                continue
            a, o = ptr_parts(l)
            so = []
            for m in leaves(src):
                if m.op in ("c", "undef"):
                    continue
                sa, sof = ptr_parts(m)
                so.append((self.blob(self.get_obj(st, sa)), sof))
            ob = self.get_obj(st, a)
            old = self.blob(ob) if (ob.cells or ob.base is not None) else UNDEF
            n2 = st.w(a)
            if old is UNDEF and o == 0 and len(so) == 1 and so[0][1] == 0:
                n2.base = mk("prefix", -1, so[0][0], nbytes)
            else:
                n2.base = mk("memcpy", -1, old, o, tuple(so), nbytes)
            n2.cells = {}
            n2.keys = []

    def call(self, fr, st, t, loc):
        _, f, args, dest, target, atys, dty = t
        vals = [self.operand(fr, st, a)[0] for a in args]
        if isinstance(f, int):
            inst = self.insts[f]
        elif isinstance(f, dict) and "unres" in f:
            inst = {"name": f["unres"], "def": f["unres"], "crate": "?", "kind": "unres", "id": -1, "targs": []}
        else:
            inst = None
            fv, fty = self.operand(fr, st, f)
            ft = restrict(self.sval(fv), st.pc)
        if target is None:
            nm = inst["name"] if inst else "indirect"
            self.panic(fr, st, st.pc, nm, [(v, ty) for v, ty in zip(vals, atys)], loc)
            return []
        rsize = self.size(dty) or 0
        if inst is not None:
            r = self.invoke(fr, st, inst, vals, atys, dty, rsize, loc)
        else:
            r = self.call_fnptr(fr, st, ft, vals, atys, dty, rsize, loc)
        if r is None:
            return []
        st, rv = r
        if st.pc is ZERO:
            return []
        ty, lv = self.lval(fr, st, dest)
        self.store_lv(st, lv, rsize, rv)
        return [(target, st)]

    def call_fnptr(self, fr, st, ft, vals, atys, dty, rsize, loc):
        if ft.op == "fn":
            return self.invoke(fr, st, self.insts[ft.a[0]], vals, atys, dty, rsize, loc)
        return self.event(fr, st, "callback", "callback", {"fn": ft}, vals, atys, dty, rsize, loc)

    def invoke(self, fr, st, inst, vals, atys, dty, rsize, loc):
        """returns (state, value) or None when control does not come back"""
        h = self.find_model(inst)
        if h is not None:
            r = h(self, fr, st, inst, vals, atys, dty, rsize, loc)
            if r is not NotImplemented:
                return r
        k = inst["kind"]
        if k.startswith("virtual"):
            # self is a fat pointer in the first argument
            v = vals[0]
            meta = v[1][1] if len(v) > 1 else SEL(self.sval(v, 16), 8, 8)
            meta = restrict(meta, st.pc)
            if meta.op == "vt":
                key = (inst["id"], meta.a[0])
                if key in self.vmap:
                    tgt = self.insts[self.vmap[key]]
                    return self.invoke(fr, st, tgt, [[(0, v[0][1])]] + vals[1:], [None] + list(atys[1:]), dty, rsize, loc)
            return self.event(fr, st, inst["name"], "effect", inst, vals, atys, dty, rsize, loc)
        if k == "shim" and "blocks" not in inst:
            r = self.fn_shim(fr, st, inst, vals, atys, dty, rsize, loc)
            if r is not NotImplemented:
                return r
        pol = self.policy(inst)
        if pol == "inline" and "blocks" in inst:
            return self.inline(fr, st, inst, vals, atys, loc)
        if pol == "pure":
            return self.pure(fr, st, inst, vals, atys, dty, rsize)
        return self.event(fr, st, inst["name"], "effect", inst, vals, atys, dty, rsize, loc)

    def fn_shim(self, fr, st, inst, vals, atys, dty, rsize, loc):
        if not inst["targs"]:
            return NotImplemented
        sj = self.tys[inst["targs"][0]]
        if sj["k"] not in ("fndef", "fnptr"):
            return NotImplemented
        # untuple
        aty = atys[1]
        args, tys = self.untuple(vals[1], aty)
        if sj["k"] == "fndef":
            return self.invoke(fr, st, self.insts[sj["inst"]], args, tys, dty, rsize, loc)
        ft = self.sval(vals[0])
        if not inst["def"].endswith("call_once"):
            a, o = ptr_parts(restrict(ft, st.pc))
            ft = self.scalar(st, a, o, 8)
        return self.call_fnptr(fr, st, restrict(ft, st.pc), args, tys, dty, rsize, loc)

    def untuple(self, v, ty):
        j = self.tys[ty]
        args, tys = [], []
        for fo, ft, _ in j["fields"]:
            sz = self.size(ft) or 0
            sub = []
            for o, t in v:
                if o >= fo and o + t.sz <= fo + sz:
                    sub.append((o - fo, t))
                elif o < fo + sz and fo < o + t.sz:
                    lo, hi = max(o, fo), min(o + t.sz, fo + sz)
                    sub.append((lo - fo, SEL(t, lo - o, hi - lo)))
            args.append(sub)
            tys.append(ft)
        return args, tys

    def inline(self, fr, st, inst, vals, atys, loc):
        argc = inst["argc"]
        if atys and atys[-1] is not None and len(atys) >= 1:
            j = self.tys[atys[-1]]
            if j["k"] == "tuple" and "spread" not in inst:
                exp = inst["locals"][len(vals)] if len(vals) <= argc else None
                if (len(vals) != argc or exp != atys[-1]) and len(vals) - 1 + len(j["fields"]) == argc:
                    a, t = self.untuple(vals[-1], atys[-1])
                    vals = vals[:-1] + a
        if len(vals) != argc:
            raise AnalysisError("argument count of %s: %d vs %d" % (inst["name"], len(vals), argc))
        self.inlined.add(inst["id"])
        self.analysed_calls += 1
        f2 = Frame()
        f2.inst = inst
        f2.body = self.body(inst)
        f2.iters = []
        f2.parent = fr
        f2.bb = 0
        f2.depth = fr.depth + 1 if fr else 0
        if f2.depth > 150:
            raise AnalysisError("call depth exceeded at " + inst["name"])
        f2.uid = self.uid(("fr", fr.uid if fr else 0, fr.bb if fr else 0, tuple(fr.iters) if fr else (), inst["id"]))
        locs = inst["locals"]
        for i, v in enumerate(vals):
            self.store(st, (f2.uid, i + 1), 0, self.size(locs[i + 1]) or 0, v)
        savel = self.loopstack
        self.loopstack = []
        outer = None
        if inst["crate"] == "franka" and nodes(st.pc) > 40:
            outer = st.pc
            st.pc = cube(outer)
            self.ctx = self.ctx + (outer,)
        mem0 = dict(st.mem) if self.seal_on and inst["crate"] == "franka" else None
        self.idstack.append(([], [False, False]))
        _, exits = self.run_region(f2, f2.body.top, st)
        ids, flags = self.idstack.pop()
        if self.idstack:
            self.idstack[-1][0].append(ids)
            pf = self.idstack[-1][1]
            pf[0] |= flags[0]
            pf[1] |= flags[1]
        self.loopstack = savel
        rets = [s for tgt, s in exits if tgt is None]
        if outer is not None:
            self.ctx = self.ctx[:-1]
        if not rets:
            return None
        # drop the frame before merging
        rsz = self.size(locs[0]) or 0
        uid = f2.uid
        s = self.merge(rets)
        rv = self.load(s, (uid, 0), 0, rsz)
        for i in range(len(locs)):
            s.mem.pop((uid, i), None)
        if mem0 is not None and flags[0] and not flags[1]:
            rv = self.seal(uid, inst, s, rv, locs[0], mem0, ids)
        if outer is not None:
            s.pc = band(outer, restrict(s.pc, cube(outer)))
        return s, rv

    # ------------------------------------------------------------ sealing
    def seal(self, uid, inst, s, rv, rty, mem0, ids):
        """Name what a finished I/O call produced.  Conditions decided by I/O that happened inside the
        call are existentially removed from the path condition; the result tag and every cell the
        call wrote that depends on them become named values whose definition stays on record."""
        inner = frozenset(flatten(ids))
        hit = lambda at: not inner.isdisjoint(support(at))
        bad = {a for a in atoms_of(s.pc) if hit(a)}
        pcfull = s.pc
        if bad:
            s.pc = exists(s.pc, bad)
        memo = {}

        def has(t):
            if t.op != "ite":
                return False
            r = memo.get(t)
            if r is None:
                r = hit(t.a[0]) or has(t.a[1]) or has(t.a[2]) or nodes(t) > 60
                memo[t] = r
            return r

        def name(t, cell):
            sid = ("phi", uid, cell)
            n = mk("phi", t.sz, uid, cell)
            self.phi_def[n] = t
            self.phi_ctx[n] = pcfull
            self.idstack[-1][0].append(sid)
            return n

        # 1. discriminant of the returned enum
        K = []
        j = self.tys[rty]
        if j["k"] == "enum" and j["tag"][0] in ("direct", "niche") or j["k"] == "bool":
            def rd(off, sz):
                return self.sval([(max(o, off) - off, SEL(t, max(o, off) - o, min(o + t.sz, off + sz) - max(o, off))) for o, t in rv if o < off + sz and off < o + t.sz], sz)
            t = is_true(rd(0, 1)) if j["k"] == "bool" else self.discr_val(rty, rd, 8, pcfull)
            t = restrict(t, pcfull)
            if t.op == "ite" and all_const(t) and len(leaves(t)) <= 16 and (has(t) or nodes(t) > 6):
                n = name(t, ("ret", "discr"))
                dom = tuple(sorted(l.a[0] for l in leaves(t)))
                domain[n] = dom
                K = [(map1(lambda l, d=d: ONE if l.a[0] == d else ZERO, t), ieq(n, C(t.sz, d)), C(t.sz, d)) for d in dom]

        def enc(t, cell):
            if not has(t):
                return t
            if K:
                r = None
                parts = []
                for d, a, c in K:
                    x = restrict(t, d)
                    if has(x):
                        if x.op == "ite" and all_const(x) and len(leaves(x)) <= 8:
                            n = name(x, cell + (c.a[0],))
                            domain[n] = tuple(sorted(l.a[0] for l in leaves(x)))
                            x = dom_value(n)
                        else:
                            x = name(x, cell + (c.a[0],))
                    parts.append((a, x))
                r = parts[-1][1]
                for a, x in parts[:-1]:
                    r = ite(a, x, r)
                return r
            if all_const(t) and len(leaves(t)) <= 8:
                n = name(t, cell)
                domain[n] = tuple(sorted(l.a[0] for l in leaves(t)))
                return dom_value(n)
            return name(t, cell)

        def niche_word(cells):
            """in the case of the untagged variant the niche word is a valid field, never a reserved value"""
            _, toff, tsz, untag, nlo, nhi, nstart = j["tag"]
            dv = j["variants"][untag]["d"]
            out = []
            for o, t in cells:
                if not (o <= toff and toff + tsz <= o + t.sz):
                    out.append((o, t))
                    continue
                if toff > o:
                    out.append((o, SEL(t, 0, toff - o)))
                if toff + tsz < o + t.sz:
                    out.append((toff + tsz, SEL(t, toff + tsz - o, o + t.sz - toff - tsz)))
                w = SEL(t, toff - o, tsz)
                for d, a, c in K:
                    if c.a[0] != dv:
                        continue
                    x = restrict(w, d)
                    if any(l.op in ("mu", "add", "sub") for l in leaves(x)):
                        n = name(x, ("ret", "niche"))
                        never[n] = (nstart & ((1 << (8 * tsz)) - 1), nhi - nlo + 1)
                        w = ite(a, n, restrict(w, bnot(d)))
                out.append((toff, w))
            return sorted(out, key=lambda x: x[0])

        def group(cells, tag):
            """merge runs of adjacent cells that need a name into one chunk"""
            out = []
            run = []

            def flush():
                if not run:
                    return
                if len(run) == 1:
                    o, t = run[0]
                    out.append((o, enc(t, (tag, o))))
                else:
                    lo = run[0][0]
                    hi = run[-1][0] + run[-1][1].sz
                    sz = hi - lo
                    if K:
                        per = []
                        for d, a, c in K:
                            xs = [(o - lo, restrict(t, d)) for o, t in run]
                            if any(has(x) for _, x in xs):
                                ch = name(CAT(xs, sz), (tag, lo, c.a[0]))
                                xs = [(o, SEL(ch, o, x.sz) if has(x) else x) for o, x in xs]
                            per.append((a, xs))
                        r = per[-1][1]
                        for a, xs in per[:-1]:
                            r = merge_vals(a, xs, r)
                        out.extend((lo + o, t) for o, t in r)
                    else:
                        ch = name(CAT([(o - lo, t) for o, t in run], sz), (tag, lo))
                        out.extend((o, SEL(ch, o - lo, t.sz)) for o, t in run)
                del run[:]

            for o, t in cells:
                small = all_const(t) and len(leaves(t)) <= 8 if t.op == "ite" else False
                if has(t) and not small:
                    if run and run[-1][0] + run[-1][1].sz != o:
                        flush()
                    run.append((o, t))
                else:
                    flush()
                    out.append((o, enc(t, (tag, o))))
            flush()
            return sorted(out, key=lambda x: x[0])

        if K and j["k"] == "enum" and j["tag"][0] == "niche":
            rv = niche_word(rv)
        rv = group(rv, "ret")
        for k, o in s.mem.items():
            if mem0.get(k) is o:
                continue
            if not any(has(t) for t in o.cells.values()) and not (o.base is not None and has(o.base)):
                continue
            n = s.w(k)
            if n.base is not None and has(n.base):
                n.base = enc(n.base, (k, "base"))
            cells = group(sorted(n.cells.items(), key=lambda x: x[0]), k)
            n.cells = dict(cells)
            n.keys = sorted(n.cells)
        return rv

    # ------------------------------------------------------------ events
    def new_event(self, fr, key, name, kind, inst, vals, atys, deep, pc, loc):
        ek = self.evkeys.get(key)
        if ek is None:
            ek = len(self.evkeys) + 1
            self.evkeys[key] = ek
        if self.idstack:
            self.idstack[-1][0].append(ek)
            if kind == "effect":
                self.idstack[-1][1][0] = True
            elif kind == "callback":
                self.idstack[-1][1][1] = True
        e = Event()
        e.id = ek
        e.key = ek
        e.name = name
        e.kind = kind
        e.inst = inst
        e.args = vals
        e.argtys = atys
        e.deep = deep
        e.pc = pc
        e.ctx = self.ctx
        e.loc = loc
        e.stack = fr_stack(fr)
        e.preds = frozenset()
        e.ret = None
        e.retty = None
        e.info = None
        e.loops = self.lids
        self.events[ek] = e
        return e

    def evkey(self, fr, tag):
        return (tag, fr.uid, fr.bb, tuple(fr.iters))

    def panic(self, fr, st, pc, name, args, loc):
        e = self.new_event(fr, self.evkey(fr, "panic"), name, "panic", None, [a for a, _ in args], [t for _, t in args], [], pc, loc)
        e.deep = [self.deep(st, v, ty) for v, ty in args]
        e.preds = st.fr
        for m in self.monitors:
            m(self, e, st)

    EXTENT = 400

    def extent(self, st, a, o):
        """bytes a foreign function can reach behind a thin raw pointer"""
        ob = self.get_obj(st, a)
        end = max((k + t.sz for k, t in ob.cells.items()), default=0)
        if ob.base is not None:
            end = max(end, ob.base.sz) if ob.base.sz >= 0 else o + self.EXTENT
        return max(8, min(end - o, self.EXTENT))

    def deep(self, st, v, ty, depth=0, foreign=False):
        """content reachable through one reference level, as a term"""
        if ty is None:
            return self.sval(v) if v else UNDEF
        j = self.tys[ty]
        if j["k"] in ("ref", "ptr") and v:
            ej = self.tys[j["e"]]
            p = v[0][1]
            if p.sz > 8:
                p = SEL(p, 0, 8)
            p = restrict(p, st.pc)
            es = ej.get("size")
            out = None
            for l in leaves(p):
                if l.op in ("c", "undef"):
                    x = l
                else:
                    a, o = ptr_parts(l)
                    if es is not None:
                        n = es
                        if foreign and j["k"] == "ptr" and ej["k"] == "float" and isinstance(o, int):
                            n = self.extent(st, a, o)
                        x = CAT(self.load(st, a, o, n), n) if n else UNDEF
                    else:
                        m = v[1][1] if len(v) > 1 else UNDEF
                        m = restrict(m, st.pc)
                        if ej["k"] in ("slice", "str") and m.op == "c":
                            n = m.a[0] * (self.size(ej["e"]) if ej["k"] == "slice" else 1)
                            x = CAT(self.load(st, a, o, n), n) if n else UNDEF
                        else:
                            ob = self.get_obj(st, a)
                            x = mk("slice", -1, self.blob(ob), o if isinstance(o, T) else C(8, o), m)
                out = x if out is None else ite(cond_of(p, lambda q: q is l), x, out)
            return out
        if not v:
            return UNDEF
        return self.sval(v, j.get("size"))

    def vec_content(self, st, v, ty):
        """bytes of a Vec<u8> passed (by reference or value)"""
        if ty is None or not v:
            return None
        j = self.tys[ty]
        if j["k"] == "ref":
            p = restrict(v[0][1], st.pc)
            if p.op != "ptr" or not self.tys[j["e"]].get("def", "").endswith("vec::Vec"):
                return None
            ty = j["e"]
            a, o = ptr_parts(p)
            if not isinstance(o, int):
                return None
            v = self.load(st, a, o, self.size(ty))
        elif not j.get("def", "").endswith("vec::Vec"):
            return None
        if self.size(self.tys[ty]["args"][0]) != 1:
            return None
        from models import vec_offsets
        c, p, l = vec_offsets(self, ty)
        b = CAT(v, self.size(ty))
        pt, n = restrict(SEL(b, p, 8), st.pc), restrict(SEL(b, l, 8), st.pc)
        if pt.op != "ptr":
            return None
        a, o = ptr_parts(pt)
        return mk("slice", -1, self.blob(self.get_obj(st, a)), o if isinstance(o, T) else C(8, o), n)

    def event(self, fr, st, name, kind, inst, vals, atys, dty, rsize, loc):
        self.opaque.add(name)
        deep = [self.deep(st, v, ty, foreign=kind == "callback") for v, ty in zip(vals, atys)]
        e = self.new_event(fr, self.evkey(fr, "ev"), name, kind, inst, vals, atys, deep, st.pc, loc)
        e.info = {}
        for i, (v, ty) in enumerate(zip(vals, atys)):
            c = self.vec_content(st, v, ty)
            if c is not None:
                e.info[i] = c
        e.preds = st.fr
        st.fr = frozenset([e.key])
        ev = mk("ev", 0, e.key, name)
        e.ret = mk("ret", rsize, ev) if rsize else None
        e.retty = dty
        self.nonzero_error(e, dty)
        for i, (v, ty) in enumerate(zip(vals, atys)):
            self.havoc(st, v, ty, ev, i, foreign=kind == "callback")
        for m in self.monitors:
            m(self, e, st)
        return st, ([(0, e.ret)] if rsize else [])

    def nonzero_error(self, e, ty):
        """an std::io::Error is a word that is never zero: noted where no other variant and no tag shares its bytes"""
        j = self.tys[ty] if ty is not None else None
        if e.ret is None or not j or j["k"] != "enum" or not j["n"].endswith("std::io::Error>") or j["tag"][0] != "direct":
            return
        vs = {v["n"]: [(o, o + self.size(t)) for o, t, _ in v["fields"]] for v in j["variants"]}
        if set(vs) != {"Ok", "Err"} or len(vs["Err"]) != 1:
            return
        lo, hi = vs["Err"][0]
        used = vs["Ok"] + [(j["tag"][1], j["tag"][1] + j["tag"][2])]
        if hi - lo == 8 and all(b <= lo or hi <= a for a, b in used):
            never.setdefault(SEL(e.ret, lo, 8), (0, 1))

    def havoc(self, st, v, ty, ev, i, foreign=False):
        if ty is None or not v:
            return
        j = self.tys[ty]
        if j["k"] in ("ref", "ptr") and j["mut"]:
            ej = self.tys[j["e"]]
            p = v[0][1]
            if p.sz > 8:
                p = SEL(p, 0, 8)
            p = restrict(p, st.pc)
            for l in leaves(p):
                if l.op in ("c", "undef", "fn"):
                    continue
                a, o = ptr_parts(l)
                es = ej.get("size")
                if es is None and ej["k"] == "slice" and len(v) > 1:
                    m = restrict(v[1][1], st.pc)
                    if m.op == "c":
                        es = m.a[0] * self.size(ej["e"])
                if es == 0:
                    continue
                if foreign and j["k"] == "ptr" and ej["k"] == "float" and isinstance(o, int):
                    es = self.extent(st, a, o)
                if es is not None and isinstance(o, int):
                    new = [(0, mk("out", es, ev, i))]
                    if p.op == "ite":
                        new = merge_vals(cond_of(p, lambda q: q is l), new, self.load(st, a, o, es))
                    self.store(st, a, o, es, new)
                else:
                    ob = st.w(a)
                    ob.base = mk("out", -1, ev, i)
                    ob.cells = {}
                    ob.keys = []

    def pure(self, fr, st, inst, vals, atys, dty, rsize, name=None):
        name = name or inst["name"]
        self.opaque.add("pure " + name)
        deep = tuple(self.deep(st, v, ty) for v, ty in zip(vals, atys))
        r = mk("app", rsize, name, deep)
        for i, (v, ty) in enumerate(zip(vals, atys)):
            self.havoc(st, v, ty, mk("app", 0, name, deep), i)
        return st, ([(0, r)] if rsize else [])

    def find_model(self, inst):
        i = inst["id"]
        if i in self.model_cache:
            return self.model_cache[i]
        h = None
        for pred, fn in self.models:
            if pred(inst):
                h = fn
                break
        self.model_cache[i] = h
        return h

    # ------------------------------------------------------------ roots
    def run_root(self, name, args=None, keep=False):
        """analyse harness function `name`; args: dict index -> value override"""
        inst = self.by_name["harness::" + name]
        st = State()
        root = Frame()
        root.uid = 0
        root.inst = {"name": "root"}
        root.iters = []
        root.bb = 0
        root.parent = None
        root.depth = 0
        root.body = None
        vals, atys = [], []
        self.rootargs = {}
        for i in range(inst["argc"]):
            ty = inst["locals"][i + 1]
            pn = inst["names"].get(str(i + 1), "arg%d" % i)
            v = self.sym_value(st, pn, ty)
            vals.append(v)
            atys.append(ty)
            self.rootargs[pn] = (v, ty)
        r = self.inline(root, st, inst, vals, [None] * len(vals), "root")
        return r, inst

    def sym_value(self, st, pn, ty):
        j = self.tys[ty]
        if j["k"] in ("ref", "ptr"):
            aid = ("P", pn)
            es = self.tys[j["e"]].get("size")
            o = Obj(SYM("*" + pn, es if es is not None else -1))
            st.mem[aid] = o
            v = [(0, PTR(aid, 0))]
            if self.size(ty) == 16:
                v.append((8, SYM(pn + ".len", 8)))
            return v
        sz = self.size(ty) or 0
        return [(0, SYM(pn, sz))] if sz else []


def fr_stack(fr):
    out = []
    while fr is not None:
        out.append((fr.inst["name"], fr.bb))
        fr = fr.parent
    return tuple(reversed(out))


from terms import _bits as _bits_  # noqa


def in_big_stack(fn):
    res = {}

    def w():
        try:
            res["v"] = fn()
        except BaseException as ex:  # noqa
            res["e"] = ex

    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=w)
    t.start()
    t.join()
    if "e" in res:
        raise res["e"]
    return res["v"]
