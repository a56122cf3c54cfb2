"""Shared vocabulary of the rules: looking through named values, loop-carried values and wire types."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from models import *  # noqa
import terms as TM
from interp import _subterms

FX = "franka::exception::FrankaException"


# ------------------------------------------------------------------ rewriting
def rewrite(t, f, memo):
    """bottom-up rewriting; f(term) -> replacement or None"""
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "ite":
        h = getattr(memo, "gated", None)
        if h is not None:
            r = h(t)
            if r is not None:
                memo[t] = r
                return r
        c = rewrite_atom(t.a[0], f, memo)
        if c is ONE:
            r = rewrite(t.a[1], f, memo)
        elif c is ZERO:
            r = rewrite(t.a[2], f, memo)
        else:
            r = ite(c, rewrite(t.a[1], f, memo), rewrite(t.a[2], f, memo))
    else:
        x = f(t)
        if x is not None:
            r = rewrite(x, f, memo) if x is not t else t
        else:
            na, ch = _rw_args(t.a, f, memo)
            r = build(t, na) if ch else t
    memo[t] = r
    return r


def _rw_args(a, f, memo):
    ch = False
    na = []
    for x in a:
        if isinstance(x, T):
            y = rewrite(x, f, memo)
        elif isinstance(x, tuple):
            y, c = _rw_args(x, f, memo)
            y = tuple(y) if c else x
        else:
            y = x
        ch = ch or y is not x
        na.append(y)
    return na, ch


_CMP = {
    "eq": ieq, "ult": ult, "slt": slt,
    "flt": lambda a, b: fcmp("lt", a, b), "fle": lambda a, b: fcmp("le", a, b), "feq": lambda a, b: fcmp("eq", a, b),
    "isnan": isnan, "isinf": isinf, "signbit": lambda a: sign_neg(a),
}


def rewrite_atom(a, f, memo):
    key = ("atom", a)
    r = memo.get(key)
    if r is not None:
        return r
    x = f(a)
    if x is not None and x is not a:
        r = TM.is_true(rewrite(x, f, memo))
    else:
        na, ch = _rw_args(a.a, f, memo)
        if not ch:
            r = atom(a)
        elif a.op == "is":
            r = ieq(na[0], C(na[0].sz, a.a[1]))
        elif a.op in _CMP:
            r = _CMP[a.op](*na)
        else:
            r = TM.is_true(build(a, na))
    memo[key] = r
    return r


def build(t, na):
    if t.op == "cat":
        sz = t.sz
        return CAT([(o, p) for o, p in na[0]], sz)
    g = [i for i, x in enumerate(na) if isinstance(x, T) and x.op == "ite"]
    if g and t.op not in ("sel", "app", "cat", "ser", "de", "slice", "add", "sub", "mul", "zext"):
        i = g[0]
        return map1(lambda l: build(t, na[:i] + [l] + na[i + 1:]), na[i])
    if t.op in ("eq", "ult", "slt", "flt", "fle", "feq", "isnan", "isinf"):
        return _CMP[t.op](*na)
    if t.op == "is":
        return ieq(na[0], C(na[0].sz, na[1]))
    return TM.rebuild(t, na)


def expand(eng, t):
    """replace every named value by its definition"""
    memo = getattr(eng, "_expand_memo", None)
    if memo is None:
        memo = eng._expand_memo = {}
    d = eng.phi_def
    return rewrite(t, lambda x: d.get(x), memo)


def mentions(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = bool(pred(t)) or any(mentions(x, pred, memo) for x in _subterms(t.a))
        memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(_subterms(x.a))
    return seen


# ------------------------------------------------------------------ conditions
def conj(*cs):
    r = ONE
    for c in cs:
        r = band(r, c)
    return r


def under(phi, *conds):
    """phi restricted to the care sets; ONE means implied"""
    for c in conds:
        phi = restrict(phi, c)
    return phi


def at_event(phi, e):
    return under(phi, e.pc, *reversed(e.ctx))


def call_facts(eng, *ts):
    """conditions known because the named values in ts exist: the calls that produced them returned"""
    out, seen = {}, set()
    st = [x for t in ts for x in subterms(t)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            for y in (eng.phi_ctx.get(x), eng.phi_def.get(x)):
                if y is not None:
                    st.extend(z for z in subterms(y) if z not in seen)
            c = eng.phi_ctx.get(x)
            if c is not None and c is not ONE:
                out[expand(eng, c)] = 1
    return list(out)


def live_value(eng, t, cond):
    """t with names looked through, without the branches that are not taken under cond: where the value of a finished call is
    taken, that call returned, so that what was known when it returned holds as well"""
    order, seen, defs = [], set(), {}

    def named(x):
        """(the name, the value it stands for) if x is a named value or a part of one"""
        if x not in defs:
            r = None
            if x.op == "phi" and x in eng.phi_def:
                r = x, eng.phi_def[x]
            elif x.op == "sel" and x.a[0].op == "phi" and x.a[0] in eng.phi_def:
                r = x.a[0], SEL(eng.phi_def[x.a[0]], x.a[1], x.sz)
            defs[x] = r
        return defs[x]

    def kids(x):
        return (x.a[1], x.a[2]) if x.op == "ite" else named(x)[1:] if named(x) else ()

    st = [(t, False)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
        elif x not in seen:
            seen.add(x)
            st.append((x, True))
            st.extend((y, False) for y in kids(x))
    reach = {t: cond}
    for x in reversed(order):
        c = reach.get(x, ZERO)
        if c is ZERO:
            continue
        if x.op == "ite":
            a = expand(eng, atom(x.a[0]))
            out = [(x.a[1], band(c, a)), (x.a[2], band(c, bnot(a)))]
        elif named(x):
            k = eng.phi_ctx.get(named(x)[0])
            out = [(named(x)[1], c if k is None else band(c, expand(eng, k)))]
        else:
            out = []
        for y, cy in out:
            reach[y] = bor(reach.get(y, ZERO), cy)
    new = {}
    for x in order:
        if reach.get(x, ZERO) is ZERO:
            continue
        if x.op == "ite":
            y, z = (new.get(k) for k in (x.a[1], x.a[2]))
            if y is None or z is None:
                new[x] = y if z is None else z
            else:
                new[x] = ite(expand(eng, atom(x.a[0])), y, z)
        elif named(x):
            new[x] = new.get(named(x)[1])
        else:
            new[x] = expand(eng, x)
    return new.get(t)


def piecewise(t, f):
    """apply f to the parts of a concatenation"""
    if t.op == "cat":
        return CAT([(o, f(p)) for o, p in t.a[0]], t.sz)
    return f(t)


def value_under(eng, t, cond):
    """t with names looked through, simplified for the case cond (already expanded)"""
    return piecewise(expand(eng, t), lambda p: restrict(p, cond))


def same_under(eng, t, u, cond, boolean=False):
    x, y = value_under(eng, t, cond), value_under(eng, u, cond)
    if x is y:
        return True
    if boolean:
        return restrict(TM.is_true(x), cond) is restrict(TM.is_true(y), cond)
    if x.sz == y.sz and x.sz > 8 and x.sz % 8 == 0:
        return all(same_under(eng, SEL(x, i, 8), SEL(y, i, 8), cond) for i in range(0, x.sz, 8))
    return False


# ------------------------------------------------------------------ types
def ty_by_def(eng, suffix, crate="franka"):
    r = [i for i, t in enumerate(eng.tys) if t.get("def", "").endswith(suffix) and t.get("crate", crate) == crate]
    return r[0] if r else None


def ty_by_name(eng, name):
    m = getattr(eng, "_tyn", None)
    if m is None:
        m = eng._tyn = {}
        for i, t in enumerate(eng.tys):
            m.setdefault(t["n"], i)
    return m.get(name)


def wire(eng, tyname):
    """total size, [(wire off, size, memory off, ty)]"""
    ty = ty_by_name(eng, tyname)
    return None if ty is None else wire_layout(eng, ty)


def wire_value(eng, tyname, content, woff, size):
    """term for the wire bytes [woff, woff+size) of a value of a type whose memory image is content"""
    w = wire(eng, tyname)
    parts = []
    for wo, sz, mo, _ in w[1]:
        lo, hi = max(wo, woff), min(wo + sz, woff + size)
        if lo < hi:
            parts.append((lo - woff, SEL(content, mo + lo - wo, hi - lo)))
    return CAT(parts, size)


def wire_field(eng, tyname, blob, woff, size):
    """memory selection of the decoded value `blob` (de term) that holds wire bytes [woff, woff+size)"""
    return wire_value(eng, tyname, blob, woff, size)


def variant_cond(eng, ty, rv, name):
    """condition under which the enum value rv (cells) is the given variant; (cond, discr term)"""
    j = eng.tys[ty]

    def rd(off, sz):
        return eng.sval([(max(o, off) - off, SEL(t, max(o, off) - o, min(o + t.sz, off + sz) - max(o, off))) for o, t in rv if o < off + sz and off < o + t.sz], sz)

    d = eng.discr_val(ty, rd, 8)
    v = [x for x in j["variants"] if x["n"] == name][0]
    return ieq(d, C(8, v["d"])), d


def sub_cells(rv, off, size):
    out = []
    for o, t in rv:
        lo, hi = max(o, off), min(o + t.sz, off + size)
        if lo < hi:
            out.append((lo - off, SEL(t, lo - o, hi - lo)))
    return out


# ------------------------------------------------------------------ origins of a value
def origins(eng, t, seen=None):
    """ground terms a (possibly gated, named, loop-carried) value can stem from"""
    out = {}
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.extend(leaves(x))
            continue
        b, off = (x.a[0], x.a[1]) if x.op == "sel" else (x, 0)
        if b.op == "phi" and b in eng.phi_def:
            st.append(SEL(eng.phi_def[b], off, x.sz) if x.op == "sel" else eng.phi_def[b])
        elif b.op == "mu" and b in eng.mu_next:
            for y in (eng.mu_init[b], eng.mu_next[b]):
                st.append(SEL(y, off, x.sz) if x.op == "sel" and y.op != "undef" else y)
        elif b.op == "ite":
            st.extend(SEL(l, off, x.sz) for l in leaves(b))
        else:
            out[x] = 1
    return list(out)


def ev_id(t):
    """event number of a ret/out term"""
    if t.op == "sel":
        t = t.a[0]
    if t.op in ("ret", "out") and t.a[0].op == "ev":
        return t.a[0].a[0]
    return None


# ------------------------------------------------------------------ I/O vocabulary
TCP = "TcpStream"
UDP = "UdpSocket"


def is_tcp_send(e):
    return e.kind == "effect" and TCP in e.name and re.search(r"Write>::write|::write|try_io|::send", e.name) is not None


def is_udp_send(e):
    return e.kind == "effect" and UDP in e.name and re.search(r"::send|try_io", e.name) is not None


def is_udp_recv(e):
    return e.kind == "effect" and UDP in e.name and re.search(r"::recv", e.name) is not None


def is_map(e, op):
    return e.kind == "effect" and "HashMap" in e.name and re.search(r"::%s\b" % op, e.name) is not None


def sent(eng, e):
    """(type name, memory content) of the value serialised into the buffer given to a send call"""
    for d in e.deep[1:]:
        for l in leaves(d):
            x = l
            while x.op in ("sel", "slice"):
                x = x.a[0]
            if x.op == "ser":
                full = True
                w = wire(eng, x.a[0])
                if l.op == "sel":
                    full = w is not None and l.a[1] == 0 and l.sz == w[0]
                elif l.op == "slice":
                    full = l.a[1] is C(8, 0) and (w is None or l.a[2] is C(8, w[0]))
                return x.a[0], x.a[1], full
    return None


def where(e):
    return "%s (%s)" % (e.loc, " > ".join(short(n) for n, _ in e.stack[-4:]))


def short(n):
    return re.sub(r"<.*>", "", n.replace("<impl ", "").strip()).split("::")[-1] or n[:60]
