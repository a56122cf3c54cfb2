"""What the analysis knows about code outside the analysed crate.

Three kinds of knowledge, all keyed by the resolved definition path of the callee:
  * models   – exact meaning of a library function in terms of values (f64::max, mem::swap, ...)
  * pure     – functions without side effects whose result is an uninterpreted function of the arguments
  * effects  – everything else outside the analysed crates: an event of the effect graph
"""
import re
from terms import *
from interp import *

INLINE_CRATES = {"harness", "franka", "core", "alloc", "nalgebra", "simba", "num_traits", "approx", "generic_array", "typenum", "num_complex"}

# functions with a body that are nevertheless treated as primitives with an effect
EFFECT_RE = re.compile(
    r"^(std::collections::VecDeque|std::collections::vec_deque|std::collections::HashMap|std::collections::hash|hashbrown::"
    r"|std::io::|std::fs::|std::net::|mio::|libloading::|libc::|nix::|std::thread|std::io::_e?print|std::path::Path::exists"
    r"|<std::fs::|<mio::|<std::net::|std::process|<std::collections::VecDeque|<std::collections::HashMap"
    r"|<std::io::|<std::collections::vec_deque)"
)
PURE_RE = re.compile(
    r"^(std::f64::|core::num::imp::libm|std::sys::cmath|core::f64::math::|std::intrinsics::(sqrt|pow|sin|cos|fma|exp|log|floor|ceil|round|trunc|powi))"
    r"|<.* as std::string::ToString>::to_string|std::string::String::|<std::string::String as|std::fmt::|core::fmt::|<str as|core::str::"
    r"|std::hint::must_use|<.* as std::fmt::|std::path::|<std::path|std::ffi|<std::ffi|bincode::|<&T as thiserror|thiserror"
    r"|core::panicking::"
    r"|mio::event::event::Event::|<nix::|mio::token|std::borrow::|<.* as std::borrow::|std::time::Duration::(from_secs_f64|as_secs_f64|as_secs_f32|mul_f64|div_f64)"
    r"|std::net::SocketAddr|core::net|std::net::IpAddr|<.* as std::str::FromStr>|core::num::<impl std::str"
)
NALGEBRA_PURE_RE = re.compile(
    r"nalgebra::geometry::(quaternion|rotation|isometry|translation|unit)|nalgebra::Isometry|nalgebra::Rotation|nalgebra::Unit|nalgebra::Quaternion"
    r"|matrixmultiply|nalgebra::base::(blas|norm|ops|edition|properties|min_max|statistics|matrix_slice)|nalgebra::linalg|approx::|nalgebra::base::matrix::<impl|<nalgebra::"
)


class Policy:
    def __init__(self, nalgebra="inline", extra_effect=None, extra_pure=None, pure_ret=(), effect_arg=(), inline=None, effect_name=None):
        self.nalgebra = nalgebra
        self.pure_ret = pure_ret  # functions of the crate returning one of these types are uninterpreted
        self.ee = re.compile(extra_effect) if extra_effect else None
        self.ep = re.compile(extra_pure) if extra_pure else None
        self.en = re.compile(effect_name) if effect_name else None
        self.inl = re.compile(inline) if inline else None
        self.memo = {}

    tys = None

    def small(self, inst):
        """clones and moves of such a value stay visible"""
        return inst["name"].endswith("::clone") or all(self.tys[inst["locals"][i + 1]]["n"].lstrip("&") in self.pure_ret for i in range(inst["argc"]))

    def __call__(self, inst):
        r = self.memo.get(inst["id"])
        if r is None:
            r = self.decide(inst)
            self.memo[inst["id"]] = r
        return r

    def decide(self, inst):
        d, n = inst["def"], inst["name"]
        if self.ee and (self.ee.search(d)):
            return "effect"
        if self.en and self.en.search(n):
            return "effect"
        if self.ep and (self.ep.search(d)):
            return "pure"
        if self.inl and self.inl.search(d) and "blocks" in inst:
            return "inline"
        if inst["crate"] in ("franka", "harness") and "blocks" in inst:
            if self.pure_ret and self.tys is not None and self.tys[inst["locals"][0]]["n"] in self.pure_ret and inst["argc"] and not self.small(inst):
                return "pure"
            return "inline"
        if EFFECT_RE.search(d) and not PURE_OVER.search(d):
            return "effect"
        if PURE_RE.search(d):
            return "pure"
        if inst["crate"] in ("nalgebra", "simba", "matrixmultiply") and self.nalgebra == "pure" and NALGEBRA_PURE_RE.search(d):
            return "pure"
        if NALG_ALWAYS_PURE.search(d):
            return "pure"
        if "blocks" in inst and inst["crate"] in INLINE_CRATES:
            return "inline"
        if "blocks" in inst and inst["kind"] == "shim":
            return "inline"
        return "effect"


PURE_OVER = re.compile(r"mio::event::event::Event::(token|is_readable|is_writable)|std::net::SocketAddr|std::net::IpAddr|mio::token")
# iterative / transcendental geometry: values are not decided here, only the data flow through it
NALG_ALWAYS_PURE = re.compile(
    r"rotation_specialization::<impl nalgebra::Rotation<N, nalgebra::U3>>::(from_matrix|from_matrix_eps|renormalize|scaled_axis|axis|angle|from_scaled_axis)"
    r"|quaternion_construction::.*::(from_matrix|from_rotation_matrix)|::slerp$|::try_slerp$|quaternion::<impl nalgebra::Unit<nalgebra::Quaternion<N>>>::to_rotation_matrix"
    r"|nalgebra::linalg::"
)


def _m(pat):
    r = re.compile(pat)
    return lambda inst: bool(r.search(inst["def"]))


def _intr(*names):
    s = set(names)
    return lambda inst: inst["kind"] == "intrinsic" and inst.get("intrinsic") in s


def sv(v, size=None):
    if len(v) == 1 and v[0][0] == 0:
        return v[0][1]
    if not v:
        return UNDEF
    return CAT(v, size if size else max(o + t.sz for o, t in v))


def noop(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return st, []


def ident(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return st, vals[0]


def un(f):
    def h(eng, fr, st, inst, vals, atys, dty, rsize, loc):
        return st, [(0, f(sv(vals[0])))]

    return h


def bi(f):
    def h(eng, fr, st, inst, vals, atys, dty, rsize, loc):
        return st, [(0, f(sv(vals[0]), sv(vals[1])))]

    return h


def clampf(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    x, lo, hi = sv(vals[0]), sv(vals[1]), sv(vals[2])
    bad = bnot(fcmp("le", lo, hi))
    pcb = band(st.pc, bad)
    if pcb is not ZERO:
        eng.panic(fr, st, pcb, "f64::clamp: min > max", [], loc)
    st.pc = band(st.pc, bnot(bad))
    if st.pc is ZERO:
        return None
    return st, [(0, mk("fclamp", 8, x, lo, hi))]


def powi(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    x, n = sv(vals[0]), sv(vals[1])
    if n.op == "c" and 0 <= scv(n) <= 8:
        k = scv(n)
        if k == 0:
            return st, [(0, F(1.0))]
        r = x
        for _ in range(k - 1):
            r = fbin("fmul", r, x)
        return st, [(0, r)]
    return st, [(0, mk("app", 8, "powi", (x, n)))]


def powf(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    x, n = sv(vals[0]), sv(vals[1])
    if n.op == "c" and fval(n) in (1.0, 2.0, 3.0, 4.0):
        r = x
        for _ in range(int(fval(n)) - 1):
            r = fbin("fmul", r, x)
        return st, [(0, r)]
    return st, [(0, mk("app", 8, "powf", (x, n)))]


def app1(name):
    return lambda x: mk("app", x.sz, name, (x,))


def signum(x):
    if x.op == "c":
        import math

        v = fval(x)
        if v == v:
            return F(math.copysign(1.0, v))
    return mk("fsignum", 8, x)


def sign_pos(x):
    if x.op == "c":
        return ZERO if x.a[0] >> 63 else ONE
    return bnot(atom(mk("signbit", 1, x)))


def sign_neg(x):
    return bnot(sign_pos(x))


def swap(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return NotImplemented


def size_of_val(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    j = eng.tys[inst["targs"][0]]
    if "size" in j:
        return st, [(0, C(8, j["size"]))]
    if j["k"] in ("slice", "str"):
        es = eng.size(j["e"]) if j["k"] == "slice" else 1
        return st, [(0, imul(vals[0][1][1], C(8, es)))]
    return st, [(0, mk("app", 8, "size_of_val", (sv(vals[0], 16),)))]


def align_of_val(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    j = eng.tys[inst["targs"][0]]
    if "align" in j:
        return st, [(0, C(8, j["align"]))]
    return st, [(0, C(8, 1))]


def offset_from(signed):
    def h(eng, fr, st, inst, vals, atys, dty, rsize, loc):
        es = eng.size(inst["targs"][0]) or 1
        d = isub(sv(vals[0]), sv(vals[1]))
        return st, [(0, idiv(d, C(8, es), signed))]

    return h


def arith_offset(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    es = eng.size(inst["targs"][0]) or 0
    return st, [(0, ptr_add(sv(vals[0]), imul(sv(vals[1]), C(8, es))))]


def copy_intr(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    es = eng.size(inst["targs"][0]) or 0
    eng.memcpy(st, sv(vals[1]), sv(vals[0]), imul(sv(vals[2]), C(8, es)))
    return st, []


def write_bytes(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    es = eng.size(inst["targs"][0]) or 0
    n = imul(sv(vals[2]), C(8, es))
    a, o = ptr_parts(sv(vals[0]))
    b = sv(vals[1])
    if n.op == "c" and b.op == "c":
        eng.store(st, a, o, n.a[0], [(0, BYTES(bytes([b.a[0]]) * n.a[0]))] if n.a[0] else [])
    else:
        ob = st.w(a)
        ob.base = mk("fill", -1, b)
        ob.cells = {}
        ob.keys = []
    return st, []


def discr_value(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    ty = inst["targs"][0]
    p = restrict(sv(vals[0]), st.pc)
    r = None
    for l in leaves(p):
        a, o = ptr_parts(l)
        d = eng.discr_val(ty, lambda of, sz: eng.scalar(st, a, eng._oadd(o, C(8, of)), sz), rsize, st.pc)
        r = d if r is None else ite(cond_of(p, lambda q: q is l), d, r)
    return st, [(0, r)]


def alloc_fn(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    o = Obj()
    if "zeroed" in inst["def"]:
        n = sv(vals[0])
        o.base = mk("fill", -1, C(1, 0))
    st.mem[aid] = o
    st.owned.add(aid)
    return st, [(0, PTR(aid, 0))]


def realloc_fn(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return st, vals[0]


def vec_from_elem(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """vec![x; n]"""
    ety = inst["targs"][0]
    es = eng.size(ety)
    n = restrict(sv(vals[1]), st.pc)
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    o = Obj()
    st.mem[aid] = o
    st.owned.add(aid)
    if n.op == "c" and n.a[0] * es <= 4096:
        out = []
        for i in range(n.a[0]):
            out += [(i * es + off, t) for off, t in vals[0]]
        if n.a[0]:
            eng.store(st, aid, 0, n.a[0] * es, out)
    else:
        o.base = mk("fill", -1, sv(vals[0], es))
    return st, vec_value(eng, dty, n, PTR(aid, 0), n)


def vec_offsets(eng, ty):
    """(cap offset, ptr offset, len offset) of a Vec/String type"""
    res = {}

    def walk(t, base):
        j = eng.tys[t]
        if j["k"] in ("struct", "union"):
            for o, ft, fn in j["fields"]:
                fj = eng.tys[ft]
                if fn == "len" and j.get("def", "").endswith("Vec"):
                    res["len"] = base + o
                elif fn == "cap":
                    res["cap"] = base + o
                elif fn == "ptr" and fj.get("def", "").endswith(("NonNull", "Unique")):
                    res["ptr"] = base + o
                else:
                    walk(ft, base + o)

    walk(ty, 0)
    return res["cap"], res["ptr"], res["len"]


def vec_value(eng, ty, cap, ptr, ln):
    c, p, l = vec_offsets(eng, ty)
    return sorted([(c, cap), (p, ptr), (l, ln)], key=lambda x: x[0])


def string_value(eng, name):
    def h(eng_, fr, st, inst, vals, atys, dty, rsize, loc):
        """functions returning a fresh String: content is an uninterpreted function of the arguments"""
        deep = tuple(str_content(eng_, st, v, ty) for v, ty in zip(vals, atys))
        if eng_.tys[dty].get("def", "").endswith("String") is False:
            return NotImplemented
        t = mk("app", -1, name or inst["def"], deep)
        aid = ("S", t)
        if aid not in st.mem:
            st.mem[aid] = Obj(t)
        ln = mk("app", 8, "len", (t,))
        if len(deep) == 1 and deep[0].op == "bytes" and name == "string":
            ln = C(8, deep[0].sz)
            st.mem[aid] = Obj(deep[0])
        return st, vec_value(eng_, dty, C(8, 64), PTR(aid, 0), ln)

    return h


def str_content(eng, st, v, ty):
    """content of a &str / &String / String / anything"""
    j = eng.tys[ty] if ty is not None else None
    if j and j["k"] in ("ref",):
        ej = eng.tys[j["e"]]
        if ej.get("def", "").endswith("string::String"):
            c, p, l = vec_offsets(eng, j["e"])
            a, o = ptr_parts(restrict(v[0][1], st.pc))
            if isinstance(o, int):
                pt = restrict(eng.scalar(st, a, o + p, 8), st.pc)
                if pt.op not in ("ite", "undef", "c"):
                    a2, o2 = ptr_parts(pt)
                    ob = eng.get_obj(st, a2)
                    return eng.blob(ob)
        if ej["k"] in ("ref",):
            a, o = ptr_parts(restrict(v[0][1], st.pc))
            vv = eng.load(st, a, o, eng.size(j["e"]))
            return str_content(eng, st, vv, j["e"])
    return eng.deep(st, v, ty)


def fmt_args(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return st, [(0, mk("app", rsize, "fmt", tuple(str_content(eng, st, v, t) for v, t in zip(vals, atys))))]


def wire_layout(eng, ty):
    """bincode (fixint, little endian) layout of a type: list of (wire off, size, memory offset) or None
    when the size is not static.  Follows the derived field order: serde derives serialise fields in
    declaration order; enums with serde_repr carry their integer value."""
    out = []

    def walk(t, mo, wo):
        j = eng.tys[t]
        k = j["k"]
        if k in ("int", "uint", "float", "bool"):
            out.append((wo, j["size"], mo, t))
            return wo + j["size"]
        if k in ("struct", "tuple"):
            for o, ft, fn in j["fields"]:
                wo = walk(ft, mo + o, wo)
                if wo is None:
                    return None
            return wo
        if k == "array":
            es = eng.size(j["e"])
            for i in range(j["len"]):
                wo = walk(j["e"], mo + i * es, wo)
                if wo is None:
                    return None
            return wo
        if k == "enum":
            if all(not v["fields"] for v in j["variants"]):
                out.append((wo, j["size"], mo, t))
                return wo + j["size"]
        return None

    n = walk(ty, 0, 0)
    if n is None:
        return None
    return n, out


def bincode_serialize(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    tt = inst["targs"][0]
    a, o = ptr_parts(restrict(sv(vals[0]), st.pc))
    size = eng.size(tt)
    content = eng.load(st, a, o, size)
    blob = mk("ser", -1, eng.tys[tt]["n"], CAT(content, size))
    aid = ("S", blob)
    st.mem[aid] = Obj(blob)
    wl = wire_layout(eng, tt)
    ln = C(8, wl[0]) if wl else mk("app", 8, "serlen", (blob,))
    vty = [f[1] for v in eng.tys[dty]["variants"] if v["n"] == "Ok" for f in v["fields"]][0]
    # serialising into a growable vector does not fail for these types
    return st, eng.mk_enum(dty, "Ok", [vec_value(eng, vty, C(8, 4096), PTR(aid, 0), ln)])


def bincode_deserialize(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """Result<T>: Ok iff the bytes decode as T (uninterpreted), content = decode(T, bytes)"""
    j = eng.tys[dty]
    okty = [f[1] for v in j["variants"] if v["n"] == "Ok" for f in v["fields"]][0]
    errty = [f[1] for v in j["variants"] if v["n"] == "Err" for f in v["fields"]][0]
    data = eng.deep(st, vals[0], atys[0])
    ok = atom(mk("decodes", 1, eng.tys[okty]["n"], data))
    size = eng.size(okty)
    val = mk("de", size, eng.tys[okty]["n"], data)
    # a decoded value is a valid value of its type: enumeration fields hold one of the variants
    wl = wire_layout(eng, okty)
    for wo, sz, mo, t in wl[1] if wl else ():
        j2 = eng.tys[t]
        if j2["k"] == "enum" and j2["tag"][0] == "direct" and len(j2["variants"]) <= 64:
            m = (1 << (8 * sz)) - 1
            domain.setdefault(SEL(val, mo, sz), tuple(v["d"] & m for v in j2["variants"]))
    okv = eng.mk_enum(dty, "Ok", [[(0, val)]])
    erv = eng.mk_enum(dty, "Err", [[(0, mk("app", eng.size(errty), "decode_error", (data,)))]])
    return st, merge_vals(ok, okv, erv)


def events_iter_next(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return NotImplemented


def read_exactish(name):
    def h(eng, fr, st, inst, vals, atys, dty, rsize, loc):
        return eng.event(fr, st, name, "effect", inst, vals, atys, dty, rsize, loc)

    return h


def box_dyn_noop(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return NotImplemented


def compare_bytes(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    n = sv(vals[2])
    def content(p):
        a, o = ptr_parts(p)
        if n.op == "c" and isinstance(o, int):
            return CAT(eng.load(st, a, o, n.a[0]), n.a[0]) if n.a[0] else UNDEF
        return mk("slice", -1, eng.blob(eng.get_obj(st, a)), C(8, o) if isinstance(o, int) else o, n)
    return st, [(0, mk("app", 4, "memcmp", (content(sv(vals[0])), content(sv(vals[1])), n)))]


def slice_clone_vec(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """Vec<u8>::clone / to_vec: fresh allocation with the same content"""
    v = vals[0]
    j = eng.tys[atys[0]]
    if j["k"] != "ref":
        return NotImplemented
    ej = eng.tys[j["e"]]
    if ej.get("def", "").endswith("Vec"):
        c, p, l = vec_offsets(eng, j["e"])
        a, o = ptr_parts(restrict(v[0][1], st.pc))
        if not isinstance(o, int):
            return NotImplemented
        pt = restrict(eng.scalar(st, a, o + p, 8), st.pc)
        ln = restrict(eng.scalar(st, a, o + l, 8), st.pc)
    elif ej["k"] == "slice":
        pt, ln = restrict(v[0][1], st.pc), restrict(v[1][1], st.pc)
    else:
        return NotImplemented
    if pt.op in ("ite", "undef", "c") or not eng.tys[dty].get("def", "").endswith("Vec"):
        return NotImplemented
    et = eng.tys[dty]["args"][0]
    es = eng.size(et)
    a2, o2 = ptr_parts(pt)
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    ob = eng.get_obj(st, a2)
    n = Obj()
    if o2 == 0:
        n = ob.clone()
        if ln.op != "c" and not (ob.base is not None and not ob.cells and ob.base.op == "ser"):
            n = Obj(mk("prefix", -1, eng.blob(ob), imul(ln, C(8, es))))
    elif isinstance(o2, int) and ln.op == "c":
        n.write(0, ln.a[0] * es, ob.read(o2, ln.a[0] * es))
    else:
        n = Obj(mk("slice", -1, eng.blob(ob), o2 if isinstance(o2, T) else C(8, o2), ln))
    st.mem[aid] = n
    st.owned.add(aid)
    return st, vec_value(eng, dty, ln, PTR(aid, 0), ln)


def vec_append(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """Vec::append(&mut self, &mut other)"""
    vt = eng.tys[atys[0]]["e"]
    c, p, l = vec_offsets(eng, vt)
    es = eng.size(eng.tys[vt]["args"][0])

    def get(v):
        a, o = ptr_parts(restrict(v[0][1], st.pc))
        return a, o, restrict(eng.scalar(st, a, o + p, 8), st.pc), restrict(eng.scalar(st, a, o + l, 8), st.pc)

    a1, o1, p1, l1 = get(vals[0])
    a2, o2, p2, l2 = get(vals[1])
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    n = Obj()
    b1 = eng.blob(eng.get_obj(st, ptr_parts(p1)[0])) if l1.op != "c" or l1.a[0] else UNDEF
    b2 = eng.blob(eng.get_obj(st, ptr_parts(p2)[0]))
    if l1.op == "c" and l1.a[0] == 0:
        n.base = mk("prefix", -1, b2, imul(l2, C(8, es)))
    else:
        n.base = mk("append", -1, b1, l1, b2, l2)
    st.mem[aid] = n
    st.owned.add(aid)
    nl = iadd(l1, l2)
    for off, t in vec_value(eng, vt, nl, PTR(aid, 0), nl):
        eng.store(st, a1, o1 + off, 8, [(0, t)])
    eng.store(st, a2, o2 + l, 8, [(0, C(8, 0))])
    return st, []


def vec_append_elements(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """Vec::append_elements / extend_from_slice (&mut self, [T])"""
    vt = eng.tys[atys[0]]["e"]
    c, p, l = vec_offsets(eng, vt)
    es = eng.size(eng.tys[vt]["args"][0])
    if es != 1 or len(vals[1]) != 2:
        return NotImplemented
    q1 = restrict(vals[0][0][1], st.pc)
    p2, l2 = restrict(vals[1][0][1], st.pc), restrict(vals[1][1][1], st.pc)
    if q1.op != "ptr":
        return NotImplemented
    a1, o1 = ptr_parts(q1)
    p1, l1 = restrict(eng.scalar(st, a1, o1 + p, 8), st.pc), restrict(eng.scalar(st, a1, o1 + l, 8), st.pc)
    empty = l1.op == "c" and l1.a[0] == 0
    carried = l1.op != "c" and (p1.op == "mu" or p1.op == "ite" and any(x.op == "mu" for x in leaves(p1)))      # filled over several rounds of a loop
    if p2.op in ("ite", "c", "undef") or (not empty and not carried and p1.op in ("ite", "c", "undef")) or (l2.op == "c" and not carried):
        return NotImplemented
    a2, o2 = ptr_parts(p2)
    b2 = mk("slice", -1, eng.blob(eng.get_obj(st, a2)), C(8, o2) if isinstance(o2, int) else o2, l2)
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    n = Obj()
    n.base = b2 if empty else mk("append", -1, eng.blob(eng.get_obj(st, ptr_parts(p1)[0])), l1, b2, l2)
    st.mem[aid] = n
    st.owned.add(aid)
    nl = iadd(l1, l2)
    for off, t in vec_value(eng, vt, nl, PTR(aid, 0), nl):
        eng.store(st, a1, o1 + off, 8, [(0, t)])
    return st, []


def deque_op(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """operations of a VecDeque: events of their own; only the number of elements is tracked, in the structure's own field"""
    op = inst["def"].rsplit("::", 1)[1]
    ref = eng.tys[atys[0]]
    p = restrict(vals[0][0][1], st.pc) if ref["k"] == "ref" and vals[0] else None
    if p is None or p.op != "ptr":
        return NotImplemented
    off = [o for o, _, n in eng.tys[ref["e"]]["fields"] if n == "len"]
    a, o = ptr_parts(p)
    if not off or not isinstance(o, int):
        return NotImplemented
    o += off[0]
    n = restrict(eng.scalar(st, a, o, 8), st.pc)
    if op == "len":
        return st, [(0, n)]
    if op == "is_empty":
        return st, [(0, ieq(n, C(8, 0)))]
    if op in ("push_back", "push_front"):
        m = iadd(n, C(8, 1))
    elif op in ("pop_front", "pop_back"):
        m = ite(ieq(n, C(8, 0)), n, isub(n, C(8, 1)))
    elif op == "clear" or op == "drain" and not (len(vals) > 1 and vals[1]):
        m = C(8, 0)
    elif op == "truncate":
        k = restrict(sv(vals[1]), st.pc)
        m = ite(ult(k, n), k, n)
    else:
        return NotImplemented
    r = eng.event(fr, st, inst["name"], "effect", inst, vals, atys, dty, rsize, loc)
    eng.store(r[0], a, o, 8, [(0, m)])
    return r


def vec_split_off(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """Vec::split_off(&mut self, at)"""
    vt = eng.tys[atys[0]]["e"]
    c, p, l = vec_offsets(eng, vt)
    es = eng.size(eng.tys[vt]["args"][0])
    q = restrict(vals[0][0][1], st.pc)
    at = restrict(sv(vals[1]), st.pc)
    if q.op != "ptr" or es != 1:
        return NotImplemented
    a, o = ptr_parts(q)
    pt, ln = restrict(eng.scalar(st, a, o + p, 8), st.pc), restrict(eng.scalar(st, a, o + l, 8), st.pc)
    if pt.op in ("ite", "c", "undef") or ln.op == "c":
        return NotImplemented
    over = band(st.pc, ult(ln, at))
    eng.panic(fr, st, over, inst["name"], list(zip(vals, atys)), loc)
    st.pc = band(st.pc, bnot(over))
    a2, o2 = ptr_parts(pt)
    o2 = C(8, o2) if isinstance(o2, int) else o2
    n = isub(ln, at)
    aid = ("H", eng.uid(("alloc", fr.uid, fr.bb, tuple(fr.iters))))
    st.mem[aid] = Obj(mk("slice", -1, eng.blob(eng.get_obj(st, a2)), iadd(o2, at), n))
    st.owned.add(aid)
    eng.store(st, a, o + l, 8, [(0, at)])
    return st, vec_value(eng, vt, n, PTR(aid, 0), n)


def unwrap_none(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return NotImplemented


def black_box(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    return st, vals[0] if vals else []


def sat(op):
    def h(eng, fr, st, inst, vals, atys, dty, rsize, loc):
        x, y = sv(vals[0]), sv(vals[1])
        if x.op == "c" and y.op == "c":
            m = (1 << (8 * x.sz)) - 1
            return st, [(0, C(x.sz, min(m, x.a[0] + y.a[0]) if op == "add" else max(0, x.a[0] - y.a[0])))]
        return st, [(0, mk("app", x.sz, "sat" + op, (x, y)))]

    return h


def raw_eq(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    ty = inst["targs"][0]
    n = eng.size(ty)
    a, o = ptr_parts(sv(vals[0]))
    b, p = ptr_parts(sv(vals[1]))
    return st, [(0, ieq(CAT(eng.load(st, a, o, n), n), CAT(eng.load(st, b, p, n), n)))]


MAT33 = "nalgebra::Matrix<f64, nalgebra::U3, nalgebra::U3, nalgebra::ArrayStorage<f64, nalgebra::U3, nalgebra::U3>>"


def is_matmul33(inst):
    """product of two 3x3 f64 matrices (the other operand type only appears when it differs from Self)"""
    n = inst["name"]
    return n in (
        "nalgebra::base::ops::<impl std::ops::Mul for %s>::mul" % MAT33,
        "nalgebra::base::ops::<impl std::ops::Mul for &%s>::mul" % MAT33,
    )


def matmul33(eng, fr, st, inst, vals, atys, dty, rsize, loc):
    """column-major 3x3 product"""

    def get(v, ty):
        if eng.tys[ty]["k"] in ("ref", "ptr"):
            a, o = ptr_parts(restrict(sv(v), st.pc))
            if not isinstance(o, int):
                raise KeyError
            v = eng.load(st, a, o, 72)
        b = CAT(v, 72)
        return [SEL(b, 8 * i, 8) for i in range(9)]

    try:
        a, b = get(vals[0], atys[0]), get(vals[1], atys[1])
    except KeyError:
        return NotImplemented
    out = []
    for j in range(3):
        for i in range(3):
            t = None
            for k in range(3):
                m = fbin("fmul", a[i + 3 * k], b[k + 3 * j])
                t = m if t is None else fbin("fadd", t, m)
            out.append((8 * (i + 3 * j), t))
    return st, out


def install(eng, policy):
    eng.policy = policy
    policy.tys = eng.tys
    eng.model_cache = {}
    M = eng.models = []
    add = lambda pred, fn: M.append((pred, fn))
    add(_m(r"precondition_check$"), noop)
    # f64
    F64 = r"^(core|std)::f64::<impl f64>::"
    add(_m(F64 + "is_finite$"), un(finite))
    add(_m(F64 + "is_nan$"), un(isnan))
    add(_m(F64 + "is_infinite$"), un(isinf))
    add(_m(F64 + "is_sign_positive$"), un(sign_pos))
    add(_m(F64 + "is_sign_negative$"), un(sign_neg))
    add(_m(F64 + "(abs)$|std::intrinsics::fabs$"), un(fabs))
    add(_intr("fabs", "fabsf64"), un(fabs))
    add(_m(F64 + "max$"), bi(fmax))
    add(_m(F64 + "min$"), bi(fmin))
    add(_m(F64 + "clamp$"), clampf)
    add(_m(F64 + "signum$"), un(signum))
    add(_m(F64 + "powi$"), powi)
    add(_m(F64 + "powf$"), powf)
    for n in ("sqrt", "sin", "cos", "acos", "asin", "atan", "tan", "exp", "ln", "floor", "ceil", "round", "trunc", "cbrt"):
        add(_m(F64 + n + "$"), un(app1(n)))
    add(_m(F64 + "to_bits$"), ident)
    add(_m(F64 + "from_bits$"), ident)
    add(_m(F64 + "mul_add$"), lambda eng, fr, st, inst, v, *r: (st, [(0, fbin("fadd", fbin("fmul", sv(v[0]), sv(v[1])), sv(v[2])))]))
    # intrinsics
    add(_intr("size_of_val"), size_of_val)
    add(_intr("align_of_val", "min_align_of_val"), align_of_val)
    add(_intr("ptr_offset_from_unsigned"), offset_from(False))
    add(_intr("ptr_offset_from"), offset_from(True))
    add(_intr("arith_offset", "offset"), arith_offset)
    add(_intr("copy", "copy_nonoverlapping"), copy_intr)
    add(_intr("write_bytes"), write_bytes)
    add(_intr("discriminant_value"), discr_value)
    add(_intr("assert_inhabited", "assert_zero_valid", "assume", "cold_path", "caller_location"), lambda eng, fr, st, inst, v, a, dty, rs, loc: (st, [(0, mk("app", rs, "caller_location", ()))] if rs else []))
    add(_intr("black_box", "likely", "unlikely"), black_box)
    add(_intr("compare_bytes"), compare_bytes)
    add(_intr("saturating_add"), sat("add"))
    add(_intr("saturating_sub"), sat("sub"))
    add(_intr("raw_eq"), raw_eq)
    add(_intr("ctpop"), lambda eng, fr, st, inst, v, *r: (st, [(0, C(4, bin(cv(sv(v[0]))).count("1")) if sv(v[0]).op == "c" else mk("app", 4, "ctpop", (sv(v[0]),)))]))
    # allocator
    add(_m(r"^alloc::alloc::__rust_alloc(_zeroed)?$"), alloc_fn)
    add(_m(r"^alloc::alloc::__rust_realloc$"), realloc_fn)
    add(_m(r"^alloc::alloc::__rust_dealloc$|__rust_no_alloc_shim"), noop)
    add(_m(r"^std::vec::from_elem$"), vec_from_elem)
    add(_m(r"^std::vec::Vec::<T, A>::append$"), vec_append)
    add(_m(r"^std::vec::Vec::<T, A>::(append_elements|extend_from_slice)$"), vec_append_elements)
    add(_m(r"^std::vec::Vec::<T, A>::split_off$"), vec_split_off)
    add(_m(r"^std::collections::VecDeque::<T, A>::(len|is_empty|push_back|push_front|pop_front|pop_back|clear|drain|truncate)$"), deque_op)
    add(_m(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$|::to_vec$|<std::vec::Vec<T> as std::convert::From<&\[T\]>>::from$"), slice_clone_vec)
    # strings
    add(_m(r"as std::string::ToString>::to_string$|SpecToString|<std::string::String as std::convert::From<&|std::str::<impl str>::to_owned$|alloc::str::<impl .*to_owned$|<std::string::String as std::clone::Clone>::clone$|<str as std::borrow::ToOwned>::to_owned|alloc::str::<impl str>::to_string"), string_value(eng, "string"))
    add(_m(r"^std::fmt::format$|^alloc::fmt::format"), string_value(eng, "format"))
    add(_m(r"^std::fmt::Arguments::<'a>::(new|from_str)|^core::fmt::rt::"), fmt_args)
    add(is_matmul33, matmul33)
    # bincode
    add(_m(r"^bincode::serialize$"), bincode_serialize)
    add(_m(r"^bincode::deserialize$"), bincode_deserialize)
    add(_m(r"^std::hint::must_use$"), ident)


def load(path, policy=None):
    import json

    with open(path) as f:
        d = json.load(f)
    eng = Engine(d)
    install(eng, policy or Policy())
    return eng
