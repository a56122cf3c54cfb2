"""P19: each model query evaluates the matching function of the model library on the right arguments."""
from base import *  # noqa
from numeric import Num
from props import PROPS, Prop

JOINTS = ["Joint%d" % i for i in range(1, 8)]
FRAMES = JOINTS + ["Flange", "EndEffector", "Stiffness"]
PREFIX = {"pose": ("O_T_J", 16), "body_jacobian": ("Ji_J_J", 42), "zero_jacobian": ("O_J_J", 42)}
SINGLE = {
    "mass": ("M_NE", 49, [("q", 7), ("i", 9), ("mt", 0), ("x", 3)]),
    "coriolis": ("c_NE", 7, [("q", 7), ("dq", 7), ("i", 9), ("mt", 0), ("x", 3)]),
    "gravity": ("g_NE", 7, [("q", 7), ("g", 3), ("mt", 0), ("x", 3)]),
}
STATE = {"q": "q", "dq": "dq", "i": "I_total", "mt": "m_total", "x": "F_x_Ctotal", "ee": "F_T_EE", "k": "EE_T_K", "gdef": "O_ddP_O"}


def name_const(t):
    """string constant inside an argument"""
    for x in sorted(subterms(t), key=lambda x: x.id):
        if x.op == "bytes":
            return x.a[0].rstrip(b"\0").decode("latin1") if isinstance(x.a[0], bytes) else None
        if x.op == "c" and x.sz <= 8 and x.a[0] > 255 and x.op == "c":
            b = x.a[0].to_bytes(x.sz, "little").rstrip(b"\0")
            if b.isascii() and b.decode().isprintable() and len(b) >= 3:
                return b.decode()
    return None


def symbol_table(cx):
    """memory offset inside the model object -> library symbol name"""
    cx.run("model_new")
    eng, rep = cx.eng, cx.rep
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    cells, _ = cx.payload("Ok")
    opens = [e for e in cx.events if "Library::open" in e.name or "Library::new" in e.name]
    model = [e for e in opens if mentions(e.deep[0], lambda t: t.op == "sym" and str(t.a[0]).startswith("*p"))]
    rep.check(len(model) == 1, "opens-model", "the given model file is opened", str(opens))
    tab = {}
    for o, t in cells:
        v = value_under(eng, t, okc)
        i = ev_id(v)
        e = eng.events.get(i) if i is not None else None
        if e is None or "Library::get" not in e.name:
            continue
        n = name_const(e.deep[1])
        lib = [ev_id(x) for x in subterms(e.deep[0]) if ev_id(x) is not None]
        rep.check(bool(model) and model[0].id in lib, "library-of:%s" % n, "symbol %s is looked up in the model library" % n, lambda: show(e.deep[0], 4))
        c = ieq(SEL(e.ret, 0, 8), C(8, 0)) if e.ret.sz > 8 else ONE
        tab[o] = n
    exc = cx.exception()
    for k, c in exc.items():
        if k != "ModelException":
            rep.check(expand(eng, band(c, cx.st.pc)) is ZERO, "only-ModelException:" + k, "loading problems are reported as ModelException")
    # Ok only if every library call succeeded
    for e in cx.events:
        if e.kind == "effect" and "Library::" in e.name and e.ret is not None:
            ok = variant_cond(eng, e.retty, [(0, e.ret)], "Ok")[0]
            rep.check(under(ok, okc) is ONE, "needs:%s" % (name_const(e.deep[1]) or e.id), "the model is handed out only if this load step succeeded", where(e))
    return tab


def called(e, tab):
    """symbol called by a foreign call event"""
    ft = e.inst["fn"] if isinstance(e.inst, dict) else None
    offs = set()
    for x in subterms(ft):
        if x.op == "sel" and x.a[0].op == "sym" and x.a[0].a[0] == "*m":
            offs.add(x.a[1])
    return ft, offs


def model_rule(cx):
    eng, rep = cx.eng, cx.rep
    base = cx.root[len("model_"):]
    tab = symbol_table(cx)
    want = {"M_NE", "c_NE", "g_NE"} | {p + str(i) for p, _ in PREFIX.values() for i in range(1, 10)}
    rep.check(set(tab.values()) >= want, "symbols", "all model functions are loaded", str(want - set(tab.values())))
    cx.run()
    calls = [e for e in cx.events if e.kind == "callback"]
    derefs = {e.id: e for e in cx.events if e.kind == "effect" and "Symbol" in e.name}
    st = base.endswith("_from_state")
    op = base[:-len("_from_state")] if st else base
    A = {}
    for n, (v, ty) in eng.rootargs.items():
        t = eng.tys[ty]
        if t["k"] in ("ref", "ptr"):
            A[n] = SYM("*" + n, eng.size(t["e"]))
        elif v:
            A[n] = v[0][1]
    if st:
        sty = ty_by_name(eng, "franka::RobotState") or ty_by_def(eng, "::RobotState")
        for k, f in STATE.items():
            fl = [x for x in eng.tys[sty]["fields"] if x[2] == f]
            A[k] = SEL(A["s"], fl[0][0], eng.size(fl[0][1])) if fl else UNDEF
    num = Num()

    def fn_of(e, cond):
        ft = restrict(expand(eng, e.inst["fn"]), cond)
        for x in subterms(ft):
            i = ev_id(x)
            if i in derefs:
                d = restrict(expand(eng, derefs[i].deep[0]), cond)
                if d.op == "sel" and d.a[0].op == "sym" and d.a[0].a[0] == "*m":
                    return tab.get(d.a[1])
        for x in subterms(ft):
            if x.op == "sel" and x.a[0].op == "sym" and x.a[0].a[0] == "*m":
                return tab.get(x.a[1])
        return None

    def check_call(key, cond, sym, args, nout):
        act = [e for e in calls if restrict(e.pc, cond) is not ZERO]
        if not rep.check(len(act) == 1 and restrict(act[0].pc, cond) is ONE, key + ":one-call", "exactly one model function is evaluated", lambda: ", ".join(where(e) for e in act)):
            return
        e = act[0]
        f = fn_of(e, cond)
        rep.check(f == sym, key + ":symbol", "the model function is %s" % sym, "found %s at %s" % (f, where(e)))
        if not rep.check(len(e.deep) == len(args) + 1, key + ":arity", "%s takes %d arguments" % (sym, len(args) + 1)):
            return
        for (n, k, t), d in zip(args, e.deep):
            d = piecewise(expand(eng, d), lambda p: restrict(p, cond))
            if k == 0:
                ok = restrict(d, cond) is t
            else:
                ok = True
                for i in range(k):
                    x = restrict(SEL(d, 8 * i, 8), cond)
                    y = t(i) if callable(t) else restrict(SEL(t, 8 * i, 8), cond)
                    ok = ok and (x is y or num(x) == num(y))
            rep.check(ok, key + ":arg:" + n, "%s receives %s" % (sym, n), lambda: show(d, 5))
        out = eng.sval(cx.rv, eng.size(cx.retty))
        rep.check(eng.size(cx.retty) == 8 * nout, key + ":size", "%s fills %d numbers" % (sym, nout))
        ev = mk("ev", 0, e.key, e.name)
        o = mk("out", 8 * nout, ev, len(args))
        ok = all(restrict(expand(eng, SEL(out, 8 * i, 8)), cond) is SEL(o, 8 * i, 8) for i in range(nout))
        rep.check(ok, key + ":result", "the result is what %s wrote" % sym, lambda: show(out, 5))

    if op in PREFIX:
        pre, n = PREFIX[op]
        fty = eng.tys[eng.rootargs["f"][1]]["e"]
        fv = [(0, A["f"])]
        names = [v["n"] for v in eng.tys[fty]["variants"]]
        rep.check(sorted(names) == sorted(FRAMES), "frames", "all frames are covered", str(names))
        for i, fr in enumerate(FRAMES):
            c = variant_cond(eng, fty, fv, fr)[0]
            args = [("q", 7, A["q"])]
            if op != "pose" and fr == "Joint1":
                args = []
            if fr == "EndEffector":
                args.append(("F_T_EE", 16, A["ee"]))
            if fr == "Stiffness":
                ee, k = A["ee"], A["k"]

                def prod(j, ee=ee, k=k):
                    r, col = j % 4, j // 4
                    t = None
                    for m in range(4):
                        x = TM.fbin("fmul", SEL(ee, 8 * (4 * m + r), 8), SEL(k, 8 * (4 * col + m), 8))
                        t = x if t is None else TM.fbin("fadd", t, x)
                    return t
                args.append(("F_T_EE * EE_T_K", 16, prod))
            check_call(fr, c, pre + str(min(i + 1, 9)), args, n)
    else:
        sym, n, spec = SINGLE[op]
        if op == "gravity":
            gty = eng.rootargs["g"][1]
            gv = eng.rootargs["g"][0]
            none = variant_cond(eng, gty, gv, "None")[0]
            p, _ = cx.payload("Some", gv, gty)
            given = mk("deref", -1, p[0][1])
            dflt = A.get("gdef") if st else None
            for nm, c in (("given", bnot(none)), ("default", none)):
                def g(j, nm=nm):
                    if nm == "given":
                        return SEL(given, 8 * j, 8)
                    return SEL(dflt, 8 * j, 8) if st else F([0.0, 0.0, -9.81][j])
                check_call(nm, c, sym, [(a, k, g if a == "g" else A[a]) for a, k in spec], n)
        else:
            check_call("call", ONE, sym, [(a, k, A[a]) for a, k in spec], n)


ROOTS = ["model_" + o + s for o in list(PREFIX) + list(SINGLE) for s in ("", "_from_state")]
PROPS["P19"] = Prop(
    ROOTS, model_rule, floor=400,
    rule_text="value-flow: the model object's fields are tied to the library symbols they were loaded from; for every query and every frame exactly one "
    "foreign function is called, it is the one the query documents, each argument equals the caller's value (or the named field of the state), and the result array is what it wrote.",
)
