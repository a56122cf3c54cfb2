"""P20 loading the model: download, file, library."""
from base import *  # noqa
from props import PROPS, Prop
from commands import compare_wire, decoded, response_is_own, HEADER, texts, args_of
from net import outcome
from misc import Quiet, Sub

FILE = "/tmp/model.so"


def path_of(e):
    tx = []
    for d in list(e.deep) + [t for a in e.args for _, t in a]:
        tx += texts(d)
    return tx


def is_err(eng, e):
    return variant_cond(eng, e.retty, [(0, e.ret)], "Err")[0]


def view(t):
    """(base, offset, length) of a byte sequence"""
    if t.op == "slice":
        b, o, n = view(t.a[0])
        return b, iadd(o, t.a[1]), t.a[2]
    if t.op == "prefix":
        b, o, n = view(t.a[0])
        return b, o, t.a[1]
    return t, C(8, 0), None


def load_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    okc, exc = outcome(cx)
    for p in cx.events:
        if p.kind == "panic" and not p.loops:
            okc = band(okc, bnot(expand(eng, p.pc)))
    ev = [e for e in cx.events if e.kind == "effect"]
    fs = [e for e in ev if re.search(r"std::fs::|std::path::Path::(exists|try_exists|is_file|metadata)", e.name)]
    pth = lambda e: FILE in path_of(e)
    onfile = lambda e: "std::fs::File as" in e.name
    rep.check(all(pth(e) or onfile(e) for e in fs), "only-this-file", "no other file is touched", lambda: "; ".join("%s %s" % (where(e), path_of(e)) for e in fs if not pth(e)))
    have = [e for e in fs if re.search(r"Path::(exists|is_file)$|fs::exists", e.name)]
    if not rep.check(len(have) == 1 and have[0].pc is ONE, "looks", "looks whether the model was stored before", str([e.name for e in fs])):
        return
    present = TM.is_true(have[0].ret)
    # ---- the request
    sends = [e for e in ev if is_tcp_send(e)]
    s = sent(eng, sends[0]) if len(sends) == 1 else None
    if not rep.check(s is not None and s[2] and not sends[0].loops, "one-request", "one complete request"):
        return
    spc = expand(eng, sends[0].pc)
    rep.check(band(spc, present) is ZERO, "no-download", "nothing is downloaded if the model is stored already", lambda: show(spc, 5))
    rep.check(conj(okc, bnot(present), bnot(spc)) is ZERO, "download", "a model that is not stored is downloaded", lambda: show(spc, 5))
    cid = wire_value(eng, s[0], s[1], 4, 4)
    compare_wire(cx, s[0], s[1], [(0, 4, C(4, 13)), (4, 4, cid), (8, 4, C(4, 14)), (12, 1, C(1, 0)), (13, 1, C(1, 0))], "request")
    # ---- the response
    lib = [e for e in ev if "Library::open" in e.name or "Library::new" in e.name]
    mod = [e for e in lib if pth(e)]
    rep.check(len(mod) == 1 and not mod[0].loops, "library", "the library is loaded from the file", str([path_of(e) for e in lib]))
    if not mod:
        return
    opc = expand(eng, mod[0].pc)
    ds = [d for d in decoded(cx, okc, opc, *[expand(eng, e.pc) for e in fs]) if wire(eng, d.a[0]) and wire(eng, d.a[0])[0] == 13]
    own = [d for d in ds if response_is_own(Sub(cx, Quiet()), d, expand(eng, cid), "")]
    if not rep.check(len(own) == 1, "own-response", "the response is the one filed under this request's id", ", ".join(show(d, 4) for d in ds)):
        return
    de = own[0]
    lay = [x for x in wire(eng, de.a[0])[1] if x[0] == 12][0]
    bad = bnot(ieq(SEL(de, lay[2], lay[1]), C(lay[1], 0)))
    missing = bnot(present)
    model = exc["ModelException"]
    c = conj(spc, bad)
    rep.check(band(okc, c) is ZERO and conj(opc, c) is ZERO, "refused", "a refused download loads nothing", lambda: show(band(opc, c), 5))
    rep.check(band(model, c) is not ZERO, "refused-error", "a refused download is a model error")
    # ---- the file
    mk_ = [e for e in fs if re.search(r"fs::File::create", e.name)]
    wr = [e for e in fs if re.search(r"io::Write>::write_all$|fs::write\b|fs::write::", e.name)]
    other = [e for e in fs if e not in mk_ and e not in wr and e not in have and not re.search(r"fs::remove_file|Write>::flush|File::sync_", e.name)]
    rep.check(not other, "known-operations", "the file is written completely or not at all", "; ".join(e.name for e in other))
    if not rep.check(len(wr) == 1 and not wr[0].loops, "one-write", "the library is written once", str([e.name for e in fs])):
        return
    w = wr[0]
    if onfile(w):
        rep.check(len(mk_) == 1 and any(mentions(d, lambda x: x is mk_[0].ret) for d in w.deep), "into-the-file", "written into the created file", where(w))
    wpc = expand(eng, w.pc)
    rep.check(band(wpc, bad) is ZERO, "write-success", "only the data of a successful response is written", lambda: show(wpc, 4))
    rep.check(band(wpc, present) is ZERO, "write-absent", "a stored model is not overwritten")
    rep.check(conj(opc, missing, bnot(wpc)) is ZERO, "write-before-load", "a downloaded library is written before it is loaded", lambda: show(opc, 4))
    for e in mk_ + wr:
        er = band(is_err(eng, e), expand(eng, e.pc))
        k = "create" if e in mk_ else "write"
        rep.check(band(okc, er) is ZERO and band(opc, er) is ZERO, k + "-fails", "a file that cannot be written is not loaded", where(e))
        rep.check(band(model, er) is not ZERO, k + "-error", "a file that cannot be written is a model error", where(e))
        rep.check(e.id < mod[0].id, k + "-order", "the file is written before it is loaded", where(e))
    # content: everything behind the fixed part of the response
    data = [(w.info or {}).get(i, d) for i, d in enumerate(w.deep) if i]
    b, o, n = view(expand(eng, data[-1])) if data else (None, None, None)
    src = [x for x in ((de.a[1].a[0] if de.a[1].op in ("sel", "slice") else de.a[1]),)]
    rb = view(src[0])[0]
    rep.check(b is not None and b is rb, "content", "the bytes written are those of this response", lambda: "%s / %s" % (show(b, 5), show(rb, 5)))
    if b is not None and n is not None:
        ln = content_len(b)
        rep.check(expand(eng, o) is C(8, 13) and ln is not None and expand(eng, iadd(n, C(8, 13))) is expand(eng, ln), "content-range", "the bytes written are all bytes behind the fixed part",
                  lambda: "from %s, %s bytes" % (show(o, 4), show(n, 5)))
    else:
        rep.check(False, "content-range", "the bytes written are all bytes behind the fixed part", "not a part of the response")
    # ---- the library is loaded, the file kept or not
    rep.check(conj(okc, bnot(opc)) is ZERO, "loaded", "a model is returned only if the library was loaded", lambda: show(okc, 4))
    rep.check(conj(okc, is_err(eng, mod[0])) is ZERO and band(model, is_err(eng, mod[0])) is not ZERO, "load-fails", "a library that cannot be loaded is a model error")
    keep = TM.is_true([t for k, t, _ in args_of(cx) if k == "persistent"][0])
    rm = [e for e in fs if "fs::remove_file" in e.name]
    if rep.check(len(rm) >= 1, "removes", "the file can be removed"):
        gone = ZERO
        for e in rm:
            p = expand(eng, e.pc)
            rep.check(band(p, keep) is ZERO, "kept", "a persistent model is kept", where(e))
            rep.check(e.id > mod[0].id, "removed-later", "the file is removed after the library was loaded", where(e))
            gone = bor(gone, band(p, bnot(is_err(eng, e))))
        rep.check(conj(okc, bnot(keep), bnot(gone)) is ZERO, "removed", "a model that is not persistent does not stay", lambda: show(conj(okc, bnot(keep), bnot(gone)), 4))
    for k, x in exc.items():
        if k not in ("ModelException", "NetworkException"):
            rep.check(x is ZERO, "no:" + k, "no other kind of error is returned", lambda: show(x, 4))


def content_len(b):
    """length of the byte vector whose buffer is b"""
    if b.op == "deref" and b.a[0].op == "sel" and b.a[0].sz == 8:
        return SEL(b.a[0].a[0], b.a[0].a[1] + 8, 8)
    return None


PROPS["P20"] = Prop(
    ["robot_load_model"], load_rule, floor=35,
    rule_text="conditions and order of the file, library and network operations of load_model against each other and against the outcome; request bytes; the bytes written against the bytes of the response.",
)
