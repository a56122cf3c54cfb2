"""P15 the log of a control error."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
from models import Policy
from control import innermost
from lifecycle import Life, drop_ovf
from state import fields_of, robot_state_ty
from numeric import same_number
from control import KIND, FIELD

RECORD = {"joint_positions": "JointPositions", "joint_velocities": "JointVelocities", "cartesian_pose": "CartesianPose", "cartesian_velocities": "CartesianVelocities", "torques": "Torques"}


def policy(root):
    return Policy(pure_ret=("franka::robot::errors::FrankaErrors",), effect_name=r"Vec::<franka::robot::logger::Record>::push$")


def queue(e):
    """(which queue, operation) of a queue event"""
    m = re.search(r"VecDeque::<(.*?)>::(\w+)|<std::collections::VecDeque<(.*?)> as std::ops::Index<usize>>::(index)$", e.name)
    if e.kind != "effect" or not m:
        return None
    if m.group(4):
        return ("state" if m.group(3).endswith("RobotState") else "command"), "get"
    return ("state" if m.group(1).endswith("RobotState") else "command" if m.group(1).endswith("RobotCommand") else m.group(1)), m.group(2)


def put(c, sub):
    return rewrite(c, lambda t: None, dict(sub))


class Log:
    def __init__(self, cx):
        self.lf = Life(cx)
        self.ok = self.lf.ok
        if not self.ok:
            return
        self.cx, self.eng, self.rep, self.ctl = cx, cx.eng, cx.rep, self.lf.ctl
        self.q = [(e,) + queue(e) for e in cx.events if queue(e)]
        self.ptr = {}
        for e, w, op in self.q:
            self.ptr.setdefault(w, set()).add(expand(self.eng, e.args[0][0][1]))

    def of(self, which, op):
        return [e for e, w, o in self.q if w == which and o == op]

    def pc(self, e):
        return expand(self.eng, e.pc)


def log_rule(cx):
    lg = Log(cx)
    if not lg.ok:
        return
    eng, rep, ctl, lf = lg.eng, lg.rep, lg.ctl, lg.lf
    if not rep.check(set(lg.ptr) == {"state", "command"} and all(len(p) == 1 for p in lg.ptr.values()), "queues", "states and commands are logged in one queue each", str({k: len(v) for k, v in lg.ptr.items()})):
        return
    known = {"push_back", "pop_front", "get", "clear", "len", "is_empty", "with_capacity", "new", "iter", "drain", "truncate"}
    rep.check(all(o in known for _, _, o in lg.q), "operations", "the queues are filled at the back and emptied at the front", ", ".join(sorted({o for _, _, o in lg.q} - known)))
    cnt = {}
    for loop in sorted({innermost(e) for e, _ in ctl.sends}, key=lambda l: (l is None, l)):
        name = "main" if loop == ctl.loop else "finish"
        sends = [(e, s) for e, s in ctl.sends if innermost(e) == loop]
        st, cm = ([e for e in lg.of(w, "push_back") if innermost(e) == loop] for w in ("state", "command"))
        if not rep.check(len(st) == 1 and len(cm) == 1, name + "/record", "every command sent is logged with the state that follows", "%d states, %d commands" % (len(st), len(cm))):
            return
        st, cm = st[0], cm[0]
        a, b = lg.pc(st), lg.pc(cm)
        rep.check(band(a, bnot(b)) is ZERO and band(b, bnot(a)) is ZERO, name + "/pair", "a state is logged exactly if its command is", where(st))
        send = ZERO
        for e, s in sends:
            send = bor(send, lg.pc(e))
        rep.check(band(a, bnot(send)) is ZERO, name + "/sent", "only commands that were sent are logged", where(cm))
        if loop is None:
            # once, before the loop that waits for the robot to stop
            later = [innermost(e) for e, _ in ctl.sends if e.id > sends[0][0].id and e.loops]
            heads = [expand(eng, eng.events[eng.loop_info[l]["head"]].pc) for l in later]
            rep.check(len(sends) == 1 and heads and all(band(h, bnot(a)) is ZERO for h in heads), name + "/once/every", "every command sent is logged before the next round", where(cm))
            content(lg, name + "/once", sends, st, cm, loop)
            cnt[None] = dict(cnt[ctl.loop], push=st)
            continue
        back = expand(eng, eng.loop_info[loop]["back_pc"])
        content(lg, name, sends, st, cm, loop)
        c = amount(lg, name, loop, st, cm)
        if c is None:
            return
        skip = band(back, bnot(a))
        if skip is not ZERO and c["size"] is not None:
            skip = band(skip, bnot(ieq(c["size"], C(8, 0))))        # a log without room needs no entries
        for p in cx.events:
            if skip is not ZERO and p.kind == "panic" and innermost(p) == loop:
                skip = band(skip, bnot(lg.pc(p)))                   # a round that panics is not followed by another
        rep.check(skip is ZERO, name + "/every", "every command sent is logged before the next round", where(cm))
        cnt[loop] = c
    extra = [e for e, w, o in lg.q if o == "push_back" and innermost(e) not in cnt]
    rep.check(not extra, "no-other", "nothing else is logged", "; ".join(where(e) for e in extra))
    begins(lg, cnt)
    flushes(lg, cnt)


def same_bytes(eng, a, b):
    """equal, also if one of them was put together from pieces"""
    if a is b:
        return True
    a, b = expand(eng, a), expand(eng, b)
    if a is b:
        return True
    cuts = {0, a.sz}
    for t in (a, b):
        if t.op == "cat":
            cuts |= {o for o, _ in t.a[0]} if isinstance(t.a[0], tuple) and t.a[0] and isinstance(t.a[0][0], tuple) else {p[0] for p in t.a if isinstance(p, tuple)}
    cuts = sorted(cuts)
    return all(SEL(a, i, j - i) is SEL(b, i, j - i) for i, j in zip(cuts, cuts[1:]))


def content(lg, name, sends, st, cm, loop):
    eng, rep, ctl = lg.eng, lg.rep, lg.ctl
    ety = ctl.sends[0][1][0]
    n = eng.size(ty_by_name(eng, ety))
    got = CAT(cm.args[1], n)
    for w, sz, mem, ty in wire(eng, ety)[1]:
        want = None
        for e, s in sends:
            v = wire_value(eng, s[0], s[1], w, sz)
            want = v if want is None else ite(e.pc, v, want)
        g, x = restrict(SEL(got, mem, sz), cm.pc), restrict(want, cm.pc)
        rep.check(same_bytes(eng, g, x) or (sz == 8 and same_number(restrict(expand(eng, g), lg.pc(cm)), restrict(expand(eng, x), lg.pc(cm)))), "%s/command:%d" % (name, w), "the logged command is the command sent (byte %d)" % w,
                  lambda: "%s / %s" % (show(g, 5), show(x, 5)))
    # the state: the one datagram that was received after the command was sent
    off, ty = fields_of(eng, robot_state_ty(eng))["q"]
    b = CAT(st.args[1], eng.size(robot_state_ty(eng)))
    sigs = ctl.dg.sigs(ctl.dg.absorb(restrict(SEL(b, off, eng.size(ty)), st.pc)))
    if not rep.check(len(sigs) == 1, name + "/state", "the logged state is one received state", "; ".join(show(x, 4) for x in sigs)):
        return
    sig = next(iter(sigs))
    for f, (o, ty) in fields_of(eng, robot_state_ty(eng)).items():
        if eng.tys[ty]["k"] in ("array", "float"):
            t = ctl.dg.absorb(restrict(SEL(b, o, eng.size(ty)), st.pc))
            rep.check(ctl.dg.sigs(t) <= {sig}, "%s/state:%s" % (name, f), "all fields of the logged state stem from that state", lambda: show(t, 4))
    cur = ctl.cur.a[0]
    if name == "main":
        ok = cur.op == "dgmu" and cur.a[0] == ctl.loop and (sig is cur.a[2] or sig is restrict(cur.a[2], st.pc))
        rep.check(ok, name + "/next-state", "the logged state is the one received after the command was sent", lambda: show(sig, 5))
    else:
        ok = any(e.id > min(x.id for x, _ in sends) and (loop is None or e.loops[:1] == sends[0][0].loops[:1]) and mentions(sig, lambda y: y.op == "out" and y.a[0].op == "ev" and y.a[0].a[0] == e.key) for e in lg.cx.events if e.kind == "effect" and "recv" in e.name)
        rep.check(ok, name + "/next-state", "the logged state is received after the command was sent", lambda: show(sig, 5))


SAMPLES = [(n, size) for size in range(5) for n in range(size + 1)] + [(n, size) for size in (9, 50, 1000) for n in (0, 1, 7, size // 2, size - 1, size)]


def robot_words(c):
    return {t for t in subterms(c) if t.sz == 8 and t.op == "sel" and t.a[0].op == "sym" and str(t.a[0].a[0]).startswith("*")}


def counters(eng, c, loop):
    return {t for t in subterms(c) if t.op == "mu" and t.sz == 8 and t in eng.mu_next and t.a[0] == loop}


def field(eng, loop, a, o, size):
    return next((t for t in eng.mu_next if t.op == "mu" and t.a[0] == loop and t.a[1] == a and t.a[2] == o and t.sz == size), None)


def amount(lg, name, loop, st, cm):
    """one more entry, but never more than the log size: {"vars": the quantities that equal the number of entries, "size": ...}"""
    eng, rep = lg.eng, lg.rep
    push = lg.pc(st)
    back = expand(eng, eng.loop_info[loop]["back_pc"])
    todo, vars_, nexts = [], {}, {}
    for e, _, op in lg.q:
        if op == "get" and e.loops and innermost(e) != loop:
            h = expand(eng, eng.events[eng.loop_info[innermost(e)]["head"]].pc)
            todo += [("counter", c) for c in counters(eng, restrict(band(lg.pc(e), h), h), loop)]
    for w in ("state", "command"):
        a, o = ptr_parts(next(iter(lg.ptr[w])))
        ty = [e for e, x, _ in lg.q if x == w][0].argtys[0]
        o += [x for x, _, n in eng.tys[eng.tys[ty]["e"]]["fields"] if n == "len"][0]
        m = field(eng, loop, a, o, 8)
        if not rep.check(m is not None, "%s/%s/length" % (name, w), "the number of entries changes with every round"):
            return None
        todo.append((w, m))
    size = set()
    while todo:
        w, m = todo.pop()
        if m in vars_:
            continue
        vars_[m] = w
        nexts[m] = restrict(restrict(expand(eng, eng.mu_next[m]), back), push)
        size |= robot_words(nexts[m])
        todo += [("counter", c) for c in counters(eng, nexts[m], loop)]
    if not rep.check(len(size) <= 1, name + "/full", "whether the log is full depends on its size and the number of entries only", lambda: str([show(x) for x in size])):
        return None
    L = next(iter(size)) if size else None
    for m, w in sorted(vars_.items(), key=lambda x: (x[1], str(x[0]))):
        for n, k in SAMPLES:
            sub = {v: C(8, n) for v in vars_}
            sub[L] = C(8, k)
            x = put(nexts[m], sub)
            if k == 0 and x is not C(8, 0):
                x = put(restrict(expand(eng, eng.mu_next[m]), back), sub)
            rep.check(x is C(8, min(n + 1, k)), "%s/%s/%d-of-%d" % (name, w, n, k), "with %d of %d entries one more leaves %d" % (n, k, min(n + 1, k)), lambda: show(x, 4))
    return {"vars": set(vars_), "size": L, "push": st}


def begins(lg, cnt):
    """no entries of earlier motions"""
    eng, rep, ctl = lg.eng, lg.rep, lg.ctl
    entry = expand(eng, eng.events[eng.loop_info[ctl.loop]["head"]].pc)
    main = cnt[ctl.loop]["vars"]
    for k, m in enumerate(sorted(main, key=str)):
        i = restrict(expand(eng, eng.mu_init[m]), entry)
        rep.check(i is C(8, 0), "begin/%d" % k, "a motion begins with an empty log", lambda: show(i, 4))
    for loop, c in cnt.items():
        if loop is not None and loop != ctl.loop:
            e2 = expand(eng, eng.events[eng.loop_info[loop]["head"]].pc)
            for k, m in enumerate(sorted(c["vars"], key=str)):
                i = restrict(expand(eng, eng.mu_init[m]), e2)
                if None in cnt:
                    w = next((x for x in main if x.a[1:] == m.a[1:]), None)
                    for n, z in SAMPLES:
                        x = put(i, {**{v: C(8, n) for v in main}, cnt[None]["size"]: C(8, z)}) if w is not None else i
                        rep.check(x is C(8, min(n + 1, z)), "finish/once/%d/%d-of-%d" % (k, n, z), "with %d of %d entries one more leaves %d" % (n, z, min(n + 1, z)), lambda: show(x, 4))
                    continue
                rep.check(all(x in main and x.a[1:] == m.a[1:] for x in leaves(i)), "finish/count/%d" % k, "finishing continues the log", lambda: show(i, 5))


def flushes(lg, cnt):
    """the records of an error"""
    eng, rep, ctl, lf = lg.eng, lg.rep, lg.ctl, lg.lf
    first = min(x.e.id for x in ctl.calls)
    cells, ety = lg.cx.payload("Err")
    v = [x for x in eng.tys[ety]["variants"] if x["n"] == "ControlException"][0]
    off, oty = [(f[0], f[1]) for f in v["fields"] if f[2] == "log"][0]
    log = sub_cells(cells, off, eng.size(oty))
    ce = expand(eng, lf.exc["ControlException"])
    if not rep.check(len(lf.stops) == 1, "stop", "an error of the motion stops it"):
        return
    entry = expand(eng, eng.events[eng.loop_info[ctl.loop]["head"]].pc)
    at = conj(ce, drop_ovf(lf.cond(lf.stops[0][0])), entry)
    rep.check(at is not ZERO, "control-error", "a motion in progress can end with a control error")
    made = {}
    for p in lg.cx.events:
        if p.name.endswith("Record>::push"):
            t = expand(eng, p.args[0][0][1])
            if t.op == "ptr":
                made[ptr_parts(t)[0]] = innermost(p)
    src = set()
    for o, t in log:
        for x in leaves(live_value(eng, t, at) or t):
            y = x.a[0] if x.op == "sel" else x
            ok = y.op == "mu" and made.get(y.a[1]) == y.a[0]
            rep.check(ok, "has-log", "every control error of a motion in progress carries its records", lambda: show(x, 5))
            if ok:
                src.add(y.a[0])
    gets = [e for e in lg.of("command", "get") if e.id > first]
    if not gets:
        # not by index: the entries are taken one after the other
        other = [e for e, w, o in lg.q if o in ("iter", "into_iter", "drain", "pop_front") and e.id > first and innermost(e) not in cnt]
        rep.check(len(other) >= 2, "flush", "the entries of both queues are reported", "")
        for loop in sorted(src):
            record(lg, "error", loop, None, None)
        return
    groups = {}
    for e in gets + [e for e in lg.of("state", "get") if e.id > first]:
        groups.setdefault(innermost(e), {}).setdefault(queue(e)[0], []).append(e)
    used = set()
    for loop, g in sorted(groups.items(), key=lambda x: min(e.id for v in x[1].values() for e in v)):
        outer = g["command"][0].loops[:-1] if "command" in g else ()
        name = "error-in-motion" if outer else "error-at-end"
        if not rep.check(set(g) == {"state", "command"} and all(len(x) == 1 for x in g.values()), name + "/both", "a record consists of one command and one state", str({k: len(x) for k, x in g.items()})):
            continue
        cm, st = g["command"][0], g["state"][0]
        i, j = expand(eng, cm.args[1][0][1]), expand(eng, st.args[1][0][1])
        if not rep.check(i is j and i.op == "mu" and i in eng.mu_next and i.a[0] == loop, name + "/index", "of the same entry", lambda: "%s / %s" % (show(i, 4), show(j, 4))):
            continue
        li = eng.loop_info[loop]
        back = expand(eng, li["back_pc"])
        nx = restrict(expand(eng, eng.mu_next[i]), back)
        rep.check(expand(eng, eng.mu_init[i]) is C(8, 0) and nx is iadd(i, C(8, 1)), name + "/order", "oldest first", lambda: "from %s, then %s" % (show(eng.mu_init[i], 3), show(nx, 4)))
        # all entries: the loop runs while the index is below the number of entries
        rets = {}
        for e in (cm, st):
            rets[e.ret] = C(8, 8)
        head = expand(eng, eng.events[li["head"]].pc)
        go = {e: restrict(band(lg.pc(e), head), head) for e in (cm, st)}
        done = False
        for lp, c in cnt.items():
            if lp is None or not c["vars"] & set(subterms(go[cm])):
                continue
            done = True
            after = c["push"].loops and c["push"].loops[-1] in cm.loops and c["push"].id < cm.id
            for n, size in SAMPLES:
                    have = min(n + 1, size) if after else n
                    for k in sorted({0, 1, 2, have // 2, have - 1, have, have + 1} - {-1}):
                        sub = {v: C(8, n) for v in c["vars"]}
                        sub.update({c["size"]: C(8, size), i: C(8, k)})
                        sub.update(rets)
                        for e in (cm, st):
                            x = put(go[e], sub)
                            rep.check(x is (ONE if k < have else ZERO), "%s/%s/%d-of-%d-in-%d" % (name, queue(e)[0], k, n, size), "entry %d is %s" % (k, "reported" if k < have else "not there"), lambda: show(x, 4))
        if not done:
            rep.check(False, name + "/all", "all entries are reported", lambda: show(go[cm], 4))
        record(lg, name, loop, cm, st)
        used.add(loop)
    rep.check(src and src <= used, "records", "the records are those of the log", str(sorted(src - used)))


def record(lg, name, loop, cm, st):
    eng, rep = lg.eng, lg.rep
    ps = [e for e in lg.cx.events if e.name.endswith("Record>::push") and innermost(e) == loop]
    if not rep.check(len(ps) == 1, name + "/push", "every entry gives one record", str(len(ps))):
        return
    p = ps[0]
    back = expand(eng, eng.loop_info[loop]["back_pc"])
    rep.check(band(back, bnot(lg.pc(p))) is ZERO, name + "/every-entry", "every entry gives a record", where(p))
    rty = p.inst["targs"][0]
    f = fields_of(eng, rty)
    b = CAT(p.args[1], eng.size(rty))
    def stems(key, off, what, want, text):
        """the bytes at off stem from one logged value, at the offset the field has there"""
        g = expand(eng, restrict(SEL(b, off, want[1]), p.pc))
        if not rep.check(g.op == "sel", "%s/%s" % (name, key), text, lambda: show(g, 5)):
            return
        base = g.a[0]
        got = base_of.setdefault(what, (base, g.a[1] - want[0]))
        ok = got == (base, g.a[1] - want[0])
        ev = {x.a[0]: x.a[1] for x in subterms(base) if x.op == "ev"}
        e = st if what == "state" else cm
        if e is not None:
            ok = ok and base.op == "deref" and expand(eng, base.a[0]) is expand(eng, e.ret) and g.a[1] == want[0]
        else:
            ok = ok and any(("RobotState" if what == "state" else "RobotCommand") in n and "back" not in n for n in ev.values())
        rep.check(ok, "%s/%s" % (name, key), text, lambda: show(g, 5))

    for e in lg.cx.events:
        if e.name.endswith("__iterator_get_unchecked") and innermost(e) == loop:
            i = expand(eng, e.args[1][0][1])
            ok = i in eng.mu_next and expand(eng, eng.mu_init[i]) is C(8, 0) and restrict(expand(eng, eng.mu_next[i]), back) is iadd(i, C(8, 1))
            rep.check(ok, name + "/order", "oldest first", lambda: show(i, 4))
    base_of = {}
    so, sty = f["state"]
    for n, (o, ty) in fields_of(eng, sty).items():
        if eng.tys[ty]["k"] in ("array", "float", "bool", "int"):
            stems("state:" + n, so + o, "state", (o, eng.size(ty)), "the record holds the logged state")
    co, cty = f["command"]
    lay = {w: (m, sz) for w, sz, m, _ in wire(eng, lg.ctl.sends[0][1][0])[1]}
    for n, (o, ty) in fields_of(eng, cty).items():
        kind = RECORD[n]
        fo, fty = fields_of(eng, ty)[KIND[kind][0]]
        w, cntf = FIELD[KIND[kind][1]]
        for k in range(cntf):
            stems("%s[%d]" % (n, k), co + o + fo + 8 * k, "command", (lay[w + 8 * k][0], 8), "the record holds the command that was sent")


PROPS["P15"] = Prop(CONTROL, log_rule, policy=policy, floor=1000,
    rule_text="value-flow: every round that sends a command adds exactly that command and the state received next to the log's two queues; the conditions of dropping the oldest and the entry counter, partially evaluated, keep the last "
              "min(n, size) entries; the log is emptied before the first round; an error reports all entries in order, field by field.")
