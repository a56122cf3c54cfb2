"""P05: states are used in increasing order, and commands answer the newest one."""
from base import *  # noqa
from props import PROPS, Prop, CONTROL
from dgram import Dg, NONE, SELF
from state import robot_state_ty, fields_of, STATE

COMMANDS = ["robot_set_load", "robot_set_collision_behavior", "robot_set_joint_impedance", "robot_set_cartesian_impedance", "robot_set_guiding_mode",
            "robot_set_K", "robot_set_EE", "robot_set_filters", "robot_automatic_error_recovery", "robot_stop", "robot_get_virtual_wall",
            "robot_set_default_behavior"]


def mid_offsets(cx):
    """where a robot remembers the message id of the newest state: found in the value Robot::new returns"""
    cx.run("robot_new")
    eng = cx.eng
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    cells, _ = cx.payload("Ok")
    dg = Dg(eng)
    out = []
    for o, t in cells:
        if t.sz != 8:
            continue
        v = value_under(eng, t, okc)
        x = dg.absorb(v)
        if x.op == "sel" and x.a[0].op == "state" and x.a[1] == 0 or (v.op == "sel" and v.a[0].op == "de" and v is wire_field(eng, v.a[0].a[0], v.a[0], 0, 8)):
            out.append(o)
    return out


class Fresh:
    def __init__(self, cx, dg, mids, recv="r"):
        self.cx, self.eng, self.dg, self.mids, self.recv = cx, cx.eng, dg, mids, recv
        self.trail = []
        self.facts = []
        self.stack = []

    def id_of(self, sig):
        return SEL(self.dg.state(sig), 0, 8)

    def is_mid(self, b):
        """b: the robot's remembered message id at some point"""
        x, off = (b.a[0], b.a[1]) if b.op == "sel" else (b, 0)
        if x.op == "sym" and x.a[0] == "*" + self.recv:
            return off in self.mids
        if x.op == "mu" and x.a[1] == ("P", self.recv):
            return x.a[2] + off in self.mids
        if x.op == "phi":
            k = x.a[1]
            return isinstance(k, tuple) and len(k) >= 2 and k[0] == ("P", self.recv) and isinstance(k[1], int) and k[1] + off in self.mids
        return False

    def strict(self, cond, sig, ids, mid_ok):
        """does cond imply id(sig) > one of ids (or the remembered id)"""
        want = self.id_of(sig)
        hit = ZERO
        conds = [cond]
        for i, c in enumerate([cond] + self.facts):
            for a in atoms_of(c):
                if a.op != "ult":
                    continue
                lo, hi = a.a
                if self.dg.absorb(hi) is not want:
                    continue
                if self.dg.absorb(lo) in ids or (mid_ok and self.is_mid(lo)) or self.tracks(lo):
                    hit = bor(hit, atom(a))
                    if i:
                        conds.append(c)
        if hit is ZERO:
            return False
        if under(hit, cond) is ONE:
            return True
        c = cond
        for x in conds[1:] + [f for f in self.facts if f not in conds]:
            c = band(c, x)
            if under(hit, c) is ONE:
                return True
            if TM_nodes(c) > 3000:
                break
        return False

    def tracks(self, b):
        """b: a loop-carried copy of the best id: starts as the bound, follows every acceptance"""
        eng = self.eng
        x, off = (b.a[0], b.a[1]) if b.op == "sel" else (b, 0)
        if not self.stack or x.op != "mu" or x not in eng.mu_next:
            return False
        D, ids, mid_ok = self.stack[-1]
        if x.a[0] != D.a[0]:
            return False
        i, n = SEL(eng.mu_init[x], off, b.sz), SEL(eng.mu_next[x], off, b.sz)
        if not ((mid_ok and self.is_mid(i)) or self.dg.absorb(i) in ids) or D.a[1] is not NONE:
            return False
        bc = eng.loop_info[D.a[0]]["back_pc"]
        for c, s in gated(D.a[2]):
            v = restrict(n, band(bc, c))
            if s in (SELF, NONE):
                ok = v is b
            else:
                ok = self.dg.absorb(v) is self.id_of(s)
            if not ok:
                return False
        return True

    def empty(self, cond, D):
        """does cond imply that no datagram has been accepted into D yet (Option niche marker or tag)"""
        none = ZERO
        for a in atoms_of(cond):
            if a.op not in ("eq", "is"):
                continue
            if a.op == "is":
                x, k = a.a[0], a.a[1]
            else:
                x, k = (a.a[0], a.a[1].a[0]) if a.a[1].op == "c" else (a.a[1], a.a[0].a[0]) if a.a[0].op == "c" else (None, None)
            if x is None:
                continue
            y = self.dg.absorb(x)
            if y.op == "sel" and y.a[0] is self.dg.state(D) and y.sz == 1 and k > 1:
                none = bor(none, atom(a))
            elif self.tag_none(x, k, D):
                none = bor(none, atom(a))
        return none is not ZERO and under(none, cond) is ONE

    def tag_none(self, x, k, D):
        """x: a tag carried by the loop of D that is k at entry and never k after an acceptance"""
        b, off = (x.a[0], x.a[1]) if x.op == "sel" else (x, 0)
        eng = self.eng
        if b.op != "mu" or b not in eng.mu_next or D.op != "dgmu" or b.a[0] != D.a[0]:
            return False
        i, n = SEL(eng.mu_init[b], off, x.sz), SEL(eng.mu_next[b], off, x.sz)
        if D.a[1] is not NONE or i is not C(x.sz, k):
            return False
        for c, s in gated(D.a[2]):
            if s is SELF or s is NONE:
                continue
            v = restrict(n, band(c, eng.loop_info[D.a[0]]["back_pc"]))
            if any(l.op != "c" or l.a[0] == k for l in leaves(v)):
                return False
        return True

    def prove(self, sig, cond, ids, mid_ok):
        if sig in (NONE, SELF) or cond is ZERO:
            return True
        if sig.op == "ite":
            return all(self.prove(s, band(cond, expand(self.eng, c)), ids, mid_ok) for c, s in gated(sig))
        if self.strict(cond, sig, ids, mid_ok):
            return True
        if sig.op == "dgmu":
            li = self.eng.loop_info.get(sig.a[0])
            head = self.eng.events.get(li["head"])
            hc = head.pc if head is not None else ONE
            hc = expand(self.eng, hc)
            bc = expand(self.eng, li["back_pc"])
            me = {self.id_of(sig)}
            if not self.prove(sig.a[1], hc, ids, mid_ok):
                return False
            self.stack.append((sig, ids, mid_ok))
            try:
                for c, s in gated(sig.a[2]):
                    c = band(bc, expand(self.eng, c))
                    if self.empty(c, sig):
                        ok = self.prove(s, c, ids | me, mid_ok)
                    else:
                        ok = self.prove(s, c, me, False)
                    if not ok:
                        return False
            finally:
                self.stack.pop()
            return True
        self.trail.append("%s accepted under %s" % (show(sig, 4), show(cond, 5)[:600]))
        return False


def TM_nodes(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.op == "ite" and x not in seen:
            seen.add(x)
            st += [x.a[1], x.a[2]]
    return len(seen)


def gated(s, c=ONE):
    """[(condition, leaf)] of a gated signature"""
    if s.op != "ite":
        return [(c, s)]
    g = atom(s.a[0])
    return gated(s.a[1], band(c, g)) + gated(s.a[2], band(c, bnot(g)))


def rule(cx):
    rep = cx.rep
    mids = mid_offsets(cx)
    if not rep.check(bool(mids), "remembered-id", "a connected robot remembers the message id of the newest state"):
        return
    cx.run()
    eng = cx.eng
    dg = Dg(eng)
    fr = Fresh(cx, dg, mids)
    ty = robot_state_ty(eng)
    ob = cx.st.mem.get(("P", "r")) if cx.st is not None else None
    # the remembered id only ever becomes the id of a received state
    for m in mids:
        t = cell(ob, m)
        if t is None:
            rep.ok("id-kept@%d" % m, "the remembered id is not changed")
            continue
        bad = []
        for x in origins(eng, t):
            de = x.a[0] if x.op == "sel" else None
            if de is not None and de.op == "sym" and de.a[0] == "*r" and x.a[1] == m:
                continue
            if de is not None and de.op == "de" and wire(eng, de.a[0]) and wire(eng, de.a[0])[0] == STATE and x is wire_field(eng, de.a[0], de, 0, 8):
                continue
            if de is not None and de.op == "undef" or x.op == "undef":
                continue
            bad.append(x)
        rep.check(not bad, "id-is-received@%d" % m, "the remembered id only ever becomes the message id of a received state", lambda: "; ".join(show(x, 6) for x in bad))
    if cx.root in COMMANDS:
        rep.check(not [e for e in cx.events if is_udp_recv(e) or is_udp_send(e)], "no-datagrams", "a command neither receives states nor sends motion data")
        return

    def fresh(sig, tag, what, cond=ONE):
        fr.trail = []
        fr.facts = call_facts(eng, cond)
        rep.check(fr.prove(sig, expand(eng, cond), set(), True), tag, what + " is newer than every state used before", lambda: " | ".join(fr.trail))

    if cx.root == "robot_read_once":
        cells, pty = cx.payload("Ok")
        okc = band(cx.variant("Ok"), cx.st.pc)
        off, fty = fields_of(eng, pty)["q"]
        v = dg.absorb(restrict(eng.sval(sub_cells(cells, off, 56), 56), okc))
        sg = dg.sigs(v)
        if rep.check(len(sg) == 1, "one-state", "one state is returned", lambda: show(v, 5)):
            sig = next(iter(sg))
            fresh(sig, "fresh", "the returned state", okc)
            leafs = {ev_id(x.a[0]) for x in subterms(sig) if x.op == "dg"}
            first = min([i for i in leafs if i is not None], default=0)
            drains = [l for l, li in eng.loop_info.items() if li["head"] in eng.events and li["head"] < first and not eng.events[li["head"]].loops
                      and any(l in e.loops and is_udp_recv(e) for e in cx.events) and not any(l in e.loops and e.key in leafs for e in cx.events)]
            rep.check(bool(drains), "waits", "datagrams queued before the call are discarded: the returned state arrived after it", "no loop discards queued datagrams before the first accepted one")
            for m in mids:
                t = cell(ob, m)
                x = dg.absorb(restrict(t, okc)) if t is not None else None
                rep.check(x is fr.id_of(sig), "remembered@%d" % m, "the remembered id becomes the id of the returned state", lambda: show(x, 6) if x is not None else "unchanged")
        return
    off, fty = fields_of(eng, ty)["q"]
    cbs = [e for e in cx.events if e.kind == "callback"]
    rep.check(bool(cbs), "callback", "the caller's function is called")
    cur = set()
    for k, e in enumerate(cbs):
        v = dg.absorb(restrict(SEL(e.deep[0], off, 56), e.pc))
        sg = dg.sigs(v)
        if rep.check(len(sg) == 1, "callback%d/one-state" % k, "the callback is given one state", lambda: show(v, 5)):
            sig = next(iter(sg))
            cur.add(sig)
            fresh(sig, "callback%d/fresh" % k, "the state given to the callback", e.pc)
            rep.check(sig.op == "dgmu" or cx.root == "robot_read", "callback%d/advances" % k, "every call gets a new state", lambda: show(sig, 5))
    if cx.root == "robot_read":
        return
    rep.check(len(cur) == 1, "same-state", "motion and torque callback of a step see the same state", lambda: "; ".join(show(x, 5) for x in cur))
    sends = [e for e in cx.events if is_udp_send(e)]
    rep.check(len(sends) >= 2, "sends", "commands are sent while moving and while finishing", str(len(sends)))
    main = 0
    for k, e in enumerate(sends):
        s = sent(eng, e)
        if not rep.check(s is not None and s[2] and wire(eng, s[0])[0] == 370, "send%d/command" % k, "a robot command is sent, whole", where(e)):
            continue
        x = dg.absorb(restrict(wire_value(eng, s[0], s[1], 0, 8), e.pc))
        sg = dg.sigs(x)
        if not rep.check(len(sg) == 1 and x is fr.id_of(next(iter(sg))), "send%d/echo" % k, "a command echoes the message id of one received state", lambda: "%s: %s" % (where(e), show(x, 6))):
            continue
        sig = next(iter(sg))
        if any(innermost(c) == innermost(e) for c in cbs):
            main += 1
            rep.check(sig in cur, "send%d/answers" % k, "a command carries the message id of the state it was computed from", lambda: show(sig, 6))
        fresh(sig, "send%d/newest" % k, "the answered state", e.pc)
        bad = []
        for d in e.deep[2:3]:
            for o in origins(eng, d):
                b = o.a[0] if o.op == "sel" else o
                if b.op in ("ret", "out") and any(ev_id(b) == r.key and is_udp_recv(r) for r in cx.events):
                    continue
                if b.op == "sym" and b.a[0] == "*r":
                    continue
                if b.op in ("undef",):
                    continue
                bad.append(o)
        rep.check(not bad and len(e.deep) >= 3, "send%d/address" % k, "a command goes to the sender of the states", lambda: "; ".join(show(x, 5) for x in bad))
    rep.check(main >= 1, "answers", "the loop that calls the callbacks sends their commands")


def innermost(e):
    return e.loops[-1] if e.loops else None


def cell(ob, m):
    if ob is None:
        return None
    for o, t in ob.cells.items():
        if o <= m and m + 8 <= o + t.sz:
            return SEL(t, m - o, 8)
    return None


PROPS["P05"] = Prop(
    ["robot_read_once", "robot_read"] + CONTROL + COMMANDS, rule, floor=150,
    rule_text="datagram provenance: inductive proof over the receive loops that a datagram is accepted only under a comparison showing its message id larger than the remembered id "
    "(or than the best one accepted so far), that the remembered id becomes the accepted id, and that every sent command carries the id of the state it was computed from and goes to the sender of the states.",
)
