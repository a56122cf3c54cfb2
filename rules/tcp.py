"""P06 reassembling the responses from the TCP stream.

The loop that takes bytes off the command connection is summarised by the engine as the values its variables have after one
round, in terms of those before it. The rule evaluates this summary over an abstract stream: numbers are linear forms over
quantities known to be >= 0, contents are ranges of the current message. Two states are considered: idle (what a round leaves
behind after it filed a message) and inside a message of which the first p bytes were taken. For each, and for every relation
between the bytes available and the bytes missing, one round must lead to the right one of the two states.
"""
from base import *  # noqa
from props import PROPS, Prop
from props import CONTROL
from commands import REQ
from net import results
from models import vec_offsets

DEV = {"robot_new": (12, 4, 8), "gripper_new": (10, 2, 6)}     # header length, offset of the id, offset of the size
TEXT = "responses are taken off the TCP stream whole: "
BIG = 1 << 63


class Lin:
    """constant + sum of coefficients * quantities (all quantities >= 0)"""
    __slots__ = ("k", "m")

    def __init__(self, k=0, m=None):
        self.k, self.m = k, {s: c for s, c in (m or {}).items() if c}

    def __add__(self, o):
        m = dict(self.m)
        for s, c in o.m.items():
            m[s] = m.get(s, 0) + c
        return Lin(self.k + o.k, m)

    def neg(self):
        return Lin(-self.k, {s: -c for s, c in self.m.items()})

    def __sub__(self, o):
        return self + o.neg()

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.m == o.m

    def __hash__(self):
        return hash((self.k, tuple(sorted(self.m.items()))))

    def atleast(self, n):
        return self.k >= n and all(c > 0 for c in self.m.values())

    def __repr__(self):
        return "+".join([str(self.k)] + ["%s%s" % ("" if c == 1 else "%d*" % c, s) for s, c in sorted(self.m.items())])


def lt(x, y):
    """x < y: True, False or None"""
    d = y - x
    return True if d.atleast(1) else False if d.neg().atleast(0) else None


def equal(x, y):
    d = x - y
    if not d.m:
        return d.k == 0
    return False if d.atleast(1) or d.neg().atleast(1) else None


class Bytes:
    """content: consecutive ranges [lo, hi) of the current message; None if it is anything else"""

    def __init__(self, segs):
        out = []
        for lo, hi in segs:
            if equal(lo, hi) is True:
                continue
            if out and equal(out[-1][1], lo) is True:
                out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        self.segs = out

    def length(self):
        n = Lin()
        for lo, hi in self.segs:
            n = n + (hi - lo)
        return n

    def cut(self, off, n):
        """n bytes from off on, or None"""
        out, at, end = [], Lin(), off + n
        for lo, hi in self.segs:
            nxt = at + (hi - lo)
            a = off if lt(at, off) is True else at if lt(at, off) is False else None
            b = end if lt(end, nxt) is True else nxt if lt(end, nxt) is False else None
            if a is None or b is None:
                return None
            if lt(a, b) is True:
                out.append((lo + (a - at), lo + (b - at)))
            elif lt(a, b) is None:
                return None
            at = nxt
        r = Bytes(out)
        return r if equal(r.length(), n) is True else None

    def __eq__(self, o):
        return isinstance(o, Bytes) and len(self.segs) == len(o.segs) and all(equal(a[0], b[0]) is True and equal(a[1], b[1]) is True for a, b in zip(self.segs, o.segs))

    def __repr__(self):
        return "message" + ",".join("[%r..%r]" % s for s in self.segs)


class Round:
    """evaluates the summary of one round of the reading loop"""

    def __init__(self, tc, state, avail, size, at):
        self.tc, self.eng, self.state, self.avail, self.size, self.pos = tc, tc.eng, state, avail, size, at
        self.reads = {}
        self.memo = {}
        self.why = None
        self.start = at
        self.run()

    def give(self, what):
        self.why = self.why or what

    def run(self):
        for e in self.tc.reads:
            c = self.holds(e.pc)
            if c is None:
                return self.give("whether %s reads is not decided: %s" % (where(e), show(expand(self.eng, e.pc), 6)))
            if not c:
                continue
            n = self.number(e.args[1][-1][1])
            if n is None:
                return self.give("how many bytes %s reads is not known" % where(e))
            self.reads[e.key] = (self.pos, self.pos + n)
            self.pos = self.pos + n
            self.memo = {}
        self.filed = []
        for e in self.tc.files:
            c = self.holds(e.pc)
            if c is None:
                return self.give("whether %s files a response is not decided: %s" % (where(e), show(expand(self.eng, e.pc), 6)))
            if c:
                _, po, lo = vec_offsets(self.eng, e.argtys[2])
                cells = dict(e.args[2])
                key, n = self.ev(e.args[1][0][1]), self.number(cells.get(lo))
                ptr = self.ev(cells[po]) if po in cells else None
                b = self.content(ptr)
                self.filed.append((e, key, n, b.cut(Lin(), n) if b is not None and n is not None else None))
        self.after = {v: self.ev(self.eng.mu_next[v]) for v in self.tc.vars}

    def holds(self, c):
        r = self.ev(expand(self.eng, c))
        return bool(r.k) if isinstance(r, Lin) and not r.m else None

    def number(self, t):
        r = self.ev(t) if t is not None else None
        return r if isinstance(r, Lin) else None

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        if t in self.state:
            return self.state[t]
        if t is self.tc.avail:
            return self.avail
        op = t.op
        if op == "c":
            return Lin(t.a[0] - (2 * BIG if t.a[0] >= BIG and t.sz == 8 else 0))
        if op == "ite":
            d = self.decide(t.a[0])
            if d is not None:
                return self.ev(t.a[1] if d else t.a[2])
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            return x if x == y else t
        if op in ("zext", "trunc", "sext"):
            x = self.ev(t.a[0])
            return x if isinstance(x, Lin) or isinstance(x, str) else t
        if op in ("add", "sub"):
            x, y = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(x, Lin) and isinstance(y, Lin):
                return x + y if op == "add" else x - y
            return t
        if op == "mul":
            x, y = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(x, Lin) and isinstance(y, Lin):
                for a, b in ((x, y), (y, x)):
                    if not a.m:
                        return Lin(a.k * b.k, {s: a.k * c for s, c in b.m.items()})
            return t
        if op == "out" and t.a[0].op == "ev" and t.a[0].a[0] in self.tc.read_ids:
            e = self.tc.read_ids[t.a[0].a[0]]
            if e.key in self.reads and t.a[1] == 1:
                return Bytes([self.reads[e.key]])
            return t
        if op in ("prefix", "slice", "append"):
            b = self.ev(t.a[0])
            if op == "prefix":
                o, n = Lin(), self.number(t.a[1])
            elif op == "slice":
                o, n = self.number(t.a[1]), self.number(t.a[2])
            else:
                o, n = Lin(), self.number(t.a[1])
                if n is not None and equal(n, Lin()) is True:
                    b = Bytes([])
            if not isinstance(b, Bytes) or o is None or n is None:
                return t
            x = b.cut(o, n)
            if x is None:
                return t
            if op == "append":
                y, n = self.ev(t.a[2]), self.number(t.a[3])
                y = y.cut(Lin(), n) if isinstance(y, Bytes) and n is not None else None
                if y is None:
                    return t
                x = Bytes(x.segs + y.segs)
            return x
        if op == "deref":
            b = self.content(self.ev(t.a[0]))
            return b if b is not None else t
        if op == "ptr":
            return t
        if op == "de":
            b = self.ev(t.a[1])
            w = wire(self.eng, t.a[0])
            if isinstance(b, Bytes) and w:
                return ("decoded", w, b)
            return t
        if op == "sel":
            x = self.ev(t.a[0])
            if isinstance(x, tuple) and x[0] == "decoded":
                for wo, sz, mo, _ in x[1][1]:
                    if mo <= t.a[1] and t.a[1] + t.sz <= mo + sz:
                        return self.field(x[2].cut(Lin(wo + t.a[1] - mo), Lin(t.sz)), t)
                return t
            if isinstance(x, Bytes):
                b = x.cut(Lin(t.a[1]), Lin(t.sz))
                return t if b is None else b if t.sz > 8 else self.field(b, t)
            return t
        if op == "cat" or op == "blob" and (t.a[0].op == "undef" or not t.a[1]):
            if op == "blob" and not t.a[1]:
                return self.ev(t.a[0])
            parts = [(o, self.ev(x)) for o, x in t.a[0 if op == "cat" else 1]]
            if parts and all(isinstance(x, Bytes) for _, x in parts):
                at = Lin()
                for o, x in parts:
                    if equal(at, Lin(o)) is not True:
                        return t
                    at = at + x.length()
                return Bytes([s for _, x in parts for s in x.segs])
            return t
        return t

    def field(self, b, t):
        """the number in a header field"""
        if b is None or len(b.segs) != 1 or t.sz != 4:
            return t
        lo = b.segs[0][0]
        if lo == Lin(self.tc.size_at):
            return self.size
        if lo == Lin(self.tc.id_at):
            return "id"
        return t

    def content(self, p):
        if isinstance(p, Bytes):
            return p            # the pointer to the bytes taken so far
        if isinstance(p, T) and p.op == "ptr" and p.a[1] == 0:
            key = ("content", p)
            if key in self.memo:
                return self.memo[key]
            self.memo[key] = None
            cells = [(m.a[2], n) for m, n in self.eng.mu_next.items() if m.op == "mu" and m.a[0] == self.tc.lid and m.a[1] == p.a[0]]
            r = None
            if len(cells) == 1 and cells[0][0] in ("base", 0):
                r = self.ev(cells[0][1])
            elif cells and all(isinstance(o, int) for o, _ in cells):
                xs = [self.ev(n) for _, n in sorted(cells, key=lambda c: c[0])]
                r = Bytes([s for x in xs for s in x.segs]) if all(isinstance(x, Bytes) for x in xs) else None
            self.memo[key] = r = r if isinstance(r, Bytes) else None
            return r
        return None

    def decide(self, a):
        key = ("atom", a)
        if key not in self.memo:
            self.memo[key] = self._decide(a)
        return self.memo[key]

    def _decide(self, a):
        if a.op == "ovf":
            return False            # the sizes are far below the range of the types
        if a.op in ("eq", "ult"):
            x, y = self.ev(a.a[0]), self.ev(a.a[1])
            if isinstance(x, Lin) and isinstance(y, Lin):
                return equal(x, y) if a.op == "eq" else lt(x, y)
        if a.op == "is" and isinstance(self.ev(a.a[0]), Lin):
            return equal(self.ev(a.a[0]), Lin(a.a[1]))
        if a.op == "decodes":
            return True
        if a.op == "app" and str(a.a[0]).endswith("Event::is_readable"):
            return True
        f = self.tc.facts
        if band(f, atom(a)) is ZERO:
            return False
        if band(f, bnot(atom(a))) is ZERO:
            return True
        return None


class Tcp:
    def __init__(self, cx, dev):
        self.cx, self.eng, self.rep, self.ok = cx, cx.eng, cx.rep, False
        self.head, self.id_at, self.size_at = dev
        eng, rep = self.eng, self.rep
        self.files = sorted((e for e in cx.events if e.kind == "effect" and re.search(r"HashMap::<u32, .*>::insert", e.name) and len(e.args) == 3), key=lambda e: e.id)
        if not rep.check(bool(self.files), "files", TEXT + "they are filed"):
            return
        loops = [e.loops for e in self.files]
        if not rep.check(all(loops) and len({l[-1] for l in loops}) == 1, "loop", TEXT + "in a reading loop", str(loops)):
            return
        self.lid = lid = loops[0][-1]
        socket = re.compile(r"TcpStream( as std::io::Read>)?::(read|recv|take)")
        tr = [e for e in cx.events if e.kind == "effect" and socket.search(e.name)]
        if not rep.check(bool(tr) and all(lid in e.loops and e.loops[-1] == lid and e.name.endswith("::read_exact") for e in tr), "reads", TEXT + "nothing else takes bytes off the stream", lambda: "; ".join("%s %s" % (e.name, where(e)) for e in tr)):
            return
        self.reads = sorted(tr, key=lambda e: e.id)
        self.read_ids = {e.id: e for e in tr}
        pk = [e for e in cx.events if e.kind == "effect" and e.name.endswith("TcpStream::peek") and lid in e.loops]
        if not rep.check(len(pk) == 1, "peek", TEXT + "the number of bytes that are available is asked for", str(len(pk))):
            return
        self.peek = pk[0]
        v = [x for x in eng.tys[pk[0].retty]["variants"] if x["n"] == "Ok"][0]
        self.avail = SEL(pk[0].ret, v["fields"][0][0], 8)
        rep.check(self.number(pk[0]) is not None and self.number(pk[0]) >= self.head + 1, "peek/size", TEXT + "the look-ahead exceeds the header", lambda: show(pk[0].args[1][-1][1], 4))
        # what holds in a round that takes bytes: no input/output operation fails, an event is there
        f = ONE
        for e, err in results(eng, cx.events):
            f = band(f, bnot(expand(eng, err)))
        h = eng.events.get(eng.loop_info[lid]["head"])
        if h is not None:
            f = band(f, expand(eng, h.pc))
        f = band(f, expand(eng, pk[0].pc))
        self.facts = f
        # the variables that carry a message from round to round
        todo = [x for e in self.files for x in (expand(eng, e.pc), e.args[1][0][1], *[t for _, t in e.args[2]])] + [x for e in self.reads for x in (expand(eng, e.pc), e.args[1][-1][1])]
        self.vars, seen = [], set()
        while todo:
            t = todo.pop()
            for x in list(subterms(t)) + [y for z in subterms(t) if z.op == "ptr" for y in self.object_cells(z.a[0])]:
                if x.op == "mu" and x.a[0] == lid and x not in seen:
                    seen.add(x)
                    if self.initial(x).op != "undef" and x in eng.mu_next:
                        self.vars.append(x)
                    if x in eng.mu_next:
                        todo.append(eng.mu_next[x])
        self.vars = [v for v in self.vars if not (v.sz > 8)]
        self.vars.sort(key=lambda v: str(v.a))
        self.ok = rep.check(bool(self.vars), "state", TEXT + "the loop remembers what it took")

    def object_cells(self, obj):
        return [m for m in self.eng.mu_next if m.op == "mu" and m.a[0] == self.lid and m.a[1] == obj]

    def number(self, e):
        t = e.args[1][-1][1]
        return t.a[0] if t.op == "c" else None

    def initial(self, m):
        n = 0
        while m.op == "mu" and m in self.eng.mu_init and n < 8:
            m, n = self.eng.mu_init[m], n + 1
        return m

    def is_pointer(self, v):
        return any(t.op == "deref" and mentions(t.a[0], lambda x: x is v) for n in self.eng.mu_next.values() if n.op == "ite" or n.op in ("append", "prefix", "deref") for t in subterms(n))


def tcp_rule(cx):
    cx.run()
    eng, rep = cx.eng, cx.rep
    tc = Tcp(cx, DEV[cx.root])
    if not tc.ok:
        return
    H = Lin(tc.head)
    sym = lambda s: Lin(0, {s: 1})
    one = Lin(1)
    # ---- idle: what is left when a response was filed, and what a connection starts with
    idle = {}
    for v in tc.vars:
        xs = set()
        for e in tc.files:
            x = value_under(eng, eng.mu_next[v], expand(eng, e.pc))
            xs.add(x)
        if len(xs) == 1 and next(iter(xs)).op == "c":
            idle[v] = Lin(next(iter(xs)).a[0])
    rep.check(bool(idle), "idle", TEXT + "after a response nothing of it is left")
    for v in idle:
        i = tc.initial(v)
        rep.check(i.op == "c" and Lin(i.a[0]) == idle[v], "start:%s" % show(v, 3), TEXT + "a connection starts with nothing taken", lambda: "%s %s" % (show(v), show(i, 4)))

    def bad(r):
        return r.why is not None

    def back_to_idle(r, key):
        for v in idle:
            rep.check(r.after[v] == idle[v], "%s/idle:%s" % (key, show(v, 3)), TEXT + "then the next message starts afresh", lambda: "%s is %s" % (show(v, 3), r.after[v]))

    def decided(r, key):
        return rep.check(not bad(r), "%s/decided" % key, TEXT + "what a round does depends on the stream only", lambda: r.why)

    # ---- not even a header
    for k in range(1, tc.head):
        r = Round(tc, idle, Lin(k), H + one, Lin())
        key = "less:%d" % k
        if decided(r, key):
            rep.check(not r.reads and not r.filed, key, TEXT + "a header that is not there yet is left alone", lambda: "%s bytes of it are taken" % r.pos)
            if not r.reads:
                back_to_idle(r, key)
    # ---- a header and nothing else: this shows what is remembered of a message
    r = Round(tc, idle, H, H + one + sym("rest"), Lin())
    if not decided(r, "header"):
        return
    if not rep.check(r.pos == H and not r.filed, "header", TEXT + "its header is taken", lambda: "%s bytes taken, %d filed" % (r.pos, len(r.filed))):
        return
    shape = {}
    for v in tc.vars:
        x = r.after[v]
        b = r.content(x) if not isinstance(x, (Lin, str, tuple)) else None
        if isinstance(x, Lin):
            shape[v] = "p" if x == H else "size" if x == H + one + sym("rest") else x if not x.m else None
        elif x == "id":
            shape[v] = "id"
        elif b is not None and b == Bytes([(Lin(), H)]):
            shape[v] = "bytes"
    shape = {v: s for v, s in shape.items() if s is not None}

    def inside(p, size, s):
        return {v: p if x == "p" else size if x == "size" else Bytes([(Lin(), p)]) if x == "bytes" else x for v, x in s.items()}

    def matches(r, p, size, s):
        """the variables that do not have the value expected inside a message of which p bytes were taken"""
        out = []
        for v, want in inside(p, size, s).items():
            got = r.after[v]
            if isinstance(want, Bytes):
                got = r.content(got) if not isinstance(got, (Lin, str, tuple)) else None
                got = got.cut(Lin(), p) if got is not None else None
            if not (got == want):
                out.append((v, got, want))
        return out

    # a quantity which is the header's length after a header is the number of bytes taken, or is that constant
    p, more = H + sym("p"), sym("more") + one
    step = lambda s: Round(tc, inside(p, p + more + one + sym("rest"), s), more, p + more + one + sym("rest"), p)
    for _ in range(6):
        r = step(shape)
        if bad(r):
            break
        wrong = matches(r, r.pos, r.size, shape)
        ps = [v for v, _, _ in wrong if shape[v] == "p"]
        drop = [v for v, got, _ in wrong if shape[v] not in ("p", "id", "size", "bytes")]
        if ps:
            for v in ps:
                shape[v] = H
        elif drop:
            for v in drop:
                del shape[v]
        else:
            break
    rep.check("bytes" in shape.values(), "keeps", TEXT + "what was taken is kept", lambda: str({show(v, 3): x for v, x in shape.items()}))

    def judge(key, state, avail, size, at, what):
        r = Round(tc, state, avail, size, at)
        if not decided(r, key):
            return
        took = r.pos - at
        rep.check(took.atleast(1), key + "/progress", TEXT + "bytes that are there are taken", lambda: "takes %s" % took)
        if lt(size, r.pos) is not False:
            rep.check(False, key + "/own", TEXT + "nothing behind a message is taken with it", "takes %s bytes up to %s of a message of %s, %s bytes being there" % (took, r.pos, size, avail))
            return
        if lt(avail, took) is not False:
            rep.check(False, key + "/there", TEXT + "no more is read than is there (the read would wait)", "takes %s bytes while %s are there" % (took, avail))
            return
        whole = equal(r.pos, size)
        if not rep.check(whole is not None, key + "/whole", TEXT + "whether all of it is there is known", lambda: "%s of %s" % (r.pos, size)):
            return
        if whole:
            if rep.check(len(r.filed) == 1, key + "/filed", TEXT + "a message of which all bytes are there is filed at once", lambda: "%d times" % len(r.filed)):
                e, k, n, b = r.filed[0]
                rep.check(k == "id", key + "/id", TEXT + "it is filed under the id in its header", lambda: "%s %s" % (where(e), k if not isinstance(k, T) else show(k, 5)))
                rep.check(n is not None and equal(n, size) is True and b is not None and b == Bytes([(Lin(), size)]), key + "/content", TEXT + "exactly its bytes are filed, in order", lambda: "%s: %s bytes, %s" % (where(e), n, b))
            back_to_idle(r, key)
        else:
            rep.check(not r.filed, key + "/early", TEXT + "a message is not filed before its last byte is there", lambda: "; ".join(where(f[0]) for f in r.filed))
            w = matches(r, r.pos, size, shape)
            rep.check(not w, key + "/carried", TEXT + "what is missing is taken in a later round", lambda: "; ".join("%s is %s, not %s" % (show(v, 3), got if not isinstance(got, T) else show(got, 5), want) for v, got, want in w))
        left = lt(took, avail)
        if left is not False:
            again = [e for e in cx.events if e.kind == "effect" and tc.lid in e.loops and re.search(r"Registry::(re)?register", e.name)]
            rep.check(any(r.holds(e.pc) for e in again), key + "/again", TEXT + "the bytes left in the stream are asked for again", lambda: "%d" % len(again))

    d = sym("d")
    judge("idle:short", idle, H + more, H + more + one + d, Lin(), "header and a part")
    judge("idle:exact", idle, H + more, H + more, Lin(), "a whole message")
    judge("idle:beyond", idle, H + more + one + d, H + more, Lin(), "a message and more")
    judge("idle:header", idle, H, H + one + d, Lin(), "just a header")
    judge("inside:short", inside(p, p + more + one + d, shape), more, p + more + one + d, p, "a part")
    judge("inside:exact", inside(p, p + more, shape), more, p + more, p, "the rest")
    judge("inside:beyond", inside(p, p + more, shape), more + one + d, p + more, p, "the rest and more")
    between(tc, {(v.a[1], v.a[2]) for v in set(idle) | set(shape)})
    keeps(cx)


def between(tc, cellof):
    """between the rounds nothing is changed"""
    eng, rep = tc.eng, tc.rep
    outer = [l for l in tc.files[0].loops if l != tc.lid]
    for m, n in eng.mu_next.items():
        if m.op == "mu" and m.a[0] in outer and (m.a[1], m.a[2]) in cellof:
            n = value_under(eng, n, expand(eng, eng.loop_info[m.a[0]]["back_pc"]))
            xs = set(leaves(n)) if n.op == "ite" else {n}
            ok = all(x.op == "mu" and x.a[1] == m.a[1] and x.a[2] == m.a[2] for x in xs)
            rep.check(ok, "between:%s" % show(m, 3), TEXT + "nothing else touches what was taken", lambda: "%s" % [show(x, 4) for x in xs][:4])


LOOKS = {"insert", "remove", "remove_entry", "get", "get_mut", "get_key_value", "contains_key", "len", "is_empty", "new", "with_capacity", "default", "reserve", "shrink_to_fit", "capacity"}


def keeps(cx):
    """a response that was filed leaves the map only by being asked for"""
    n = 0
    for e in cx.events:
        m = re.search(r"HashMap<?(?:::)?<u32, std::vec::Vec<u8>.*?>(?: as .*?>)?::(\w+)", e.name)
        if e.kind == "effect" and m:
            n += 1
            cx.rep.check(m.group(1) in LOOKS, "filed:%s" % m.group(1), TEXT + "a response that was filed stays until it is asked for", where(e))
    cx.rep.check(n > 0, "map", TEXT + "responses are filed", str(n))


def later_rule(cx):
    """a command on a connection in use: it goes on with what earlier ones left of the stream"""
    if cx.root in DEV:
        return tcp_rule(cx)
    cx.run()
    keeps(cx)
    if cx.root in CONTROL:
        return
    eng, rep = cx.eng, cx.rep
    tc = Tcp(cx, DEV["gripper_new" if cx.root.startswith("gripper") else "robot_new"])
    if not tc.ok:
        return
    cellof = {(v.a[1], v.a[2]) for v in tc.vars}
    between(tc, cellof)
    okc = expand(eng, band(cx.variant("Ok"), cx.st.pc))
    n = 0
    for v in tc.vars:
        i = tc.initial(v)
        if not (isinstance(v.a[1], tuple) and v.a[1][:1] == ("P",)):
            continue
        n += 1
        entry = SEL(SYM("*" + v.a[1][1], eng.size(eng.tys[eng.rootargs[v.a[1][1]][1]]["e"])), v.a[2], v.sz)
        rep.check(i is entry, "begin:%s" % show(v, 3), TEXT + "a command leaves alone what earlier ones took of the stream", lambda: "%s, not %s" % (show(i, 5), show(entry, 5)))
        x = value_under(eng, eng.scalar(cx.st, v.a[1], v.a[2], v.sz), okc)
        xs = set(leaves(x)) if x.op == "ite" else {x}
        ok = all(y is entry or (y.op == "mu" and (y.a[1], y.a[2]) == (v.a[1], v.a[2])) for y in xs)
        rep.check(ok, "end:%s" % show(v, 3), TEXT + "a command leaves what it took for the next one", lambda: "%s" % [show(y, 5) for y in xs][:4])
    rep.check(n > 0, "carried", TEXT + "what was taken is kept with the connection")


PROPS["P06"] = Prop(
    ["robot_new", "gripper_new"] + list(REQ) + list(CONTROL), later_rule, floor=400,
    rule_text="one round of the loop that takes bytes off the command connection, evaluated over an abstract stream (linear forms over non-negative "
    "quantities; contents as ranges of the current message): from the idle state and from inside a message, for every relation between the bytes that have arrived and "
    "the bytes missing, the round takes exactly the bytes of that message which are there, files it under its id and with exactly its bytes once the last one is taken, and leaves the idle "
    "state, or the state inside it, behind; nothing else takes bytes, changes these variables or drops a response that was filed, in any command.",
)
