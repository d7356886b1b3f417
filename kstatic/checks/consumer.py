"""C22 C23 C24 C25 C26: what the consumers ask for, deliver and remember"""
import datetime
import itertools

from . import check
from .wire import analysis
from .producer import domain_eq, Prod
from .. import spec, domain, models
from ..core import site, short
from ..domain import EngineSignal, WBytes, Sym
from .. import loop as L
from ..scn import mod, need, ck, run, escaped, outcome, call, World, xpz, name_of

BROKERS = {1: ("k1", 9092), 2: ("k2", 9092)}
TOPICS = {"t": {0: 1, 1: 2, 2: 1}, "u": {0: 1}}
FATAL = [c for c in sorted(spec.ERROR_CODES) if c not in spec.RETRIABLE and c not in (0, 1)] + [13, 999]


class Boom(Exception):
    pass


class Bad(object):
    """a value the deserializer rejects"""


def position(pids, pid, name):
    """any position; of topics with many partitions, for the first few"""
    n = sorted(pids).index(pid)
    return Sym.atom(name, 0, 2 ** 61) if n < 6 else 0 if n % 7 == 0 else 10 ** 10 + 1000003 * n


class Cons(object):
    def __init__(self, an, p, cls=None, brokers=BROKERS, topics=TOPICS, connect=True, **kw):
        self.an, self.p = an, p
        self.w = World(p, an, brokers, topics)
        self.values = {}             # (t, pid, number) -> python value or Bad
        self.raws = {}               # (t, pid, number) -> bytes
        self.asked = []              # per fetch: (broker, topic, {pid: offset}, q)
        self.served = []             # per fetch: [(t, pid, number)]
        self.log = {}                # (t, pid) -> [(offset, number)]
        self.code = {}
        cls = cls or need(mod(an, "clients.single"), "SingleConsumer")
        t = self

        def deserializer(raw):
            return t.deserialize(raw)
        self.c = cls(["boot"], deserializer=deserializer, **kw)
        for tp, ps in topics.items():
            for pid in ps:
                self.w.offsets[tp, pid] = position(ps, pid, "start of %s/%s" % (tp, pid))
        self.offsets0 = dict(self.w.offsets)
        if connect:
            self.w.ok(call(p, self.c.connect), "connecting the consumer")

    def start(self, t, pid):
        return self.offsets0[t, pid]

    def put(self, t, pid, rel, value=None, null=False):
        """a message rel places after the start position of t/pid"""
        ident = (t, pid, rel)
        name = "value %s/%s@%s" % ident
        Sym.atom("bytes(%s)" % name, 1, 32767)
        self.raws[ident] = None if null else domain.encode_text(domain.opaque_text(name))
        self.values[ident] = ("msg", t, pid, rel) if value is None else value
        self.log.setdefault((t, pid), []).append((self.start(t, pid) + rel, ident))

    def deserialize(self, raw):
        text = raw if isinstance(raw, str) else domain.is_byteslike(raw) and WBytes.of(raw).norm()
        if not isinstance(text, (str, bytes)):
            text = text and text.decode("utf-8")
        hits = [i for i, r in self.raws.items() if isinstance(r, WBytes) and r.decode("utf-8") == text]
        for ident in hits or self.raws:
            r = self.raws[ident]
            if hits or Prod.same(r, raw):
                v = self.values[ident]
                if v is Bad:
                    raise ValueError("not decodable")
                return v
        self.p.violation("the deserializer gets a value no message has: %s" % short(raw))

    def policy(self, op):
        if op[0] != "request" or op[1].api != "fetch":
            return False
        q = op[1]
        out = []
        for t in q.v["topics"]:
            ps = []
            for x in t["partitions"]:
                k = (t["name"], x["partition_id"])
                code = self.code.get(k, 0)
                ch = []
                if code == 0:
                    for off, ident in self.log.get(k, ()):
                        d = off - x["offset"]
                        if isinstance(d, Sym):
                            lo, hi = d.bounds()
                            ck(self.p, lo is not None and lo == hi,
                               "the position asked for %s/%s is %s, unrelated to the start %s", k[0], k[1],
                               x["offset"], self.offsets0.get(k))
                            d = lo
                        if d >= 0 or self.below:
                            ch += spec.message_chunks(off, None, self.raws[ident], models.crc32)
                ps.append({"partition_id": k[1], "error_code": code, "highwater_mark_offset": 100,
                           "message_set": ch})
            out.append({"name": t["name"], "partitions": ps})
        self.w.reply(q, {"topics": out})
        return True

    below = False

    def consume(self, topic, *a, **k):
        """-> (result, fetch requests) of one consume call"""
        order = k.pop("order", "fifo")
        policy = k.pop("policy", None)
        what = k.pop("what", "consuming %s" % topic)
        n0 = len(self.w.requests)
        f = call(self.p, self.c.consume, topic, *a)
        self.w.drive(policy or self.policy, order)
        o = self.w.result(f, what)
        if o[0] == "err":
            self.p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        return o[1], self.w.of("fetch", n0)

    def positions(self, qs):
        out = {}
        for q in qs:
            for t in q.v["topics"]:
                for x in t["partitions"]:
                    k = (t["name"], x["partition_id"])
                    ck(self.p, k not in out, "%s/%s is fetched twice in one call", k[0], k[1])
                    out[k] = x["offset"]
        return out

    def at(self, got, want, what):
        """want: {(t, pid): offset}"""
        ck(self.p, set(got) == set(want), "%s asks for %s instead of %s", what, sorted(got), sorted(want))
        for k in want:
            ck(self.p, domain_eq(got[k], want[k]), "%s asks for %s/%s at %s instead of %s", what, k[0], k[1],
               got[k], want[k])


# --------------------------------------------------------------------------------------- C22

def allocated(an, alloc, starts):
    Base = need(mod(an, "clients.consumer"), "BaseConsumer")

    def determine_offsets(self, topic, start=None):
        for pid in alloc.get(topic, ()):
            self.offsets[topic][pid] = starts[topic, pid]
        f = L.KFuture("determine_offsets")
        f.set_result(None)
        return f

    def wind_down(self):
        f = L.KFuture("wind_down")
        f.set_result(None)
        return f
    return type("Allocated", (Base,), {"allocation": property(lambda self: alloc),
                                       "determine_offsets": determine_offsets, "wind_down": wind_down})


def fetch_case(an, topo, alloc, limit, p):
    wait = Sym.atom("max_wait_time", 0, 2 ** 31 - 1)
    least = Sym.atom("min_bytes", 0, 2 ** 31 - 1)
    starts = {("t", pid): Sym.atom("position %s" % pid, 0, 2 ** 62) for pid in topo}
    kw = {} if limit is None else {"max_bytes": limit}
    if alloc is None:
        c = Cons(an, p, None, BROKERS4, {"t": topo, "u": {0: 1}}, max_wait_time=wait, min_bytes=least, **kw)
        starts = {("t", pid): c.start("t", pid) for pid in topo}
        mine = sorted(topo)
    else:
        c = Cons(an, p, allocated(an, {"t": list(alloc), "u": [0]},
                                   {k: starts.get(k, 0) for k in [("t", x) for x in alloc] + [("u", 0)]}), BROKERS4, {"t": topo, "u": {0: 1}},
                 max_wait_time=wait, min_bytes=least, **kw)
        mine = sorted(alloc)
    limit = 1024 * 1024 if limit is None else limit
    n0 = len(c.w.requests)
    r, qs = c.consume("t")
    n = len(c.w.of("metadata", n0))
    if any(pid not in topo for pid in mine):
        ck(p, n == 1, "an allocated partition without a leader makes consume refresh the metadata %s times", n)
    else:
        ck(p, n == 0, "consuming with all leaders known refreshes the metadata %s times", n)
    ck(p, r == [], "consuming an empty topic returns %s", r)
    by = {}
    for q in qs:
        ck(p, q.broker not in by, "broker %s gets two fetch requests in one call", q.broker)
        by[q.broker] = q
        ck(p, [t["name"] for t in q.v["topics"]] == ["t"], "a fetch names the topics %s", [t["name"] for t in q.v["topics"]])
        ck(p, q.v["replica_id"] == -1, "a fetch has the replica id %s", q.v["replica_id"])
        ck(p, domain_eq(q.v["max_wait_time"], wait), "a fetch waits for %s instead of the configured time",
           q.v["max_wait_time"])
        ck(p, domain_eq(q.v["min_bytes"], least), "a fetch has the minimum %s instead of the configured one",
           q.v["min_bytes"])
        ps = q.v["topics"][0]["partitions"]
        for x in ps:
            ck(p, topo.get(x["partition_id"]) == q.broker, "partition %s is fetched from broker %s, its leader is %s",
               x["partition_id"], q.broker, topo.get(x["partition_id"]))
            ck(p, x["max_bytes"] == limit // len(ps), "a partition's share is %s of the limit %s for %s partitions",
               x["max_bytes"], limit, len(ps))
    c.at(c.positions(qs), {("t", pid): starts["t", pid] for pid in mine if pid in topo}, "a fetch")
    escaped(p)


BROKERS4 = {1: ("k1", 9092), 2: ("k2", 9092), 3: ("k2", 9094), 4: ("k1", 9095)}


def leader_moves(an, p):
    """the leaders move between two consume calls"""
    c = Cons(an, p)
    c.put("t", 0, 0)
    c.consume("t")
    c.w.topics["t"] = {0: 2, 1: 1, 2: 1}
    c.w.ok(call(p, c.c.cluster.heal), "a heal")
    r, qs = c.consume("t")
    for q in qs:
        for x in q.v["topics"][0]["partitions"]:
            ck(p, c.w.topics["t"][x["partition_id"]] == q.broker,
               "partition %s is fetched from broker %s after its leader moved", x["partition_id"], q.broker)
    c.at(c.positions(qs), {("t", 0): c.start("t", 0) + 1, ("t", 1): c.start("t", 1), ("t", 2): c.start("t", 2)},
         "a fetch after the leaders moved")
    escaped(p)


@check("C22", "path-sensitive abstract interpretation of consume; fetch requests decoded from the abstract bytes written",
       "Topics of one to five partitions over up to four leaders, whole and partial allocations, byte limits, moving leaders."
       " Also every history of three (thorough: four) operations out of ten.", 300)
def c22(rep, tier):
    an = analysis(rep)
    topos = [{0: 1}, {0: 1, 1: 2}, {0: 1, 1: 1, 2: 2}, {0: 1, 1: 2, 2: 3, 3: 4}, {0: 2, 1: 2, 2: 2, 5: 2, 7: 1},
             {3: 1}]
    for topo in topos:
        subs = [None] + [tuple(sorted(topo))]
        if len(topo) > 1:
            subs += [tuple(sorted(topo))[1:], tuple(sorted(topo))[:1], tuple(sorted(topo))[::2]]
        for alloc in subs:
            for limit in (None, 1000, 7, 100, 2 ** 31 - 1):
                xpz(an, "leaders %s allocated %s limit %s" % (topo, alloc, limit),
                   lambda p: fetch_case(an, topo, alloc, limit, p), rep)
    for alloc in ((0, 9), (9,), (9, 1)):
        xpz(an, "allocated %s, unknown partition" % (alloc,),
           lambda p: fetch_case(an, {0: 1, 1: 2}, alloc, None, p), rep)
    xpz(an, "leaders move", lambda p: leader_moves(an, p), rep)
    from . import scale
    for n in (40, scale.upto(an, 130, 1300, *scale.READING)) if tier != "thorough" else (40, 130, 1100):
        xpz(an, "%s partitions" % n, lambda p: scale.wide_single(an, n, p), rep)
        xpz(an, "%s partitions, group" % n, lambda p: scale.wide_group(an, n, 2, {}, p), rep)
    from . import history
    history.single(an, rep, "C22", tier)
    history.group(an, rep, "C22", tier)


# --------------------------------------------------------------------------------------- C23

FALSY = [0, False, "", 0.0, [], {}, ()]


def by_partition(items):
    out = {}
    for i in items:
        out.setdefault(i[1:3], []).append(i[3])
    return out


def deliver_case(an, logs, order, cls, p):
    """logs {pid: [(rel, kind)]}; kind: ok, bad, falsy value"""
    c = cls(an, p)
    for pid, l in logs.items():
        for rel, kind in l:
            if kind == "bad":
                c.put("t", pid, rel, Bad)
            elif kind == "null":
                c.put("t", pid, rel, ("msg", "t", pid, rel), null=True)
            else:
                c.put("t", pid, rel)
    c.put("u", 0, 0)
    c.put("u", 0, 1)
    r, _ = c.consume("t", order=order)
    good = {("t", pid): [rel for rel, k in l if k != "bad"] for pid, l in logs.items()}
    good = {k: v for k, v in good.items() if v}
    ck(p, isinstance(r, list), "consume returns %s", r)
    got = by_partition(r)
    ck(p, got == good, "consume delivers %s instead of %s", got, good)
    want = {}
    for pid in TOPICS["t"]:
        ok = [rel for rel, k in logs.get(pid, ()) if k != "bad"]
        want["t", pid] = c.start("t", pid) + (ok[-1] + 1 if ok else 0)
    # trailing undecodable messages come back: only the positions are of interest now
    c.log = {k: v for k, v in c.log.items() if k[0] == "u"}
    r, qs = c.consume("t")
    c.at(c.positions(qs), want, "the next fetch")
    ck(p, r == [], "nothing new is there but %s is delivered", r)
    r, qs = c.consume("u")
    c.at(c.positions(qs), {("u", 0): c.start("u", 0)}, "the first fetch of another topic")
    ck(p, by_partition(r) == {("u", 0): [0, 1]}, "another topic delivers %s", r)
    r, qs = c.consume("t")
    c.at(c.positions(qs), want, "a fetch after consuming another topic")
    c.put("t", 1, 50)
    r, qs = c.consume("t")
    ck(p, r == [("msg", "t", 1, 50)], "a new message is delivered as %s", r)
    want["t", 1] = c.start("t", 1) + 51
    r, qs = c.consume("t")
    c.at(c.positions(qs), want, "the fetch after a gap")
    escaped(p)


def falsy_case(an, v, p):
    c = Cons(an, p)
    c.put("t", 0, 0)
    c.put("t", 0, 1)
    c.values["t", 0, 1] = v
    c.put("t", 0, 2)
    r, _ = c.consume("t")
    ck(p, len(r) == 3 and type(r[1]) is type(v) and r[1] == v and r[0] == ("msg", "t", 0, 0),
       "the values with %s among them are delivered as %s", repr(v), r)
    r, qs = c.consume("t")
    ck(p, domain_eq(c.positions(qs)["t", 0], c.start("t", 0) + 3), "a %s value does not advance the position", repr(v))
    escaped(p)


def equal_case(an, v, p):
    """messages that are alike are messages of their own"""
    c = Cons(an, p)
    for pid, rel in ((0, 0), (0, 1), (0, 2), (1, 0), (2, 1)):
        c.put("t", pid, rel)
        c.values["t", pid, rel] = v
        c.raws["t", pid, rel] = c.raws["t", 0, 0]
    c.put("t", 0, 5)
    r, _ = c.consume("t")
    ck(p, len([x for x in r if x == v]) == 5 and len(r) == 6, "five messages %s and another one are delivered as %s", repr(v), r)
    r, qs = c.consume("t")
    ck(p, not r, "%s are delivered again", r)
    at = c.positions(qs)
    for pid, rel in ((0, 6), (1, 1), (2, 2)):
        ck(p, domain_eq(at["t", pid], c.start("t", pid) + rel), "after equal messages the position of t/%s is %s", pid, at["t", pid])
    escaped(p)


def below_case(an, p):
    """a broker returns a whole compressed batch: messages below the position asked for"""
    c = Cons(an, p)
    for i in range(3):
        c.put("t", 0, i)
    r, _ = c.consume("t")
    c.below = True
    r, _ = c.consume("t")
    ck(p, not r, "messages below the position asked for are delivered again when a broker returns them")


def json_case(an, p):
    """the default deserializer"""
    import json
    w = World(p, an, BROKERS, TOPICS)
    SC = need(mod(an, "clients.single"), "SingleConsumer")
    c = SC(["boot"])
    w.ok(call(p, c.connect), "connecting")
    docs = [b'{"a": [1, null]}', b'not json', b'"text"', b'12', b'0', b'\xff\xfe']
    w.log = {("t", 0): [(5 + i, None, d) for i, d in enumerate(docs)]}
    w.offsets = {("t", 0): 5, ("t", 1): 0, ("t", 2): 0}
    r = w.ok(call(p, c.consume, "t"), "consuming")
    ck(p, r == [{"a": [1, None]}, "text", 12, 0], "the default deserializer delivers %s", r)
    w.log = {}
    n0 = len(w.requests)
    w.ok(call(p, c.consume, "t"), "consuming")
    offs = [x["offset"] for q in w.of("fetch", n0) for x in q.v["topics"][0]["partitions"] if x["partition_id"] == 0]
    ck(p, offs == [10], "after undecodable messages the position is %s", offs)
    # a value that means nothing is a message all the same
    w.log = {("t", 0): [(10, None, b"null"), (11, None, b"null")]}
    ck(p, w.ok(call(p, c.consume, "t"), "consuming") == [], "a null value is delivered")
    w.log = {}
    n0 = len(w.requests)
    w.ok(call(p, c.consume, "t"), "consuming")
    offs = [x["offset"] for q in w.of("fetch", n0) for x in q.v["topics"][0]["partitions"] if x["partition_id"] == 0]
    ck(p, offs == [12], "after null values at 10 and 11 the position is %s", offs)


@check("C23", "path-sensitive abstract interpretation of consume over successive fetch answers: values delivered and positions asked for next",
       "Logs of up to four messages per partition with gaps and undecodable ones, false values, several topics, every order of answers."
       " Also every history of three (thorough: four) operations out of ten.", 500)
def c23(rep, tier):
    an = analysis(rep)
    kinds = ["ok", "bad"]
    logs = []
    for n in (0, 1, 2, 3):
        for ks in itertools.product(kinds, repeat=n):
            logs.append({0: list(zip((0, 1, 4), ks))})
    logs += [{0: [(0, "ok"), (1, "null")]}, {0: [(3, "ok")], 1: [(0, "ok"), (2, "bad"), (3, "ok")], 2: [(0, "bad")]},
             {0: [(0, "ok")], 1: [(0, "ok")], 2: [(0, "ok"), (1, "ok")]},
             {1: [(0, "bad"), (7, "ok"), (8, "bad")], 2: [(1, "ok")]}]
    for l in logs:
        for order in (("fifo", "any") if len(l) > 1 else ("fifo",)):
            xpz(an, "logs %s %s" % (l, order), lambda p: deliver_case(an, l, order, Cons, p), rep)
    from . import scale
    for n in (1, scale.upto(an, 1210, 12500, *scale.READING)) if tier != "thorough" else (1, 1210, 12500):
        xpz(an, "an answer of %s messages" % n, lambda p: scale.long_log(an, n, p), rep)
    for v in FALSY:
        xpz(an, "value %r" % (v,), lambda p: falsy_case(an, v, p), rep)
    for v in ("same", 7, ["a", 1], {"k": "v"}):
        xpz(an, "equal values %r" % (v,), lambda p: equal_case(an, v, p), rep)
    xpz(an, "below the position", lambda p: below_case(an, p), rep)
    xpz(an, "default deserializer", lambda p: json_case(an, p), rep)
    from . import history
    history.single(an, rep, "C23", tier)
    history.group(an, rep, "C23", tier)


# --------------------------------------------------------------------------------------- C24

def errors_case(an, codes, p):
    """codes {pid: code} of one fetch of t"""
    c = Cons(an, p)
    for pid in (0, 1, 2):
        c.put("t", pid, 0)
        c.put("t", pid, 1)
    c.consume("t")
    for pid in (0, 1, 2):
        c.put("t", pid, 2)
    c.consume("u")
    c.code = {("t", pid): x for pid, x in codes.items()}
    n0 = len(c.w.requests)
    what = "a fetch answered with codes %s" % (codes,)
    r, qs = c.consume("t", what="consuming with error codes %s" % (codes,))
    good = {("t", pid): [2] for pid in (0, 1, 2) if not codes.get(pid)}
    ck(p, by_partition(r) == good, "%s delivers %s instead of %s", what, by_partition(r), good)
    heals = len(c.w.of("metadata", n0))
    want = 1 if any(x in spec.RETRIABLE for x in codes.values()) else 0
    ck(p, heals == want, "%s heals the cluster %s times instead of %s", what, heals, want)
    c.code = {}
    n1 = len(c.w.requests)
    reset = 1 in codes.values()
    if reset:
        for pid in (0, 1, 2):
            c.w.offsets["t", pid] = Sym.atom("new start %s" % pid, 2 ** 61, 2 ** 62)
    f = call(p, c.c.consume, "t")

    def quiet(op):
        # after a reset only the positions are judged
        if reset and op[0] == "request" and op[1].api == "fetch":
            c.w.reply(op[1], c.w.answer(op[1]))
            return True
        return c.policy(op)
    c.w.drive(quiet)
    o = c.w.result(f, "the next consume")
    if o[0] == "err":
        p.violation("the consume after %s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
    qs = c.w.of("fetch", n1)
    offs = c.w.of("offset", n1)
    ck(p, bool(offs) == reset, "after %s the positions are %s", what,
       "asked for again" if offs else "not asked for again")
    want = {("t", pid): (c.w.offsets["t", pid] if reset else c.start("t", pid) + (2 if codes.get(pid) else 3))
            for pid in (0, 1, 2)}
    c.at(c.positions(qs), want, "the fetch after %s" % what)
    n2 = len(c.w.requests)
    r, qs = c.consume("u")
    ck(p, not c.w.of("offset", n2), "an error of one topic resets the positions of another")
    escaped(p)


def lost_case(an, hows, p):
    """brokers that fail while a fetch is in flight"""
    c = Cons(an, p)
    for pid in (0, 1, 2):
        c.put("t", pid, 0)
    c.consume("t")
    for pid in (0, 1, 2):
        c.put("t", pid, 1)
    for b, h in hows.items():
        if h == "dead already":
            c.w.drop(c.w.live(BROKERS[b])[0])
    run(p)

    def policy(op):
        if op[0] == "request" and op[1].api == "fetch":
            h = hows.get(op[1].broker)
            if h == "closes":
                c.w.drop(op[1].stream)
                return True
            if h == "garbage":
                c.w.garbage(op[1])
                return True
        return c.policy(op)
    what = "consuming while brokers fail (%s)" % (hows,)
    r, qs = c.consume("t", policy=policy, what=what)
    good = {("t", pid): [1] for pid, b in TOPICS["t"].items() if b not in hows}
    ck(p, by_partition(r) == good, "%s delivers %s instead of %s", what, by_partition(r), good)
    r, qs = c.consume("t")
    rest = {("t", pid): [1] for pid, b in TOPICS["t"].items() if b in hows}
    ck(p, by_partition(r) == rest, "after %s the next consume delivers %s instead of %s", what, by_partition(r), rest)
    c.at(c.positions(qs), {("t", pid): c.start("t", pid) + (1 if b in hows else 2)
                           for pid, b in TOPICS["t"].items()}, "the fetch after %s" % what)
    escaped(p)


@check("C24", "path-sensitive abstract interpretation of fetch answers with every error code per partition",
       "Every known and two unknown codes on each partition, mixes over three partitions, failing brokers."
       " Also every history of three (thorough: four) operations out of ten.", 800)
def c24(rep, tier):
    an = analysis(rep)
    for code in sorted(spec.RETRIABLE) + [1] + FATAL:
        for pid in (0, 1, 2) if tier == "thorough" or code in (1, 3, 6, -1, 999) else (0,):
            xpz(an, "code %s on %s" % (code, pid), lambda p: errors_case(an, {pid: code}, p), rep)
    sample = [0, 6, 1, -1, 999]
    for cs in itertools.product(sample, repeat=3):
        if sum(x != 0 for x in cs) < 2:
            continue
        codes = dict(zip((0, 1, 2), cs))
        xpz(an, "codes %s" % (codes,), lambda p: errors_case(an, codes, p), rep)
    for h in ("closes", "garbage", "dead already"):
        for bs in ((1,), (2,)):
            xpz(an, "brokers %s %s" % (bs, h), lambda p: lost_case(an, {b: h for b in bs}, p), rep)
    from . import history
    history.single(an, rep, "C24", tier)
    history.group(an, rep, "C24", tier)


# --------------------------------------------------------------------------------------- C25

def starts(an, p):
    dt = an.ip.host["datetime"].datetime
    return {
        "none": ((), -1), "END": ((-1,), -1), "BEGINNING": ((-2,), -2),
        "date": ((dt(2015, 8, 1, 12, 30, 15),), 1438432215),
        "date with fraction": ((dt(2015, 8, 1, 12, 30, 15, 250000),), 1438432215),
        "epoch": ((dt(1970, 1, 1),), 0),
        "span": ((datetime.timedelta(hours=1),), p.now - 3600),
        "span with fraction": ((datetime.timedelta(seconds=10, milliseconds=500),), None),
        "zero span": ((datetime.timedelta(0),), p.now),
        "days": ((datetime.timedelta(days=3, seconds=7),), p.now - 3 * 86400 - 7),
        "span ahead": ((datetime.timedelta(hours=-2),), p.now + 7200),
        "far date": ((dt(2040, 2, 29, 1, 2, 3),), 2214090123),
    }


def start_case(an, kind, p):
    c = Cons(an, p)
    for pid in (0, 1, 2):
        c.put("t", pid, 0)
    args, want = starts(an, p)[kind]
    n0 = len(c.w.requests)
    r, qs = c.consume("t", *args, what="consuming from start %s" % kind)
    asked = {}
    for q in c.w.of("offset", n0):
        ck(p, q.v["replica_id"] == -1, "an offset request has the replica id %s", q.v["replica_id"])
        for t in q.v["topics"]:
            ck(p, t["name"] == "t", "an offset request names %s", t["name"])
            for x in t["partitions"]:
                ck(p, x["partition_id"] not in asked, "partition %s is asked for twice", x["partition_id"])
                asked[x["partition_id"]] = q.broker
                ck(p, isinstance(x["time"], int) and (x["time"] == want or (
                    want is None and x["time"] in (p.now - 10, p.now - 11))),
                   "start %s asks for the time %s instead of %s", kind, x["time"], want)
                ck(p, x["max_offsets"] == 1, "an offset request asks for %s offsets", x["max_offsets"])
    ck(p, asked == TOPICS["t"], "start offsets are asked as %s (partition: broker) instead of of the leaders %s",
       asked, TOPICS["t"])
    c.at(c.positions(qs), {("t", pid): c.start("t", pid) for pid in (0, 1, 2)}, "the first fetch")
    ck(p, by_partition(r) == {("t", pid): [0] for pid in (0, 1, 2)}, "the first consume delivers %s", r)
    n1 = len(c.w.requests)
    c.consume("t")
    ck(p, not c.w.of("offset", n1), "the start offsets are asked for again on the second consume")
    escaped(p)


def clock_case(an, p):
    """the clock goes on between calls"""
    c = Cons(an, p)
    for turn, topic in enumerate(("t", "u")):
        n0 = len(c.w.requests)
        c.consume(topic, datetime.timedelta(seconds=60))
        for q in c.w.of("offset", n0):
            for x in q.v["topics"][0]["partitions"]:
                ck(p, isinstance(x["time"], int) and x["time"] == p.now - 60,
                   "a span of a minute asks for the time %s at the time %s", x["time"], p.now)
        ck(p, c.w.of("offset", n0), "the first consume of a topic asks for no offsets")
        p.now += 777
    escaped(p)


def other_start_case(an, trouble, first, p):
    """a first consume that got no positions, then one with another start"""
    c = Cons(an, p)
    hit = set()

    def policy(op):
        if op[0] == "request" and op[1].api == "offset" and op[1].broker in trouble and op[1].broker not in hit:
            hit.add(op[1].broker)
            how = trouble[op[1].broker]
            if how == "closes":
                c.w.drop(op[1].stream)
            elif how == "garbage":
                c.w.garbage(op[1])
            else:
                v = c.w.answer(op[1])
                for x in v["topics"][0]["partitions"]:
                    x["error_code"], x["offsets"] = how, []
                c.w.reply(op[1], v)
            return True
        return c.policy(op)
    r, qs = c.consume("t", first, what="consuming with start offset trouble", policy=policy)
    if qs:
        return
    second = -3 - first
    for pid in (0, 1, 2):
        c.w.offsets["t", pid] = c.offsets0["t", pid] = Sym.atom("other start of t/%s" % pid, 1, 2 ** 61)
        c.put("t", pid, 0)
    n0 = len(c.w.requests)
    r, qs = c.consume("t", second)
    for q in c.w.of("offset", n0):
        for x in q.v["topics"][0]["partitions"]:
            ck(p, x["time"] == second, "a consume that starts at %s asks for the time %s", second, x["time"])
    c.at(c.positions(qs), {("t", pid): c.start("t", pid) for pid in (0, 1, 2)},
         "the first fetch of a consume that starts at %s, after one that was to start at %s" % (second, first))
    escaped(p)


OTROUBLE = ["ok", "retriable", "closes", "garbage", "dead already", "write fails", "fatal", "empty"]


def trouble_case(an, rounds, code, p, fatal=-1):
    """rounds: per offset request of a broker {broker: trouble}.  While a start position is not known a
    consume may ask again or give nothing, but fetches from no made-up position."""
    c = Cons(an, p)
    for pid in (0, 1, 2):
        c.put("t", pid, 0)

    def first(b):
        return rounds[0].get(b, "ok")
    for b in BROKERS:
        s = c.w.live(BROKERS[b])[0]
        if first(b) == "dead already":
            c.w.drop(s)
        elif first(b) == "write fails":
            s.on_write = lambda: OSError(32, "Broken pipe")
    run(p)
    seen = {}
    known = set()

    def policy(op):
        if op[0] == "request" and op[1].api == "offset":
            q = op[1]
            k = seen.get(q.broker, 0)
            seen[q.broker] = k + 1
            h = rounds[k].get(q.broker, "ok") if k < len(rounds) else "ok"
            if h == "closes":
                c.w.drop(q.stream)
            elif h == "garbage":
                c.w.garbage(q)
            elif h in ("retriable", "fatal", "empty"):
                v = c.w.answer(q)
                for t in v["topics"]:
                    x = t["partitions"][0]
                    x["error_code"] = {"retriable": code, "fatal": fatal, "empty": 0}[h]
                    x["offsets"] = []
                c.w.reply(q, v)
            else:
                return False
            return True
        return c.policy(op)
    what = "consuming with start offset trouble %s" % (rounds,)
    n0 = len(c.w.requests)
    got = []
    starts = {("t", pid): c.start("t", pid) for pid in (0, 1, 2)}
    for turn in range(2 * len(rounds) + 2):
        n1 = len(c.w.requests)
        f = call(p, c.c.consume, "t", -2)
        c.w.drive(policy)
        o = c.w.result(f, what)
        if o[0] == "err":
            if name_of(o[1]) == "NoBrokersError" and not c.w.live():
                return          # nobody is left to ask
            p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        for q in c.w.of("fetch", n1):
            for x in q.v["topics"][0]["partitions"]:
                ck(p, x["partition_id"] in (0, 1, 2), "%s fetches partition %s", what, x["partition_id"])
        pos = c.positions(c.w.of("fetch", n1))
        if pos:
            c.at(pos, starts, "%s: the first fetch" % what)
            ck(p, by_partition(o[1]) == {("t", pid): [0] for pid in (0, 1, 2)}, "%s delivers %s", what, o)
            break
        ck(p, o[1] == [], "%s returns %s without a fetch", what, o[1])
        ck(p, c.w.of("offset", n1), "%s: a later consume does not ask for the missing positions", what)
    else:
        p.violation("%s: nothing is fetched after the trouble has ended" % what)
    for q in c.w.of("offset", n0):
        for t in q.v["topics"]:
            for x in t["partitions"]:
                ck(p, x["time"] == -2, "a repeated offset request asks for the time %s", x["time"])
                ck(p, TOPICS["t"].get(x["partition_id"]) == q.broker,
                   "a repeated offset request asks broker %s for partition %s", q.broker, x["partition_id"])
    escaped(p)


def late_topic_case(an, start, p):
    """the topic appears with the metadata refresh of the first consume"""
    c = Cons(an, p)
    c.w.topics["new"] = {0: 1, 1: 2}
    for pid in (0, 1):
        c.w.offsets["new", pid] = c.offsets0["new", pid] = Sym.atom("start of new/%s" % pid, 1, 2 ** 61)
        c.put("new", pid, 0)
    n0 = len(c.w.requests)
    r, qs = c.consume("new", start)
    c.at(c.positions(qs), {("new", pid): c.start("new", pid) for pid in (0, 1)},
         "the first fetch of a topic that appears with the refresh")
    ck(p, by_partition(r) == {("new", 0): [0], ("new", 1): [0]}, "a topic that appears with the refresh delivers %s", r)
    escaped(p)


def fatal_code_case(an, code, p):
    c = Cons(an, p)
    c.w.offset_code = {("t", 1): code}
    r, qs = c.consume("t", what="consuming with the offset error %s" % code)
    ck(p, r == [] and not qs, "consuming with the offset error %s returns %s and fetches %s", code, r, qs)
    c.w.offset_code = {}
    c.put("t", 1, 0)
    r, qs = c.consume("t")
    c.at(c.positions(qs), {("t", pid): c.start("t", pid) for pid in (0, 1, 2)}, "the fetch after the offset error")
    ck(p, r == [("msg", "t", 1, 0)], "after the offset error %s consume delivers %s", code, r)
    escaped(p)


@check("C25", "path-sensitive abstract interpretation of the first consume: offset requests, their retries and the positions fetched from",
       "Every kind of start value, every trouble per leader in up to two attempts, topics that appear late."
       " Also every history of three (thorough: four) operations out of ten.", 700)
def c25(rep, tier):
    an = analysis(rep)
    from ..core import Path
    kinds = ["none", "END", "BEGINNING", "date", "date with fraction", "epoch", "span", "span with fraction",
             "zero span", "days", "span ahead", "far date"]
    for kind in kinds:
        xpz(an, "start %s" % kind, lambda p: start_case(an, kind, p), rep)
    xpz(an, "clock", lambda p: clock_case(an, p), rep)
    for first in (-1, -2):
        for how in ("closes", "garbage", -1, 2):
            for b in (1, 2):
                xpz(an, "start %s, broker %s %s, another start" % (first, b, how),
                    lambda p: other_start_case(an, {b: how}, first, p), rep)
    for a, b in itertools.product(OTROUBLE, repeat=2):
        if (a, b) != ("ok", "ok"):
            xpz(an, "trouble %s %s" % (a, b), lambda p: trouble_case(an, [{1: a, 2: b}], 6, p), rep)
    rep2 = ["ok", "retriable", "closes"]
    for a, b, c, d in itertools.product(rep2, repeat=4):
        if (a, b) != ("ok", "ok") and (c, d) != ("ok", "ok"):
            xpz(an, "trouble %s %s then %s %s" % (a, b, c, d),
               lambda p: trouble_case(an, [{1: a, 2: b}, {1: c, 2: d}], 6, p), rep)
    for code in sorted(spec.RETRIABLE):
        xpz(an, "code %s" % code, lambda p: trouble_case(an, [{1: "retriable"}], code, p), rep)
    for code in [1] + FATAL:
        xpz(an, "fatal code %s" % code, lambda p: fatal_code_case(an, code, p), rep)
        if tier == "thorough":
            xpz(an, "fatal code %s twice" % code,
               lambda p: trouble_case(an, [{1: "fatal", 2: "closes"}, {2: "fatal"}], 6, p, code), rep)
    if tier == "thorough":
        for a, b, c, d in itertools.product(OTROUBLE, repeat=4):
            if (c, d) != ("ok", "ok") and "dead already" not in (c, d) and "write fails" not in (c, d):
                xpz(an, "trouble %s %s then %s %s" % (a, b, c, d),
                   lambda p: trouble_case(an, [{1: a, 2: b}, {1: c, 2: d}], 6, p), rep)
    for start in (-1, -2):
        xpz(an, "topic appears late, start %s" % start, lambda p: late_topic_case(an, start, p), rep)
    for how in ("retriable", "fatal", "empty", "garbage"):
        xpz(an, "14 rounds of %s" % how, lambda p: trouble_case(an, [{1: how}] * 14, 6, p), rep)
    from . import scale
    for n in (40, scale.upto(an, 130, 1300, *scale.READING)) if tier != "thorough" else (40, 130, 1100):
        xpz(an, "%s partitions" % n, lambda p: scale.wide_single(an, n, p), rep)
    from . import history
    history.single(an, rep, "C25", tier)


# --------------------------------------------------------------------------------------- C26

def closed_case(an, primed, p):
    c = Cons(an, p)
    c.put("t", 0, 0)
    if primed:
        c.consume("t")
    c.w.ok(call(p, c.c.close), "closing")
    n0, a0 = len(c.w.requests), len(c.w.attempts)
    for t in ("t", "u", "nowhere"):
        o = c.w.finish(call(p, c.c.consume, t), "consuming after close")
        ck(p, o[0] == "ok" and not o[1], "consuming after close ends as %s", o)
    ck(p, len(c.w.requests) == n0, "consuming after close sends %s", c.w.requests[n0:])
    ck(p, len(c.w.attempts) == a0, "consuming after close connects to brokers")
    escaped(p)


def closing_case(an, p):
    """consume is called while close is winding down"""
    gate = []

    def wind_down(self):
        f = L.KFuture("wind down")
        gate.append(f)
        return f
    SC = need(mod(an, "clients.single"), "SingleConsumer")
    c = Cons(an, p, type("Slow", (SC,), {"wind_down": wind_down}))
    c.put("t", 0, 0)
    f = call(p, c.c.close)
    n0 = len(c.w.requests)
    o = c.w.finish(call(p, c.c.consume, "t"), "consuming while closing", c.policy)
    ck(p, o[0] == "ok" and not o[1], "consuming while closing ends as %s", o)
    ck(p, len(c.w.requests) == n0, "consuming while closing sends %s", c.w.requests[n0:])
    gate[0].set_result(None)
    c.w.drive()
    c.w.result(f, "close")
    escaped(p)


def unknown_case(an, alloc, p):
    """alloc: None single consumer; 'missing' or 'empty' allocation of another kind"""
    if alloc is None:
        c = Cons(an, p)
    else:
        a = {"t": [0, 1]}
        if alloc == "empty":
            a["nowhere"] = []
        c = Cons(an, p, allocated(an, a, {("t", 0): 0, ("t", 1): 0, ("nowhere", 0): 0}))
    for i in (1, 2):
        n0 = len(c.w.requests)
        r, qs = c.consume("nowhere", what="consuming an unknown topic")
        ck(p, r == [], "consuming an unknown topic returns %s", r)
        ck(p, not qs, "consuming an unknown topic sends a fetch")
        n = len(c.w.of("metadata", n0))
        ck(p, n == 1, "consuming an unknown topic refreshes the metadata %s times", n)
    n0 = len(c.w.requests)
    c.consume("t")
    ck(p, not c.w.of("metadata", n0), "consuming a known topic refreshes the metadata")
    escaped(p)


def vanishing_case(an, p):
    """a topic leaves the metadata between two consumes and comes back"""
    c = Cons(an, p)
    c.put("t", 0, 0)
    c.consume("t")
    keep = c.w.topics.pop("t")
    c.w.ok(call(p, c.c.cluster.heal), "a heal")
    n0 = len(c.w.requests)
    r, qs = c.consume("t", what="consuming a topic that left the metadata")
    ck(p, r == [] and not qs, "consuming a topic that left the metadata gives %s, fetches %s", r, qs)
    ck(p, len(c.w.of("metadata", n0)) == 1, "consuming a topic that left the metadata refreshes it %s times",
       len(c.w.of("metadata", n0)))
    c.w.topics["t"] = keep
    c.put("t", 1, 0)
    r, qs = c.consume("t")
    ck(p, ("msg", "t", 1, 0) in r, "a topic that came back delivers %s", r)
    ck(p, ("msg", "t", 0, 0) not in r, "a topic that came back delivers again what was delivered before it left: %s", r)
    escaped(p)


def grouped_closed(an, primed, closing, p):
    """a grouped consumer with a topic left to commit"""
    from .group import Group
    c = Group(an, p, {"t": [0, 1]})
    c.put("t", 0, 0)
    c.w.commit_code = {("t", 0): -1}
    if primed:
        c.consume("t")
    c.w.commit_code = {}
    if closing:
        # consume is called right after close, before anything else happens
        f = call(p, c.c.close)
    else:
        c.w.ok(call(p, c.c.close), "closing")
    n0, a0 = len(c.w.requests), len(c.w.attempts)
    for t in ("t", "nowhere"):
        o = c.w.finish(call(p, c.c.consume, t), "consuming after close")
        ck(p, o[0] == "ok" and not o[1], "consuming after close ends as %s", o)
    ck(p, len(c.w.requests) == n0, "consuming from a closed grouped consumer sends %s", c.w.requests[n0:])
    ck(p, len(c.w.attempts) == a0, "consuming after close connects to brokers")
    escaped(p)


def grouped_unknown(an, p):
    from .group import Group
    c = Group(an, p, {"t": [0, 1], "nowhere": []})
    for topic in ("u", "nowhere"):
        n0 = len(c.w.requests)
        r, qs = c.consume(topic, what="consuming a topic that is not allocated")
        ck(p, r == [], "consuming a topic that is not allocated returns %s", r)
        apis = sorted({q.api for q in c.w.requests[n0:]})
        ck(p, not set(apis) & {"fetch", "offset_commit"}, "consuming a topic that is not allocated sends %s", apis)
        ck(p, len(c.w.of("metadata", n0)) == 1, "consuming a topic that is not allocated refreshes the metadata %s times",
           len(c.w.of("metadata", n0)))
    escaped(p)


@check("C26", "path-sensitive abstract interpretation of consume on closed clients and unknown topics: effects on the abstract network",
       "Closed and closing consumers, topics never known, allocated empty, vanished and returned."
       " Also every history of three (thorough: four) operations out of ten.", 15)
def c26(rep, tier):
    an = analysis(rep)
    for primed in (False, True):
        xpz(an, "closed primed=%s" % primed, lambda p: closed_case(an, primed, p), rep)
    xpz(an, "closing", lambda p: closing_case(an, p), rep)
    for alloc in (None, "missing", "empty"):
        xpz(an, "unknown topic %s" % alloc, lambda p: unknown_case(an, alloc, p), rep)
    for primed in (False, True):
        for closing in (False, True):
            xpz(an, "grouped closed primed=%s closing=%s" % (primed, closing),
               lambda p: grouped_closed(an, primed, closing, p), rep)
    xpz(an, "grouped unknown", lambda p: grouped_unknown(an, p), rep)
    xpz(an, "vanishing topic", lambda p: vanishing_case(an, p), rep)
    from . import history
    history.single(an, rep, "C26", tier)
    history.group(an, rep, "C26", tier)
