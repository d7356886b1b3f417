"""C17 C18 C19 C20 C21: what the producer puts on the wire and what it keeps"""
import itertools

from . import check
from .wire import analysis
from .clus import BROKERS
from .client import B4
from .. import spec, domain
from ..core import site, short
from ..domain import EngineSignal, WBytes, Sym, opaque_text, encode_text
from .. import loop as L
from ..scn import (mod, need, ck, run, escaped, outcome, call, World, xpz, name_of, read_messages)

TOPICS = {"t": {0: 1, 1: 2}, "u": {0: 1}, "w": {3: 2}}
#: several partitions of one topic at one leader
MANY = {"t": {0: 1, 1: 1, 2: 1, 3: 2}, "u": {0: 1, 1: 2}, "w": {3: 2}}
SLOTS = [("t", 0), ("t", 1), ("u", 0), ("w", 3)]
FATAL = [c for c in sorted(spec.ERROR_CODES) if c and c not in spec.RETRIABLE] + [13, 999]
ALL_CODES = sorted(spec.RETRIABLE) + FATAL


class Boom(Exception):
    pass


def unsnappy(p, raw):
    """the framed stream of the snappy codec: header, then length-prefixed blocks"""
    raw = WBytes.of(raw)
    n = raw.length()
    pos = 16
    out = WBytes([])
    while not (pos == n):
        k = domain.read_num(raw[pos:pos + 4], 4, True, ">")
        out = WBytes.of(out + WBytes.of(p.uncodec("snappy", raw[pos + 4:pos + 4 + k])))
        pos = pos + 4 + k
    return out


class Prod(object):
    """a producer whose messages are numbers; slot(i) says where message i belongs"""

    def __init__(self, an, p, batch=100, brokers=None, topics=None, compression=None, keyless=(), text=False,
                 null=(), **kw):
        self.an, self.p = an, p
        self.w = World(p, an, brokers or {1: ("k1", 9092), 2: ("k2", 9092), 4: ("k1", 9095)}, topics or TOPICS)
        self.keyless = set(keyless)
        self.null = set(null)
        self.text = text
        self.compression = compression
        self.dest = {}
        self.part_calls = []
        self.n = 0
        t = self

        def serializer(m):
            return t.value(m)

        def key_maker(m):
            return t.key(m)

        def partitioner(key, parts):
            return t.choose(key, parts)
        PR = need(mod(an, "clients.producer"), "Producer")
        self.c = PR(["boot"], serializer=serializer, key_maker=key_maker, partitioner=partitioner,
                    batch_size=batch, compression=compression, **kw)
        self.w.ok(call(p, self.c.connect), "connecting the producer")
        self.order = []

    def value(self, m):
        if self.compression == 2:
            return ("value%d" % m).encode() * 3     # the snappy framing needs sizes to cut at
        if m in self.null:
            return "" if self.text else None
        Sym.atom("bytes(value%d)" % m, 1, 9999)
        return opaque_text("value%d" % m) if self.text else WBytes([("o", "value%d" % m, Sym.atom("vlen%d" % m, 1, 9999), None)])

    def key(self, m):
        if m in self.keyless:
            return None
        if self.compression == 2:
            return ("key%d" % m).encode()
        Sym.atom("bytes(key%d)" % m, 1, 99)
        return opaque_text("key%d" % m) if self.text else WBytes([("o", "key%d" % m, Sym.atom("klen%d" % m, 1, 99), None)])

    def choose(self, key, parts):
        self.part_calls.append((key, list(parts)))
        for m, (t, pid) in self.dest.items():
            if m not in self.keyless and self.same(self.key(m), key):
                ck(self.p, sorted(parts) == sorted(self.w.topics.get(t, ())),
                   "the partitioner for %s gets the partitions %s instead of %s", t, list(parts),
                   sorted(self.w.topics.get(t, ())))
                return pid
        ck(self.p, key is None and self.keyless, "the partitioner gets a key no message has: %s", key)
        return self.free

    free = 0

    @staticmethod
    def same(a, b):
        if a is None or b is None:
            return a is None and b is None
        a = encode_text(a) if isinstance(a, str) else a
        b = encode_text(b) if isinstance(b, str) else b
        if not (domain.is_byteslike(a) and domain.is_byteslike(b)):
            return False
        return spec.same(a, b) is None

    def put(self, slot, drive=True):
        """produce one message for (topic, pid)"""
        m = self.n
        self.n += 1
        self.dest[m] = slot
        f = call(self.p, self.c.produce, slot[0], m)
        if drive:
            o = self.w.finish(f, "producing a message")
            if o[0] == "err":
                self.p.violation("producing fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
            return m
        return m, f

    def ident(self, topic, pid, key, val):
        for m in range(self.n):
            if self.same(self.key(m), key) and self.same(self.value(m), val):
                return m
        self.p.violation("a message reaches %s/%s that nobody produced: key %s, value %s" % (
            topic, pid, short(key), short(val)))

    def sets(self, q):
        """[(topic, pid, [messages])] of a produce request"""
        out = []
        for t in q.v["topics"]:
            for x in t["partitions"]:
                raw = x["message_set"]
                if self.compression:
                    inner = []
                    for off, attr, key, val in raw:
                        ck(self.p, attr == self.compression,
                           "a message set says codec %s instead of %s", attr, self.compression)
                        if self.compression == 1:
                            inner += read_messages(self.p.uncodec("gzip", val))
                        else:
                            inner += read_messages(unsnappy(self.p, val))
                    raw = inner
                ms = []
                for off, attr, key, val in raw:
                    ck(self.p, attr == 0, "an uncompressed message has attributes %s", attr)
                    ms.append(self.ident(t["name"], x["partition_id"], key, val))
                out.append((t["name"], x["partition_id"], ms))
        return out

    def sent(self, since=0):
        """[(broker, topic, pid, message)] in the order of arrival"""
        out = []
        for q in self.w.of("produce", since):
            for t, pid, ms in self.sets(q):
                out += [(q.broker, t, pid, m) for m in ms or ()]
        return out

    def flush(self, what="a flush", policy=None, order="fifo"):
        n0 = len(self.w.requests)
        f = call(self.p, self.c.flush)
        self.w.drive(policy, order)
        o = self.w.result(f, what)
        if o[0] == "err":
            self.p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        return n0

    def heal(self):
        self.w.ok(call(self.p, self.c.cluster.heal), "a heal")

    def holds(self, m):
        """is message m reachable from the producer"""
        seen = set()
        stack = [self.c.__dict__]
        while stack:
            o = stack.pop()
            if id(o) in seen or isinstance(o, (int, bytes, type(None))):
                continue
            seen.add(id(o))
            if isinstance(o, (str, WBytes)):
                if self.same(o, self.value(m)) and self.value(m) is not None:
                    return True
                continue
            if isinstance(o, dict):
                stack += list(o.keys()) + list(o.values())
            elif isinstance(o, (list, tuple, set, frozenset)) or type(o).__name__ == "deque":
                stack += list(o)
            elif str(type(o).__module__).startswith("kiel") and hasattr(o, "__dict__") and not isinstance(o, type):
                if type(o).__name__ in ("Cluster", "Connection"):
                    continue
                stack.append(o.__dict__)
        return False


def check_sent(pr, since, want, what):
    """want: messages that must be on the wire since, each once, at the leader, in order per partition"""
    got = pr.sent(since)
    p = pr.p
    ms = [x[3] for x in got]
    for m in want:
        ck(p, ms.count(m) == 1, "%s sends message %s %s times instead of once", what, m, ms.count(m))
    for m in ms:
        ck(p, m in want, "%s sends message %s that was not due", what, m)
    for b, t, pid, m in got:
        ck(p, (t, pid) == pr.dest[m], "message %s for %s is sent to %s/%s", m, pr.dest[m], t, pid)
        ck(p, b == pr.w.topics[t][pid], "message %s for %s/%s goes to broker %s instead of the leader %s",
           m, t, pid, b, pr.w.topics[t][pid])


def check_order(pr, since, what):
    seqs = {}
    for b, t, pid, m in pr.sent(since):
        seqs.setdefault((t, pid), []).append(m)
    for k, s in seqs.items():
        ck(pr.p, s == sorted(s), "%s sends the messages of %s/%s in the order %s", what, k[0], k[1], s)


# --------------------------------------------------------------------------------------- C17

QUEUES = [
    [("t", 0)], [("t", 1)], [("t", 0)] * 3, [("t", 0), ("t", 1)], [("t", 1), ("t", 0), ("t", 1), ("t", 0)],
    [("t", 0), ("u", 0), ("t", 1), ("t", 0)], [("u", 0), ("t", 0), ("u", 0), ("t", 0)],
    [("w", 3), ("t", 1), ("w", 3)], [("t", 0), ("t", 1), ("u", 0), ("w", 3), ("t", 0), ("t", 1), ("u", 0), ("w", 3)],
]


def flush_case(an, slots, compression, keyless, text, null, p, topics=None):
    acks = Sym.atom("acks", -1, 32767)
    tmo = Sym.atom("ack_timeout", 0, 2 ** 31 - 1)
    pr = Prod(an, p, compression=compression, keyless=keyless, text=text, null=null, required_acks=acks,
              ack_timeout=tmo, topics=topics)
    if keyless:
        # keyless messages all belong to one partition of their topic
        pr.free = slots[0][1]
    n0 = len(pr.w.requests)
    for s in slots:
        pr.put(s)
    ck(p, not pr.w.of("produce", n0), "messages are sent before the batch is full")
    pr.flush()
    for q in pr.w.of("produce", n0):
        ck(p, domain_eq(q.v["required_acks"], acks), "a request asks for acks %s instead of the configured ones",
           q.v["required_acks"])
        ck(p, domain_eq(q.v["timeout"], tmo), "a request has the timeout %s instead of the configured one",
           q.v["timeout"])
        ck(p, bool(q.v["topics"]), "an empty produce request is sent")
        names = [t["name"] for t in q.v["topics"]]
        ck(p, len(set(names)) == len(names), "a request lists a topic twice: %s", names)
        for t in q.v["topics"]:
            ids = [x["partition_id"] for x in t["partitions"]]
            ck(p, ids and len(set(ids)) == len(ids), "a request lists partitions %s of %s", ids, t["name"])
    check_sent(pr, n0, list(range(len(slots))), "a flush")
    check_order(pr, n0, "a flush")
    n1 = pr.flush("a second flush")
    ck(p, not pr.w.of("produce", n1), "a second flush sends something again")
    escaped(p)


def domain_eq(a, b):
    d = a - b
    if isinstance(d, Sym):
        lo, hi = d.bounds()
        return lo is not None and lo == hi == 0
    return d == 0


def moved_case(an, how, p):
    """messages queued before the leader moves go to the new one"""
    pr = Prod(an, p)
    for s in (("t", 0), ("t", 1), ("t", 0), ("u", 0)):
        pr.put(s)
    if how == "leader":
        pr.w.topics["t"] = {0: 2, 1: 1}
    elif how == "partitions":
        pr.w.topics["t"] = {0: 1, 1: 4, 2: 2}
    else:
        pr.w.topics["t"] = {0: 4, 1: 4}
        pr.w.topics["u"] = {0: 4}
    pr.heal()
    n0 = pr.flush()
    check_sent(pr, n0, [0, 1, 2, 3], "a flush after the leaders moved")
    check_order(pr, n0, "a flush after the leaders moved")
    escaped(p)


def rotating_case(an, key, slots, again, p):
    """a partitioner with a memory: messages with the same key, or none, belong to different partitions"""
    pr = Prod(an, p, topics=MANY)
    left = [pid for _, pid in slots]
    calls = []

    def choose(k, parts):
        ck(p, Prod.same(k, pr.key(0)), "the partitioner gets the key %s, the messages have %s", k, pr.key(0))
        calls.append(k)
        if not left:
            p.violation("the partitioner is called more often than there are messages")
        return left.pop(0)
    pr.choose = choose
    pr.key = lambda m: key
    n0 = len(pr.w.requests)
    for s in slots:
        pr.put(s)
    if again:
        pr.w.produce_code = {("t", slots[0][1]): 6}
        pr.flush()
        pr.w.produce_code = {}
        got = pr.sent(n0)
        n0 = len(pr.w.requests)
        left = [slots[0][1]] * sum(s == slots[0] for s in slots)
    pr.flush()
    what = "a flush of messages with the key %s whose partitioner names %s" % (key, [x[1] for x in slots])
    if again:
        check_sent(pr, n0, [m for m in range(len(slots)) if slots[m] == slots[0]], what)
    else:
        check_sent(pr, n0, range(len(slots)), what)
    check_order(pr, n0, what)
    ck(p, len(calls) == len(slots) + (sum(s == slots[0] for s in slots) if again else 0),
       "the partitioner is called %s times for %s messages", len(calls), len(slots))
    escaped(p)


def default_case(an, p):
    """default serializer, key maker and partitioner"""
    w = World(p, an, BROKERS, TOPICS)
    PR = need(mod(an, "clients.producer"), "Producer")
    c = PR(["boot"])
    w.ok(call(p, c.connect), "connecting the producer")
    import json
    n0 = len(w.requests)
    msg = {"b": [1, "x"], "a": None}
    w.ok(call(p, c.produce, "t", msg), "producing")
    qs = w.of("produce", n0)
    ck(p, len(qs) == 1 and [t["name"] for t in qs[0].v["topics"]] == ["t"], "a default producer sends %s", qs)
    ps = qs[0].v["topics"][0]["partitions"]
    ck(p, len(ps) == 1 and len(ps[0]["message_set"]) == 1, "a default producer sends partitions %s", ps)
    ck(p, qs[0].broker == TOPICS["t"][ps[0]["partition_id"]], "partition %s is sent to broker %s",
       ps[0]["partition_id"], qs[0].broker)
    off, attr, key, val = ps[0]["message_set"][0]
    ck(p, key is None, "the default key is %s", key)
    ck(p, isinstance(val, bytes) and json.loads(val.decode()) == msg, "the default serializer gives %s", val)
    escaped(p)


def bad_compression(an, p):
    PR = need(mod(an, "clients.producer"), "Producer")
    World(p, an, BROKERS, TOPICS)
    for bad in (3, -1, "gzip", 5):
        try:
            PR(["boot"], compression=bad)
        except EngineSignal:
            raise
        except ValueError:
            p.oblig += 1
            continue
        p.violation("the unknown compression %r is accepted" % (bad,))


@check("C17", "path-sensitive abstract interpretation of produce and flush; the produce requests are decoded from the abstract bytes written",
       "Queues over two topics and three partitions with opaque keys and values, every codec, leaders moving in between."
       " Also every history of three or four (thorough: one more) operations out of twelve.", 700)
def c17(rep, tier):
    an = analysis(rep)
    for slots in QUEUES:
        for comp in (None, 1, 2):
            for text in (False, True):
                xpz(an, "queue %s codec %s%s" % (slots, comp, " text" if text else ""),
                   lambda p: flush_case(an, slots, comp, (), text, (), p), rep)
    for slots in ([("t", 0), ("t", 1), ("t", 2)], [("t", 2), ("t", 0), ("t", 2), ("t", 1), ("u", 0), ("t", 0)],
                  [("t", 3), ("t", 1), ("u", 1), ("u", 0), ("t", 3), ("t", 1)]):
        for comp in (None, 1):
            xpz(an, "partitions %s codec %s" % (slots, comp),
               lambda p: flush_case(an, slots, comp, (), False, (), p, MANY), rep)
    xpz(an, "keyless", lambda p: flush_case(an, [("t", 1)] * 3, None, (0, 1, 2), False, (), p), rep)
    xpz(an, "keyless mixed", lambda p: flush_case(an, [("t", 1), ("t", 1), ("t", 0)], None, (0, 1), False, (), p), rep)
    xpz(an, "keyless between", lambda p: flush_case(an, [("t", 0)] * 5, None, (0, 2, 3), False, (), p), rep)
    xpz(an, "keyless between, compressed", lambda p: flush_case(an, [("t", 1)] * 4, 1, (1, 2), True, (), p), rep)
    for key in (None, b"", b"the key"):
        for again in (False, True):
            for pids in ([0, 1], [2, 0, 0, 3], [0, 3, 1, 2, 0]):
                slots = [("t", x) for x in pids]
                xpz(an, "one key %r partitions %s%s" % (key, pids, " again" if again else ""),
                    lambda p: rotating_case(an, key, slots, again, p), rep)
    xpz(an, "null value", lambda p: flush_case(an, [("t", 1), ("t", 0), ("t", 1)], None, (), False, (1,), p), rep)
    xpz(an, "empty value", lambda p: flush_case(an, [("t", 1), ("t", 0), ("t", 1)], None, (), True, (1,), p), rep)
    for how in ("leader", "partitions", "all"):
        xpz(an, "moved %s" % how, lambda p: moved_case(an, how, p), rep)
    xpz(an, "defaults", lambda p: default_case(an, p), rep)
    from . import scale
    big = scale.upto(an, 1900, 12500, *scale.SENDING)
    for comp, n in ((None, big), (1, big), (2, 150)) if tier != "thorough" else ((None, 12100), (1, 3100), (2, 600)):
        xpz(an, "%s messages, codec %s" % (n, comp), lambda p: scale.flush_many(an, n, comp, None, p), rep)
    xpz(an, "bad compression", lambda p: bad_compression(an, p), rep)
    from . import phistory
    phistory.histories(an, rep, "C17", tier)


# --------------------------------------------------------------------------------------- C18

LOSS = ["closes", "garbage", "dead already", "write fails", "retriable", "fatal", "ok"]


def loss_case(an, first, second, p):
    """first/second: {broker: how} for the first two flushes; the third one works"""
    pr = Prod(an, p)
    w = pr.w
    slots = [("t", 0), ("t", 1), ("u", 0), ("t", 1), ("t", 0), ("w", 3)]
    for s in slots:
        pr.put(s)
    due = set(range(len(slots)))
    for k, hows in enumerate((first, second)):
        w.produce_code = {}
        for b, h in hows.items():
            s = [x for x in w.live(w.brokers[b])]
            if h == "dead already" and s:
                w.drop(s[0])
            if h == "write fails" and s:
                s[0].on_write = lambda: OSError(32, "Broken pipe")
            if h in ("retriable", "fatal"):
                for t, ps in TOPICS.items():
                    for pid, ld in ps.items():
                        if ld == b:
                            w.produce_code[t, pid] = 6 if h == "retriable" else 10
        run(p)

        def policy(op):
            if op[0] == "request" and op[1].api == "produce":
                h = hows.get(op[1].broker)
                if h == "closes":
                    w.drop(op[1].stream)
                    return True
                if h == "garbage":
                    w.garbage(op[1])
                    return True
            return False
        what = "flush %d with brokers %s" % (k + 1, hows)
        n0 = len(w.requests)
        f = call(p, pr.c.flush)
        w.drive(policy)
        o = w.result(f, what)
        if o[0] == "err":
            p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        reach = [m for m in due if hows.get(w.topics[slots[m][0]][slots[m][1]]) not in ("dead already", "write fails")]
        check_sent(pr, n0, reach, what)
        for m in list(due):
            h = hows.get(w.topics[slots[m][0]][slots[m][1]], "ok")
            if h in ("ok", "fatal"):
                due.discard(m)
    w.produce_code = {}
    n0 = pr.flush("the flush after recovery")
    check_sent(pr, n0, sorted(due), "the flush after %s then %s" % (first, second))
    n1 = pr.flush("a last flush")
    ck(p, not w.of("produce", n1), "acknowledged messages are sent again")
    for m in range(len(slots)):
        ck(p, not pr.holds(m), "the producer still holds message %s after it was acknowledged", m)
    escaped(p)


def no_leader_case(an, p):
    """the leader's connection is missing while a heal is reconnecting it"""
    pr = Prod(an, p)
    w = pr.w
    for s in (("t", 0), ("t", 1), ("t", 1), ("u", 0)):
        pr.put(s)
    w.drop(w.live(w.brokers[2])[0])
    run(p)
    h = call(p, pr.c.cluster.heal)
    hold = []

    def policy(op):
        if op[0] == "connect" and op[1].addr == w.brokers[2] and not hold:
            hold.append(op[1])
            return True
        return False
    w.drive(policy)
    if not hold:
        p.violation("a heal does not reconnect a dead broker")
    n0 = len(w.requests)
    f = call(p, pr.c.flush)
    w.drive()
    w.accept(hold[0])
    w.drive()
    o = w.result(f, "a flush while a leader has no connection")
    if o[0] == "err":
        p.violation("a flush while a leader has no connection fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    w.result(h, "the heal")
    got = [x[3] for x in pr.sent(n0)]
    for m in (0, 3):
        ck(p, got.count(m) == 1, "message %s of a working leader is sent %s times", m, got.count(m))
    rest = [m for m in (1, 2) if m not in got]
    n1 = pr.flush("the next flush")
    check_sent(pr, n1, rest, "the flush after the leader is back")
    n1 = pr.flush("a last flush")
    ck(p, not w.of("produce", n1), "acknowledged messages are sent again")
    escaped(p)


def vanished_case(an, gone, p):
    """a topic or partition leaves the metadata while messages are queued"""
    pr = Prod(an, p)
    w = pr.w
    slots = [("t", 0), ("u", 0), ("t", 1), ("u", 0)]
    for s in slots:
        pr.put(s)
    keep = {k: dict(v) for k, v in w.topics.items()}
    for t in gone:
        w.topics.pop(t)
    pr.heal()
    n0 = pr.flush("a flush after %s left the metadata" % (gone,))
    rest = [m for m in range(4) if slots[m][0] in gone]
    check_sent(pr, n0, [m for m in range(4) if m not in rest], "a flush after %s left the metadata" % (gone,))
    n0 = pr.flush("another flush without %s" % (gone,))
    ck(p, not w.of("produce", n0), "something is sent for a topic that is not there")
    w.topics = keep
    pr.heal()
    n0 = pr.flush("a flush after %s came back" % (gone,))
    check_sent(pr, n0, rest, "a flush after %s came back" % (gone,))
    n0 = pr.flush("a last flush")
    ck(p, not w.of("produce", n0), "acknowledged messages are sent again")
    escaped(p)


def lost_all_case(an, p):
    """every broker is lost during the flush; the messages are still there"""
    pr = Prod(an, p)
    w = pr.w
    for s in (("t", 0), ("t", 1)):
        pr.put(s)

    def policy(op):
        if op[0] == "request":
            w.drop(op[1].stream)
            return True
        return False
    f = call(p, pr.c.flush)
    w.drive(policy)
    o = w.result(f, "a flush while every broker is lost")
    for m in (0, 1):
        ck(p, pr.holds(m), "message %s is dropped although no broker acknowledged or rejected it", m)
    # connecting again is all the recovery there is
    w.ok(call(p, pr.c.connect), "connecting again after every broker was lost")
    n0 = pr.flush("the flush after connecting again")
    check_sent(pr, n0, [0, 1], "the flush after connecting again")
    n0 = pr.flush("a last flush")
    ck(p, not w.of("produce", n0), "acknowledged messages are sent again")
    escaped(p)


def closing_loss_case(an, how, brokers, p):
    """the flush of close meets trouble: what was neither acknowledged nor rejected is still there"""
    pr = Prod(an, p)
    w = pr.w
    slots = [("t", 0), ("t", 1), ("u", 0)]
    for s in slots:
        pr.put(s)
    fine, lost = set(), set()

    def policy(op):
        if op[0] == "request" and op[1].api == "produce":
            q = op[1]
            got = [m for _, _, ms in pr.sets(q) for m in ms]
            if q.broker not in brokers:
                fine.update(got)
                return False
            lost.update(got)
            if how == "closes":
                w.drop(q.stream)
            elif how == "garbage":
                w.garbage(q)
            else:
                v = w.answer(q)
                for t in v["topics"]:
                    for x in t["partitions"]:
                        x["error_code"] = how
                w.reply(q, v)
            return True
        return False
    f = call(p, pr.c.close)
    w.drive(policy)
    w.result(f, "closing while brokers have trouble")
    for m in lost:
        ck(p, pr.holds(m), "message %s is dropped by close although its broker did not acknowledge or reject it", m)
    for m in fine:
        ck(p, not pr.holds(m), "an acknowledged message is held after close")
    ck(p, fine | lost == {0, 1, 2}, "close sends the messages %s of three", sorted(fine | lost))
    escaped(p)


@check("C18", "path-sensitive abstract interpretation of flush histories: the fate of every queued message over up to three flushes",
       "Every kind of trouble per broker in two successive flushes, missing leader connections, topics leaving the metadata."
       " Also every history of three or four (thorough: one more) operations out of twelve.", 2000)
def c18(rep, tier):
    an = analysis(rep)
    for a1, a2 in itertools.product(LOSS, repeat=2):
        for b1, b2 in itertools.product(LOSS if tier == "thorough" else ["ok", "closes", "retriable"], repeat=2):
            if (a1, a2) == ("ok", "ok") and (b1, b2) == ("ok", "ok"):
                continue
            first, second = {1: a1, 2: b1}, {1: a2, 2: b2}
            xpz(an, "%s then %s" % (first, second), lambda p: loss_case(an, first, second, p), rep)
    xpz(an, "leader without a connection", lambda p: no_leader_case(an, p), rep)
    for gone in (("u",), ("t",), ("t", "u")):
        xpz(an, "topics %s vanish" % (gone,), lambda p: vanished_case(an, gone, p), rep)
    for how in ("closes", "garbage", 6, 7):
        for bs in ((1,), (2,), (1, 2)):
            xpz(an, "closing, brokers %s %s" % (bs, how), lambda p: closing_loss_case(an, how, bs, p), rep)
    xpz(an, "all brokers lost", lambda p: lost_all_case(an, p), rep)
    from . import scale
    for again in ("retriable", "closes"):
        n = scale.upto(an, 1900, 12500, *scale.SENDING) if tier != "thorough" else 12500
        xpz(an, "%s messages, %s" % (n, again), lambda p: scale.flush_many(an, n, None, again, p), rep)
    for how in (6, 7, "closes"):
        xpz(an, "14 rounds of %s" % how, lambda p: scale.keep_trying(an, how, 14, p), rep)
    from . import phistory
    phistory.histories(an, rep, "C18", tier)


# --------------------------------------------------------------------------------------- C19

def codes_case(an, codes, order, p, topics=None, slots=None):
    """codes {(topic, pid): code}"""
    pr = Prod(an, p, topics=topics)
    w = pr.w
    slots = slots or [("t", 0), ("t", 1), ("u", 0), ("t", 0), ("w", 3), ("t", 1)]
    for s in slots:
        pr.put(s)
    w.produce_code = dict(codes)
    meta = [0]

    def policy(op):
        if op[0] == "request" and op[1].api == "produce" and order == "reversed":
            v = w.answer(op[1])
            v["topics"].reverse()
            for t in v["topics"]:
                t["partitions"].reverse()
            w.reply(op[1], v)
            return True
        return False
    n0 = len(w.requests)
    what = "a flush answered with codes %s" % (codes,)
    f = call(p, pr.c.flush)
    w.drive(policy)
    o = w.result(f, what)
    if o[0] == "err":
        p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
    check_sent(pr, n0, range(len(slots)), what)
    retry = [m for m in range(len(slots)) if codes.get(slots[m]) in spec.RETRIABLE]
    heals = len(w.of("metadata", n0))
    ck(p, heals == (1 if retry else 0), "%s heals the cluster %s times instead of %s", what, heals, 1 if retry else 0)
    for m in range(len(slots)):
        ck(p, pr.holds(m) == (m in retry), "after %s message %s is %s", what, m,
           "still held" if m not in retry else "gone")
    w.produce_code = {}
    n1 = pr.flush("the flush after the retriable errors")
    check_sent(pr, n1, retry, "the flush after %s" % what)
    if not retry:
        ck(p, not w.of("produce", n1), "a flush sends messages again after %s", what)
    check_order(pr, n1, "the flush after the retriable errors")
    escaped(p)


@check("C19", "path-sensitive abstract interpretation of the handling of every error code per partition in produce responses",
       "Every known and two unknown codes on one partition, mixes on several, answers in any order of partitions."
       " Also every history of three or four (thorough: one more) operations out of twelve.", 1500)
def c19(rep, tier):
    an = analysis(rep)
    for code in [0] + ALL_CODES:
        xpz(an, "code %s" % code, lambda p: codes_case(an, {("t", 0): code}, "as asked", p), rep)
    sample = [0, 6, 3, 10, -1, 999]
    for a, b, c in itertools.product(sample, repeat=3):
        if tier == "quick" and len({a, b, c}) == 1:
            continue
        for order in ("as asked", "reversed"):
            cs = {("t", 0): a, ("t", 1): b, ("u", 0): c, ("w", 3): a}
            xpz(an, "codes %s %s" % (cs, order), lambda p: codes_case(an, cs, order, p), rep)
            # the partitions of one topic in one answer
            cs2 = {("t", 0): a, ("t", 1): b, ("t", 2): c, ("u", 0): b, ("t", 3): a}
            xpz(an, "one leader %s %s" % (cs2, order), lambda p: codes_case(an, cs2, order, p, MANY, [
                ("t", 0), ("t", 1), ("u", 0), ("t", 2), ("t", 3), ("t", 1), ("u", 1)]), rep)
    from . import phistory
    phistory.histories(an, rep, "C19", tier)


# --------------------------------------------------------------------------------------- C20

def batch_case(an, size, slots, retri, p):
    pr = Prod(an, p, batch=size)
    w = pr.w
    queued = []
    if retri:
        w.produce_code = {("t", 0): 6}
    for i, s in enumerate(slots):
        n0 = len(w.requests)
        m = pr.put(s)
        queued.append(m)
        full = not size or len(queued) >= size
        what = "producing message %d with batch size %s" % (i + 1, size)
        if full:
            check_sent(pr, n0, queued, what)
            check_order(pr, n0, what) if not retri else None
            queued = [m for m in queued if pr.dest[m] == ("t", 0)] if retri else []
        else:
            ck(p, not w.of("produce", n0), "%s sends %s although only %s are queued", what,
               [x[3] for x in pr.sent(n0)], len(queued))
        if not retri:
            ck(p, not w.of("metadata", n0), "%s asks for metadata", what)
    escaped(p)


def unknown_case(an, when, size, p):
    """when: the metadata knows the topic after how many refreshes"""
    pr = Prod(an, p, batch=size)
    w = pr.w
    pr.put(("t", 0)) if size > 1 else None
    n0 = len(w.requests)
    if when == 1:
        w.topics["new"] = {0: 2}
    m = pr.put(("new", 0))
    meta = len(w.of("metadata", n0))
    ck(p, meta == 1, "producing to an unknown topic refreshes the metadata %s times", meta)
    if when == 1:
        if size > 1:
            pr.flush()
        ck(p, [x for x in pr.sent(n0) if x[3] == m], "a message for a topic found by the refresh is not sent")
    else:
        ck(p, not w.of("produce", n0), "producing to an unknown topic sends something")
        w.topics["new"] = {0: 2}
        pr.heal()
        n1 = pr.flush()
        ck(p, not [x for x in pr.sent(n1) if x[3] == m], "a message for an unknown topic is queued instead of dropped")
        ck(p, not pr.holds(m), "a message for an unknown topic is kept")
        n2 = len(w.requests)
        pr.put(("new", 0))
        ck(p, not w.of("metadata", n2), "producing to a known topic refreshes the metadata")
    escaped(p)


def closing_case(an, p):
    pr = Prod(an, p, batch=1)
    w = pr.w
    gate = []

    def policy(op):
        if op[0] == "request" and op[1].api == "produce" and not gate:
            gate.append(op[1])
            return True
        return False
    pr2 = pr.put(("t", 0), drive=False)
    w.drive(policy)
    f = call(p, pr.c.close)
    run(p)
    n0 = len(w.requests)
    for s in (("t", 0), ("t", 1), ("nowhere", 0)):
        m, g = pr.put(s, drive=False)
        w.drive()
        o = w.result(g, "producing while closing")
        ck(p, o[0] == "ok", "producing while closing ends as %s", o)
        ck(p, not pr.holds(m), "a message produced while closing is accepted")
    ck(p, not w.requests[n0:], "producing while closing sends %s", w.requests[n0:])
    escaped(p)


@check("C20", "path-sensitive abstract interpretation of produce: what is on the wire after each call",
       "Batch sizes none, 0 to 4 over two topics, with and without requeued messages, unknown topics, producing while closing."
       " Also every history of three or four (thorough: one more) operations out of twelve.", 250)
def c20(rep, tier):
    an = analysis(rep)
    seqs = [[("t", 0)] * 5, [("t", 0), ("u", 0), ("t", 1), ("w", 3), ("t", 0), ("u", 0), ("t", 1)],
            [("u", 0), ("u", 0), ("t", 1), ("t", 1), ("u", 0), ("w", 3)]]
    for size in (None, 0, 1, 2, 3, 4):
        for slots in seqs:
            for retri in (False, True):
                xpz(an, "batch %s %s%s" % (size, slots, " with retries" if retri else ""),
                   lambda p: batch_case(an, size, slots, retri, p), rep)
    for when in (1, 9):
        for size in (1, 3):
            xpz(an, "unknown topic, refresh %s, batch %s" % (when, size), lambda p: unknown_case(an, when, size, p), rep)
    xpz(an, "closing", lambda p: closing_case(an, p), rep)
    from . import phistory
    phistory.histories(an, rep, "C20", tier)


# --------------------------------------------------------------------------------------- C21

def overlap_case(an, slots, batch, codes, p, topics=None):
    """produces without waiting; answers in any order; codes per request number"""
    pr = Prod(an, p, batch=batch, topics=topics)
    w = pr.w
    fs = []
    n0 = len(w.requests)
    seen = []
    verdict = {}

    def policy(op):
        if op[0] == "request" and op[1].api == "produce":
            i = w.of("produce", n0).index(op[1])
            code = codes[i] if i < len(codes) else 0
            ms = [m for _, _, l in pr.sets(op[1]) for m in l]
            for m in ms:
                verdict.setdefault(m, []).append(code)
            v = w.answer(op[1])
            for t in v["topics"]:
                for x in t["partitions"]:
                    x["error_code"] = code
            w.reply(op[1], v)
            return True
        return False
    for s in slots:
        m, f = pr.put(s, drive=False)
        fs.append(f)
    if batch > len(slots):
        fs.append(call(p, pr.c.flush))
        m, f = pr.put(slots[0], drive=False)
        fs.append(f)
        fs.append(call(p, pr.c.flush))
    w.drive(policy, "any")
    for f in fs:
        o = w.result(f, "one of several overlapping flushes")
        if o[0] == "err":
            p.violation("one of several overlapping flushes fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    for m in range(pr.n):
        vs = verdict.get(m, [])
        ck(p, vs, "message %s is not sent", m)
        for c in vs[:-1]:
            ck(p, c in spec.RETRIABLE, "message %s is sent again although it was answered with %s", m, c)
    retry = [m for m in range(pr.n) if verdict[m][-1] in spec.RETRIABLE]
    for m in range(pr.n):
        ck(p, pr.holds(m) == (m in retry), "message %s, answered with %s, is %s afterwards", m, verdict[m],
           "still held" if m not in retry else "gone")
    n1 = pr.flush("a flush afterwards")
    check_sent(pr, n1, retry, "a flush after overlapping ones")
    escaped(p)


@check("C21", "path-sensitive abstract interpretation of overlapping produce and flush calls, every order of answers",
       "Two to three requests in flight at once, to the same or different leaders, each answered with success, a retriable or a fatal code.", 600)
def c21(rep, tier):
    an = analysis(rep)
    for slots in ([("t", 0), ("t", 0)], [("t", 0), ("t", 1)], [("t", 0), ("u", 0)], [("t", 0), ("t", 1), ("t", 0)]):
        k = len(slots)
        for codes in itertools.product((0, 6, 10), repeat=k):
            xpz(an, "in flight %s codes %s" % (slots, codes), lambda p: overlap_case(an, slots, 1, codes, p), rep)
        for codes in ((0, 0, 0), (6, 0, 0), (0, 6, 0), (0, 0, 6), (6, 6, 0), (10, 6, 0)):
            xpz(an, "flushes, one leader %s codes %s" % (slots, codes),
               lambda p: overlap_case(an, slots, 9, codes, p, MANY), rep)
            xpz(an, "flushes %s codes %s" % (slots, codes), lambda p: overlap_case(an, slots, 9, codes, p), rep)
