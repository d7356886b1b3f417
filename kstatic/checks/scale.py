"""long queues, wide topics and long logs: sizes the tests do not reach, the same rules"""
import ast
import os

from .producer import Prod, TOPICS as PTOPICS
from .consumer import Cons
from .group import Group
from .. import spec, domain, models
from ..core import site
from ..domain import WBytes, Sym
from ..scn import ck, call, run, escaped, name_of

def _int(n):
    """the value of a constant expression over integers, else None"""
    if isinstance(n, ast.Constant) and type(n.value) is int:
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = _int(n.left), _int(n.right)
        if a is None or b is None:
            return None
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, (ast.Pow, ast.LShift)) and 0 <= b < 64:
            return a ** b if isinstance(n.op, ast.Pow) else a << b
    return None


def limits(an, *files):
    """the numbers the code of these files may treat sizes by: those it compares with, slices, steps or counts to, and
    its named constants"""
    out = set()
    for f in files:
        path = os.path.join(an.repo, "kiel", *f.split("/"))
        if not os.path.exists(path):
            continue
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read())
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare):
                xs = [n.left] + n.comparators
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                xs = [n.right]
            elif isinstance(n, ast.Slice):
                xs = [n.lower, n.upper, n.step]
            elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                xs = list(n.args) + [k.value for k in n.keywords] if nm in ("range", "islice", "min", "max", "deque") else []
            elif isinstance(n, ast.Assign):
                xs = [n.value]
            else:
                continue
            for x in xs:
                v = _int(x) if x is not None else None
                if v is not None:
                    out.add(abs(v))
    return out


def upto(an, n, cap, *files):
    """the size to look at: n, or one past the largest limit up to cap these files know"""
    return max([n] + [v + 1 for v in limits(an, *files) if n <= v <= cap])


def patient(an, n):
    """these paths are long because the data is, not because the code loops"""
    an.ip.max_steps = max(an.ip.max_steps, 4000000 + 2000 * n)


SENDING = ("clients/producer.py", "clients/client.py", "protocol/messages.py", "protocol/part.py", "protocol/primitives.py",
           "iterables.py", "connection.py")
READING = ("clients/consumer.py", "clients/single.py", "clients/grouped.py", "clients/client.py", "protocol/messages.py",
           "protocol/part.py", "protocol/primitives.py", "connection.py", "cluster.py")
B40 = {1: ("k1", 9092), 2: ("k2", 9092), 3: ("k2", 9094), 4: ("k1", 9095)}


class Many(Prod):
    """a producer of many messages: their values are their numbers"""
    bykey = None

    def value(self, m):
        return b"v%d" % m

    def key(self, m):
        return b"k%d" % m

    def choose(self, key, parts):
        if isinstance(key, WBytes):
            key = key.norm()
        if key is None or key[:1] != b"k" or int(key[1:]) not in self.dest:
            self.p.violation("the partitioner gets a key no message has: %s" % (key,))
        t, pid = self.dest[int(key[1:])]
        ck(self.p, sorted(parts) == sorted(self.w.topics.get(t, ())), "the partitioner for %s gets the partitions %s",
           t, list(parts))
        return pid

    def ident(self, topic, pid, key, val):
        val = val.norm() if isinstance(val, WBytes) else val
        key = key.norm() if isinstance(key, WBytes) else key
        if not isinstance(val, bytes) or val[:1] != b"v" or int(val[1:]) not in self.dest or key != b"k" + val[1:]:
            self.p.violation("a message reaches %s/%s that nobody produced: key %s, value %s" % (topic, pid, key, val))
        return int(val[1:])


def check_many(pr, since, want, what):
    """the messages wanted are on the wire since, once, at their leader and in order"""
    want = set(want)
    seqs = {}
    seen = set()
    for b, t, pid, m in pr.sent(since):
        if (t, pid) != pr.dest[m] or b != pr.w.topics[t][pid]:
            pr.p.violation("%s sends message %s for %s to %s/%s at broker %s" % (what, m, pr.dest[m], t, pid, b))
        if m in seen:
            pr.p.violation("%s sends message %s twice" % (what, m))
        seen.add(m)
        seqs.setdefault((t, pid), []).append(m)
    miss = sorted(want - seen)
    ck(pr.p, not miss, "%s leaves %s of %s messages out, the first is number %s", what, len(miss), len(want), miss[:1])
    extra = sorted(seen - want)
    ck(pr.p, not extra, "%s sends messages that are not due: %s", what, extra[:3])
    for k, s in seqs.items():
        bad = [i for i in range(1, len(s)) if s[i] < s[i - 1]]
        ck(pr.p, not bad, "%s sends the messages of %s/%s out of order at number %s", what, k[0], k[1], bad[:1])


def slots(n):
    cyc = [("t", 0), ("t", 1), ("t", 0), ("u", 0), ("w", 3), ("t", 0)]
    return [cyc[i % len(cyc)] for i in range(n)]


def flush_many(an, n, comp, again, p):
    """again: the first attempt is answered with a retriable code, or not at all"""
    patient(an, n)
    pr = Many(an, p, batch=10 ** 9, compression=comp)
    w = pr.w
    for s in slots(n):
        m = pr.n
        pr.n += 1
        pr.dest[m] = s
        f = call(p, pr.c.produce, s[0], m)
        if not f.done():
            p.violation("producing below the batch size waits")
        if f.exception() is not None:
            p.violation("producing message %s fails with %s" % (m, name_of(f.exception())), site(f.exception()))
    what = "a flush of %s messages" % n
    if again == "retriable":
        w.produce_code = {k: 6 for k in set(slots(12))}
    n0 = len(w.requests)

    def policy(op):
        if again == "closes" and op[0] == "request" and op[1].api == "produce":
            w.drop(op[1].stream)
            return True
        return False
    pr.flush(what, policy)
    check_many(pr, n0, range(n), what)
    w.produce_code = {}
    n0 = pr.flush(what)
    # the order of messages sent again is not promised after a lost connection
    check_many(pr, n0, range(n) if again else (), "a second flush after %s" % (again or "success"))
    n0 = pr.flush(what)
    ck(p, not w.of("produce", n0), "a flush of nothing sends something")
    escaped(p)


def keep_trying(an, how, rounds, p):
    """one partition has trouble for many flushes, the others have not"""
    pr = Prod(an, p)
    w = pr.w
    for s in (("t", 0), ("t", 1), ("t", 1), ("u", 0)):
        pr.put(s)
    due = [0, 1, 2, 3]
    for k in range(rounds):
        w.produce_code = {("t", 1): how} if isinstance(how, int) else {}

        def policy(op):
            if how == "closes" and op[0] == "request" and op[1].api == "produce" and op[1].broker == 2:
                w.drop(op[1].stream)
                return True
            return False
        what = "flush %s of messages that keep being %s" % (k + 1, "lost" if how == "closes" else "answered with %s" % how)
        n0 = pr.flush(what, policy)
        got = [x[3] for x in pr.sent(n0)]
        ck(p, sorted(got) == sorted(due),
           "%s sends the messages %s instead of %s", what, got, due)
        due = [m for m in due if pr.dest[m] == ("t", 1)]
        if k % 4 == 1:
            due.append(pr.put(("t", 1)))
        for m in due:
            ck(p, pr.holds(m), "%s: message %s is not held any more", what, m)
    w.produce_code = {}
    n0 = pr.flush("the flush after the trouble")
    got = sorted(x[3] for x in pr.sent(n0))
    ck(p, got == sorted(due), "after %s rounds of trouble a flush sends %s instead of %s", rounds, got, sorted(due))
    n0 = pr.flush("a last flush")
    ck(p, not w.of("produce", n0), "acknowledged messages are sent again")
    escaped(p)


# ------------------------------------------------------------------------------------ consumers

def wide(n, leaders=(1, 1, 1, 2, 3)):
    return {pid: leaders[pid % len(leaders)] for pid in range(n)}


def wide_single(an, n, p):
    """n partitions, most of them at one leader: all are asked for, fetched and delivered"""
    patient(an, n)
    topo = wide(n)
    c = Cons(an, p, None, B40, {"t": topo, "u": {0: 1}})
    for pid in range(0, n, 3):
        c.put("t", pid, 0)
    n0 = len(c.w.requests)
    r, qs = c.consume("t")
    asked = sorted(x["partition_id"] for q in c.w.of("offset", n0) for t in q.v["topics"] for x in t["partitions"])
    ck(p, asked == sorted(topo), "the start positions of %s of %s partitions are asked for", len(asked), n)
    wide_rest(c, topo, r, qs, n, p, range(n))


def wide_rest(c, topo, r, qs, n, p, mine):
    mine = list(mine)
    pos = c.positions(qs)
    ck(p, set(pos) == {("t", pid) for pid in mine}, "of %s partitions of %s leaders %s are fetched", len(mine), len(set(topo.values())), len(pos))
    for q in qs:
        ps = q.v["topics"][0]["partitions"]
        for x in ps:
            ck(p, topo[x["partition_id"]] == q.broker, "partition %s is fetched from broker %s, its leader is %s",
               x["partition_id"], q.broker, topo[x["partition_id"]])
            ck(p, x["max_bytes"] == 1024 * 1024 // len(ps), "a partition's share is %s of the limit %s for %s partitions",
               x["max_bytes"], 1024 * 1024, len(ps))
    want = sorted(pid for pid in mine if pid % 3 == 0)
    got = sorted(x[2] for x in r)
    ck(p, got == want, "of %s messages in as many partitions %s are delivered", len(want), len(got))
    r, qs = c.consume("t")
    c.at(c.positions(qs), {("t", pid): c.start("t", pid) + (1 if pid % 3 == 0 else 0) for pid in mine},
         "the second fetch of %s partitions" % len(mine))
    ck(p, r == [], "nothing new is there but %s messages are delivered", len(r))
    escaped(p)


def wide_group(an, n, part, codes, p):
    """part: every how many-th partition is allocated; codes of the first commit"""
    patient(an, n)
    topo = wide(n)
    mine = list(range(0, n, part))
    c = Group(an, p, {"t": mine}, brokers=B40, topics={"t": topo, "u": {0: 1}}, autocommit=False)
    for pid in range(0, n, 3):
        c.put("t", pid, 0)
    n0 = len(c.w.requests)
    r, qs = c.consume("t")
    asked = sorted(x for q in c.w.of("offset_fetch", n0) for t in q.v["topics"] for x in t["partitions"])
    ck(p, asked == mine, "the committed positions of %s of %s partitions are asked for", len(asked), len(mine))
    n0 = len(c.w.requests)
    left = dict(codes)

    def policy(op):
        if op[0] == "request" and op[1].api == "offset_commit" and left:
            v = c.w.answer(op[1])
            for t in v["topics"]:
                for x in t["partitions"]:
                    x["error_code"] = left.get(x["partition_id"], 0)
            left.clear()
            c.w.reply(op[1], v)
            return True
        return False
    c.w.ok(call(p, c.c.commit_offsets), "committing", policy)
    cs = c.commits(n0)
    ck(p, len(cs) == (2 if codes else 1), "a commit with %s codes takes %s requests", len(codes), len(cs))
    for d in cs:
        c.same_commit(d, {("t", pid): c.start("t", pid) + (1 if pid % 3 == 0 else 0) for pid in mine},
                      "the commit of %s partitions" % len(mine))
    wide_rest(c, topo, r, qs, n, p, mine)


class LongLog(Cons):
    """a consumer of a log with concrete values"""

    def put(self, t, pid, rel, value=None, null=False):
        ident = (t, pid, rel)
        self.raws[ident] = b"%s/%d@%d" % (t.encode(), pid, rel)
        self.values[ident] = ("msg", t, pid, rel) if value is None else value
        self.log.setdefault((t, pid), []).append((self.start(t, pid) + rel, ident))

    def deserialize(self, raw):
        if isinstance(raw, WBytes):
            raw = raw.norm()
        if isinstance(raw, bytes):
            raw = raw.decode()
        t, x = raw.split("/")
        pid, rel = x.split("@")
        return self.values[t, int(pid), int(rel)]


def long_log(an, n, p):
    """one answer with n messages of one partition"""
    patient(an, n)
    c = LongLog(an, p)
    for i in range(n):
        c.put("t", 1, i)
    c.put("t", 0, 0)
    r, qs = c.consume("t")
    got = [x[3] for x in r if x[2] == 1]
    ck(p, got == list(range(n)), "of %s messages in one answer %s are delivered, out of order: %s", n, len(got),
       got != sorted(got))
    ck(p, [x[3] for x in r if x[2] == 0] == [0], "the message of another partition is delivered as %s",
       [x for x in r if x[2] == 0])
    r, qs = c.consume("t")
    c.at(c.positions(qs), {("t", 0): c.start("t", 0) + 1, ("t", 1): c.start("t", 1) + n, ("t", 2): c.start("t", 2)},
         "the fetch after an answer of %s messages" % n)
    ck(p, r == [], "%s messages are delivered again", len(r))
    escaped(p)
