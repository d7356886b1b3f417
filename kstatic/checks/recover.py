"""C50: once the cluster answers again every retry ends and the client works

A budget of faults is spread in every way over the network operations of one call: connections, metadata refreshes of
the heals included.  Afterwards all brokers are healthy: the call has to end, and calling again has to work."""
import itertools

from . import check
from .wire import analysis
from .consumer import Cons, by_partition
from .group import Group
from .producer import Prod, domain_eq
from .. import spec
from ..core import site
from ..scn import mod, need, ck, call, run, escaped, name_of, xp, World

BR = {1: ("k1", 9092), 2: ("k2", 9092), 4: ("k1", 9095)}     # 4 leads nothing and never fails
TS = {"t": {0: 1, 1: 2}}
#: answers an api may give while the cluster is not well
CODES = {"offset": [6, 3], "fetch": [6, 5, 1], "produce": [6, 7], "offset_fetch": [14, 16], "offset_commit": [16, 14],
         "group_coordinator": [15], "metadata": ["election", "replica", "gone", "broker gone"]}


class Faults(object):
    """a policy that spends a budget of faults, then leaves everything to the healthy brokers"""

    def __init__(self, p, w, budget, inner=None, skip=(4,)):
        self.p, self.w, self.left, self.inner, self.skip = p, w, budget, inner, skip
        self.trail = []
        self.spent = False

    def choose(self, what, opts):
        i = self.p.choose("what happens to %s" % (what,), len(opts) + 1)
        if not i:
            return None
        self.left -= 1
        self.trail.append("%s: %s" % (what, opts[i - 1]))
        return opts[i - 1]

    def __call__(self, op):
        if self.left > 0:
            if op[0] == "connect":
                b = op[1].broker
                if b not in self.skip and self.choose("the connection to %s" % (b,), ["refused"]):
                    self.w.refuse(op[1])
                    return True
            else:
                q = op[1]
                opts = list(CODES.get(q.api, ()))
                if q.broker not in self.skip:
                    opts += ["closes", "garbage"]
                f = self.choose(q, opts)
                if f == "closes":
                    self.w.drop(q.stream)
                    return True
                if f == "garbage":
                    self.w.garbage(q)
                    return True
                if f is not None:
                    self.fault(q, f)
                    return True
        return bool(self.inner and self.inner(op))

    def fault(self, q, f):
        v = self.w.answer(q)
        if q.api == "metadata":
            if f == "broker gone":
                v["brokers"] = [b for b in v["brokers"] if b["broker_id"] != 2]
            for t in v["topics"]:
                if f == "replica":
                    t["error_code"], t["partitions"] = 9, []
                elif f == "gone":
                    t["error_code"], t["partitions"] = 3, []
                elif f == "election":
                    for x in t["partitions"][:1]:
                        x["error_code"], x["leader"] = 5, -1
        elif q.api == "group_coordinator":
            v["error_code"], v["coordinator_id"] = f, -1
        else:
            for t in v["topics"]:
                for x in t["partitions"][:1]:
                    x["error_code"] = f
                    if "offsets" in x:
                        x["offsets"] = []
                    if "message_set" in x:
                        x["message_set"] = []
        self.w.reply(q, v)


def go(p, w, faults, fn, *a, **k):
    """one call under faults: it ends"""
    what = k.pop("what")
    f = call(p, fn, *a)
    w.drive(faults, limit=150)
    after = " after %s" % "; ".join(faults.trail) if faults.trail else ""
    o = w.result(f, what + after)
    if o[0] == "err" and not k.get("may"):
        p.violation("%s fails with %s: %s%s" % (what, name_of(o[1]), o[1], after), site(o[1]))
    return o, after


STEPS = [({4: ("k1", 9095), 5: ("k5", 9096)}, {"t": {0: 4, 1: 5}}), ({5: ("k5", 9096), 6: ("k6", 9092)}, {"t": {0: 6, 1: 5}})]


class Moves(object):
    """the cluster is replaced broker by broker, at any points of a call, one known broker staying each time"""

    def __init__(self, p, w, n, inner=None):
        self.p, self.w, self.left, self.inner = p, w, n, inner
        self.step = 0
        self.trail = []
        w.ids.update({("k1", 9095): 4, ("k5", 9096): 5, ("k6", 9092): 6})

    def __call__(self, op):
        stay = STEPS[self.step][0] if self.left else {}
        if self.left and any(self.w.live(a) for a in stay.values()) and (self.step or self.w.live(BR[4])):
            if self.p.choose("the cluster moves before %s" % (op[1],), 2):
                self.move()
                if op[0] == "request" and op[1].stream.dead:
                    return True
        return bool(self.inner and self.inner(op))

    def move(self):
        w = self.w
        brokers, topics = STEPS[self.step]
        self.trail.append("move %s" % (self.step + 1))
        self.step += 1
        self.left -= 1
        w.brokers = dict(brokers)
        w.topics = {t: dict(ps) for t, ps in topics.items()}
        if w.coordinator is not None:
            w.coordinator = 5 if self.step == 1 else 6
        w.down.difference_update(brokers.values())
        for a in list(w.ids):
            if a not in brokers.values() and w.ids[a] != "boot":
                w.down.add(a)
                for s in w.live(a):
                    w.drop(s)


def leads(w, inner=None):
    """brokers that answer for the partitions they lead and the group they coordinate only"""
    def pol(op):
        if inner and inner(op):
            return True
        if op[0] != "request" or op[1].api in ("metadata", "group_coordinator"):
            return False
        q = op[1]
        v = w.answer(q)
        hit = False
        for t in v["topics"]:
            for x in t["partitions"]:
                if q.api in ("offset_fetch", "offset_commit"):
                    wrong, code = w.coordinator != q.broker, 16
                else:
                    wrong, code = w.topics.get(t["name"], {}).get(x["partition_id"]) != q.broker, 6
                if wrong:
                    hit = True
                    x["error_code"] = code
                    if "offsets" in x:
                        x["offsets"] = []
                    if "message_set" in x:
                        x["message_set"] = []
        if hit:
            w.reply(q, v)
        return hit
    return pol


def moving_single(an, n, p):
    c = Cons(an, p, None, BR, TS)
    for pid in (0, 1):
        c.put("t", pid, 0)
    got = c.consume("t")[0]
    for pid in (0, 1):
        c.put("t", pid, 1)
    f = Moves(p, c.w, n, leads(c.w, c.policy))
    o, after = go(p, c.w, f, c.c.consume, "t", what="a consume", may=True)
    if o[0] == "ok":
        got += o[1]
    settled(p, c, f, got, after)
    have = by_partition(got)
    want = {("t", pid): [0, 1] for pid in (0, 1)}
    ck(p, have == want, "calls of a cluster that was replaced%s deliver %s instead of %s", after, have, want)
    escaped(p)


def settled(p, c, f, got, after):
    f.left = 0
    for i in range(3):
        o, _ = go(p, c.w, f, c.c.consume, "t", what="a consume of a healthy cluster%s" % after)
        got += o[1]


def moving_group(an, n, auto, p):
    c = Group(an, p, {"t": [0, 1]}, brokers=BR, topics=TS, autocommit=auto)
    c.w.committed.update({k: c.start(*k) for k in c.mine()})
    pol = leads(c.w, c.policy)

    def keep(op):
        if op[0] == "request" and op[1].api == "offset_commit" and op[1].broker == c.w.coordinator:
            for t in op[1].v["topics"]:
                for x in t["partitions"]:
                    c.w.committed[t["name"], x["partition_id"]] = x["offset"]
        return pol(op)
    for pid in (0, 1):
        c.put("t", pid, 0)
    got = [] if auto else c.consume("t", policy=keep)[0]
    f = Moves(p, c.w, n, keep)
    o, after = go(p, c.w, f, *((c.c.consume, "t") if auto else (c.c.commit_offsets,)),
                  what="a consume of a group member" if auto else "a commit")
    got += (o[1] or []) if auto else []
    settled(p, c, f, got, after)
    if not auto:
        go(p, c.w, f, c.c.commit_offsets, what="a commit to a healthy cluster%s" % after)
    have = {k: sorted(set(v)) for k, v in by_partition(got).items()}
    ck(p, have == {("t", 0): [0], ("t", 1): [0]}, "a group member of a cluster that was replaced%s gets %s", after, have)
    for k in c.mine():
        ck(p, domain_eq(c.w.committed[k], c.start(*k) + 1), "a group member of a cluster that was replaced%s has committed %s/%s at %s",
           after, k[0], k[1], c.w.committed[k])
    escaped(p)


def moving_coordinator(an, n, p):
    """the lookup of the coordinator goes on while the brokers change"""
    c = Group(an, p, {"t": [0, 1]}, brokers=BR, topics=TS, connect=False)
    st = {"n": 0}

    def inner(op):
        if op[0] == "request" and op[1].api == "group_coordinator" and (f.left or f.step == 0):
            st["n"] += 1
            if st["n"] > 8:
                f.left = 0
                f.step = f.step or -1
            c.w.reply(op[1], {"error_code": 15, "coordinator_id": -1, "coordinator_host": "", "coordinator_port": -1})
            return True
        return False
    f = Moves(p, c.w, n, inner)
    o, after = go(p, c.w, f, c.c.connect, what="connecting a group member")
    ck(p, c.c.coordinator_id == c.w.coordinator, "connected%s the coordinator is %s instead of %s", after,
       c.c.coordinator_id, c.w.coordinator)
    escaped(p)


def moving_producer(an, n, p):
    pr = Prod(an, p, 3, BR, TS)
    acked = set()

    def keep(op):
        if op[0] == "request" and op[1].api == "produce":
            for t, pid, ms in pr.sets(op[1]):
                if pr.w.topics[t][pid] == op[1].broker:
                    acked.update(ms)
        return pol(op)
    pol = leads(pr.w)
    f = Moves(p, pr.w, n, keep)
    due = []
    for slot in (("t", 0), ("t", 1), ("t", 0)):
        m, fut = pr.put(slot, drive=False)
        due.append(m)
        pr.w.drive(f, limit=150)
        after = " after %s" % "; ".join(f.trail) if f.trail else ""
        o = pr.w.result(fut, "producing%s" % after)
        if o[0] == "err":
            p.violation("producing fails with %s: %s%s" % (name_of(o[1]), o[1], after), site(o[1]))
    f.left = 0
    for i in range(3):
        go(p, pr.w, f, pr.c.flush, what="a flush to a healthy cluster%s" % after)
    ck(p, acked == set(due), "flushes to a cluster that was replaced%s deliver %s of %s", after, sorted(acked), due)
    for m in due:
        ck(p, not pr.holds(m), "an acknowledged message is still held%s", after)
    escaped(p)


def connect_case(an, n, p):
    """the client of a cluster that comes up"""
    w = World(p, an, BR, TS)
    c = need(mod(an, "clients.single"), "SingleConsumer")(["b1", "b2"])
    f = Faults(p, w, n, skip=())
    o, after = go(p, w, f, c.connect, what="connecting", may=True)
    if o[0] == "err":
        ck(p, name_of(o[1]) == "NoBrokersError", "connecting%s fails with %s", after, name_of(o[1]))
        f.left = 0
        w.ok(call(p, c.connect), "connecting to a healthy cluster%s" % after)
    if set(c.cluster.topics) and not w.ops:
        w.ok(call(p, c.cluster.heal), "a heal of a connected cluster%s" % after)
    # a topic that was reported unknown is simply absent until the next heal
    ck(p, {t: dict(c.cluster.leaders[t]) for t in c.cluster.topics} in ({}, {"t": {0: 1, 1: 2}}) and
       ("gone" in after or dict(c.cluster.topics)), "connected%s the routing table is %s", after,
       {t: dict(c.cluster.leaders[t]) for t in c.cluster.topics})
    escaped(p)


def refused_case(an, bs, p):
    """after the bootstrap some brokers cannot be connected to the first time"""
    w = World(p, an, BR, TS)
    c = need(mod(an, "clients.single"), "SingleConsumer")(["b1", "b2"])
    left = {BR[b] for b in bs}

    def policy(op):
        if op[0] == "connect" and op[1].addr in left:
            left.discard(op[1].addr)
            w.refuse(op[1])
            return True
        return False
    f = call(p, c.connect)
    w.drive(policy)
    o = w.result(f, "connecting while brokers %s are refused once" % (bs,))
    if o[0] == "err":
        ck(p, name_of(o[1]) == "NoBrokersError", "connecting while brokers %s are refused once fails with %s", bs, name_of(o[1]))
        ck(p, len(bs) == len(BR), "connecting fails although only the brokers %s are refused", bs)
        return
    ck(p, set(c.cluster) == set(BR), "connected while brokers %s are refused once the brokers are %s", bs, sorted(c.cluster))
    ck(p, {t: dict(c.cluster.leaders[t]) for t in c.cluster.topics} == TS,
       "connected while brokers %s are refused once the routing table is %s", bs,
       {t: dict(c.cluster.leaders[t]) for t in c.cluster.topics})
    escaped(p)


def heal_case(an, n, lost, p):
    c = Cons(an, p, None, BR, TS)
    for b in lost:
        c.w.drop(c.w.live(BR[b])[0])
    run(p)
    f = Faults(p, c.w, n)
    o, after = go(p, c.w, f, c.c.cluster.heal, what="a heal")
    f.left = 0
    c.w.ok(call(p, c.c.cluster.heal), "the next heal%s" % after)
    ck(p, {b for b in c.c.cluster} == set(BR), "after a healthy heal%s the brokers are %s", after, sorted(c.c.cluster))
    ck(p, {t: dict(c.c.cluster.leaders[t]) for t in c.c.cluster.topics} == TS,
       "after a healthy heal%s the leaders are %s", after, dict(c.c.cluster.leaders))
    for b in BR:
        live = c.w.live(BR[b])
        ck(p, len(live) == 1, "after a healthy heal%s broker %s has %s connections", after, b, len(live))
    escaped(p)


def consume_case(an, n, first, p):
    """first: the faults hit the first consume of all (which determines the positions)"""
    c = Cons(an, p, None, BR, TS)
    for pid in (0, 1):
        c.put("t", pid, 0)
    got = []
    if not first:
        got += c.consume("t")[0]
        for pid in (0, 1):
            c.put("t", pid, 1)
    f = Faults(p, c.w, n, c.policy)
    o, after = go(p, c.w, f, c.c.consume, "t", what="a consume")
    got += o[1]
    f.left = 0
    for i in range(3):
        o, _ = go(p, c.w, f, c.c.consume, "t", what="a consume of a healthy cluster%s" % after)
        got += o[1]
    want = {("t", pid): [0] if first else [0, 1] for pid in (0, 1)}
    have = by_partition(got)
    if "garbage" in after or any(": 1" == x[-3:] for x in f.trail):
        have = {k: sorted(set(v)) for k, v in have.items()}
    if any(x.endswith(": 1") for x in f.trail):
        # an out of range position is the start position again, which this broker has at the beginning
        have = {k: sorted(set(v)) for k, v in have.items()}
    ck(p, have == want, "calls of a healthy cluster%s deliver %s instead of %s", after, have, want)
    escaped(p)


def group_policy(c):
    def pol(op):
        if op[0] == "request" and op[1].api == "offset_commit":
            for t in op[1].v["topics"]:
                for x in t["partitions"]:
                    c.w.committed[t["name"], x["partition_id"]] = x["offset"]
            return False
        return c.policy(op)
    return pol


def group_case(an, n, first, auto, p):
    c = Group(an, p, {"t": [0, 1]}, brokers=BR, topics=TS, autocommit=auto)
    c.w.committed.update({k: c.start(*k) for k in c.mine()})
    pol = group_policy(c)
    for pid in (0, 1):
        c.put("t", pid, 0)
    got = []
    if not first:
        got += c.consume("t", policy=pol)[0]
        for pid in (0, 1):
            c.put("t", pid, 1)
    f = Faults(p, c.w, n, pol)
    fn, a = (c.c.consume, ("t",)) if auto else (c.c.commit_offsets, ())
    if not auto:
        got += c.consume("t", policy=pol)[0]
    o, after = go(p, c.w, f, fn, *a, what="a consume of a group member" if auto else "a commit")
    got += (o[1] or []) if auto else []
    f.left = 0
    for i in range(3):
        o, _ = go(p, c.w, f, c.c.consume, "t", what="a consume of a healthy cluster%s" % after)
        got += o[1]
    if not auto:
        go(p, c.w, f, c.c.commit_offsets, what="a commit to a healthy cluster%s" % after)
    want = {("t", pid): [0] if first else [0, 1] for pid in (0, 1)}
    have = {k: sorted(set(v)) for k, v in by_partition(got).items()}
    ck(p, have == want, "a group member%s gets %s instead of %s", after, have, want)
    for k in c.mine():
        ck(p, domain_eq(c.w.committed[k], c.start(*k) + len(want[k])), "a group member%s has committed %s/%s at %s instead of %s",
           after, k[0], k[1], c.w.committed[k], c.start(*k) + len(want[k]))
    escaped(p)


def coordinator_case(an, n, p):
    c = Group(an, p, {"t": [0, 1]}, brokers=BR, topics=TS, connect=False)
    f = Faults(p, c.w, n, skip=("boot", ("boot", 9092), 4))
    o, after = go(p, c.w, f, c.c.connect, what="connecting a group member")
    f.left = 0
    c.zoo.flush()
    ck(p, c.c.coordinator_id == 2, "connected%s the coordinator is %s", after, c.c.coordinator_id)
    escaped(p)


def produce_case(an, n, batch, p):
    pr = Prod(an, p, batch, BR, TS)
    acked = set()

    def pol(op):
        if op[0] == "request" and op[1].api == "produce":
            for t, pid, ms in pr.sets(op[1]):
                acked.update(ms)
        return False
    f = Faults(p, pr.w, n, pol)
    due = []
    after = ""
    for slot in (("t", 0), ("t", 1), ("t", 0)):
        m, fut = pr.put(slot, drive=False)
        pr.w.drive(f, limit=150)
        after = " after %s" % "; ".join(f.trail) if f.trail else ""
        o = pr.w.result(fut, "producing%s" % after)
        if o[0] == "err":
            p.violation("producing fails with %s: %s%s" % (name_of(o[1]), o[1], after), site(o[1]))
        if pr.holds(m) or m in acked:
            due.append(m)
        else:
            ck(p, "gone" in after or "election" in after or "replica" in after,
               "a message to a known topic is dropped%s", after)
    f.left = 0
    for i in range(3):
        go(p, pr.w, f, pr.c.flush, what="a flush to a healthy cluster%s" % after)
    ck(p, acked == set(due), "flushes to a healthy cluster%s deliver %s of %s", after, sorted(acked), due)
    for m in due:
        ck(p, not pr.holds(m), "an acknowledged message is still held%s", after)
    escaped(p)


def outage(c, w, p, fn, *a):
    """every broker goes away under the client for a while"""
    for s in w.live():
        w.drop(s)
    w.down.update(BR.values())
    run(p)
    for i in range(2):
        f = call(p, fn, *a)
        w.drive(limit=60)
        o = w.result(f, "a call without any broker")
        ck(p, o[0] == "ok" or name_of(o[1]) == "NoBrokersError", "a call without any broker fails with %s", name_of(o[1]) if o[0] == "err" else "")
    w.down.clear()
    w.ok(call(p, c.connect), "connecting again after an outage")
    ck(p, set(c.cluster) == set(BR), "connected again after an outage the brokers are %s", sorted(c.cluster))


def jolt(p, w, how):
    """what makes the client heal: a connection lost, or a leader moved, all brokers well"""
    if how == "lost":
        w.drop(w.live(BR[2])[0])
        run(p)
    elif how == "moved":
        w.topics = {"t": {0: 4, 1: 1}}


def outage_single(an, how, p):
    c = Cons(an, p, None, BR, TS)
    for pid in (0, 1):
        c.put("t", pid, 0)
    got = c.consume("t")[0]
    outage(c.c, c.w, p, c.c.consume, "t")
    for pid in (0, 1):
        c.put("t", pid, 1)
    jolt(p, c.w, how)
    f = Faults(p, c.w, 0, leads(c.w, c.policy))
    settled(p, c, f, got, " after an outage, %s" % how)
    have = by_partition(got)
    ck(p, have == {("t", pid): [0, 1] for pid in (0, 1)}, "consuming around an outage (%s) gives %s", how, have)
    escaped(p)


def outage_producer(an, how, p):
    pr = Prod(an, p, 3, BR, TS)
    pol = leads(pr.w)
    m0 = pr.put(("t", 0))
    outage(pr.c, pr.w, p, pr.c.flush)
    m1 = pr.put(("t", 1))
    jolt(p, pr.w, how)
    acked = set()

    def keep(op):
        if op[0] == "request" and op[1].api == "produce":
            for t, pid, ms in pr.sets(op[1]):
                if pr.w.topics[t][pid] == op[1].broker:
                    acked.update(ms)
        return pol(op)
    f = Faults(p, pr.w, 0, keep)
    for i in range(3):
        go(p, pr.w, f, pr.c.flush, what="a flush after an outage, %s" % how)
    ck(p, m1 in acked and (m0 in acked or not pr.holds(m0)), "flushes after an outage (%s) deliver %s", how, sorted(acked))
    for m in (m0, m1):
        ck(p, not pr.holds(m), "a message is still held after an outage (%s)", how)
    escaped(p)


@check("C50", "path-sensitive abstract interpretation of every call that retries: a budget of faults spread in every way over the network operations of the call and of the heals it starts",
       "Up to two faults (quick) or three (thorough) - refused and closed connections, undecodable answers, retriable codes, elections, "
       "topics and brokers missing from metadata - at any operation of connect, heal, consume, commit and produce, then healthy brokers; "
       "one broker stays reachable throughout.", 1500)
def c50(rep, tier):
    an = analysis(rep)
    top = 3 if tier == "thorough" else 2
    big = dict(max_paths=200000, budget_s=3000)
    for n in range(top + 1):
        xp(an, "connect, %s faults" % n, lambda p: connect_case(an, n, p), rep, **big)
        for lost in ((), (1,), (1, 2)):
            xp(an, "heal, lost %s, %s faults" % (lost, n), lambda p: heal_case(an, n, lost, p), rep, **big)
        for first in (True, False):
            xp(an, "consume first=%s, %s faults" % (first, n), lambda p: consume_case(an, n, first, p), rep, **big)
            xp(an, "group consume first=%s, %s faults" % (first, n), lambda p: group_case(an, n, first, True, p), rep, **big)
        xp(an, "group commit, %s faults" % n, lambda p: group_case(an, n, True, False, p), rep, **big)
        xp(an, "coordinator, %s faults" % n, lambda p: coordinator_case(an, n, p), rep, **big)
        for batch in (1, 3):
            xp(an, "produce batch %s, %s faults" % (batch, n), lambda p: produce_case(an, n, batch, p), rep, **big)
    for n in range(1, 4):
        for bs in itertools.combinations(sorted(BR), n):
            xp(an, "refused %s" % (bs,), lambda p: refused_case(an, bs, p), rep)
    for how in ("nothing", "lost", "moved"):
        xp(an, "single outage, %s" % how, lambda p: outage_single(an, how, p), rep)
        xp(an, "producer outage, %s" % how, lambda p: outage_producer(an, how, p), rep)
    for n in (1, 2):
        xp(an, "consume, %s moves" % n, lambda p: moving_single(an, n, p), rep, **big)
        for auto in (True, False):
            xp(an, "group %s, %s moves" % ("consume" if auto else "commit", n), lambda p: moving_group(an, n, auto, p), rep, **big)
        xp(an, "coordinator, %s moves" % n, lambda p: moving_coordinator(an, n, p), rep, **big)
        xp(an, "produce, %s moves" % n, lambda p: moving_producer(an, n, p), rep, **big)
