"""Histories of the consumers: every sequence of a few operations, each answered by brokers that keep
logs, positions and leaders of their own.  The oracle follows the answers: what a broker said is what
the consumer has to know."""
import itertools

from .consumer import Cons
from .group import Group
from .. import spec, models
from ..core import short, site, PathStop, Violation
from ..scn import ck, call, run, escaped, name_of, xpz

TS = {"t": {0: 1, 1: 2}, "u": {0: 2}}
TG = {"t": {0: 1, 1: 2, 2: 3}, "u": {0: 1, 4: 3}}
ALLOCS = [{"t": [0, 1], "u": [0]}, {"t": [1, 2], "u": [0]}, {"u": [0, 4]}]


class Hist(object):
    """mixed into Cons or Group"""
    grouped = False

    def setup(self, prop, topics):
        self.prop = prop
        self.begin, self.end, self.msgs = {}, {}, {}
        for t in topics:
            for pid in topics[t]:
                k = (t, pid)
                self.begin[k], self.end[k], self.msgs[k] = 3, 9 + pid, []
        self.pos = {}
        self.synced = set()
        self.view = {}
        self.due = set()
        self.force_fetch, self.force_commit = {}, {}
        self.drop_commit = False
        self.now = None
        self.trail = []

    def say(self, props, cond, fmt, *args):
        if self.prop in props:
            ck(self.p, cond, "after %s: " % ", ".join(self.trail) + fmt, *args)
        elif not cond:
            raise PathStop()          # broken, but another property's business

    def deserialize(self, raw):
        return raw if isinstance(raw, str) else raw.decode("utf-8")

    # -- brokers
    def leader(self, k):
        return self.w.topics.get(k[0], {}).get(k[1])

    def policy(self, op):
        if op[0] != "request":
            return False
        f = getattr(self, "on_" + op[1].api, None)
        return f(op[1]) if f else False

    def on_metadata(self, q):
        self.view = {t: dict(ps) for t, ps in self.w.topics.items()}
        if self.now:
            self.now["metadata"] += 1
        return False

    def on_fetch(self, q):
        out = []
        if self.now["view"] is None:
            self.now["view"] = {t: dict(ps) for t, ps in self.view.items()}
        for t in q.v["topics"]:
            ps = []
            self.say(("C22",), t["name"] == self.now["topic"], "a fetch for %s names %s", self.now["topic"], t["name"])
            for x in t["partitions"]:
                k = (t["name"], x["partition_id"])
                off = x["offset"]
                self.say(("C22", "C31") if self.grouped else ("C22",), k in self.mine_of(k[0]),
                         "%s/%s is fetched but is not allocated", *k)
                self.say(("C22",), k not in self.now["fetched"], "%s/%s is fetched twice in one call", *k)
                self.say(("C22",), self.now["view"].get(k[0], {}).get(k[1]) == q.broker,
                         "%s/%s is fetched from broker %s, the metadata names %s", k[0], k[1], q.broker,
                         self.now["view"].get(k[0], {}).get(k[1]))
                self.say(("C25", "C28", "C31", "C24"), k[0] in self.synced or self.now["got"] >= self.mine_of(k[0]),
                         "%s/%s is fetched although its position is not determined", *k)
                self.say(("C22", "C23", "C24", "C25", "C28", "C31"), off == self.pos.get(k),
                         "%s/%s is fetched at %s, its position is %s", k[0], k[1], off, self.pos.get(k))
                self.now["fetched"].add(k)
                code = self.force_fetch.pop(k, None)
                if code is None:
                    code = 3 if self.leader(k) is None else 6 if self.leader(k) != q.broker else \
                        1 if not self.begin[k] <= off <= self.end[k] else 0
                ch = []
                if code == 0:
                    for o, text in self.msgs[k]:
                        if o >= off:
                            ch += spec.message_chunks(o, None, text.encode(), models.crc32)
                            self.now["texts"].setdefault(k, []).append(text)
                            self.pos[k] = o + 1
                elif code == 1:
                    self.now["lost position"] = True
                ps.append({"partition_id": k[1], "error_code": code, "highwater_mark_offset": 100, "message_set": ch})
            out.append({"name": t["name"], "partitions": ps})
        self.w.reply(q, {"topics": out})
        return True

    def on_offset(self, q):
        v = self.w.answer(q)
        for t, vt in zip(q.v["topics"], v["topics"]):
            self.say(("C25",), t["name"] == self.now["topic"] and t["name"] not in self.synced,
                     "start positions of %s are asked for although they are known", t["name"])
            for x, vx in zip(t["partitions"], vt["partitions"]):
                k = (t["name"], x["partition_id"])
                self.say(("C25",), x["time"] == self.now["start"], "the start asked for is %s instead of %s", x["time"],
                         self.now["start"])
                code = 3 if self.leader(k) is None else 6 if self.leader(k) != q.broker else 0
                vx["error_code"] = code
                vx["offsets"] = [] if code else [self.end[k] if x["time"] == -1 else self.begin[k]]
                if not code:
                    self.pos[k] = vx["offsets"][0]
                    self.now["got"].add(k)
                else:
                    self.now["retried"] = True
        self.w.reply(q, v)
        return True

    def on_offset_fetch(self, q):
        v = self.w.answer(q)
        for t, vt in zip(q.v["topics"], v["topics"]):
            self.say(("C28", "C31"), t["name"] not in self.synced,
                     "committed offsets of %s are asked for although its positions are in force", t["name"])
            self.say(("C28",), set(t["partitions"]) == {pid for _, pid in self.mine_of(t["name"])},
                     "committed offsets of %s are asked for the partitions %s, allocated are %s", t["name"],
                     sorted(t["partitions"]), sorted(self.mine_of(t["name"])))
            for vx in vt["partitions"]:
                k = (t["name"], vx["partition_id"])
                if q.broker != self.w.coordinator:
                    vx["error_code"], vx["offset"] = 16, -1
                    self.now["retried"] = True
                else:
                    self.pos[k] = vx["offset"] = self.w.committed[k]
                    self.now["got"].add(k)
        self.w.reply(q, v)
        return True

    def on_offset_commit(self, q):
        now = self.now
        due = set(self.due)
        ready = self.synced - ({now["topic"]} if now["lost position"] else set())
        if now["topic"] and now["got"] >= self.mine_of(now["topic"]) and not now["lost position"]:
            ready.add(now["topic"])
        if now["topic"] in ready and not now["manual"]:
            due.add(now["topic"])
        self.say(("C29",), self.auto or now["manual"], "without autocommit a commit is sent")
        want = {k for t in due & ready for k in self.mine_of(t)}
        got = {(t["name"], x["partition_id"]): x["offset"] for t in q.v["topics"] for x in t["partitions"]}
        self.say(("C29", "C30", "C31"), set(got) == want, "a commit covers %s instead of %s", sorted(got), sorted(want))
        for k in got:
            self.say(("C29", "C31"), got[k] == self.pos.get(k), "a commit puts %s/%s at %s, its position is %s", k[0],
                     k[1], got[k], self.pos.get(k))
        now["commits"] += 1
        self.due = due
        if self.drop_commit:
            self.drop_commit = False
            now["commit lost"] = True
            self.w.drop(q.stream)
            return True
        v = self.w.answer(q)
        now["commit again"] = False
        for t in v["topics"]:
            bad = False
            for x in t["partitions"]:
                k = (t["name"], x["partition_id"])
                code = 16 if q.broker != self.w.coordinator else self.force_commit.pop(k, 0)
                x["error_code"] = code
                if code:
                    bad = True
                    now["commit again"] = now["commit again"] or code in spec.RETRIABLE
                else:
                    self.w.committed[k] = got[k]
            if not bad:
                self.due.discard(t["name"])
        self.w.reply(q, v)
        return True

    # -- operations
    def mine_of(self, t):
        if self.grouped:
            return {k for k in self.mine() if k[0] == t}
        return {(t, pid) for pid in self.view.get(t, ())}

    def call_(self, fn, *a, **k):
        what = k.pop("what")
        f = call(self.p, fn, *a)
        self.w.drive()
        o = self.w.result(f, "after %s: %s" % (", ".join(self.trail), what))
        if o[0] == "err":
            self.p.violation("after %s: %s fails with %s: %s" % (", ".join(self.trail), what, name_of(o[1]), o[1]),
                             site(o[1]))
        return o[1]

    def frame(self, topic=None, start=-1, manual=False):
        self.now = {"topic": topic, "start": start, "manual": manual, "metadata": 0, "fetched": set(), "view": None,
                    "got": set(), "texts": {}, "lost position": False, "retried": False, "commits": 0,
                    "commit lost": False, "commit again": False}
        return self.now

    def eat(self, t, *a):
        """one consume call"""
        for k in self.begin:
            if k[0] == t and self.leader(k) is not None:
                o = self.end[k]
                self.msgs[k].append((o, "%s/%s@%s#%d" % (k[0], k[1], o, len(self.trail))))
                self.end[k] = o + 1
        now = self.frame(t, a[0] if a else -1)
        known = bool(self.mine_of(t)) and (self.grouped or t in self.view)
        was = t in self.synced
        start_view = {x: dict(ps) for x, ps in self.view.items()}
        alive = {b for b in self.w.brokers if self.w.live(self.w.brokers[b])}
        r = self.call_(self.c.consume, t, *a, what="consuming %s" % t)
        if not known:
            self.say(("C26",), now["metadata"] >= 1, "consuming the unknown topic %s does not refresh the metadata", t)
        mine = self.mine_of(t)
        if known and not self.grouped:       # what the call had to go by; the topic may be gone by now
            mine = {(t, pid) for pid in start_view[t]}
        if not mine:
            self.say(("C26",), r == [] and not now["fetched"], "consuming the unknown topic %s returns %s, fetches %s", t, r,
                     sorted(now["fetched"]))
            return
        ok = was or bool(now["got"]) and now["got"] >= mine
        if not ok:
            self.say(("C25", "C28"), r == [] and not now["fetched"], "without start positions of %s consume returns %s, fetches %s",
                     t, r, sorted(now["fetched"]))
            self.say(("C25", "C28"), not alive >= set(self.w.brokers) or now["retried"] and not self.leaders_known(start_view, mine),
                     "consuming %s determines no positions", t)
            return
        self.synced.add(t)
        view = now["view"] or (start_view if was else self.view)
        want = {k for k in mine if view.get(k[0], {}).get(k[1]) in alive}
        self.say(("C22", "C25", "C28"), now["fetched"] == want, "consuming %s fetches %s instead of %s", t,
                 sorted(now["fetched"]), sorted(want))
        if now["lost position"]:
            self.synced.discard(t)
        if self.grouped and now["lost position"]:
            self.say(("C24", "C31"), r == [], "a grouped consumer that lost its position returns %s", r)
        else:
            got = {}
            self.say(("C23",), isinstance(r, list) and all(isinstance(x, str) for x in r), "consume returns %s", r)
            for x in r:
                n, _, rest = x.partition("/")
                got.setdefault((n, int(rest.partition("@")[0])), []).append(x)
            self.say(("C23", "C24"), got == now["texts"], "consuming %s delivers %s instead of %s", t, got, now["texts"])
        if self.grouped:
            if t in self.synced:
                self.due.add(t) if not now["commits"] else None
                if self.auto:
                    c = self.w.brokers.get(self.w.coordinator)
                    self.say(("C29",), now["commits"] >= 1, "consuming %s commits nothing", t)
                    self.say(("C30",), not now["commit again"], "a commit with a retriable answer is not repeated")
                else:
                    self.say(("C29",), not now["commits"], "without autocommit a commit is sent")
            else:
                self.say(("C29", "C31"), not now["commits"], "a consume without valid positions commits")

    def leaders_known(self, view, mine):
        return all(view.get(k[0], {}).get(k[1]) == self.leader(k) for k in mine)

    def commit(self):
        now = self.frame(None, manual=True)
        self.call_(self.c.commit_offsets, what="committing")
        if any(t in self.synced and self.mine_of(t) for t in self.due):
            self.say(("C29", "C30"), now["commits"] >= 1 and (now["commit lost"] or now["commit again"]),
                     "the topics %s stay uncommitted", sorted(self.due))


class HSingle(Hist, Cons):
    deserialize = Hist.deserialize
    policy = Hist.policy
    auto = False

    OPS = ["consume", "from beginning", "other topic", "restart", "trim", "leaders move", "broker lost",
           "topic toggles", "retriable", "unknown code"]

    def __init__(self, an, p, prop):
        self.setup(prop, TS)
        Cons.__init__(self, an, p, None, topics=TS, connect=False)
        self.w.policy = self.policy
        self.call_(self.c.connect, what="connecting")

    def op(self, name):
        k0, k1 = ("t", 0), ("t", 1)
        self.trail.append(name)
        a = ()
        if name == "other topic":
            return self.eat("u")
        if name == "from beginning":
            a = (-2,)
        elif name == "restart":
            self.begin[k0] = self.end[k0] = 0
            self.msgs[k0] = []
        elif name == "trim":
            self.begin[k1] = self.end[k1] = self.end[k1] + 20
            self.msgs[k1] = []
        elif name == "leaders move":
            if "t" in self.w.topics:
                self.w.topics["t"] = {pid: 3 - b for pid, b in self.w.topics["t"].items()}
        elif name == "broker lost":
            for s in self.w.live(self.w.brokers[1]):
                self.w.drop(s)
            run(self.p)
        elif name == "topic toggles":
            if "t" in self.w.topics:
                self.kept = self.w.topics.pop("t")
            else:
                self.w.topics["t"] = self.kept
        elif name == "retriable":
            self.force_fetch = {k0: 6}
        elif name == "unknown code":
            self.force_fetch = {k1: 999}
        self.eat("t", *a)
        self.force_fetch = {}


class HGroup(Hist, Group):
    deserialize = Hist.deserialize
    policy = Hist.policy
    grouped = True

    OPS = ["consume", "other topic", "same again", "rebalance", "out of range", "retriable", "commit refused",
           "coordinator lost", "coordinator moves", "leaders move"]

    def __init__(self, an, p, prop, auto):
        self.setup(prop, TG)
        self.auto = auto
        self.turn = 0
        Group.__init__(self, an, p, ALLOCS[0], connect=False, topics=TG, autocommit=auto)
        self.w.policy = self.policy
        for k in self.begin:
            self.w.committed[k] = self.begin[k] + 2
        self.frame()
        self.call_(self.c.connect, what="connecting")
        self.zoo.flush()

    def elsewhere(self, ks):
        """other members make progress on partitions while they own them"""
        for k in ks:
            self.w.committed[k] = self.end[k] = max(self.w.committed[k], self.end[k]) + 5

    def op(self, name):
        k0 = sorted(self.mine())[0]
        self.trail.append(name)
        if name == "other topic":
            return self.eat("u")
        if name == "commit":
            return self.commit()
        if name in ("same again", "rebalance"):
            before = self.mine()
            if name == "same again":
                self.elsewhere(before)
            else:
                self.elsewhere(set(self.begin) - before)
                self.turn += 1
            self.frame()
            self.rebalance(ALLOCS[self.turn % len(ALLOCS)])
            self.synced.clear()
            run(self.p)
        elif name == "out of range":
            self.force_fetch = {k0: 1}
            self.w.committed[k0] = 4
        elif name == "retriable":
            self.force_fetch = {k0: 6}
        elif name == "commit refused":
            self.force_commit = {k0: -1}
        elif name == "coordinator lost":
            self.drop_commit = True
        elif name == "coordinator moves":
            self.w.coordinator = 5 - self.w.coordinator
        elif name == "leaders move":
            for t, ps in self.w.topics.items():
                self.w.topics[t] = {pid: b % 3 + 1 for pid, b in ps.items()}
        self.eat("t")
        self.force_fetch, self.force_commit = {}, {}
        self.drop_commit = False


def walk(make, ops, first, n, p):
    h = make(p)
    for name in first:
        h.op(name)
    for _ in range(n - len(first)):
        h.op(ops[p.choose("next operation", len(ops))])
    escaped(p)


def length(tier):
    """number of operations; the flows reused by other checks go without histories"""
    return {"thorough": 4, "quick": 3}.get(tier, tier if isinstance(tier, int) else 0)


def single(an, rep, prop, tier):
    n = length(tier)
    if not n:
        return
    for first in itertools.product(HSingle.OPS, repeat=2):
        xpz(an, "history %s" % (first,), lambda p: walk(lambda q: HSingle(an, q, prop), HSingle.OPS, first, n, p), rep,
           max_paths=20000, budget_s=3000)


def group(an, rep, prop, tier, autos=(True, False)):
    n = length(tier)
    if not n:
        return
    for auto in autos:
        ops = [o for o in HGroup.OPS if auto or o not in ("coordinator lost", "commit refused")] + ([] if auto else ["commit"])
        for first in itertools.product(ops, repeat=2):
            xpz(an, "group history %s autocommit=%s" % (first, auto),
               lambda p: walk(lambda q: HGroup(an, q, prop, auto), ops, first, n, p), rep, max_paths=20000, budget_s=3000)
