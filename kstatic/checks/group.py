"""C27 C28 C29 C30 C31: the grouped consumer - coordinator, resuming, committing, rebalancing"""
import itertools

from . import check
from .wire import analysis
from .producer import domain_eq
from .consumer import Cons, by_partition, position, FATAL
from .. import spec, domain
from ..core import site, short
from ..domain import Sym
from ..scn import mod, need, ck, run, escaped, outcome, call, World, xp, xpz, name_of
from ..zk import Zoo

B3 = {1: ("k1", 9092), 2: ("k2", 9092), 3: ("k2", 9094)}
T2 = {"t": {0: 1, 1: 2, 2: 1}, "u": {0: 1, 4: 3}}
RETRY = sorted(spec.RETRIABLE)
LOADING, NOT_COORD, TOO_LARGE = 14, 16, 12
FATALS = sorted(set(FATAL + [1]) - {TOO_LARGE})


class Group(Cons):
    def __init__(self, an, p, alloc=None, coordinator=2, connect=True, brokers=B3, topics=T2, **kw):
        self.zoo = Zoo(p, an)
        self.alloc = alloc
        cls = need(mod(an, "clients.grouped"), "GroupedConsumer")
        if alloc is not None:
            kw["partition_allocator"] = self.allocate
        Cons.__init__(self, an, p, cls, brokers, topics, connect=False, group="grp", zk_hosts=["zk1", "zk2"], **kw)
        self.w.coordinator = coordinator
        for t, ps in topics.items():
            for pid in ps:
                self.w.committed[t, pid] = position(ps, pid, "committed of %s/%s" % (t, pid))
        self.offsets0 = dict(self.w.committed)
        self.others = 0
        if connect:
            self.w.ok(call(p, self.c.connect), "connecting the grouped consumer")
            self.zoo.flush()

    def me(self):
        for path, n in self.zoo.nodes.items():
            if n.ephemeral and n.owner == self.zoo.clients[0].sid:
                return path
        return None

    def allocate(self, members, partitions):
        me = self.me()
        return {me.rsplit("/", 1)[1]: {t: list(ps) for t, ps in self.alloc.items()}} if me else {}

    def mine(self):
        if self.alloc is not None:
            return {(t, pid) for t, ps in self.alloc.items() for pid in ps}
        return {(t, pid) for t, ps in self.w.topics.items() for pid in ps}

    def rebalance(self, alloc=None):
        """another member joins; with an allocation of its own for this member"""
        if alloc is not None:
            self.alloc = alloc
        self.others += 1
        self.zoo.foreign_member(self.me().rsplit("/", 1)[0], "other%d" % self.others)
        self.zoo.flush()

    def commits(self, since=0):
        """the commit requests sent -> [{(t, pid): (offset, metadata)}]"""
        out = []
        for q in self.w.of("offset_commit", since):
            ck(self.p, q.broker == self.w.coordinator, "a commit goes to broker %s, the coordinator is %s", q.broker,
               self.w.coordinator)
            ck(self.p, q.v["group"] == "grp", "a commit names the group %s", q.v["group"])
            d = {}
            for t in q.v["topics"]:
                for x in t["partitions"]:
                    k = (t["name"], x["partition_id"])
                    ck(self.p, k not in d, "a commit names %s twice", k)
                    d[k] = (x["offset"], x["metadata"])
            out.append(d)
        return out

    def same_commit(self, got, want, what, meta=None):
        """want {(t, pid): offset}"""
        ck(self.p, set(got) == set(want), "%s covers %s instead of %s", what, sorted(got), sorted(want))
        for k, off in want.items():
            ck(self.p, domain_eq(got[k][0], off), "%s has %s at %s instead of %s", what, k, got[k][0], off)
            if meta is not None:
                ck(self.p, got[k][1] == meta, "%s has the metadata %s instead of %s", what, got[k][1], meta)


# --------------------------------------------------------------------------------------- C27

def coord_case(an, hows, code, fatal, p):
    """hows: what happens to the coordinator requests, one after the other"""
    c = Group(an, p, connect=False)
    hows = list(hows)
    log = []
    if hows and hows[0] == "dead already":
        def die(client, op, path):
            if op == "add_listener":
                c.w.drop(c.w.live(B3[1])[0])
        c.zoo.before = die
        hows.pop(0)

    def policy(op):
        if op[0] == "request" and op[1].api == "group_coordinator":
            q = op[1]
            ck(p, q.v["group"] == "grp", "the coordinator of the group %s is asked for", q.v["group"])
            h = hows[len(log)] if len(log) < len(hows) else "ok"
            if log and log[-1][1] == "retriable":
                ck(p, [x for x in c.w.of("metadata", log[-1][2])],
                   "the next broker is asked for the coordinator without a heal after a retriable answer")
            log.append((q.broker, h, len(c.w.requests)))
            if h == "closes":
                c.w.drop(q.stream)
            elif h == "garbage":
                c.w.garbage(q)
            elif h in ("retriable", "fatal"):
                c.w.reply(q, {"error_code": code if h == "retriable" else fatal, "coordinator_id": 3,
                              "coordinator_host": "k2", "coordinator_port": 9094})
            else:
                return False
            return True
        return False
    what = "connecting with coordinator answers %s" % (hows,)
    f = call(p, c.c.connect)
    c.w.drive(policy, limit=60 + 4 * len(hows))
    o = c.w.result(f, what)
    seen = [x[1] for x in log]
    if o[0] == "err":
        ck(p, name_of(o[1]) == "NoBrokersError" and not c.w.live(), "%s fails with %s: %s", what, name_of(o[1]), o[1])
        return
    stop = [i for i, h in enumerate(seen) if h in ("ok", "fatal")]
    ck(p, stop and stop[0] == len(seen) - 1, "%s: the answers seen are %s", what, seen)
    n0 = len(c.w.requests)
    good = seen[-1] == "ok"
    c.zoo.flush()
    c.put("t", 0, 0)
    c.consume("t")
    first = [q for q in c.w.requests[n0:] if q.api in ("group_coordinator", "offset_fetch")]
    if good:
        ck(p, first and first[0].api == "offset_fetch" and first[0].broker == 2,
           "after %s the committed offsets are asked of %s, not of the coordinator broker 2", what, first[:1])
    else:
        ck(p, not first or first[0].api == "group_coordinator",
           "after a fatal answer the offsets are asked of broker %s nobody named", first[0].broker if first else None)
    escaped(p)


@check("C27", "path-sensitive abstract interpretation of connecting a grouped consumer: coordinator requests under every sequence of outcomes",
       "Three brokers, every sequence of up to three outcomes, every error code.", 300)
def c27(rep, tier):
    an = analysis(rep)
    outs = ["ok", "retriable", "closes", "garbage", "fatal"]
    n = 4 if tier == "thorough" else 3
    for k in range(n + 1):
        for hows in itertools.product(outs, repeat=k):
            if any(h in ("ok", "fatal") for h in hows[:-1]):
                continue
            xpz(an, "answers %s" % (hows,), lambda p: coord_case(an, hows, 15, -1, p), rep)
            if k and k < n:
                xpz(an, "one dead, answers %s" % (hows,),
                   lambda p: coord_case(an, ("dead already",) + hows, 15, -1, p), rep)
    for code in RETRY:
        xpz(an, "code %s" % code, lambda p: coord_case(an, ("retriable",), code, -1, p), rep)
    for code in FATALS + [TOO_LARGE]:
        xpz(an, "fatal code %s" % code, lambda p: coord_case(an, ("fatal",), 6, code, p), rep)
    xpz(an, "all lost", lambda p: coord_case(an, ("closes",) * 3, 15, -1, p), rep)
    for b in (1, 2, 3):
        for shift in (0, 1):
            xp(an, "coordinator %s, ids from %s" % (b, 1 - shift), lambda p: coord_is(an, b, shift, p), rep)
    for n in (8, 50):
        xpz(an, "%s retriable answers" % n, lambda p: coord_case(an, ("retriable",) * n, 15, -1, p), rep)
        xpz(an, "%s retriable answers, then a fatal one" % n,
            lambda p: coord_case(an, ("retriable",) * n + ("fatal",), 15, -1, p), rep)
    for how in ("retriable", "closes", "garbage", "retriable twice"):
        xpz(an, "brokers replaced, %s" % how, lambda p: replaced_case(an, how, p), rep)


def replaced_case(an, how, p):
    """the first broker asked has no answer, and the metadata then names other brokers"""
    c = Group(an, p, {"t": [0, 1]}, connect=False)
    c.w.ids.update({("k1", 9095): 4, ("k5", 9096): 5})
    st = {"n": 0}

    def policy(op):
        if op[0] == "request" and op[1].api == "group_coordinator" and st["n"] < (2 if "twice" in how else 1):
            q = op[1]
            st["n"] += 1
            if st["n"] == 1:
                c.w.brokers = {4: ("k1", 9095), 5: ("k5", 9096)}
                c.w.topics = {"t": {0: 4, 1: 5}, "u": {0: 4}}
                c.w.coordinator = 5
            if how == "closes":
                c.w.drop(q.stream)
            elif how == "garbage":
                c.w.garbage(q)
            else:
                c.w.reply(q, {"error_code": 15, "coordinator_id": -1, "coordinator_host": "", "coordinator_port": -1})
            return True
        return False
    what = "connecting while all brokers are replaced (%s)" % how
    c.w.ok(call(p, c.c.connect), what, policy)
    c.zoo.flush()
    c.put("t", 0, 0)
    n0 = len(c.w.requests)
    r, _ = c.consume("t")
    got = {(q.api, q.broker) for q in c.w.requests[n0:] if q.api in ("offset_fetch", "offset_commit")}
    ck(p, got == {("offset_fetch", 5), ("offset_commit", 5)} and r == [("msg", "t", 0, 0)],
       "after %s consume delivers %s with the group requests %s", what, r, sorted(got))
    escaped(p)


def coord_is(an, b, shift, p):
    p.shift = shift
    c = Group(an, p, coordinator=b)
    c.put("t", 0, 0)
    n0 = len(c.w.requests)
    c.consume("t")
    got = {(q.api, q.broker) for q in c.w.requests[n0:] if q.api in ("offset_fetch", "offset_commit")}
    ck(p, got == {("offset_fetch", b), ("offset_commit", b)}, "with the coordinator %s the group requests are %s", b,
       sorted(got))
    n = len(c.w.of("group_coordinator"))
    ck(p, n == 1, "the coordinator is asked for %s times although the first answer names it", n)
    escaped(p)


# --------------------------------------------------------------------------------------- C28

def resume_case(an, alloc, rounds, p):
    """rounds: per offset fetch {pid: code} | "closes" | "garbage" | "dead already" """
    c = Group(an, p, alloc)
    mine = sorted(pid for t, pid in c.mine() if t == "t")
    for pid in mine:
        c.put("t", pid, 0)
    n0 = len(c.w.requests)
    rounds = list(rounds)
    seen, seen_all = [], []
    if rounds and rounds[0] == "dead already":
        c.w.drop(c.w.live(B3[2])[0])
        run(p)
        rounds.pop(0)
        seen.append(("lost", None))

    def policy(op):
        if op[0] == "request" and op[1].api == "offset_fetch":
            q = op[1]
            ck(p, q.v["group_name"] == "grp", "the offsets of the group %s are asked for", q.v["group_name"])
            ck(p, [t["name"] for t in q.v["topics"]] == ["t"], "an offset fetch names %s", q.v["topics"])
            ck(p, sorted(q.v["topics"][0]["partitions"]) == mine, "the committed offsets of the partitions %s are asked for instead of %s",
               sorted(q.v["topics"][0]["partitions"]), mine)
            ck(p, q.broker == c.w.coordinator, "committed offsets are asked of broker %s instead of the coordinator", q.broker)
            h = rounds[len(seen_all)] if len(seen_all) < len(rounds) else {}
            seen_all.append(h)
            if h == "closes":
                seen.append(("lost", 1))
                c.w.drop(q.stream)
            elif h == "garbage":
                seen.append(("lost", 1))
                c.w.garbage(q)
            else:
                v = c.w.answer(q)
                for x in v["topics"][0]["partitions"]:
                    x["error_code"] = h.get(x["partition_id"], 0)
                    if x["error_code"]:
                        x["offset"] = -1
                seen.append(("codes", sorted(x["error_code"] for x in v["topics"][0]["partitions"])))
                c.w.reply(q, v)
            return True
        return c.policy(op)
    what = "resuming with the offset fetch answers %s" % (rounds,)
    starts = {("t", pid): c.start("t", pid) for pid in mine}
    for turn in range(2 * len(rounds) + 3):
        n1 = len(c.w.requests)
        s1 = len(seen)
        f = call(p, c.c.consume, "t")
        c.w.drive(policy)
        o = c.w.result(f, what)
        if o[0] == "err":
            p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        pos = c.positions(c.w.of("fetch", n1))
        new = [x for x in seen[s1:]]
        if pos:
            c.at(pos, starts, "%s: the first fetch" % what)
            ck(p, by_partition(o[1]) == {("t", pid): [0] for pid in mine}, "%s delivers %s", what, o[1])
            break
        ck(p, o[1] == [], "%s returns %s without a fetch", what, o[1])
        codes = [x for k, v in new if k == "codes" for x in v]
        bad = [x for x in codes if x in FATALS or x == TOO_LARGE]
        lost = any(k == "lost" for k, _ in seen[max(0, s1 - 1):])
        ck(p, bad or lost, "%s: a retriable answer %s is not asked again", what, codes)
    else:
        p.violation("%s: nothing is fetched after the trouble has ended" % what)
    # an answer with a fatal code may be given up as a whole
    all_codes = [x for k, v in seen if k == "codes" and not set(v) & set(FATALS + [TOO_LARGE]) for x in v]
    if any(x in RETRY and x != LOADING for x in all_codes):
        ck(p, c.w.of("metadata", n0), "%s does not heal the cluster", what)
    if any(k == "lost" for k, _ in seen) or NOT_COORD in all_codes:
        ck(p, c.w.of("group_coordinator", n0), "%s: the coordinator is not looked up again", what)
    escaped(p)


def moved_case(an, how, p):
    """the coordinator moves to another broker"""
    c = Group(an, p, coordinator=2)
    c.put("t", 0, 0)
    c.put("u", 0, 0)
    c.consume("t")
    c.w.coordinator = 3
    n0 = len(c.w.requests)

    def policy(op):
        if op[0] == "request" and op[1].api in ("offset_fetch", "offset_commit") and op[1].broker == 2:
            q = op[1]
            if how == "closes":
                c.w.drop(q.stream)
            else:
                v = c.w.answer(q)
                for t in v["topics"]:
                    for x in t["partitions"]:
                        x["error_code"] = NOT_COORD
                c.w.reply(q, v)
            return True
        return c.policy(op)
    got = []
    for i in range(3):
        f = call(p, c.c.consume, "u")
        c.w.drive(policy)
        o = c.w.result(f, "consuming after the coordinator moved")
        if o[0] == "err":
            p.violation("consuming after the coordinator moved fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
        got += o[1]
    ck(p, got == [("msg", "u", 0, 0)], "after the coordinator moved consume delivers %s", got)
    last = [q for q in c.w.requests[n0:] if q.api in ("offset_fetch", "offset_commit")][-1]
    ck(p, last.broker == 3, "after the coordinator moved the last %s goes to broker %s", last.api, last.broker)
    escaped(p)


@check("C28", "path-sensitive abstract interpretation of a grouped consumer's first consume: offset fetches, retries and the positions fetched from",
       "Whole and partial allocations, every error code, mixes over partitions, lost and moving coordinators."
       " Also every history of three (thorough: four) operations out of ten, with and without autocommit.", 500)
def c28(rep, tier):
    an = analysis(rep)
    allocs = [None, {"t": [0, 1, 2]}, {"t": [1]}, {"t": [0, 2], "u": [4]}, {"t": [2, 1]}]
    for a in allocs:
        xpz(an, "allocation %s" % (a,), lambda p: resume_case(an, a, [], p), rep)
        for tr in ([{1: 6}], [{2: LOADING}], [{1: -1}], ["closes"]):
            xpz(an, "allocation %s answers %s" % (a, tr), lambda p: resume_case(an, a, tr, p), rep)
    for code in RETRY + FATALS + [TOO_LARGE]:
        xpz(an, "code %s" % code, lambda p: resume_case(an, {"t": [0, 1]}, [{1: code}], p), rep)
    sample = [0, 6, LOADING, NOT_COORD, -1]
    for a, b, d in itertools.product(sample, repeat=3):
        xpz(an, "codes %s %s %s" % (a, b, d), lambda p: resume_case(an, {"t": [0, 1, 2]}, [{0: a, 1: b, 2: d}], p), rep)
    steps = [{1: 6}, {0: LOADING}, {1: NOT_COORD}, {0: -1}, "closes", "garbage"]
    for n in ((2, 3) if tier == "thorough" else (2,)):
        for rs in itertools.product(steps, repeat=n):
            if sum(r in ("closes", "garbage") for r in rs) < 2:
                xpz(an, "answers %s" % (rs,), lambda p: resume_case(an, {"t": [0, 1]}, rs, p), rep)
    for r in ([], [{1: 6}], [{0: -1}]):
        xpz(an, "coordinator dead, then %s" % (r,), lambda p: resume_case(an, {"t": [0, 2]}, ["dead already"] + r, p), rep)
    for r in ({1: 6}, {0: LOADING}, {1: NOT_COORD}, {0: -1}, {0: 6, 1: LOADING}):
        xpz(an, "14 answers %s" % (r,), lambda p: resume_case(an, {"t": [0, 1]}, [r] * 14, p), rep)
    from . import scale
    for n in (40, scale.upto(an, 130, 1300, *scale.READING)) if tier != "thorough" else (40, 130, 1100):
        for part in (1, 2):
            xpz(an, "%s partitions, every %s" % (n, part), lambda p: scale.wide_group(an, n, part, {}, p), rep)
    for how in ("closes", "not coordinator"):
        xpz(an, "coordinator moves, %s" % how, lambda p: moved_case(an, how, p), rep)
    from . import history
    history.group(an, rep, "C28", tier)


# --------------------------------------------------------------------------------------- C29

def commit_case(an, alloc, counts, p):
    """counts {(t, pid): messages} of a consume with autocommit"""
    c = Group(an, p, alloc)
    for (t, pid), n in counts.items():
        for i in range(n):
            c.put(t, pid, 2 * i)

    def expect(topic):
        return {(t, pid): c.start(t, pid) + (2 * counts.get((t, pid), 0) - 1 if counts.get((t, pid)) else 0)
                for t, pid in c.mine() if t == topic}
    for topic in ("t", "u", "t"):
        if not any(t == topic for t, _ in c.mine()):
            continue
        n0 = len(c.w.requests)
        c.consume(topic)
        kinds = [q.api for q in c.w.requests[n0:]]
        cs = c.commits(n0)
        ck(p, len(cs) == 1, "a consume sends %s commits", len(cs))
        ck(p, kinds[-1] == "offset_commit", "the commit comes before the fetch: %s", kinds)
        c.same_commit(cs[0], expect(topic), "the commit after consuming %s" % topic)
        for k, (off, meta) in cs[0].items():
            ck(p, isinstance(meta, str) and c.c.name in meta, "the default commit metadata is %s", meta)
    escaped(p)


def manual_case(an, meta, p):
    c = Group(an, p, {"t": [0, 1], "u": [4]}, autocommit=False)
    c.put("t", 0, 0)
    c.put("t", 1, 0)
    c.put("u", 4, 0)
    c.consume("t")
    c.put("t", 1, 1)
    c.consume("t")
    ck(p, not c.commits(), "without autocommit a commit is sent")
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets, *(() if meta is None else (meta,))), "committing")
    cs = c.commits(n0)
    ck(p, len(cs) == 1, "committing sends %s commits", len(cs))
    c.same_commit(cs[0], {("t", 0): c.start("t", 0) + 1, ("t", 1): c.start("t", 1) + 2}, "a manual commit", meta)
    if meta is None:
        ck(p, all(c.c.name in m for _, m in cs[0].values()), "the default commit metadata is %s", cs[0])
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets), "committing again")
    ck(p, not any(c.commits(n0)), "committing again commits %s", c.commits(n0))
    c.consume("u")
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets), "committing")
    c.same_commit(dict(kv for d in c.commits(n0) for kv in d.items()), {("u", 4): c.start("u", 4) + 1},
                  "a manual commit after consuming another topic")
    c.put("t", 0, 1)
    c.consume("t")
    c.consume("u")
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets, "both"), "committing")
    c.same_commit(dict(kv for d in c.commits(n0) for kv in d.items()),
                  {("t", 0): c.start("t", 0) + 2, ("t", 1): c.start("t", 1) + 2, ("u", 4): c.start("u", 4) + 1},
                  "a manual commit after consuming both topics", "both")
    escaped(p)


def unconsumed_case(an, p):
    """nothing is committed for a topic that was not fetched"""
    c = Group(an, p, {"t": [0, 1]})
    c.w.ofetch_code["t", 1] = -1
    r, qs = c.consume("t")
    ck(p, r == [] and not c.commits(), "after a failed offset fetch consume gives %s and commits %s", r, c.commits())
    r, qs = c.consume("nowhere")
    ck(p, r == [] and not c.commits(), "consuming an unknown topic commits %s", c.commits())
    r, qs = c.consume("u")
    ck(p, r == [] and not c.commits() and not qs, "consuming a topic allocated to others commits %s", c.commits())
    escaped(p)


def forgotten_case(an, how, p):
    """between the consume and the commit the metadata stops naming a topic, or some of its partitions"""
    c = Group(an, p, {"t": [0, 1], "u": [4]}, autocommit=False)
    start = {k: c.start(*k) + 1 for k in c.mine()}
    for k in c.mine():
        c.put(k[0], k[1], 0)
    c.consume("t")
    c.consume("u")
    if how == "topic":
        c.w.topic_code["t"] = 3
    elif how == "deleted":
        c.w.topics = {"u": T2["u"]}
    elif how == "all":
        c.w.topics = {}
    elif how == "partition":
        c.w.topics = {"t": {0: 1}, "u": {0: 1}}
    c.w.ok(call(p, c.c.cluster.heal), "a heal")
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets), "committing")
    c.same_commit(dict(kv for d in c.commits(n0) for kv in d.items()), {k: start[k] for k in start},
                  "a commit after the metadata lost %s" % how)
    escaped(p)


def opaque(name):
    Sym.atom("bytes(%s)" % name, 1, 32767)
    return domain.opaque_text(name)


def sticky_case(an, first, second, again, p):
    """an answer that metadata is too long concerns that commit only"""
    c = Group(an, p, {"t": [0, 1]}, autocommit=False)
    c.put("t", 0, 0)
    c.consume("t")
    todo = list(again)

    def policy(op):
        if op[0] == "request" and op[1].api == "offset_commit" and todo:
            code = todo.pop(0)
            v = c.w.answer(op[1])
            for x in v["topics"][0]["partitions"]:
                x["error_code"] = code
            c.w.reply(op[1], v)
            return True
        return c.policy(op)

    def meant(given, meta):
        return meta == given if given is not None else isinstance(meta, str) and c.c.name in meta
    for turn, given in enumerate((first, second, None)):
        n0 = len(c.w.requests)
        c.w.ok(call(p, c.c.commit_offsets, *(() if given is None else (given,))), "a commit", policy)
        cs = c.commits(n0)
        ck(p, cs and cs[0], "a commit of a consumed topic commits nothing")
        for k, (_, meta) in cs[0].items():
            ck(p, meant(given, meta), "commit %s, after one with metadata that was too long, has the metadata %s instead of %s",
               turn + 1, meta, "the consumer's name" if given is None else given)
        c.put("t", 0, turn + 1)
        c.consume("t")
    escaped(p)


@check("C29", "path-sensitive abstract interpretation of consume and commit_offsets: commit requests decoded from the abstract bytes written",
       "Allocations over two topics, message counts, manual and automatic commits, given and default metadata."
       " Also every history of three (thorough: four) operations out of ten, with and without autocommit.", 150)
def c29(rep, tier):
    an = analysis(rep)
    allocs = [None, {"t": [0, 1, 2], "u": [0, 4]}, {"t": [1]}, {"t": [2, 0], "u": [4]}, {"u": [0]}]
    for a in allocs:
        for counts in ({}, {("t", 0): 1, ("t", 1): 2, ("u", 4): 1}, {("t", 2): 3, ("u", 0): 1}):
            xpz(an, "allocation %s counts %s" % (a, counts), lambda p: commit_case(an, a, counts, p), rep)
    for meta in (None, "", "mine"):
        xpz(an, "manual %r" % (meta,), lambda p: manual_case(an, meta, p), rep)
    xpz(an, "unconsumed", lambda p: unconsumed_case(an, p), rep)
    for how in ("nothing", "topic", "deleted", "all", "partition"):
        xpz(an, "metadata lost %s" % how, lambda p: forgotten_case(an, how, p), rep)
    for first in (None, "some words"):
        for second in (None, "others"):
            for again in ([TOO_LARGE], [6, TOO_LARGE], [TOO_LARGE, 6]):
                xpz(an, "metadata %s then %s, answers %s" % (first, second, again),
                    lambda p: sticky_case(an, first, second, again, p), rep)
    from . import scale
    for n in (40, scale.upto(an, 130, 1300, *scale.READING)) if tier != "thorough" else (40, 130, 1100):
        xpz(an, "%s partitions" % n, lambda p: scale.wide_group(an, n, 1, {}, p), rep)
        xpz(an, "%s partitions with a retry" % n, lambda p: scale.wide_group(an, n, 2, {n // 2 // 2 * 2: 6}, p), rep)
    xpz(an, "opaque metadata", lambda p: manual_case(an, opaque("the metadata"), p), rep)
    from . import history
    history.group(an, rep, "C29", tier)


# --------------------------------------------------------------------------------------- C30

def answer_case(an, rounds, p):
    """rounds: per commit {(t, pid): code} | "closes" | "garbage", then everything commits"""
    c = Group(an, p, {"t": [0, 1], "u": [4]}, autocommit=False)
    c.put("t", 0, 0)
    c.put("u", 4, 0)
    c.consume("t")
    c.consume("u")
    want = {("t", 0): c.start("t", 0) + 1, ("t", 1): c.start("t", 1), ("u", 4): c.start("u", 4) + 1}
    rounds = list(rounds)
    sent = []

    def policy(op):
        if op[0] == "request" and op[1].api == "offset_commit":
            q = op[1]
            h = rounds[len(sent)] if len(sent) < len(rounds) else {}
            sent.append(q)
            if h == "closes":
                c.w.drop(q.stream)
            elif h == "garbage":
                c.w.garbage(q)
            else:
                v = c.w.answer(q)
                for t in v["topics"]:
                    for x in t["partitions"]:
                        x["error_code"] = h.get((t["name"], x["partition_id"]), 0)
                c.w.reply(q, v)
            return True
        return c.policy(op)
    pending = {"t", "u"}
    gone = None
    meta = "some words"
    what = "committing with the answers %s" % (rounds,)
    for turn in range(len(rounds) + 2):
        if not pending:
            break
        s0 = len(sent)
        n0 = len(c.w.requests)
        f = call(p, c.c.commit_offsets, "some words")
        c.w.drive(policy)
        o = c.w.result(f, what)
        if o[0] == "err":
            p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        meta = "some words"
        more, answered = True, []
        ck(p, len(sent) > s0, "%s: the topics %s are pending but no commit is sent", what, sorted(pending))
        for k in range(s0, len(sent)):
            ck(p, more, "%s: commit %s is followed by another one without need", what, k)
            h = rounds[k] if k < len(rounds) else {}
            q = sent[k]
            if gone:
                here = c.w.requests.index(q)
                ck(p, [x for x in c.w.of("group_coordinator", gone) if c.w.requests.index(x) < here],
                   "%s: the lost coordinator is not looked up before the next commit", what)
                gone = None
            got = {(t["name"], x["partition_id"]): (x["offset"], x["metadata"]) for t in q.v["topics"] for x in t["partitions"]}
            c.same_commit(got, {x: v for x, v in want.items() if x[0] in pending}, "%s: commit %s" % (what, k), meta)
            if h in ("closes", "garbage"):
                more = False
                gone = c.w.requests.index(q)
                continue
            codes = {x: h.get(x, 0) for x in got}
            for t in list(pending):
                if not any(v for x, v in codes.items() if x[0] == t):
                    pending.discard(t)
            vals = [v for v in codes.values() if v]
            if NOT_COORD in vals:
                gone = c.w.requests.index(q)
            answered += vals
            more = any(v in RETRY or v == TOO_LARGE for v in vals)
            if TOO_LARGE in vals:
                meta = ""
        ck(p, not more, "%s: the commit is not retried", what)
        if any(x in RETRY for x in answered):
            ck(p, c.w.of("metadata", n0), "%s does not heal the cluster", what)
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets), "committing again", policy)
    ck(p, not any(c.commits(n0)), "%s: committed topics are committed again: %s", what, c.commits(n0))
    escaped(p)


@check("C30", "path-sensitive abstract interpretation of commit_offsets under every mix of answer codes: commit requests sent next",
       "Two topics with three partitions, every error code, mixes, lost coordinators, up to three rounds."
       " Also every history of three (thorough: four) operations out of ten, with and without autocommit.", 800)
def c30(rep, tier):
    an = analysis(rep)
    ks = [("t", 0), ("t", 1), ("u", 4)]
    for code in RETRY + FATALS + [TOO_LARGE]:
        for k in ks if code in (6, -1, 999, TOO_LARGE) else ks[:1]:
            xpz(an, "code %s on %s" % (code, k), lambda p: answer_case(an, [{k: code}], p), rep)
    sample = [0, 6, TOO_LARGE, -1]
    for cs in itertools.product(sample, repeat=3):
        xpz(an, "codes %s" % (cs,), lambda p: answer_case(an, [dict(zip(ks, cs))], p), rep)
    steps = [{ks[1]: 6}, {ks[0]: TOO_LARGE}, {ks[2]: -1}, "closes", "garbage", {ks[0]: 6, ks[1]: TOO_LARGE, ks[2]: 7},
             {ks[0]: NOT_COORD}]
    for n in ((2, 3) if tier == "thorough" else (2,)):
        for rs in itertools.product(steps, repeat=n):
            if sum(r in ("closes", "garbage") for r in rs) < 2:
                xpz(an, "answers %s" % (rs,), lambda p: answer_case(an, rs, p), rep)
    for r in ({ks[1]: 6}, {ks[0]: TOO_LARGE}, {ks[0]: NOT_COORD}, {ks[0]: 6, ks[2]: 7}, {ks[0]: 6, ks[1]: TOO_LARGE}):
        xpz(an, "14 answers %s" % (r,), lambda p: answer_case(an, [r] * 14, p), rep)
    from . import history
    history.group(an, rep, "C30", tier)


# --------------------------------------------------------------------------------------- C31

def rebalance_case(an, before, after, at, when, retry, p):
    """a rebalance at the at-th network operation of a consume"""
    c = Group(an, p, before)
    for t, pid in set(c.mine()) | {(t, x) for t, ps in after.items() for x in ps}:
        c.put(t, pid, 0)
    for t in sorted(before):
        if retry == "primed":
            c.consume(t)
    for t, pid in set(c.mine()) | {(t, x) for t, ps in after.items() for x in ps}:
        c.put(t, pid, 1)
    valid = {}
    if retry == "primed":
        for k in c.mine():
            valid[k] = True
    st = {"n": 0, "moved": False, "inflight": False, "asked": {}}
    n0 = len(c.w.requests)

    def go():
        c.rebalance(after)
        st["moved"] = True
        valid.clear()
        st["inflight"] = any(q.api == "fetch" and not q.done for q in c.w.requests[n0:])
        st["at"] = len(c.w.requests)

    def policy(op):
        k = st["n"]
        st["n"] += 1
        if op[0] == "request":
            for q in c.w.requests[n0:]:
                q.done = getattr(q, "done", False)
        if k == at and when == "before":
            go()
        handled = False
        if op[0] == "request":
            q = op[1]
            if q.api == "offset_commit" and retry == "retry" and not st.get("again"):
                st["again"] = True
                v = c.w.answer(q)
                for t in v["topics"]:
                    for x in t["partitions"]:
                        x["error_code"] = 7
                c.w.reply(q, v)
                handled = True
            elif c.policy(op):
                handled = True
            q.done = True
        if not handled:
            c.w.default(op)
        if k == at and when == "after":
            go()
        return True
    what = "a rebalance %s operation %s of a consume" % (when, at)
    f = call(p, c.c.consume, "t")
    c.w.drive(policy)
    o = c.w.result(f, what)
    if o[0] == "err":
        p.violation("%s makes it fail with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
    if not st["moved"]:
        return
    late = c.w.requests[st["at"]:]
    if st["inflight"]:
        ck(p, o[1] == [], "%s, with a fetch in flight, returns %s", what, o[1])
        ck(p, not [q for q in late if q.api == "offset_commit"], "%s, with a fetch in flight, commits", what)
    judge(c, p, late, what)
    # afterwards everything is determined again
    for t in sorted(after) + ["t"]:
        n1 = len(c.w.requests)
        r, qs = c.consume(t)
        judge(c, p, c.w.requests[st["at"]:], "the consume of %s after %s" % (t, what))
        mine = {k: c.start(*k) for k in c.mine() if k[0] == t}
        if t in after and not st.get(t):
            st[t] = True
            asked = {x for q in c.w.of("offset_fetch", st["at"]) for tt in q.v["topics"] if tt["name"] == t
                     for x in tt["partitions"]}
            ck(p, asked == {pid for _, pid in mine}, "after %s the committed offsets of %s are asked for: %s", what, t,
               sorted(asked))
    escaped(p)


def judge(c, p, reqs, what):
    """requests after a rebalance: only positions determined since are fetched or committed"""
    known = {}
    for q in reqs:
        if q.api == "offset_fetch":
            for t in q.v["topics"]:
                for x in t["partitions"]:
                    known.setdefault((t["name"], x), True)
        elif q.api == "fetch":
            for t in q.v["topics"]:
                for x in t["partitions"]:
                    ck(p, (t["name"], x["partition_id"]) in known,
                       "%s: %s/%s is fetched although its position was not determined again", what, t["name"], x["partition_id"])
                    ck(p, (t["name"], x["partition_id"]) in c.mine(), "%s: %s/%s is fetched although it is not allocated",
                       what, t["name"], x["partition_id"])
        elif q.api == "offset_commit":
            for t in q.v["topics"]:
                for x in t["partitions"]:
                    ck(p, (t["name"], x["partition_id"]) in known,
                       "%s: %s/%s is committed although its position was not determined again", what, t["name"], x["partition_id"])


def stale_commit_case(an, p):
    """topics left to commit before a rebalance"""
    c = Group(an, p, {"t": [0], "u": [0]}, autocommit=False)
    c.put("t", 0, 0)
    c.put("u", 0, 0)
    c.consume("t")
    c.rebalance({"t": [0, 1], "u": [0]})
    n0 = len(c.w.requests)
    c.w.ok(call(p, c.c.commit_offsets), "committing after a rebalance")
    judge(c, p, c.w.requests[n0:], "committing after a rebalance")
    c.consume("u")
    c.w.ok(call(p, c.c.commit_offsets), "committing after a rebalance")
    judge(c, p, c.w.requests[n0:], "committing another topic after a rebalance")
    escaped(p)


def two_topics_case(an, before, after, at, p):
    """two topics are consumed at once, the group is rebalanced after the answer number at; or, at -1, between the
    calls"""
    c = Group(an, p, before)
    for t, pid in set(c.mine()) | {(t, x) for t, ps in after.items() for x in ps}:
        c.put(t, pid, 0)
    st = {"n": 0, "at": None}

    def go():
        c.rebalance(after)
        st["at"] = len(c.w.requests)
    fs = [call(p, c.c.consume, "t")]
    run(p)
    if at < 0:
        go()
    fs.append(call(p, c.c.consume, "u"))

    def policy(op):
        if not c.policy(op):
            c.w.default(op)
        if st["n"] == at:
            run(p)
            go()
        st["n"] += 1
        return True
    what = "a rebalance during two consumes"
    c.w.drive(policy, "conn")
    for f in fs:
        o = c.w.result(f, what)
        if o[0] == "err":
            p.violation("%s makes one fail with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
    if st["at"] is None:
        return
    judge(c, p, c.w.requests[st["at"]:], what)
    for t in sorted(after):
        r, qs = c.consume(t)
        judge(c, p, c.w.requests[st["at"]:], "the consume of %s after %s" % (t, what))
    escaped(p)


@check("C31", "path-sensitive abstract interpretation of consume with a rebalance injected at every network operation; typestate of positions (determined since the last rebalance) over all requests",
       "Growing, shrinking, equal and disjoint allocations, rebalance before and after each operation, primed and fresh topics, commit retries."
       " Also every history of three (thorough: four) operations out of ten, with and without autocommit.", 500)
def c31(rep, tier):
    an = analysis(rep)
    pairs = [({"t": [0, 1]}, {"t": [0, 1]}), ({"t": [0]}, {"t": [0, 1, 2]}), ({"t": [0, 1, 2]}, {"t": [1]}),
             ({"t": [0]}, {"t": [1]}), ({"t": [0, 1], "u": [0]}, {"u": [0, 4]}), ({"t": [0], "u": [0]}, {"t": [1], "u": [0]})]
    for b, a in pairs:
        for at in range(7):
            for when in ("before", "after"):
                for retry in ("fresh", "primed", "retry"):
                    xpz(an, "%s to %s, %s operation %s, %s" % (b, a, when, at, retry),
                       lambda p: rebalance_case(an, b, a, at, when, retry, p), rep)
    xpz(an, "stale commit", lambda p: stale_commit_case(an, p), rep)
    for b, a in (({"t": [0], "u": [0]}, {"t": [0, 1], "u": [0, 4]}), ({"t": [0, 1], "u": [0]}, {"t": [0], "u": [4]}),
                 ({"t": [0, 1], "u": [0, 4]}, {"t": [0, 1], "u": [0, 4]})):
        for at in range(-1, 6):
            xpz(an, "two consumes, %s to %s at %s" % (b, a, at), lambda p: two_topics_case(an, b, a, at, p), rep,
                max_paths=20000)
    from . import history
    history.group(an, rep, "C31", tier)
