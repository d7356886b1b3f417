"""C43: clients of one process share nothing but the code"""
import itertools

from . import check
from .wire import analysis
from .client import connected
from .zoo import Zoo
from .. import spec, models
from ..core import site
from ..scn import mod, need, ck, call, run, escaped, name_of, outcome, xp, World

B = {1: ("k1", 9092), 2: ("k2", 9092)}
T = {"t": {0: 1, 1: 2}, "u": {0: 2}}


class Two(object):
    """two clients of one world: whose request it is follows from the socket"""

    def __init__(self, an, p, a, b):
        self.an, self.p = an, p
        self.w = w = World(p, an, B, T)
        w.coordinator = 1
        self.zoo = Zoo(p, an)
        self.clients, self.socks = {}, {}
        self.seq = 0
        self.acked = {}
        for n, (cls, kw) in (("a", a), ("b", b)):
            modname, _, name = cls.rpartition(".")
            kw = {k: v(n) if callable(v) else v for k, v in kw.items()}
            self.clients[n] = need(mod(an, "clients." + modname), name)(["boot"], **kw)
        for n in ("a", "b"):
            n0 = len(w.streams)
            w.ok(call(p, self.clients[n].connect), "connecting client %s of two" % n)
            self.zoo.flush()
            self.socks[n] = n0
        for k in [(t, pid) for t in T for pid in T[t]]:
            w.offsets[k] = 5
            w.committed[k] = 5
            w.log[k] = [(5 + i, None, b"%s-%d-%d" % (k[0].encode(), k[1], i)) for i in range(2)]
        w.policy = self.policy

    def policy(self, op):
        if op[0] == "request" and op[1].api == "fetch":
            q = op[1]
            v = self.w.answer(q)
            for t, qt in zip(v["topics"], q.v["topics"]):
                for x, y in zip(t["partitions"], qt["partitions"]):
                    if x["error_code"]:
                        continue
                    x["message_set"] = []
                    for off, key, val in self.w.log[t["name"], x["partition_id"]]:
                        if off >= y["offset"]:
                            x["message_set"] += spec.message_chunks(off, key, val, models.crc32)
            self.w.reply(q, v)
            return True
        if op[0] == "request" and op[1].api == "offset_commit":
            for t in op[1].v["topics"]:
                for x in t["partitions"]:
                    self.acked[op[1].v["group"], t["name"], x["partition_id"]] = x["offset"]
        return False

    def who(self, s):
        i = self.w.streams.index(s)
        return "a" if i < self.socks["b"] else "b"

    def do(self, n, fn, *a):
        """-> (result, requests) of one call; all of its traffic must be the client's own"""
        n0, a0 = len(self.w.requests), len(self.w.streams)
        dead = [s.dead for s in self.w.streams]
        f = call(self.p, getattr(self.clients[n], fn), *a)
        self.w.drive()
        o = self.w.result(f, "%s of one of two clients" % fn)
        if o[0] == "err":
            self.p.violation("%s of one of two clients fails with %s: %s" % (fn, name_of(o[1]), o[1]), site(o[1]))
        other = "b" if n == "a" else "a"
        for q in self.w.requests[n0:]:
            if self.w.streams.index(q.stream) < a0:
                ck(self.p, self.who(q.stream) == n, "%s of one client sends %s through another client", fn, q)
        for s, d in zip(self.w.streams, dead):
            if s.dead and not d:
                ck(self.p, self.who(s) == n, "%s of one client closes a connection of another", fn)
        return o[1], self.w.requests[n0:]


def positions(qs):
    return {(t["name"], x["partition_id"]): x["offset"] for q in qs if q.api == "fetch" for t in q.v["topics"]
            for x in t["partitions"]}


def tagged(n):
    return lambda raw: (n, bytes(raw) if not isinstance(raw, str) else raw.encode())


SINGLE = ("single.SingleConsumer", {"deserializer": tagged})


def consumers_case(an, ops, p):
    x = Two(an, p, ("single.SingleConsumer", {"deserializer": tagged, "max_bytes": 100, "max_wait_time": 7, "min_bytes": 3}), SINGLE)
    pos = {"a": {}, "b": {}}
    for i, (n, t) in enumerate(ops):
        mine = [(t, pid) for pid in T[t]]
        if i:            # the logs grow meanwhile, so that the consumers are at different places
            for k, l in x.w.log.items():
                l.append((5 + len(l), None, b"%s-%d-%d" % (k[0].encode(), k[1], len(l))))
        fresh = t not in {k[0] for k in pos[n]}
        r, qs = x.do(n, "consume", t)
        ck(p, bool([q for q in qs if q.api == "offset"]) == fresh,
           "a consumer %s start positions although another one consumed", "asks for no" if fresh else "asks again for")
        want = {k: pos[n].get(k, 5) for k in mine}
        ck(p, positions(qs) == want, "of two consumers one fetches %s instead of %s", positions(qs), want)
        got = sorted(r)
        exp = sorted((n, val) for k in mine for off, _, val in x.w.log[k] if off >= want[k])
        ck(p, got == exp, "of two consumers one delivers %s instead of %s", got, exp)
        for q in qs:
            if q.api == "fetch":
                ps = q.v["topics"][0]["partitions"]
                conf = (7, 3, 100 // len(ps)) if n == "a" else (1000, 1, 1024 * 1024 // len(ps))
                ck(p, (q.v["max_wait_time"], q.v["min_bytes"], ps[0]["max_bytes"]) == conf,
                   "a consumer fetches with the settings %s of another one", (q.v["max_wait_time"], q.v["min_bytes"], ps[0]["max_bytes"]))
        for k in mine:
            pos[n][k] = 5 + len(x.w.log[k])
    escaped(p)


def inflight_case(an, kind, how, first, p):
    """a request of one client is at the broker while another client's connections meet their fate"""
    if kind == "consume":
        x = Two(an, p, SINGLE, SINGLE)
        for n in ("a", "b"):
            x.do(n, "consume", "t")
        for k, l in x.w.log.items():
            l.append((5 + len(l), None, b"%s-%d-new" % (k[0].encode(), k[1])))
        args, api = ("t",), "fetch"
    else:
        def part(n):
            return lambda key, parts: sorted(parts)[-1 if n == "a" else 0]
        conf = {"serializer": ser, "key_maker": keys, "partitioner": part, "batch_size": 1}
        x = Two(an, p, ("producer.Producer", conf), ("producer.Producer", conf))
        args, api = ("t", 1), "produce"
    w = x.w
    n0 = len(w.requests)
    fs = {}
    for n in (("a", "b") if first == "a" else ("b", "a")):
        fs[n] = call(p, getattr(x.clients[n], kind), *args)
        run(p)
    # both clients' requests are out; b's fate comes first
    mine = [op for op in w.ops if op[0] == "request" and x.who(op[1].stream) == "b"]
    ck(p, len(mine) == (2 if kind == "consume" else 1), "a client sends %s requests while another one waits", len(mine))
    if how == "close":
        g = call(p, x.clients["b"].close)
        run(p)
    else:
        for op in mine:
            w.ops.remove(op)
            if how == "lost":
                w.drop(op[1].stream)
            elif how == "garbage":
                w.garbage(op[1])
            else:
                w.policy(op) or w.default(op)
            run(p)
    got = [q for q in w.requests[n0:] if q.api == api and x.who(q.stream) == "a"]
    ck(p, not any(q.stream.dead for q in got), "%s at one client closes the connection of another", how)
    ck(p, outcome(p, fs["a"])[0] == "pending", "%s at one client ends the %s of another", how, kind)
    w.drive()
    o = w.result(fs["a"], "a %s while another client meets %s" % (kind, how))
    if o[0] == "err":
        p.violation("%s at one client makes the %s of another fail with %s: %s" % (how, kind, name_of(o[1]), o[1]), site(o[1]))
    if kind == "consume":
        want = sorted(("a", b"t-%d-new" % pid) for pid in T["t"])
        ck(p, sorted(o[1]) == want, "%s at one client: the consume of another delivers %s instead of %s", how, o[1], want)
    qs = [q for q in w.requests[n0:] if q.api == "produce" and x.who(q.stream) == "a"]
    ck(p, len(qs) == (kind == "produce"), "%s at one client makes another one send %s requests", how, len(qs))
    w.result(fs["b"], "a %s met by %s" % (kind, how))
    escaped(p)


def lost_case(an, how, p):
    """what happens to one client's connections or metadata concerns no other"""
    x = Two(an, p, SINGLE, SINGLE)
    for n in ("a", "b"):
        x.do(n, "consume", "t")
    if how == "lost":
        s = [s for s in x.w.live(B[1]) if x.who(s) == "a"]
        ck(p, len(s) == 1, "a client has %s connections to a broker", len(s))
        x.w.drop(s[0])
        run(p)
    elif how == "retriable":
        x.w.fetch_code["t", 0] = 6
        x.do("a", "consume", "t")
        x.w.fetch_code.clear()
    elif how == "out of range":
        x.w.fetch_code["t", 0] = 1
        x.do("a", "consume", "t")
        x.w.fetch_code.clear()
    elif how == "unknown topic":
        x.do("a", "consume", "nowhere")
    elif how == "close":
        x.do("a", "close")
    r, qs = x.do("b", "consume", "t")
    ck(p, [q.api for q in qs] == ["fetch", "fetch"], "after %s at one consumer another one sends %s", how, [q.api for q in qs])
    ck(p, positions(qs) == {("t", 0): 7, ("t", 1): 7}, "after %s at one consumer another one fetches %s", how, positions(qs))
    if how == "close":
        r, qs = x.do("a", "consume", "t")
        ck(p, r is None and not qs, "a closed consumer consumes %s", r)
        ck(p, all(s.dead for s in x.w.streams if x.who(s) == "a"), "closing leaves a connection open")
    escaped(p)


def ser(n):
    return lambda m: ("%s%d" % (n, m)).encode()


def keys(n):
    return lambda m: ("key %s%d" % (n, m)).encode()


def producers_case(an, ops, p):
    """ops: (client, topic)"""
    def part(n):
        return lambda key, parts: sorted(parts)[0 if n == "a" else -1]
    sizes = {"a": 3, "b": 2}
    x = Two(an, p, ("producer.Producer", {"serializer": ser, "key_maker": keys, "partitioner": part, "batch_size": 3,
                                          "required_acks": 1, "ack_timeout": 11}),
            ("producer.Producer", {"serializer": ser, "key_maker": keys, "partitioner": part, "batch_size": 2, "compression": 1}))
    queued = {"a": [], "b": []}
    for i, (n, t) in enumerate(ops):
        queued[n].append((t, i))
        r, qs = x.do(n, "produce", t, i)
        sends = [q for q in qs if q.api == "produce"]
        if len(queued[n]) < sizes[n]:
            ck(p, not sends, "a producer sends with %s of %s messages because another one has some", len(queued[n]), sizes[n])
            continue
        sent(x, n, sends, queued[n])
        queued[n] = []
    for n in ("b", "a"):
        r, qs = x.do(n, "close")
        sent(x, n, [q for q in qs if q.api == "produce"], queued[n])
        queued[n] = []
    escaped(p)


def sent(x, n, qs, queue):
    from ..scn import read_messages
    p = x.p
    got = []
    for q in qs:
        conf = (q.v["required_acks"], q.v["timeout"])
        ck(p, conf == ((1, 11) if n == "a" else (-1, 500)), "a producer sends with the settings %s of another one", conf)
        for t in q.v["topics"]:
            for y in t["partitions"]:
                for off, attr, key, val in y["message_set"]:
                    ck(p, attr == (0 if n == "a" else 1), "a producer sends with the compression of another one")
                    inner = [(off, attr, key, val)] if not attr else read_messages(p.uncodec("gzip", val))
                    got += [(t["name"], y["partition_id"], bytes(k), bytes(v)) for _, _, k, v in inner]
    want = [(t, min(T[t]) if n == "a" else max(T[t]), keys(n)(i), ser(n)(i)) for t, i in queue]
    ck(p, sorted(got) == sorted(want), "of two producers one sends %s instead of %s", got, want)


def groups_case(an, ops, p):
    """members of two groups: positions, commits and allocations are their own"""
    mk = lambda g: ("grouped.GroupedConsumer", {"group": g, "zk_hosts": ["zk1"], "deserializer": tagged,
                                                "autocommit": g == "g1"})
    x = Two(an, p, mk("g1"), mk("g2"))
    x.zoo.flush()
    group = {"a": "g1", "b": "g2"}
    seen = {"a": set(), "b": set()}
    for n, t in ops:
        if t == "rebalance":
            c = x.zoo.clients[0 if n == "a" else 1]
            path = [q for q, nd in x.zoo.nodes.items() if nd.ephemeral and nd.owner == c.sid]
            ck(p, len(path) == 1, "a group member has %s nodes", len(path))
            x.zoo.foreign_member(path[0].rsplit("/", 1)[0], "aaa%d" % x.seq)
            x.seq += 1
            x.zoo.flush()
            seen[n] = set()
            other = x.clients["b" if n == "a" else "a"]
            ck(p, {t_: set(v) for t_, v in other.allocation.items()} == {t_: set(T[t_]) for t_ in T}
               or any(o == ("b" if n == "a" else "a", "rebalance") for o in ops),
               "a rebalance of one group changes the allocation of another to %s", other.allocation)
            continue
        mine = {(t, pid) for pid in x.clients[n].allocation.get(t, ())}
        before = dict(x.acked)
        r, qs = x.do(n, "consume", t)
        if not mine:
            continue
        ck(p, any(q.api == "offset_fetch" for q in qs) == (t not in seen[n]),
           "a group member %s the committed offsets because of another group", "asks for" if t in seen[n] else "does not ask for")
        seen[n].add(t)
        for q in qs:
            if q.api == "offset_fetch":
                ck(p, q.v["group_name" if "group_name" in q.v else "group"] == group[n], "offsets of another group are asked for")
        done = {k: v for k, v in x.acked.items() if before.get(k) != v}
        ck(p, all(k[0] == group[n] for k in done), "a member of %s commits %s", group[n], sorted(done))
        commits = [q for q in qs if q.api == "offset_commit"]
        ck(p, len(commits) == (1 if n == "a" else 0), "a member of %s sends %s commits", group[n], len(commits))
        for q in commits:
            ck(p, {y["name"] for y in q.v["topics"]} == {t}, "consuming %s commits the topics %s", t,
               sorted(y["name"] for y in q.v["topics"]))
    escaped(p)


def messages_case(an, p):
    """requests, messages and answers are their own"""
    P = lambda m, c: need(mod(an, "protocol." + m), c)
    req = []
    for i in range(2):
        r = P("offset", "OffsetRequest")(replica_id=i, topics=[P("offset", "TopicRequest")(name="t%d" % i, partitions=[])])
        r.topics[0].partitions.append(P("offset", "PartitionRequest")(partition_id=i, time=-1, max_offsets=1))
        req.append(r)
    for i, r in enumerate(req):
        ck(p, [t.name for t in r.topics] == ["t%d" % i] and [x.partition_id for x in r.topics[0].partitions] == [i],
           "one request shows up in another: %s", [t.name for t in r.topics])
    escaped(p)


CL = {"a": ({1: ("k1", 9092), 2: ("k2", 9092)}, {"t": {0: 1, 1: 2}, "u": {0: 2}}, "boota"),
      "b": ({1: ("m1", 9092), 7: ("m7", 9092)}, {"t": {0: 7, 1: 1, 2: 7}, "v": {0: 1}}, "bootb")}


def clusters_case(an, kinds, ops, p):
    """a client of one cluster and a client of another one: routing tables, brokers and topics are their own"""
    w = World(p, an, {}, {})
    home = {}
    for n, (brokers, topics, boot) in CL.items():
        home[boot] = n
        for b, addr in brokers.items():
            home[addr[0]] = n
            w.ids[addr] = b
    state = {n: (dict(v[0]), {t: dict(ps) for t, ps in v[1].items()}) for n, v in CL.items()}
    w.offsets = {(t, pid): 5 for n in CL for t in state[n][1] for pid in state[n][1][t]}
    w.offsets.update({("x", 0): 5})

    def policy(op):
        if op[0] == "request":
            w.brokers, w.topics = state[home[op[1].stream.addr[0]]]
        return False
    w.policy = policy
    clients = {}
    for n, kind in zip("ab", kinds):
        modname, _, name = kind.rpartition(".")
        kw = {"partitioner": lambda key, parts: sorted(parts)[-1], "serializer": lambda m: b"m%d" % m} \
            if name == "Producer" else {"deserializer": bytes}
        clients[n] = need(mod(an, "clients." + modname), name)([CL[n][2]], **kw)
        w.ok(call(p, clients[n].connect), "connecting a client of the %s cluster" % ("first", "second")["ab".index(n)])
    for i, (n, what, t) in enumerate(ops):
        n0, a0 = len(w.requests), len(w.streams)
        alive = [s.dead for s in w.streams]
        if what == "move":
            ts = state[n][1]
            bs = sorted(state[n][0])
            for tt in ts:
                ts[tt] = {pid: bs[(bs.index(ld) + 1) % len(bs)] for pid, ld in ts[tt].items()}
            ts["x"] = {0: bs[0]}
            f = call(p, clients[n].cluster.heal)
        elif kinds["ab".index(n)] == "producer.Producer":
            f = call(p, clients[n].produce, t, i)
        else:
            f = call(p, clients[n].consume, t)
        w.drive()
        o = w.result(f, "%s at one of two clusters" % what)
        if o[0] == "err":
            p.violation("%s at one of two clusters fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        for q in w.requests[n0:]:
            ck(p, home[q.stream.addr[0]] == n, "a client of one cluster asks a broker of another one (%s)", q)
        for s in w.streams[a0:]:
            ck(p, home[s.addr[0]] == n, "a client of one cluster connects to %s of another one", s.addr)
        ck(p, not any(s.dead and not d and home[s.addr[0]] != n for s, d in zip(w.streams, alive)),
           "a client of one cluster closes a connection to another one")
        topics = state[n][1]
        ck(p, {tt: dict(clients[n].cluster.leaders[tt]) for tt in clients[n].cluster.topics} == topics,
           "the routing table of one cluster is %s instead of %s",
           {tt: dict(clients[n].cluster.leaders[tt]) for tt in clients[n].cluster.topics}, topics)
        ck(p, set(clients[n].cluster) == set(state[n][0]), "the brokers of one cluster are %s instead of %s",
           sorted(clients[n].cluster), sorted(state[n][0]))
        if what == "move":
            continue
        sent = {(y["name"], x["partition_id"], q.broker) for q in w.requests[n0:] if q.api in ("fetch", "produce")
                for y in q.v["topics"] for x in y["partitions"]}
        if kinds["ab".index(n)] == "producer.Producer":
            want = {(t, max(topics[t]), topics[t][max(topics[t])])} if t in topics else set()
        else:
            want = {(t, pid, ld) for pid, ld in topics.get(t, {}).items()}
        ck(p, sent == want, "with two clusters the requests for %s are %s (topic, partition, broker) instead of %s", t,
           sorted(sent), sorted(want))
    escaped(p)


@check("C43", "path-sensitive abstract interpretation of two clients in one process",
       "Two single consumers, two producers, members of two groups and clients of two clusters with settings of their own: sequences of calls, lost connections, "
       "error answers, rebalances and closes of one of them.", 300)
def c43(rep, tier):
    an = analysis(rep)
    n = 5 if tier == "thorough" else 4
    for ops in itertools.product([("a", "t"), ("b", "t"), ("b", "u")], repeat=n):
        xp(an, "consumers %s" % (ops,), lambda p: consumers_case(an, ops, p), rep)
    for how in ("lost", "retriable", "out of range", "unknown topic", "close"):
        xp(an, "consumers %s" % how, lambda p: lost_case(an, how, p), rep)
    for kind in ("consume", "produce"):
        for how in ("lost", "garbage", "close", "answered"):
            for first in ("a", "b"):
                xp(an, "%s in flight, %s, %s first" % (kind, how, first),
                   lambda p: inflight_case(an, kind, how, first, p), rep)
    for ops in itertools.product([("a", "t"), ("b", "t"), ("b", "u"), ("a", "u")], repeat=n):
        xp(an, "producers %s" % (ops,), lambda p: producers_case(an, ops, p), rep)
    for ops in itertools.product([("a", "t"), ("b", "t"), ("a", "u"), ("b", "rebalance"), ("a", "rebalance")], repeat=n - 1):
        xp(an, "groups %s" % (ops,), lambda p: groups_case(an, ops, p), rep)
    xp(an, "requests", lambda p: messages_case(an, p), rep)
    for kinds in itertools.product(("single.SingleConsumer", "producer.Producer"), repeat=2):
        for ops in itertools.product([("a", "use", "t"), ("b", "use", "t"), ("a", "use", "v"), ("b", "use", "v"), ("b", "use", "u"),
                                      ("a", "move", None), ("b", "move", None)], repeat=n - 2):
            xp(an, "clusters %s %s" % (kinds, ops), lambda p: clusters_case(an, kinds, ops + (("a", "use", "t"), ("b", "use", "t")), p), rep)
