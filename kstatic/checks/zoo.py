"""C32 C33 C34 C35 C36: sharing partitions among a group through ZooKeeper"""
import itertools
import json

from . import check
from .wire import analysis
from .group import Group
from ..core import site, short, Violation
from ..domain import EngineSignal
from ..scn import mod, need, ck, run, escaped, outcome, call, xp, name_of
from ..zk import Zoo, KClient


# --------------------------------------------------------------------------------------- C32

class HStr(str):
    """a text whose place in hash tables is chosen: what depends on it differs between processes"""
    salt = 0

    def __hash__(self):
        return (str.__len__(self) * 7919 + sum(ord(x) * (i + 1) for i, x in enumerate(self))) * HStr.salt ^ HStr.salt

    def __eq__(self, o):
        return str.__eq__(self, o)

    def __ne__(self, o):
        return not str.__eq__(self, o)


def spread(n, m, topics, odd=False):
    if odd:      # names that differ in case, in surrounding whitespace or in a sign only
        members = sorted(["Host:1", "host:1", " host:1", "host:1 ", "host:01", "host-:1", "h\u00f6st:1", "host:10", "1"][:n])
    else:
        members = sorted("host%02d.example:%d" % (i * 7 % 10, 140000 + i) for i in range(n))
    assert len(set(members)) == n
    parts = sorted("%s:%d" % (topics[i % len(topics)], i // len(topics)) for i in range(m))
    return members, parts


def naive_case(an, n, m, topics, p, odd=False):
    fn = need(mod(an, "clients.grouped"), "naive_allocator")
    members, parts = spread(n, m, topics, odd)
    results = []
    for salt in (1, -1, 3):
        HStr.salt = salt
        ms, ps = [HStr(x) for x in members], [HStr(x) for x in parts]
        r = fn(ms, ps)
        ck(p, ms == members and ps == parts, "the default allocator changes its arguments")
        results.append({str(k): {str(t): list(v) for t, v in d.items()} for k, d in r.items()})
        fn([HStr("other")], [HStr("x:0"), HStr("x:1")])
    r = results[0]
    ck(p, all(x == r for x in results[1:]), "the default allocation of %s members and %s partitions varies", n, m)
    seen = []
    for k, d in r.items():
        ck(p, k in members, "partitions are given to %s, which is no member", k)
        for t, pids in d.items():
            for pid in pids:
                ck(p, type(pid) is int, "an allocated partition id is %s", repr(pid))
                seen.append("%s:%d" % (t, pid))
    ck(p, sorted(seen) == (parts if n else []), "%s members and %s partitions: allocated are %s instead of %s", n, m,
       sorted(seen), parts)
    if n:
        sizes = [sum(len(v) for v in r.get(k, {}).values()) for k in members]
        ck(p, max(sizes) - min(sizes) <= 1, "%s members get shares of %s", n, sizes)


@check("C32", "abstract interpretation of the default allocator over all list sizes, with chosen hash orders",
       "Up to six members and fourteen partitions over up to three topics.", 200)
def c32(rep, tier):
    an = analysis(rep)
    big = tier == "thorough"
    for n in range(10 if big else 7):
        for m in range(30 if big else 15):
            for topics in (["a"], ["b.c", "a-b", "a_1"], ["t10", "t9"]):
                xp(an, "%s members %s partitions %s" % (n, m, topics), lambda p: naive_case(an, n, m, topics, p), rep)
    for n, m in ((3, 600), (7, 1201), (40, 10), (300, 100), (70, 700)):
        for topics in (["a"], ["b.c", "a-b", "a_1"]):
            xp(an, "%s members %s partitions %s" % (n, m, topics), lambda p: naive_case(an, n, m, topics, p), rep)
    for n in range(2, 10):
        for m in (1, n, 2 * n + 1):
            xp(an, "%s members with odd names, partitions %s" % (n, m),
               lambda p: naive_case(an, n, m, ["a", "A", "a_"], p, True), rep)
    for k in (1, 2, 3):
        xp(an, "group of %s" % k, lambda p: whole_group(an, k, p), rep)


def whole_group(an, k, p):
    """k grouped consumers in one group"""
    g = Group(an, p)
    zoo = g.zoo
    consumers = [g.c]
    cls = need(mod(an, "clients.grouped"), "GroupedConsumer")
    for i in range(1, k):
        c = cls(["boot"], "grp", ["zk1"])
        g.w.ok(call(p, c.connect), "connecting another consumer")
        consumers.append(c)
    zoo.flush()
    got = [(t, pid) for c in consumers for t, ps in c.allocation.items() for pid in ps]
    want = sorted((t, pid) for t, ps in g.w.topics.items() for pid in ps)
    ck(p, sorted(got) == want, "a group of %s shares %s instead of %s", k, sorted(got), want)


# --------------------------------------------------------------------------------------- C33

class Alloc(object):
    """a partition allocator of its own, with a recording allocation function"""

    def __init__(self, an, p, shares=None, eager=False, callback=True):
        self.an, self.p = an, p
        self.zoo = Zoo(p, an)
        self.zoo.eager = eager
        self.calls = []
        self.rebalances = []
        self.shares = shares
        t = self

        def fn(members, partitions):
            p.ev("allocate", list(members), list(partitions))
            t.calls.append((members, partitions))
            r = {m: {"share %d of %s" % (len(t.calls), m): [len(t.calls)]} for m in members
                 if t.shares is None or m in t.shares}
            t.last = r
            return r

        def on_rebalance():
            t.rebalances.append((len(t.calls), t.a.allocation))
        cls = need(mod(an, "zookeeper.allocator"), "PartitionAllocator")
        kw = {"on_rebalance": on_rebalance} if callback else {}
        self.a = cls(["zk1", "zk2"], "grp", "me:1", allocator_fn=fn, **kw)

    @property
    def client(self):
        return self.zoo.clients[0]

    def go(self, seed):
        f = call(self.p, self.a.start, seed)
        run(self.p)
        return outcome(self.p, f)

    def paths(self):
        return (self.client.child_watches[0].path, self.client.data_watches[0].path)


def sequence_case(an, steps, eager, shares, p, before=(), stored=()):
    """before, stored: the members and partitions the group has when this member starts"""
    x = Alloc(an, p, shares, eager)
    for m in before:
        x.zoo.foreign_member(MEMBERS, m)
    if stored:
        x.zoo.do_create(PATH, json.dumps(list(stored)).encode(), 7, False, True)
    o = x.go({"t": [0, 1]})
    ck(p, o[0] == "ok", "starting the allocator ends as %s", o)
    x.zoo.flush()
    mpath, ppath = x.paths()
    members, parts = {"me:1"} | set(before), {"t:0", "t:1"} | set(stored)
    prev = None
    for s in [("nothing", None)] + list(steps):
        n, r = len(x.calls), len(x.rebalances)
        if s[0] == "join":
            x.zoo.foreign_member(mpath, s[1])
            members.add(s[1])
        elif s[0] == "leave":
            x.zoo.do_delete(mpath + "/" + s[1])
            members.discard(s[1])
        elif s[0] == "members":          # several changes the watch tells of at once
            for m in sorted(members - set(s[1])):
                x.zoo.do_delete(mpath + "/" + m)
            for m in sorted(set(s[1]) - members):
                x.zoo.foreign_member(mpath, m)
            members = set(s[1])
        elif s[0] == "parts":
            x.zoo.foreign_set(ppath, json.dumps(list(s[1])).encode())
            parts = set(s[1])
        elif s[0] == "same members":
            x.zoo.changed_children(mpath)
        elif s[0] == "same parts":
            x.zoo.changed(ppath)
        elif s[0] == "reordered":
            x.zoo.foreign_set(ppath, json.dumps(sorted(parts, reverse=True)).encode())
        elif s[0] == "suspended":
            x.client.tell("SUSPENDED")
            x.client.tell("CONNECTED")
            x.zoo.changed_children(mpath)
            x.zoo.changed(ppath)
        elif s[0] == "lost":             # the session expires, its node with it
            x.client.tell("LOST")
            members.discard("me:1")
            x.client.tell("CONNECTED")
            x.zoo.changed_children(mpath)
        x.zoo.flush()
        state = (sorted(members), sorted(parts))
        if prev is not None:
            want = 1 if state != prev else 0
            ck(p, len(x.calls) - n == want, "after %s the allocation function is called %s times instead of %s", s[0],
               len(x.calls) - n, want)
            ck(p, len(x.rebalances) - r == want, "after %s the rebalance callback is called %s times instead of %s", s[0],
               len(x.rebalances) - r, want)
        else:
            ck(p, len(x.rebalances) == len(x.calls), "while starting the allocation function is called %s times "
               "and the rebalance callback %s times", len(x.calls), len(x.rebalances))
        prev = state
        ck(p, x.calls, "the allocation function is not called")
        got = x.calls[-1]
        ck(p, list(got[0]) == state[0] and list(got[1]) == state[1],
           "after %s the allocation function gets %s instead of %s", s[0], got, state)
        want = x.last.get("me:1", {})
        ck(p, dict(x.a.allocation) == want, "after %s the allocation is %s instead of %s", s[0], x.a.allocation, want)
        if x.rebalances:
            k, seen = x.rebalances[-1]
            ck(p, k == len(x.calls) and dict(seen) == want,
               "the rebalance callback sees the allocation %s instead of %s", seen, want)


def quiet_case(an, p):
    """no rebalance callback configured; before anything is known"""
    x = Alloc(an, p, None, False, callback=False)
    ck(p, dict(x.a.allocation) == {}, "before it starts the allocation is %s", x.a.allocation)
    x.go({"t": [0]})
    x.zoo.flush()
    ck(p, dict(x.a.allocation) == x.last["me:1"], "the allocation is %s", x.a.allocation)


@check("C33", "path-sensitive abstract interpretation of the allocator over sequences of membership and partition notifications",
       "Every sequence of up to three notifications, immediate and late delivery, members with and without a share.", 500)
def c33(rep, tier):
    an = analysis(rep)
    steps = [("join", "b:2"), ("join", "a:0"), ("parts", ["t:1", "t:0", "u:10", "u:9"]), ("parts", []),
             ("parts", ["u:0", "t:1"]), ("same members", None), ("same parts", None), ("reordered", None)]
    for n in range(1, 5 if tier == "thorough" else 4):
        for ss in itertools.product(steps, repeat=n):
            if len([s for s in ss if s[0] == "join"]) != len({s[1] for s in ss if s[0] == "join"}):
                continue
            for eager in (False, True) if n < 3 or tier == "thorough" else (False,):
                xp(an, "steps %s eager=%s" % (short(ss, 200), eager), lambda p: sequence_case(an, ss, eager, None, p), rep)
    states = [(w, c) for w, all_ in (("members", ["a:0", "b:2", "me:1"]), ("parts", ["t:0", "t:1", "u:3"]))
              for n in range(4) for c in itertools.combinations(all_, n)]
    for ss in itertools.product(states, repeat=3 if tier == "thorough" else 2):
        xp(an, "states %s" % short(ss, 200), lambda p: sequence_case(an, ss, False, None, p), rep)
    more = [("join", "b:2"), ("leave", "b:2"), ("join", "b:2"), ("join", "z:9"), ("leave", "b:2")]
    xp(an, "members come and go", lambda p: sequence_case(an, more, False, None, p), rep)
    down = [("suspended", None), ("lost", None), ("join", "b:2"), ("leave", "b:2")]
    for n in (1, 2, 3):
        for ss in itertools.product(down, repeat=n):
            if any(s == down[3] and (i == 0 or down[2] not in ss[:i]) for i, s in enumerate(ss)) or \
                    any(ss.count(s) > 1 for s in down[2:]):
                continue
            xp(an, "sessions %s" % short(ss, 200), lambda p: sequence_case(an, ss, False, None, p), rep)
    for shares in (set(), {"b:2"}, {"me:1"}):
        xp(an, "shares for %s" % sorted(shares), lambda p: sequence_case(an, steps[:3] + steps[4:], False, shares, p), rep)
    xp(an, "expelled", lambda p: sequence_case(an, [("join", "b:2"), ("leave", "me:1"), ("parts", ["t:5"])], False, None, p), rep)
    for before in ((), ("b:2",), ("a:0", "z:9")):
        for stored in ((), ("t:0", "t:1"), ("t:0",), ("u:10", "u:9")):
            for eager in (False, True):
                xp(an, "a group of %s with %s, eager=%s" % (before, stored, eager),
                   lambda p: sequence_case(an, [("join", "c:3"), ("parts", ["u:0"])], eager, None, p, before, stored), rep)
    xp(an, "without a callback", lambda p: quiet_case(an, p), rep)


# --------------------------------------------------------------------------------------- C34

PATH = "/kiel/groups/grp/partitions"


def shared(an, p, data, watch=None):
    """-> (zoo, shared set, changes seen)"""
    zoo = Zoo(p, an)
    kc = zoo.client()
    kc.up = True
    seen = []
    cls = need(mod(an, "zookeeper.shared_set"), "SharedSet")
    s = cls(kc, PATH, on_change=watch or seen.append)
    if data is not None:
        zoo.do_create(PATH, json.dumps(data).encode() if not isinstance(data, bytes) else data, 7, False, True)
    return zoo, s, seen


def value(p, raw):
    """the set a member with the documented format (a JSON list) reads"""
    ck(p, isinstance(raw, bytes), "the shared set is written as %s", short(raw))
    if not raw:
        return set()
    try:
        v = json.loads(raw.decode("utf-8"))
    except ValueError:
        ck(p, False, "the shared set is written as %s, which is not JSON", raw)
    ck(p, isinstance(v, list) and all(isinstance(x, str) for x in v), "the shared set is written as %s, not as a list of texts", v)
    ck(p, len(v) == len(set(v)), "the shared set is written with repeated items: %s", v)
    return set(v)


def update_case(an, data, op, items, foreign, fail, p):
    """foreign: ops before which another member may change the set; fail: index of an operation that fails"""
    zoo, s, seen = shared(an, p, data)
    call(p, s.start)
    zoo.flush()
    state = {"set": set(data) if isinstance(data, list) else set(), "others": []}
    before = set(state["set"])
    lockers = [k for k in zoo.locks]
    st = {"k": 0, "n": 0}
    zoo.ops.clear()

    def hook(client, name, path):
        if foreign and not any(zoo.locks.values()) and st["n"] < 2:
            if p.choose("another member acts before %s" % name, 2):
                st["n"] += 1
                raw = zoo.nodes[PATH].data
                cur = set(json.loads(raw.decode() or "[]"))
                cur = cur ^ {"f:%d" % st["n"]} if st["n"] == 1 else cur - {"x:0"} | {"f:2"}
                zoo.foreign_set(PATH, json.dumps(sorted(cur)).encode())
                state["set"] = cur
                state["others"].append(name)

    def fault(client, name, path):
        k = st["k"]
        st["k"] += 1
        return zoo.ex.ConnectionLoss() if k == fail else None
    zoo.before = hook
    zoo.fault = fault
    f = call(p, getattr(s, op), set(items))
    o = outcome(p, f)
    zoo.before = zoo.fault = None
    what = "%s of %s to %s" % (op, sorted(items), sorted(before))
    held = [k for k, v in zoo.locks.items() if v is not None]
    ck(p, not held, "%s leaves the lock held", what)
    names = [n for _, n, x in zoo.ops]
    failed = fail is not None and st["k"] > fail
    if failed:
        ck(p, o[0] == "err", "%s: a failure is swallowed", what)
        ck(p, PATH in zoo.nodes, "%s: a failed update leaves no node for the set", what)
        now = value(p, zoo.nodes[PATH].data)
        ck(p, now == state["set"], "%s: a failed update leaves %s instead of %s", what, sorted(now), sorted(state["set"]))
        return
    if o[0] == "err":
        p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
    ck(p, PATH in zoo.nodes, "%s leaves no node for the set", what)
    want = state["set"] | set(items) if op == "add_items" else state["set"] - set(items)
    now = value(p, zoo.nodes[PATH].data)
    ck(p, now == want, "%s (another member acted before %s) leaves %s instead of %s", what, state["others"], sorted(now),
       sorted(want))
    mine = [d for x, d in zoo.writes if x == PATH]
    ck(p, len(mine) == (0 if want == state["set"] else 1), "%s writes the set %s times although it %s", what, len(mine),
       "does not change" if want == state["set"] else "changes once")
    i = [k for k, n in enumerate(names) if n in ("get", "set")]
    if i:
        ck(p, "lock" in names[:i[0]] and "unlock" in names[i[-1]:], "%s reads or writes outside the lock: %s", what, names)
    # every member is told, and reads the same
    zoo.flush()
    if mine:
        ck(p, seen and set(seen[-1]) == now, "after %s the members are told %s instead of %s", what,
           seen[-1] if seen else None, sorted(now))


def again_case(an, steps, p):
    """one member's successive updates, others acting in between"""
    zoo, s, seen = shared(an, p, ["x:0"])
    call(p, s.start)
    zoo.flush()
    now = {"x:0"}
    done = []
    for who, op, items in steps:
        done.append("%s %s %s" % (who, op, ",".join(sorted(items))))
        what = " then ".join(done)
        want = now | items if op == "add" else now - items
        if who == "other":
            zoo.foreign_set(PATH, json.dumps(sorted(want)).encode())
        else:
            n0 = len(zoo.writes)
            o = outcome(p, call(p, getattr(s, op + "_items"), set(items)))
            ck(p, o[0] != "err", "%s: the last update ends as %s", what, o)
            n = len([x for x in zoo.writes[n0:] if x[0] == PATH])
            ck(p, n == (want != now), "%s: the last update writes %s times", what, n)
        if p.choose("the watch tells at once", 2):
            zoo.flush()
        now = want
        got = value(p, zoo.nodes[PATH].data)
        ck(p, got == now, "%s leaves %s instead of %s", what, sorted(got), sorted(now))
    zoo.flush()
    ck(p, set(seen[-1]) == now, "%s: the members are told %s", what, seen[-1])


def lock_case(an, p):
    """every member locks the same node, for adding and for removing, and another set has another one"""
    zoo = Zoo(p, an)
    cls = need(mod(an, "zookeeper.shared_set"), "SharedSet")
    used = []
    for i in range(3):
        kc = zoo.client()
        kc.up = True
        s = cls(kc, PATH, on_change=lambda d: None)
        call(p, s.start)
        for op, items in (("add_items", {"m%d:0" % i, "m%d:1" % i}), ("remove_items", {"m%d:0" % i})):
            n0 = len(zoo.ops)
            o = outcome(p, call(p, getattr(s, op), items))
            ck(p, o[0] != "err", "%s of one of several members ends as %s", op, o)
            ls = [x for _, n, x in zoo.ops[n0:] if n == "lock"]
            ck(p, ls, "%s takes no lock", op)
            used.append(tuple(ls))
    ck(p, len(set(used)) == 1, "members of one group lock different nodes: %s", sorted(set(used)))
    zoo.flush()
    ck(p, value(p, zoo.nodes[PATH].data) == {"m0:1", "m1:1", "m2:1"}, "after changes of three members the set is %s",
       zoo.nodes[PATH].data)


def watch_case(an, data, p):
    """what members are told about the set"""
    zoo, s, seen = shared(an, p, data)
    call(p, s.start)
    run(p)
    want = set(data) if isinstance(data, list) else set()
    ck(p, PATH in zoo.nodes, "starting does not create the set's node")
    ck(p, seen and seen[-1] is not None and not isinstance(seen[-1], (bytes, str)) and set(seen[-1]) == want, "a new member is told %s instead of %s", seen, want)
    for new in (["a:1", "b:2"], [], ["b:2", "é:0"]):
        zoo.foreign_set(PATH, json.dumps(new).encode())
        zoo.flush()
        ck(p, set(seen[-1]) == set(new), "a member is told %s instead of %s", seen[-1], new)
    zoo.foreign_set(PATH, json.dumps(["ü:0"], ensure_ascii=False).encode("utf-8"))
    zoo.flush()
    ck(p, set(seen[-1]) == {"ü:0"}, "a member is told %s", seen[-1])
    zoo.do_delete(PATH)
    zoo.flush()
    ck(p, seen[-1] is None or set(seen[-1]) == set(), "when the node is gone a member is told %s", seen[-1])
    zoo.foreign_set(PATH, b'["c:3"]')
    zoo.flush()
    ck(p, set(seen[-1]) == {"c:3"}, "after the node came back a member is told %s", seen[-1])


def through_allocator(an, p):
    """partitions by topic reach the set as topic:partition"""
    x = Alloc(an, p)
    o = x.go({"t": [0, 10], "u.v": [3]})
    ck(p, o[0] == "ok", "starting the allocator ends as %s", o)
    x.zoo.flush()
    path = x.paths()[1]
    full = {"t:0", "t:10", "u.v:3"}
    ck(p, value(p, x.zoo.nodes[path].data) == full, "the seed partitions are stored as %s", x.zoo.nodes[path].data)
    for op, arg, want in (("add_partitions", {"t": [1]}, full | {"t:1"}),
                          ("add_partitions", {}, full | {"t:1"}),
                          ("remove_partitions", {"t": [0, 1, 7]}, {"t:10", "u.v:3"}),
                          ("remove_partitions", {"u.v": [3], "t": []}, {"t:10"}),
                          ("remove_partitions", {"nothing": [0]}, {"t:10"}),
                          ("add_partitions", {"u.v": [3], "w": [0, 1]}, {"t:10", "u.v:3", "w:0", "w:1"})):
        o = outcome(p, call(p, getattr(x.a, op), arg))
        if o[0] == "err":
            p.violation("%s(%s) fails with %s: %s" % (op, arg, name_of(o[1]), o[1]), site(o[1]))
        x.zoo.flush()
        got = value(p, x.zoo.nodes[path].data)
        ck(p, got == want, "%s(%s) leaves %s instead of %s", op, arg, sorted(got), sorted(want))
        ck(p, list(x.calls[-1][1]) == sorted(want), "after %s(%s) the partitions allocated are %s", op, arg, x.calls[-1][1])


def recreate_case(an, p):
    """the set's node vanishes: whoever notices stores its known partitions"""
    x = Alloc(an, p)
    x.go({"t": [0, 1], "u": [2]})
    x.zoo.flush()
    path = x.paths()[1]
    x.zoo.do_delete(path, True)
    try:
        x.zoo.flush()
    except (EngineSignal, Violation):
        raise
    except Exception as e:
        p.violation("when the set's node is gone the watcher fails with %s: %s" % (name_of(e), e), site(e))
    ck(p, path in x.zoo.nodes, "the set's node is not created again")
    got = value(p, x.zoo.nodes[path].data)
    ck(p, got == {"t:0", "t:1", "u:2"}, "the set's node is created again with %s", sorted(got))
    ck(p, not x.zoo.nodes[path].ephemeral, "the set's node is created as an ephemeral one")


@check("C34", "path-sensitive abstract interpretation of shared-set updates with other members acting at every operation the lock allows; lock typestate over all reads and writes",
       "Sets of up to three items, disjoint, overlapping and contained changes, failure of every operation.", 300)
def c34(rep, tier):
    an = analysis(rep)
    datas = [[], ["x:0"], ["x:0", "y:1", "x:1"], b"", ["f:1", "x:0"]]
    items = [set(), {"x:0"}, {"z:9", "y:1"}, {"x:0", "y:1", "x:1"}, {"ä:0"}]
    for d in datas:
        for it in items:
            for op in ("add_items", "remove_items"):
                xp(an, "%s %s to %s" % (op, sorted(it), d), lambda p: update_case(an, d, op, it, False, None, p), rep)
                xp(an, "%s %s to %s with others" % (op, sorted(it), d),
                   lambda p: update_case(an, d, op, it, True, None, p), rep)
                for k in range(4):
                    xp(an, "%s %s to %s, operation %s fails" % (op, sorted(it), d, k),
                       lambda p: update_case(an, d, op, it, False, k, p), rep)
    big = ["topic%d:%d" % (i % 7, i) for i in range(6000)]
    for op in ("add_items", "remove_items"):
        for it in (set(big[5:8]), {"new:1", big[4]}, set(big[:3000]) | {"new:2"}):
            xp(an, "%s %s items to %s" % (op, len(it), len(big)), lambda p: update_case(an, big, op, it, False, None, p), rep)
    xp(an, "adding 6000 items", lambda p: update_case(an, ["x:0"], "add_items", set(big), False, None, p), rep)
    xp(an, "removing 6000 items", lambda p: update_case(an, big + ["x:0"], "remove_items", set(big), False, None, p), rep)
    for d in [None] + datas:
        xp(an, "told about %s" % (d,), lambda p: watch_case(an, d, p), rep)
    xp(an, "several members", lambda p: lock_case(an, p), rep)
    acts = [(who, op, frozenset(i)) for who in ("me", "other") for op in ("add", "remove")
            for i in (["a:0"], ["x:0"], ["a:0", "x:0"])]
    for n in (2, 3):
        for steps in itertools.product(acts, repeat=n):
            if steps[0][0] == "me" and steps[-1][0] == "me" and len({len(s[2]) for s in steps}) == 1 and (
                    len(steps[0][2]) == 1 or tier == "thorough"):
                xp(an, "successive %s" % short([(w, o, sorted(i)) for w, o, i in steps], 200),
                   lambda p: again_case(an, steps, p), rep)
    xp(an, "through the allocator", lambda p: through_allocator(an, p), rep)
    xp(an, "the node vanishes", lambda p: recreate_case(an, p), rep)


# --------------------------------------------------------------------------------------- C35

MEMBERS = "/kiel/groups/grp/members"


def party(an, p):
    zoo = Zoo(p, an)
    kc = zoo.client()
    kc.up = True
    seen = []
    cls = need(mod(an, "zookeeper.party"), "Party")
    return zoo, cls(kc, "host:17", MEMBERS, on_change=lambda ms: seen.append(list(ms))), seen, kc


def join_case(an, state, started, others, p):
    zoo, pt, seen, kc = party(an, p)
    node = MEMBERS + "/host:17"
    for o in others:
        zoo.foreign_member(MEMBERS, o)
    if started:
        call(p, pt.start)
    if state == "ours":
        zoo.do_create(node, b"", kc.sid, True, True)
    elif state == "foreign":
        zoo.do_create(node, b"", 99, True, True)
    elif state == "lasting":
        zoo.do_create(node, b"", 99, False, True)
    zoo.flush()
    n0 = len(zoo.ops)
    o = outcome(p, call(p, pt.join))
    if o[0] == "err":
        p.violation("joining (member node: %s) fails with %s: %s" % (state, name_of(o[1]), o[1]), site(o[1]))
    zoo.flush()
    n = zoo.nodes.get(node)
    ck(p, n is not None, "joining (member node: %s) leaves no member node", state)
    ck(p, n.ephemeral, "joining (member node: %s) leaves a node that is not ephemeral", state)
    ck(p, n.owner == kc.sid, "joining (member node: %s) leaves a node of another session", state)
    ck(p, zoo.children(MEMBERS) == sorted(set(others) | {"host:17"}), "after joining the members are %s", zoo.children(MEMBERS))
    muts = [(x, pth) for _, x, pth in zoo.ops[n0:] if x in ("create", "delete", "set", "commit")]
    if state == "ours":
        ck(p, not muts, "joining with a member node of our own changes it: %s", muts)
    elif state in ("foreign", "lasting"):
        ck(p, len(muts) == 1 and muts[0][0] == "commit", "another session's node is replaced by %s, not in one transaction", muts)
    if started:
        ck(p, seen and sorted(seen[-1]) == sorted(set(others) | {"host:17"}), "the members told after joining are %s", seen[-1:])
    # leaving
    o = outcome(p, call(p, pt.leave))
    if o[0] == "err":
        p.violation("leaving fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    zoo.flush()
    ck(p, zoo.children(MEMBERS) == sorted(others), "after leaving the members are %s", zoo.children(MEMBERS))
    if started:
        ck(p, sorted(seen[-1]) == sorted(others), "the members told after leaving are %s", seen[-1])
    o = outcome(p, call(p, pt.leave))
    ck(p, o[0] != "err", "leaving twice fails with %s", o[1])
    o = outcome(p, call(p, pt.join))
    ck(p, o[0] != "err" and node in zoo.nodes, "joining again after leaving ends as %s", o)


def told_case(an, p):
    """every membership change is passed on"""
    zoo, pt, seen, kc = party(an, p)
    call(p, pt.start)
    ck(p, MEMBERS in zoo.nodes, "starting does not create the members' node")
    ck(p, seen == [[]], "a new party is told %s", seen)
    call(p, pt.join)
    zoo.flush()
    cur = {"host:17"}
    for op, m in (("+", "a:1"), ("+", "b:2"), ("-", "a:1"), ("-", "host:17"), ("-", "b:2"), ("+", "c:3")):
        n = len(seen)
        if op == "+":
            zoo.foreign_member(MEMBERS, m)
            cur.add(m)
        else:
            zoo.do_delete(MEMBERS + "/" + m)
            cur.discard(m)
        zoo.flush()
        ck(p, len(seen) > n and set(seen[-1]) == cur, "after a membership change the party is told %s instead of %s",
           seen[-1:], sorted(cur))


TROUBLE = ["ConnectionLoss", "SessionExpiredError", "OperationTimeoutError", "ConnectionClosedError", "NoAuthError",
           "KazooException"]


def leave_fault(an, kind, p):
    zoo, pt, seen, kc = party(an, p)
    call(p, pt.start)
    call(p, pt.join)
    zoo.fault = lambda c, n, x: getattr(zoo.ex, kind)() if n == "delete" else None
    o = outcome(p, call(p, pt.leave))
    ck(p, o[0] == "err", "a failure to leave (%s) is swallowed", kind)
    zoo.fault = None
    o = outcome(p, call(p, pt.leave))
    zoo.flush()
    ck(p, o[0] != "err" and zoo.children(MEMBERS) == [], "leaving after a failure (%s) ends as %s, the members are %s", kind, o,
       zoo.children(MEMBERS))


def join_fault(an, state, kind, p):
    """a failure while joining is reported, whatever its kind"""
    zoo, pt, seen, kc = party(an, p)
    node = MEMBERS + "/host:17"
    call(p, pt.start)
    if state == "foreign":
        zoo.do_create(node, b"", 99, True, True)
    hit = []

    def fault(c, n, x):
        if n == ("commit" if state == "foreign" else "create"):
            hit.append(n)
            return getattr(zoo.ex, kind)()
    zoo.fault = fault
    o = outcome(p, call(p, pt.join))
    if hit and not (node in zoo.nodes and zoo.nodes[node].owner == kc.sid):
        ck(p, o[0] == "err", "a failure to join (%s) is swallowed", kind)


def session_case(an, p):
    """the node vanishes with the session"""
    zoo, pt, seen, kc = party(an, p)
    call(p, pt.start)
    call(p, pt.join)
    zoo.flush()
    kc.tell(zoo.state.LOST)
    zoo.flush()
    ck(p, zoo.children(MEMBERS) == [], "after the session is lost the members are %s", zoo.children(MEMBERS))


@check("C35", "path-sensitive abstract interpretation of joining and leaving: effects on the abstract ZooKeeper tree",
       "Every state of the member node, with and without other members and watches.", 100)
def c35(rep, tier):
    an = analysis(rep)
    for state in ("absent", "ours", "foreign", "lasting"):
        for started in (False, True):
            for others in ((), ("a:1",), ("z:9", "b:2")):
                xp(an, "node %s started=%s others %s" % (state, started, others),
                   lambda p: join_case(an, state, started, others, p), rep)
    xp(an, "told", lambda p: told_case(an, p), rep)
    for kind in TROUBLE:
        xp(an, "leaving meets %s" % kind, lambda p: leave_fault(an, kind, p), rep)
        for state in ("absent", "foreign"):
            xp(an, "joining (%s) meets %s" % (state, kind), lambda p: join_fault(an, state, kind, p), rep)
    xp(an, "session lost", lambda p: session_case(an, p), rep)


# --------------------------------------------------------------------------------------- C36

class Boom(Exception):
    pass


MUT = ("start_async", "start", "ensure_path", "create", "delete", "set", "commit", "lock", "get", "exists",
       "ChildrenWatch", "DataWatch", "stop", "close", "get_children", "add_listener")


def order_case(an, eager, p):
    x = Alloc(an, p, None, eager)
    o = x.go({"t": [0, 1]})
    ck(p, o[0] == "ok" and o[1] is None or o[0] == "ok", "starting ends as %s", o)
    names = [(n, pth) for _, n, pth in x.zoo.ops]
    ns = [n for n, _ in names]
    mpath, ppath = x.paths()
    first = {k: i for i, k in reversed(list(enumerate(ns)))}
    conn = min([i for i, n in enumerate(ns) if n in ("start_async", "start")], default=None)
    ck(p, conn is not None, "starting does not connect to ZooKeeper")
    join = [i for i, (n, pth) in enumerate(names) if n in ("create", "commit") and (n == "commit" or str(pth).startswith(mpath + "/"))]
    ck(p, len(join) == 1, "starting joins the group %s times", len(join))
    ck(p, "ChildrenWatch" in first and first["ChildrenWatch"] < join[0], "the group is joined before its members are watched")
    ck(p, "DataWatch" in first and first["DataWatch"] < join[0], "the group is joined before its partitions are watched")
    sets = [i for i, (n, pth) in enumerate(names) if n in ("set", "create") and pth == ppath]
    ck(p, sets and value(p, x.zoo.nodes[ppath].data) == {"t:0", "t:1"}, "starting does not contribute the partitions")
    x.zoo.flush()
    ck(p, dict(x.a.allocation) == x.last["me:1"], "after starting the allocation is %s", x.a.allocation)
    n0 = len(x.zoo.ops)
    o = outcome(p, call(p, x.a.stop))
    ck(p, o[0] == "ok", "stopping ends as %s", o)
    names = [n for _, n, _ in x.zoo.ops[n0:]]
    ck(p, [n for n in names if n in ("delete", "stop", "close")] == ["delete", "stop", "close"],
       "stopping does %s instead of leaving, stopping and closing", names)
    ck(p, x.zoo.children(mpath) == [], "after stopping the members are %s", x.zoo.children(mpath))
    ck(p, x.client.stopped == 1 and x.client.closed == 1, "after stopping the client is stopped %s and closed %s times",
       x.client.stopped, x.client.closed)


def fail_case(an, k, phase, kind, p):
    """the k-th operation fails"""
    x = Alloc(an, p)
    st = {"n": 0, "hit": None}
    err = Boom if kind == "Boom" else getattr(x.zoo.ex, kind)
    if phase == "stop":
        x.go({"t": [0]})
        x.zoo.flush()
    n0 = len(x.zoo.ops)

    def fault(client, name, path):
        i = st["n"]
        st["n"] += 1
        if i == k:
            st["hit"] = (name, path)
            return err("ZooKeeper failed")
        return None
    x.zoo.fault = fault
    f = call(p, x.a.start, {"t": [0]}) if phase == "start" else call(p, x.a.stop)
    run(p)
    ck(p, not getattr(f, "_sync", False), "a failure of %s is raised instead of reported through the future", st["hit"])
    o = outcome(p, f)
    if st["hit"] is None:
        ck(p, o[0] == "ok", "the %s ends as %s", phase, o)
        return False
    what = "a failure (%s) of %s" % (kind, st["hit"][0])
    ck(p, o[0] == "err" and isinstance(o[1], err), "%s during the %s ends as %s", what, phase, o)
    later = [n for _, n, _ in x.zoo.ops[n0 + k + 1:] if n != "unlock"]
    ck(p, not later, "after %s later steps are taken: %s", what, later)
    return True


def unconnected_case(an, p):
    """nothing is asked of ZooKeeper before the connection is up; losing it is noticed"""
    x = Alloc(an, p)
    o = x.go({"t": [0]})
    ck(p, o[0] == "ok", "starting ends as %s", o)
    x.zoo.flush()
    x.client.tell(x.zoo.state.SUSPENDED)
    n0 = len(x.zoo.ops)

    def later(client, name, path):
        ck(p, client.up, "ZooKeeper is asked to %s while the connection is down", name)
    x.zoo.before = later
    x.zoo.later(x.client.tell, x.zoo.state.CONNECTED)
    for op, arg, want in (("add_partitions", {"t": [4]}, {"t:0", "t:4"}), ("remove_partitions", {"t": [0]}, {"t:4"})):
        o = outcome(p, call(p, getattr(x.a, op), arg))
        ck(p, o[0] != "err", "%s while suspended ends as %s", op, o)
        ck(p, value(p, x.zoo.nodes[x.paths()[1]].data) == want, "%s while suspended leaves %s", op, x.zoo.nodes[x.paths()[1]].data)
        x.client.tell(x.zoo.state.SUSPENDED)
        x.zoo.later(x.client.tell, x.zoo.state.CONNECTED)


def stop_down_case(an, state, again, p):
    """stopping while the connection to ZooKeeper is down still leaves the group"""
    x = Alloc(an, p)
    x.go({"t": [0]})
    x.zoo.flush()
    mpath, _ = x.paths()
    n0 = len(x.zoo.ops)
    x.client.tell(getattr(x.zoo.state, state))
    if again:
        x.client.tell(x.zoo.state.CONNECTED)
        if again > 1:
            x.client.tell(x.zoo.state.SUSPENDED)
    x.zoo.later(x.client.tell, x.zoo.state.CONNECTED)
    x.zoo.patient = True
    f = call(p, x.a.stop)
    x.zoo.flush()
    o = outcome(p, f)
    what = "stopping after the connection was %s" % state
    ck(p, o[0] == "ok", "%s ends as %s", what, o)
    ck(p, x.zoo.children(mpath) == [], "%s leaves the members %s", what, x.zoo.children(mpath))
    names = [n for _, n, _ in x.zoo.ops[n0:] if n in ("delete", "stop", "close")]
    ck(p, names == ["delete", "stop", "close"], "%s does %s instead of leaving, stopping and closing", what, names)


def waits_case(an, last, p):
    """start completes only once members and partitions were collected"""
    x = Alloc(an, p)
    kc = x.client
    held = []
    reg = {"data": [], "child": []}
    # the server is slow: the first notifications come only when someone waits
    orig_d, orig_c = kc.DataWatch, kc.ChildrenWatch

    def slow(orig, kind):
        def W(path, func=None):
            def r(fn):
                kc.op("DataWatch" if kind == "data" else "ChildrenWatch", path)
                from ..zk import DataWatcher, ChildWatcher
                w = (DataWatcher if kind == "data" else ChildWatcher)(kc, path, fn)
                (kc.data_watches if kind == "data" else kc.child_watches).append(w)
                tell = w.call

                def seen(*a):
                    reg[kind].append(1)
                    return tell(*a)
                w.call = seen

                def deliver():
                    if kind == last and not reg["data" if last == "child" else "child"]:
                        x.zoo.later(deliver)
                        return
                    w.fire()
                x.zoo.later(deliver)
                return fn
            return r if func is None else r(func)
        return W
    kc.DataWatch, kc.ChildrenWatch = slow(orig_d, "data"), slow(orig_c, "child")
    o = x.go({"t": [0]})
    ck(p, o[0] == "ok", "starting ends as %s", o)
    ck(p, reg["data"] and reg["child"], "starting completes before %s were collected",
       "the partitions" if reg["child"] else "the members")


def closing_case(an, fail, p):
    """closing a grouped consumer leaves the group, then closes its connections; a failure is reported and
    nothing stays open"""
    c = Group(an, p)
    c.put("t", 0, 0)
    c.consume("t")
    mpath = c.me().rsplit("/", 1)[0]
    kc = c.zoo.clients[0]
    seen = []

    def hook(client, name, path):
        if name == "delete":
            seen.append(bool(c.w.live()))
    c.zoo.before = hook
    if fail:
        c.zoo.fault = lambda cl, n, x: Boom("failed") if n == fail else None
    n0 = len(c.w.requests)
    f = call(p, c.c.close)
    c.w.drive()
    o = c.w.result(f, "closing a grouped consumer")
    if fail:
        ck(p, o[0] == "err" and isinstance(o[1], Boom), "a failure of %s while closing ends as %s", fail, o)
    else:
        ck(p, o[0] == "ok", "closing ends as %s", o)
        ck(p, c.zoo.children(mpath) == [], "after closing the group's members are %s", c.zoo.children(mpath))
        ck(p, kc.stopped and kc.closed, "closing leaves the ZooKeeper client open")
        ck(p, seen == [True], "the group is left after the connections are closed")
    ck(p, not c.w.live(), "closing leaves connections to %s open", [s.addr for s in c.w.live()])
    o = c.w.finish(call(p, c.c.consume, "t"), "consuming after close")
    ck(p, o[0] == "ok" and not o[1], "consuming after close ends as %s", o)
    sent = [q for q in c.w.requests[n0:] if q.api != "metadata"]
    ck(p, not sent, "closing or consuming afterwards sends %s", sent)


@check("C36", "path-sensitive abstract interpretation of start, stop and close with each ZooKeeper operation failing; order of effects on the abstract ensemble",
       "Failure of every operation of start and stop, slow and fast notifications, suspended connections.", 80)
def c36(rep, tier):
    an = analysis(rep)
    for eager in (False, True):
        xp(an, "order eager=%s" % eager, lambda p: order_case(an, eager, p), rep)
    for phase, n in (("start", 16), ("stop", 5)):
        for k in range(n):
            for kind in ["Boom"] + TROUBLE:
                xp(an, "%s, operation %s meets %s" % (phase, k, kind), lambda p: fail_case(an, k, phase, kind, p), rep)
    xp(an, "suspended", lambda p: unconnected_case(an, p), rep)
    for state in ("SUSPENDED", "LOST"):
        for again in (0, 1, 2):
            xp(an, "stop, %s %s" % (state, again), lambda p: stop_down_case(an, state, again, p), rep)
    for last in ("child", "data"):
        xp(an, "slow notifications, %s last" % last, lambda p: waits_case(an, last, p), rep)
    for fail in (None, "delete", "stop", "close"):
        xp(an, "closing, %s fails" % fail, lambda p: closing_case(an, fail, p), rep)
