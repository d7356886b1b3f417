"""C10 C11 C12 C13: bootstrap, metadata refresh, routing table, broker table"""
import itertools

from . import check
from .wire import analysis
from ..core import site, short
from ..domain import EngineSignal, Unsupported
from .. import loop as L
from ..scn import mod, need, ck, run, escaped, outcome, call, World, xp, name_of

BROKERS = {1: ("k1", 9092), 2: ("k2", 9092)}
TOPICS = {"t": {0: 1, 1: 2}, "u": {0: 1}}


def new_cluster(an, hosts):
    return need(mod(an, "cluster"), "Cluster")(list(hosts))


def started(an, p, brokers=BROKERS, topics=TOPICS, hosts=("boot",)):
    w = World(p, an, brokers, topics)
    c = new_cluster(an, hosts)
    w.ok(call(p, c.start), "starting the cluster")
    return w, c


def plain(d):
    return {k: {a: b for a, b in v.items()} for k, v in d.items()}


def table(c):
    return {t: sorted(ps) for t, ps in c.topics.items() if True}


def check_routing(p, w, c, want, when):
    """want {topic: {pid: leader}}"""
    got = table(c)
    ck(p, got == {t: sorted(ps) for t, ps in want.items()},
       "%s: the topic list is %s instead of %s", when, got, {t: sorted(ps) for t, ps in want.items()})
    for t, ps in sorted(want.items()):
        for pid, ld in sorted(ps.items()):
            try:
                have = c.get_leader(t, pid)
            except EngineSignal:
                raise
            except Exception as e:
                p.violation("%s: no leader known for %s/%s (%s)" % (when, t, pid, name_of(e)), site(e))
            ck(p, have == ld, "%s: leader of %s/%s is %s instead of %s", when, t, pid, have, ld)
            ck(p, ld in c, "%s: the leader %s of %s/%s has no entry in the broker table", when, ld, t, pid)
            ck(p, not c[ld].closing, "%s: the leader %s of %s/%s has a connection that is shut down", when, ld, t, pid)


def check_vanished(p, c, keys, want, when):
    """what the metadata does not list has no leader"""
    for t, pid in sorted(keys):
        if pid in want.get(t, {}):
            continue
        try:
            ld = c.get_leader(t, pid)
        except EngineSignal:
            raise
        except Exception:
            p.oblig += 1
            continue
        ck(p, ld is None, "%s: %s/%s has the leader %s although the metadata does not list it", when, t, pid, ld)


def check_brokers(p, w, c, when, unreachable=()):
    for b, addr in sorted(w.brokers.items()):
        if b in unreachable:
            continue
        ck(p, b in c, "%s: broker %s is not in the broker table", when, b)
        conn = c[b]
        ck(p, (conn.host, conn.port) == addr, "%s: broker %s is connected to %s:%s instead of %s",
           when, b, conn.host, conn.port, addr)
        ck(p, not conn.closing, "%s: broker %s has a dead connection", when, b)
        ck(p, len(w.live(addr)) == 1, "%s: broker %s has %s open connections", when, b, len(w.live(addr)))
    for b in list(c):
        ck(p, b in w.brokers, "%s: broker %s is in the broker table although it is not a listed broker", when, b)
    for s in w.live():
        ck(p, s.broker in w.brokers, "%s: a connection to %s stays open although it is not a listed broker",
           when, s.addr)


# --------------------------------------------------------------------------------------- C10

BOOT = ["ok", "refused", "connect error", "connect raises", "closes on request", "garbage", "closes at once"]


def boot_case(an, hosts, outcomes, p):
    addrs = []
    for h in hosts:
        a, _, b = h.partition(":")
        addrs.append((a, int(b) if b else 9092))
    w = World(p, an, BROKERS, TOPICS)
    how = dict(zip(addrs, outcomes))
    w.raises = {a for a in addrs if how[a] == "connect raises"}

    def policy(op):
        s = op[1] if op[0] == "connect" else op[1].stream
        h = how.get(s.addr)
        if h is None:
            return False
        if op[0] == "connect":
            if h == "refused":
                w.refuse(s)
            elif h == "connect error":
                s.conn_future.set_exception(ValueError("no such host"))
            elif h == "closes at once":
                w.accept(s)
                w.drop(s)
            else:
                w.accept(s)
            return True
        if h == "closes on request":
            w.drop(s)
        elif h == "garbage":
            w.garbage(op[1])
        else:
            return False
        return True
    c = new_cluster(an, hosts)
    f = call(p, c.start)
    o = w.finish(f, "starting the cluster with bootstrap outcomes %s" % (outcomes,), policy)
    good = [i for i, x in enumerate(outcomes) if x == "ok"]
    tried = [a for a in w.attempts if a in how]
    if good:
        if o[0] == "err":
            p.violation("start fails with %s although bootstrap host %d of %d works (earlier ones: %s)" % (
                name_of(o[1]), good[0] + 1, len(hosts), ", ".join(outcomes[:good[0]]) or "none"), site(o[1]))
        want = addrs[:good[0] + 1]
        ck(p, tried == want, "bootstrap hosts are tried as %s instead of %s", tried, want)
        check_routing(p, w, c, TOPICS, "after the start")
        check_brokers(p, w, c, "after the start")
        q = [q for q in w.of("metadata") if q.broker == addrs[good[0]]]
        ck(p, len(q) == 1 and not q[0].v["topics"],
           "the bootstrap host is asked %s instead of once for the whole metadata", [x.v for x in q])
    else:
        NB = need(mod(an, "exc"), "NoBrokersError")
        ck(p, o[0] == "err" and isinstance(o[1], NB),
           "start ends as %s instead of a no-brokers error when no bootstrap host works",
           o if o[0] != "err" else name_of(o[1]))
        ck(p, tried == addrs, "bootstrap hosts are tried as %s instead of %s", tried, addrs)
    for s in w.streams:
        if s.addr in how and s.up:
            ck(p, s.dead, "the bootstrap connection to %s (%s) stays open", s.addr, how[s.addr])
    escaped(p)


def restart_case(an, first, lost, p):
    """start again: after a start that failed, or after connections were lost"""
    hosts = ["boot2:1234", "boot1"]
    given = list(hosts)
    w = World(p, an, BROKERS, TOPICS)
    c = need(mod(an, "cluster"), "Cluster")(given)
    if first == "fails":
        w.down |= {("boot2", 1234), ("boot1", 9092)}
        o = w.finish(call(p, c.start), "a start without a working bootstrap host")
        ck(p, o[0] == "err" and name_of(o[1]) == "NoBrokersError",
           "a start without a working bootstrap host ends as %s", o)
        w.down.clear()
    else:
        w.ok(call(p, c.start), "starting the cluster")
        for b in lost:
            w.drop(w.live(BROKERS[b])[0])
        run(p)
        if first == "stops":
            c.stop()
            run(p)
    what = "starting again (%s, lost %s)" % (first, lost)
    a0 = len(w.attempts)
    w.ok(call(p, c.start), what)
    ck(p, given == hosts, "starting changes the given list of bootstrap hosts to %s", given)
    ck(p, w.attempts[a0] == ("boot2", 1234), "%s begins with the host %s instead of the first one", what, w.attempts[a0])
    check_routing(p, w, c, TOPICS, "after " + what)
    check_brokers(p, w, c, "after " + what)
    escaped(p)


@check("C10", "path-sensitive abstract interpretation of Cluster.start over an abstract network (every outcome per bootstrap host)",
       "Every combination of outcomes of up to three bootstrap hosts.", 300)
def c10(rep, tier):
    an = analysis(rep)
    xp(an, "no hosts", lambda p: boot_case(an, [], [], p), rep)
    xp(an, "start after a failed one", lambda p: restart_case(an, "fails", (), p), rep)
    for how in ("works", "stops"):
        for lost in ((), (1,), (2,), (1, 2)):
            xp(an, "start again, %s lost %s" % (how, lost), lambda p: restart_case(an, how, lost, p), rep)
    for n, hosts in ((1, ["boot1"]), (2, ["boot2:1234", "boot1"]), (3, ["boot3", "boot1:1234", "boot2"])):
        for outs in itertools.product(BOOT, repeat=n):
            if "ok" in outs and any(x != outs[-1] for x in outs[outs.index("ok") + 1:]):
                continue
            if n == 3 and tier == "quick" and outs[0] not in ("refused", "closes on request", "garbage", "ok"):
                continue
            xp(an, "%s %s" % (hosts, outs), lambda p: boot_case(an, hosts, outs, p), rep)
    # several ports of one host; a long list of hosts of which only the last works, or none
    for outs in itertools.product(BOOT[1:], repeat=2):
        for end in ("ok", "refused"):
            hosts = ["boot:1234", "boot", "boot:1235"]
            xp(an, "%s %s" % (hosts, outs + (end,)), lambda p: boot_case(an, hosts, outs + (end,), p), rep)
    many = ["boot%d:%d" % (i % 5, 7000 + i) for i in range(12)]
    for bad in BOOT[1:] + ["mixed"]:
        for end in ("ok", "refused"):
            outs = [BOOT[1:][i % 6] if bad == "mixed" else bad for i in range(11)] + [end]
            xp(an, "12 hosts, %s, then %s" % (bad, end), lambda p: boot_case(an, many, outs, p), rep)


# --------------------------------------------------------------------------------------- C11

B3 = {1: ("k1", 9092), 2: ("k2", 9092), 3: ("k2", 9094)}
T3 = {"t": {0: 1, 1: 2, 2: 3}}
ASK = ["answers", "closes", "garbage", "dead already", "write fails"]


def big(n, parts=3):
    bs = {b: ("k%d" % ((b + 1) // 2), 9092 + b % 2) for b in range(1, n + 1)}
    return bs, {"t": {i: i % n + 1 for i in range(parts)}}


def refresh_case(an, outs, p):
    bs, ts = (B3, T3) if len(outs) == 3 else big(len(outs))
    w, c = started(an, p, bs, ts)
    how = dict(zip(sorted(bs), outs))
    for b in sorted(bs):
        s = w.live(bs[b])[0]
        if how[b] == "dead already":
            w.drop(s)
        elif how[b] == "write fails":
            s.on_write = lambda: OSError(32, "Broken pipe")
    run(p)
    asked = []
    n0 = len(w.requests)

    def policy(op):
        if op[0] == "connect":
            return False
        q = op[1]
        if q.api != "metadata":
            return False
        asked.append(q.broker)
        h = how.get(q.broker)
        if h == "closes":
            w.drop(q.stream)
        elif h == "garbage":
            w.garbage(q)
        else:
            return False
        return True
    o = w.finish(call(p, c.heal), "a metadata refresh with brokers %s" % (outs,), policy)
    if "answers" in outs:
        if o[0] == "err":
            p.violation("a refresh fails with %s although a connected broker answers (brokers: %s)" % (
                name_of(o[1]), ", ".join(outs)), site(o[1]))
        ck(p, [b for b in asked if how[b] == "answers"][1:] == [],
           "brokers are still asked after one has answered: %s", asked)
        for b in set(asked):
            ck(p, asked.count(b) == 1, "broker %s is asked %s times in one refresh", b, asked.count(b))
        check_routing(p, w, c, ts, "after the refresh")
        check_brokers(p, w, c, "after the refresh")
    else:
        NB = need(mod(an, "exc"), "NoBrokersError")
        ck(p, o[0] == "err" and isinstance(o[1], NB),
           "a refresh without any answering broker ends as %s instead of a no-brokers error",
           o if o[0] != "err" else name_of(o[1]))
        for b in how:
            if how[b] in ("closes", "garbage"):
                ck(p, asked.count(b) == 1, "broker %s is asked %s times", b, asked.count(b))
    escaped(p)


def changing_case(an, p):
    """the set of connections changes while a refresh waits for an answer"""
    w, c = started(an, p, B3, T3)
    w.brokers[4] = ("k1", 9095)
    w.ids[("k1", 9095)] = 4
    a = call(p, c.heal)
    hold = []

    def policy(op):
        if op[0] == "connect" and op[1].addr == ("k1", 9095):
            hold.append(op[1])
            return True
        return False
    w.drive(policy)
    if not hold:
        p.violation("a broker that is new in the metadata is not connected to")
    b = call(p, c.heal)
    asked = []

    def late(op):
        if op[0] == "request" and op[1].api == "metadata" and hold:
            asked.append(op[1].broker)
            s = hold.pop()
            w.accept(s)             # the table of connections grows ...
            run(p)
            w.drop(op[1].stream)    # ... and the broker asked goes away
            return True
        return False
    ob = w.finish(b, "a refresh while the set of connections changes", late)
    if ob[0] == "err":
        p.violation("a refresh fails with %s when the set of connections changes while it waits: %s" % (
            name_of(ob[1]), ob[1]), site(ob[1]))
    oa = w.result(a, "the other refresh")
    ck(p, oa[0] == "ok", "the overlapping refresh ends as %s", oa)
    escaped(p)


@check("C11", "path-sensitive abstract interpretation of the metadata refresh (every outcome per connected broker)",
       "Every combination of outcomes of three connected brokers and a refresh during which the connection table changes.", 300)
def c11(rep, tier):
    an = analysis(rep)
    for outs in itertools.product(ASK, repeat=3):
        xp(an, "brokers %s" % (outs,), lambda p: refresh_case(an, outs, p), rep)
    for bad in ASK[1:] + ["mixed"]:
        for at in (0, 5, 11, None):
            outs = tuple("answers" if i == at else ASK[1:][i % 4] if bad == "mixed" else bad for i in range(12))
            xp(an, "12 brokers, %s answers, %s" % (at, bad), lambda p: refresh_case(an, outs, p), rep)
    xp(an, "connections change", lambda p: changing_case(an, p), rep)


# --------------------------------------------------------------------------------------- C12

def f_leader_na(w):
    w.part_code[("t", 0)] = 5
    w.topics["t"][0] = -1
    return lambda: (w.part_code.pop(("t", 0)), w.topics["t"].__setitem__(0, 2))


def f_leader_na_all(w):
    for k in ((("t", 0)), ("t", 1)):
        w.part_code[k] = 5
    return lambda: (w.part_code.pop(("t", 0)), w.part_code.pop(("t", 1)))


def f_topic_replica(w):
    w.topic_code["u"] = 9
    ps = w.topics["u"]
    w.topics["u"] = {}
    return lambda: (w.topic_code.pop("u"), w.topics.__setitem__("u", ps))


def f_foreign_leader(w):
    w.topics["t"][1] = 9
    return lambda: w.topics["t"].__setitem__(1, 1)


def f_unknown_topic(w):
    w.topic_code["u"] = 3
    w.topics["u"] = {}
    return None


def f_unknown_listed(w):
    """an unknown topic whose answer still lists partitions"""
    w.topic_code["u"] = 3
    return None


def f_replica_listed(w):
    w.topic_code["u"] = 9
    return lambda: w.topic_code.pop("u")


def f_leader_na_named(w):
    """an election whose answer still names the old leader"""
    w.part_code[("t", 0)] = 5
    return lambda: (w.part_code.pop(("t", 0)), w.topics["t"].__setitem__(0, 2))


def f_gone_topic(w):
    w.topics.pop("u")
    return None


def f_new_topic(w):
    w.topics["v"] = {0: 2, 7: 1}
    return None


def f_moved_leader(w):
    w.topics["t"] = {0: 2, 1: 1, 2: 1}
    return None


def f_partition_replica(w):
    w.part_code[("t", 1)] = 9
    return None


def f_new_broker(w):
    w.brokers[3] = ("k2", 9094)
    w.ids[("k2", 9094)] = 3
    w.topics["t"][0] = 3
    return None


def f_new_broker_late(w):
    f_new_broker(w)
    w.down.add(("k2", 9094))
    return lambda: w.down.discard(("k2", 9094))


def f_spare_late(w):
    """a new broker that leads nothing cannot be reached for a while"""
    f_new_broker_late(w)
    w.topics["t"][0] = 1
    return lambda: w.down.discard(("k2", 9094))


def f_less_partitions(w):
    w.topics["t"] = {1: 2}
    return None


def f_left_leader(w):
    """a broker leaves the list, the first metadata still names it as a leader"""
    w.brokers.pop(2)

    def fix():
        for ps in w.topics.values():
            for k in ps:
                if ps[k] == 2:
                    ps[k] = 1
    return fix


def f_none(w):
    return None


FAULTS = [f_none, f_leader_na, f_leader_na_all, f_topic_replica, f_foreign_leader, f_unknown_topic, f_gone_topic,
          f_new_topic, f_moved_leader, f_partition_replica, f_new_broker, f_new_broker_late, f_less_partitions, f_left_leader,
          f_unknown_listed, f_replica_listed, f_leader_na_named]


def expected(w):
    return {t: dict(ps) for t, ps in w.topics.items()
            if w.topic_code.get(t, 0) != 3 and ps}


def l_moved(w):
    w.topics["u"][0] = max(w.brokers)


def l_gone(w):
    w.topics.pop("u")


def l_topic(w):
    w.topics["v"] = {0: max(w.brokers), 7: 1}


def l_partition(w):
    w.topics["u"][4] = max(w.brokers)


def l_broker(w):
    w.brokers[5] = ("k5", 9096)
    w.ids[("k5", 9096)] = 5
    w.topics["u"][0] = 5


def l_drop(w):
    w.brokers.pop(2)
    for ps in w.topics.values():
        for k in ps:
            if ps[k] == 2:
                ps[k] = 1


LATER = [l_moved, l_gone, l_topic, l_partition, l_broker, l_drop]


def heal_case(an, faults, at_start, rounds, p, later=None):
    if at_start:
        w = World(p, an, BROKERS, TOPICS)
        c = new_cluster(an, ("boot",))
    else:
        w, c = started(an, p)
    fixes = [x for x in [f(w) for f in faults] if x]
    seen = [0]
    healthy = {t: dict(ps) for t, ps in w.topics.items()
               if t in TOPICS and ps == TOPICS[t] and t not in w.topic_code
               and not any(k[0] == t for k in w.part_code)
               and all(b in w.brokers for b in ps.values())}
    if later:
        # the metadata goes on changing while the heal waits
        healthy.clear()
        fixes.insert(0, lambda: later(w))
    last = {}

    def watch(runner, fut):
        topics = c.topics
        for t in list(topics):
            for pid in list(topics[t]):
                try:
                    c.get_leader(t, pid)
                except EngineSignal:
                    raise
                except Exception as e:
                    p.violation("while a heal is under way, %s/%s is listed without a leader" % (t, pid))
        p.oblig += 1
        if not at_start:
            for t, ps in healthy.items():
                ck(p, sorted(topics.get(t, ())) == sorted(ps),
                   "while a heal is under way, the untouched topic %s is seen as %s", t, sorted(topics.get(t, ())))
    p.loop.on_yield = watch

    def policy(op):
        if op[0] == "request" and op[1].api == "metadata":
            if later and seen[0] == rounds:
                while fixes:
                    fixes.pop()()
            w.reply(op[1], w.answer(op[1]))
            last.clear()
            last.update(expected(w))
            seen[0] += 1
            if not later and seen[0] == rounds:
                while fixes:
                    fixes.pop()()
            return True
        return False
    names = "+".join(f.__name__[2:] for f in faults) + (", later " + later.__name__[2:] if later else "")
    f = call(p, c.start if at_start else c.heal)
    o = w.finish(f, "a heal (%s)" % names, policy)
    p.loop.on_yield = None
    if o[0] == "err":
        p.violation("a heal (%s) fails with %s: %s" % (names, name_of(o[1]), o[1]), site(o[1]))
    if fixes:
        p.violation("a heal (%s) ends although the metadata was not usable yet" % names)
    check_routing(p, w, c, last if later else expected(w), "after a heal (%s)" % names)
    check_vanished(p, c, [(t, pid) for t in TOPICS for pid in TOPICS[t]], last if later else expected(w), "after a heal (%s)" % names)
    check_brokers(p, w, c, "after a heal (%s)" % names)
    escaped(p)


@check("C12", "path-sensitive abstract interpretation of heal: final routing table against the metadata, and its invariants at every suspension point",
       "Every single kind and every pair of kinds of metadata trouble, repaired after one or two refreshes; the table is "
       "also inspected at every point where the coroutine is suspended."
       " Also every history of three (thorough: four) cluster changes, each followed by a heal.", 400)
def c12(rep, tier):
    an = analysis(rep)
    combos = [(f,) for f in FAULTS] + [x for x in itertools.combinations(FAULTS[1:], 2)
                                       if not ({f_gone_topic, f_unknown_topic, f_topic_replica, f_unknown_listed,
                                                f_replica_listed} >= set(x)) and
                                       not ({f_new_broker, f_new_broker_late} >= set(x)) and
                                       not ({f_leader_na, f_leader_na_all, f_leader_na_named} >= set(x)) and
                                       not ({f_leader_na_named, f_left_leader} >= set(x)) and
                                       not ({f_leader_na, f_left_leader} >= set(x)) and
                                       not ({f_moved_leader, f_less_partitions, f_leader_na, f_leader_na_all, f_leader_na_named,
                                             f_foreign_leader, f_new_broker, f_new_broker_late} >= set(x))]
    for fs in combos:
        for at_start in (False, True):
            for rounds in (1, 2):
                needs = any(f in (f_leader_na, f_leader_na_all, f_topic_replica, f_foreign_leader,
                                  f_new_broker_late, f_left_leader, f_replica_listed, f_leader_na_named) for f in fs)
                if rounds == 2 and not needs:
                    continue
                xp(an, "%s%s rounds=%d" % ("+".join(f.__name__[2:] for f in fs), " at start" if at_start else "",
                                           rounds), lambda p: heal_case(an, fs, at_start, rounds, p), rep)
    waits = [f_spare_late, f_leader_na, f_leader_na_all, f_topic_replica, f_foreign_leader, f_new_broker_late, f_left_leader]
    for f in waits:
        for at_start in (False, True):
            xp(an, "%s%s rounds=15" % (f.__name__[2:], " at start" if at_start else ""), lambda p: heal_case(
                an, (f,), at_start, 15, p), rep)
            for later in LATER:
                if f is f_topic_replica and later is not l_drop or f is f_left_leader and later is l_drop:
                    continue
                for rounds in (1, 2):
                    xp(an, "%s%s, later %s rounds=%d" % (f.__name__[2:], " at start" if at_start else "", later.__name__[2:],
                                                         rounds), lambda p: heal_case(an, (f,), at_start, rounds, p, later), rep)
    for ch in BIG:
        xp(an, "12 brokers, %s" % (ch,), lambda p: big_case(an, "C12", ch, p), rep)
    for lost in ((), (0,), (5,)):
        for gone in (None, 0, 5):
            xp(an, "broker id 0, lost %s, gone %s" % (lost, gone), lambda p: zero_case(an, "C12", lost, gone, p), rep)
    for b in (0, 5):
        xp(an, "broker id 0, lost and refused once: %s" % b, lambda p: zero_case(an, "C12", (b,), None, p, b), rep)
        xp(an, "broker id 0, gone but named as a leader: %s" % b, lambda p: zero_case(an, "C12", (), b, p, None, True), rep)
    histories(an, rep, "C12", tier)


# ------------------------------------------------------------------- histories of heals (C12, C13)

OPS = ["broker 1 dies", "broker 2 dies", "broker 2 toggles", "broker 3 toggles", "broker 3 toggles, refuses twice", "leaders rotate",
       "topic u toggles", "partitions toggle", "election", "unknown, listed", "all connections but one die"]


def history_case(an, prop, first, n, p):
    """every sequence of n changes, each followed by a heal"""
    w, c = started(an, p)
    parked = {3: ("k2", 9094)}
    trail = []
    fixes, refuse = [], {}

    def policy(op):
        if op[0] == "connect" and refuse.get(op[1].addr, 0) > 0:
            refuse[op[1].addr] -= 1
            w.refuse(op[1])
            return True
        if op[0] == "request" and op[1].api == "metadata":
            w.reply(op[1], w.answer(op[1]))
            while fixes:
                fixes.pop()()
            return True
        return False

    def toggle(b):
        if b in w.brokers:
            parked[b] = w.brokers.pop(b)
            for ps in w.topics.values():
                for pid in ps:
                    if ps[pid] == b:
                        ps[pid] = min(w.brokers)
        else:
            w.brokers[b] = parked.pop(b)
            w.ids[w.brokers[b]] = b
            if "t" in w.topics:
                w.topics["t"][0] = b

    def die(b):
        for s in w.live(w.brokers[b]) if b in w.brokers else ():
            w.drop(s)
    for i in range(n):
        name = first[i] if i < len(first) else OPS[p.choose("next change", len(OPS))]
        trail.append(name)
        if name.startswith("broker 1") or name == "broker 2 dies":
            die(int(name[7]))
        elif name.startswith("broker"):
            toggle(int(name[7]))
            if "refuses" in name:
                refuse[("k2", 9094)] = 2
        elif name == "leaders rotate":
            bs = sorted(w.brokers)
            for ps in w.topics.values():
                for pid in ps:
                    ps[pid] = bs[(bs.index(ps[pid]) + 1) % len(bs)]
        elif name == "topic u toggles":
            if "u" in w.topics:
                parked["u"] = w.topics.pop("u")
            else:
                parked.pop("u")
                w.topics["u"] = {0: min(w.brokers), 5: max(w.brokers)}
        elif name == "partitions toggle":
            ps = w.topics["t"]
            if 9 in ps:
                del ps[9]
            else:
                ps[9] = max(w.brokers)
        elif name == "election":
            w.part_code["t", 1] = 5
            fixes.append(lambda: w.part_code.pop(("t", 1)))
        elif name == "unknown, listed":
            w.topic_code["t"] = 0 if w.topic_code.get("t") else 3
            w.topic_code = {k: v for k, v in w.topic_code.items() if v}
        elif name.startswith("all"):
            for b in sorted(w.brokers)[:-1]:
                die(b)
        run(p)
        left = {b: w.live(a)[0] for b, a in w.brokers.items() if w.live(a)}
        if not any(w.live(a) for a in list(w.brokers.values()) + [x for x in parked.values() if isinstance(x, tuple)]):
            return              # nobody is left to ask
        n0 = len(w.attempts)
        what = "a heal after the changes %s" % ", ".join(trail)
        o = w.finish(call(p, c.heal), what, policy)
        if o[0] == "err":
            p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        try:
            if prop == "C12":
                check_routing(p, w, c, expected(w), "after " + what)
                check_vanished(p, c, [(t, pid) for t in ("t", "u") for pid in (0, 1, 5, 9)], expected(w), "after " + what)
            else:
                check_brokers(p, w, c, "after " + what)
                for b, s in left.items():
                    ck(p, not s.dead and w.brokers[b] not in w.attempts[n0:],
                       "%s opens or closes the live connection to broker %s", what, b)
        finally:
            fixes[:] = []
    escaped(p)


def histories(an, rep, prop, tier):
    n = {"thorough": 4, "quick": 3}.get(tier, 0)
    for first in itertools.product(OPS, repeat=2) if n else ():
        xp(an, "changes %s" % (first,), lambda p: history_case(an, prop, first, n, p), rep, max_paths=20000, budget_s=3000)


# --------------------------------------------------------------------------------------- C13

def broker_case(an, change, p):
    w, c = started(an, p, B3, T3)
    check_brokers(p, w, c, "after the start")
    before = {b: w.live(B3[b])[0] for b in B3}
    n0 = len(w.attempts)
    kept = {1, 2, 3}
    fails = {}
    late = None
    if "dead 1" in change:
        w.drop(before[1])
        kept.discard(1)
    if "dead 3" in change:
        w.drop(before[3])
        kept.discard(3)
    if "gone 2" in change:
        del w.brokers[2]
        w.topics = {"t": {0: 1, 1: 3, 2: 3}}
        kept.discard(2)
    new = []
    if "renamed 2" in change:
        # the broker at that address has got another id
        del w.brokers[2]
        w.brokers[7] = B3[2]
        w.ids[B3[2]] = 7
        w.topics = {"t": {0: 1, 1: 3, 2: 3}}
        kept.discard(2)
        new.append(7)
    for nm, b, addr in (("new 4", 4, ("k1", 9095)), ("new 5", 5, ("k5", 9096))):
        if nm in change:
            w.brokers[b] = addr
            w.ids[addr] = b
            new.append(b)
    for x in change:
        if x.startswith("refuses"):
            _, b, k = x.split()
            fails[w.brokers[int(b)]] = int(k)
        if x.startswith("vanishes"):
            late = int(x.split()[1])
            fails[w.brokers[late]] = 99
    run(p)
    meta = [0]

    def policy(op):
        if op[0] == "connect":
            a = op[1].addr
            if fails.get(a, 0) > 0:
                fails[a] -= 1
                if fails[a] % 2:
                    op[1].conn_future.set_exception(OSError(-2, "no route"))
                else:
                    w.refuse(op[1])
                return True
        elif op[1].api == "metadata":
            meta[0] += 1
            if meta[0] > 1:
                # the loop asks again: by now every other broker must be connected
                for b in w.brokers:
                    if w.brokers[b] not in fails:
                        ck(p, len(w.live(w.brokers[b])) == 1,
                           "an unreachable broker keeps broker %s from being connected", b)
            if late is not None and meta[0] == 2:
                w.brokers.pop(late, None)
        return False
    what = ", ".join(change) or "no change"
    w.ok(call(p, c.heal), "a heal (%s)" % what, policy)
    check_brokers(p, w, c, "after a heal (%s)" % what)
    again = w.attempts[n0:]
    for b in kept & set(w.brokers):
        ck(p, B3[b] not in again, "(%s) the live connection to broker %s is opened again", what, b)
        ck(p, not before[b].dead, "(%s) the live connection to broker %s is closed", what, b)
    for b in new:
        if w.brokers.get(b) is not None and w.brokers[b] not in fails:
            ck(p, again.count(w.brokers[b]) == 1, "(%s) broker %s is connected to %s times", what, b,
               again.count(w.brokers[b]))
    if late is None:
        for a, k in fails.items():
            ck(p, k <= 0, "(%s) the unreachable broker at %s is not retried", what, a)
    escaped(p)


Z = {0: ("k0", 9092), 5: ("k5", 9092)}
TZ = {"t": {0: 0, 3: 5}, "u": {0: 5}}


def zero_case(an, prop, lost, gone, p, refuses=None, named=False):
    """a broker with the id 0; named: it is gone, and the first metadata still names it as a leader"""
    w, c = started(an, p, Z, TZ)
    check_brokers(p, w, c, "after the start")
    check_routing(p, w, c, TZ, "after the start")
    for b in lost:
        w.drop(w.live(Z[b])[0])
    if gone is not None:
        del w.brokers[gone]

        def elect():
            for ps in w.topics.values():
                for pid in ps:
                    if ps[pid] == gone:
                        ps[pid] = min(w.brokers)
        if not named:
            elect()
    run(p)
    what = "a heal (lost %s, gone %s%s, refuses once %s)" % (lost, gone, ", still named as a leader" if named else "", refuses)
    fixes = [elect] if named else []
    left = [1] if refuses is not None else []

    def pol(op):
        if op[0] == "connect" and left and op[1].addr == Z[refuses]:
            left.pop()
            w.refuse(op[1])
            return True
        if op[0] == "request" and op[1].api == "metadata" and fixes:
            w.reply(op[1], w.answer(op[1]))
            fixes.pop()()
            return True
        return False
    w.ok(call(p, c.heal), what, pol)
    if prop == "C12":
        check_routing(p, w, c, w.topics, "after " + what)
    else:
        check_brokers(p, w, c, "after " + what)
    escaped(p)


BIG = ["start", "nothing", "all dead but 7", "evens gone", "leaders rotate", "election of all"]


def big_case(an, prop, change, p):
    """many brokers, topics and partitions"""
    bs, _ = big(12)
    ts = {"t%d" % i: {j: (i * 5 + j) % 12 + 1 for j in range(40 if i == 3 else i + 1)} for i in range(15)}
    w, c = started(an, p, bs, ts)
    what = "with 12 brokers, 15 topics: %s" % change
    if change != "start":
        w.topics = {t: dict(ps) for t, ps in ts.items()}
        fix = []
        if change.startswith("all dead"):
            for b in bs:
                if b != 7:
                    w.drop(w.live(bs[b])[0])
        elif change == "evens gone":
            for b in range(2, 13, 2):
                del w.brokers[b]
        for ps in w.topics.values():
            for k in ps:
                if change == "leaders rotate":
                    ps[k] = ps[k] % 12 + 1
                elif ps[k] not in w.brokers:
                    ps[k] -= 1
        if change.startswith("election"):
            w.part_code = {(t, k): 5 for t, ps in w.topics.items() for k in ps}
            fix.append(w.part_code.clear)
        run(p)

        def pol(op):
            if op[0] == "request" and op[1].api == "metadata" and fix:
                w.reply(op[1], w.answer(op[1]))
                fix.pop()()
                return True
            return False
        w.ok(call(p, c.heal), "a heal " + what, pol)
    if prop == "C12":
        check_routing(p, w, c, w.topics, what)
    else:
        check_brokers(p, w, c, what)
    escaped(p)


def overlap_case(an, p):
    """two heals at the same time"""
    w, c = started(an, p, B3, T3)
    del w.brokers[2]
    w.topics = {"t": {0: 1, 1: 3, 2: 4}}
    w.brokers[4] = ("k1", 9095)
    w.ids[("k1", 9095)] = 4
    w.drop(w.live(B3[3])[0])
    run(p)
    fa, fb = call(p, c.heal), call(p, c.heal)
    w.drive(order="any")
    for f in (fa, fb):
        o = w.result(f, "one of two overlapping heals")
        if o[0] == "err":
            p.violation("one of two overlapping heals fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    check_brokers(p, w, c, "after two overlapping heals")
    check_routing(p, w, c, w.topics, "after two overlapping heals")
    escaped(p)


@check("C13", "path-sensitive abstract interpretation of heal: the broker table and the open sockets against the metadata",
       "Brokers added, dropped, dead or unreachable for a while, in combination, and two overlapping heals in every order of network events."
       " Also every history of three (thorough: four) cluster changes, each followed by a heal.", 250)
def c13(rep, tier):
    an = analysis(rep)
    items = ["dead 1", "dead 3", "gone 2", "new 4", "new 5"]
    combos = []
    for k in range(0, 4):
        combos += list(itertools.combinations(items, k))
    for ch in combos:
        xp(an, "change %s" % (ch,), lambda p: broker_case(an, ch, p), rep)
        for b in (1, 3, 4):
            if ("dead %d" % b in ch or "new %d" % b in ch) and len(ch) < 3:
                for k in (1, 2, 3):
                    cc = ch + ("refuses %d %d" % (b, k),)
                    xp(an, "change %s" % (cc,), lambda p: broker_case(an, cc, p), rep)
        if "new 4" in ch:
            cc = ch + ("vanishes 4",)
            xp(an, "change %s" % (cc,), lambda p: broker_case(an, cc, p), rep)
    for ch in (("renamed 2",), ("renamed 2", "dead 1"), ("renamed 2", "dead 3", "new 4")):
        xp(an, "change %s" % (ch,), lambda p: broker_case(an, ch, p), rep)
    for b in (1, 3, 4):
        cc = ("dead 1", "dead 3", "new 4", "refuses %d 15" % b)
        xp(an, "change %s" % (cc,), lambda p: broker_case(an, cc, p), rep)
    for ch in BIG:
        xp(an, "12 brokers, %s" % (ch,), lambda p: big_case(an, "C13", ch, p), rep)
    xp(an, "overlapping heals", lambda p: overlap_case(an, p), rep, max_paths=6000)
    for lost in ((), (0,), (5,)):
        for gone in (None, 0, 5):
            xp(an, "broker id 0, lost %s, gone %s" % (lost, gone), lambda p: zero_case(an, "C13", lost, gone, p), rep)
    for b in (0, 5):
        xp(an, "broker id 0, lost and refused once: %s" % b, lambda p: zero_case(an, "C13", (b,), None, p, b), rep)
        xp(an, "broker id 0, gone but named as a leader: %s" % b, lambda p: zero_case(an, "C13", (), b, p, None, True), rep)
    histories(an, rep, "C13", tier)
