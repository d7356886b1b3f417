"""C42: overlapping calls on one consumer"""
import itertools

from . import check
from .wire import analysis
from .consumer import Cons, by_partition
from .group import Group
from .producer import domain_eq
from .. import spec, models, domain
from ..core import site
from ..scn import ck, call, run, escaped, name_of, xp

TS = {"t": {0: 1, 1: 2}, "u": {0: 2}}
TG = {"t": {0: 1, 1: 2}, "u": {0: 1, 4: 3}}


class Over(object):
    """mixed into Cons or Group: a broker handles the requests of one connection in order"""
    refuse = ()
    again = ()
    lose = None

    def policy(self, op):
        if op[0] != "request":
            return False
        q = op[1]
        if self.lose and self.lose == (q.api, q.broker):
            self.lose = None
            self.w.drop(q.stream)
            return True
        if q.api == "offset_commit":
            v = self.w.answer(q)
            for t, qt in zip(v["topics"], q.v["topics"]):
                for x, y in zip(t["partitions"], qt["partitions"]):
                    k = (t["name"], x["partition_id"])
                    if k in self.again:
                        self.again.discard(k)
                        x["error_code"] = 7
                    elif k in self.refuse:
                        self.refuse.discard(k)
                        x["error_code"] = -1
                    else:
                        self.w.committed[k] = y["offset"]
            self.w.reply(q, v)
            return True
        return self.kind.policy(self, op)


class OS(Over, Cons):
    kind = Cons
    policy = Over.policy


class OG(Over, Group):
    kind = Group
    policy = Over.policy


def settle(c, futures):
    c.w.drive(c.policy, "conn", limit=120)
    out = []
    for f, what in futures:
        o = c.w.result(f, what)
        if o[0] == "err":
            c.p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        out.append(o[1])
    return out


def fill(c, n):
    c.n = {}
    for t in c.w.topics:
        for pid in c.w.topics[t]:
            c.n[t, pid] = n
            for i in range(n):
                c.put(t, pid, i)


def more(c, t):
    for pid in c.w.topics[t]:
        c.put(t, pid, c.n[t, pid])
        c.n[t, pid] += 1


def expect(c, mine, t, since):
    return {k: list(range(since.get(k, 0), c.n[k])) for k in mine if k[0] == t and c.n[k] > since.get(k, 0)}


def single_case(an, codes, lost, first, p):
    """two topics are consumed at the same time; codes: answers of the first round"""
    c = OS(an, p, topics=TS)
    fill(c, 1)
    mine = {(t, pid) for t in TS for pid in TS[t]}
    seen = {}
    for t in first:
        c.consume(t)
        seen.update({k: 1 for k in mine if k[0] == t})
    if first:
        more(c, "t")
        more(c, "u")
    c.code = dict(codes)
    c.lose = lost
    fs = [(call(p, c.c.consume, t), "an overlapping consume of %s" % t) for t in ("t", "u")]
    rs = settle(c, fs)
    c.lose = None
    for t, r in zip(("t", "u"), rs):
        want = {k: v for k, v in expect(c, mine, t, seen).items() if not c.code.get(k)}
        got = by_partition(r)
        if lost:
            ck(p, all(got.get(k) in (None, v) for k, v in want.items()) and set(got) <= set(want),
               "an overlapping consume of %s delivers %s instead of a part of %s", t, got, want)
        else:
            ck(p, got == want, "an overlapping consume of %s delivers %s instead of %s", t, got, want)
        for k in got:
            seen[k] = c.n[k]
    # out of range positions are determined anew
    c.code = {}
    for t in ("u", "t"):
        r, qs = c.consume(t)
        want = expect(c, mine, t, seen)
        if any(v == 1 and k[0] == t for k, v in codes.items()) or (lost and lost[0] == "offset"):
            continue
        ck(p, by_partition(r) == want, "after overlapping calls consuming %s delivers %s instead of %s", t,
           by_partition(r), want)
        c.at(c.positions(qs), {k: c.start(*k) + seen.get(k, 0) for k in mine if k[0] == t},
             "a fetch after overlapping calls")
    escaped(p)


def group_case(an, first, again, p):
    """two topics of a group are consumed at the same time, both commit"""
    c = OG(an, p, {"t": [0, 1], "u": [0, 4]}, topics=TG)
    fill(c, 1)
    mine = c.mine()
    seen = {}
    for t in first:
        c.consume(t)
        seen.update({k: 1 for k in mine if k[0] == t})
        more(c, t)
    c.again = set(again)
    fs = [(call(p, c.c.consume, t), "an overlapping consume of %s" % t) for t in ("t", "u")]
    rs = settle(c, fs)
    for t, r in zip(("t", "u"), rs):
        want = expect(c, mine, t, seen)
        ck(p, by_partition(r) == want, "an overlapping consume of %s delivers %s instead of %s", t, by_partition(r), want)
    for k in mine:
        ck(p, domain_eq(c.w.committed[k], c.start(*k) + c.n[k]),
           "after two overlapping consumes %s/%s is committed at %s instead of %s", k[0], k[1], c.w.committed[k],
           c.start(*k) + c.n[k])
    escaped(p)


def commit_case(an, again, refuse, lost, p):
    """a manual commit is under way while the next messages are consumed"""
    c = OG(an, p, {"t": [0, 1], "u": [0, 4]}, topics=TG, autocommit=False)
    fill(c, 1)
    mine = c.mine()
    c.consume("t")
    c.consume("u")
    more(c, "t")
    c.again, c.refuse, c.lose = set(again), set(refuse), lost
    fs = [(call(p, c.c.commit_offsets), "a commit"), (call(p, c.c.consume, "t"), "a consume during a commit")]
    rs = settle(c, fs)
    ck(p, by_partition(rs[1]) == {k: [1] for k in mine if k[0] == "t"} or lost,
       "a consume during a commit delivers %s", by_partition(rs[1]))
    c.again, c.refuse, c.lose = set(), set(), None
    c.w.ok(call(p, c.c.commit_offsets), "the next commit", c.policy)
    for k in mine:
        at = c.start(*k) + (1 if k[0] == "u" else max([i for kk, i in ((x[1:3], x[3]) for x in rs[1]) if kk == k], default=0) + 1)
        ck(p, domain_eq(c.w.committed[k], at), "after a commit that follows a consume during another commit "
           "%s/%s is committed at %s instead of %s", k[0], k[1], c.w.committed[k], at)
    escaped(p)


@check("C42", "path-sensitive abstract interpretation of overlapping consume and commit calls, every order in which the brokers' connections answer",
       "Two topics consumed at the same time by a single consumer and by a group member, with error answers, a lost broker and commits "
       "that are repeated or refused; a manual commit under way while the next messages are consumed.", 200)
def c42(rep, tier):
    an = analysis(rep)
    many = tier == "thorough"
    for first in ((), ("t",), ("t", "u")):
        for codes in ({}, {("t", 0): 6}, {("t", 1): 1}, {("u", 0): 3}, {("t", 0): 999, ("u", 0): 6}):
            xp(an, "single %s codes %s" % (first, codes), lambda p: single_case(an, codes, None, first, p), rep,
               max_paths=60000, budget_s=2000)
        for lost in (("fetch", 1), ("fetch", 2), ("offset", 2)):
            xp(an, "single %s lost %s" % (first, lost), lambda p: single_case(an, {}, lost, first, p), rep,
               max_paths=60000, budget_s=2000)
    for first in ((), ("u",), ("t", "u")):
        for again in ((), (("t", 0),), (("u", 4),)):
            xp(an, "group %s again %s" % (first, again), lambda p: group_case(an, first, again, p), rep,
               max_paths=60000, budget_s=2000)
    for again in ((), (("t", 0),), (("u", 4),)):
        for refuse in ((), (("t", 1),), (("u", 0),)):
            for lost in (None, ("offset_commit", 2)):
                xp(an, "commit again %s refuse %s lost %s" % (again, refuse, lost),
                   lambda p: commit_case(an, again, refuse, lost, p), rep, max_paths=60000, budget_s=2000)
