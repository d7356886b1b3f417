"""Histories of the producer: every sequence of a few operations with brokers that keep leaders and topics
of their own.  Each accepted message is followed from the queue to its acknowledgement or rejection."""
import itertools

from .producer import Prod
from .. import spec
from ..core import site, PathStop
from ..scn import ck, call, run, escaped, name_of, xpz

TP = {"t": {0: 1, 1: 2, 2: 1}, "u": {0: 2}}
BP = {1: ("k1", 9092), 2: ("k2", 9092)}
OPS = ["t0", "t1", "t0 retriable", "t2 fatal", "unknown code", "leaders move", "broker 2 lost", "closes", "garbage",
       "topic toggles", "u0", "flush"]


class HProd(Prod):
    def __init__(self, an, p, prop, batch):
        self.prop, self.batch = prop, batch
        self.view, self.now = {}, None
        self.queue = []              # messages accepted and neither acknowledged nor rejected, in order
        self.fate = {}               # message -> "acknowledged" | "rejected" | "dropped"
        self.trail = []
        self.force, self.fail = {}, None
        Prod.__init__(self, an, p, batch, BP, TP)
        self.view = {t: dict(ps) for t, ps in self.w.topics.items()}
        self.w.policy = self.policy

    def say(self, props, cond, fmt, *args):
        if self.prop in props:
            ck(self.p, cond, "after %s: " % ", ".join(self.trail) + fmt, *args)
        elif not cond:
            raise PathStop()

    def choose(self, key, parts):
        for m, (t, pid) in self.dest.items():
            if self.same(self.key(m), key):
                v = self.now["views"][-1].get(t, ())
                self.say(("C17",), sorted(parts) == sorted(v), "the partitioner for %s gets the partitions %s instead of %s",
                         t, list(parts), sorted(v))
                return pid
        self.p.violation("the partitioner gets a key no message has: %s" % (key,))

    # -- brokers
    def policy(self, op):
        if op[0] != "request":
            return False
        q = op[1]
        if q.api == "metadata":
            if self.now is not None:
                self.now["metadata"] += 1
                self.now["views"].append({t: dict(ps) for t, ps in self.w.topics.items()})
            return False
        return self.on_produce(q) if q.api == "produce" else False

    def on_produce(self, q):
        now = self.now
        view = now["views"][now["base"]] if len(now["views"]) > now["base"] else {}
        out = []
        fail = self.fail if q.broker == 1 else None
        if fail:
            self.fail = None
        for t in q.v["topics"]:
            ps = []
            for x in t["partitions"]:
                k = (t["name"], x["partition_id"])
                ms = [m for a, b, l in self.sets(q) if (a, b) == k for m in l]
                self.say(("C17",), view.get(k[0], {}).get(k[1]) == q.broker, "%s/%s is sent to broker %s, the metadata names %s",
                         k[0], k[1], q.broker, view.get(k[0], {}).get(k[1]))
                self.say(("C17",), ms == sorted(ms), "the messages of %s/%s are sent in the order %s", k[0], k[1], ms)
                for m in ms:
                    self.say(("C17",), self.dest[m] == k, "message %s for %s/%s is sent to %s/%s", m, self.dest[m][0],
                             self.dest[m][1], k[0], k[1])
                    self.say(("C17", "C18", "C19"), m in self.queue, "message %s is sent again although it is %s", m,
                             self.fate.get(m))
                    self.say(("C17", "C18", "C20"), m not in now["sent"], "message %s is sent twice by one call", m)
                    now["sent"].append(m)
                lead = self.w.topics.get(k[0], {}).get(k[1])
                code = self.force.get(k, 3 if lead is None else 6 if lead != q.broker else 0)
                if not fail:
                    if code == 0 or code not in spec.RETRIABLE:
                        for m in ms:
                            self.queue.remove(m)
                            self.fate[m] = "rejected" if code else "acknowledged"
                    else:
                        now["stale"] = True
                ps.append({"partition_id": k[1], "error_code": code, "offset": 5})
            out.append({"name": t["name"], "partitions": ps})
        if fail == "closes":
            self.w.drop(q.stream)
        elif fail == "garbage":
            self.w.garbage(q)
        else:
            self.w.reply(q, {"topics": out})
        if fail:
            now["stale"] = True
        return True

    # -- operations
    def act(self, fn, *a, **k):
        what = k["what"]
        f = call(self.p, fn, *a)
        self.w.drive()
        o = self.w.result(f, "after %s: %s" % (", ".join(self.trail), what))
        if o[0] == "err":
            if name_of(o[1]) == "NoBrokersError" and not self.w.live():
                raise PathStop()     # nobody is left to ask
            self.p.violation("after %s: %s fails with %s: %s" % (", ".join(self.trail), what, name_of(o[1]), o[1]), site(o[1]))

    def frame(self, unknown):
        self.now = {"metadata": 0, "views": [self.view], "base": 1 if unknown else 0, "sent": [], "stale": False}
        return self.now

    def due(self, now, alive, what):
        """the flush that just took place sent exactly what can be sent"""
        view = now["views"][now["base"]]
        want = [m for m in self.before if view.get(self.dest[m][0], {}).get(self.dest[m][1]) in alive]
        self.say(("C17", "C18", "C20"), sorted(now["sent"]) == sorted(want), "%s sends the messages %s instead of %s", what,
                 sorted(now["sent"]), sorted(want))
        if now["stale"] or len(want) < len(self.before):
            self.say(("C18", "C19"), now["metadata"] > now["base"], "%s meets stale metadata or a lost broker and does not heal", what)

    def alive(self):
        return {b for b, a in self.w.brokers.items() if self.w.live(a)}

    def produce(self, slot):
        t, pid = slot
        unknown = t not in self.view
        now = self.frame(unknown)
        alive = self.alive()
        m = self.n
        self.n += 1
        self.dest[m] = slot
        self.before = list(self.queue) + [m]
        self.queue.append(m)
        lost = unknown and t not in self.w.topics
        if lost:
            self.queue.remove(m)
            self.before.remove(m)
            self.fate[m] = "dropped"
        self.act(self.c.produce, t, m, what="producing to %s" % t)
        if unknown:
            alive = set(self.w.brokers)
            self.say(("C20",), now["metadata"] >= 1, "producing to the unknown topic %s does not refresh the metadata", t)
        if lost:
            self.say(("C20",), not now["sent"] and now["metadata"] == 1,
                     "a message for an unknown topic makes the producer send %s and refresh the metadata %s times", now["sent"], now["metadata"])
        elif not self.batch or len(self.before) >= self.batch:
            self.due(now, alive, "a full batch")
        else:
            self.say(("C20",), not now["sent"], "%s messages with the batch size %s send %s", len(self.before), self.batch, now["sent"])
        self.view = now["views"][-1]

    def flush(self, what="a flush", fn=None):
        now = self.frame(False)
        alive = self.alive()
        self.before = list(self.queue)
        self.act(fn or self.c.flush, what=what)
        self.due(now, alive, what)
        self.view = now["views"][-1]

    def op(self, name):
        self.trail.append(name)
        w = self.w
        slot = {"t0 retriable": ("t", 0), "t2 fatal": ("t", 2), "unknown code": ("t", 1), "t1": ("t", 1), "u0": ("u", 0),
                "topic toggles": ("u", 0), "broker 2 lost": ("t", 1)}.get(name, ("t", 0))
        if name == "flush":
            return self.flush()
        if name == "t0 retriable":
            self.force = {slot: 6}
        elif name == "t2 fatal":
            self.force = {slot: 10}
        elif name == "unknown code":
            self.force = {slot: 999}
        elif name == "leaders move":
            for ps in w.topics.values():
                for pid in ps:
                    ps[pid] = 3 - ps[pid]
        elif name == "broker 2 lost":
            for s in w.live(BP[2]):
                w.drop(s)
            run(self.p)
        elif name in ("closes", "garbage"):
            self.fail = name
        elif name == "topic toggles":
            if "u" in w.topics:
                w.topics.pop("u")
            else:
                w.topics["u"] = {0: 2, 1: 1}
        self.produce(slot)
        self.force, self.fail = {}, None

    def end(self, close):
        self.trail.append("close" if close else "calm")
        if not self.w.topics.get("u"):
            self.w.topics["u"] = {0: 2}
        if close:
            self.flush("closing", self.c.close)
            left = list(self.queue)
            self.trail.append("producing after the close")
            n0, a0 = len(self.w.requests), len(self.w.attempts)
            self.frame(False)
            self.act(self.c.produce, "t", 10 ** 6, what="producing")
            self.say(("C20",), len(self.w.requests) == n0 and len(self.w.attempts) == a0, "a closed producer uses the network")
            del left
            return
        self.flush()
        self.flush()
        self.flush()
        self.say(("C18",), not self.queue, "the messages %s are neither acknowledged nor rejected", self.queue)


def walk(an, prop, batch, first, n, p):
    h = HProd(an, p, prop, batch)
    for name in first:
        h.op(name)
    for _ in range(n - len(first)):
        h.op(OPS[p.choose("next operation", len(OPS))])
    h.end(p.choose("how it ends", 2) == 1)
    escaped(p)


def histories(an, rep, prop, tier):
    n = {"thorough": 4, "quick": 3}.get(tier, 0)
    for batch, k in ((2, n), (0, n - 1), (3, n - 1)) if n else ():
        for first in itertools.product(OPS, repeat=2):
            xpz(an, "producer history %s batch %s" % (first, batch), lambda p: walk(an, prop, batch, first, k, p), rep,
               max_paths=20000, budget_s=3000)
