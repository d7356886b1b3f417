"""C14 C15 C16: dispatch of requests, healing after a send, closing a client"""
import itertools

from . import check
from .wire import analysis
from .clus import B3, T3
from ..core import site, short
from ..domain import EngineSignal
from .. import loop as L
from ..scn import mod, need, ck, run, escaped, outcome, call, World, xp, name_of

HOW = ["ok", "closes", "dead already", "write fails", "garbage", "unknown", "culled"]
NEEDS_HEAL = {"closes", "dead already", "write fails", "garbage", "unknown", "culled"}


B4 = dict(B3)
B4[4] = ("k1", 9095)        # a bystander that always works


class Boom(Exception):
    pass


def probe(an, p, handlers, wind_down=None):
    """a client class of a user: handlers for some apis"""
    Client = need(mod(an, "clients.client"), "Client")
    d = {"handle_%s_response" % a: f for a, f in handlers.items()}
    if wind_down is not None:
        d["wind_down"] = wind_down
    return type("Probe", (Client,), d)


def connected(an, p, cls, brokers=B3, topics=T3, *a, **k):
    w = World(p, an, brokers, topics)
    w.coordinator = 1
    c = cls(["boot"], *a, **k)
    w.ok(call(p, c.connect), "connecting the client")
    return w, c


def requests(an):
    P = lambda m, c: need(mod(an, "protocol." + m), c)
    return {
        1: P("coordinator", "GroupCoordinatorRequest")(group="g1"),
        2: P("offset", "OffsetRequest")(replica_id=-1, topics=[P("offset", "TopicRequest")(name="t", partitions=[
            P("offset", "PartitionRequest")(partition_id=1, time=-1, max_offsets=1)])]),
        3: P("coordinator", "GroupCoordinatorRequest")(group="g3"),
    }


WIRE = {1: ("group_coordinator", {"group": "g1"}),
        2: ("offset", {"replica_id": -1, "topics": [{"name": "t", "partitions": [
            {"partition_id": 1, "time": -1, "max_offsets": 1}]}]}),
        3: ("group_coordinator", {"group": "g3"})}
API = {1: "group_coordinator", 2: "offset", 3: "group_coordinator"}


class Trial(object):
    """one client with handlers that record, and brokers that behave as told"""

    def __init__(self, an, p, hows, later=(), stale=(), returns=None):
        self.an, self.p = an, p
        self.calls = []
        self.slow = {}
        self.later = set(later)
        self.stale = set(stale)
        self.returns = returns or {}
        t = self

        def record(self, response):
            b = t.by_corr.get(response.correlation_id)
            t.calls.append((b, response))
            p.ev("handler", b, response.api)
            if b in t.stale:
                self.heal_cluster = True
            r = t.returns.get(b, "result of %s" % b)
            if b in t.later:
                f = L.KFuture("handler result %s" % b)
                t.slow[b] = (f, r)
                return f
            return r
        self.cls = probe(an, p, {"group_coordinator": record, "offset": record})
        self.w, self.c = connected(an, p, self.cls, B4)
        self.reqs = requests(an)
        self.how = dict(zip((1, 2, 3), hows))
        self.by_corr = {}

    def prepare(self):
        """dead or culled connections"""
        w, p = self.w, self.p
        out = {}
        for b, q in self.reqs.items():
            h = self.how[b]
            if h == "unknown":
                out[b + 70] = q
                continue
            s = w.live(B3[b])[0] if w.live(B3[b]) else None
            if h == "dead already":
                w.drop(s)
            elif h == "culled":
                w.drop(s)
                self.c.cluster.conns.pop(b)
            elif h == "write fails":
                s.on_write = lambda: OSError(32, "Broken pipe")
            out[b] = q
        run(p)
        for b, q in self.reqs.items():
            self.by_corr[q.correlation_id] = b if self.how[b] != "unknown" else b + 70
        self.n0 = len(w.requests)
        self.e0 = len(p.events)
        return out

    def policy(self, op):
        if op[0] == "connect":
            return False
        q = op[1]
        if q.api == "metadata":
            self.p.ev("heal starts")
            return False
        h = self.how.get(q.broker)
        if h == "closes":
            self.w.drop(q.stream)
            return True
        if h == "garbage":
            self.w.garbage(q)
            return True
        if q.api == "group_coordinator":
            self.w.reply(q, {"error_code": 0, "coordinator_id": 100 + q.broker, "coordinator_host": "h",
                             "coordinator_port": 1})
            return True
        return False

    def drive(self, order="fifo"):
        n = 0
        while True:
            self.w.drive(self.policy, order)
            if not self.slow:
                return
            n += 1
            b = sorted(self.slow)[0]
            f, r = self.slow.pop(b)
            f.set_result(r)

    def sent(self):
        return [q for q in self.w.requests[self.n0:] if q.api != "metadata"]


def dispatch_case(an, hows, later, order, returns, p):
    t = Trial(an, p, hows, later=later, returns=returns)
    f = call(p, t.c.send, t.prepare())
    t.drive(order)
    o = t.w.result(f, "a send to brokers that %s" % (hows,))
    if o[0] == "err":
        p.violation("a send fails with %s: %s although only some brokers fail (%s)" % (
            name_of(o[1]), o[1], ", ".join(hows)), site(o[1]))
    good = [b for b in (1, 2, 3) if t.how[b] == "ok"]
    want = {b: returns.get(b, "result of %s" % b) for b in good}
    got = o[1]
    ck(p, isinstance(got, dict) and set(got) == set(want),
       "the results of a send (%s) are for brokers %s instead of %s", ", ".join(hows),
       sorted(got, key=repr) if isinstance(got, dict) else got, sorted(want))
    for b in good:
        ck(p, type(got[b]) is type(want[b]) and got[b] == want[b],
           "the result under broker %s is %s instead of its handler's %s", b, got[b], want[b])
    sent = t.sent()
    for b in (1, 2, 3):
        mine = [q for q in sent if q.broker == b]
        n = 1 if t.how[b] in ("ok", "closes", "garbage") else 0
        ck(p, len(mine) == n, "broker %s (%s) receives %s requests instead of %s", b, t.how[b], len(mine), n)
        for q in mine:
            ck(p, q.api == WIRE[b][0] and q.v == WIRE[b][1], "broker %s receives the request %s %s instead of its own",
               b, q.api, q.v)
    ck(p, sorted(b for b, _ in t.calls) == good, "handlers run for the answers of %s instead of %s",
       sorted((b for b, _ in t.calls), key=repr), good)
    for b, r in t.calls:
        ck(p, r.api == API[b], "the answer of broker %s reaches the handler of %s", b, r.api)
        if API[b] == "group_coordinator":
            ck(p, r.coordinator_id == 100 + b, "the handler for broker %s sees the answer of another one", b)
    escaped(p)


def async_handler_case(an, p):
    """handlers written as coroutines, one of them raising an error of its own"""
    t = Trial(an, p, ("ok", "ok", "ok"))

    def slow(self, response):
        yield None
        raise L.Return(("slow", response.coordinator_id))
    t.cls.handle_group_coordinator_response = L.coroutine(slow)
    f = call(p, t.c.send, t.prepare())
    t.drive("any")
    o = t.w.result(f, "a send with coroutine handlers")
    if o[0] == "err":
        p.violation("a send with coroutine handlers fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    want = {1: ("slow", 101), 2: "result of 2", 3: ("slow", 103)}
    ck(p, o[1] == want, "results with coroutine handlers are %s instead of %s", o[1], want)


def zero_case(an, how, p, x=0, y=5):
    """broker ids are any numbers, 0 among them"""
    C = need(mod(an, "protocol.coordinator"), "GroupCoordinatorRequest")
    calls = []
    by = {}

    def record(self, response):
        calls.append(by[response.correlation_id])
        return "result of %s" % by[response.correlation_id]
    w, c = connected(an, p, probe(an, p, {"group_coordinator": record}), {x: ("k0", 9092), y: ("k5", 9092)},
                     {"t": {0: x, 1: y}})
    reqs = {b: C(group="g%s" % b) for b in (x, y)}
    if how == "culled":
        w.drop(w.live(("k0", 9092))[0])
        run(p)
        c.cluster.conns.pop(x, None)
    for b, q in reqs.items():
        by[q.correlation_id] = b
    n0 = len(w.requests)

    def pol(op):
        if op[0] != "request" or op[1].api == "metadata":
            return False
        if op[1].broker == x and how == "closes":
            w.drop(op[1].stream)
        else:
            w.reply(op[1], {"error_code": 0, "coordinator_id": 9, "coordinator_host": "h", "coordinator_port": 1})
        return True
    f = call(p, c.send, reqs)
    w.drive(pol)
    o = w.result(f, "a send to brokers %s and %s" % (x, y))
    good = sorted([x, y]) if how == "ok" else [y]
    ck(p, o == ("ok", {b: "result of %s" % b for b in good}), "a send to brokers %s (%s) and %s ends as %s", x, how, y, o)
    got = sorted((q.broker, q.v["group"]) for q in w.of("group_coordinator", n0))
    ck(p, got == sorted((b, "g%s" % b) for b in ([y] if how == "culled" else [x, y])),
       "a send to brokers %s (%s) and %s reaches %s", x, how, y, got)
    ck(p, sorted(calls) == good, "handlers run for the answers of %s instead of %s", sorted(calls), good)
    ck(p, len(w.of("metadata", n0)) == (how != "ok"), "%s heals follow a send to broker %s (%s) and broker %s",
       len(w.of("metadata", n0)), x, how, y)
    escaped(p)


def nobody_case(an, p):
    t = Trial(an, p, ("ok", "ok", "ok"))
    t.prepare()
    f = call(p, t.c.send, {})
    t.drive()
    o = t.w.result(f, "a send without requests")
    ck(p, o == ("ok", {}), "a send without requests ends as %s", o)
    ck(p, not t.sent() and not t.w.of("metadata", t.n0), "a send without requests reaches the network")


def no_handler_case(an, p):
    cls = probe(an, p, {})
    w, c = connected(an, p, cls)
    f = call(p, c.send, {1: requests(an)[1]})
    o = w.finish(f, "a send without a handler")
    E = need(mod(an, "exc"), "UnhandledResponseError")
    ck(p, o[0] == "err" and isinstance(o[1], E) and o[1].api == "group_coordinator",
       "an answer without a handler ends as %s instead of an unhandled response error", o)


class Stub(object):
    """stands in front of a connection: the futures of its sends end as the scenario says"""

    def __init__(self, trial, b, conn):
        d = self.__dict__
        d["t"], d["b"], d["conn"] = trial, b, conn

    def __getattr__(self, name):
        return getattr(self.conn, name)

    def __setattr__(self, name, v):
        setattr(self.conn, name, v)

    def send(self, request, *a, **k):
        if request.api == "metadata":
            return self.conn.send(request, *a, **k)
        f = L.KFuture("answer of broker %s" % self.b)
        self.t.futures.append((self.b, request, f))
        self.t.p.ev("send", self.b, request.api)
        return f


STUB = ["ok", "stream closed", "lost", "error"]


def stub_case(an, hows, stale, p):
    """connections whose answers end in every way a future can end, in every order"""
    t = Trial(an, p, ("ok", "ok", "ok"), stale=stale)
    t.futures = []
    E = need(mod(an, "exc"), "BrokerConnectionError")
    C = need(mod(an, "protocol.coordinator"), "GroupCoordinatorResponse")
    O = need(mod(an, "protocol.offset"), "OffsetResponse")
    reqs = t.prepare()
    t.how = {}
    conns = t.c.cluster.conns
    for b in list(conns):
        conns[b] = Stub(t, b, conns[b])
    heals = []

    def watch(op):
        if op[0] == "request" and op[1].api == "metadata":
            heals.append(op[1])
            ck(p, not f.done(), "the send completes before the heal it needs")
            ck(p, not t.futures, "the heal starts before all answers are handled")
        return False
    f = call(p, t.c.send, reqs)
    run(p)
    ck(p, sorted(b for b, _, _ in t.futures) == [1, 2, 3], "requests are sent to brokers %s instead of 1, 2 and 3",
       sorted(b for b, _, _ in t.futures))
    while t.futures:
        i = p.choose("which answer comes first", len(t.futures))
        b, q, g = t.futures.pop(i)
        how = hows[b - 1]
        if how == "ok":
            r = C(error_code=0, coordinator_id=100 + b, coordinator_host="h", coordinator_port=1) \
                if API[b] == "group_coordinator" else O(topics=[])
            r.correlation_id = q.correlation_id
            g.set_result(r)
        elif how == "stream closed":
            g.set_exception(an.ip.host["tornado.iostream"].StreamClosedError())
        elif how == "lost":
            g.set_exception(E("h", 1))
        else:
            g.set_exception(Boom("sending"))
        run(p)
    t.w.drive(watch)
    o = t.w.result(f, "a send whose answers end as %s" % (hows,))
    if o[0] == "err":
        p.violation("a send fails with %s: %s although only some brokers fail (%s)" % (
            name_of(o[1]), o[1], ", ".join(hows)), site(o[1]))
    good = [b for b in (1, 2, 3) if hows[b - 1] == "ok"]
    ck(p, o[1] == {b: "result of %s" % b for b in good}, "the results of a send (%s) are %s instead of those of brokers %s",
       ", ".join(hows), o[1], good)
    ck(p, sorted(b for b, _ in t.calls) == good, "handlers run for the answers of %s instead of %s",
       sorted((b for b, _ in t.calls), key=repr), good)
    for b, r in t.calls:
        ck(p, r.api == API[b], "the answer of broker %s reaches the handler of %s", b, r.api)
    want = "lost" in hows or "error" in hows or any(b in good for b in stale)
    if want:
        ck(p, len(heals) == 1, "%s heals follow one send (%s)", len(heals), ", ".join(hows))
    elif "stream closed" not in hows:
        ck(p, not heals, "there is a heal after a send without trouble")
    escaped(p)


def winding_case(an, how, p):
    """a send made while the client winds down"""
    t = Trial(an, p, (how, "ok", "ok"), stale=(2,) if how == "ok" else ())
    got = []

    def wind_down(self):
        f = call(p, self.send, t.prepare())
        got.append(f)
        return f
    t.cls.wind_down = wind_down
    seen = []

    def watch(op):
        if op[0] == "request" and op[1].api == "metadata":
            seen.append(op[1])
            ck(p, not got[0].done(), "the send completes before the heal it needs")
        return t.policy(op)
    f = call(p, t.c.close)
    t.w.drive(watch)
    o = t.w.result(f, "closing")
    ck(p, o[0] == "ok", "closing a client whose winding down sends requests ends as %s", o)
    r = outcome(p, got[0])
    ck(p, r[0] == "ok" and set(r[1]) == ({1, 2, 3} if how == "ok" else {2, 3}),
       "a send while winding down (broker 1: %s) ends as %s", how, r)
    ck(p, len(seen) == 1, "%s heals follow a send with trouble (broker 1: %s) made while winding down", len(seen), how)
    for s in t.w.streams:
        ck(p, s.dead, "closing leaves the connection to %s open", s.addr)
    escaped(p)


@check("C14", "path-sensitive abstract interpretation of Client.send over an abstract network (every outcome per broker, every order of answers)",
       "Three brokers, seven outcomes each; plain, false-valued, future and coroutine handler results.", 2500)
def c14(rep, tier):
    an = analysis(rep)
    for hows in itertools.product(HOW, repeat=3):
        xp(an, "brokers %s" % (hows,), lambda p: dispatch_case(an, hows, (), "fifo", {}, p), rep)
    for hows in (("ok", "ok", "ok"), ("ok", "closes", "ok"), ("garbage", "ok", "ok"), ("ok", "ok", "unknown"),
                 ("dead already", "ok", "ok"), ("ok", "ok", "write fails")):
        for later in ((), (1,), (2, 3), (1, 2, 3)):
            xp(an, "any order %s later=%s" % (hows, later),
               lambda p: dispatch_case(an, hows, later, "any", {1: None, 2: False, 3: ()}, p), rep)
    xp(an, "coroutine handlers", lambda p: async_handler_case(an, p), rep)
    for how in ("ok", "closes", "culled"):
        for x, y in ((0, 5), (3, 13), (1003, 10), (2 ** 31 - 1, 7)):
            xp(an, "brokers %d %s and %d" % (x, how, y), lambda p: zero_case(an, how, p, x, y), rep)
    xp(an, "nothing to send", lambda p: nobody_case(an, p), rep)
    for hows in itertools.product(STUB, repeat=3):
        if tier == "quick" and hows[0] != hows[2] and "ok" not in hows:
            continue
        xp(an, "answers %s" % (hows,), lambda p: stub_case(an, hows, (), p), rep)
    xp(an, "no handler", lambda p: no_handler_case(an, p), rep)


# --------------------------------------------------------------------------------------- C15

def heal_case(an, hows, stale, later, order, p):
    t = Trial(an, p, hows, later=later, stale=stale)
    t.c.heal_cluster = False
    f = call(p, t.c.send, t.prepare())
    done_at = []
    seen = []

    def watch(op):
        if op[0] == "request" and op[1].api == "metadata":
            seen.append(op[1])
            ck(p, not f.done(), "the send completes before the heal it needs")
            pend = [q for q in t.w.ops if q[0] == "request" and q[1].api != "metadata"]
            ck(p, not pend and not t.slow, "the heal starts before all answers are handled")
        return t.policy(op)
    pol = t.policy
    n = 0
    while True:
        t.w.drive(watch, order)
        if not t.slow:
            break
        b = sorted(t.slow)[0]
        g, r = t.slow.pop(b)
        g.set_result(r)
    o = t.w.result(f, "a send")
    if o[0] == "err":
        p.violation("a send fails with %s: %s" % (name_of(o[1]), o[1]), site(o[1]))
    want = bool(set(hows) & NEEDS_HEAL or any(t.how[b] == "ok" for b in stale))
    what = "brokers: %s%s" % (", ".join(hows), ", stale metadata reported" if stale else "")
    ck(p, bool(seen) == want, "%s a heal after a send (%s)", "there is" if seen else "there is not", what)
    if want:
        ck(p, len(seen) == 1, "%s heals follow one send (%s)", len(seen), what)
    # the need is cleared: another, trouble-free send does not heal
    t.how = {1: "ok", 2: "ok", 3: "ok"}
    t.stale = set()
    t.later = set()
    t.reqs = requests(an)
    g = call(p, t.c.send, t.prepare())
    del seen[:]
    t.w.drive(watch, "fifo")
    o = t.w.result(g, "a second send")
    ck(p, o[0] == "ok" and set(o[1]) == {1, 2, 3}, "after the heal (%s) a send ends as %s", what, o)
    ck(p, not seen, "a trouble-free send heals the cluster because of an earlier one (%s)", what)
    escaped(p)


def overlap_case(an, p):
    """trouble seen by one send while another one heals"""
    t = Trial(an, p, ("ok", "ok", "ok"))
    t.prepare()
    t.reqs = requests(an)

    def answer(op):
        if op[0] != "request":
            return False
        q = op[1]
        if q.api == "metadata":
            return False
        t.w.reply(q, {"error_code": 0, "coordinator_id": 100 + q.broker, "coordinator_host": "h",
                      "coordinator_port": 1})
        return True
    a, b, d = requests(an)[1], requests(an)[3], requests(an)[1]
    t.by_corr = {a.correlation_id: 1, b.correlation_id: 3, d.correlation_id: 2}

    def rec(self, response):
        who = t.by_corr[response.correlation_id]
        if who != 2:
            self.heal_cluster = True
            p.ev("need", who)
        return True
    t.cls.handle_group_coordinator_response = rec
    fa = call(p, t.c.send, {1: a})
    fb = call(p, t.c.send, {3: b, 2: d})
    t.w.drive(answer, "any")
    for f in (fa, fb):
        o = t.w.result(f, "one of two overlapping sends")
        ck(p, o[0] == "ok", "one of two overlapping sends ends as %s", o)
    marks = [e[:2] for e in p.events if e[0] == "need" or e[:2] == ("request", "metadata")]
    last_need = max(i for i, m in enumerate(marks) if m[0] == "need")
    ck(p, any(m[0] == "request" for m in marks[last_need:]),
       "stale metadata reported while another send is healing is forgotten: no heal follows (%s)", marks)
    escaped(p)


def failed_heal_case(an, p):
    """a heal that fails is still needed"""
    t = Trial(an, p, ("closes", "ok", "ok"))
    for b in (2, 3):
        t.reqs.pop(b)
    f = call(p, t.c.send, t.prepare())

    def pol(op):
        if op[0] == "request" and op[1].api == "metadata":
            t.w.garbage(op[1])
            return True
        return t.policy(op)
    t.w.drive(pol)
    o = t.w.result(f, "a send whose heal fails")
    NB = need(mod(an, "exc"), "NoBrokersError")
    ck(p, o[0] == "err" and isinstance(o[1], NB), "a send whose heal finds no broker ends as %s", o)
    escaped(p)


@check("C15", "path-sensitive abstract interpretation of Client.send: heals observed on the abstract network against the trouble of the send",
       "Three brokers, every outcome each, stale metadata reported or not, overlapping sends, failing heals.", 1000)
def c15(rep, tier):
    an = analysis(rep)
    for hows in itertools.product(HOW, repeat=3):
        if tier == "quick" and len(set(hows)) == 3 and hows[0] != "ok" and hows[1] != "ok":
            continue
        xp(an, "brokers %s" % (hows,), lambda p: heal_case(an, hows, (), (), "fifo", p), rep)
        if hows.count("ok") >= 2:
            for stale in ((1,), (2,), (3,), (1, 3)):
                xp(an, "brokers %s stale %s" % (hows, stale), lambda p: heal_case(an, hows, stale, (), "fifo", p), rep)
    for hows in (("ok", "ok", "ok"), ("ok", "closes", "ok"), ("garbage", "ok", "ok")):
        for stale in ((), (1,), (3,)):
            for later in ((), (1, 3)):
                xp(an, "any order %s stale %s later %s" % (hows, stale, later),
                   lambda p: heal_case(an, hows, stale, later, "any", p), rep)
    for hows in itertools.product(STUB, repeat=3):
        for stale in ((), (2,)):
            if tier == "quick" and (stale or hows[0] != hows[2]) and "ok" not in hows:
                continue
            xp(an, "answers %s stale %s" % (hows, stale), lambda p: stub_case(an, hows, stale, p), rep)
    for how in ("ok", "closes", "garbage", "unknown", "dead already", "write fails"):
        xp(an, "winding down %s" % how, lambda p: winding_case(an, how, p), rep)
    for how in ("ok", "closes", "culled"):
        for x, y in ((0, 5), (3, 13), (1003, 10), (2 ** 31 - 1, 7)):
            xp(an, "brokers %d %s and %d" % (x, how, y), lambda p: zero_case(an, how, p, x, y), rep)
    xp(an, "overlapping sends", lambda p: overlap_case(an, p), rep)
    xp(an, "failing heal", lambda p: failed_heal_case(an, p), rep)


# --------------------------------------------------------------------------------------- C16

def close_case(an, kind, dead, p):
    seen = []
    gate = []

    def wind_down(self):
        run(p)
        seen.append((self.closing, len(w.live())))
        if kind == "raises":
            raise Boom("wind down")
        if kind in ("later", "later raises"):
            f = L.KFuture("wind down")
            gate.append(f)
            return f
        f = L.KFuture("wind down")
        if kind == "fails":
            f.set_exception(Boom("wind down"))
        else:
            f.set_result(None)
        return f
    cls = probe(an, p, {}, wind_down)
    w, c = connected(an, p, cls)
    ck(p, not c.closing, "a connected client counts as closing")
    for b in dead:
        w.drop(w.live(B3[b])[0])
    run(p)
    n = 3 - len(dead)
    f = call(p, c.close)
    if gate:
        run(p)
        ck(p, len(w.live()) == n, "connections are closed before the client has wound down")
        ck(p, not f.done(), "close completes before the client has wound down")
        if kind == "later raises":
            gate[0].set_exception(Boom("wind down"))
        else:
            gate[0].set_result(None)
    w.drive()
    o = w.result(f, "closing a client (wind down %s)" % kind)
    ck(p, len(seen) == 1, "closing winds the client down %s times", len(seen))
    ck(p, seen[0][0] is True, "the client is not marked closing while it winds down")
    ck(p, seen[0][1] == n, "%s of %s connections are open while the client winds down", seen[0][1], n)
    ck(p, c.closing is True, "the client is not marked closing after close")
    for s in w.streams:
        ck(p, s.dead, "closing (wind down %s) leaves the connection to %s open", kind, s.addr)
    if kind in ("raises", "fails", "later raises"):
        ck(p, o[0] == "err" and isinstance(o[1], Boom), "an error while winding down is lost: close ends as %s", o)
    else:
        ck(p, o[0] == "ok", "close ends as %s", o)
    n0 = len(w.requests)
    g = call(p, c.send, {1: requests(an)[1]})
    w.drive()
    ck(p, len(w.requests) == n0, "a closed client still sends requests")
    escaped(p)


def single_close(an, p):
    SC = need(mod(an, "clients.single"), "SingleConsumer")
    w, c = connected(an, p, SC)
    n0 = len(w.requests)
    o = w.finish(call(p, c.close), "closing a single consumer")
    ck(p, o[0] == "ok" and c.closing is True, "closing a single consumer ends as %s", o)
    for s in w.streams:
        ck(p, s.dead, "closing a single consumer leaves the connection to %s open", s.addr)


def member_close(an, kind, p):
    """closing a group member, whatever its share of the group and the state of its cluster"""
    from .group import Group
    alloc = {"nothing": {}, "some": {"t": [0, 2]}, "empty topic": {"t": []}}.get(kind)
    g = Group(an, p, alloc, brokers=B3, topics=T3)
    w, c, zoo = g.w, g.c, g.zoo
    if kind == "consumed":
        w.finish(call(p, c.consume, "t"), "a consume")
    if kind == "rebalanced away":
        g.rebalance({})
    if kind == "coordinator lost":
        c.coordinator_id = None
    if kind == "brokers lost":
        for s in list(w.live()):
            w.drop(s)
        run(p)
    me = g.me()
    ck(p, me is not None, "a connected group member has no node in ZooKeeper")
    left = []
    n = len(w.live())

    def before(client, op, path):
        if op == "delete" and path == me:
            left.append((c.closing, len(w.live())))
    zoo.before = before
    if kind == "leaving fails":
        zoo.fault = lambda client, op, path: zoo.ex.ConnectionLoss() if op == "delete" else None
    o = w.finish(call(p, c.close), "closing a group member (%s)" % kind)
    zoo.flush()
    for s in w.streams:
        ck(p, s.dead, "closing a group member (%s) leaves the connection to %s open", kind, s.addr)
    if kind == "leaving fails":
        ck(p, o[0] == "err", "an error while leaving the group is lost")
        return
    ck(p, o[0] == "ok", "closing a group member (%s) ends as %s", kind, o)
    ck(p, me not in zoo.nodes, "a closed group member (%s) has not left its group", kind)
    ck(p, left == [(True, n)], "a group member (%s) leaves its group %s times while closing with connections open: %s",
       kind, len(left), left)
    escaped(p)


MEMBER = ["nothing", "some", "empty topic", "all", "consumed", "rebalanced away", "coordinator lost", "brokers lost",
          "leaving fails"]


def producer_close(an, how, p):
    PR = need(mod(an, "clients.producer"), "Producer")

    def part(key, parts):
        if how == "partitioner raises" and c.closing:
            raise Boom("partitioner")
        return 0
    w, c = connected(an, p, PR, B3, T3, batch_size=10, partitioner=part)
    f = call(p, c.produce, "t", {"m": 1})
    w.drive()
    n0 = len(w.requests)
    if how == "broker fails":
        def pol(op):
            if op[0] == "request" and op[1].api == "produce":
                ck(p, c.closing is True, "the producer flushes before it is marked closing")
                w.drop(op[1].stream)
                return True
            return False
    else:
        def pol(op):
            if op[0] == "request" and op[1].api == "produce":
                ck(p, c.closing is True, "the producer flushes before it is marked closing")
                ck(p, len(w.live()) == 3, "connections are closed before the producer has flushed")
            return False
    f = call(p, c.close)
    w.drive(pol)
    o = w.result(f, "closing a producer (%s)" % how)
    qs = w.of("produce", n0)
    if how == "ok":
        ck(p, len(qs) == 1, "closing a producer sends %s requests for the queued message", len(qs))
        ck(p, o[0] == "ok", "closing a producer ends as %s", o)
        late = call(p, c.produce, "t", {"m": 2})
        w.drive()
        ck(p, len(w.of("produce", n0)) == 1, "a closed producer still sends")
    for s in w.streams:
        ck(p, s.dead, "closing a producer (%s) leaves the connection to %s open", how, s.addr)
    escaped(p)


def connecting_close(an, at, when, down, p):
    """close is called at the at-th network operation of connect"""
    C = need(mod(an, "clients.single"), "SingleConsumer")
    w = World(p, an, B3, T3)
    w.down |= {B3[b] for b in down}
    c = C(["boot:9092", "other:9092"])
    st = {"n": 0, "f": None}

    def pol(op):
        k = st["n"]
        st["n"] += 1
        if k == at and when == "before":
            st["f"] = call(p, c.close)
            run(p)
            if (op[1] if op[0] == "connect" else op[1].stream).dead:
                return True
        w.default(op)
        if k == at and when == "after":
            st["f"] = call(p, c.close)
            run(p)
        if k > 12:
            w.down.clear()
        return True
    f = call(p, c.connect)
    w.drive(pol)
    if st["f"] is None:
        return
    what = "closing %s operation %s of connect" % (when, at)
    w.ok(st["f"], what)
    w.result(f, "a connect during which the client is closed")
    for s in w.streams:
        ck(p, s.dead, "%s leaves a connection to %s open", what, s.addr)


def busy_close(an, kind, at, when, lost, p):
    """close is called at the at-th network operation of another call"""
    cls = {"consume": "clients.single.SingleConsumer", "consume unknown": "clients.single.SingleConsumer",
           "produce": "clients.producer.Producer", "produce unknown": "clients.producer.Producer"}[kind]
    modname, _, name = cls.rpartition(".")
    w, c = connected(an, p, need(mod(an, modname), name), B3, T3)
    for b in lost:
        w.drop(w.live(B3[b])[0])
    run(p)
    st = {"n": 0, "f": None, "slow": []}

    def pol(op):
        k = st["n"]
        st["n"] += 1
        if k == at and when == "before":
            st["f"] = call(p, c.close)
            run(p)
            if (op[1] if op[0] == "connect" else op[1].stream).dead:
                return True
        if op[0] == "request" and op[1].api == "produce":
            v = w.answer(op[1])
            for t in v["topics"]:
                for x in t["partitions"]:
                    x["error_code"] = 6 if k < 6 else 0
            w.reply(op[1], v)
        else:
            w.default(op)
        if k == at and when == "after":
            st["f"] = call(p, c.close)
            run(p)
        return True
    topic = "nowhere" if "unknown" in kind else "t"
    fn = c.produce if "produce" in kind else c.consume
    g = call(p, fn, topic, *(({"m": 1},) if "produce" in kind else ()))
    w.drive(pol)
    if st["f"] is None:
        return
    what = "closing %s operation %s of a %s" % (when, at, kind)
    o = w.result(st["f"], what)
    w.result(g, "a %s during which the client is closed" % kind)
    for s in w.streams:
        ck(p, s.dead, "%s leaves a connection to %s open", what, s.addr)
    n0, a0 = len(w.requests), len(w.attempts)
    run(p)
    ck(p, (len(w.requests), len(w.attempts)) == (n0, a0), "a closed client goes on using the network")


@check("C16", "path-sensitive abstract interpretation of close: state of flags and sockets at the moment of winding down and afterwards",
       "Base client with every behaviour of wind_down, producer and single consumer, also closed at every network operation of a connect, consume or produce; the grouped consumer's part is decided with its allocator in C36.", 150)
def c16(rep, tier):
    an = analysis(rep)
    for kind in ("ok", "raises", "fails", "later", "later raises"):
        for dead in ((), (2,), (1, 2, 3)):
            xp(an, "wind down %s dead %s" % (kind, dead), lambda p: close_case(an, kind, dead, p), rep)
    xp(an, "single consumer", lambda p: single_close(an, p), rep)
    for kind in MEMBER:
        xp(an, "group member %s" % kind, lambda p: member_close(an, kind, p), rep)
    for how in ("ok", "broker fails", "partitioner raises"):
        xp(an, "producer %s" % how, lambda p: producer_close(an, how, p), rep)
    for down in ((), (1,), (2, 3)):
        for at in range(10):
            for when in ("before", "after"):
                xp(an, "closed %s operation %s of connect down %s" % (when, at, down),
                   lambda p: connecting_close(an, at, when, down, p), rep)
    for kind in ("consume", "consume unknown", "produce", "produce unknown"):
        for lost in ((), (2,), (2, 3)):
            for at in range(9):
                for when in ("before", "after"):
                    xp(an, "closed %s operation %s of a %s lost %s" % (when, at, kind, lost),
                       lambda p: busy_close(an, kind, at, when, lost, p), rep)
