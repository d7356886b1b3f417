"""C07 C08 C09: one broker connection"""
import itertools

from . import check
from .wire import analysis, compare_decoded
from .. import spec, domain, loop as L
from ..core import short, site, Violation
from ..domain import Sym, WBytes, EngineSignal, Unsupported
from ..models import k_len
from ..scn import mod, need, ck, run, escaped, outcome, call, Stream, frame, name_of

#: apis the clients of this package use
APIS = ["metadata", "produce", "fetch", "offset", "offset_commit", "offset_fetch", "group_coordinator"]
RESP = {spec.RESPONSES[k][0]: (k, spec.RESPONSES[k][1]) for k in spec.RESPONSES}


def mk_request(an, api, n=0):
    P = lambda m: mod(an, "protocol." + m)
    if api == "metadata":
        return need(P("metadata"), "MetadataRequest")(topics=["t%d" % n])
    if api == "group_coordinator":
        return need(P("coordinator"), "GroupCoordinatorRequest")(group="g%d" % n)
    m = P(api)
    if api == "produce":
        return m.ProduceRequest(required_acks=-1, timeout=10 + n, topics=[])
    if api == "fetch":
        return m.FetchRequest(replica_id=-1, max_wait_time=5, min_bytes=1 + n, topics=[])
    if api == "offset":
        return m.OffsetRequest(replica_id=-1, topics=[m.TopicRequest(name="t%d" % n, partitions=[])])
    if api == "offset_commit":
        return m.OffsetCommitV0Request(group="g%d" % n, topics=[])
    return m.OffsetFetchRequest(group_name="g%d" % n, topics=[])


class Val(object):
    """a distinct abstract answer per request: opaque numbers, short known texts"""

    def __init__(self, tag):
        self.tag = tag
        self.k = 0

    def gen(self, t):
        self.k += 1
        nm = "%s.%d" % (self.tag, self.k)
        if t in spec.W:
            b = 8 * spec.W[t] - 1
            return Sym.atom(nm, -2 ** b, 2 ** b - 1)
        if t == "str":
            return "x" + nm
        if t == "mset":
            return None
        if isinstance(t, tuple):
            return [self.gen(t[1])]
        return {n: self.gen(ft) for n, ft in t}


def answer(api, tag):
    key, layout = RESP[api]
    v = Val(tag).gen(layout)
    wire = v
    if api == "fetch":
        q = v["topics"][0]["partitions"][0]
        off = Sym.atom(tag + ".off", 0, 2 ** 40)
        val = ("v" + tag).encode()
        q["message_set"] = [(off, None, val)]
        wire = {"topics": [dict(v["topics"][0], partitions=[dict(q, message_set=spec.message_chunks(
            off, None, val, lambda b: Sym.atom("crc!" + tag, -2 ** 31, 2 ** 31 - 1)))])]}
    return layout, v, WBytes(spec.enc(layout, wire)).norm()


def opened(an, p, host="h", port=9092):
    """a connection whose socket is connected and whose reader runs"""
    streams = []

    def factory(*a, **k):
        s = Stream(p, an)
        streams.append(s)
        return s
    p.on_iostream = factory
    C = need(mod(an, "connection"), "Connection")
    c = C(host, port)
    f = call(p, c.connect)
    run(p)
    if not streams:
        o = outcome(p, f)
        p.violation("connect opens no stream (%s)" % (o,), site(o[1]) if o[0] == "err" else None)
    s = streams[-1]
    ck(p, s.addr is not None and tuple(s.addr) == (host, port),
       "connect goes to %s instead of the host and port given", s.addr)
    s.conn_future.set_result(s)
    run(p)
    o = outcome(p, f)
    if o[0] != "ok":
        p.violation("connecting ends as %s on a working socket" % (o,), site(o[1]) if o[0] == "err" else None)
    ck(p, s.want is not None, "after connecting nothing reads the responses")
    return c, s


def send(p, c, r):
    try:
        f = c.send(r)
    except EngineSignal:
        raise
    except Exception as e:
        p.violation("send raises %s instead of returning a future: %s" % (name_of(e), e), site(e))
    if isinstance(f, L.CoroObj):
        f = f.start()
    if not isinstance(f, L.KFuture):
        p.violation("send returns %s instead of a future" % short(f))
    return f


# --------------------------------------------------------------------------------------- C07

def settle_case(an, apis, order, chunking, p):
    c, s = opened(an, p)
    reqs, futs = [], []
    for i, a in enumerate(apis):
        r = mk_request(an, a, i)
        reqs.append(r)
        p.ev("send", a)
        futs.append(send(p, c, r))
        run(p)
        for _, wf in s.writes:
            if not wf.done():
                wf.set_result(None)
        run(p)
    ids = [r.correlation_id for r in reqs]
    ck(p, len(set(ids)) == len(ids), "requests share a correlation id: %s", ids)
    answers = [answer(a, "a%d" % i) for i, a in enumerate(apis)]
    frames = [frame(reqs[i].correlation_id, answers[i][2]) for i in range(len(apis))]

    def verify(done):
        for i, f in enumerate(futs):
            if i in done:
                ck(p, f.done(), "the response of request %s arrived but its future is not resolved", i)
                if f._exc is not None:
                    p.violation("the %s response resolves its future with %s: %s" % (
                        apis[i], name_of(f._exc), f._exc), site(f._exc))
                got = f._result
                ck(p, getattr(got, "correlation_id", None) == ids[i],
                   "request %s resolved with the response to id %s", i, getattr(got, "correlation_id", None))
                compare_decoded(p, "response %d (%s)" % (i, apis[i]), got, answers[i][0], answers[i][1])
            else:
                ck(p, not f.done(), "request %s is resolved although its response has not arrived", i)
    if chunking == "together":
        s.feed(WBytes([ch for i in order for ch in frames[i].chunks]))
        run(p)
        verify(set(order))
    else:
        done = set()
        for i in order:
            w = WBytes.of(frames[i])
            n = w.length()
            cut = {"split2": 2, "split4": 4, "split6": 6, "split8": 8, "splitend": n - 1}.get(chunking)
            if cut is not None:
                s.feed(w[0:cut])
                run(p)
                verify(done)
                s.feed(w[cut:n])
            else:
                s.feed(w)
            run(p)
            done.add(i)
            verify(done)
    escaped(p)
    ck(p, not c.closing and not s.dead, "the connection is given up although every response was fine")
    ck(p, s.want is not None, "the reader stops although the connection is open")


def ids_case(an, p):
    """ids over two connections and all request classes"""
    c1, s1 = opened(an, p)
    c2, s2 = opened(an, p, "h2", 9093)
    seen = {}
    for i, a in enumerate(APIS + APIS):
        r = mk_request(an, a, i)
        c, s = ((c1, s1), (c2, s2))[i % 2]
        send(p, c, r)
        run(p)
        raw = WBytes([ch for d, _ in s.writes[-1:] for ch in WBytes.of(d).chunks])
        wid = domain.read_num(raw[8:12], 4, True, ">")
        ck(p, wid == r.correlation_id, "the id on the wire is %s, the request's is %s", wid, r.correlation_id)
        ck(p, wid not in seen, "correlation id %s is used by requests %s and %s", wid, seen.get(wid), i)
        seen[wid] = i


#: where a counter of ids may be when a request is made (32-bit ids; what follows 2**31 is out of scope)
COUNTS = [0, 1, 0xfe, 0xff, 0x7ffe, 0x7fff, 0xfffe, 0xffff, 0x1fffe, 0x7ffffe, 0x7fffff, 0xfffffd, 0xfffffe, 0xffffff,
          0x1fffffe, 0x1ffffff, 2 ** 28 - 1, 2 ** 30 - 2, 2 ** 30 - 1, 2 ** 31 - 9]


def counters(an):
    """integer cells of the package that creating a request changes: [(get, set)]"""
    import types as _t
    cells = []
    for m in an.ip.modules.values():
        for n, v in list(m.__dict__.items()):
            if type(v) is int:
                cells.append((m.__dict__, n))
            elif isinstance(v, (list, dict)):
                cells += [(v, k) for k in (range(len(v)) if isinstance(v, list) else list(v))]
            elif isinstance(v, type) and str(v.__module__).startswith("kiel"):
                cells += [(v, k) for k in list(vars(v))]

    def get(c):
        o, k = c
        try:
            x = vars(o).get(k) if isinstance(o, type) else o[k]
        except (KeyError, IndexError):
            return None
        return x if type(x) is int else None

    def put(c, x):
        o, k = c
        if isinstance(o, type):
            setattr(o, k, x)
        else:
            o[k] = x
    before = [get(c) for c in cells]
    mk_request(an, "metadata", 0)
    ch = [c for c, b in zip(cells, before) if b is not None and get(c) != b]
    return [(lambda c=c: get(c), lambda x, c=c: put(c, x)) for c in ch]


def counter_case(an, api, p):
    """ids around every place where a counter of some width would wrap"""
    cs = counters(an)
    if not cs:
        return
    ids = lambda n: [mk_request(an, api, i).correlation_id for i in range(n)]
    first = ids(3)
    step = 1 if first[1] > first[0] else -1
    for get, put in cs:
        old = get()
        for v in COUNTS:
            if v == 0 and step < 0:
                continue
            put(v)
            got = ids(6)
            ck(p, all(type(g) is int for g in got), "correlation ids are %s", got)
            ck(p, len(set(got)) == len(got) and all((b - a) * step > 0 for a, b in zip(got, got[1:])),
               "with the counter at %s the next correlation ids are %s: ids given before come again", v, got)
        put(old)


def many_case(an, n, p):
    """a long run of requests (counters kept in other ways than an integer cell)"""
    seen = {}
    R = mod(an, "protocol.metadata").MetadataRequest
    for i in range(n):
        an.ip.steps = 0
        c = R(topics=[]).correlation_id
        ck(p, c not in seen, "correlation id %s is used by requests %s and %s", c, seen.get(c), i)
        seen[c] = i


def shared_case(an, what, p):
    """whole client calls overlapping on one connection: each settles with its own answer"""
    from .clus import started
    w, c = started(an, p, {1: ("k1", 9092)}, {"t": {0: 1}, "u": {1: 1}})
    asks = {"metadata": ([], ["t"], ["u"]), "heals": ([], []), "both": ([], ["u"])}[what]
    fs = []
    for i, a in enumerate(asks):
        f = call(p, c.heal) if what == "heals" or (what == "both" and i == 0) else call(p, c.get_metadata, a)
        fs.append((f, a))
        run(p)
    w.drive()
    for i, (f, a) in enumerate(fs):
        r = w.result(f, "one of several overlapping metadata calls")
        if r[0] == "err":
            p.violation("one of several overlapping metadata calls fails with %s" % name_of(r[1]), site(r[1]))
        if what == "metadata" or (what == "both" and i == 1):
            got = sorted(t.name for t in r[1].topics)
            ck(p, got == (a or ["t", "u"]), "a metadata call for %s overlapping with others is answered with %s", a, got)
    escaped(p)


@check("C07", "path-sensitive abstract interpretation of Connection over an abstract socket (every response order and split)",
       "Connection.connect/send/read_loop/read_message are interpreted; up to three requests in flight, every order of their "
       "responses, every api, responses split at the frame's field boundaries.", 300)
def c07(rep, tier):
    an = analysis(rep)
    an.explore("ids", lambda p: ids_case(an, p), rep)
    for a in ("metadata", "fetch"):
        an.explore("counters %s" % a, lambda p: counter_case(an, a, p), rep)
    an.explore("many ids", lambda p: many_case(an, 70000, p), rep)
    for what in ("metadata", "heals", "both"):
        an.explore("overlapping %s" % what, lambda p: shared_case(an, what, p), rep)
    for a in APIS:
        for b in ("metadata", a):
            for order in ((0, 1), (1, 0)):
                an.explore("%s,%s order %s" % (a, b, order), lambda p: settle_case(
                    an, [a, b], order, "whole", p), rep)
    for ch in ("split2", "split4", "split6", "split8", "splitend", "together"):
        for order in itertools.permutations(range(3)):
            an.explore("three in flight %s %s" % (order, ch), lambda p: settle_case(
                an, ["fetch", "metadata", "produce"], order, ch, p), rep)
    if tier == "thorough":
        for tri in itertools.permutations(APIS, 3):
            for order in itertools.permutations(range(3)):
                an.explore("%s %s" % (tri, order), lambda p: settle_case(an, list(tri), order, "whole", p), rep)


# --------------------------------------------------------------------------------------- C08

FAULTS = ["peer closes", "peer closes in size", "peer closes in correlation id", "peer closes in payload",
          "read error", "unknown correlation id", "undecodable response", "empty response",
          "stale response", "write raises closed", "write raises other", "write fails closed later",
          "write fails later", "close", "abort", "abort in handler", "close then abort", "abort then close", "abort twice",
          "peer closes then close"]


def fault_case(an, fault, n_inflight, answered, p):
    E = mod(an, "exc")
    BCE = need(E, "BrokerConnectionError")
    c, s = opened(an, p)
    reqs, futs = [], []
    for i in range(n_inflight):
        r = mk_request(an, ["metadata", "fetch", "produce"][i % 3], i)
        reqs.append(r)
        futs.append(send(p, c, r))
        run(p)
    if answered:
        a = answer("metadata", "a0")
        s.feed(frame(reqs[0].correlation_id, a[2]))
        run(p)
        ck(p, futs[0].done() and futs[0]._exc is None, "a proper response does not resolve its request")
    inflight = [f for i, f in enumerate(futs) if not (answered and i == 0)]
    some = [r for i, r in enumerate(reqs) if not (answered and i == 0)]
    err = OSError(104, "Connection reset by peer")
    p.ev("fault", fault)
    try:
        if fault == "peer closes":
            s.fail(err)
        elif fault.startswith("peer closes in"):
            if some:
                w = frame(some[0].correlation_id, answer("metadata", "b")[2])
            else:
                w = frame(77, b"abcdef")
            s.feed(w[0:{"size": 2, "correlation id": 6}.get(fault[15:], 9)])
            run(p)
            s.fail(err)
        elif fault == "read error":
            f = s.want[1]
            s.want = None
            f.set_exception(err)
        elif fault == "unknown correlation id":
            s.feed(frame(2 ** 30, b"abcdef"))
        elif fault == "undecodable response":
            if not some:
                return
            s.feed(frame(some[0].correlation_id, b"\0\0\0\7ab"))
        elif fault == "empty response":
            if not some:
                return
            s.feed(frame(some[0].correlation_id, b""))
        elif fault == "stale response":
            if not answered:
                return
            s.feed(frame(reqs[0].correlation_id, answer("metadata", "b")[2]))
        elif fault in ("write raises closed", "write raises other"):
            s.on_write = lambda: s.SCE(err) if fault.endswith("closed") else err
            r = mk_request(an, "offset", 9)
            reqs.append(r)
            inflight.append(send(p, c, r))
        elif fault in ("write fails closed later", "write fails later"):
            if not s.writes:
                return
            f = s.writes[-1][1]
            if f.done():
                return
            if fault == "write fails later":
                f.set_exception(err)
            else:
                s.fail(err)
        elif fault == "abort in handler":
            try:
                raise ValueError("caller's own problem")
            except ValueError:
                c.abort()
        else:
            for step in {"close": "c", "abort": "a", "close then abort": "ca", "abort then close": "ac",
                         "abort twice": "aa", "peer closes then close": "pc"}[fault]:
                {"c": c.close, "a": c.abort, "p": lambda: s.fail(err)}[step]()
    except EngineSignal:
        raise
    except Exception as e:
        p.violation("%s: %s raised to the caller: %s" % (fault, name_of(e), e), site(e))
    run(p)
    for i, f in enumerate(inflight):
        ck(p, f.done(), "%s: an in-flight request's future stays unresolved", fault)
        ck(p, f._exc is not None, "%s: an in-flight request is resolved without an error (%s)", fault, f._result)
        ck(p, isinstance(f._exc, Exception), "%s: in-flight request fails with %s", fault, name_of(f._exc))
    if answered:
        ck(p, futs[0]._exc is None, "%s: changes an already answered request", fault)
    ck(p, c.closing is True or bool(c.closing), "%s: the connection is not marked as closing", fault)
    ck(p, s.dead, "%s: the socket stays open", fault)
    # no write, immediate failure from now on
    nw = len(s.writes)
    r = mk_request(an, "metadata", 5)
    f = send(p, c, r)
    ck(p, f.done(), "%s: a send on the failed connection is not settled at once", fault)
    ck(p, isinstance(f._exc, BCE), "%s: a send on the failed connection gives %s instead of a broker connection error",
       fault, name_of(f._exc) if f._exc else f._result)
    ck(p, len(s.writes) == nw, "%s: a send on the failed connection still writes", fault)
    run(p)
    escaped(p)


@check("C08", "typestate analysis by path-sensitive abstract interpretation: every failure point of a connection",
       "Every failure point of the socket, of the reader and of the writer times zero to two requests in flight (one "
       "possibly answered before); each future must be settled exactly once and the connection closed.", 250)
def c08(rep, tier):
    an = analysis(rep)
    for fault in FAULTS:
        for n, answered in ((0, False), (1, False), (2, False), (1, True), (2, True), (3, True)):
            an.explore("%s, %d in flight%s" % (fault, n, ", first answered" if answered else ""),
                       lambda p: fault_case(an, fault, n, answered, p), rep)


# --------------------------------------------------------------------------------------- C09

def framing_case(an, seq, p):
    c, s = opened(an, p, "broker.example", 1234)
    ck(p, c.host == "broker.example" and c.port == 1234, "the connection forgets its host or port")
    sent = []
    for i, a in enumerate(seq):
        r = mk_request(an, a, i)
        if a == "metadata" and i == 0:
            r = mod(an, "protocol.metadata").MetadataRequest(topics=[domain.opaque_text("topic", 200)])
        before = len(s.writes)
        send(p, c, r)
        want = WBytes.of(r.serialize())
        got = WBytes([ch for d, _ in s.writes[before:] for ch in WBytes.of(d).chunks])
        full = WBytes([spec.num("i32", want.length())] + list(want.chunks))
        d = spec.same(got, full)
        p.check(d is None, "the bytes written for a request are not its size and payload: %s" % d, None,
                d and "%s\nneed %s" % (short(got, 400), short(full, 400)))
        sent.append(full)
        if p.choose("let the loop run between sends", 2):
            run(p)
    run(p)
    got = WBytes([ch for d, _ in s.writes for ch in WBytes.of(d).chunks])
    full = WBytes([ch for w in sent for ch in w.chunks])
    d = spec.same(got, full)
    p.check(d is None, "the stream of requests is not the framed requests in the order of the sends: %s" % d)


def consecutive_case(an, apis, p):
    """frames back to back, arbitrary sizes: every reader step takes exactly what was announced"""
    settle_case(an, apis, tuple(range(len(apis))), "together", p)


SIZES = [126, 254, 32766, 65534, 100000, 2 ** 20 + 1, 2 ** 24 - 20, 2 ** 24 + 5, 2 ** 27, 2 ** 30 + 3]


def big_response_case(an, size, p):
    """a response of a given, large size and the one behind it, read at once and in two parts"""
    c, s = opened(an, p)
    a, b = mk_request(an, "fetch", 1), mk_request(an, "metadata", 2)
    fa, fb = send(p, c, a), send(p, c, b)
    run(p)
    from ..domain import opaque_text
    val = WBytes([("o", "big.value", size, ("text", opaque_text("big.value", size)))])
    v = {"topics": [{"name": "t", "partitions": [
        {"partition_id": 3, "error_code": 0, "highwater_mark_offset": 8, "message_set": [(7, None, val)]}]}]}
    wire = {"topics": [dict(v["topics"][0], partitions=[dict(
        v["topics"][0]["partitions"][0], message_set=spec.message_chunks(
            7, None, val, lambda x: Sym.atom("crc!big", -2 ** 31, 2 ** 31 - 1)))])]}
    layout = RESP["fetch"][1]
    one = frame(a.correlation_id, WBytes(spec.enc(layout, wire)).norm())
    ans = answer("metadata", "m")
    two = frame(b.correlation_id, ans[2])
    both = WBytes(list(WBytes.of(one).chunks) + list(WBytes.of(two).chunks))
    if p.choose("in two parts", 2):
        n = WBytes.of(one).length()
        s.feed(both[0:n + 3])
        run(p)
        ck(p, fa.done() and not fb.done(), "a response of %s bytes is not taken when all its bytes have arrived", size)
        s.feed(both[n + 3:both.length()])
    else:
        s.feed(both)
    run(p)
    for f, what, lay, val_ in ((fa, "fetch", layout, v), (fb, "metadata", ans[0], ans[1])):
        ck(p, f.done(), "with a response of %s bytes in front the %s request is not answered", size, what)
        if f._exc is not None:
            p.violation("with a response of %s bytes the %s request fails with %s: %s" % (
                size, what, name_of(f._exc), f._exc), site(f._exc))
        compare_decoded(p, what, f._result, lay, val_)
    ck(p, not s.dead, "a response of %s bytes ends the connection", size)
    escaped(p)


def big_request_case(an, size, p):
    """the size prefix of large requests"""
    c, s = opened(an, p)
    M = mod(an, "protocol.messages")
    P = mod(an, "protocol.produce")
    from ..domain import opaque_text
    p.opaque_crc = True
    p.crc_positive = True
    val = opaque_text("big", 10) if size is None else WBytes([("o", "big", size, None)])
    r = P.ProduceRequest(required_acks=-1, timeout=10, topics=[P.TopicRequest(name="t", partitions=[P.PartitionRequest(
        partition_id=1, message_set=M.MessageSet([(0, M.Message(magic=0, attributes=0, key=None, value=val))]))])])
    f = send(p, c, r)
    run(p)
    ck(p, not f.done(), "a request of %s bytes fails: %s", size, f._exc)
    want = WBytes.of(r.serialize())
    got = WBytes([ch for d, _ in s.writes for ch in WBytes.of(d).chunks])
    d = spec.same(got, WBytes([spec.num("i32", want.length())] + list(want.chunks)))
    p.check(d is None, "the bytes written for a request of %s bytes are not its size and payload: %s" % (size, d))


@check("C09", "path-sensitive abstract interpretation of the framing over an abstract byte stream",
       "The bytes handed to the stream by every send and the reader's consumption of back-to-back responses "
       "with opaque contents are compared with the size-prefixed framing.", 60)
def c09(rep, tier):
    an = analysis(rep)
    for seq in (["metadata"], ["produce", "fetch"], ["metadata", "offset", "offset_commit"],
                ["offset_fetch", "group_coordinator", "metadata"]):
        an.explore("writes %s" % seq, lambda p: framing_case(an, seq, p), rep)
    for a in APIS:
        an.explore("reads %s then metadata" % a, lambda p: consecutive_case(an, [a, "metadata"], p), rep)
        an.explore("reads metadata then %s" % a, lambda p: consecutive_case(an, ["metadata", a], p), rep)
    for n in SIZES:
        an.explore("response of %s" % n, lambda p: big_response_case(an, n, p), rep)
        an.explore("request of %s" % n, lambda p: big_request_case(an, n, p), rep)
