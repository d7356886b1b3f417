"""Scenario parts shared by the checks above the wire layer: an abstract socket, an abstract broker,
an abstract ZooKeeper - all of them decide nothing by themselves, every open question becomes a
choice of the path enumeration."""
import zlib

from . import domain, models, spec, loop as L
from .core import Violation, short, site
from .domain import Sym, WBytes, EngineSignal, Unsupported, Budget, ctx, opaque_text
from .models import k_len, unwrap


def mod(an, name):
    m = an.ip.modules.get("kiel." + name if name else "kiel")
    if m is None:
        raise Unsupported("module kiel.%s has vanished" % name)
    return m


def need(m, name):
    v = getattr(m, name, None)
    if v is None:
        raise Unsupported("anchor %s.%s has vanished" % (getattr(m, "__name__", m), name))
    return v


def ck(p, cond, fmt, *args):
    p.oblig += 1
    if not cond:
        raise Violation(fmt % tuple(short(a) if not isinstance(a, str) else a.replace(
            domain.TOK0, "<").replace(domain.TOK1, ">") for a in args))


def name_of(e):
    return type(e).__name__


# ------------------------------------------------------------------------------ tornado helpers

def run(p, limit=4000):
    p.loop.run_ready(limit)


def escaped(p, what="an event loop callback"):
    """errors no caller ever sees: raised in a loop callback or by a spawned coroutine"""
    for e in p.loop.errors:
        p.violation("%s escapes into the event loop: %s" % (name_of(e), e), site(e))
    for f in p.loop.spawned:
        if f.done() and f._exc is not None:
            p.violation("a background coroutine ends with %s: %s" % (name_of(f._exc), f._exc), site(f._exc))


def outcome(p, f):
    """-> ('ok', value) | ('err', exc) | ('pending', None)"""
    if isinstance(f, L.CoroObj):
        f = f.start()
        run(p)
    if not isinstance(f, L.KFuture):
        return ("value", f)
    if not f.done():
        return ("pending", None)
    if f._exc is not None:
        return ("err", f._exc)
    return ("ok", f._result)


def call(p, fn, *a, **k):
    """call an analysed (possibly asynchronous) function -> future"""
    try:
        r = fn(*a, **k)
    except EngineSignal:
        raise
    except Exception as e:
        f = L.KFuture("raised")
        f.set_exception(e)
        f._sync = True
        return f
    if isinstance(r, L.CoroObj):
        return r.start()
    if not isinstance(r, L.KFuture):
        f = L.KFuture("value")
        f.set_result(r)
        return f
    return r


# ------------------------------------------------------------------------------ socket

class Stream(object):
    """tornado.iostream.IOStream over an abstract byte stream"""

    def __init__(self, p, an):
        self.p = p
        self.SCE = an.ip.host["tornado.iostream"].StreamClosedError
        self.inbuf = WBytes([])
        self.want = None            # (n, future)
        self.writes = []            # (bytes, future)
        self.dead = False
        self.error = None
        self.conn_future = None
        self.addr = None
        self.close_cb = None
        self.on_write = None        # () -> None | exception to raise
        self.close_calls = 0

    def connect(self, addr, server_hostname=None):
        self.addr = addr
        self.conn_future = L.KFuture("stream.connect")
        return self.conn_future

    def write(self, data):
        if self.dead:
            raise self.SCE(self.error)
        data = unwrap(data)
        if not domain.is_byteslike(data):
            raise TypeError("write needs bytes")
        if self.on_write is not None:
            e = self.on_write()
            if e is not None:
                if isinstance(e, self.SCE):
                    self.fail(e)
                raise e
        f = L.KFuture("stream.write")
        self.writes.append((data, f))
        return f

    def read_bytes(self, n, partial=False):
        return self._read(lambda: n, partial)

    def _read(self, n, partial=False):
        n = n()
        if self.want is not None:
            if self.dead:
                raise self.SCE(self.error)
            raise AssertionError("Already reading")
        if isinstance(n, int) and n < 0:
            raise AssertionError("negative read")
        f = L.KFuture("stream.read")
        self.want = (n, f, partial)
        self.pump()
        if self.want is not None and self.dead:
            self.want = None
            raise self.SCE(self.error)
        return f

    def read_into(self, *a, **k):
        raise Unsupported("IOStream.read_into")
    read_until = read_until_regex = read_into

    def pump(self):
        if self.want is None:
            return
        n, f, partial = self.want
        have = self.inbuf.length()
        if have >= n:
            out = WBytes.of(self.inbuf[0:n]).norm()
            self.inbuf = WBytes.of(self.inbuf[n:])
            self.want = None
            f.set_result(out)
        elif partial and have > 0:
            out = self.inbuf.norm()
            self.inbuf = WBytes([])
            self.want = None
            f.set_result(out)

    def feed(self, data):
        self.inbuf = WBytes.of(self.inbuf + WBytes.of(data))
        self.pump()

    def fail(self, e=None):
        """the connection breaks: what tornado does in close()"""
        if self.dead:
            return
        self.dead = True
        self.error = e
        fs = [f for _, f in self.writes if not f.done()]
        if self.want is not None:
            fs.append(self.want[1])
            self.want = None
        if self.conn_future is not None and not self.conn_future.done():
            fs.append(self.conn_future)
        for f in fs:
            f.set_exception(self.SCE(e))
        if self.close_cb is not None:
            cb, self.close_cb = self.close_cb, None
            self.p.loop.add_callback(cb)

    def close(self, exc_info=False):
        self.close_calls += 1
        self.fail(None)

    def closed(self):
        return self.dead

    def reading(self):
        return self.want is not None

    def writing(self):
        return any(not f.done() for _, f in self.writes)

    def set_close_callback(self, cb):
        self.close_cb = cb
        if self.dead and cb is not None:
            self.close_cb = None
            self.p.loop.add_callback(cb)

    def set_nodelay(self, v):
        pass

    def fileno(self):
        return 3

    @property
    def max_buffer_size(self):
        return 104857600


def frame(corr, payload):
    w = WBytes([spec.num("i32", corr)] + list(WBytes.of(payload).chunks))
    return WBytes([spec.num("i32", w.length())] + list(w.chunks))


# ------------------------------------------------------------------------------ request decoding

class BadRequest(Exception):
    pass


class Reader(object):
    """decodes what the package wrote, with the checker's own tables"""

    def __init__(self, w):
        self.w = WBytes.of(w)
        self.n = self.w.length()
        self.pos = 0

    def left(self):
        return self.n - self.pos

    def take(self, k):
        if not (self.pos + k <= self.n):
            raise BadRequest("request ends early")
        out = self.w[self.pos:self.pos + k] if not (isinstance(k, int) and k == 0) else b""
        self.pos = self.pos + k
        return out

    def num(self, t):
        v = domain.read_num(self.take(spec.W[t]), spec.W[t], True, ">")
        if isinstance(v, Sym):
            lo, hi = v.bounds()
            if lo is not None and lo == hi:
                return lo
        return v

    def value(self, t):
        if t in spec.W:
            return self.num(t)
        if t in ("str", "bytes"):
            n = self.num("i16" if t == "str" else "i32")
            if isinstance(n, int) and n == -1:
                return None
            raw = WBytes.of(self.take(n))
            if t == "bytes":
                return raw.norm()
            return raw.decode("utf-8")
        if t == "mset":
            n = self.num("i32")
            return read_messages(self.take(n))
        if isinstance(t, tuple):
            n = self.num("i32")
            if not isinstance(n, int):
                raise BadRequest("array length %r" % (n,))
            return [self.value(t[1]) for _ in range(n)]
        return {nm: self.value(ft) for nm, ft in t}


def read_messages(raw, depth=0):
    """[(offset, attributes, key bytes, value bytes)] with wrappers kept"""
    r = Reader(raw)
    out = []
    while not (r.pos == r.n):
        off = r.num("i64")
        size = r.num("i32")
        body = Reader(r.take(size))
        body.num("i32")
        body.num("i8")
        attr = body.num("i8")
        out.append((off, attr, body.value("bytes"), body.value("bytes")))
    return out


REQ_LAYOUT = {spec.REQUESTS[k][0]: spec.REQUESTS[k][1] for k in spec.REQUESTS if k[1] not in spec.VERSIONS}
RESP_LAYOUT = {spec.RESPONSES[k][0]: spec.RESPONSES[k][1] for k in spec.RESPONSES}
API_NAME = {v: k for k, v in spec.API_KEYS.items()}


class Req(object):
    def __init__(self, stream, api, corr, v):
        self.stream, self.api, self.corr, self.v = stream, api, corr, v
        self.answered = False

    @property
    def broker(self):
        return self.stream.broker

    def __repr__(self):
        return "%s@%s" % (self.api, self.broker)


# ------------------------------------------------------------------------------ network of brokers

class NetStream(Stream):
    def __init__(self, world):
        Stream.__init__(self, world.p, world.an)
        self.world = world
        self.outbuf = WBytes([])
        self.broker = None
        self.up = False

    def connect(self, addr, server_hostname=None):
        self.addr = tuple(addr)
        self.broker = self.world.ids.get(self.addr, self.addr)
        self.world.p.ev("connect", self.addr)
        self.world.attempts.append(self.addr)
        e = self.world.connect_raises(self)
        if e is not None:
            raise e
        f = Stream.connect(self, addr)
        self.world.ops.append(("connect", self))
        return f

    def write(self, data):
        f = Stream.write(self, data)
        f.set_result(None)
        f._retrieved = True
        self.outbuf = WBytes.of(self.outbuf + unwrap(data))
        self.parse_out()
        return f

    def parse_out(self):
        while True:
            n = self.outbuf.length()
            if n < 4:
                return
            size = domain.read_num(self.outbuf[0:4], 4, True, ">")
            if n < size + 4:
                return
            body = self.outbuf[4:size + 4]
            self.outbuf = WBytes.of(self.outbuf[size + 4:]) if not (n == size + 4) else WBytes([])
            r = Reader(body)
            try:
                key = r.num("i16")
                version = r.num("i16")
                corr = r.num("i32")
                r.value("str")
                api = API_NAME.get(key)
                if api is None:
                    raise BadRequest("unknown api key %r" % (key,))
                if version != 0:
                    raise BadRequest("%s request of version %s in the layout of version 0" % (api, version))
                v = r.value(REQ_LAYOUT[api])
                if not (r.pos == r.n):
                    raise BadRequest("%s request with bytes left over" % api)
            except BadRequest as e:
                raise Violation("a malformed request reaches the broker: %s" % e)
            for old in self.world.requests:
                if old.stream is self and not old.answered and not isinstance(corr, Sym) and old.corr == corr:
                    raise Violation("two requests in flight on one connection (%s, %s) have the correlation id %s"
                                    % (old.api, api, corr))
            q = Req(self, api, corr, v)
            self.world.p.ev("request", api, self.broker, v)
            self.world.requests.append(q)
            self.world.ops.append(("request", q))

    def fail(self, e=None):
        was = self.dead
        Stream.fail(self, e)
        if not was:
            self.world.p.ev("socket closed", self.addr)
            self.world.ops = [o for o in self.world.ops
                              if not (o[1] is self or (o[0] == "request" and o[1].stream is self))]


class Hang(Exception):
    pass


class World(object):
    """brokers and the network between; policies answer, the path enumeration picks the order"""

    def __init__(self, p, an, brokers, topics):
        """brokers {id: (host, port)}; topics {name: {pid: leader}}"""
        self.p, self.an = p, an
        self.ids = {addr: b for b, addr in brokers.items()}
        self.brokers = dict(brokers)
        self.topics = {t: dict(ps) for t, ps in topics.items()}
        self.topic_code = {}
        self.part_code = {}
        self.streams = []
        self.attempts = []
        self.requests = []
        self.ops = []
        self.down = set()            # addresses that refuse connections
        self.raises = set()          # addresses whose connect raises at once
        self.policy = None
        self.produce_code = {}       # (topic, pid) -> code
        self.log = {}                # (topic, pid) -> [(offset, key, value bytes)]
        self.fetch_code = {}
        self.offsets = {}            # (topic, pid) -> offset answered to offset requests
        self.offset_code = {}
        self.committed = {}          # (topic, pid) -> offset
        self.ofetch_code = {}
        self.commit_code = {}
        self.coordinator = None
        self.coord_code = 0
        self.shift = getattr(p, "shift", 0)
        p.on_iostream = self.make
        p.opaque_crc = True
        p.crc_positive = True

    def make(self, *a, **k):
        s = NetStream(self)
        self.streams.append(s)
        return s

    def connect_raises(self, s):
        if s.addr in self.raises:
            return OSError(-2, "Name or service not known")
        return None

    # -- what brokers answer
    def accept(self, s):
        s.up = True
        s.conn_future.set_result(s)

    def refuse(self, s):
        s.fail(OSError(111, "Connection refused"))

    def reply(self, q, values):
        q.answered = True
        if self.shift and q.api in ("metadata", "group_coordinator"):
            values = self.renumber(values)
        payload = WBytes(spec.enc(RESP_LAYOUT[q.api], values)).norm()
        self.p.ev("reply", q.api, q.broker, values)
        q.stream.feed(frame(q.corr, payload))

    def renumber(self, v):
        """broker ids as they travel: one less than the scenario counts, or large numbers that end alike"""
        if isinstance(v, dict):
            return {k: (x - 1 if self.shift == 1 else 1000 + 10 * x) if k in ("broker_id", "leader", "coordinator_id") and isinstance(x, int) and x > 0
                    else self.renumber(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.renumber(x) for x in v]
        return v

    def garbage(self, q):
        q.answered = True
        self.p.ev("garbage", q.api, q.broker)
        q.stream.feed(frame(q.corr, b"\0"))

    def drop(self, s):
        self.p.ev("peer closes", s.addr)
        s.fail(OSError(104, "Connection reset by peer"))

    def metadata(self, q=None):
        only = q.v["topics"] if q is not None else None
        ts = []
        for t in sorted(set(self.topics) | set(only or ())):
            if only and t not in only:
                continue
            code = self.topic_code.get(t, 0 if t in self.topics else 3)
            ts.append({"error_code": code, "name": t, "partitions": [
                {"error_code": self.part_code.get((t, pid), 0), "partition_id": pid, "leader": ld,
                 "replicas": [], "isrs": []} for pid, ld in sorted(self.topics.get(t, {}).items())]})
        return {"brokers": [{"broker_id": b, "host": h, "port": po}
                            for b, (h, po) in sorted(self.brokers.items())], "topics": ts}

    def answer(self, q):
        v = q.v
        if q.api == "metadata":
            return self.metadata(q)
        if q.api == "produce":
            return {"topics": [{"name": t["name"], "partitions": [
                {"partition_id": x["partition_id"], "error_code": self.produce_code.get(
                    (t["name"], x["partition_id"]), 0), "offset": 5} for x in t["partitions"]]}
                for t in v["topics"]]}
        if q.api == "fetch":
            out = []
            for t in v["topics"]:
                ps = []
                for x in t["partitions"]:
                    k = (t["name"], x["partition_id"])
                    code = self.fetch_code.get(k, 0)
                    ch = []
                    if code == 0:
                        for off, key, val in self.log.get(k, ()):
                            ch += spec.message_chunks(off, key, val, models.crc32)
                    ps.append({"partition_id": k[1], "error_code": code, "highwater_mark_offset": 100,
                               "message_set": ch})
                out.append({"name": t["name"], "partitions": ps})
            return {"topics": out}
        if q.api == "offset":
            return {"topics": [{"name": t["name"], "partitions": [
                {"partition_id": x["partition_id"], "error_code": self.offset_code.get(
                    (t["name"], x["partition_id"]), 0),
                 "offsets": [self.offsets.get((t["name"], x["partition_id"]), 0)]
                 if not self.offset_code.get((t["name"], x["partition_id"]), 0) else []}
                for x in t["partitions"]]} for t in v["topics"]]}
        if q.api == "offset_fetch":
            return {"topics": [{"name": t["name"], "partitions": [
                {"partition_id": x, "offset": self.committed.get((t["name"], x), -1), "metadata": "",
                 "error_code": self.ofetch_code.get((t["name"], x), 0)} for x in t["partitions"]]}
                for t in v["topics"]]}
        if q.api == "offset_commit":
            return {"topics": [{"name": t["name"], "partitions": [
                {"partition_id": x["partition_id"],
                 "error_code": self.commit_code.get((t["name"], x["partition_id"]), 0)}
                for x in t["partitions"]]} for t in v["topics"]]}
        if q.api == "group_coordinator":
            c = self.coordinator
            host, port = self.brokers.get(c, ("nowhere", 1))
            return {"error_code": self.coord_code, "coordinator_id": c if self.coord_code == 0 else -1,
                    "coordinator_host": host, "coordinator_port": port}
        raise Unsupported("no broker behaviour for %s" % q.api)

    def default(self, op):
        if op[0] == "connect":
            if op[1].addr in self.down:
                self.refuse(op[1])
            else:
                self.accept(op[1])
        else:
            self.reply(op[1], self.answer(op[1]))

    # -- scheduling
    def drive(self, policy=None, order="fifo", limit=60, until=None):
        """let the network run until nothing is pending"""
        policy = policy or self.policy
        n = 0
        while True:
            run(self.p)
            if until is not None and until():
                return
            if not self.ops:
                if self.p.loop.timers and n < limit:
                    n += 1
                    self.p.loop.fire_timer(self.p.loop.timers[0])
                    continue
                return
            n += 1
            if n > limit:
                raise Violation("never comes to rest: more than %d network operations (last %s)" % (
                    limit, short([o[1] if o[0] == "request" else o[1].addr for o in self.ops])))
            cand = list(range(len(self.ops)))
            if order == "conn":          # a broker answers the requests of one connection in order
                first = {}
                for i, o in enumerate(self.ops):
                    first.setdefault(id(o[1] if o[0] == "connect" else o[1].stream), i)
                cand = sorted(first.values())
            i = cand[self.p.choose("which of %s comes first" % short(
                [o[1] if o[0] == "request" else "connect %s" % (o[1].addr,) for o in (self.ops[j] for j in cand)], 60),
                len(cand))] if order in ("any", "conn") else 0
            op = self.ops.pop(i)
            if not (policy and policy(op)):
                self.default(op)

    def finish(self, f, what, policy=None, order="fifo", limit=60):
        self.drive(policy, order, limit)
        return self.result(f, what)

    def result(self, f, what):
        o = outcome(self.p, f)
        if o[0] == "pending":
            self.p.violation("%s never completes" % what)
        return o

    def ok(self, f, what, policy=None, order="fifo", limit=60):
        o = self.finish(f, what, policy, order, limit)
        if o[0] == "err":
            self.p.violation("%s fails with %s: %s" % (what, name_of(o[1]), o[1]), site(o[1]))
        return o[1]

    def of(self, api, since=0):
        return [q for q in self.requests[since:] if q.api == api]

    def live(self, addr=None):
        return [s for s in self.streams if s.up and not s.dead and (addr is None or s.addr == addr)]


def xp(an, name, driver, rep, max_paths=3000, budget_s=300):
    """explore; code that never comes to rest is a violation, not an analyser failure"""
    steps = an.ip.max_steps
    try:
        return an.explore(name, driver, rep, max_paths=max_paths, budget_s=budget_s,
                          on_budget=lambda p, b: "the analysed code does not come to rest (%s)" % b)
    finally:
        an.ip.max_steps = steps         # a scenario with much data may have raised it


def xpz(an, name, driver, rep, max_paths=3000, budget_s=300):
    """like xp; in every other scenario the brokers are numbered from 0"""
    def shifted(p):
        p.shift = zlib.crc32(name.encode()) % 3
        return driver(p)
    return xp(an, name, shifted, rep, max_paths, budget_s)
