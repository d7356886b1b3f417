"""Models of everything the analysed package imports from outside itself."""
import types
import sys

from . import domain, loop as L
from .domain import (Unsupported, EngineSignal, Sym, AFloat, WBytes, is_byteslike, ctx, has_token,
                     text_len, encode_text, opaque_text, int_token)

PASS = {"collections", "collections.abc", "itertools", "functools", "operator", "math", "string",
        "re", "contextlib", "abc", "enum", "typing", "copy", "warnings", "weakref", "numbers",
        "types", "bisect", "heapq", "textwrap", "dataclasses", "traceback", "keyword",
        "__future__", "pprint", "inspect", "errno", "queue", "builtins_"}


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__package__ = name.rpartition(".")[0]
    return m


ZONE = 19800

# ---------------------------------------------------------------- builtins

class WByteArray(object):
    """bytearray over the abstract byte domain"""

    def __init__(self, init=b""):
        if isinstance(init, WByteArray):
            init = init.w
        if isinstance(init, int):
            init = b"\0" * init
        elif not is_byteslike(init):
            init = bytes(init)
        self.w = init if not isinstance(init, (bytearray, memoryview)) else bytes(init)

    def __iadd__(self, o):
        self.w = WBytes.of(self.w) + unwrap(o)
        return self

    def extend(self, o):
        if not is_byteslike(unwrap(o)):
            o = bytes(o)
        self.w = WBytes.of(self.w) + unwrap(o)

    def append(self, b):
        self.w = WBytes.of(self.w) + domain.pack(">B", b)

    def __add__(self, o):
        return WByteArray(WBytes.of(self.w) + unwrap(o))

    def __radd__(self, o):
        return WBytes.of(o) + self.w

    def length(self):
        return WBytes.of(self.w).length()

    def __getitem__(self, ix):
        return WBytes.of(self.w)[ix]

    def __delitem__(self, ix):
        if isinstance(ix, slice) and ix.step is None and ix.start in (None, 0):
            self.w = WBytes.of(self.w)[ix.stop:] if ix.stop is not None else b""
            return
        raise Unsupported("bytearray deletion")

    def __setitem__(self, ix, v):
        w = WBytes.of(self.w)
        if isinstance(ix, slice) and ix.step is None:
            n = w.length()
            a = 0 if ix.start is None else ix.start
            b = n if ix.stop is None else ix.stop
            self.w = WBytes.of(WBytes.of(w[0:a]) + unwrap(v)) + w[b:]
            return
        raise Unsupported("bytearray item assignment")

    def __eq__(self, o):
        return WBytes.of(self.w) == unwrap(o)

    def __bool__(self):
        return bool(self.length())

    def decode(self, *a):
        return WBytes.of(self.w).decode(*a)

    def clear(self):
        self.w = b""

    def copy(self):
        return WByteArray(self.w)

    def __iter__(self):
        return iter(WBytes.of(self.w))

    def __mul__(self, n):
        return WByteArray(WBytes.of(self.w) * n)
    __rmul__ = __mul__

    def startswith(self, *a):
        return WBytes.of(self.w).startswith(*a)

    def endswith(self, *a):
        return WBytes.of(self.w).endswith(*a)

    def hex(self):
        return WBytes.of(self.w).hex()

    def __getattr__(self, n):
        if n == "w":
            raise AttributeError(n)
        return domain._beyond(self, bytearray, n)


def pack_into(fmt, buf, off, *a):
    if not isinstance(buf, WByteArray):
        raise TypeError("read-write bytes-like object expected")
    n = domain.calcsize(fmt)
    if off < 0:
        off += buf.length()
    if off < 0 or buf.length() < off + n:
        import struct
        raise struct.error("pack_into requires a buffer of at least %s bytes" % (off + n))
    buf[off:off + n] = domain.pack(fmt, *a)


def unwrap(x):
    return x.w if isinstance(x, WByteArray) else x


def k_len(x):
    if isinstance(x, WBytes):
        return x.length()
    if isinstance(x, WByteArray):
        return x.length()
    if type(x) is str and has_token(x):
        return text_len(x)
    return len(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or type(o) is Sym

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


_MISSING = object()


def k_int(x=0, base=_MISSING):
    if base is not _MISSING:
        return int(x, base)
    if type(x) is Sym:
        return x
    if type(x) is AFloat:
        if x.quotient is not None:
            return x.quotient[0].trunc_div(x.quotient[1])
        if x.val is not None:
            return int(x.val)
        return Sym.atom("int(%s)" % x.name)
    if type(x) is str and has_token(x):
        parts = domain.split_tokens(x)
        if len(parts) == 1 and parts[0][0] == "i":
            return parts[0][1]
        raise Unsupported("int() of opaque text")
    return int(x)


def k_float(x=0.0):
    if type(x) in (Sym, AFloat):
        return AFloat("float(%r)" % (x,))
    return float(x)


def k_bytes(x=b"", *a):
    x = unwrap(x)
    if isinstance(x, WBytes):
        return x
    if type(x) is str and a:
        return encode_text(x, *a).norm()
    return bytes(x, *a)


def k_str(x="", *a):
    if a and is_byteslike(x):
        return x.decode(*a)
    if type(x) is Sym:
        return int_token(x)
    return str(x, *a)


_TYPEMAP = {}


def k_isinstance(o, t):
    if isinstance(t, tuple):
        return any(k_isinstance(o, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(k_isinstance(o, x) for x in t.__args__)
    t = _TYPEMAP.get(t, t) if isinstance(t, types.FunctionType) else t
    if type(o) is Sym:
        import numbers
        return t in (int, object, numbers.Number, numbers.Integral, numbers.Real)
    if type(o) is AFloat:
        return t in (float, object)
    if type(o) is WBytes:
        return t in (bytes, object)
    if type(o) is WByteArray:
        return t in (bytearray, object)
    return isinstance(o, t)


def k_issubclass(c, t):
    return issubclass(_TYPEMAP.get(c, c) if isinstance(c, types.FunctionType) else c, t)


class k_type_meta(type):
    pass


def k_type(*a, **kw):
    if len(a) == 1:
        o = a[0]
        if type(o) is Sym:
            return int
        if type(o) is WBytes:
            return bytes
        if type(o) is AFloat:
            return float
        return type(o)
    return type(*a, **kw)


def k_super(ip, f, *a):
    if a:
        return super(*a)
    fn = f.fn
    fr = f
    while fr is not None and (fr.fn is None or fr.scope.kind == "comp"):
        fr = fr.parent
    if fn is None or fn.cls_cell is None or fn.cls_cell[0] is None:
        raise RuntimeError("super(): no arguments")
    return super(fn.cls_cell[0], f.first)


k_super._k_frame = True


def k_locals(ip, f):
    return f.vars


k_locals._k_frame = True


def k_globals(ip, f):
    return f.globals


k_globals._k_frame = True


def k_import(ip, f, name, *a, **k):
    return ip.load(name)


k_import._k_frame = True


def k_getattr(ip, f, o, name, *d):
    try:
        return ip.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


k_getattr._k_frame = True


def _unsup(name):
    def f(*a, **k):
        raise Unsupported("builtin %s" % name)
    return f


def k_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def k_range(*a):
    return range(*[x.__index__() if type(x) is Sym else x for x in a])


def make_builtins():
    import builtins
    b = dict(vars(builtins))
    b.update(len=k_len, isinstance=k_isinstance, issubclass=k_issubclass, super=k_super,
             locals=k_locals, globals=k_globals, __import__=k_import, getattr=k_getattr,
             sum=k_sum, range=k_range, print=lambda *a, **k: None, open=_unsup("open"),
             exec=_unsup("exec"), eval=_unsup("eval"), input=_unsup("input"),
             compile=_unsup("compile"))
    # type objects stay themselves (they are used as classes); calls are redirected
    return b


# int/str/bytes/type/bytearray used as callables on abstract values are redirected here
CALL_REDIRECT = {int: k_int, str: k_str, bytes: k_bytes, type: k_type, bytearray: WByteArray,
                 float: k_float, memoryview: lambda x: unwrap(x) if isinstance(unwrap(x), WBytes) else memoryview(x)}


# ---------------------------------------------------------------- files in memory

class KBytesIO(object):
    def __init__(self, init=b""):
        self.w = WBytes.of(unwrap(init) if init is not None else b"")
        self.pos = 0

    def write(self, b):
        b = unwrap(b)
        if not is_byteslike(b):
            raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        n = self.w.length()
        if not (self.pos == n):
            ln = WBytes.of(b).length()
            head = self.w[0:self.pos]
            tail = self.w[self.pos + ln:]
            self.w = WBytes.of(WBytes.of(WBytes.of(head) + b) + tail)
            self.pos = self.pos + ln
            return ln
        self.w = WBytes.of(self.w + b)
        self.pos = self.w.length()
        return WBytes.of(b).length()

    def getvalue(self):
        return self.w.norm()

    def getbuffer(self):
        return self.w.norm()

    def read(self, n=-1):
        if n is None or (isinstance(n, int) and n < 0):
            r = self.w[self.pos:]
            self.pos = self.w.length()
            return r
        r = self.w[self.pos:self.pos + n]
        self.pos = self.pos + WBytes.of(r).length()
        return r

    def seek(self, p, whence=0):
        if whence == 0:
            self.pos = p
        elif whence == 1:
            self.pos = self.pos + p
        else:
            self.pos = self.w.length() + p
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        self.w = WBytes.of(self.w[0:size])
        return size

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ---------------------------------------------------------------- small libraries

class KLogger(object):
    def __init__(self, name="x"):
        self.name = name
        self.handlers = []

    def _log(self, *a, **k):
        c = domain.Ctx.cur
        if c is not None:
            # formatting errors in a log call are swallowed by logging: no effect on behaviour
            c.logged += 1
    debug = info = warn = warning = error = exception = critical = fatal = log = _log

    def isEnabledFor(self, lvl):
        return False

    def getEffectiveLevel(self):
        return 30

    def addHandler(self, h):
        pass
    setLevel = removeHandler = addFilter = addHandler


class KEvent(object):
    """threading.Event; blocking is an event the scenario decides"""

    def __init__(self):
        self._flag = False
        self.waits = 0

    def is_set(self):
        return self._flag
    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        self.waits += 1
        if not self._flag:
            h = ctx().on_wait
            if h is None:
                raise Unsupported("Event.wait outside a scenario")
            h(self, timeout)
        return self._flag


class KLock(object):
    def __init__(self, *a, **k):
        pass

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class JsonError(ValueError):
    def __init__(self, msg="bad json", doc="", pos=0):
        ValueError.__init__(self, msg)


def _concrete(x):
    if isinstance(x, (Sym, WBytes, AFloat)):
        return False
    if isinstance(x, str):
        return not has_token(x)
    if isinstance(x, dict):
        return all(_concrete(k) and _concrete(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(_concrete(v) for v in x)
    return True


JTOK = "json:"


class JText(str):
    """json.dumps output of an abstract value: json.loads is its inverse by construction"""


def k_dumps(o, *a, **k):
    import json
    if _concrete(o):
        return json.dumps(o, *a, **k)
    c = ctx()
    name = "%s%d" % (JTOK, len(c.json))
    for k2, v in c.json.items():
        if v is o:
            name = k2
    c.json[name] = o
    return opaque_text(name)


def k_loads(s, *a, **k):
    import json
    s = unwrap(s)
    if isinstance(s, WBytes):
        s = s.decode("utf-8")
    if isinstance(s, str) and has_token(s):
        p = domain.split_tokens(s)
        if len(p) == 1 and p[0][0] == "s" and p[0][1] in ctx().json:
            return ctx().json[p[0][1]]
        h = ctx().on_json
        if h is not None:
            return h(s)
        raise Unsupported("json.loads of opaque text")
    if s is None or isinstance(s, Sym):
        raise TypeError("the JSON object must be str, bytes or bytearray, not NoneType")
    return json.loads(s, *a, **k)


def crc32(data, value=0):
    data = unwrap(data)
    if not is_byteslike(data):
        raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
    if isinstance(data, WBytes):
        nm = "crc32(%r%s)" % (data, "" if isinstance(value, int) and value == 0 else ",%r" % (value,))
        return Sym.atom(nm, 0, 0x7fffffff if ctx().crc_positive else 0xffffffff)
    if isinstance(value, Sym):
        return Sym.atom("crc32(%r,%r)" % (data, value), 0, 0x7fffffff if ctx().crc_positive else 0xffffffff)
    if ctx().opaque_crc:
        return Sym.atom("crc32(%r)" % (WBytes.of(data),), 0, 0x7fffffff if ctx().crc_positive else 0xffffffff)
    import zlib
    return zlib.crc32(data, value)


class KDigest(object):
    def __init__(self, name, data=b""):
        self.name = name
        self.parts = [data] if data != b"" else []

    def update(self, d):
        if not is_byteslike(d):
            raise TypeError("Unicode-objects must be encoded before hashing")
        self.parts.append(d)

    def digest(self):
        import hashlib
        h = hashlib.md5()
        for p in self.parts:
            h.update(repr(p).encode())
        return h.digest()

    def hexdigest(self):
        return self.digest().hex()


class Kazoo(object):
    pass


class Later(object):
    """something imported from a library part without a model: only using it ends the analysis"""

    def __init__(self, name):
        self._name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s is not modelled" % self._name)

    def __call__(self, *a, **k):
        raise Unsupported("%s is not modelled" % self._name)


def later(name):
    m = types.ModuleType(name)

    def get(n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Later("%s.%s" % (name, n))
    m.__getattr__ = get
    return m


class KUuid(object):
    """a universally unique id: a name no other thing in the process has"""
    count = 0

    def __init__(self, *a):
        KUuid.count += 1
        self.n = KUuid.count
        self.hex = "%032x" % self.n
        self.bytes = self.n.to_bytes(16, "big")
        self.int = self.n

    def __str__(self):
        h = self.hex
        return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return isinstance(o, KUuid) and o.n == self.n


class KEventFuture(object):
    """tornado.locks.Event / asyncio.Event"""

    def __init__(self, *a, **k):
        self.on = False
        self.q = []

    def is_set(self):
        return self.on

    def set(self):
        self.on = True
        q, self.q = self.q, []
        for f in q:
            if not f.done():
                f.set_result(None)

    def clear(self):
        self.on = False

    def wait(self, timeout=None):
        f = L.KFuture("event")
        if self.on:
            f.set_result(None)
        else:
            self.q.append(f)
        return f


class KQueue(object):
    """tornado.queues.Queue / asyncio.Queue, without joins"""

    def __init__(self, maxsize=0, **k):
        self.max = maxsize
        self.items = []
        self.getters = []
        self.putters = []

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return bool(self.max) and len(self.items) >= self.max

    def put(self, x, timeout=None):
        f = L.KFuture("put")
        while self.getters:
            g = self.getters.pop(0)
            if not g.done():
                g.set_result(x)
                f.set_result(None)
                return f
        if self.full():
            self.putters.append((x, f))
        else:
            self.items.append(x)
            f.set_result(None)
        return f

    def put_nowait(self, x):
        self.put(x)

    def get(self, timeout=None):
        f = L.KFuture("get")
        if self.items:
            f.set_result(self.items.pop(0))
            if self.putters:
                x, g = self.putters.pop(0)
                self.items.append(x)
                g.set_result(None)
        else:
            self.getters.append(f)
        return f

    def get_nowait(self):
        if not self.items:
            raise IndexError("empty queue")
        return self.get().result()


class KSemaphore(object):
    def __init__(self, value=1, **k):
        self.n = value
        self.q = []

    def acquire(self, timeout=None):
        f = L.KFuture("semaphore")
        if self.n > 0:
            self.n -= 1
            f.set_result(_SemRel(self))
        else:
            self.q.append(f)
        return f

    def release(self):
        while self.q:
            f = self.q.pop(0)
            if not f.done():
                f.set_result(_SemRel(self))
                return
        self.n += 1

    def locked(self):
        return self.n <= 0

    def __aenter__(self):
        return self.acquire()

    def __aexit__(self, *a):
        self.release()
        return L.maybe_future(None)


class _SemRel(object):
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        return None

    def __exit__(self, *a):
        self.s.release()
        return False


class KCondition(object):
    def __init__(self, *a, **k):
        self.q = []

    def wait(self, timeout=None):
        f = L.KFuture("condition")
        self.q.append(f)
        return f

    def notify(self, n=1):
        q, self.q = self.q[:n], self.q[n:]
        for f in q:
            if not f.done():
                f.set_result(True)

    def notify_all(self):
        self.notify(len(self.q))


def async_locks(H, tor, L, lock):
    def sleep(d, result=None):
        f = L.KFuture("sleep")
        if isinstance(d, (int, float)) and d <= 0:
            L.loop().add_callback(f.set_result, result)
        else:
            L.loop().timers.append([f.set_result, (result,), {}])
        return f

    def gather(*fs, return_exceptions=False, **k):
        fs = [L.convert_yielded(f) for f in fs]
        if not return_exceptions:
            out = L.KFuture("gather")

            def fail(f):
                if not out.done() and f._exc is not None:
                    out.set_exception(f._exc)

            def end(f):
                if not out.done() and f._exc is None:
                    out.set_result(f._result)
            for f in fs:
                f.add_done_callback(fail)
            L.multi([quiet(f) for f in fs]).add_done_callback(end)
            return out
        return L.multi([quiet(f) for f in fs])

    def quiet(f):
        out = L.KFuture("gathered")
        f.add_done_callback(lambda g: out.set_result(g._exc if g._exc is not None else g._result))
        return out

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = [L.convert_yielded(f) for f in fs]
        out = L.KFuture("wait")

        def look(_=None):
            d = {f for f in fs if f.done()}
            if not out.done() and (len(d) == len(fs) or (d and return_when == "FIRST_COMPLETED") or (
                    return_when == "FIRST_EXCEPTION" and any(f._exc is not None for f in d))):
                out.set_result((d, set(fs) - d))
        for f in fs:
            f.add_done_callback(look)
        return out

    def as_completed(fs, **k):
        w = L.WaitIterator(*fs)
        while not w.done():
            yield w.next()
    aio = mod("asyncio", Future=L.KFuture, CancelledError=L.CancelledError, TimeoutError=L.TimeoutError_,
              InvalidStateError=L.InvalidStateError, sleep=sleep, gather=gather, wait=wait,
              ensure_future=lambda f, **k: L.convert_yielded(f), as_completed=as_completed,
              create_task=lambda f, **k: L.convert_yielded(f), shield=lambda f: L.convert_yielded(f),
              wait_for=lambda f, t=None: L.convert_yielded(f), get_event_loop=lambda: L.loop(),
              get_running_loop=lambda: L.loop(), iscoroutine=lambda c: isinstance(c, L.CoroObj),
              isfuture=lambda c: isinstance(c, L.KFuture),
              iscoroutinefunction=lambda f: bool(getattr(getattr(f, "scope", None), "is_async", False)),
              ALL_COMPLETED="ALL_COMPLETED", FIRST_COMPLETED="FIRST_COMPLETED",
              FIRST_EXCEPTION="FIRST_EXCEPTION", Lock=lock, Event=KEventFuture, Queue=KQueue,
              Semaphore=KSemaphore, BoundedSemaphore=KSemaphore, Task=L.KFuture)
    H["asyncio"] = aio
    for n, v in (("Event", KEventFuture), ("Condition", KCondition), ("Semaphore", KSemaphore),
                 ("BoundedSemaphore", KSemaphore)):
        setattr(tor.locks, n, v)
    H["tornado.queues"] = tor.queues = mod("tornado.queues", Queue=KQueue)


def install(ip):
    """host modules of one interpreter"""
    ip.loop_mod = L
    ip.builtins = make_builtins()
    ip.call_redirect = CALL_REDIRECT
    H = ip.host

    # six
    import itertools

    def with_metaclass(meta, *bases):
        return types.new_class("tmp", bases, {"metaclass": meta}) if False else meta("NewBase", bases or (object,), {})

    def add_metaclass(meta):
        def wrap(cls):
            d = dict(vars(cls))
            d.pop("__dict__", None)
            d.pop("__weakref__", None)
            return meta(cls.__name__, cls.__bases__, d)
        return wrap

    def reraise(tp, value, tb=None):
        if value is None:
            value = tp()
        raise value
    movesq = mod("six.moves.queue")
    import queue
    movesq.__dict__.update(vars(queue))
    moves = mod("six.moves", range=k_range, xrange=k_range, zip=zip, map=map, filter=filter,
                reduce=__import__("functools").reduce, input=_unsup("input"),
                zip_longest=itertools.zip_longest, queue=movesq)
    six = mod("six", PY2=False, PY3=True, PY34=True, text_type=str, binary_type=bytes,
              string_types=(str,), integer_types=(int,), class_types=(type,),
              iteritems=lambda d, **k: iter(d.items(**k)), iterkeys=lambda d: iter(d.keys()),
              itervalues=lambda d: iter(d.values()), viewkeys=lambda d: d.keys(),
              viewitems=lambda d: d.items(), viewvalues=lambda d: d.values(),
              BytesIO=KBytesIO, StringIO=_unsup("StringIO"), moves=moves, b=lambda s: s.encode("latin-1"),
              u=lambda s: s, next=next, advance_iterator=next, callable=callable, unichr=chr,
              int2byte=lambda i: domain.pack(">B", i), byte2int=lambda b: b[0], indexbytes=lambda b, i: b[i],
              iterbytes=iter, ensure_binary=lambda s, encoding="utf-8", errors="strict":
              encode_text(s, encoding, errors).norm() if isinstance(s, str) else s,
              ensure_text=lambda s, encoding="utf-8", errors="strict":
              s.decode(encoding, errors) if is_byteslike(s) else s,
              ensure_str=lambda s, encoding="utf-8", errors="strict":
              s.decode(encoding, errors) if is_byteslike(s) else s,
              with_metaclass=with_metaclass, add_metaclass=add_metaclass, reraise=reraise,
              python_2_unicode_compatible=lambda c: c, get_function_name=lambda f: f.__name__,
              raise_from=lambda v, c: (_ for _ in ()).throw(v))
    H["six"] = six
    H["six.moves"] = moves
    H["six.moves.queue"] = movesq
    H["future.utils"] = None

    # tornado
    def sleep(d):
        f = L.KFuture("sleep")
        if isinstance(d, (int, float)) and d <= 0:
            L.loop().add_callback(f.set_result, None)
        else:
            L.loop().timers.append([f.set_result, (None,), {}])
        return f

    def with_timeout(t, f, quiet_exceptions=()):
        return L.convert_yielded(f)
    gen = mod("tornado.gen", coroutine=L.coroutine, Return=L.Return, WaitIterator=L.WaitIterator,
              maybe_future=L.maybe_future, multi=L.multi, multi_future=L.multi, sleep=sleep,
              moment=L.MOMENT, with_timeout=with_timeout, BadYieldError=L.BadYieldError,
              convert_yielded=L.convert_yielded, is_coroutine_function=L.is_coroutine_function,
              TimeoutError=L.TimeoutError_, Future=L.KFuture, is_future=lambda f: isinstance(f, L.KFuture))
    conc = mod("tornado.concurrent", Future=L.KFuture, is_future=lambda f: isinstance(f, L.KFuture),
               FUTURES=(L.KFuture,), chain_future=L.chain,
               future_set_result_unless_cancelled=lambda f, v: None if f.cancelled() else f.set_result(v),
               future_set_exception_unless_cancelled=lambda f, v: None if f.cancelled() else f.set_exception(v),
               future_set_exc_info=lambda f, ei: f.set_exception(ei[1]),
               future_add_done_callback=lambda f, cb: cb(f) if f.done() else f.add_done_callback(cb))

    class StreamClosedError(OSError):
        def __init__(self, real_error=None):
            OSError.__init__(self, "Stream is closed")
            self.real_error = real_error

    class StreamBufferFullError(Exception):
        pass

    class UnsatisfiableReadError(Exception):
        pass

    def IOStream(*a, **k):
        h = ctx().on_iostream
        if h is None:
            raise Unsupported("IOStream outside a scenario")
        return h(*a, **k)
    ios = mod("tornado.iostream", IOStream=IOStream, StreamClosedError=StreamClosedError,
              StreamBufferFullError=StreamBufferFullError,
              UnsatisfiableReadError=UnsatisfiableReadError)

    class IOLoop(object):
        @staticmethod
        def current(instance=True):
            return L.loop()
        instance = current

    class PeriodicCallback(object):
        def __init__(self, *a, **k):
            pass

        def start(self):
            pass

        def stop(self):
            pass
    iol = mod("tornado.ioloop", IOLoop=IOLoop, PeriodicCallback=PeriodicCallback)
    tor = mod("tornado", gen=gen, concurrent=conc, iostream=ios, ioloop=iol)
    H.update({"tornado": tor, "tornado.gen": gen, "tornado.concurrent": conc,
              "tornado.iostream": ios, "tornado.ioloop": iol})

    class KTornadoLock(object):
        """tornado.locks.Lock: FIFO"""
        def __init__(self):
            self.q = []
            self.held = False

        def acquire(self, timeout=None):
            f = L.KFuture("lock")
            if self.held:
                self.q.append(f)
            else:
                self.held = True
                f.set_result(_Rel(self))
            return f

        def release(self):
            if not self.held:
                raise RuntimeError("release unlocked lock")
            if self.q:
                self.q.pop(0).set_result(_Rel(self))
            else:
                self.held = False

        def __aenter__(self):
            return self.acquire()

        def __aexit__(self, *a):
            self.release()
            return L.maybe_future(None)

    class _Rel(object):
        def __init__(self, l):
            self.l = l

        def __enter__(self):
            return None

        def __exit__(self, *a):
            self.l.release()
            return False
    locks = mod("tornado.locks", Lock=KTornadoLock)
    H["tornado.locks"] = tor.locks = locks

    # standard library, modelled
    import struct as _s
    H["struct"] = mod("struct", Struct=domain.Struct, pack=domain.pack, unpack=domain.unpack,
                      unpack_from=domain.unpack_from, calcsize=domain.calcsize, error=_s.error,
                      pack_into=pack_into, iter_unpack=lambda fmt, b: domain.Struct(fmt).iter_unpack(b))
    zl = mod("zlib", crc32=crc32, error=type("error", (Exception,), {}),
             compress=lambda d, *a, **k: ctx().codec("zlib", d),
             decompress=lambda d, *a, **k: ctx().uncodec("zlib", d), MAX_WBITS=15)
    H["zlib"] = zl
    H["binascii"] = mod("binascii", crc32=crc32, hexlify=lambda b, *a: b.hex().encode(),
                        unhexlify=lambda b: bytes.fromhex(b if isinstance(b, str) else b.decode()),
                        Error=ValueError)
    log = mod("logging", getLogger=lambda name=None: KLogger(name), Logger=KLogger, DEBUG=10, INFO=20,
              WARNING=30, WARN=30, ERROR=40, CRITICAL=50, NOTSET=0, NullHandler=KLogger,
              StreamHandler=KLogger, Handler=KLogger, LoggerAdapter=lambda l, e=None: l)
    for nm in ("debug", "info", "warn", "warning", "error", "exception", "critical", "log", "basicConfig"):
        setattr(log, nm, lambda *a, **k: None)
    H["logging"] = log
    H["json"] = mod("json", dumps=k_dumps, loads=k_loads, JSONDecodeError=JsonError,
                    JSONEncoder=__import__("json").JSONEncoder, JSONDecoder=__import__("json").JSONDecoder)
    H["hashlib"] = mod("hashlib", md5=lambda d=b"", **k: KDigest("md5", d),
                       sha1=lambda d=b"", **k: KDigest("sha1", d),
                       sha256=lambda d=b"", **k: KDigest("sha256", d))
    H["os"] = mod("os", getpid=lambda: 4242, environ={}, path=mod("os.path", join=lambda *a: "/".join(a)),
                  urandom=lambda n: b"\1" * n, getenv=lambda k, d=None: d, linesep="\n", sep="/")
    H["os.path"] = H["os"].path
    import socket as _sk

    class KSock(object):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None

    def getaddr(host, port, *a, **k):
        return [(_sk.AF_INET, _sk.SOCK_STREAM, 6, "", (host, port))]
    sk = mod("socket", AF_INET=_sk.AF_INET, AF_INET6=_sk.AF_INET6, AF_UNSPEC=_sk.AF_UNSPEC,
             SOCK_STREAM=_sk.SOCK_STREAM, gethostname=lambda: "host.example",
             getfqdn=lambda *a: "host.example", socket=lambda *a, **k: KSock(), error=OSError,
             timeout=_sk.timeout, gaierror=_sk.gaierror, getaddrinfo=getaddr, IPPROTO_TCP=6,
             TCP_NODELAY=1, SOL_SOCKET=1, SO_KEEPALIVE=9, SO_REUSEADDR=2)
    H["socket"] = sk
    H["threading"] = mod("threading", Event=KEvent, Lock=KLock, RLock=KLock, Condition=KLock,
                         current_thread=lambda: KLogger("MainThread"), get_ident=lambda: 1,
                         Thread=_unsup("Thread"), local=type("local", (object,), {}))
    import time as _t
    # the machine's zone is not UTC: what reads the local clock is off by ZONE seconds
    import os as _os
    _os.environ["TZ"] = "KST-5:30"
    _t.tzset()

    def gmtime(t=None):
        if t is None:
            return ("gmtime", ctx().now)
        if isinstance(t, AFloat) and t.val is not None:
            t = t.val
        return ("gmtime", int(t) if isinstance(t, (int, float)) else t)

    def localtime(t=None):
        if t is None:
            t = ctx().now
        if isinstance(t, AFloat) and t.val is not None:
            t = t.val
        return ("localtime", int(t) if isinstance(t, (int, float)) else t)

    def mktime(t):
        if isinstance(t, tuple) and t and t[0] in ("gmtime", "localtime"):
            if not isinstance(t[1], int):
                raise Unsupported("time.mktime of an unknown time")
            return AFloat("mktime%r" % (t,), float(t[1] - (ZONE if t[0] == "gmtime" else 0)))
        return _t.mktime(t)
    H["time"] = mod("time", time=lambda: AFloat("time.time", ctx().now + .375), sleep=lambda s: None,
                    gmtime=gmtime,
                    monotonic=lambda: AFloat("time.monotonic"),
                    localtime=localtime, mktime=mktime, timezone=-ZONE, altzone=-ZONE, daylight=0,
                    perf_counter=lambda: AFloat("perf"), strftime=lambda *a: "now")

    import calendar as _c
    import datetime as _d

    def timegm(t):
        if isinstance(t, tuple) and t and t[0] == "gmtime" and isinstance(t[1], int):
            return t[1]
        if isinstance(t, tuple) and t and t[0] == "localtime" and isinstance(t[1], int):
            return t[1] + ZONE
        if isinstance(t, tuple) and t and t[0] in ("gmtime", "localtime"):
            return Sym.atom("timegm(%s)" % (t,))
        return _c.timegm(t)
    H["calendar"] = mod("calendar", timegm=timegm)

    class KDatetime(_d.datetime):
        @classmethod
        def utcnow(cls):
            return cls(1970, 1, 1) + _d.timedelta(seconds=ctx().now)

        @classmethod
        def now(cls, tz=None):
            if tz is None:
                return cls(1970, 1, 1) + _d.timedelta(seconds=ctx().now + ZONE)
            return (cls(1970, 1, 1, tzinfo=_d.timezone.utc) + _d.timedelta(seconds=ctx().now))
    H["datetime"] = mod("datetime", datetime=KDatetime, timedelta=_d.timedelta, date=_d.date,
                        time=_d.time, timezone=_d.timezone, tzinfo=_d.tzinfo, UTC=_d.timezone.utc)

    def choice(seq):
        seq = list(seq) if not isinstance(seq, (list, tuple, str, range)) else seq
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[ctx().choose("random.choice", len(seq))]

    def shuffle(x):
        if len(x) > 1:
            k = ctx().choose("random.shuffle", 2)
            if k:
                x.reverse()

    def sample(p, k):
        p = list(p)
        shuffle(p)
        return p[:k]

    def randint(a, b):
        return a + ctx().choose("random.randint", min(b - a + 1, 4))
    H["random"] = mod("random", choice=choice, shuffle=shuffle, sample=sample, randint=randint,
                      randrange=lambda a, b=None: randint(0, a - 1) if b is None else randint(a, b - 1),
                      random=lambda: AFloat("random"), Random=_unsup("Random"),
                      SystemRandom=_unsup("SystemRandom"), seed=lambda *a: None,
                      choices=lambda seq, **k: [choice(seq)])
    H["sys"] = mod("sys", exc_info=sys.exc_info, version_info=sys.version_info, version=sys.version,
                   maxsize=sys.maxsize, platform="linux", modules={}, stderr=KLogger(), stdout=KLogger(),
                   byteorder="little", getsizeof=lambda o: 64, getdefaultencoding=lambda: "utf-8")
    H["io"] = mod("io", BytesIO=KBytesIO, open=_unsup("open"))

    # codecs
    class GzipFile(object):
        def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
            self.f = fileobj
            self.mode = mode or "rb"
            self.buf = []
            self.out = None

        def write(self, d):
            if not is_byteslike(d):
                raise TypeError("memoryview: a bytes-like object is required, not '%s'" % type(d).__name__)
            self.buf.append(d)

        def close(self):
            if self.mode.startswith("w") and self.buf is not None:
                d = b""
                for x in self.buf:
                    d = WBytes.of(d) + x
                self.buf = None
                self.f.write(ctx().codec("gzip", d))

        def read(self, n=-1):
            if self.out is None:
                self.out = KBytesIO(ctx().uncodec("gzip", self.f.read()))
            return self.out.read(n)

        def flush(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()
            return False
    H["gzip"] = mod("gzip", GzipFile=GzipFile, compress=lambda d, *a, **k: ctx().codec("gzip", d),
                    decompress=lambda d: ctx().uncodec("gzip", d), BadGzipFile=OSError,
                    open=lambda f, mode="rb", *a: GzipFile(fileobj=f, mode=mode))

    def sn_compress(d, *a, **k):
        return ctx().codec("snappy", unwrap(d))

    def sn_decompress(d, *a, **k):
        return ctx().uncodec("snappy", unwrap(d))
    H["snappy"] = mod("snappy", compress=sn_compress, decompress=sn_decompress,
                      uncompress=sn_decompress)

    # kazoo
    class KazooException(Exception):
        pass

    def kexc(n, base=KazooException):
        return type(n, (base,), {})
    ke = mod("kazoo.exceptions", KazooException=KazooException, NoNodeError=kexc("NoNodeError"),
             NodeExistsError=kexc("NodeExistsError"), ConnectionLoss=kexc("ConnectionLoss"),
             SessionExpiredError=kexc("SessionExpiredError"), BadVersionError=kexc("BadVersionError"),
             LockTimeout=kexc("LockTimeout"), ZookeeperError=KazooException,
             NotEmptyError=kexc("NotEmptyError"), ConnectionClosedError=kexc("ConnectionClosedError"),
             OperationTimeoutError=kexc("OperationTimeoutError"), NoAuthError=kexc("NoAuthError"),
             AuthFailedError=kexc("AuthFailedError"), InvalidACLError=kexc("InvalidACLError"),
             SystemZookeeperError=kexc("SystemZookeeperError"), RuntimeInconsistency=kexc("RuntimeInconsistency"),
             RolledBackError=kexc("RolledBackError"), CancelledError=kexc("CancelledError"),
             ConfigurationError=kexc("ConfigurationError"), SessionMovedError=kexc("SessionMovedError"))

    class KazooState(object):
        SUSPENDED = "SUSPENDED"
        CONNECTED = "CONNECTED"
        LOST = "LOST"

    def KazooClient(*a, **k):
        h = ctx().on_kazoo
        if h is None:
            raise Unsupported("KazooClient outside a scenario")
        return h(*a, **k)
    kc = mod("kazoo.client", KazooClient=KazooClient, KazooState=KazooState)
    kr = mod("kazoo.retry", KazooRetry=_unsup("KazooRetry"))
    H.update({"kazoo": mod("kazoo", client=kc, exceptions=ke), "kazoo.client": kc,
              "kazoo.exceptions": ke, "kazoo.retry": kr,
              "kazoo.protocol.states": mod("kazoo.protocol.states", KazooState=KazooState)})

    # functools.wraps must not copy the inner state of an analysed function
    import functools as ft
    from .interp import Func

    def update_wrapper(w, f, assigned=ft.WRAPPER_ASSIGNMENTS, updated=ft.WRAPPER_UPDATES):
        if not isinstance(w, Func):
            return ft.update_wrapper(w, f, assigned, () if isinstance(f, Func) else updated)
        for a in ("__module__", "__name__", "__qualname__", "__doc__"):
            if a in assigned and hasattr(f, a):
                setattr(w, a, getattr(f, a))
        w.__wrapped__ = f
        return w
    H["functools"] = mod("functools", **{k: v for k, v in vars(ft).items() if not k.startswith("__")})
    H["functools"].update_wrapper = update_wrapper
    H["functools"].wraps = six.wraps = lambda f, *a, **k: lambda w: update_wrapper(w, f, *a, **k)

    # asyncio: the parts code on top of tornado's loop can reasonably use
    async_locks(H, tor, L, KTornadoLock)

    H["uuid"] = mod("uuid", UUID=_unsup("UUID"), uuid4=KUuid, uuid1=KUuid)

    def host_import(name):
        if name in H and H[name] is not None:
            return H[name]
        if name.split(".")[0] in sys.stdlib_module_names or name.split(".")[0] == "tornado":
            if name not in PASS:
                return later(name)
        if name in PASS:
            import importlib
            return importlib.import_module(name)
        raise Unsupported("import of %s is not modelled" % name)
    ip.host_import = host_import
    # a module absent in the scenario (e.g. python-snappy not installed)
    H.pop("future.utils")
