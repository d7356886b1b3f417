"""Model of tornado's coroutine runner, futures and IO loop (FIFO, deterministic)."""
import collections
import sys
import types

from .domain import EngineSignal, Unsupported, Prune, Ctx, ctx


class InvalidStateError(Exception):
    pass


class TimeoutError_(Exception):
    pass


class KFuture(object):
    """asyncio.Future as tornado.concurrent.Future aliases it (no set_exc_info)"""

    def __init__(self, label=None, loop=None):
        self._done = False
        self._result = None
        self._exc = None
        self._cbs = []
        self._retrieved = False
        self._cancelled = False
        self._label = label
        self._awaited = False
        L = ctx().loop
        self._n = L.new_id()
        L.futures.append(self)

    def __repr__(self):
        return "<Future %s>" % (self._label or self._n)

    def done(self):
        return self._done

    def cancelled(self):
        return self._cancelled

    def running(self):
        return not self._done

    def cancel(self, msg=None):
        if self._done:
            return False
        self._cancelled = True
        self._finish()
        return True

    def result(self, timeout=None):
        self._retrieved = True
        if not self._done:
            raise InvalidStateError("Result is not set.")
        if self._cancelled:
            raise CancelledError()
        if self._exc is not None:
            raise self._exc
        return self._result

    def exception(self, timeout=None):
        self._retrieved = True
        if not self._done:
            raise InvalidStateError("Exception is not set.")
        return self._exc

    def set_result(self, r):
        if self._done:
            raise InvalidStateError("invalid state")
        self._result = r
        self._finish()

    def set_exception(self, e):
        if self._done:
            raise InvalidStateError("invalid state")
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError("invalid exception")
        self._exc = e
        self._finish()

    def _finish(self):
        self._done = True
        cbs, self._cbs = self._cbs, []
        for cb in cbs:
            loop().add_callback(cb, self)

    def add_done_callback(self, cb, context=None):
        self._awaited = True
        if self._done:
            loop().add_callback(cb, self)
        else:
            self._cbs.append(cb)

    def remove_done_callback(self, cb):
        n = len(self._cbs)
        self._cbs = [c for c in self._cbs if c != cb]
        return n - len(self._cbs)

    def get_loop(self):
        return loop()

    def __iter__(self):
        if not self._done:
            yield self
        return self.result()
    __await__ = __iter__


class CancelledError(BaseException):
    pass


class CoroObj(object):
    """a called ``async def`` that nobody has awaited yet"""

    def __init__(self, gen, fn):
        self.gen = gen
        self.fn = fn
        self.fut = None
        loop().coros.append(self)

    def start(self):
        if self.fut is None:
            self.fut = KFuture("async %s" % getattr(self.fn, "__qualname__", "awaitable"))
            Runner(self.gen, self.fut, self.fn)
        return self.fut

    def __iter__(self):
        yield self
        return self.start().result()
    __await__ = __iter__

    def close(self):
        self.gen.close()

    def send(self, v):
        return self.gen.send(v)

    def throw(self, *a):
        return self.gen.throw(*a)


class Yielded(object):
    """what an async generator hands to its consumer, as opposed to what it waits for"""

    def __init__(self, value):
        self.value = value


class AsyncGen(object):
    def __init__(self, gen, fn):
        self.gen = gen
        self.fn = fn
        self.over = False

    def __aiter__(self):
        return self

    def __anext__(self):
        return CoroObj(self._step(self.gen.send, None), self.fn)

    def asend(self, v):
        return CoroObj(self._step(self.gen.send, v), self.fn)

    def athrow(self, e, *a):
        if isinstance(e, type):
            e = e(*a[:1])
        return CoroObj(self._step(self.gen.throw, e), self.fn)

    def aclose(self):
        def close():
            try:
                yield from self._step(self.gen.throw, GeneratorExit())
            except (StopAsyncIteration, GeneratorExit):
                return None
            raise RuntimeError("async generator ignored GeneratorExit")
        return CoroObj(close(), self.fn)

    def _step(self, how, v):
        if self.over:
            raise StopAsyncIteration()
        while True:
            try:
                y = how(v)
            except StopIteration:
                self.over = True
                raise StopAsyncIteration()
            except BaseException:
                self.over = True
                raise
            if isinstance(y, Yielded):
                return y.value
            try:
                v = yield y
                how = self.gen.send
            except EngineSignal:
                raise
            except BaseException as e:
                v = e
                how = self.gen.throw


class Return(Exception):
    def __init__(self, value=None):
        super(Return, self).__init__()
        self.value = value
        self.args = (value,)


class BadYieldError(Exception):
    pass


MOMENT = object()


def convert_yielded(y):
    if isinstance(y, KFuture):
        return y
    if isinstance(y, CoroObj):
        return y.start()
    if y is None or y is MOMENT:
        f = KFuture("moment")
        loop().add_callback(f.set_result, None)
        return f
    if isinstance(y, (list, tuple)):
        return multi(list(y))
    if isinstance(y, dict):
        return multi(y)
    if hasattr(type(y), "__await__"):
        return CoroObj(y.__await__(), y).start()
    raise BadYieldError("yielded unknown object %r" % (y,))


def multi(children, quiet_exceptions=()):
    if isinstance(children, dict):
        keys = list(children)
        vals = [children[k] for k in keys]
    else:
        keys = None
        vals = list(children)
    fs = [convert_yielded(v) for v in vals]
    out = KFuture("multi")
    left = [len(fs)]

    def done(_=None):
        for f in fs:
            if not f.done():
                return
        if out.done():
            return
        res = []
        exc = None
        for f in fs:
            f._awaited = True
            try:
                res.append(f.result())
            except EngineSignal:
                raise
            except BaseException as e:
                if exc is None:
                    exc = e
        if exc is not None:
            out.set_exception(exc)
        else:
            out.set_result(dict(zip(keys, res)) if keys is not None else res)
    if all(f.done() for f in fs):
        done()
    else:
        for f in fs:
            f._awaited = True
            if not f.done():
                f._cbs.append(done)
    return out


class Runner(object):
    def __init__(self, gen, fut, fn=None):
        self.gen = gen
        self.fut = fut
        self.fn = fn
        self.waiting = None
        loop().runners.append(self)
        self.step(None, None)

    def wake(self, f):
        self.waiting = None
        v = e = None
        try:
            v = f.result()
        except EngineSignal:
            raise
        except BaseException as ex:
            e = ex
        self.step(v, e)

    def step(self, v, e):
        L = loop()
        while True:
            L.suspensions += 1
            try:
                if e is not None:
                    y = self.gen.throw(e)
                else:
                    y = self.gen.send(v)
            except StopIteration as s:
                self.fut.set_result(s.value)
                return
            except Return as r:
                self.fut.set_result(r.value)
                return
            except EngineSignal:
                raise
            except GeneratorExit:
                raise
            except BaseException as ex:
                self.fut.set_exception(ex)
                return
            v = e = None
            try:
                f = convert_yielded(y)
            except BadYieldError as ex:
                e = ex
                continue
            f._awaited = True
            if L.on_yield is not None:
                L.on_yield(self, f)
            if f.done():
                try:
                    v = f.result()
                except EngineSignal:
                    raise
                except BaseException as ex:
                    e = ex
                continue
            self.waiting = f
            f._cbs.append(self.wake)
            return


def coroutine(fn):
    def wrapper(*a, **k):
        fut = KFuture("coroutine %s" % getattr(fn, "__qualname__", fn))
        try:
            r = fn(*a, **k)
        except Return as e:
            r = e.value
        except EngineSignal:
            raise
        except StopIteration as e:
            r = e.value
        except Exception as e:
            fut.set_exception(e)
            return fut
        if isinstance(r, types.GeneratorType):
            Runner(r, fut, fn)
        else:
            fut.set_result(r)
        return fut
    wrapper.__name__ = getattr(fn, "__name__", "wrapper")
    wrapper.__qualname__ = getattr(fn, "__qualname__", wrapper.__name__)
    wrapper.__doc__ = getattr(fn, "__doc__", None)
    wrapper.__module__ = getattr(fn, "__module__", None)
    wrapper.__wrapped__ = fn
    wrapper.__tornado_coroutine__ = True
    return wrapper


def is_coroutine_function(f):
    return getattr(f, "__tornado_coroutine__", False)


def maybe_future(x):
    if isinstance(x, KFuture):
        return x
    f = KFuture("maybe_future")
    f.set_result(x)
    return f


class WaitIterator(object):
    def __init__(self, *args, **kwargs):
        if args and kwargs:
            raise ValueError("You must provide args or kwargs, not both")
        if kwargs:
            self._unfinished = {convert_yielded(f): k for k, f in kwargs.items()}
            futs = [convert_yielded(f) for f in kwargs.values()]
        else:
            futs = [convert_yielded(a) for a in args]
            self._unfinished = {f: i for i, f in enumerate(futs)}
        self._finished = collections.deque()
        self.current_index = self.current_future = None
        self._running = None
        for f in futs:
            f._awaited = True
            if f.done():
                self._done_cb(f)        # tornado future_add_done_callback: immediate when done
            else:
                f._cbs.append(self._done_cb)

    def done(self):
        if self._finished or self._unfinished:
            return False
        self.current_index = self.current_future = None
        return True

    def next(self):
        self._running = KFuture("WaitIterator.next")
        if self._finished:
            return self._return(self._finished.popleft())
        return self._running

    def _done_cb(self, f):
        if self._running is not None and not self._running.done():
            self._return(f)
        else:
            self._finished.append(f)

    def _return(self, f):
        if self._running is None:
            raise Exception("no future is running")
        chain(f, self._running)
        res = self._running
        self._running = None
        self.current_future = f
        self.current_index = self._unfinished.pop(f)
        return res

    def __aiter__(self):
        return self

    def __anext__(self):
        if self.done():
            raise StopAsyncIteration()
        return self.next()


def chain(a, b):
    def copy(_):
        if b.done():
            return
        if a._exc is not None:
            b.set_exception(a._exc)
        else:
            b.set_result(a._result)
    if a.done():
        copy(a)
    else:
        a._cbs.append(copy)


class Loop(object):
    def __init__(self):
        self.ready = collections.deque()
        self.timers = []
        self.futures = []
        self.coros = []
        self.runners = []
        self.errors = []
        self.n = 0
        self.suspensions = 0
        self.on_yield = None
        self.externals = []       # pending external operations, resolved by the scenario

    def new_id(self):
        self.n += 1
        return self.n

    # IOLoop interface
    def add_callback(self, cb, *a, **k):
        self.ready.append((cb, a, k))
    spawn_callback = add_callback
    add_callback_from_signal = add_callback
    call_soon = add_callback
    call_soon_threadsafe = add_callback

    def add_future(self, f, cb):
        f.add_done_callback(lambda fut: cb(fut))

    def add_timeout(self, deadline, cb, *a, **k):
        h = [cb, a, k]
        self.timers.append(h)
        return h

    def call_later(self, delay, cb, *a, **k):
        return self.add_timeout(delay, cb, *a, **k)

    def call_at(self, when, cb, *a, **k):
        return self.add_timeout(when, cb, *a, **k)

    def remove_timeout(self, h):
        if h in self.timers:
            self.timers.remove(h)

    def time(self):
        from .domain import AFloat
        return AFloat("loop.time")

    def run_sync(self, fn, timeout=None):
        raise Unsupported("run_sync")

    def create_future(self):
        return KFuture()

    def create_task(self, c, **k):
        return convert_yielded(c)

    def run_in_executor(self, executor, fn, *a):
        f = KFuture("executor")
        try:
            f.set_result(fn(*a))
        except EngineSignal:
            raise
        except Exception as e:
            f.set_exception(e)
        return f

    # scheduling
    def run_ready(self, limit=2000):
        k = 0
        while self.ready:
            k += 1
            if k > limit:
                from .domain import Budget
                raise Budget("event loop does not become idle")
            cb, a, kw = self.ready.popleft()
            try:
                r = cb(*a, **kw)
                if isinstance(r, CoroObj):
                    r = r.start()
                if isinstance(r, KFuture):
                    r._awaited = True
                    r._spawned = True
                    self.spawned.append(r)
            except EngineSignal:
                raise
            except BaseException as e:
                self.errors.append(e)
    spawned = ()

    def fire_timer(self, h):
        self.timers.remove(h)
        self.add_callback(h[0], *h[1], **h[2])


def loop():
    return ctx().loop
