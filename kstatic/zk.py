"""an abstract ZooKeeper ensemble: nodes, sessions, watches, locks.  Every operation of the analysed code is
an event; a scenario can fail it or let another member act right before it."""
from . import domain
from .core import Violation, short
from .domain import Unsupported
from .models import unwrap


class Node(object):
    def __init__(self, data, owner, ephemeral):
        self.data, self.owner, self.ephemeral, self.version = data, owner, ephemeral, 0


class Stat(object):
    def __init__(self, n, children):
        self.version = n.version
        self.owner_session_id = n.owner if n.ephemeral else None
        self.ephemeralOwner = n.owner if n.ephemeral else 0
        self.numChildren = self.children_count = children
        self.data_length = self.dataLength = len(n.data)
        self.mtime = self.ctime = 0
        self.last_modified = self.created = 0.0


class Zoo(object):
    def __init__(self, p, an):
        self.p, self.an = p, an
        self.ex = an.ip.host["kazoo.exceptions"]
        self.state = an.ip.host["kazoo.client"].KazooState
        self.nodes = {"/": Node(b"", None, False)}
        self.clients = []
        self.queue = []              # callbacks the server has yet to deliver
        self.locks = {}              # path -> client or name
        self.ops = []                # (client, operation, path)
        self.fault = None            # (client, op, path) -> exception or None, before the operation
        self.before = None           # (client, op, path) hook
        self.eager = False           # callbacks delivered at once instead of when someone waits
        self.writes = []             # (path, data)
        self.waited = 0
        self.patience = 1            # waits with a timeout that may expire
        p.on_kazoo = self.client
        p.on_wait = self.wait

    # -- session side
    def client(self, *a, **k):
        c = KClient(self, 100 + len(self.clients), a, k)
        self.clients.append(c)
        return c

    def wait(self, event, timeout):
        self.waited += 1
        if timeout is not None and self.patience and self.p.choose("does waiting time out", 2):
            self.patience -= 1
            return
        while not event._flag and self.step():
            pass
        if not event._flag and timeout is None:
            raise Violation("waits forever for an event nothing will set")

    def step(self):
        if not self.queue:
            return False
        fn, args = self.queue.pop(0)
        fn(*args)
        return True

    def flush(self):
        while self.step():
            pass

    patient = False

    def later(self, fn, *args):
        self.queue.append((fn, args))
        if self.eager:
            self.flush()

    # -- server side
    def children(self, path):
        pre = path.rstrip("/") + "/"
        return sorted(x[len(pre):] for x in self.nodes if x.startswith(pre) and x != "/" and
                      "/" not in x[len(pre):])

    def stat(self, path):
        return Stat(self.nodes[path], len(self.children(path)))

    @staticmethod
    def parent(path):
        return path.rsplit("/", 1)[0] or "/"

    def do_create(self, path, data, owner, ephemeral, makepath=False):
        if path in self.nodes:
            raise self.ex.NodeExistsError()
        par = self.parent(path)
        if par not in self.nodes:
            if not makepath:
                raise self.ex.NoNodeError()
            self.do_create(par, b"", owner, False, True)
        self.nodes[path] = Node(data, owner, ephemeral)
        self.changed(path)
        self.changed_children(par)

    def do_delete(self, path, recursive=False):
        if path not in self.nodes:
            raise self.ex.NoNodeError()
        for ch in self.children(path):
            if not recursive:
                raise self.ex.NotEmptyError()
            self.do_delete(path + "/" + ch, True)
        del self.nodes[path]
        self.changed(path)
        self.changed_children(self.parent(path))

    def do_set(self, path, data, version=-1):
        if path not in self.nodes:
            raise self.ex.NoNodeError()
        n = self.nodes[path]
        if version != -1 and version != n.version:
            raise self.ex.BadVersionError()
        n.data = data
        n.version += 1
        self.writes.append((path, data))
        self.changed(path)

    def changed(self, path):
        for c in self.clients:
            for w in c.data_watches:
                if w.path == path:
                    self.later(w.fire)

    def changed_children(self, path):
        for c in self.clients:
            for w in c.child_watches:
                if w.path == path:
                    self.later(w.fire)

    # -- what other members do
    def foreign_member(self, path, name, owner=7):
        self.do_create(path + "/" + name, b"", owner, True, True)

    def foreign_set(self, path, data):
        if path in self.nodes:
            self.nodes[path].data = data
            self.nodes[path].version += 1
            self.changed(path)
        else:
            self.do_create(path, data, 7, False, True)


class Watch(object):
    def __init__(self, client, path, fn):
        self.client, self.path, self.fn = client, path, fn
        self.on = True

    def call(self, *a):
        if not self.on:
            return
        if self.fn(*a) is False:
            self.on = False


class DataWatcher(Watch):
    def fire(self):
        z = self.client.zoo
        if self.path in z.nodes:
            self.go(z.nodes[self.path].data, z.stat(self.path))
        else:
            self.go(None, None)

    def go(self, data, stat):
        # kazoo passes (data, stat) or (data, stat, event), whatever the function takes
        n = domain_arity(self.fn)
        self.call(*(data, stat, None)[:n if n in (2, 3) else 2])


def domain_arity(fn):
    code = getattr(fn, "node", None) or getattr(fn, "fnode", None)
    args = getattr(code, "args", None)
    if args is None:
        return 2
    if args.vararg is not None:
        return 3
    n = len(args.posonlyargs) + len(args.args)
    if getattr(fn, "__self__", None) is not None:
        n -= 1
    return n


class ChildWatcher(Watch):
    def fire(self):
        z = self.client.zoo
        if self.path not in z.nodes:
            self.on = False
            return
        self.call(z.children(self.path))


class KClient(object):
    def __init__(self, zoo, sid, a, k):
        self.zoo, self.sid, self.args, self.kw = zoo, sid, a, k
        self.listeners = []
        self.data_watches, self.child_watches = [], []
        self.up = False
        self.started = self.stopped = self.closed = 0
        self.handler = self
        self.logger = None

    def op(self, name, path=None):
        z = self.zoo
        z.p.oblig += 1
        z.ops.append((self, name, path))
        if z.before is not None:
            z.before(self, name, path)
        e = z.fault(self, name, path) if z.fault is not None else None
        if e is not None:
            raise e
        if name in ("start_async", "start", "add_listener", "stop", "close", "client_id"):
            return
        while z.patient and not self.up and z.step():
            pass            # kazoo queues the call until the connection is back
        if not self.up:
            raise Violation("ZooKeeper is asked to %s %s before the connection is established" % (name, path or ""))

    @property
    def client_id(self):
        return (self.sid, b"password") if self.up else None

    @property
    def connected(self):
        return self.up

    @property
    def state(self):
        return self.zoo.state.CONNECTED if self.up else self.zoo.state.LOST

    def add_listener(self, fn):
        self.op("add_listener")
        self.listeners.append(fn)

    def remove_listener(self, fn):
        self.listeners.remove(fn)

    def tell(self, state):
        self.up = state == self.zoo.state.CONNECTED
        if state == self.zoo.state.LOST:
            for path in [x for x, n in self.zoo.nodes.items() if n.ephemeral and n.owner == self.sid]:
                self.zoo.do_delete(path)
        for fn in list(self.listeners):
            fn(state)

    def start_async(self):
        self.op("start_async")
        self.started += 1
        self.zoo.later(self.tell, self.zoo.state.CONNECTED)

    def start(self, timeout=15):
        self.op("start")
        self.started += 1
        self.tell(self.zoo.state.CONNECTED)

    def stop(self):
        self.op("stop")
        self.stopped += 1
        if self.up:
            self.tell(self.zoo.state.LOST)

    def close(self):
        self.op("close")
        if not self.stopped:
            raise Violation("the ZooKeeper client is closed before it is stopped")
        self.closed += 1

    def retry(self, fn, *a, **k):
        return fn(*a, **k)

    def ensure_path(self, path, acl=None):
        self.op("ensure_path", path)
        if path not in self.zoo.nodes:
            self.zoo.do_create(path, b"", self.sid, False, True)
        return True

    def exists(self, path, watch=None):
        self.no_watch(watch)
        self.op("exists", path)
        return self.zoo.stat(path) if path in self.zoo.nodes else None

    def no_watch(self, w):
        if w is not None:
            raise Unsupported("one-time ZooKeeper watches")

    def data(self, value):
        value = unwrap(value)
        if not domain.is_byteslike(value):
            raise TypeError("Invalid type for 'value' (must be a byte string)")
        value = domain.WBytes.of(value).norm()
        if not isinstance(value, bytes):
            raise Unsupported("an abstract value in ZooKeeper: %s" % short(value))
        return value

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False, makepath=False,
               include_data=False):
        if sequence or include_data:
            raise Unsupported("sequence nodes")
        value = self.data(value)
        self.op("create", path)
        self.zoo.do_create(path, value, self.sid, bool(ephemeral), makepath)
        self.zoo.writes.append((path, value))
        return path

    def delete(self, path, version=-1, recursive=False):
        self.op("delete", path)
        self.zoo.do_delete(path, recursive)
        return True

    def get(self, path, watch=None):
        self.no_watch(watch)
        self.op("get", path)
        if path not in self.zoo.nodes:
            raise self.zoo.ex.NoNodeError()
        return (self.zoo.nodes[path].data, self.zoo.stat(path))

    def set(self, path, value, version=-1):
        value = self.data(value)
        self.op("set", path)
        self.zoo.do_set(path, value, version)
        return self.zoo.stat(path)

    def get_children(self, path, watch=None, include_data=False):
        self.no_watch(watch)
        self.op("get_children", path)
        if path not in self.zoo.nodes:
            raise self.zoo.ex.NoNodeError()
        return self.zoo.children(path)

    def transaction(self):
        return Txn(self)

    def Lock(self, path, identifier=None, *a, **k):
        return ZLock(self, path)

    def DataWatch(self, path, func=None):
        def reg(fn):
            self.op("DataWatch", path)
            w = DataWatcher(self, path, fn)
            self.data_watches.append(w)
            w.fire()
            return fn
        return reg if func is None else reg(func)

    def ChildrenWatch(self, path, func=None, allow_session_lost=True, send_event=False):
        if send_event:
            raise Unsupported("ChildrenWatch with events")

        def reg(fn):
            self.op("ChildrenWatch", path)
            w = ChildWatcher(self, path, fn)
            self.child_watches.append(w)
            w.fire()
            return fn
        return reg if func is None else reg(func)


class Txn(object):
    def __init__(self, c):
        self.c, self.todo, self.done = c, [], False

    def create(self, path, value=b"", acl=None, ephemeral=False, sequence=False):
        self.todo.append(("create", path, self.c.data(value), ephemeral))

    def delete(self, path, version=-1):
        self.todo.append(("delete", path))

    def set_data(self, path, value, version=-1):
        self.todo.append(("set", path, self.c.data(value), version))

    def check(self, path, version):
        self.todo.append(("check", path, version))

    def commit(self):
        self.c.op("commit", [t[:2] for t in self.todo])
        self.done = True
        z = self.c.zoo
        keep = {k: Node(n.data, n.owner, n.ephemeral) for k, n in z.nodes.items()}
        q = len(z.queue)
        out = []
        eager, z.eager = z.eager, False
        try:
            for i, t in enumerate(self.todo):
                try:
                    if t[0] == "create":
                        z.do_create(t[1], t[2], self.c.sid, t[3])
                        out.append(t[1])
                    elif t[0] == "delete":
                        z.do_delete(t[1])
                        out.append(True)
                    elif t[0] == "set":
                        z.do_set(t[1], t[2], t[3])
                        out.append(z.stat(t[1]))
                    else:
                        out.append(True)
                except z.ex.KazooException as e:
                    z.nodes = keep
                    del z.queue[q:]
                    return [RuntimeError("rolled back")] * i + [e] + [RuntimeError("inconsistency")] * (
                        len(self.todo) - i - 1)
        finally:
            z.eager = eager
        if z.eager:
            z.flush()
        return out

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        return False


class ZLock(object):
    def __init__(self, c, path):
        self.c, self.path = c, path

    def acquire(self, blocking=True, timeout=None, ephemeral=True):
        self.c.op("lock", self.path)
        z = self.c.zoo
        if z.locks.get(self.path) is not None:
            raise Violation("the lock %s is taken twice" % self.path)
        z.locks[self.path] = self.c
        return True

    def release(self):
        z = self.c.zoo
        if z.locks.get(self.path) is not self.c:
            return False
        z.locks[self.path] = None
        z.ops.append((self.c, "unlock", self.path))
        return True

    @property
    def is_acquired(self):
        return self.c.zoo.locks.get(self.path) is self.c

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, t, v, tb):
        self.release()
        return False
