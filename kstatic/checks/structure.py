"""C37 C38 C39: whole-program rules - asynchronous call sites, api tables, encodable requests

C37 is decided twice: a structural rule over every call site of every function of the package, and the
values of expression statements on every abstract path of the flows of the other checks."""
import ast
import os

from . import check, REG
from .wire import analysis
from .. import spec, core, loop as L
from ..core import Report, site, short
from ..domain import Sym
from ..scn import mod, need, ck, run, escaped, outcome, call, World, xp, name_of

FUTURE_API = {"add_done_callback", "result", "exception", "done", "cancel", "cancelled", "set_result",
              "set_exception", "remove_done_callback", "running", "get_loop", "close", "send", "throw", "add_callback"}


# --------------------------------------------------------------------------------------- program facts

class Fn(object):
    def __init__(self, modname, path, node, cls, outer):
        self.modname, self.path, self.node, self.cls, self.outer = modname, path, node, cls, outer
        self.name = node.name
        self.inner = {}
        self.coro = isinstance(node, ast.AsyncFunctionDef) or any(
            dotted(d if not isinstance(d, ast.Call) else d.func).split(".")[-1] in ("coroutine", "engine")
            for d in node.decorator_list)
        self.prop = any(dotted(d).split(".")[-1] in ("property", "cached_property") for d in node.decorator_list)
        self.ret = False            # returns a future although not a coroutine itself

    @property
    def qual(self):
        return "%s.%s%s" % (self.modname, self.cls.name + "." if self.cls else "", self.name)

    def is_async(self):
        return self.coro or self.ret


class Cls(object):
    def __init__(self, modname, node):
        self.modname, self.node, self.name = modname, node, node.name
        self.methods = {}
        self.bases = []
        self.subs = []
        self.attrs = {}              # attribute -> set of Cls

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo += c.bases
        return out

    def below(self):
        out = [self]
        for s in self.subs:
            out += s.below()
        return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return dotted(n.value) + "." + n.attr
    return "?"


def own(fn):
    """nodes of a function without those of functions and classes inside it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(ch)


class Program(object):
    def __init__(self, repo):
        self.mods, self.fns, self.classes, self.top = {}, [], {}, {}
        base = os.path.join(repo, "kiel")
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    path = os.path.join(d, f)
                    name = os.path.relpath(path, repo)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    with open(path) as fh:
                        self.mods[name] = (path, ast.parse(fh.read(), path))
        for name, (path, tree) in self.mods.items():
            self.walk(name, path, tree, None, None)
        self.imports = {m: self.imported(m, t) for m, (_, t) in self.mods.items()}
        for c in self.classes.values():
            for b in c.node.bases:
                k = self.resolve_class(c.modname, b)
                if k is not None:
                    c.bases.append(k)
                    k.subs.append(c)
        for fn in self.fns:
            if fn.cls is None:
                continue
            for n in own(fn.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    k = self.resolve_class(fn.modname, n.value.func)
                    for t in n.targets:
                        if k is not None and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                and t.value.id == self.selfname(fn):
                            fn.cls.attrs.setdefault(t.attr, set()).add(k)
        self.by_method = {}
        for c in self.classes.values():
            for m, fn in c.methods.items():
                self.by_method.setdefault(m, []).append(fn)
        changed = True
        while changed:
            changed = False
            for fn in self.fns:
                if not fn.is_async() and self.returns_future(fn):
                    fn.ret = changed = True

    def walk(self, name, path, node, cls, outer):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.ClassDef):
                c = Cls(name, ch)
                self.classes[name, ch.name] = c
                self.walk(name, path, ch, c, None)
            elif isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = Fn(name, path, ch, cls, outer)
                self.fns.append(fn)
                if outer is not None:
                    outer.inner[ch.name] = fn
                    fn.cls_of = getattr(outer, "cls_of", outer.cls)
                elif cls is not None:
                    cls.methods.setdefault(ch.name, fn)
                    fn.cls_of = cls
                else:
                    self.top[name, ch.name] = fn
                    fn.cls_of = None
                self.walk(name, path, ch, None, fn)
            else:
                self.walk(name, path, ch, cls, outer)

    @staticmethod
    def selfname(fn):
        while fn.outer is not None:
            fn = fn.outer
        a = fn.node.args
        ps = a.posonlyargs + a.args
        static = any(dotted(d) in ("staticmethod", "classmethod") for d in fn.node.decorator_list)
        return ps[0].arg if fn.cls is not None and ps and not static else None

    def imported(self, m, tree):
        out = {}
        pkg = m if self.mods[m][0].endswith("__init__.py") else m.rpartition(".")[0]
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    up = pkg.split(".")
                    up = up[:len(up) - n.level + 1]
                    base = ".".join(up + ([n.module] if n.module else []))
                for a in n.names:
                    out[a.asname or a.name] = base + "." + a.name
        return out

    def resolve_class(self, m, expr):
        d = dotted(expr)
        if "?" in d:
            return None
        if (m, d) in self.classes:
            return self.classes[m, d]
        head, _, rest = d.partition(".")
        full = self.imports.get(m, {}).get(head)
        for _ in range(4):
            if full is None:
                return None
            name = full + ("." + rest if rest else "")
            a, _, b = name.rpartition(".")
            if (a, b) in self.classes:
                return self.classes[a, b]
            full = self.imports.get(a, {}).get(b)
            rest = ""
        return None

    def resolve_function(self, m, d):
        if (m, d) in self.top:
            return self.top[m, d]
        head, _, rest = d.partition(".")
        full = self.imports.get(m, {}).get(head)
        if full is None:
            return None
        name = full + ("." + rest if rest else "")
        a, _, b = name.rpartition(".")
        return self.top.get((a, b))

    def find(self, classes, name):
        out = []
        for c in classes:
            for k in c.mro():
                if name in k.methods:
                    if k.methods[name] not in out:
                        out.append(k.methods[name])
                    break
        return out

    def callees(self, fn, call):
        """-> (candidate functions, resolved exactly?, receiver is self?)"""
        f = call.func
        if isinstance(f, ast.Name):
            g = fn
            while g is not None:
                if f.id in g.inner:
                    return [g.inner[f.id]], True, True
                g = g.outer
            r = self.resolve_function(fn.modname, f.id)
            return ([r], True, False) if r is not None else ([], True, False)
        if not isinstance(f, ast.Attribute):
            return [], True, False
        me = self.selfname(fn)
        v = f.value
        if isinstance(v, ast.Name) and me is not None and v.id == me and fn.cls_of is not None:
            return self.find([fn.cls_of] + fn.cls_of.below(), f.attr), True, True
        if isinstance(v, ast.Call) and dotted(v.func) == "super" and fn.cls_of is not None:
            return self.find(fn.cls_of.bases, f.attr), True, True
        r = self.resolve_function(fn.modname, dotted(f))
        if r is not None:
            return [r], True, False
        ts = None
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == me and fn.cls_of is not None:
            ts = set()
            for c in fn.cls_of.mro() + fn.cls_of.below():
                ts |= c.attrs.get(v.attr, set())
        elif isinstance(v, ast.Name):
            ts = set()
            for n in own(fn.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(
                        isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                    k = self.resolve_class(fn.modname, n.value.func)
                    if k is None:
                        ts = set()
                        break
                    ts.add(k)
            if v.id in self.imports.get(fn.modname, {}):
                return [], True, False
        if ts:
            return self.find(list(ts) + [b for t in ts for b in t.below()], f.attr), True, False
        return self.by_method.get(f.attr, []), False, False

    def is_async_call(self, fn, call):
        """True, False, or None when it cannot be told"""
        cands, exact, mine = self.callees(fn, call)
        if not cands:
            return False
        a = [c.coro or (c.ret and not (mine and not c.coro)) for c in cands]
        if all(a):
            return True
        if any(a):
            return True if exact else None
        return False

    def returns_future(self, fn):
        made = set()
        for n in own(fn.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                    dotted(n.value.func).split(".")[-1] == "Future":
                made |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        for n in own(fn.node):
            if isinstance(n, ast.Return) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Name) and v.id in made:
                    return True
                if isinstance(v, ast.Call) and self.is_async_call(fn, v):
                    return True
        return False


# --------------------------------------------------------------------------------------- C37 structural

def drop_rule(prog, rep):
    sites = exact = unsure = 0
    for fn in prog.fns:
        parents = {}
        for n in own(fn.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n
        loads = {}
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                loads[n.id] = loads.get(n.id, 0) + 1
        stored_elsewhere = {x for n in ast.walk(fn.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        for n in own(fn.node):
            if not isinstance(n, ast.Call):
                continue
            a = prog.is_async_call(fn, n)
            if a is False:
                continue
            if a is None:
                unsure += 1
                continue
            sites += 1
            rep.oblig += 1
            why = misuse(n, parents, loads, stored_elsewhere)
            if not why and left_alone(n, parents, fn.node):
                why = "stored in a name that some paths never use"
            if why:
                rep.violations.append({
                    "scenario": "every call site", "what": "%s: the asynchronous call %s is %s" % (
                        fn.qual, ast.unparse(n)[:80], why),
                    "where": "%s:%d (%s)" % (os.path.relpath(fn.path, core.REPO), n.lineno, fn.qual), "detail": None,
                    "decisions": [], "events": [], "call_path": []})
    return sites, unsure


def loads_of(node, name):
    """uses of a future's name: asking only whether it is done leaves it alone"""
    idle = {id(n.value) for n in ast.walk(node) if isinstance(n, ast.Attribute) and n.attr in ("done", "running", "cancelled")}
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Store)
            and id(n) not in idle]


def ends(stmts, name):
    """how the normal paths through the statements end as far as a name is concerned: used, fall, leave"""
    out = {"fall"}
    for s in stmts:
        out.discard("fall")
        if isinstance(s, ast.If):
            r = {"used"} if loads_of(s.test, name) else ends(s.body, name) | ends(s.orelse, name)
        elif isinstance(s, ast.Try):
            if any(loads_of(x, name) for x in s.finalbody):
                r = {"used"}
            else:
                r = ends(s.body, name)
                if "fall" in r:
                    r = r - {"fall"} | ends(s.orelse, name)
        elif isinstance(s, ast.With):
            r = {"used"} if any(loads_of(i, name) for i in s.items) else ends(s.body, name)
        elif loads_of(s, name):
            r = {"used"}
        elif isinstance(s, ast.Raise):
            r = set()
        elif isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            r = {"leave"}
        elif isinstance(s, (ast.For, ast.While)):
            r = {"fall"} | ({"leave"} if any(isinstance(x, ast.Return) for x in ast.walk(s)) else set())
        else:
            r = {"fall"}
        out |= r
        if "fall" not in out:
            break
    return out


def left_alone(call, parents, fn):
    """a name that holds the result and is, on some path from there, not used at all"""
    up = parents.get(call)
    if not (isinstance(up, ast.Assign) and up.value is call and len(up.targets) == 1 and isinstance(up.targets[0], ast.Name)):
        return False
    name = up.targets[0].id
    if sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)) != 1:
        return False
    if any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and n is not fn
           for n in ast.walk(fn)):
        return False
    holder = parents.get(up, fn)
    for field in ("body", "orelse", "finalbody"):
        block = getattr(holder, field, None)
        if isinstance(block, list) and up in block:
            rest = block[block.index(up) + 1:]
            inside = {id(n) for s in rest for n in loads_of(s, name)}
            if any(id(n) not in inside for n in loads_of(fn, name)):
                return False        # used elsewhere: the conditions may depend on each other
            return bool(ends(rest, name) & {"fall", "leave"})
    return False


def misuse(call, parents, loads, elsewhere):
    n, up = call, parents.get(call)
    while isinstance(up, (ast.Starred, ast.IfExp, ast.NamedExpr)) or (
            isinstance(up, ast.BoolOp) and up.values[-1] is n):
        if isinstance(up, ast.IfExp) and up.test is n:
            return "used as a condition without being waited for"
        n, up = up, parents.get(up)
    if up is None or isinstance(up, ast.Expr):
        return "started and dropped"
    if isinstance(up, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        if isinstance(parents.get(up), ast.Expr):
            return "started and dropped"
        return None
    if isinstance(up, (ast.If, ast.While, ast.Assert)) and up.test is n:
        return "used as a condition without being waited for"
    if isinstance(up, (ast.BoolOp, ast.Compare)) or (isinstance(up, ast.UnaryOp) and isinstance(up.op, ast.Not)):
        if isinstance(up, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in up.ops):
            return None
        return "used as a value without being waited for"
    if isinstance(up, (ast.For, ast.comprehension)) and up.iter is n:
        return "iterated over without being waited for"
    if isinstance(up, ast.Subscript) and up.value is n:
        return "used as a value without being waited for"
    if isinstance(up, ast.Attribute) and up.attr not in FUTURE_API:
        return "used as a value (.%s) without being waited for" % up.attr
    if isinstance(up, ast.Assign) and up.value is n and all(isinstance(t, ast.Name) for t in up.targets):
        if not any(loads.get(t.id) or t.id in elsewhere for t in up.targets):
            return "stored in a name that is never used"
    return None


FLOWS = ["C08", "C10", "C14", "C16", "C18", "C26", "C27", "C30"]
FLOWS_THOROUGH = FLOWS + ["C07", "C11", "C20", "C24", "C28", "C12", "C13", "C15", "C17", "C19", "C21", "C22", "C23", "C25", "C29", "C31", "C33",
                          "C36"]


class Quiet(Report):
    """the findings of the reused flows belong to their own checks"""
    rules = ()

    def __init__(self):
        Report.__init__(self)
        self.rules = []


def flows(rep, names, prepare):
    """run the flows of other checks with an extra observer; only what the observer says counts"""
    for pid in names:
        if pid not in REG:
            continue
        sub = Quiet()
        prepare.active = True
        try:
            core.Analysis.on_loaded = prepare
            REG[pid]["fn"](sub, "flow")
        except core.EngineSignal as e:
            sub.broken.append("%s: %s" % (type(e).__name__, e))
        finally:
            core.Analysis.on_loaded = None
        rep.paths += sub.paths
        rep.pruned += sub.pruned
        rep.broken += sub.broken
        rep.scen["flows of %s" % pid] = {"paths": sub.paths, "obligations": sub.oblig, "pruned": sub.pruned}
        rep.funcs = sorted(set(getattr(rep, "funcs", ())) | {"%s.%s" % f for f in sub.an.ip.functions})


@check("C37", "structural dataflow rule over every call site of every asynchronous function (resolved through the class hierarchy), backed by the values of expression statements on every abstract path of the client flows",
       "Call sites of coroutines and future-returning functions; results must be waited for, returned, stored or passed on.", 12)
def c37(rep, tier):
    prog = Program(core.REPO)
    sites, unsure = drop_rule(prog, rep)
    rep.rules.append("every call site of an asynchronous function waits for, returns, stores or passes on the result: %d call "
                     "sites; %d more call sites of ambiguous names decided on the abstract paths" % (sites, unsure))
    rep.scen["every call site"] = {"paths": 0, "obligations": sites, "pruned": 0}
    found = {}

    def prepare(an):
        def drop(s, f, v):
            if isinstance(v, (L.CoroObj, L.KFuture)):
                rep.oblig += 1
            if isinstance(v, L.CoroObj):
                if v.fut is not None:
                    return
            elif not (isinstance(v, L.KFuture) and not v._awaited and not v._retrieved and
                      str(v._label).startswith(("coroutine ", "async "))):
                return
            if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr == "setdefault":
                return
            k = (f.globals.get("__file__"), s.lineno)
            if k not in found:
                found[k] = "the asynchronous operation %s is started and dropped" % v
                rep.violations.append({
                    "scenario": "flows", "what": found[k],
                    "where": "%s:%d (%s)" % (os.path.relpath(k[0], core.REPO), s.lineno,
                                             f.fn.__qualname__ if f.fn else "?"),
                    "detail": None, "decisions": [], "events": [], "call_path": []})
        an.ip.on_drop = drop
    flows(rep, FLOWS_THOROUGH if tier == "thorough" else FLOWS, prepare)


# --------------------------------------------------------------------------------------- C38

def sendable(prog, cls):
    """request classes of the package that methods of cls (or functions of their modules) construct"""
    out = {}
    mods = {k.modname for k in cls.mro()}
    for fn in prog.fns:
        if fn.modname not in mods:
            continue
        if fn.cls_of is not None and fn.cls_of not in cls.mro():
            continue
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                k = prog.resolve_class(fn.modname, n)
                if k is not None and any(b.name == "Request" for b in k.mro()) and k.name != "Request":
                    out.setdefault((k.modname, k.name), []).append((fn, n.lineno))
    return out


def sample(an, api, K):
    P = lambda c, **k: need(mod(an, "protocol." + api), c)(**k)
    T = lambda **k: [P("TopicRequest", name="t", partitions=[P("PartitionRequest", partition_id=0, **k)])]
    kw = {"metadata": lambda: dict(topics=[]), "produce": lambda: dict(required_acks=1, timeout=10, topics=[]),
          "fetch": lambda: dict(replica_id=-1, max_wait_time=1, min_bytes=1, topics=T(offset=0, max_bytes=9)),
          "offset": lambda: dict(replica_id=-1, topics=T(time=-1, max_offsets=1)),
          "offset_fetch": lambda: dict(group_name="grp", topics=[P("TopicRequest", name="t", partitions=[0])]),
          "offset_commit": lambda: dict(group="grp", topics=T(offset=0, metadata="m")),
          "group_coordinator": lambda: dict(group="grp")}[api]()
    return K(**kw)


def handled_case(an, name, api, modname, clsname, p):
    """a client of this class sends a request of this api: the answer is decoded and handled"""
    from ..zk import Zoo
    B = {1: ("k1", 9092)}
    w = World(p, an, B, {"t": {0: 1}})
    w.coordinator = 1
    if name == "GroupedConsumer":
        Zoo(p, an)
        c = need(mod(an, "clients.grouped"), name)(["boot"], group="grp", zk_hosts=["zk1"])
    else:
        c = need(mod(an, {"Producer": "clients.producer", "SingleConsumer": "clients.single"}[name]), name)(["boot"])
    w.ok(call(p, c.connect), "connecting the %s" % name)
    K = need(mod(an, modname[len("kiel."):]), clsname)
    n0 = len(w.requests)
    f = call(p, c.send, {1: sample(an, api, K)})
    w.drive()
    ck(p, [q.api for q in w.requests[n0:]][:1] == [api], "a %s sent by a %s reaches the broker as %s", clsname, name,
       w.requests[n0:])
    o = w.result(f, "sending a %s from a %s" % (clsname, name))
    unhandled = need(mod(an, "exc"), "UnhandledResponseError")
    if o[0] == "err" and (isinstance(o[1], (unhandled, AttributeError))):
        p.violation("a %s cannot handle the answer to its %s: %s: %s" % (name, clsname, name_of(o[1]), o[1]), site(o[1]))
    ck(p, o[0] == "err" or set(o[1]) == {1}, "a %s gets no result for its %s (result %s)", name, clsname, o[1])
    ck(p, w.live(B[1]), "the answer to a %s costs a %s its connection", clsname, name)
    escaped(p)


def tables_case(an, api, p):
    """request, response and connection agree on an api"""
    C = mod(an, "connection")
    reqs = [need(mod(an, "protocol." + m), c) for (m, c), v in spec.REQUESTS.items() if v[0] == api]
    resps = [need(mod(an, "protocol." + m), c) for (m, c), v in spec.RESPONSES.items() if v[0] == api]
    for K in reqs + resps:
        ck(p, K.api == api, "%s.%s has the api %s instead of %s", K.__module__, K.__name__, K.api, api)
    keys = need(mod(an, "constants"), "API_KEYS")
    ck(p, keys.get(api) == spec.API_KEYS[api], "the api key of %s is %s", api, keys.get(api))


@check("C38", "call-graph query for the apis each client class can send, and path-sensitive abstract interpretation of sending each of them",
       "Every client class crossed with every request class its methods (inherited ones included) construct.", 40)
def c38(rep, tier):
    an = analysis(rep)
    prog = Program(core.REPO)
    known = {("kiel.protocol." + m, c): v[0] for (m, c), v in spec.REQUESTS.items()}
    total = 0
    for modname, name in (("kiel.clients.producer", "Producer"), ("kiel.clients.single", "SingleConsumer"),
                          ("kiel.clients.grouped", "GroupedConsumer")):
        cls = prog.classes.get((modname, name))
        if cls is None:
            rep.broken.append("class %s has vanished" % name)
            continue
        s = sendable(prog, cls)
        for (m, c), where in sorted(s.items()):
            api = known.get((m, c))
            if api is None:
                rep.broken.append("no layout known for %s.%s" % (m, c))
                continue
            total += 1
            xp(an, "%s sends %s" % (name, c), lambda p: handled_case(an, name, api, m, c, p), rep)
        rep.rules.append("%s constructs %s" % (name, ", ".join(sorted(c for _, c in s)) or "nothing"))
    cl = prog.classes.get(("kiel.cluster", "Cluster"))
    for (m, c), where in sorted(sendable(prog, cl).items()) if cl else ():
        rep.oblig += 1
        if known.get((m, c)) != "metadata":
            rep.broken.append("the cluster sends %s" % c)
    for api in sorted(spec.API_KEYS):
        xp(an, "api %s" % api, lambda p: tables_case(an, api, p), rep)
    if total < 5:
        rep.broken.append("only %d pairs of client class and request found" % total)


# --------------------------------------------------------------------------------------- C39

def watch(an, p, w):
    """every error that leaves Connection.send before anything was written: the request did not encode"""
    K = need(mod(an, "connection"), "Connection")
    orig = K.send

    def send(self, *a, **k):
        n = len(w.requests)
        try:
            f = orig(self, *a, **k)
        except core.EngineSignal:
            raise
        except Exception as e:
            p.violation("a request the client builds cannot be encoded: %s: %s" % (name_of(e), e), site(e))
        if isinstance(f, L.KFuture) and f.done() and f._exc is not None and len(w.requests) == n and \
                not self.closing and not name_of(f._exc).startswith(("BrokerConn", "StreamClosed")):
            p.violation("a request the client builds cannot be encoded: %s: %s" % (name_of(f._exc), f._exc), site(f._exc))
        return f
    K.send = send            # undone when the path ends (module state is restored for every path)


I16, I32 = (-2 ** 15, 2 ** 15 - 1), (-2 ** 31, 2 ** 31 - 1)
TB = {1: ("k1", 9092), 2: ("k2", 9092)}


def produce_requests(an, topic, value, key, codec, batch, p):
    from ..domain import opaque_text, WBytes
    w = World(p, an, TB, {topic: {0: 1, 1: 2}})
    watch(an, p, w)

    def make(kind, n):
        if kind == "text":
            Sym.atom("bytes(%s)" % n, 1, 9999)
            return opaque_text(n)
        if kind == "bytes":
            return WBytes([("o", n, Sym.atom("len:%s" % n, 1, 9999), None)]) if codec != 2 else n.encode() * 3
        return {"none": None, "no text": "", "no bytes": b"", "json": "{\"a\": \"\u00fc\"}"}[kind]
    vals = {}
    kw = {}
    if value != "default":
        kw["serializer"] = lambda m: vals.setdefault(m, make(value, "value%s" % m))
    if key != "default":
        kw["key_maker"] = lambda m: make(key, "key%s" % m)
    acks = Sym.atom("required_acks", *I16)
    tmo = Sym.atom("ack_timeout", *I32)
    c = need(mod(an, "clients.producer"), "Producer")(["boot"], partitioner=lambda k, ps: sorted(ps)[len(vals) % 2],
                                                       batch_size=batch, compression=codec, required_acks=acks,
                                                       ack_timeout=tmo, **kw)
    w.ok(call(p, c.connect), "connecting the producer")
    msgs = [1, 2, 3] if value != "default" else ["\u00fcber", {"a": [1.5, None, True]}, None]
    for m in msgs:
        w.ok(call(p, c.produce, topic, m), "producing")
    w.ok(call(p, c.flush), "flushing")
    qs = w.of("produce")
    ck(p, qs, "nothing is sent")
    for q in qs:
        ck(p, q.v["required_acks"] == acks and q.v["timeout"] == tmo, "acks %s and timeout %s are sent as %s and %s",
           acks, tmo, q.v["required_acks"], q.v["timeout"])
        ck(p, [t["name"] for t in q.v["topics"]] == [topic], "the topic %s is sent as %s", topic, q.v["topics"])
    escaped(p)


def consume_requests(an, topic, args, parts, p):
    w = World(p, an, TB, {topic: dict(parts)})
    watch(an, p, w)
    n = [Sym.atom(x, *I32) for x in ("max_wait_time", "min_bytes", "max_bytes")]
    c = need(mod(an, "clients.single"), "SingleConsumer")(["boot"], lambda raw: raw, n[0], n[1], n[2])
    for pid in parts:
        w.offsets[topic, pid] = Sym.atom("start %s" % pid, 0, 2 ** 62)
        w.log[topic, pid] = [(w.offsets[topic, pid], None, b"v")]
    w.ok(call(p, c.connect), "connecting the consumer")
    f = call(p, c.consume, topic, *args)
    w.ok(f, "consuming from %s" % short(args))
    for k in list(w.log):
        w.log[k] = []
    w.ok(call(p, c.consume, topic), "consuming again")
    for q in w.of("offset"):
        for t in q.v["topics"]:
            for x in t["partitions"]:
                ck(p, isinstance(x["time"], (int, Sym)), "the start %s is sent as the time %s", args, x["time"])
    qs = w.of("fetch")
    ck(p, len(qs) == 2 * len(set(parts.values())), "two rounds of fetches send %s requests", len(qs))
    for q in qs:
        ck(p, [q.v["max_wait_time"], q.v["min_bytes"]] == n[:2], "the settings %s are sent as %s", n, q.v)
    escaped(p)


def group_requests(an, topic, group, meta, p):
    from ..zk import Zoo
    zoo = Zoo(p, an)
    w = World(p, an, TB, {topic: {0: 1, 1: 2}})
    w.coordinator = 2
    watch(an, p, w)
    c = need(mod(an, "clients.grouped"), "GroupedConsumer")(["boot"], group, ["zk1"], deserializer=lambda raw: raw,
                                                             autocommit=meta == "auto")
    for pid in (0, 1):
        w.committed[topic, pid] = Sym.atom("start %s" % pid, 0, 2 ** 62)
        w.log[topic, pid] = [(w.committed[topic, pid], None, b"v")]
    w.ok(call(p, c.connect), "connecting the grouped consumer")
    zoo.flush()
    w.ok(call(p, c.consume, topic), "consuming")
    if meta != "auto":
        w.ok(call(p, c.commit_offsets, *([] if meta is None else [meta])), "committing")
    qs = w.of("offset_commit")
    ck(p, len(qs) == 1, "committing sends %s requests", len(qs))
    for api, field in (("offset_commit", "group"), ("offset_fetch", "group_name"), ("group_coordinator", "group")):
        for q in w.of(api):
            ck(p, q.v[field] == group, "the group %s is sent as %s", group, q.v[field])
    escaped(p)


@check("C39", "path-sensitive abstract interpretation of every request construction of the clients down to the bytes written, decoded with independent layouts",
       "Settings and positions as arbitrary integers of their fields, every kind of key, value, start, group, metadata and topic text.", 500)
def c39(rep, tier):
    from .consumer import starts
    an = analysis(rep)
    kinds = ["text", "bytes", "none", "no text", "no bytes", "json", "default"]
    topics = ["t", "t\u00f6pic-\u4e3b"] if tier != "thorough" else ["t", "t\u00f6pic-\u4e3b", "x" * 249, "\U0001f600"]
    for v in kinds:
        for k in kinds:
            for codec in (None, 1, 2):
                if codec == 2 and "text" in (v, k):
                    continue        # the snappy framing needs known sizes
                xp(an, "produce value %s key %s codec %s" % (v, k, codec),
                   lambda p: produce_requests(an, "t", v, k, codec, 10, p), rep)
    for t in topics:
        for batch in (0, 1, 2):
            xp(an, "produce to %s in batches of %s" % (ascii(t), batch),
               lambda p: produce_requests(an, t, "text", "bytes", None, batch, p), rep)
    an2 = core.Path(an, [])
    core.Ctx.cur = an2
    try:
        st = {k: v[0] for k, v in starts(an, an2).items()}
    finally:
        core.Ctx.cur = None
    for t in topics:
        for k, args in sorted(st.items()):
            for parts in [{0: 1, 1: 2}, {0: 1, 1: 1, 2: 1}] + ([{0: 1}, {0: 1, 1: 2, 2: 1, 3: 2, 4: 1}]
                                                               if tier == "thorough" else []):
                xp(an, "consume %s from %s, leaders %s" % (ascii(t), k, parts),
                   lambda p: consume_requests(an, t, args, parts, p), rep)
        for g in ("grp", "gr\u00fcppe"):
            for m in ("auto", None, "", "note", "\u00fcnic\u00f6de"):
                xp(an, "group %s topic %s metadata %s" % (ascii(g), ascii(t), ascii(m)),
                   lambda p: group_requests(an, t, g, m, p), rep)


# --------------------------------------------------------------------------------------- C40

class It(object):
    """an element nothing is known about, except whether it is true"""

    def __init__(self, n, truth=True):
        self.n, self.truth = n, truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return "item%s" % self.n


def drain_case(an, kind, n, adds, falsy, stop, p):
    """adds: {number of items seen: items added then}; stop: leave the loop after that many"""
    import collections
    drain = need(mod(an, "iterables"), "drain")
    items = [It(i, not falsy) for i in range(n)]
    more = [It(100 + i, not falsy) for i in range(sum(adds.values()))]
    if kind == "dict":
        c = {("key", i): x for i, x in enumerate(items)}
    elif kind == "defaultdict":
        c = collections.defaultdict(list)
        c.update({("key", i): x for i, x in enumerate(items)})
    elif kind == "ordered":
        c = collections.OrderedDict((("key", i), x) for i, x in enumerate(items))
    else:
        c = {"list": list, "set": set, "deque": collections.deque}[kind](items)
    mapping = isinstance(c, dict)
    left = list(more)
    seen = []
    added = []
    it = drain(c)
    if isinstance(it, (list, tuple)):
        it = iter(it)
    while True:
        if len(seen) in adds and len(added) == sum(v for k, v in adds.items() if k < len(seen)):
            for _ in range(adds[len(seen)]):
                x = left.pop(0)
                added.append(x)
                if mapping:
                    c["key", x.n] = x
                elif kind == "set":
                    c.add(x)
                else:
                    c.append(x)
        if stop is not None and len(seen) == stop:
            break
        try:
            x = next(it)
        except StopIteration:
            break
        except core.EngineSignal:
            raise
        except Exception as e:
            p.violation("draining a %s of %d ends with %s: %s" % (kind, n, name_of(e), e), site(e))
        if mapping:
            ck(p, isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], It), "draining a dict gives %s", x)
            ck(p, x[0] == ("key", x[1].n), "draining a dict pairs %s with %s", x[0], x[1])
            x = x[1]
        ck(p, isinstance(x, It) and x in items + added, "draining a %s gives %s", kind, x)
        ck(p, not any(x is y for y in seen), "draining a %s gives %s twice", kind, x)
        rest = list(c.values()) if mapping else list(c)
        ck(p, not any(x is y for y in rest), "%s is given but stays in the %s", x, kind)
        ck(p, {y.n for y in rest} | {y.n for y in seen} | {x.n} == {y.n for y in items + added},
           "an element is neither given nor left: given %s, left %s of %s", seen + [x], rest, items + added)
        seen.append(x)
        if len(seen) > 40:
            p.violation("draining a %s never ends" % kind)
    if stop is None or stop > n + len(added):
        ck(p, len(c) == 0, "the drained %s still holds %s", kind, c)
        ck(p, len(seen) == n + len(added), "draining gives %s of %s", seen, items + added)
    if kind == "deque":
        ck(p, [x.n for x in seen] == [x.n for x in (items + added)][:len(seen)], "a deque is drained in the order %s", seen)


PLAIN = {"none": [None], "nones": [None, 1, None, 2, None], "falsy": [0, "", (), 0.0, False, None, 7],
         "equal": [1, 1, 2, 2, 1], "texts": ["a", "", "a", "b"], "pairs": [(None, None), (0, 1), ()],
         "many": list(range(3000)), "errors": [IndexError("x"), KeyError("y"), StopIteration("z")],
         "types": [IndexError, KeyError, StopIteration]}


def plain_case(an, kind, items, p):
    """whatever the elements are, each comes out once"""
    import collections
    drain = need(mod(an, "iterables"), "drain")
    dic = False
    if kind in ("dict", "ordered", "defaultdict"):
        dic = True
        make = {"dict": dict, "ordered": collections.OrderedDict,
                "defaultdict": lambda x: collections.defaultdict(list, x)}[kind]
        c = make([(("k", i) if i else None, x) for i, x in enumerate(items)])
        want = list(c.items())
    elif kind == "set":
        c = set(items)
        want = list(c)
    else:
        c = collections.deque(items) if kind == "deque" else list(items)
        want = list(items)
    got = []
    it = drain(c)
    it = iter(it) if isinstance(it, (list, tuple)) else it
    while len(got) <= len(want):
        try:
            got.append(next(it))
        except StopIteration:
            break
        except core.EngineSignal:
            raise
        except Exception as e:
            p.violation("draining a %s of %s ends with %s: %s" % (kind, short(items), name_of(e), e), site(e))
    key = (lambda x: (id(x[1]), repr(x[0]))) if dic else id
    ck(p, sorted(map(key, got)) == sorted(map(key, want)), "draining the %s %s gives %s", kind, short(items), short(got))
    ck(p, len(c) == 0, "draining the %s %s leaves %s", kind, short(items), short(c))
    if kind == "deque":
        ck(p, all(x is y for x, y in zip(got, want)), "the deque %s is drained in the order %s", short(items), short(got))


@check("C40", "abstract interpretation of drain over opaque elements with additions and early exits at every point",
       "list, dict, set, deque (and subclasses) of 0 to 4 elements, true and false ones.", 1000)
def c40(rep, tier):
    an = analysis(rep)
    for name, items in PLAIN.items():
        for kind in ("list", "deque", "dict", "ordered", "defaultdict", "set"):
            if kind != "set" or name not in ("errors",):
                xp(an, "%s of %s" % (kind, name), lambda p: plain_case(an, kind, items, p), rep)
    N = 4 if tier != "thorough" else 6
    for kind in ("list", "dict", "set", "deque", "defaultdict", "ordered"):
        for n in range(N + 1):
            for falsy in (False, True):
                xp(an, "%s of %d%s" % (kind, n, " false" if falsy else ""),
                   lambda p: drain_case(an, kind, n, {}, falsy, None, p), rep)
                for at in range(n + 1):
                    for k in (1, 2):
                        xp(an, "%s of %d, %d added at %d%s" % (kind, n, k, at, " false" if falsy else ""),
                           lambda p: drain_case(an, kind, n, {at: k}, falsy, None, p), rep)
                    xp(an, "%s of %d, stopped at %d" % (kind, n, at),
                       lambda p: drain_case(an, kind, n, {}, falsy, at, p), rep)


# --------------------------------------------------------------------------------------- C41

class Ev(object):
    """threading.Event in virtual time; set at ``at`` (None: never)"""

    def __init__(self, p, at):
        self.p, self.at, self.now, self.waits = p, at, 0, []

    def is_set(self):
        return self.at is not None and self.now >= self.at
    isSet = is_set

    def wait(self, timeout=None):
        self.waits.append(timeout)
        if len(self.waits) > 50:
            self.p.violation("the wait never ends although the event is %s" % ("set" if self.is_set() else "not set"))
        if self.is_set():
            return True
        if timeout is None:
            if self.at is None:
                raise Blocked()
            self.now = self.at
            return True
        if timeout < 0:
            timeout = 0
        if self.at is not None and self.at <= self.now + timeout:
            self.now = self.at
            return True
        self.now += timeout
        if timeout > 10 ** 8:
            raise Blocked()
        return False


class Blocked(core.EngineSignal):
    pass


def wait_case(an, given, timeout, at, p):
    wait = need(mod(an, "events"), "wait_on_event")
    e = Ev(p, at)
    try:
        if not given:
            wait(e)
        else:
            wait(e, timeout)
    except Blocked:
        ck(p, timeout is None and at is None, "waiting with the timeout %s blocks forever", timeout)
        return
    if timeout is None:
        ck(p, e.is_set(), "waiting without a timeout returns although the event is not set")
    else:
        ck(p, e.is_set() or e.now >= timeout, "waiting for %s returns after %s without the event being set", timeout, e.now)
        ck(p, e.now <= timeout, "waiting with the timeout %s takes %s", timeout, e.now)
        ck(p, len(e.waits) > 0 or e.is_set() or timeout == 0, "the event is never waited on")


@check("C41", "abstract interpretation of wait_on_event over an event in virtual time",
       "Timeouts absent, None, zero, fractional and large; events set before, during, exactly at and after the timeout, or never.", 60)
def c41(rep, tier):
    an = analysis(rep)
    for at in (0, 0.25, 1, 5, 100, None):
        xp(an, "no timeout, set at %s" % at, lambda p: wait_case(an, False, None, at, p), rep)
        xp(an, "None, set at %s" % at, lambda p: wait_case(an, True, None, at, p), rep)
        for t in (0, 0.25, 0.5, 1, 5, 30, 1000):
            xp(an, "timeout %s, set at %s" % (t, at), lambda p: wait_case(an, True, t, at, p), rep)
