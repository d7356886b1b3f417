"""Trace partitioning: enumerate every abstract path of a scenario."""
import collections
import gc
import json
import os
import sys
import time
import types

from . import domain, models, loop as L
from .domain import (Ctx, EngineSignal, Unsupported, Prune, Budget, PathStop, Sym, WBytes)
from .interp import Interp, Func

REPO = os.environ.get("KSTATIC_REPO", "/repo")


class Violation(EngineSignal):
    def __init__(self, what, where=None, detail=None):
        EngineSignal.__init__(self, what)
        self.what = what
        self.where = where
        self.detail = detail


class Path(object):
    """context of one abstract path"""

    def __init__(self, an, prefix):
        self.an = an
        self.ip = an.ip
        self.prefix = prefix
        self.taken = []          # (label, index, n)
        self.bounds = {}
        self.memo = {}
        self.tokens = {}
        self.aliases = {}
        self.congruent = {}
        self.json = {}
        self.on_json = None
        self.on_wait = None
        self.on_iostream = None
        self.on_kazoo = None
        self.opaque_crc = False
        self.crc_positive = False    # the sign boundary is decided by C03 only
        self.logged = 0
        self.now = 1700000000
        self.loop = L.Loop()
        self.loop.spawned = []
        self.codecs = {}
        self.codec_fail = None
        self.events = []
        self.oblig = 0

    # -- nondeterminism
    def choose(self, label, n):
        if n <= 1:
            return 0
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((label, k, n))
        return k

    def pick(self, label, options):
        options = list(options)
        return options[self.choose("%s in %s" % (label, short(options)), len(options))]

    def decide(self, key):
        if key in self.memo:
            return self.memo[key]
        r = self.choose("branch %s" % (short(key),), 2) == 0
        self.memo[key] = r
        return r

    def decide_lin(self, d, op):
        lo, hi = d.bounds()
        if op == "lt":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "le":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                return False
            if lo is not None and lo == hi == 0:
                return True
            if self.distinct(d):
                return False
        key = ("lin", d.key(), op)
        if key in self.memo:
            return self.memo[key]
        nkey = (-d).key()
        if op == "eq" and ("lin", nkey, "eq") in self.memo:
            return self.memo[("lin", nkey, "eq")]
        if op == "lt" and ("lin", nkey, "le") in self.memo:     # d<0  <=> not(-d<=0)
            return not self.memo[("lin", nkey, "le")]
        if op == "le" and ("lin", nkey, "lt") in self.memo:
            return not self.memo[("lin", nkey, "lt")]
        r = self.choose("branch %r %s 0" % (d, {"lt": "<", "le": "<=", "eq": "=="}[op]), 2) == 0
        self.memo[key] = r
        # interval refinement for a single atom
        if len(d.terms) == 1:
            (nm, co), k = d.terms[0], d.const
            l, h = self.bounds.get(nm, (None, None))
            if co in (1, -1):
                # co*x + k  OP 0
                if op == "eq" and r:
                    v = -k * co
                    if (l is not None and v < l) or (h is not None and v > h):
                        raise Prune()
                    l = h = v
                elif op == "eq":
                    v = -k * co
                    if l is not None and l == v:
                        l += 1
                    if h is not None and h == v:
                        h -= 1
                else:
                    strict = (op == "lt")
                    if r:
                        b = -k - (1 if strict else 0)      # co*x <= b
                        if co == 1:
                            h = b if h is None else min(h, b)
                        else:
                            l = -b if l is None else max(l, -b)
                    else:
                        b = -k + (0 if strict else 1)      # co*x >= b
                        if co == 1:
                            l = b if l is None else max(l, b)
                        else:
                            h = -b if h is None else min(h, -b)
                if l is not None and h is not None and l > h:
                    raise Prune()
                self.bounds[nm] = (l, h)
        elif not self.consistent():
            raise Prune()
        return r

    def distinct(self, d):
        """two different atoms of one 'distinct' family never coincide"""
        if d.const == 0 and len(d.terms) == 2:
            (a, ca), (b, cb) = d.terms
            if ca == -cb and a.partition("!")[0] == b.partition("!")[0] and "!" in a and "!" in b:
                return True
        return False

    def consistent(self):
        return True

    # -- codecs: uninterpreted, mutually inverse
    def codec(self, name, data):
        data = models.unwrap(data)
        if not domain.is_byteslike(data):
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        w = WBytes.of(data)
        nm = "%s(%r)" % (name, w)
        self.codecs[nm] = (name, data)
        lo = {"gzip": 20, "snappy": 1}.get(name, 1)
        return WBytes([("o", nm, Sym.atom("len:%s" % nm, lo, 0x7ffffff),
                        ("binary",) if name == "gzip" else None)])

    def uncodec(self, name, data):
        w = WBytes.of(models.unwrap(data))
        if len(w.chunks) == 1 and w.chunks[0][0] == "o":
            hit = self.codecs.get(w.chunks[0][1])
            if hit is not None and hit[0] == name:
                return hit[1]
        raise OSError("not a %s stream: %r" % (name, w))

    # -- reporting
    def ev(self, *a):
        self.events.append(a)

    def check(self, cond, what, where=None, detail=None):
        self.oblig += 1
        if not cond:
            raise Violation(what, where, detail)

    def violation(self, what, where=None, detail=None):
        raise Violation(what, where, detail)


def short(o, n=90):
    s = repr(o).replace(domain.TOK0, "<").replace(domain.TOK1, ">")
    return s if len(s) <= n else s[:n] + "..."


#: (i, n): this process decides every n-th scenario, starting with the i-th (None: all of them)
SHARD = None
FOUND = None                # time of the first violation found by any process, 0 before that
KNOWN = set()               # what the known findings say
LINGER = 45                 # seconds the analysis goes on collecting after the first violation


class Report(object):
    rules = ()

    def __init__(self):
        self.seen = 0            # scenarios met, decided here or by another process
        self.oblig_x = 0         # obligations decided on abstract paths
        self.violations = []
        self.broken = []
        self.paths = 0
        self.pruned = 0
        self.oblig = 0
        self.samples = []
        self.scen = collections.OrderedDict()


class Analysis(object):
    """one loaded program"""
    on_loaded = None             # observer of whole-program checks

    def __init__(self, repo=None, absent=()):
        self.repo = repo or REPO
        self.ip = Interp(self.repo)
        models.install(self.ip)
        for a in absent:
            self.ip.host.pop(a, None)
        self.absent = set(absent)
        if absent:
            orig = self.ip.host_import

            def hi(name):
                if name in self.absent:
                    raise ModuleNotFoundError("No module named '%s'" % name)
                return orig(name)
            self.ip.host_import = hi
        self.snap = None
        self._in_explore = False

    def load(self, *names):
        """import modules of the analysed package (module bodies are interpreted once)"""
        c = Path(self, [])
        Ctx.cur = c
        try:
            for n in names:
                self.ip.load(n)
            if c.taken:
                raise Unsupported("module initialisation depends on an abstract value: %r" % c.taken)
        finally:
            Ctx.cur = None
        self.snap = self.snapshot()

    def load_all(self):
        names = []
        base = os.path.join(self.repo, "kiel")
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    names.append(rel)
        self.load(*sorted(names))
        if Analysis.on_loaded is not None:
            Analysis.on_loaded(self)
        return names

    # -- module state is the same at the start of every path
    def snapshot(self):
        snap = []
        seen = set()
        stack = []
        for m in list(self.ip.modules.values()):
            stack.append(m.__dict__)
        classes = set()

        def add(o):
            if isinstance(o, (dict, list, set, collections.deque)) and id(o) not in seen:
                stack.append(o)
            elif isinstance(o, type) and o.__module__ and o.__module__.startswith("kiel") \
                    and o not in classes:
                classes.add(o)
                d = dict(vars(o))
                snap.append((o, d))
                for v in d.values():
                    add(v)
            elif isinstance(o, Func):
                for v in o.defaults:
                    add(v)
                for v in o.kwdefaults.values():
                    add(v)
                if o.parent is not None and id(o.parent) not in seen:
                    seen.add(id(o.parent))
                    for v in list(o.parent.vars.values()):
                        add(v)
            elif isinstance(o, (staticmethod, classmethod)):
                add(o.__func__)
            elif isinstance(o, property):
                add(o.fget)
            elif isinstance(o, types.FunctionType) and hasattr(o, "__wrapped__"):
                add(o.__wrapped__)
            elif type(o).__module__ and str(type(o).__module__).startswith("kiel") \
                    and hasattr(o, "__dict__") and id(o) not in seen and not isinstance(o, type):
                stack.append(o.__dict__)
                add(type(o))
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, dict):
                c = dict(o)
                vals = list(o.values())
            elif isinstance(o, list):
                c = list(o)
                vals = list(o)
            elif isinstance(o, set):
                c = set(o)
                vals = list(o)
            else:
                c = list(o)
                vals = list(o)
            snap.append((o, c))
            for v in vals:
                add(v)
        return snap

    def restore(self):
        for o, c in self.snap:
            if isinstance(o, type):
                cur = dict(vars(o))
                for k in cur:
                    if k not in c and k not in ("__dict__", "__weakref__"):
                        delattr(o, k)
                for k, v in c.items():
                    if cur.get(k) is not v and k not in ("__dict__", "__weakref__"):
                        setattr(o, k, v)
            elif isinstance(o, dict):
                if o != c or list(o) != list(c) or any(o[k] is not c[k] for k in c):
                    o.clear()
                    o.update(c)
            elif isinstance(o, list):
                o[:] = c
            elif isinstance(o, set):
                o.clear()
                o.update(c)
            else:
                o.clear()
                o.extend(c)

    # -- exploration
    def explore(self, name, driver, rep, max_paths=4000, max_viol=3, budget_s=600, on_budget=None, always=False):
        if not always:
            rep.seen += 1
            if SHARD is not None and rep.seen % SHARD[1] != SHARD[0]:
                return None
        if enough():
            return None
        prefix = []
        n = 0
        t0 = time.time()
        st = rep.scen[name] = {"paths": 0, "obligations": 0, "pruned": 0}
        viol = 0
        while True:
            if n >= max_paths or time.time() - t0 > budget_s:
                rep.broken.append("%s: path budget exceeded (%d paths, %.0fs)"
                                  % (name, n, time.time() - t0))
                break
            n += 1
            p = Path(self, prefix)
            self.restore()
            self.ip.epoch += 1
            self.ip.steps = 0
            self.ip.depth = 0
            del self.ip.trace[:]
            self.ip.loc = ("?", 0, "?")
            Ctx.cur = p
            try:
                driver(p)
                rep.paths += 1
                st["paths"] += 1
                if len(rep.samples) < 12 and st["paths"] in (1, 3):
                    rep.samples.append({"scenario": name,
                                        "decisions": [t[0] + "=%d" % t[1] for t in p.taken][:12],
                                        "events": [short(e, 120) for e in p.events[:8]]})
            except Prune:
                rep.pruned += 1
                st["pruned"] += 1
            except PathStop:
                rep.paths += 1
                st["paths"] += 1
            except Violation as v:
                rep.paths += 1
                st["paths"] += 1
                self.record(rep, name, p, v.what, v.where, v.detail)
                viol += 1
            except Exception as e:
                if not hasattr(e, "_k_site"):
                    raise
                rep.paths += 1
                st["paths"] += 1
                self.record(rep, name, p, "unexpected %s: %s" % (type(e).__name__, e), site(e), None)
                viol += 1
            except Budget as b:
                v = on_budget(p, b) if on_budget else None
                if v:
                    self.record(rep, name, p, v, None, None)
                    viol += 1
                else:
                    rep.broken.append("%s: %s at %s; decisions %s" % (
                        name, b, fmt_loc(self.ip.loc), [t[0] + "=%d" % t[1] for t in p.taken][-6:]))
                    break
            except Unsupported as u:
                import traceback
                rep.broken.append("%s: %s at %s; decisions %s" % (
                    name, u, fmt_loc(self.ip.loc), [t[0] + "=%d" % t[1] for t in p.taken][-6:]))
                if os.environ.get("KSTATIC_TB"):
                    traceback.print_exc()
                break
            finally:
                Ctx.cur = None
            rep.oblig += p.oblig
            rep.oblig_x += p.oblig
            st["obligations"] += p.oblig
            if viol >= max_viol or enough():
                break
            # next path in depth-first order
            t = p.taken
            while t and t[-1][1] + 1 >= t[-1][2]:
                t.pop()
            if not t:
                break
            prefix = [x[1] for x in t[:-1]] + [t[-1][1] + 1]
        if os.environ.get("KSTATIC_V"):
            sys.stderr.write("  %-50s %s %.1fs\n" % (name, st, time.time() - t0))
        return st

    def record(self, rep, name, p, what, where, detail):
        if where is None:
            where = fmt_loc(self.ip.loc)
        if FOUND is not None and what not in KNOWN and not FOUND.value:
            FOUND.value = time.time()
        rep.violations.append({
            "scenario": name, "what": what, "where": where, "detail": detail,
            "decisions": ["%s -> option %d of %d" % (t[0], t[1], t[2]) for t in p.taken],
            "events": [short(e, 300) for e in p.events[-40:]],
            "call_path": ["%s.%s (from line %s)" % t for t in self.ip.trace[-25:]],
        })


def enough():
    """the property is known to be violated and more examples would only take time"""
    return FOUND is not None and FOUND.value and time.time() - FOUND.value > LINGER


def fmt_loc(loc):
    return "%s:%s (%s)" % (os.path.relpath(loc[0], REPO) if loc[0] and loc[0] != "?" else loc[0],
                           loc[1], loc[2])


def site(e):
    s = getattr(e, "_k_site", None)
    return fmt_loc(s) if s else "?"


# ------------------------------------------------------------------------------ several processes

FIELDS = ("violations", "broken", "paths", "pruned", "oblig", "oblig_x", "samples", "scen", "rules", "funcs")


def run_check(fn, tier, n=None):
    """decide one property, its scenarios spread over n processes -> Report"""
    import multiprocessing
    n = n or max(1, min(8, os.cpu_count() or 1))
    if n == 1 or os.environ.get("KSTATIC_V") or os.environ.get("KSTATIC_TB"):
        return run_shard(fn, tier, None)
    global FOUND
    mp = multiprocessing.get_context("fork")
    FOUND = mp.Value("d", 0.0, lock=False)
    kids = []
    for i in range(n):
        a, b = mp.Pipe(False)

        def work(i=i, b=b):
            rep = run_shard(fn, tier, (i, n))
            b.send({k: getattr(rep, k) for k in FIELDS})
            b.close()
        k = mp.Process(target=work, daemon=True)
        k.start()
        b.close()
        kids.append((k, a))
    rep = Report()
    rep.rules, rep.funcs = [], []
    rest = 0
    keys = set()
    for i, (k, a) in enumerate(kids):
        try:
            d = a.recv()
        except EOFError:
            rep.broken.append("process %d of %d ended without a result" % (i, n))
            continue
        finally:
            k.join()
        for v in d["violations"]:
            key = (v["what"], v["where"], v["scenario"])
            if key not in keys:
                keys.add(key)
                rep.violations.append(v)
        rep.broken += [x for x in d["broken"] if x not in rep.broken]
        rep.paths += d["paths"]
        rep.pruned += d["pruned"]
        rep.oblig_x += d["oblig_x"]
        rest = max(rest, d["oblig"] - d["oblig_x"])
        rep.samples += d["samples"][:3]
        for name, st in d["scen"].items():
            t = rep.scen.setdefault(name, {"paths": 0, "obligations": 0, "pruned": 0})
            for x in st:
                t[x] = max(t[x], st[x]) if not st["paths"] else t[x] + st[x]
        rep.rules += [x for x in d["rules"] if x not in rep.rules]
        rep.funcs = sorted(set(rep.funcs) | set(d["funcs"]))
    rep.oblig = rep.oblig_x + rest
    return rep


def run_shard(fn, tier, shard):
    global SHARD
    SHARD = shard
    rep = Report()
    rep.rules = []
    try:
        fn(rep, tier)
    except EngineSignal as e:
        if os.environ.get("KSTATIC_TB"):
            raise
        rep.broken.append("%s: %s" % (type(e).__name__, e))
    except Exception as e:
        if os.environ.get("KSTATIC_TB"):
            raise
        import traceback
        rep.broken.append("checker error %s" % traceback.format_exc(limit=-6))
    rep.rules = list(rep.rules)
    rep.funcs = sorted(set(getattr(rep, "funcs", ())) | (
        {"%s.%s" % f for f in rep.an.ip.functions} if hasattr(rep, "an") else set()))
    return rep
