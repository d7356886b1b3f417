"""Classes of the package that local names, attributes and elements of collections are instances of

Flow insensitive: a name or attribute has a class only if everything ever stored in it is of that class, a collection
has an element class only if it never leaves the attribute it is kept in.  None stands for "not known"."""
import ast

from .structure import dotted, own

NEW = {"dict", "list", "set", "collections.OrderedDict", "OrderedDict", "collections.deque", "deque"}
FILL = {"append": 0, "add": 0, "appendleft": 0, "setdefault": 1, "insert": 1}
HARMLESS = {"pop", "get", "popitem", "clear", "remove", "discard", "keys", "values", "items", "copy", "popleft",
            "__getitem__", "__contains__", "__len__", "__iter__"}


class Kinds(object):
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.busy = set()
        self.sites = {}             # attribute -> [(fn, node, parent chain)]
        self.par = {}
        for m, (path, tree) in prog.mods.items():
            for n in ast.walk(tree):
                for c in ast.iter_child_nodes(n):
                    self.par[c] = n
        self.owner = {}
        for f in prog.fns:
            for n in own(f.node):
                self.owner[n] = f
        for m, (path, tree) in prog.mods.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute):
                    self.sites.setdefault(n.attr, []).append(n)

    def cached(self, key, fn):
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return None
        self.busy.add(key)
        r = self.memo[key] = fn()
        self.busy.discard(key)
        return r

    @staticmethod
    def join(ts):
        ts = list(ts)
        if not ts or any(t is None for t in ts):
            return None
        return ts[0] if all(t == ts[0] for t in ts) else None

    # -- expressions: ("i", class) | ("m"/"l", element) | ("p", value)
    def of(self, e, fn):
        if fn is None:
            return None
        if isinstance(e, ast.Name):
            return self.local(e.id, fn)
        if isinstance(e, ast.Attribute):
            t = self.of(e.value, fn)
            return self.attr(t[1], e.attr) if t and t[0] == "i" else None
        if isinstance(e, ast.Subscript):
            t = self.of(e.value, fn)
            if t and t[0] in ("m", "l") and not isinstance(e.slice, ast.Slice):
                return t[1]
            return self.returned(t[1], "__getitem__") if t and t[0] == "i" else None
        if isinstance(e, ast.Call):
            f = e.func
            d = dotted(f)
            if "?" not in d and not self.shadowed(d.split(".")[0], fn):
                k = self.prog.resolve_class(fn.modname, f)
                if k is not None:
                    return ("i", k) if not self.prog.find([k], "__new__") else None
                if d in ("list", "sorted", "tuple", "reversed", "set", "iter") and len(e.args) == 1:
                    t = self.of(e.args[0], fn)
                    return t if t and t[0] in ("l", "p") else None
                if d in ("six.itervalues", "six.iteritems") and len(e.args) == 1:
                    t = self.of(e.args[0], fn)
                    return ("l" if d.endswith("values") else "p", t[1]) if t and t[0] == "m" else None
            if isinstance(f, ast.Attribute):
                t = self.of(f.value, fn)
                if t and t[0] == "m":
                    if f.attr == "values":
                        return ("l", t[1])
                    if f.attr == "items":
                        return ("p", t[1])
                    if f.attr in ("pop", "get") and len(e.args) == 1:
                        return t[1]
                if t and t[0] == "l" and f.attr in ("pop", "popleft"):
                    return t[1]
                if t and t[0] == "i":
                    return self.returned(t[1], f.attr)
        return None

    def shadowed(self, name, fn):
        while fn is not None:
            if self.bindings(name, fn) is not False:
                return True
            fn = fn.outer
        return False

    # -- local names
    def bindings(self, name, fn):
        """types bound to a name in a function; False if the function does not bind it"""
        return self.cached(("b", name, id(fn)), lambda: self._bindings(name, fn))

    def _bindings(self, name, fn):
        a = fn.node.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]:
            if self.prog.selfname(fn) == name and fn.outer is None and fn.cls_of is not None:
                return ("i", fn.cls_of)
            return None
        out, seen = [], False
        for n in own(fn.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                return None
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                seen = True
                if n.type is None:
                    return None
                for x in (n.type.elts if isinstance(n.type, ast.Tuple) else [n.type]):
                    k = self.prog.resolve_class(fn.modname, x)
                    out.append(None if k is None else ("i", k))
            if isinstance(n, (ast.Import, ast.ImportFrom)) and name in [(x.asname or x.name).split(".")[0] for x in n.names]:
                return None
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn.node and n.name == name:
                return None
            if not (isinstance(n, ast.Name) and n.id == name and not isinstance(n.ctx, ast.Load)):
                continue
            seen = True
            p = self.par[n]
            if isinstance(p, ast.Assign) and n in p.targets:
                if not (isinstance(p.value, ast.Constant) and p.value.value is None):
                    out.append(self.of(p.value, fn))
            elif isinstance(p, (ast.For, ast.comprehension)) and p.target is n:
                t = self.of(p.iter, fn)
                out.append(t[1] if t and t[0] == "l" else None)
            elif isinstance(p, ast.Tuple) and isinstance(self.par[p], (ast.For, ast.comprehension)) \
                    and len(p.elts) == 2 and p.elts[1] is n and self.par[p].target is p:
                t = self.of(self.par[p].iter, fn)
                out.append(t[1] if t and t[0] == "p" else None)
            elif isinstance(p, ast.Delete):
                pass
            else:
                out.append(None)
        if not seen:
            return False
        return self.join(out)

    def local(self, name, fn):
        while fn is not None:
            t = self.bindings(name, fn)
            if t is not False:
                return t
            fn = fn.outer
        return None

    # -- attributes
    def attr(self, cls, name):
        return self.cached(("a", cls.name, cls.modname, name), lambda: self._attr(cls, name))

    def _attr(self, cls, name):
        family = [k for k in cls.mro() + cls.below()]
        family += [b for s in cls.below() for b in s.mro() if b not in family]
        for k in family:
            for n in k.node.body:
                for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) else [n]:
                    if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                        return None
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == name:
                        return None         # a property or a method
        vals, elems, coll = [], [], None
        for n in self.sites.get(name, ()):
            f = self.owner.get(n)
            mine = f is not None and isinstance(n.value, ast.Name) and n.value.id == self.prog.selfname(f) \
                and f.cls_of in family
            p = self.par[n]
            if isinstance(n.ctx, ast.Store):
                if not mine:
                    # only another class's own attribute is certainly another one
                    if f is not None and isinstance(n.value, ast.Name) and n.value.id == self.prog.selfname(f):
                        continue
                    return None
                if not (isinstance(p, ast.Assign) and n in p.targets):
                    return None
                v = p.value
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                kind = self.empty(v)
                if kind:
                    coll = kind if coll in (None, kind) else "?"
                    continue
                vals.append(self.of(v, f))
                continue
            if isinstance(n.ctx, ast.Del):
                continue
            if isinstance(p, ast.Subscript) and p.value is n:
                if isinstance(p.ctx, ast.Store):
                    q = self.par[p]
                    elems.append(self.of(q.value, f) if isinstance(q, ast.Assign) and p in q.targets and
                                 not isinstance(p.slice, ast.Slice) else None)
            elif isinstance(p, ast.Attribute) and isinstance(self.par[p], ast.Call) and self.par[p].func is p:
                c = self.par[p]
                if p.attr in FILL:
                    i = FILL[p.attr]
                    elems.append(self.of(c.args[i], f) if len(c.args) > i else None)
                elif p.attr not in HARMLESS and coll:
                    elems.append(None)
                elif p.attr in ("update", "extend", "__setitem__"):
                    elems.append(None)
            elif isinstance(p, (ast.Compare, ast.For, ast.comprehension, ast.While, ast.If, ast.UnaryOp, ast.BoolOp)):
                pass
            elif isinstance(p, ast.Call) and dotted(p.func) in ("list", "sorted", "len", "iter", "set", "tuple", "bool",
                                                               "six.iteritems", "six.itervalues", "six.iterkeys"):
                pass
            elif isinstance(p, ast.Attribute):
                pass
            else:
                elems.append(None)          # it may be filled under another name
        if coll and not vals:
            t = self.join(elems)
            return None if t is None or coll == "?" else (coll, t)
        if coll:
            return None
        return self.join(vals)

    @staticmethod
    def empty(v):
        if isinstance(v, ast.Dict) and not v.keys:
            return "m"
        if isinstance(v, ast.List) and not v.elts:
            return "l"
        if isinstance(v, ast.Call) and not v.args and not v.keywords:
            d = dotted(v.func)
            if d in NEW:
                return "m" if d.endswith("ict") else "l"
        return None

    # -- results
    def returned(self, cls, name):
        return self.cached(("r", cls.name, cls.modname, name), lambda: self._returned(cls, name))

    def _returned(self, cls, name):
        out = []
        for g in self.prog.find([cls] + cls.below(), name):
            if g.node.decorator_list or g.is_async() or any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(g.node)):
                return None
            rs = [x for x in own(g.node) if isinstance(x, ast.Return)]
            if not rs:
                return None
            out += [self.of(x.value, g) for x in rs if x.value is not None and not (
                isinstance(x.value, ast.Constant) and x.value.value is None)]
        return self.join(out)
