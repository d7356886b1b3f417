"""Abstract interpreter over the syntax tree.

The ``g_*`` methods are written in generator style: they interpret bodies that may be suspended
(``yield`` / ``await``).  A second, non-suspending set ``p_*`` is derived from the very same source
text at import time (see the end of this file), so both have one definition.
"""
import ast
import builtins
import operator
import os
import re
import sys
import types
import inspect

from .domain import (EngineSignal, Unsupported, Prune, Budget, PathStop, Ctx, Sym, WBytes, has_token,
                     encode_text, is_byteslike, int_token)
from . import domain

BREAK, CONTINUE = ("break",), ("continue",)
_MISSING = object()

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
          ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
          ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.BitAnd: operator.and_,
          ast.MatMult: operator.matmul}
IBINOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
           ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
           ast.Pow: operator.ipow, ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
           ast.BitOr: operator.ior, ast.BitXor: operator.ixor, ast.BitAnd: operator.iand,
           ast.MatMult: operator.imatmul}
CMPOPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
          ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Is: operator.is_,
          ast.IsNot: operator.is_not,
          ast.In: lambda a, b: operator.contains(b, a),
          ast.NotIn: lambda a, b: not operator.contains(b, a)}
UNOPS = {ast.Not: operator.not_, ast.USub: operator.neg, ast.UAdd: operator.pos,
         ast.Invert: operator.invert}


class Frame(object):
    __slots__ = ("vars", "globals", "parent", "scope", "fn", "epoch", "first", "cls_cell")

    def __init__(self, globals_, parent, scope, fn=None, epoch=0):
        self.vars = {}
        self.globals = globals_
        self.parent = parent
        self.scope = scope
        self.fn = fn
        self.epoch = epoch
        self.first = None
        self.cls_cell = None


class Scope(object):
    """name resolution facts of one code block"""
    __slots__ = ("kind", "locals", "globals", "nonlocals", "is_gen", "is_async")

    def __init__(self, kind):
        self.kind = kind
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self.is_async = False


def _targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)


class ScopeBuilder(ast.NodeVisitor):
    def __init__(self, kind):
        self.s = Scope(kind)

    def build(self, nodes):
        for n in nodes:
            self.visit(n)
        self.s.locals -= self.s.globals | self.s.nonlocals
        return self.s

    def visit_FunctionDef(self, n):
        self.s.locals.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.s.locals.add(n.name)
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(d)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)

    def _comp(self, n):
        # walrus targets inside comprehensions belong to this scope
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.s.locals.add(sub.target.id)
        self.visit(n.generators[0].iter)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Global(self, n):
        self.s.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.s.nonlocals.update(n.names)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.s.locals.add(n.id)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.s.locals.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.s.locals.add((a.asname or a.name).split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.s.locals.add(a.asname or a.name)

    def visit_MatchAs(self, n):
        if n.name:
            self.s.locals.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.s.locals.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.s.locals.add(n.rest)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.s.is_gen = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield


_FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def mark_susp(node):
    """node._susp: a yield/await of the enclosing function occurs inside node"""
    r = isinstance(node, (ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncWith, ast.AsyncFor)) or (
        isinstance(node, ast.comprehension) and bool(node.is_async))
    for ch in ast.iter_child_nodes(node):
        c = mark_susp(ch)
        if c and not isinstance(node, _FUNCS + (ast.ClassDef,)):
            r = True
    node._susp = r
    return r


class Func(object):
    """an analysed function"""

    def __init__(self, interp, node, globals_, parent, defaults, kwdefaults, qual, cls_cell, modname):
        self.interp = interp
        self.node = node
        self.globals = globals_
        self.parent = parent
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls_cell = cls_cell
        self.__name__ = getattr(node, "name", "<lambda>")
        self.__qualname__ = qual
        self.__module__ = modname
        self.__doc__ = (ast.get_docstring(node, clean=False)
                        if not isinstance(node, ast.Lambda) else None)
        sc = getattr(node, "_scope", None)
        if sc is None:
            sb = ScopeBuilder("function")
            body = [node.body] if isinstance(node, ast.Lambda) else node.body
            a = node.args
            for arg in a.posonlyargs + a.args + a.kwonlyargs:
                sb.s.locals.add(arg.arg)
            if a.vararg:
                sb.s.locals.add(a.vararg.arg)
            if a.kwarg:
                sb.s.locals.add(a.kwarg.arg)
            sc = sb.build(body)
            sc.is_async = isinstance(node, ast.AsyncFunctionDef)
            node._scope = sc
        self.scope = sc

    @property
    def __defaults__(self):
        return tuple(self.defaults)

    @property
    def __code__(self):
        class code(object):
            co_varnames = tuple(a.arg for a in self.node.args.args)
            co_argcount = len(self.node.args.args)
            co_name = self.__name__
        return code

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return "<function %s>" % self.__qualname__

    def bind(self, args, kwargs):
        a = self.node.args
        fr = Frame(self.globals, self.parent, self.scope, self, self.interp.epoch)
        v = fr.vars
        pos = a.posonlyargs + a.args
        n = len(pos)
        if args:
            fr.first = args[0]
        for p, val in zip(pos, args):
            v[p.arg] = val
        if len(args) > n:
            if a.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given"
                                % (self.__name__, n, len(args)))
            v[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        extra = {}
        if kwargs:
            names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
            for k, val in kwargs.items():
                if k in names:
                    if k in v:
                        raise TypeError("%s() got multiple values for argument '%s'"
                                        % (self.__name__, k))
                    v[k] = val
                elif a.kwarg is not None:
                    extra[k] = val
                else:
                    raise TypeError("%s() got an unexpected keyword argument '%s'"
                                    % (self.__name__, k))
        if a.kwarg is not None:
            v[a.kwarg.arg] = extra
        nd = len(self.defaults)
        for i, p in enumerate(pos):
            if p.arg not in v:
                j = i - (n - nd)
                if j < 0:
                    raise TypeError("%s() missing 1 required positional argument: '%s'"
                                    % (self.__name__, p.arg))
                v[p.arg] = self.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in v:
                if p.arg not in self.kwdefaults:
                    raise TypeError("%s() missing 1 required keyword-only argument: '%s'"
                                    % (self.__name__, p.arg))
                v[p.arg] = self.kwdefaults[p.arg]
        return fr

    def __call__(self, *args, **kwargs):
        ip = self.interp
        fr = self.bind(args, kwargs)
        ip.called(self)
        sc = self.scope
        if isinstance(self.node, ast.Lambda):
            if sc.is_gen:
                raise Unsupported("yield in lambda")
            return ip.p_eval(self.node.body, fr)
        if sc.is_async:
            if sc.is_gen:
                return ip.loop_mod.AsyncGen(ip.g_body(self.node.body, fr), self)
            return ip.loop_mod.CoroObj(ip.g_body(self.node.body, fr), self)
        if sc.is_gen:
            return ip.g_body(self.node.body, fr)
        ip.depth += 1
        if ip.depth > 120:
            ip.depth = 0
            raise Budget("recursion")
        try:
            r = ip.p_block(self.node.body, fr)
        finally:
            ip.depth -= 1
        if r is not None:
            return r[1]
        return None


class Interp(object):
    def __init__(self, root, packages=("kiel",)):
        self.root = root
        self.packages = packages
        self.modules = {}
        self.trees = {}
        self.files = {}
        self.host = {}           # dotted name -> host module object
        self.epoch = 0
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.loc = ("?", 0, "?")
        self.trace = []
        self.functions = set()
        self.loop_mod = None
        self.builtins = None     # set by models
        self.call_redirect = {}
        self.exc_site = None
        self.on_drop = None      # called with the value of every expression statement

    # ------------------------------------------------------------ modules
    def path_of(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return None, None

    def parse(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, "rb") as f:
                src = f.read()
            try:
                t = ast.parse(src, path)
            except SyntaxError as e:
                raise Unsupported("cannot parse %s: %s" % (path, e))
            mark_susp(t)
            self.trees[path] = t
        return t

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.host:
            return self.host[name]
        top = name.split(".")[0]
        if top not in self.packages:
            r = self.host_import(name)
            return r
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        path, is_pkg = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        tree = self.parse(path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        m.__builtins__ = None
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        self.modules[name] = m
        self.files[name] = path
        sc = Scope("module")
        fr = Frame(m.__dict__, None, sc, None, self.epoch)
        fr.vars = m.__dict__
        try:
            self.p_block(tree.body, fr)
        except BaseException:
            del self.modules[name]
            raise
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.modules[parent], leaf, m)
        return m

    def host_import(self, name):
        raise Unsupported("import of %s is not modelled" % name)

    def imp(self, name, globals_, level):
        if level:
            pkg = globals_.get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        return name

    # ------------------------------------------------------------ bookkeeping
    def called(self, fn):
        self.functions.add((fn.__module__, fn.__qualname__))
        t = self.trace
        t.append((fn.__module__, fn.__qualname__, self.loc[1]))
        if len(t) > 4000:
            del t[:2000]

    def tick(self, n, f):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("path exceeded %d abstract steps" % self.max_steps)
        fn = f.fn
        self.loc = (f.globals.get("__file__"), n.lineno, fn.__qualname__ if fn else "<module>")

    def note_exc(self, e):
        if not isinstance(e, EngineSignal) and not hasattr(e, "_k_site"):
            try:
                e._k_site = self.loc
            except Exception:
                pass

    # ------------------------------------------------------------ names
    def lookup(self, name, f):
        fr = f
        first = True
        while fr is not None:
            sc = fr.scope
            if sc.kind == "class":
                if first and name in fr.vars:
                    return fr.vars[name]
                if first and name not in sc.locals and name not in fr.vars:
                    pass
            elif sc.kind != "module" and name in sc.locals:
                try:
                    return fr.vars[name]
                except KeyError:
                    if first:
                        raise UnboundLocalError(
                            "cannot access local variable '%s'" % name)
                    raise NameError("cannot access free variable '%s'" % name)
            if first and name in sc.globals:
                break
            if name == "__class__" and fr.fn is not None and fr.fn.cls_cell is not None \
                    and sc.kind == "function":
                return fr.fn.cls_cell[0]
            first = False
            fr = fr.parent
        g = f.globals
        if name in g:
            return g[name]
        b = self.builtins
        if name in b:
            return b[name]
        raise NameError("name '%s' is not defined" % name)

    def store_name(self, name, val, f):
        sc = f.scope
        if name in sc.globals:
            f.globals[name] = val
            return
        if name in sc.nonlocals or (sc.kind == "comp" and name not in sc.locals):
            fr = f.parent
            while fr is not None:
                if fr.scope.kind != "class" and name in fr.scope.locals:
                    fr.vars[name] = val
                    return
                if fr.scope.kind == "module" or (sc.kind == "comp" and fr.scope.kind == "class"):
                    fr.vars[name] = val
                    return
                fr = fr.parent
            f.globals[name] = val
            return
        f.vars[name] = val

    def del_name(self, name, f):
        fr = f
        if name in f.scope.globals:
            del f.globals[name]
            return
        if name in f.vars:
            del f.vars[name]
            return
        raise NameError("name '%s' is not defined" % name)

    # ------------------------------------------------------------ hooks
    def getattr(self, obj, name, f=None):
        if type(obj) is str:
            if name == "encode" and has_token(obj):
                return lambda encoding="utf-8", errors="strict": encode_text(obj, encoding, errors).norm()
            if has_token(obj) and name in ("split", "strip", "rstrip", "lstrip", "partition", "rsplit",
                                           "splitlines", "upper", "lower", "title", "replace", "find",
                                           "startswith", "endswith", "isdigit", "index", "count",
                                           "rpartition", "isalpha", "isidentifier", "zfill", "ljust",
                                           "rjust", "center", "expandtabs", "translate"):
                h = self.text_method(obj, name)
                if h is not None:
                    return h
        elif type(obj) is bytes and name == "join":
            return lambda it: self.bytes_join(obj, it)
        elif type(obj) is Sym:
            if name == "bit_length":
                raise Unsupported("bit_length of opaque int")
            if name in ("real", "numerator"):
                return obj
        if name == "__dict__" and isinstance(obj, types.ModuleType):
            return obj.__dict__
        return getattr(obj, name)

    def text_method(self, s, name):
        """opaque text: predicates are unknown, splitting on nothing it contains is identity"""
        def pred(*a):
            return domain.ctx().decide(("text", name, s, repr(a)))
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isidentifier"):
            return pred

        def change(*a):
            # some texts are left as they are, others are not
            if domain.ctx().decide(("text", name, s, repr(a))):
                return s
            return domain.opaque_text("%s(%s)" % (name, s.replace(domain.TOK0, "<").replace(domain.TOK1, ">")))
        if name in ("strip", "rstrip", "lstrip", "upper", "lower", "title", "replace", "expandtabs", "translate"):
            return change
        raise Unsupported("str.%s on opaque text" % name)

    def bytes_join(self, sep, it):
        items = list(it)
        if not any(isinstance(x, WBytes) for x in items):
            return sep.join(items)
        out = b""
        for i, x in enumerate(items):
            if not is_byteslike(x):
                raise TypeError("sequence item %d: expected a bytes-like object, %s found"
                                % (i, type(x).__name__))
            if i and sep:
                out = out + sep
            out = WBytes.of(out) + x
        return out

    def truth(self, v):
        return bool(v)

    # ------------------------------------------------------------ bodies
    def g_body(self, stmts, f):
        r = yield from self.g_block(stmts, f)
        if r is not None:
            return r[1]
        return None

    def g_block(self, stmts, f):
        for s in stmts:
            r = yield from self.g_exec(s, f)
            if r is not None:
                return r
        return None

    def p_exec(self, s, f):
        self.tick(s, f)
        h = self._px.get(type(s))
        if h is None:
            raise Unsupported("statement %s at %s:%s" % (type(s).__name__, f.globals.get("__file__"), s.lineno))
        try:
            return h(self, s, f)
        except Exception as e:
            if not hasattr(e, "_k_site"):
                self.note_exc(e)
            raise

    def g_exec(self, s, f):
        if not s._susp:
            return self.p_exec(s, f)
        self.tick(s, f)
        h = self._gx.get(type(s))
        if h is None:
            raise Unsupported("statement %s at %s:%s" % (type(s).__name__, f.globals.get("__file__"), s.lineno))
        try:
            return (yield from h(self, s, f))
        except Exception as e:
            if not hasattr(e, "_k_site"):
                self.note_exc(e)
            raise

    def p_eval(self, n, f):
        h = self._pe.get(type(n))
        if h is None:
            raise Unsupported("expression %s at %s:%s" % (type(n).__name__, f.globals.get("__file__"), n.lineno))
        return h(self, n, f)

    def g_eval(self, n, f):
        if not n._susp:
            return self.p_eval(n, f)
        h = self._ge.get(type(n))
        if h is None:
            raise Unsupported("expression %s at %s:%s" % (type(n).__name__, f.globals.get("__file__"), n.lineno))
        return (yield from h(self, n, f))

    # ------------------------------------------------------------ statements without suspension
    def x_Pass(self, s, f):
        return None

    def x_Break(self, s, f):
        return BREAK

    def x_Continue(self, s, f):
        return CONTINUE

    def x_Global(self, s, f):
        return None
    x_Nonlocal = x_Global

    def x_Import(self, s, f):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                self.store_name(a.asname, m, f)
            else:
                self.store_name(a.name.split(".")[0], self.load(a.name.split(".")[0]), f)

    def x_ImportFrom(self, s, f):
        if s.module == "__future__":
            return
        name = self.imp(s.module or "", f.globals, s.level)
        m = self.load(name)
        for a in s.names:
            if a.name == "*":
                for k in getattr(m, "__all__", None) or [k for k in vars(m) if not k.startswith("_")]:
                    self.store_name(k, getattr(m, k), f)
                continue
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                try:
                    v = self.load(name + "." + a.name)
                except ModuleNotFoundError:
                    raise ImportError("cannot import name '%s' from '%s'" % (a.name, name))
            self.store_name(a.asname or a.name, v, f)

    def qual(self, name, f):
        if f.fn is not None:
            return f.fn.__qualname__ + ".<locals>." + name
        if f.scope.kind == "class":
            return f.vars.get("__qualname__", "?") + "." + name
        return name

    def make_func(self, n, f):
        a = n.args
        defaults = [self.p_eval(d, f) for d in a.defaults]
        kwd = {p.arg: self.p_eval(d, f) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        parent = f if f.scope.kind != "module" else None
        cell = f.cls_cell
        if cell is None and f.fn is not None:
            cell = f.fn.cls_cell
        q = self.qual(getattr(n, "name", "<lambda>"), f)
        return Func(self, n, f.globals, parent, defaults, kwd, q, cell, f.globals.get("__name__"))

    def x_FunctionDef(self, s, f):
        fn = self.make_func(s, f)
        decs = [self.p_eval(d, f) for d in s.decorator_list]
        for d in reversed(decs):
            fn = d(fn)
        self.store_name(s.name, fn, f)
    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, f):
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.p_eval(b.value, f))
            else:
                bases.append(self.p_eval(b, f))
        kw = {k.arg: self.p_eval(k.value, f) for k in s.keywords}
        sc = getattr(s, "_scope", None)
        if sc is None:
            sc = s._scope = ScopeBuilder("class").build(s.body)
        cf = Frame(f.globals, f if f.scope.kind != "module" else None, sc, None, self.epoch)
        cf.cls_cell = [None]
        cf.vars["__module__"] = f.globals.get("__name__")
        cf.vars["__qualname__"] = self.qual(s.name, f)
        d = ast.get_docstring(s, clean=False)
        if d is not None:
            cf.vars["__doc__"] = d
        self.p_block(s.body, cf)
        for k in ("__init_subclass__", "__class_getitem__"):
            if isinstance(cf.vars.get(k), Func):
                cf.vars[k] = classmethod(cf.vars[k])
        meta = kw.pop("metaclass", None)
        cls = types.new_class(s.name, tuple(bases), dict(kw, **({"metaclass": meta} if meta else {})),
                              lambda ns: ns.update(cf.vars))
        cf.cls_cell[0] = cls
        for d in reversed([self.p_eval(d, f) for d in s.decorator_list]):
            cls = d(cls)
        self.store_name(s.name, cls, f)

    # ------------------------------------------------------------ statements
    def g_exec_Expr(self, s, f):
        v = yield from self.g_eval(s.value, f)
        if self.on_drop is not None:
            self.on_drop(s, f, v)

    def g_exec_Return(self, s, f):
        if s.value is None:
            return ("return", None)
        v = yield from self.g_eval(s.value, f)
        return ("return", v)

    def g_exec_Assign(self, s, f):
        v = yield from self.g_eval(s.value, f)
        for t in s.targets:
            yield from self.g_assign(t, v, f)

    def g_exec_AnnAssign(self, s, f):
        if s.simple and f.scope.kind in ("class", "module") and isinstance(s.target, ast.Name):
            try:
                ann = self.p_eval(s.annotation, f)
            except Exception:
                ann = None
            f.vars.setdefault("__annotations__", {})[s.target.id] = ann
        if s.value is not None:
            v = yield from self.g_eval(s.value, f)
            yield from self.g_assign(s.target, v, f)

    def g_exec_AugAssign(self, s, f):
        t = s.target
        op = IBINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, f)
            v = yield from self.g_eval(s.value, f)
            self.store_name(t.id, self.binop(op, s.op, cur, v), f)
        elif isinstance(t, ast.Attribute):
            o = yield from self.g_eval(t.value, f)
            cur = self.getattr(o, t.attr)
            v = yield from self.g_eval(s.value, f)
            setattr(o, t.attr, self.binop(op, s.op, cur, v))
        else:
            o = yield from self.g_eval(t.value, f)
            k = yield from self.g_eval(t.slice, f)
            cur = o[k]
            v = yield from self.g_eval(s.value, f)
            o[k] = self.binop(op, s.op, cur, v)

    def g_assign(self, t, v, f):
        tt = type(t)
        if tt is ast.Name:
            self.store_name(t.id, v, f)
        elif tt is ast.Attribute:
            o = yield from self.g_eval(t.value, f)
            setattr(o, t.attr, v)
        elif tt is ast.Subscript:
            o = yield from self.g_eval(t.value, f)
            k = yield from self.g_eval(t.slice, f)
            o[k] = v
        elif tt in (ast.Tuple, ast.List):
            vals = list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise ValueError("not enough values to unpack")
                vals = vals[:i] + [vals[i:len(vals) - after]] + vals[len(vals) - after:]
            elif len(vals) > len(t.elts):
                raise ValueError("too many values to unpack (expected %d)" % len(t.elts))
            elif len(vals) < len(t.elts):
                raise ValueError("not enough values to unpack (expected %d, got %d)"
                                 % (len(t.elts), len(vals)))
            for e, x in zip(t.elts, vals):
                yield from self.g_assign(e.value if isinstance(e, ast.Starred) else e, x, f)
        else:
            raise Unsupported("assignment target %s" % tt.__name__)

    def g_exec_Delete(self, s, f):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_name(t.id, f)
            elif isinstance(t, ast.Attribute):
                o = yield from self.g_eval(t.value, f)
                delattr(o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = yield from self.g_eval(t.value, f)
                k = yield from self.g_eval(t.slice, f)
                del o[k]
            else:
                raise Unsupported("del target")

    def g_exec_If(self, s, f):
        c = yield from self.g_eval(s.test, f)
        if self.truth(c):
            return (yield from self.g_block(s.body, f))
        if s.orelse:
            return (yield from self.g_block(s.orelse, f))
        return None

    def g_exec_While(self, s, f):
        while True:
            self.tick(s, f)
            c = yield from self.g_eval(s.test, f)
            if not self.truth(c):
                break
            r = yield from self.g_block(s.body, f)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
        if s.orelse:
            return (yield from self.g_block(s.orelse, f))
        return None

    def g_exec_For(self, s, f):
        it0 = yield from self.g_eval(s.iter, f)
        it = iter(it0)
        while True:
            self.tick(s, f)
            x = next(it, _MISSING)
            if x is _MISSING:
                break
            yield from self.g_assign(s.target, x, f)
            r = yield from self.g_block(s.body, f)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
        if s.orelse:
            return (yield from self.g_block(s.orelse, f))
        return None

    def g_exec_With(self, s, f):
        return (yield from self.g_with(s.items, 0, s.body, f))

    def g_with(self, items, i, body, f):
        if i == len(items):
            return (yield from self.g_block(body, f))
        it = items[i]
        cm = yield from self.g_eval(it.context_expr, f)
        tcm = type(cm)
        try:
            ex = tcm.__exit__
            en = tcm.__enter__
        except AttributeError:
            raise TypeError("'%s' object does not support the context manager protocol" % tcm.__name__)
        v = en(cm)
        swallowed = False
        try:
            if it.optional_vars is not None:
                yield from self.g_assign(it.optional_vars, v, f)
            r = yield from self.g_with(items, i + 1, body, f)
        except EngineSignal:
            raise
        except BaseException as e:
            if isinstance(e, GeneratorExit) and f.epoch != self.epoch:
                raise
            if not ex(cm, type(e), e, e.__traceback__):
                raise
            swallowed = True
        if swallowed:
            return None
        ex(cm, None, None, None)
        return r

    def exc_match(self, e, types_):
        if isinstance(types_, tuple):
            return any(self.exc_match(e, t) for t in types_)
        if not (isinstance(types_, type) and issubclass(types_, BaseException)):
            raise TypeError("catching classes that do not inherit from BaseException is not allowed")
        return isinstance(e, types_)

    def g_exec_Try(self, s, f):
        if not s.finalbody:
            return (yield from self.g_try_inner(s, f))
        try:
            r = yield from self.g_try_inner(s, f)
        except EngineSignal:
            raise
        except BaseException as e:
            if isinstance(e, GeneratorExit) and f.epoch != self.epoch:
                raise
            r2 = yield from self.g_block(s.finalbody, f)
            if r2 is not None:
                return r2
            raise
        r2 = yield from self.g_block(s.finalbody, f)
        if r2 is not None:
            return r2
        return r

    def g_try_inner(self, s, f):
        try:
            r = yield from self.g_block(s.body, f)
        except EngineSignal:
            raise
        except BaseException as e:
            if isinstance(e, GeneratorExit) and f.epoch != self.epoch:
                raise
            for h in s.handlers:
                if h.type is not None:
                    t = yield from self.g_eval(h.type, f)
                    if not self.exc_match(e, t):
                        continue
                if h.name:
                    self.store_name(h.name, e, f)
                try:
                    return (yield from self.g_block(h.body, f))
                finally:
                    if h.name:
                        f.vars.pop(h.name, None)
            raise
        if r is None and s.orelse:
            r = yield from self.g_block(s.orelse, f)
        return r

    def g_exec_Raise(self, s, f):
        if s.exc is None:
            e = sys.exc_info()[1]
            if e is None:
                raise RuntimeError("No active exception to reraise")
            raise e
        e = yield from self.g_eval(s.exc, f)
        if s.cause is not None:
            c = yield from self.g_eval(s.cause, f)
        else:
            c = _MISSING
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        self.note_exc(e)
        if c is not _MISSING:
            raise e from c
        raise e

    def g_exec_Assert(self, s, f):
        c = yield from self.g_eval(s.test, f)
        if not self.truth(c):
            if s.msg is not None:
                m = yield from self.g_eval(s.msg, f)
                raise AssertionError(m)
            raise AssertionError()

    def g_exec_AsyncWith(self, s, f):
        return (yield from self.g_awith(s, 0, f))

    def g_awith(self, s, i, f):
        if i == len(s.items):
            return (yield from self.g_block(s.body, f))
        it = s.items[i]
        cm = yield from self.g_eval(it.context_expr, f)
        v = yield type(cm).__aenter__(cm)
        if it.optional_vars is not None:
            yield from self.g_assign(it.optional_vars, v, f)
        try:
            r = yield from self.g_awith(s, i + 1, f)
        except EngineSignal:
            raise
        except Exception as e:
            sw = yield type(cm).__aexit__(cm, type(e), e, None)
            if not sw:
                raise
            return None
        yield type(cm).__aexit__(cm, None, None, None)
        return r

    def g_exec_AsyncFor(self, s, f):
        it0 = yield from self.g_eval(s.iter, f)
        it = type(it0).__aiter__(it0)
        while True:
            self.tick(s, f)
            try:
                x = yield type(it).__anext__(it)
            except StopAsyncIteration:
                break
            yield from self.g_assign(s.target, x, f)
            r = yield from self.g_block(s.body, f)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
        if s.orelse:
            return (yield from self.g_block(s.orelse, f))
        return None

    def g_exec_Match(self, s, f):
        subj = yield from self.g_eval(s.subject, f)
        for c in s.cases:
            binds = {}
            if not self.pmatch(c.pattern, subj, binds, f):
                continue
            for k, v in binds.items():
                self.store_name(k, v, f)
            if c.guard is not None:
                g = yield from self.g_eval(c.guard, f)
                if not self.truth(g):
                    continue
            return (yield from self.g_block(c.body, f))
        return None

    def pmatch(self, p, v, b, f):
        t = type(p)
        if t is ast.MatchValue:
            return bool(v == self.p_eval(p.value, f))
        if t is ast.MatchSingleton:
            return v is p.value
        if t is ast.MatchAs:
            if p.pattern is not None and not self.pmatch(p.pattern, v, b, f):
                return False
            if p.name:
                b[p.name] = v
            return True
        if t is ast.MatchOr:
            return any(self.pmatch(q, v, b, f) for q in p.patterns)
        if t is ast.MatchSequence:
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(v) < i + after:
                    return False
                end = len(v) - after
                if p.patterns[i].name:
                    b[p.patterns[i].name] = list(v[i:end])
                return all(self.pmatch(q, x, b, f) for q, x in
                           zip(p.patterns[:i] + p.patterns[i + 1:], list(v[:i]) + list(v[end:])))
            return len(v) == len(p.patterns) and all(
                self.pmatch(q, x, b, f) for q, x in zip(p.patterns, v))
        if t is ast.MatchMapping:
            if not isinstance(v, dict):
                return False
            keys = [self.p_eval(k, f) for k in p.keys]
            if any(k not in v for k in keys):
                return False
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in keys}
            return all(self.pmatch(q, v[k], b, f) for k, q in zip(keys, p.patterns))
        if t is ast.MatchClass:
            cls = self.p_eval(p.cls, f)
            if not self.builtins["isinstance"](v, cls):
                return False
            if p.patterns:
                args = getattr(cls, "__match_args__", None)
                if args is None:
                    return len(p.patterns) == 1 and self.pmatch(p.patterns[0], v, b, f)
                if len(p.patterns) > len(args):
                    raise TypeError("too many positional patterns")
                for a, q in zip(args, p.patterns):
                    if not hasattr(v, a) or not self.pmatch(q, getattr(v, a), b, f):
                        return False
            return all(hasattr(v, a) and self.pmatch(q, getattr(v, a), b, f)
                       for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Unsupported("match pattern %s" % t.__name__)

    # ------------------------------------------------------------ expressions without suspension
    def e_Constant(self, n, f):
        return n.value

    def e_Name(self, n, f):
        return self.lookup(n.id, f)

    def e_Lambda(self, n, f):
        return self.make_func(n, f)

    def _comp_iter(self, gens, i, cf, f, emit):
        g = gens[i]
        if g.is_async:
            raise Unsupported("async comprehension")
        it = self.p_eval(g.iter, f if i == 0 else cf)
        for x in it:
            self.tick(g.iter, cf)
            self.p_assign(g.target, x, cf)
            if all(self.truth(self.p_eval(c, cf)) for c in g.ifs):
                if i + 1 < len(gens):
                    self._comp_iter(gens, i + 1, cf, f, emit)
                else:
                    emit()

    def _comp_frame(self, n, f):
        sc = getattr(n, "_scope", None)
        if sc is None:
            sc = Scope("comp")
            for g in n.generators:
                _targets(g.target, sc.locals)
            n._scope = sc
        cf = Frame(f.globals, f, sc, f.fn, self.epoch)
        cf.first = f.first
        return cf

    def e_ListComp(self, n, f):
        cf = self._comp_frame(n, f)
        out = []
        self._comp_iter(n.generators, 0, cf, f, lambda: out.append(self.p_eval(n.elt, cf)))
        return out

    def e_SetComp(self, n, f):
        cf = self._comp_frame(n, f)
        out = set()
        self._comp_iter(n.generators, 0, cf, f, lambda: out.add(self.p_eval(n.elt, cf)))
        return out

    def e_DictComp(self, n, f):
        cf = self._comp_frame(n, f)
        out = {}

        def emit():
            k = self.p_eval(n.key, cf)
            out[k] = self.p_eval(n.value, cf)
        self._comp_iter(n.generators, 0, cf, f, emit)
        return out

    def e_GeneratorExp(self, n, f):
        cf = self._comp_frame(n, f)
        first = iter(self.p_eval(n.generators[0].iter, f))

        def gen(i):
            g = n.generators[i]
            it = first if i == 0 else self.p_eval(g.iter, cf)
            for x in it:
                self.tick(n, cf)
                self.p_assign(g.target, x, cf)
                if all(self.truth(self.p_eval(c, cf)) for c in g.ifs):
                    if i + 1 < len(n.generators):
                        yield from gen(i + 1)
                    else:
                        yield self.p_eval(n.elt, cf)
        return gen(0)

    # ------------------------------------------------------------ comprehensions which wait
    def a_comp(self, n, f, elt):
        cf = self._comp_frame(n, f)

        def walk(i):
            g = n.generators[i]
            it = yield from self.g_eval(g.iter, f if i == 0 else cf)
            if g.is_async:
                it = type(it).__aiter__(it)
            else:
                it = iter(it)
            while True:
                self.tick(g.iter, cf)
                if g.is_async:
                    try:
                        x = yield type(it).__anext__(it)
                    except StopAsyncIteration:
                        return
                else:
                    try:
                        x = next(it)
                    except StopIteration:
                        return
                self.p_assign(g.target, x, cf)
                ok = True
                for c in g.ifs:
                    r = yield from self.g_eval(c, cf)
                    if not self.truth(r):
                        ok = False
                        break
                if ok:
                    if i + 1 < len(n.generators):
                        yield from walk(i + 1)
                    else:
                        yield from elt(cf)
        yield from walk(0)

    def a_ListComp(self, n, f):
        out = []

        def elt(cf):
            out.append((yield from self.g_eval(n.elt, cf)))
        yield from self.a_comp(n, f, elt)
        return out

    def a_SetComp(self, n, f):
        return set((yield from self.a_ListComp(n, f)))

    def a_DictComp(self, n, f):
        out = {}

        def elt(cf):
            k = yield from self.g_eval(n.key, cf)
            out[k] = yield from self.g_eval(n.value, cf)
        yield from self.a_comp(n, f, elt)
        return out

    # ------------------------------------------------------------ expressions
    def g_eval_BoolOp(self, n, f):
        is_and = isinstance(n.op, ast.And)
        v = None
        last = n.values[-1]
        for e in n.values:
            v = yield from self.g_eval(e, f)
            if type(v) is Sym and not is_and and e is n.values[-2] and isinstance(last, ast.Constant) and \
                    type(last.value) is int and last.value == 0:
                return v            # x or 0 is x
            if self.truth(v) != is_and:
                return v
        return v

    def g_eval_NamedExpr(self, n, f):
        v = yield from self.g_eval(n.value, f)
        self.store_name(n.target.id, v, f)
        return v

    def binop(self, op, opnode, a, b):
        if isinstance(opnode, ast.Mod) and type(a) is str:
            return self.str_mod(a, b)
        return op(a, b)

    def str_mod(self, a, b):
        def conv(x):
            return x
        if isinstance(b, tuple):
            vals = list(b)
        elif isinstance(b, dict):
            if any(isinstance(x, Sym) for x in b.values()):
                a2 = re.sub(r"%\((\w+)\)[-#0 +]*\d*[di]", r"%(\1)s", a)
                return a2 % b
            return a % b
        else:
            vals = [b]
        if not any(isinstance(x, (Sym, domain.AFloat)) for x in vals):
            return a % b
        i = [0]

        def sub(m):
            if m.group(0) == "%%":
                return m.group(0)
            k = i[0]
            i[0] += 1
            if k < len(vals) and isinstance(vals[k], (Sym, domain.AFloat)) and m.group(1) in "diufgeFGE":
                return "%s"
            return m.group(0)
        a2 = re.sub(r"%(?:%|[-#0 +]*\d*(?:\.\d+)?[hlL]?([a-zA-Z]))", sub, a)
        return a2 % tuple(vals)

    def g_eval_BinOp(self, n, f):
        a = yield from self.g_eval(n.left, f)
        b = yield from self.g_eval(n.right, f)
        return self.binop(BINOPS[type(n.op)], n.op, a, b)

    def g_eval_UnaryOp(self, n, f):
        a = yield from self.g_eval(n.operand, f)
        if isinstance(n.op, ast.Not):
            return not self.truth(a)
        return UNOPS[type(n.op)](a)

    def g_eval_IfExp(self, n, f):
        c = yield from self.g_eval(n.test, f)
        if self.truth(c):
            return (yield from self.g_eval(n.body, f))
        return (yield from self.g_eval(n.orelse, f))

    def g_eval_Compare(self, n, f):
        a = yield from self.g_eval(n.left, f)
        r = True
        last = len(n.ops) - 1
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = yield from self.g_eval(c, f)
            r = CMPOPS[type(op)](a, b)
            if i < last and not self.truth(r):
                return r
            a = b
        return r

    def g_eval_Call(self, n, f):
        fn = yield from self.g_eval(n.func, f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = yield from self.g_eval(a.value, f)
                args.extend(v)
            else:
                v = yield from self.g_eval(a, f)
                args.append(v)
        kw = {}
        for k in n.keywords:
            v = yield from self.g_eval(k.value, f)
            if k.arg is None:
                for kk in v.keys():
                    if kk in kw:
                        raise TypeError("got multiple values for keyword argument '%s'" % kk)
                    if not isinstance(kk, str):
                        raise TypeError("keywords must be strings")
                    kw[kk] = v[kk]
            else:
                if k.arg in kw:
                    raise TypeError("got multiple values for keyword argument '%s'" % k.arg)
                kw[k.arg] = v
        if type(fn) is type and fn in self.call_redirect:
            fn = self.call_redirect[fn]
        elif getattr(fn, "_k_frame", False):
            return fn(self, f, *args, **kw)
        loc = self.loc
        r = fn(*args, **kw)
        self.loc = loc
        return r

    def g_eval_Attribute(self, n, f):
        o = yield from self.g_eval(n.value, f)
        return self.getattr(o, n.attr, f)

    def g_eval_Subscript(self, n, f):
        o = yield from self.g_eval(n.value, f)
        k = yield from self.g_eval(n.slice, f)
        if isinstance(k, slice) and type(o) in (bytes, bytearray) and (
                isinstance(k.start, Sym) or isinstance(k.stop, Sym)):
            o = WBytes.of(o)
        elif isinstance(k, Sym) and type(o) is bytes:
            o = WBytes.of(o)
        elif type(o) is str and has_token(o):
            if isinstance(k, slice) and k.start is None and k.stop is None and k.step is None:
                return o
            return domain.slice_text(o, k)
        return o[k]

    def g_eval_Slice(self, n, f):
        a = b = c = None
        if n.lower is not None:
            a = yield from self.g_eval(n.lower, f)
        if n.upper is not None:
            b = yield from self.g_eval(n.upper, f)
        if n.step is not None:
            c = yield from self.g_eval(n.step, f)
        return slice(a, b, c)

    def g_eval_Tuple(self, n, f):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = yield from self.g_eval(e.value, f)
                out.extend(v)
            else:
                v = yield from self.g_eval(e, f)
                out.append(v)
        return tuple(out)

    def g_eval_List(self, n, f):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = yield from self.g_eval(e.value, f)
                out.extend(v)
            else:
                v = yield from self.g_eval(e, f)
                out.append(v)
        return out

    def g_eval_Set(self, n, f):
        out = set()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = yield from self.g_eval(e.value, f)
                out.update(v)
            else:
                v = yield from self.g_eval(e, f)
                out.add(v)
        return out

    def g_eval_Dict(self, n, f):
        out = {}
        for k, e in zip(n.keys, n.values):
            if k is None:
                v = yield from self.g_eval(e, f)
                out.update(v)
            else:
                kk = yield from self.g_eval(k, f)
                v = yield from self.g_eval(e, f)
                out[kk] = v
        return out

    def g_eval_JoinedStr(self, n, f):
        out = []
        for e in n.values:
            v = yield from self.g_eval(e, f)
            out.append(v)
        return "".join(out)

    def g_eval_FormattedValue(self, n, f):
        v = yield from self.g_eval(n.value, f)
        if n.conversion == ord("r"):
            v = repr(v)
        elif n.conversion == ord("s"):
            v = str(v)
        elif n.conversion == ord("a"):
            v = ascii(v)
        spec = ""
        if n.format_spec is not None:
            spec = yield from self.g_eval(n.format_spec, f)
        return format(v, spec)

    def g_eval_Starred(self, n, f):
        raise Unsupported("starred expression")


def _install():
    src = inspect.getsource(Interp)
    # derive the non-suspending variants from the same text
    keep = []
    lines = src.split("\n")
    i = 0
    cur = None
    for ln in lines:
        m = re.match(r"    def (\w+)\(", ln)
        if m or re.match(r"    \S", ln):
            name = m.group(1) if m else None
            cur = name if name and (name.startswith("g_exec_") or name.startswith("g_eval_") or
                                    name in ("g_block", "g_assign", "g_with", "g_try_inner")) else None
            if cur in ("g_exec_AsyncWith", "g_exec_AsyncFor"):
                cur = None
        if cur:
            keep.append(ln)
    text = "\n".join(keep)
    text = re.sub(r"yield from self\.g_", "self.p_", text)
    text = re.sub(r"def g_", "def p_", text)
    ns = {}
    exec(compile("class P(object):\n" + text, "<derived p_ variants>", "exec"), globals(), ns)
    P = ns["P"]
    for k, v in vars(P).items():
        if k.startswith("p_"):
            setattr(Interp, k, v)
    # generator-style leaf methods without any suspension inside would not be generators
    Interp._px, Interp._gx, Interp._pe, Interp._ge = {}, {}, {}, {}
    for k in dir(Interp):
        if k.startswith("x_"):
            Interp._px[getattr(ast, k[2:])] = getattr(Interp, k)
        elif k.startswith("p_exec_"):
            Interp._px[getattr(ast, k[7:])] = getattr(Interp, k)
        elif k.startswith("g_exec_"):
            Interp._gx[getattr(ast, k[7:])] = getattr(Interp, k)
        elif k.startswith("e_"):
            Interp._pe[getattr(ast, k[2:])] = getattr(Interp, k)
        elif k.startswith("p_eval_"):
            Interp._pe[getattr(ast, k[7:])] = getattr(Interp, k)
        elif k.startswith("g_eval_"):
            Interp._ge[getattr(ast, k[7:])] = getattr(Interp, k)

    def g_yield(self, n, f):
        v = None
        if n.value is not None:
            v = yield from self.g_eval(n.value, f)
        loc = self.loc
        self.yield_site = (f.globals.get("__file__"), n.lineno, f.fn.__qualname__ if f.fn else "?")
        if f.fn is not None and f.fn.scope.is_async:
            v = self.loop_mod.Yielded(v)
        r = yield v
        self.loc = loc
        return r

    def g_await(self, n, f):
        v = yield from self.g_eval(n.value, f)
        loc = self.loc
        self.yield_site = (f.globals.get("__file__"), n.lineno, f.fn.__qualname__ if f.fn else "?")
        r = yield v
        self.loc = loc
        return r

    def g_yf(self, n, f):
        v = yield from self.g_eval(n.value, f)
        r = yield from v
        return r
    Interp._ge[ast.ListComp] = Interp.a_ListComp
    Interp._ge[ast.SetComp] = Interp.a_SetComp
    Interp._ge[ast.DictComp] = Interp.a_DictComp
    Interp._ge[ast.Yield] = g_yield
    Interp._ge[ast.Await] = g_await
    Interp._ge[ast.YieldFrom] = g_yf


_install()
