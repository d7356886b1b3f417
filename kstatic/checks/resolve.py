"""C44: every name, attribute, call and message format of the package resolves

Error paths are the code nothing runs until it is needed.  Each reference of every function is resolved against the
package's own definitions, the builtins, the standard library and the sources of the installed libraries; what cannot
be resolved exactly is not judged."""
import ast
import builtins
import importlib
import os
import re
import string
import symtable
import sys
import types

from . import check
from .wire import analysis
from .structure import Program, dotted, own
from .kinds import Kinds
from .. import core
from ..scn import mod

VENV = "/opt/venv"
LEVELS = {"debug", "info", "warn", "warning", "error", "exception", "critical", "fatal"}


def library(name):
    """source text of an installed library, all its files"""
    out = []
    for base, dirs, files in os.walk(VENV):
        if os.path.basename(base) != "site-packages":
            continue
        for cand in (os.path.join(base, name), os.path.join(base, name + ".py")):
            if os.path.isfile(cand):
                out.append(open(cand, errors="replace").read())
            elif os.path.isdir(cand):
                for d, _, fs in os.walk(cand):
                    out += [open(os.path.join(d, f), errors="replace").read() for f in fs if f.endswith((".py", ".pyi"))]
        dirs[:] = []
    return "\n".join(out)


def host_names():
    """attribute names the types of the language and of its library have"""
    import asyncio
    import collections
    import datetime
    import io
    import logging
    import random
    import socket
    import struct
    import threading
    kinds = [v for v in vars(builtins).values() if isinstance(v, type)]
    for m in (types, collections, datetime, io, logging, random, socket, struct, threading, asyncio):
        kinds += [v for v in vars(m).values() if isinstance(v, type)]
    out = set()
    for k in kinds:
        out |= set(dir(k))
    out |= {"args", "errno", "strerror", "filename", "__name__", "__file__", "__doc__", "__dict__", "tm_year"}
    return out


class Resolver(object):
    def __init__(self, rep):
        self.rep = rep
        self.an = analysis(rep)
        self.prog = Program(core.REPO)
        self.kinds = Kinds(self.prog)
        self.n = {}
        self.libs = {}
        self.universe = self.names()
        # attributes that are set on other objects
        self.foreign = {n.attr for _, tree in self.prog.mods.values() for n in ast.walk(tree)
                        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load) and
                        not (isinstance(n.value, ast.Name) and n.value.id == "self")}

    # -- what exists
    def top(self, m):
        """names module m has"""
        out = set()
        path, tree = self.prog.mods[m]
        t = symtable.symtable(open(path).read(), path, "exec")
        out |= {s.get_name() for s in t.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                return None
        out |= {x[len(m) + 1:].split(".")[0] for x in self.prog.mods if x.startswith(m + ".")}
        k = self.an.ip.modules.get(m)
        if k is not None:
            out |= set(vars(k))
        return out | {"__name__", "__file__", "__doc__", "__path__", "__package__", "__dict__"}

    def lib(self, name):
        head = name.split(".")[0]
        if head not in self.libs:
            self.libs[head] = set(re.findall(r"\b[A-Za-z_]\w*\b", library(head)))
        return self.libs[head]

    def names(self):
        out = host_names()
        for m, (path, tree) in self.prog.mods.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    out.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    out.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200:
                    out |= set(n.value.replace(",", " ").split())       # namedtuple fields
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
            for full in self.prog.imports[m].values():
                head = full.split(".")[0]
                if head in sys.stdlib_module_names:
                    out |= self.std(full)
                elif head != "kiel":
                    out |= self.lib(full)
            out |= self.top(m) or set()
        return out

    def std(self, full):
        out = set()
        for name in (full, full.rpartition(".")[0]):
            try:
                m = importlib.import_module(name)
            except Exception:
                continue
            out |= set(dir(m))
            for v in vars(m).values():
                if isinstance(v, type):
                    out |= set(dir(v))
        return out

    def module_of(self, full):
        """-> (kind, names) of the module a dotted name stands for, or None"""
        head = full.split(".")[0]
        if head == "kiel":
            parent, _, leaf = full.rpartition(".")
            o = getattr(self.an.ip.modules.get(parent), leaf, None) if parent else None
            if o is not None and not isinstance(o, types.ModuleType) and not isinstance(o, type) \
                    and full not in self.an.ip.modules:
                return None
            if o is not None and o is not self.an.ip.modules.get(full):
                # the package has something else by the name of its module
                return ("package", set(dir(o))) if hasattr(o, "__dict__") and type(o).__module__ != "builtins" else None
            if full in self.prog.mods:
                t = self.top(full)
                return t and ("package", t)
            return None
        if head in sys.stdlib_module_names:
            try:
                return ("library", set(dir(importlib.import_module(full))))
            except Exception:
                return None
        if head == "six":
            return None
        ns = self.lib(full)
        return ("installed", ns) if ns else None

    # -- reporting
    def bad(self, path, node, qual, what):
        self.rep.violations.append({
            "scenario": "every reference", "what": "%s: %s" % (qual, what),
            "where": "%s:%d (%s)" % (os.path.relpath(path, core.REPO), node.lineno, qual), "detail": None,
            "decisions": [], "events": [], "call_path": []})

    def ok(self, rule):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.rep.oblig += 1

    # -- rules
    def run(self):
        for m, (path, tree) in sorted(self.prog.mods.items()):
            self.m, self.path = m, path
            self.globals(m, path, tree)
            self.froms(m, path, tree)
            self.walk(tree, m)

    def globals(self, m, path, tree):
        have = self.top(m)
        if have is None:
            return
        have = have | set(dir(builtins))
        guarded = {x.id for t in ast.walk(tree) if isinstance(t, ast.Try) and any(
            h.type is not None and "NameError" in ast.unparse(h.type) for h in t.handlers)
            for b in t.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        lines = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Name):
                lines.setdefault(n.id, n)

        def scope(t):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == "module"):
                    self.ok("names")
                    if s.get_name() not in have and s.get_name() not in guarded:
                        self.bad(path, lines.get(s.get_name(), tree.body[0]), m if t.get_type() == "module" else
                                 "%s.%s" % (m, t.get_name()), "the name %s is defined nowhere" % s.get_name())
            for c in t.get_children():
                scope(c)
        scope(symtable.symtable(open(path).read(), path, "exec"))

    def froms(self, m, path, tree):
        pkg = m if path.endswith("__init__.py") else m.rpartition(".")[0]
        optional = {id(x) for t in ast.walk(tree) if isinstance(t, ast.Try) for x in ast.walk(t)}
        for n in ast.walk(tree):
            if not isinstance(n, ast.ImportFrom) or id(n) in optional:
                continue
            base = n.module or ""
            if n.level:
                up = pkg.split(".")
                base = ".".join(up[:len(up) - n.level + 1] + ([n.module] if n.module else []))
            if base.split(".")[0] != "kiel":
                continue
            if base not in self.prog.mods:
                self.bad(path, n, m, "the module %s does not exist" % base)
                continue
            t = self.top(base)
            for a in n.names:
                self.ok("imports")
                if t is not None and a.name != "*" and a.name not in t:
                    self.bad(path, n, m, "%s has no %s" % (base, a.name))

    def local_names(self, stack):
        out = set()
        for f in stack:
            a = f.args
            out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            if not isinstance(f, ast.Lambda):
                for n in own(f):
                    if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                        out.add(n.id)
                    elif isinstance(n, ast.ExceptHandler) and n.name:
                        out.add(n.name)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        return out

    def walk(self, tree, m):
        imports = self.prog.imports[m]
        fns = {id(f.node): f for f in self.prog.fns if f.modname == m}

        other = re.compile(r"PY2|PY3|version_info|TYPE_CHECKING|hexversion")

        def go(node, stack, fn):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.If, ast.IfExp)) and other.search(ast.unparse(ch.test)):
                    continue            # code for other versions of the language
                if isinstance(ch, ast.Try) and any(h.type is not None and re.search(
                        "AttributeError|ImportError|NameError|ModuleNotFound", ast.unparse(h.type)) for h in ch.handlers):
                    for b in ch.handlers + ch.orelse + ch.finalbody:
                        go(b, stack, fn)
                    continue
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    go(ch, stack + [ch], fns.get(id(ch), fn))
                    continue
                if isinstance(ch, ast.Lambda):
                    go(ch, stack + [ch], fn)
                    continue
                qual = fn.qual if fn is not None else m
                if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Load):
                    self.attribute(ch, qual, imports, stack, fn)
                if isinstance(ch, ast.Call):
                    self.call(ch, qual, stack, fn)
                if isinstance(ch, ast.BinOp) and isinstance(ch.op, ast.Mod):
                    self.percent(ch, qual)
                go(ch, stack, fn)
        go(tree, [], None)

    def attribute(self, n, qual, imports, stack, fn):
        self.ok("attributes")
        d = dotted(n.value)
        head = d.split(".")[0]
        shadow = self.local_names(stack)
        if "?" not in d and head in imports and head not in shadow:
            full = imports[head] + d[len(head):]
            got = self.module_of(full)
            if got is not None:
                self.ok("module attributes")
                if n.attr not in got[1]:
                    self.bad(self.path, n, qual, "%s has no attribute %s" % (full, n.attr))
                return
        if fn is not None and isinstance(n.value, ast.Name) and n.value.id == self.prog.selfname(fn) \
                and getattr(fn, "cls_of", None) is not None:
            have = self.members(fn.cls_of)
            if have is not None:
                self.ok("own attributes")
                if n.attr not in have:
                    self.bad(self.path, n, qual, "%s has no attribute %s" % (fn.cls_of.name, n.attr))
                return
        if fn is not None and not stack_lambda(stack):
            t = self.kinds.of(n.value, fn)
            have = self.members(t[1]) if t and t[0] == "i" else None
            if have is not None:
                self.ok("attributes of other objects")
                if n.attr not in have:
                    self.bad(self.path, n, qual, "%s has no attribute %s" % (t[1].name, n.attr))
                return
        if n.attr not in self.universe:
            self.bad(self.path, n, qual, "nothing has an attribute %s" % n.attr)

    def members(self, cls):
        """attributes of a class of the package and its subclasses; None if they are not known"""
        out = set(dir(object)) | self.foreign
        for k in cls.mro() + cls.below() + [b for s in cls.below() for b in s.mro()]:
            for b in k.node.bases:
                if self.prog.resolve_class(k.modname, b) is None and dotted(b) != "object":
                    x = getattr(builtins, dotted(b), None)
                    if x is None:
                        return None
                    out |= set(dir(x))
            for n in ast.walk(k.node):
                if isinstance(n, ast.Call) and dotted(n.func) in ("setattr", "vars") or \
                        isinstance(n, ast.Attribute) and n.attr == "__dict__" or \
                        isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__") or \
                        isinstance(n, ast.keyword) and n.arg == "metaclass" or k.node.decorator_list:
                    return None
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    out.add(n.attr)
            for n in k.node.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                        out.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        out.add(x.name)
        return out

    def call(self, n, qual, stack, fn):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in LEVELS and isinstance(f.value, ast.Name) and n.args \
                and f.value.id in ("log", "logger", "LOG"):
            self.message(n, qual)
        targets = []
        shadow = self.local_names(stack)
        d = dotted(f)
        if fn is not None and isinstance(f, ast.Attribute) and not stack_lambda(stack) and dotted(f.value) != self.prog.selfname(fn):
            t = self.kinds.of(f.value, fn)
            if t and t[0] == "i":
                for g in self.prog.find([t[1]] + t[1].below(), f.attr):
                    self.arity(n, qual, g, 1)
                return
        if "?" in d:
            return
        head = d.split(".")[0]
        if fn is not None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id == self.prog.selfname(fn) and getattr(fn, "cls_of", None) is not None:
            found = self.prog.find([fn.cls_of] + fn.cls_of.below(), f.attr)
            targets = [(g, 1) for g in found]
        elif head not in shadow:
            g = self.prog.resolve_function(self.m, d)
            c = self.prog.resolve_class(self.m, f)
            if g is not None:
                targets = [(g, 0)]
            elif c is not None:
                found = self.prog.find([c], "__init__")
                if any(self.prog.resolve_class(k.modname, b) is None and dotted(b) != "object" for k in c.mro()
                       for b in k.node.bases) and not found:
                    return
                if self.members(c) is None and not found:
                    return
                targets = [(g, 1) for g in found]
        for g, skip in targets:
            self.arity(n, qual, g, skip)

    def arity(self, n, qual, g, skip):
        if any(dotted(x if not isinstance(x, ast.Call) else x.func).split(".")[-1] not in
               ("coroutine", "engine", "staticmethod") for x in g.node.decorator_list):
            return
        if any(dotted(x) == "staticmethod" for x in g.node.decorator_list):
            skip = 0
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        self.ok("calls")
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][skip:]
        kwo = [x.arg for x in a.kwonlyargs]
        need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        need += [k for k, v in zip(kwo, a.kw_defaults) if v is None]
        if len(n.args) > len(pos) and a.vararg is None:
            self.bad(self.path, n, qual, "%s is called with %d positional arguments, it takes %d" % (
                g.qual, len(n.args), len(pos)))
        given = set(pos[:len(n.args)])
        for k in n.keywords:
            if k.arg not in pos + kwo and a.kwarg is None:
                self.bad(self.path, n, qual, "%s has no parameter %s" % (g.qual, k.arg))
            elif k.arg in given:
                self.bad(self.path, n, qual, "%s gets the parameter %s twice" % (g.qual, k.arg))
            given.add(k.arg)
        for x in need:
            if x not in given:
                self.bad(self.path, n, qual, "%s is called without its parameter %s" % (g.qual, x))

    def message(self, n, qual):
        fmt = const(n.args[0])
        if fmt is None or any(isinstance(x, ast.Starred) for x in n.args):
            return
        self.ok("log messages")
        if len(n.args) == 1 and not n.keywords:
            # without arguments the text is not formatted
            if re.search(r"(?<!%)%(\(\w+\))?[sdr]\b", fmt):
                self.bad(self.path, n, qual, "the log message %r lacks its arguments" % fmt)
            return
        k = places(fmt)
        if k is None:
            self.bad(self.path, n, qual, "the log message %r is no valid format" % fmt)
        elif isinstance(k, int) and k != len(n.args) - 1:
            self.bad(self.path, n, qual, "the log message %r has %d places for %d arguments" % (fmt, k, len(n.args) - 1))

    def percent(self, n, qual):
        fmt = const(n.left)
        if fmt is None:
            return
        k = places(fmt)
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in n.right.elts):
                return
            self.ok("formats")
            if k is None or isinstance(k, int) and k != len(n.right.elts):
                self.bad(self.path, n, qual, "the format %r has %s places for %d values" % (fmt, k, len(n.right.elts)))
        elif isinstance(n.right, (ast.Constant, ast.Attribute, ast.Subscript, ast.Call)):
            self.ok("formats")
            if k == 0 or k is None:
                self.bad(self.path, n, qual, "the format %r has no place for its value" % fmt)


def stack_lambda(stack):
    return any(isinstance(x, ast.Lambda) for x in stack)


def const(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = const(n.left), const(n.right)
        return None if a is None or b is None else a + b
    return None


def places(fmt):
    """number of values a %-format takes; 'names' for mappings; None if it is no format"""
    n, i = 0, 0
    while i < len(fmt):
        if fmt[i] != "%":
            i += 1
            continue
        m = re.compile(r"%(\(\w*\))?[#0\- +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])").match(fmt, i)
        if m is None:
            return None
        if m.group(1):
            return "names"
        if m.group(5) != "%":
            n += 1
        n += (m.group(2) == "*") + (m.group(4) == "*")
        i = m.end()
    return n


@check("C44", "name, attribute, call-signature and format resolution of every reference in the package (scope tables, class hierarchy, module interfaces)",
       "Every name, imported attribute, own attribute, call of a function or class of the package and every log or %-format. "
       "References whose target cannot be resolved exactly are only required to name something that exists anywhere.", 1200)
def c44(rep, tier):
    if core.SHARD and core.SHARD[0]:
        return                      # one pass decides all of it
    r = Resolver(rep)
    r.run()
    rep.rules.append("resolved: " + ", ".join("%d %s" % (v, k) for k, v in sorted(r.n.items())))
    rep.scen["every reference"] = {"paths": 0, "obligations": sum(r.n.values()), "pruned": 0}
    rep.funcs = sorted(f.qual for f in r.prog.fns)
