"""Abstract value domain.

* ``Sym``      opaque integer (any value of an interval), linear expressions over opaque integers
* text tokens  opaque text: a native str holding a private-use marker per opaque piece
* ``WBytes``   abstract byte strings: a sequence of chunks (integer field of a given width / constant
               bytes / opaque bytes of a known or opaque length)

All questions the analysed code asks about an abstract value go through ``CTX.decide``: if the
interval domain settles the question the answer is unique, otherwise the analysis continues
separately under both answers (trace partitioning).
"""
import struct as _struct


class EngineSignal(BaseException):
    """never visible to analysed code"""


class Unsupported(EngineSignal):
    """the analyser cannot interpret this construct: analysis-broken, not a verdict"""


class Prune(EngineSignal):
    """this branch is infeasible / out of the scope of the scenario"""


class Budget(EngineSignal):
    """a path exceeded its step budget"""


class PathStop(EngineSignal):
    """driver ends the path early"""


class Ctx(object):
    cur = None


def ctx():
    if Ctx.cur is None:
        raise Unsupported("abstract question outside a path")
    return Ctx.cur


# ---------------------------------------------------------------- integers

def _beyond(o, like, n):
    """an attribute the real type has and the abstraction does not: nothing is decided about it"""
    if hasattr(like, n) and not (n.startswith("__") and n.endswith("__")):
        raise Unsupported("%s.%s of an abstract value" % (like.__name__, n))
    raise AttributeError("'%s' object has no attribute '%s'" % (like.__name__, n))


def _no_op(like, n):
    def f(self, *a):
        raise Unsupported("%s.%s of an abstract value" % (like.__name__, n))
    f.__name__ = n
    return f


def beyond(cls, like, names):
    """operators of the real type which the abstraction has no meaning for"""
    for n in names.split():
        n = "__%s__" % n
        if n not in vars(cls):
            setattr(cls, n, _no_op(like, n))


class Sym(object):
    """linear integer expression: const + sum(coef*atom); atoms carry bounds in the path context"""
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = terms      # tuple of (atomname, coef) sorted

    @staticmethod
    def atom(name, lo=None, hi=None):
        ctx().bounds.setdefault(name, (lo, hi))
        return Sym(0, ((name, 1),))

    def __getattr__(self, n):
        if n in ("const", "terms"):
            raise AttributeError(n)
        if n in ("real", "numerator"):
            return self
        if n in ("imag", "denominator"):
            return int(n == "denominator")
        return _beyond(self, int, n)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if not isinstance(length, int) or length not in (1, 2, 4, 8):
            raise Unsupported("int.to_bytes of that width")
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if self < lo or self > hi:
            raise OverflowError("int too big to convert")
        return WBytes([("n", length, signed, ">" if byteorder == "big" else "<", self)]).norm()

    @staticmethod
    def make(const, d):
        t = tuple(sorted((k, v) for k, v in d.items() if v))
        if not t:
            return const
        return Sym(const, t)

    # -- structure
    def key(self):
        return (self.const, self.terms)

    def __hash__(self):
        return hash((self.const, self.terms))

    def bounds(self):
        lo = hi = self.const
        b = ctx().bounds
        for name, co in self.terms:
            l, h = b.get(name, (None, None))
            if co < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + co * l
            hi = None if hi is None or h is None else hi + co * h
        return lo, hi

    def __repr__(self):
        s = "+".join(("%s" % n) if c == 1 else "%d*%s" % (c, n) for n, c in self.terms)
        if self.const:
            s += "%+d" % self.const
        return "<%s>" % s

    def __str__(self):
        return int_token(self)

    def __format__(self, spec):
        return int_token(self)

    # -- arithmetic
    def _lin(self, o, sign):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return Sym(self.const + sign * o, self.terms)
        if isinstance(o, Sym):
            d = dict(self.terms)
            for n, c in o.terms:
                d[n] = d.get(n, 0) + sign * c
            return Sym.make(self.const + sign * o.const, d)
        if isinstance(o, float):
            raise Unsupported("float arithmetic on opaque integer")
        return NotImplemented

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        r = self.__neg__()
        return r + o

    def __neg__(self):
        return Sym(-self.const, tuple((n, -c) for n, c in self.terms))

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            return Sym(self.const * o, tuple((n, c * o) for n, c in self.terms))
        if isinstance(o, Sym):
            return self._op("mul", o)
        if isinstance(o, float):
            return self._op("fmul", o)
        return NotImplemented
    __rmul__ = __mul__

    def _op(self, name, *args):
        """uninterpreted integer function"""
        nm = "%s(%s)" % (name, ",".join(repr(a) for a in (self,) + args))
        return Sym.atom(nm)

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            lo, hi = self.bounds()
            if lo is not None and hi is not None and lo >= 0 and hi <= o:
                return self
            if o == 0:
                return 0
            # low bits of self
            if len(self.terms) == 1 and self.terms[0][1] == 1 and not self.const:
                a = ctx().aliases.get(self.terms[0][0])
                if a is not None and a[0] == o:
                    return a[1]
            r = self._op("and", o)
            ctx().bounds[r.terms[0][0]] = (0, o)
            # x == (x & mask) modulo mask+1: remember the congruence
            ctx().congruent.setdefault(r.terms[0][0], (self, o + 1))
            return r
        if isinstance(o, int) and o >= 0:
            r = self._op("and", o)
            ctx().bounds[r.terms[0][0]] = (0, o)
            return r
        return self._op("and", o)
    __rand__ = __and__

    def __or__(self, o):
        return self._op("or", o)
    __ror__ = __or__

    def __xor__(self, o):
        return self._op("xor", o)
    __rxor__ = __xor__

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            lo, hi = self.bounds()
            if lo is not None and hi is not None and lo >= 0 and hi < o:
                return self
            r = self._op("mod", o)
            ctx().bounds[r.terms[0][0]] = (0, o - 1)
            return r
        return self._op("mod", o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return self._op("rmod", o)

    def __floordiv__(self, o):
        if o == 1 and isinstance(o, int):
            return self
        r = self._op("floordiv", o)
        if isinstance(o, int) and o > 0:
            lo, hi = self.bounds()
            ctx().bounds[r.terms[0][0]] = (None if lo is None else lo // o, None if hi is None else hi // o)
        return r

    def trunc_div(self, o):
        """int(self / o) for an integer o > 0"""
        lo, hi = self.bounds()
        if o == 1 or (lo is not None and lo >= 0):
            return self // o
        r = self._op("truncdiv", o)
        ctx().bounds[r.terms[0][0]] = (None if lo is None else -((-lo) // o) if lo < 0 else lo // o,
                                       None if hi is None else -((-hi) // o) if hi < 0 else hi // o)
        return r

    def __rfloordiv__(self, o):
        return self._op("rfloordiv", o)

    def __truediv__(self, o):
        r = AFloat("truediv(%r,%r)" % (self, o))
        if type(o) is int and o > 0:
            r.quotient = (self, o)
        return r

    def __rtruediv__(self, o):
        return AFloat("rtruediv(%r,%r)" % (self, o))

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self._op("lshift", o)

    def __rlshift__(self, o):
        return self._op("rlshift", o)

    def __rshift__(self, o):
        return self._op("rshift", o)

    def __rrshift__(self, o):
        return self._op("rrshift", o)

    def __pow__(self, o):
        return self._op("pow", o)

    def __rpow__(self, o):
        return self._op("rpow", o)

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return self if self >= 0 else -self

    def __int__(self):
        raise Unsupported("native int() of opaque integer")

    def __index__(self):
        lo, hi = self.bounds()
        if lo is not None and lo == hi:
            return lo
        raise Unsupported("opaque integer %r used where a concrete one is needed" % (self,))

    def __round__(self, n=None):
        return self

    # -- questions
    def _cmp(self, o, op):
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, float):
            o2 = int(o)
            if o2 != o:
                raise Unsupported("float comparison")
            o = o2
        if not isinstance(o, (int, Sym)):
            return NotImplemented
        d = self - o
        if isinstance(d, int):
            return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
        return ctx().decide_lin(d, op)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        r = self._cmp(o, "le")
        return r if r is NotImplemented else not r

    def __ge__(self, o):
        r = self._cmp(o, "lt")
        return r if r is NotImplemented else not r

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return not self._cmp(0, "eq")


FLOATS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "rsub": lambda a, b: b - a, "mul": lambda a, b: a * b}


class AFloat(object):
    """opaque float"""

    def __getattr__(self, n):
        if n == "real":
            return self
        return _beyond(self, float, n)

    quotient = None              # (integer, positive integer) it is the quotient of

    def __init__(self, name, val=None):
        self.name = name
        self.val = val           # its value where that is known (of the clock)

    def __repr__(self):
        return "<float %s>" % self.name

    def _mk(op):
        def f(self, o):
            if isinstance(o, (int, float, Sym, AFloat)):
                v = None
                b = o.val if isinstance(o, AFloat) else o if isinstance(o, (int, float)) else None
                if self.val is not None and b is not None and op in FLOATS:
                    v = FLOATS[op](self.val, b)
                return AFloat("%s(%s,%r)" % (op, self.name, o), v)
            return NotImplemented
        return f
    __add__ = __radd__ = _mk("add")
    __sub__ = _mk("sub")
    __rsub__ = _mk("rsub")
    __mul__ = __rmul__ = _mk("mul")
    __truediv__ = _mk("div")
    __rtruediv__ = _mk("rdiv")
    __floordiv__ = _mk("fdiv")
    __mod__ = _mk("mod")

    def __neg__(self):
        return AFloat("neg(%s)" % self.name)

    def __round__(self, n=None):
        if n is None and self.val is not None:
            return round(self.val)
        return Sym.atom("round(%s)" % self.name) if n is None else self

    def __lt__(self, o):
        return ctx().decide(("flt", "lt", self.name, repr(o)))

    def __gt__(self, o):
        return ctx().decide(("flt", "gt", self.name, repr(o)))

    def __le__(self, o):
        return ctx().decide(("flt", "le", self.name, repr(o)))

    def __ge__(self, o):
        return ctx().decide(("flt", "ge", self.name, repr(o)))

    def __eq__(self, o):
        if isinstance(o, AFloat):
            return o.name == self.name
        return False

    def __hash__(self):
        return hash(self.name)

    def __bool__(self):
        return ctx().decide(("flt", "bool", self.name))

    def __int__(self):
        raise Unsupported("native int() of opaque float")


# ---------------------------------------------------------------- text

TOK0, TOK1 = "\ue000", "\ue001"     # private-use delimiters
_INT = "i"
_STR = "s"


def int_token(sym):
    c = ctx()
    c.tokens.setdefault(repr(sym), sym)
    return TOK0 + _INT + repr(sym) + TOK1


def opaque_text(name, maxlen=32767):
    """an arbitrary unicode string; its UTF-8 encoding has an opaque length in [0, maxlen]"""
    return TOK0 + _STR + name + "#%d" % maxlen + TOK1


def has_token(s):
    return TOK0 in s


def split_tokens(s):
    """-> list of native str | ('i', Sym) | ('s', name, maxlen)"""
    out = []
    pos = 0
    while True:
        i = s.find(TOK0, pos)
        if i < 0:
            if pos < len(s):
                out.append(s[pos:])
            return out
        if i > pos:
            out.append(s[pos:i])
        j = s.find(TOK1, i)
        if j < 0:
            raise Unsupported("opaque text was cut in pieces")
        body = s[i + 1:j]
        if body[0] == _INT:
            out.append((_INT, ctx().tokens[body[1:]]))
        else:
            name, _, mx = body[1:].rpartition("#")
            out.append((_STR, name, int(mx)))
        pos = j + 1


def slice_text(s, k):
    try:
        return _slice_text(s, k)
    except Unsupported:
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise
    if k.start in (None, 0) and type(k.stop) is Sym and k.stop == text_len(s):
        return s
    # some part of it: a text nobody else has
    return opaque_text("cut(%r,%r,%r)" % (s.replace(TOK0, "<").replace(TOK1, ">"), k.start, k.stop), 2 ** 31 - 1)


def _slice_text(s, k):
    """o[k] where the cut positions fall into the known characters of a text"""
    parts = split_tokens(s)
    if isinstance(k, slice):
        if k.step not in (None, 1):
            raise Unsupported("indexing of opaque text")
        head = parts[0] if isinstance(parts[0], str) else ""
        tail = parts[-1] if isinstance(parts[-1], str) else ""
        a, b = k.start, k.stop
        i, j = 0, len(s)
        for which, v in (("a", a), ("b", b)):
            if v is None:
                continue
            if not isinstance(v, int):
                raise Unsupported("indexing of opaque text")
            if 0 <= v <= len(head):
                q = v
            elif v < 0 and -v <= len(tail):
                q = len(s) + v
            else:
                raise Unsupported("indexing of opaque text")
            if which == "a":
                i = q
            else:
                j = q
        return s[i:j]
    if isinstance(k, int):
        if 0 <= k and isinstance(parts[0], str) and k < len(parts[0]):
            return s[k]
        if k < 0 and isinstance(parts[-1], str) and -k <= len(parts[-1]):
            return s[k]
    raise Unsupported("indexing of opaque text")


def text_len(s):
    n = 0
    for p in split_tokens(s):
        if isinstance(p, str):
            n = n + len(p)
        else:
            n = n + Sym.atom("chars(%r)" % (p[1],), 0, None)
    return n


def encode_text(s, encoding="utf-8", errors="strict"):
    enc = str(encoding).lower().replace("_", "-")
    if enc not in ("utf-8", "utf8"):
        for p in split_tokens(s):
            if not isinstance(p, str) and p[0] == _STR:
                # an arbitrary text is not encodable in (or not kept by) any other charset
                raise UnicodeEncodeError(enc, "?", 0, 1, "opaque text is not %s" % enc)
    chunks = []
    for p in split_tokens(s):
        if isinstance(p, str):
            chunks.append(("c", p.encode("utf-8", errors)))
        elif p[0] == _STR and errors != "strict":
            # lone surrogates: the bytes stand for another text
            chunks.append(("o", "utf8(%s, %s)" % (p[1], errors), Sym.atom("bytes(%s)" % p[1], 0, p[2]), None))
        elif p[0] == _STR:
            chunks.append(("o", "utf8(%s)" % p[1],
                           Sym.atom("bytes(%s)" % p[1], 0, p[2]), ("text", s_token(p))))
        else:
            chunks.append(("o", "dec(%r)" % (p[1],), Sym.atom("declen(%r)" % (p[1],), 1, 20),
                           ("text", int_token(p[1]))))
    return WBytes(chunks)


def s_token(p):
    return TOK0 + _STR + p[1] + "#%d" % p[2] + TOK1


# ---------------------------------------------------------------- bytes

NUM = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True),
       "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def is_byteslike(x):
    return isinstance(x, (bytes, bytearray, memoryview, WBytes))


class WBytes(object):
    """chunks:
       ('c', bytes)                         constant
       ('n', width, signed, order, value)   integer field; value int or Sym
       ('o', name, length, origin)          opaque bytes, length int or Sym
       ('s', chunk, start, stop)            part of an opaque/number chunk, concrete bounds
    """
    def __init__(self, chunks):
        out = []
        for c in chunks:
            if c[0] == "c":
                if not c[1]:
                    continue
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + c[1])
                    continue
            elif c[0] == "n" and isinstance(c[4], int):
                w, sg, order, v = c[1:]
                raw = v.to_bytes(w, "big" if order == ">" else "little", signed=sg)
                if out and out[-1][0] == "c":
                    out[-1] = ("c", out[-1][1] + raw)
                else:
                    out.append(("c", raw))
                continue
            elif c[0] == "o" and isinstance(c[2], int) and c[2] == 0:
                continue
            elif c[0] == "s":
                if c[2] == c[3]:
                    continue
                if c[2] == 0 and c[3] == chunk_len(c[1]):
                    out.append(c[1])
                    continue
                if out and out[-1][0] == "s" and out[-1][1] == c[1] and out[-1][3] == c[2]:
                    prev = out.pop()
                    if prev[2] == 0 and c[3] == chunk_len(c[1]):
                        out.append(c[1])
                    else:
                        out.append(("s", c[1], prev[2], c[3]))
                    continue
            out.append(c)
        self.chunks = tuple(out)

    @staticmethod
    def of(x):
        if isinstance(x, WBytes):
            return x
        return WBytes([("c", bytes(x))])

    def norm(self):
        """native bytes when wholly constant"""
        if not self.chunks:
            return b""
        if len(self.chunks) == 1 and self.chunks[0][0] == "c":
            return self.chunks[0][1]
        return self

    def key(self):
        return tuple((c[0],) + tuple(x if not isinstance(x, Sym) else x.key() for x in c[1:])
                     for c in self.chunks)

    def __repr__(self):
        return "W[%s]" % " ".join(chunk_repr(c) for c in self.chunks)

    def __hash__(self):
        return hash(tuple(c[:2] for c in self.chunks))

    def length(self):
        n = 0
        for c in self.chunks:
            n = n + chunk_len(c)
        return n

    def __bool__(self):
        n = self.length()
        return bool(n)

    def __add__(self, o):
        if not is_byteslike(o):
            if isinstance(o, str):
                raise TypeError("can't concat str to bytes")
            return NotImplemented
        return WBytes(self.chunks + WBytes.of(o).chunks).norm()

    def __radd__(self, o):
        if not is_byteslike(o):
            if isinstance(o, str):
                raise TypeError('can only concatenate str (not "bytes") to str')
            return NotImplemented
        return WBytes(WBytes.of(o).chunks + self.chunks).norm()

    def __mul__(self, n):
        if isinstance(n, int):
            return WBytes(self.chunks * n).norm()
        return NotImplemented

    def __eq__(self, o):
        if not is_byteslike(o):
            return False
        o = WBytes.of(o)
        if self.chunks == o.chunks:
            return True
        if len(self.chunks) == len(o.chunks) and all(
                a[0] == b[0] and a[0] in "no" and repr(a) == repr(b)
                for a, b in zip(self.chunks, o.chunks)):
            return True
        la, lb = self.length(), o.length()
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        # an opaque byte string may coincide with a constant: both answers are possible
        return ctx().decide(("bytes-eq", repr(self), repr(o)))

    def __ne__(self, o):
        return not self.__eq__(o)

    # ordering of opaque data is not modelled
    def __lt__(self, o):
        raise Unsupported("ordering of opaque bytes")

    def __iter__(self):
        n = self.length()
        if not isinstance(n, int):
            raise Unsupported("iteration over bytes of opaque length")
        for i in range(n):
            yield self[i]

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            if ix.step not in (None, 1):
                raise Unsupported("byte slice with a step")
            n = self.length()
            a = 0 if ix.start is None else ix.start
            b = n if ix.stop is None else ix.stop
            a = self._clamp(a, n)
            b = self._clamp(b, n)
            if b <= a:
                return b""
            return self.cut(a, b)
        n = self.length()
        if ix < 0:
            ix = n + ix
        if ix < 0 or ix >= n:
            raise IndexError("index out of range")
        piece = WBytes.of(self.cut(ix, ix + 1))
        c = piece.chunks[0]
        if c[0] == "c":
            return c[1][0]
        return Sym.atom("byte(%s)" % chunk_repr(c), 0, 255)

    @staticmethod
    def _clamp(v, n):
        if v < 0:
            v = v + n
            if v < 0:
                v = 0
        if v > n:
            v = n
        return v

    def cut(self, a, b):
        """bytes [a, b); 0 <= a <= b <= len"""
        out = []
        pos = 0
        started = False
        for c in self.chunks:
            ln = chunk_len(c)
            end = pos + ln
            if not started:
                if a >= end:
                    pos = end
                    continue
                started = True
                lo = a - pos
                # only concrete or zero offsets inside a chunk
                if isinstance(lo, Sym):
                    if lo == 0:
                        lo = 0
            else:
                lo = 0
            if b <= pos:
                break
            if b >= end:
                hi = ln
            else:
                hi = b - pos
            out.append(sub_chunk(c, lo, hi, ln))
            if b <= end:
                break
            pos = end
        return WBytes(out).norm()

    def decode(self, encoding="utf-8", errors="strict"):
        s = ""
        for c in self.chunks:
            if c[0] == "c":
                s += c[1].decode(encoding, errors)
            elif c[0] == "o" and c[3] is not None and c[3][0] == "text":
                s += c[3][1]
            elif c[0] == "o" and c[3] is not None and c[3][0] == "binary":
                raise UnicodeDecodeError(encoding, b"?", 0, 1, "binary data")
            elif c[0] == "o":
                if encoding.lower().replace("_", "-") in ("utf-8", "utf8", "ascii") and errors == "strict":
                    if not ctx().decide(("is-text", encoding, c[1])):
                        raise UnicodeDecodeError(encoding, b"?", 0, 1, "opaque bytes")
                s += opaque_text("decode(%s)" % c[1])
            else:
                s += opaque_text("decode(%s)" % chunk_repr(c))
        return s

    def tobytes(self):
        return self

    def hex(self):
        return opaque_text("hex(%r)" % (self,))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("bytes.startswith with bounds")
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        n = WBytes.of(p).length()
        ln = self.length()
        if ln < n:
            return False
        return WBytes.of(self.cut(0, n)) == p

    def endswith(self, p, *a):
        if a:
            raise Unsupported("bytes.endswith with bounds")
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        n = WBytes.of(p).length()
        ln = self.length()
        if ln < n:
            return False
        return WBytes.of(self.cut(ln - n, ln)) == p

    def removeprefix(self, p):
        return self[WBytes.of(p).length():] if self.startswith(p) else self

    def __getattr__(self, n):
        return _beyond(self, bytes, n)


beyond(Sym, int, "ceil divmod floor rdivmod trunc float")
beyond(AFloat, float, "abs ceil divmod rdivmod floor pos pow rpow rfloordiv rmod trunc")
beyond(WBytes, bytes, "mod rmod le gt ge")
WBytes.__rmul__ = WBytes.__mul__


def chunk_len(c):
    k = c[0]
    if k == "c":
        return len(c[1])
    if k == "n":
        return c[1]
    if k == "o":
        return c[2]
    return c[3] - c[2]


def chunk_repr(c):
    if c[0] == "c":
        return c[1].hex() if len(c[1]) > 12 else repr(c[1])[1:]
    if c[0] == "n":
        return "%sint%d%s(%r)" % ("" if c[2] else "u", c[1] * 8, "be" if c[3] == ">" else "le", c[4])
    if c[0] == "o":
        return "opaque(%s,len=%r)" % (c[1], c[2])
    return "%s[%r:%r]" % (chunk_repr(c[1]), c[2], c[3])


def sub_chunk(c, lo, hi, ln):
    if isinstance(lo, int) and lo == 0 and (hi is ln or (type(hi) is type(ln) and hi == ln)):
        return c
    if c[0] == "c":
        if isinstance(lo, Sym) or isinstance(hi, Sym):
            return ("s", ("o", "const:%s" % c[1].hex(), len(c[1]), None), lo, hi)
        return ("c", c[1][lo:hi])
    if c[0] == "s":
        return ("s", c[1], c[2] + lo, c[2] + hi)
    return ("s", c, lo, hi)


# ---------------------------------------------------------------- struct

class StructError(_struct.error):
    pass


def parse_fmt(fmt):
    """-> (order, [(count, code)])  counts may be Sym (for 's')"""
    if is_byteslike(fmt):
        fmt = fmt.decode() if not isinstance(fmt, WBytes) else fmt.decode()
    items = split_tokens(fmt)
    order = "@"
    out = []
    count = None
    first = True
    for it in items:
        if not isinstance(it, str):
            if it[0] != _INT or count is not None:
                raise Unsupported("struct format from opaque text")
            count = it[1]
            first = False
            continue
        for ch in it:
            if ch.isspace():
                continue
            if ch in "@=<>!":
                if not first:
                    raise StructError("bad char in struct format")
                order = ch
                first = False
                continue
            first = False
            if ch.isdigit():
                if isinstance(count, Sym):
                    raise Unsupported("struct format")
                count = (count or 0) * 10 + int(ch)
                continue
            if ch == "-" or ch not in "xcbB?hHiIlLqQnNefdspP":
                raise StructError("bad char in struct format")
            out.append((count, ch))
            count = None
    if count is not None:
        if isinstance(count, Sym):
            pass
        raise StructError("repeat count given without format specifier")
    return order, out


def _norm_order(o):
    if o in (">", "!"):
        return ">"
    if o == "<":
        return "<"
    return "<"      # native little-endian


def _native_align(order, codes):
    if order == "@" and len([c for _, c in codes if c not in "sx"]) > 1:
        return True
    return False


def fmt_fields(fmt):
    """expand -> order, list of ('num', code) | ('s', n) | ('x', n)"""
    order, items = parse_fmt(fmt)
    out = []
    for count, ch in items:
        if ch == "s":
            n = 1 if count is None else count
            if isinstance(n, Sym):
                lo, _ = n.bounds()
                if not (n >= 0):
                    raise StructError("bad char in struct format")
            out.append(("s", n))
        elif ch == "x":
            n = 1 if count is None else count
            out.append(("x", n))
        elif ch == "c":
            out.extend([("c", 1)] * (1 if count is None else count))
        elif ch in NUM or ch == "?":
            if ch == "?":
                ch = "B"
            n = 1 if count is None else count
            if isinstance(n, Sym):
                raise Unsupported("opaque repeat count")
            out.extend([("num", ch)] * n)
        else:
            raise Unsupported("struct code %r" % ch)
    if order == "@":
        # native sizes/alignment
        pos = 0
        res = []
        for kind, v in out:
            if kind == "num":
                w = NUM[v][0] if v not in "lL" else 8
                if v in "lL":
                    v = {"l": "q", "L": "Q"}[v]
                if isinstance(pos, Sym):
                    raise Unsupported("native alignment")
                pad = (-pos) % w
                if pad:
                    res.append(("x", pad))
                pos += pad + w
                res.append(("num", v))
            else:
                pos = pos + v
                res.append((kind, v))
        out = res
    return _norm_order(order), out


def calcsize(fmt):
    _, fields = fmt_fields(fmt)
    n = 0
    for kind, v in fields:
        n = n + (NUM[v][0] if kind == "num" else v)
    return n


def pack(fmt, *args):
    order, fields = fmt_fields(fmt)
    need = len([1 for k, _ in fields if k != "x"])
    if need != len(args):
        raise StructError("pack expected %d items for packing (got %d)" % (need, len(args)))
    it = iter(args)
    chunks = []
    for kind, v in fields:
        if kind == "x":
            chunks.append(("c", b"\0" * v))
            continue
        a = next(it)
        if kind == "num":
            w, signed = NUM[v]
            if isinstance(a, bool):
                a = int(a)
            if not isinstance(a, (int, Sym)):
                raise StructError("required argument is not an integer")
            lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << 8 * w) - 1)
            if not (a >= lo and a <= hi):
                raise StructError("'%s' format requires %d <= number <= %d" % (v, lo, hi))
            chunks.append(("n", w, signed, order, a))
        elif kind == "c":
            if not is_byteslike(a) or not (WBytes.of(a).length() == 1):
                raise StructError("char format requires a bytes object of length 1")
            chunks.extend(WBytes.of(a).chunks)
        else:
            if not is_byteslike(a):
                raise StructError("argument for 's' must be a bytes object")
            b = WBytes.of(a)
            ln = b.length()
            if isinstance(v, Sym) or isinstance(ln, Sym):
                d = v - ln
                if isinstance(d, int) and d == 0:
                    chunks.extend(b.chunks)
                    continue
                if ln == v:
                    chunks.extend(b.chunks)
                elif ln > v:
                    chunks.extend(WBytes.of(b[0:v]).chunks)
                else:
                    chunks.extend(b.chunks)
                    chunks.append(("o", "zeropad", v - ln, None))
            elif ln >= v:
                chunks.extend(WBytes.of(b[0:v]).chunks)
            else:
                chunks.extend(b.chunks)
                chunks.append(("c", b"\0" * (v - ln)))
    return WBytes(chunks).norm()


def read_num(piece, w, signed, order):
    p = WBytes.of(piece)
    if len(p.chunks) == 1:
        c = p.chunks[0]
        if c[0] == "c":
            return int.from_bytes(c[1], "big" if order == ">" else "little", signed=signed)
        if c[0] == "n" and c[1] == w and c[3] == order:
            if c[2] == signed:
                return c[4]
            v = c[4]
            if signed:      # stored unsigned, read signed
                return v if v < (1 << (8 * w - 1)) else v - (1 << 8 * w)
            return v if v >= 0 else v + (1 << 8 * w)
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << 8 * w) - 1)
    return Sym.atom("int%d%s%s(%r)" % (8 * w, "s" if signed else "u", order, p), lo, hi)


def unpack_from(fmt, buff, offset=0):
    order, fields = fmt_fields(fmt)
    if not is_byteslike(buff):
        raise TypeError("a bytes-like object is required, not '%s'" % type(buff).__name__)
    b = WBytes.of(buff)
    n = b.length()
    size = calcsize(fmt)
    if offset < 0:
        offset = offset + n
        if offset < 0:
            raise StructError("offset out of range")
    if offset + size > n:
        raise StructError("unpack_from requires a buffer of at least %r bytes" % (size,))
    out = []
    pos = offset
    for kind, v in fields:
        w = NUM[v][0] if kind == "num" else v
        if kind == "x":
            pos = pos + w
            continue
        piece = b[pos:pos + w] if not (isinstance(w, int) and w == 0) else b""
        pos = pos + w
        if kind == "num":
            out.append(read_num(piece, w, NUM[v][1], order))
        else:
            out.append(piece)
    return tuple(out)


def unpack(fmt, buff):
    b = WBytes.of(buff)
    if not (b.length() == calcsize(fmt)):
        raise StructError("unpack requires a buffer of %r bytes" % (calcsize(fmt),))
    return unpack_from(fmt, buff, 0)


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def iter_unpack(self, b):
        from .models import k_len
        n = k_len(b)
        i = 0
        while i < n:
            yield unpack_from(self.format, b, i)
            i += self.size

    def pack_into(self, buf, off, *a):
        from .models import pack_into
        pack_into(self.format, buf, off, *a)
