"""C01 C02 C03 C04 C05 C06: protocol layouts, message sets, codecs, tables"""
from . import check
from .. import spec, domain, models
from ..core import Analysis, Violation, short, site
from ..domain import Sym, WBytes, opaque_text, EngineSignal, PathStop, Prune, split_tokens
from ..models import k_len

I = {"i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2 ** 31, 2 ** 31 - 1),
     "i64": (-2 ** 63, 2 ** 63 - 1)}


def analysis(rep, absent=()):
    an = Analysis(absent=absent)
    rep.modules = an.load_all()
    rep.an = an
    return an


def mod(an, name):
    m = an.ip.modules.get("kiel." + name)
    if m is None:
        raise domain.Unsupported("module kiel.%s has vanished" % name)
    return m


def need(m, name):
    v = getattr(m, name, None)
    if v is None:
        raise domain.Unsupported("anchor %s.%s has vanished" % (m.__name__, name))
    return v


class Gen(object):
    """abstract values for a layout; ``special`` selects one leaf for a boundary variant"""

    def __init__(self, p, lens, special=None):
        self.p, self.lens, self.special = p, lens, special
        self.k = 0
        self.leafs = []

    def value(self, t, path):
        if self.special and self.special[0] == "concrete" and (t in spec.W or t in ("str", "bytes")):
            # elements of arrays: not in order, some of them equal
            self.k += 1
            if t in spec.W:
                return (9, -3, 9, 100, 0)[self.k % 5]
            return ("b", "\u00e4", "b\0 ", "a", " b", "B")[self.k % 6] if t == "str" else (b"b", b"a\0", b"b", b"\n")[self.k % 4]
        if t in spec.W:
            self.leafs.append((path, t))
            if self.special == ("missing", path):
                return None
            if self.special == ("range", path):
                return Sym.atom(path, I[t][0] - 5, I[t][1] + 5)
            return Sym.atom(path, *I[t])
        if t == "str":
            self.leafs.append((path, t))
            if self.special == ("null", path):
                return None
            if self.special == ("long", path):
                return opaque_text(path, 40000)
            if self.special == ("empty", path):
                return ""
            Sym.atom("bytes(%s)" % path, 1, 32767)      # the empty text is a variant of its own
            return opaque_text(path)
        if t == "bytes":
            self.leafs.append((path, t))
            if self.special == ("null", path):
                return None
            if self.special == ("empty", path):
                return b""
            return WBytes([("o", path, Sym.atom("len:" + path, 1, 2 ** 30), None)])
        if isinstance(t, tuple) and t[0] == "sized":
            if self.special in (("null array", path.rsplit(".", 1)[-1]), ("empty field", path.rsplit(".", 1)[-1])):
                return None
            return self.value(t[1], path)
        if isinstance(t, tuple):
            if self.special == ("null array", path.rsplit(".", 1)[-1]):
                return None
            n = self.lens.get(path.rsplit(".", 1)[-1].rstrip("0123456789[]"), self.lens.get("*", 1))
            return [self.value(t[1], "%s[%d]" % (path, i)) for i in range(n)]
        if t == "mset":
            return None
        return {n: self.value(ft, "%s.%s" % (path, n)) for n, ft in t}


def build_items(an, key, name, t, v):
    """turn nested dicts into the package's own item classes"""
    if isinstance(t, tuple) and isinstance(t[1], list) and v is not None:
        cls = need(mod(an, "protocol." + key[0]), spec.ITEMS.get(key[1], spec.ITEMS["*"])[name])
        out = [cls(**{n: build_items(an, key, n, ft, x[n]) for n, ft in t[1]})
               for x in ([v] if t[0] == "sized" else v)]
        return out[0] if t[0] == "sized" else out
    return v


def header(api, corr, version=0):
    return (spec.enc("i16", spec.API_KEYS[api]) + spec.enc("i16", version) + spec.enc("i32", corr) +
            spec.enc("str", "kiel"))


def list_variants(layout):
    """array lengths 0, 1 and 2 at every nesting level"""
    names = set()

    def walk(t, nm):
        if isinstance(t, tuple):
            if t[0] == "arr":
                names.add(nm)
            walk(t[1], nm)
        elif isinstance(t, list):
            for n, ft in t:
                walk(ft, n)
    walk(layout, "")
    names = sorted(names)
    out = [{"*": 1}]
    for n in names:
        for k in (0, 2):
            out.append({"*": 1, n: k})
    if 1 < len(names) < 4:
        out.append({"*": 2})
    return out


def array_names(layout):
    names = set()

    def walk(t, nm):
        if isinstance(t, tuple):
            if t[0] == "arr":
                names.add(nm)
            walk(t[1], nm)
        elif isinstance(t, list):
            for n, ft in t:
                walk(ft, n)
    walk(layout, "")
    return sorted(names)


def sized_names(layout):
    names = set()

    def walk(t, nm):
        if isinstance(t, tuple):
            if t[0] == "sized":
                names.add(nm)
            walk(t[1], nm)
        elif isinstance(t, list):
            for n, ft in t:
                walk(ft, n)
    walk(layout, "")
    return sorted(names)


def long_variants(layout, tier):
    """arrays of unsorted and equal elements, and long ones"""
    names = array_names(layout)
    if "message_set" in repr(layout):
        return [{"*": 2}, {"*": 1, "topics": 3}, {"*": 1, "partitions": 3}]
    out = [{"*": 4 if len(names) < 3 else 3 if len(names) < 4 else 2}]
    out = (out if names else []) + [{"*": 1, n: 300 if tier == "thorough" else 40} for n in names]
    return out + [{"*": 1, n: 66000 if tier == "thorough" else 11000} for n in names if scalar(layout, n)]


def scalar(layout, name):
    """is the array of that name one of plain values"""
    if isinstance(layout, list):
        return any((n == name and isinstance(ft, tuple) and not isinstance(ft[1], list)) or
                   scalar(ft[1] if isinstance(ft, tuple) else ft, name) for n, ft in layout)
    return False


def again(p, req, clsname, layout, want):
    """a request may be sent more than once, with fields changed in between"""
    for n in range(3):
        d = spec.same(req.serialize(), want)
        p.check(d is None, "%s encodes differently the %s time (%s)" % (clsname, ("second", "third", "fourth")[n], d))
    for part, path, name, t in places(req, layout, clsname):
        old = getattr(part, name)
        setattr(part, name, 7 if t != "str" else "seven")
        a = WBytes.of(req.serialize())
        setattr(part, name, old)
        p.check(spec.same(a, want) is not None, "%s ignores a changed %s" % (clsname, path))
        d = spec.same(req.serialize(), want)
        p.check(d is None, "%s encodes differently after %s has been changed and set back (%s)" % (clsname, path, d))


def places(part, layout, path):
    """plain fields of a request and of the first and last item of every array in it"""
    for name, t in layout:
        here = "%s.%s" % (path, name)
        if t in ("i16", "i32", "i64", "str"):
            yield part, here, name, t
        elif isinstance(t, tuple) and isinstance(t[1], list):
            v = getattr(part, name)
            items = [] if v is None else [v] if t[0] == "sized" else v
            for i in sorted({0, len(items) - 1} if items else ()):
                for x in places(items[i], t[1], here if t[0] == "sized" else "%s[%d]" % (here, i)):
                    yield x


def request_case(an, key, layout, api, lens, special, p):
    modname, clsname = key
    cls = need(mod(an, "protocol." + modname), clsname)
    g = Gen(p, lens, special)
    v = g.value(layout, clsname)
    msets = {}
    kw = {}
    if api == "produce":
        M = mod(an, "protocol.messages")
        for ti, t in enumerate(v["topics"]):
            for pi, q in enumerate(t["partitions"]):
                nm = "m%d%d" % (ti, pi)
                val = opaque_text(nm + ".value", 2 ** 20)
                key_ = opaque_text(nm + ".key", 2 ** 20)
                q["message_set"] = M.MessageSet([(-1, M.Message(magic=0, attributes=0, key=key_, value=val))])
                msets[(ti, pi)] = (key_, val)
    for n, ft in layout:
        kw[n] = build_items(an, key, n, ft, v[n])
    req = cls(**kw)
    corr = Sym.atom("correlation_id", 0, 2 ** 31 - 1)
    req.correlation_id = corr
    # the expected encoding first: over-long / out-of-range variants must be refused
    if special is None or special[0] in ("null", "empty", "concrete"):
        if api == "produce":
            for (ti, pi), (k_, v_) in msets.items():
                v["topics"][ti]["partitions"][pi]["message_set"] = spec.message_chunks(
                    -1, k_, v_, models.crc32)
        want = WBytes(header(api, corr, spec.VERSIONS.get(clsname, 0)) + spec.enc(layout, v))
        try:
            got = req.serialize()
        except EngineSignal:
            raise
        except Exception as e:
            p.violation("%s%s cannot be encoded: %s: %s" % (clsname, list(lens.items()), type(e).__name__, e),
                        site(e), "rule: every value of the protocol's range encodes")
        d = spec.same(got, want)
        p.check(d is None, "%s encodes to a different layout (%s)" % (clsname, d), None,
                d and "encoded %s\n need    %s" % (short(got, 600), short(want, 600)))
        if special is None and lens == {"*": 1}:
            again(p, req, clsname, layout, want)
        return
    try:
        got = req.serialize()
    except EngineSignal:
        raise
    except Exception:
        p.check(True, "refused")
        return
    if special[0] == "range":
        # the value fits on this path, otherwise it was truncated
        lo, hi = Sym.atom(special[1]).bounds()
        t = dict(g.leafs)[special[1]]
        p.check(lo >= I[t][0] and hi <= I[t][1],
                "%s accepts a value outside %s for %s" % (clsname, t, special[1]))
        want = WBytes(header(api, corr, spec.VERSIONS.get(clsname, 0)) + spec.enc(layout, v)) if api != "produce" else None
        if want is not None:
            d = spec.same(got, want)
            p.check(d is None, "%s encodes to a different layout (%s)" % (clsname, d))
    elif special[0] == "missing":
        p.violation("%s encodes although %s has no value" % (clsname, special[1]))
    elif special[0] == "long":
        lo, hi = domain.Sym.atom("bytes(%s)" % special[1]).bounds()
        p.check(hi <= 32767, "%s accepts a text of more than 32767 bytes for %s" % (clsname, special[1]))


@check("C01", "path-sensitive abstract interpretation of the serialisers against the frozen protocol layouts",
       "Every path of every serialiser is interpreted over opaque field values (intervals, opaque "
       "texts with opaque byte lengths); array lengths 0..2 stand for all lengths.", 150)
def c01(rep, tier):
    an = analysis(rep)
    an.ip.max_steps = 3000000
    for key in sorted(spec.REQUESTS):
        api, layout = spec.REQUESTS[key]
        for lens in list_variants(layout):
            an.explore("%s.%s lens=%s" % (key[0], key[1], lens), lambda p: request_case(
                an, key, layout, api, lens, None, p), rep)
        for lens in long_variants(layout, tier):
            an.explore("%s.%s values lens=%s" % (key[0], key[1], lens), lambda p: request_case(
                an, key, layout, api, lens, ("concrete",), p), rep)
        leafs = []

        def collect(p):
            g = Gen(p, {"*": 1})
            g.value(layout, key[1])
            leafs.extend(g.leafs)
        an.explore("leafs", collect, rep, always=True)
        for path, t in leafs:
            kinds = ["range", "missing"] if t in spec.W else ["null", "empty", "long"] if t == "str" else ["null"]
            for k in kinds:
                an.explore("%s.%s %s %s" % (key[0], key[1], k, path), lambda p: request_case(
                    an, key, layout, api, {"*": 1}, (k, path), p), rep)
        rep.scen.pop("leafs", None)


# ------------------------------------------------------------------------------------------ C02

def is_empty(text):
    w = WBytes.of(domain.encode_text(text))
    return spec.same(b"", w) is None


def ck(p, cond, fmt, *args):
    p.oblig += 1
    if not cond:
        raise Violation(fmt % tuple(short(a) if not isinstance(a, str) else a.replace(
            domain.TOK0, "<").replace(domain.TOK1, ">") for a in args))


def same_int(got, v):
    if not isinstance(got, (Sym, int)) or isinstance(got, bool):
        return False
    d = got - v
    if isinstance(d, Sym):
        lo, hi = d.bounds()
        d = lo if lo is not None and lo == hi else d
    return isinstance(d, int) and d == 0


def same_data(a, e):
    """value a (text or bytes as decoded) stands for the wire bytes e"""
    w = WBytes.of(e)
    if a is None:
        return False
    if isinstance(a, str):
        if a == "" and spec.same(b"", w) is None:
            return True
        nm = [c for c in w.chunks if c[0] == "o"]
        if len(w.chunks) == 1 and nm:
            return a == opaque_text("decode(%s)" % nm[0][1]) or (
                nm[0][3] is not None and nm[0][3][0] == "text" and a == nm[0][3][1])
        if not nm and not [c for c in w.chunks if c[0] != "c"]:
            return domain.encode_text(a).norm() == w.norm()
        return spec.same(domain.encode_text(a), w) is None
    return domain.is_byteslike(a) and spec.same(a, w) is None


def compare_decoded(p, what, got, t, v):
    if t in spec.W or t in ("str", "bytes"):
        if v is None:
            ck(p, got is None, "%s decodes to %s instead of null", what, got)
        elif isinstance(v, (Sym, int)):
            ck(p, same_int(got, v), "%s decodes to %s instead of the value on the wire %s", what, got, v)
        elif t == "str":
            ck(p, type(got) is str and (got == v or (got == "" and is_empty(v))),
               "%s decodes to %s instead of the text on the wire", what, got)
        else:
            ck(p, same_data(got, v), "%s decodes to %s instead of the bytes on the wire", what, got)
        return
    if isinstance(t, tuple) and t[0] == "sized":
        if v is None:
            ck(p, got is None, "%s, an empty field, decodes to %s", what, got)
            return
        ck(p, got is not None, "%s is lost in decoding", what)
        t = t[1]
    if isinstance(t, tuple):
        if v is None:
            ck(p, not got, "%s, a null array, decodes to %s", what, got)
            return
        ck(p, isinstance(got, (list, tuple)) and len(got) == len(v),
           "%s decodes to %s instead of %s elements", what, got, len(v))
        for i, (a, b) in enumerate(zip(got, v)):
            compare_decoded(p, "%s[%d]" % (what, i), a, t[1], b)
        return
    if t == "mset":
        compare_messages(p, what, got, v)
        return
    for n, ft in t:
        if not hasattr(got, n):
            p.violation("%s has no field %s after decoding" % (what, n))
        compare_decoded(p, "%s.%s" % (what, n), getattr(got, n), ft, v[n])


def compare_messages(p, what, got, v):
    ms = getattr(got, "messages", None)
    ck(p, ms is not None and len(ms) == len(v), "%s decodes to %s instead of %s messages",
       what, ms, len(v))
    for i, ((off, m), (eo, ek, ev)) in enumerate(zip(ms, v)):
        ck(p, same_int(off, eo), "%s.messages[%s].offset decodes to %s instead of %s", what, i, off, eo)
        compare_message(p, "%s.messages[%d]" % (what, i), m, ek, ev)


def compare_message(p, what, m, ek, ev):
    for nm, e in (("key", ek), ("value", ev)):
        a = getattr(m, nm, "missing")
        if e is None:
            ck(p, a is None, "%s.%s decodes to %s instead of null", what, nm, a)
        else:
            if isinstance(e, str):
                e = domain.encode_text(e)
            ck(p, same_data(a, e), "%s.%s decodes to %s instead of %s", what, nm, a, e)


def response_case(an, key, api, layout, lens, special, p):
    cls = need(mod(an, "protocol." + key[0]), key[1])
    g = Gen(p, lens, special)
    v = g.value(layout, key[1])
    wirev = v
    if api == "fetch":
        import copy
        for ti, t in enumerate(v["topics"]):
            for pi, q in enumerate(t["partitions"]):
                q["message_set"] = None
        chunks = {}
        for ti, t in enumerate(v["topics"]):
            for pi, q in enumerate(t["partitions"]):
                n = (ti + pi) % 2 + 1
                ms, cs = [], []
                for k in range(n):
                    nm = "f%d%d%d" % (ti, pi, k)
                    o = Sym.atom(nm + ".off", *I["i64"])
                    binary = (ti + pi + k) == 0 and lens == {"*": 1}
                    val = WBytes([("o", nm + ".val", Sym.atom("len:" + nm, 1, 2 ** 20),
                                   None if binary else ("text", opaque_text(nm + ".val")))])
                    ms.append((o, None, val))
                    cs += spec.message_chunks(o, None, val, lambda b: Sym.atom("crc!" + nm, *I["i32"]))
                q["message_set"] = ms
                chunks[(ti, pi)] = cs
        wirev = {"topics": [dict(t, partitions=[dict(q, message_set=chunks[(ti, pi)])
                                                for pi, q in enumerate(t["partitions"])])
                            for ti, t in enumerate(v["topics"])]}
    raw = WBytes(spec.enc(layout, wirev)).norm()
    try:
        got = cls.deserialize(raw)
    except EngineSignal:
        raise
    except Exception as e:
        p.violation("%s cannot be decoded: %s: %s" % (key[1], type(e).__name__, e), site(e))
    compare_decoded(p, key[1], got, layout, v)
    # the format is consumed completely: the parser's end offset is the length of the payload
    val, end = cls.parse(raw, 0)
    d = end - k_len(raw)
    if isinstance(d, Sym):
        lo, hi = d.bounds()
        d = lo if lo is not None and lo == hi else d
    ck(p, isinstance(d, int) and d == 0, "%s leaves or overruns bytes: stops at %s of %s",
       key[1], end, k_len(raw))


@check("C02", "path-sensitive abstract interpretation of the decoders against the frozen protocol layouts",
       "Responses with opaque field values are laid out by the checker's own tables and decoded by "
       "interpreting the package's decoders; array lengths 0..2 stand for all lengths.", 150)
def c02(rep, tier):
    an = analysis(rep)
    an.ip.max_steps = 3000000
    for key in sorted(spec.RESPONSES):
        api, layout = spec.RESPONSES[key]
        for lens in list_variants(layout):
            an.explore("%s.%s lens=%s" % (key[0], key[1], lens), lambda p: response_case(
                an, key, api, layout, lens, None, p), rep)
        for lens in long_variants(layout, tier):
            an.explore("%s.%s values lens=%s" % (key[0], key[1], lens), lambda p: response_case(
                an, key, api, layout, lens, ("concrete",), p), rep)
        for nm in array_names(layout) + sized_names(layout) if api != "fetch" else ():
            an.explore("%s.%s null %s" % (key[0], key[1], nm), lambda p: response_case(
                an, key, api, layout, {"*": 1}, ("null array", nm), p), rep)
        leafs = []

        def collect(p):
            g = Gen(p, {"*": 1})
            g.value(layout, key[1])
            leafs.extend(g.leafs)
        an.explore("leafs", collect, rep, always=True)
        rep.scen.pop("leafs", None)
        for path, t in leafs:
            if t in ("str", "bytes"):
                an.explore("%s.%s empty %s" % (key[0], key[1], path), lambda p: response_case(
                    an, key, api, layout, {"*": 1}, ("empty", path), p), rep)
                an.explore("%s.%s null %s" % (key[0], key[1], path), lambda p: response_case(
                    an, key, api, layout, {"*": 1}, ("null", path), p), rep)


# ------------------------------------------------------------------------------------------ C03

def render_set(an, p, ms):
    """encode a message set exactly as a request would (struct of its rendered format)"""
    out = ms.render()
    if not (isinstance(out, tuple) and len(out) == 2):
        raise domain.Unsupported("MessageSet.render no longer returns (format, data)")
    return domain.pack("!" + "".join(out[0]), *out[1])


def via_produce(an, p, ms):
    """the bytes of a message set inside a produce request (size prefix included)"""
    M = mod(an, "protocol.produce")
    r = M.ProduceRequest(required_acks=1, timeout=1, topics=[M.TopicRequest(name="t", partitions=[
        M.PartitionRequest(partition_id=7, message_set=ms)])])
    raw = WBytes.of(r.serialize())
    pre = len(WBytes(header("produce", 0) + spec.enc("i16", 1) + spec.enc("i32", 1) + spec.enc("i32", 1) +
                     spec.enc("str", "t") + spec.enc("i32", 1) + spec.enc("i32", 7)).norm())
    return WBytes.of(raw[pre:])


def text_of(nm, n):
    """opaque text of a concrete encoded length"""
    Sym.atom("bytes(%s)" % nm, n, n)
    return opaque_text(nm)


def split_wrapper(p, body):
    """(codec attribute, value bytes) of a set holding one wrapper message"""
    w = WBytes.of(body)
    n = w.length()
    for a, b, want, what in ((17, 18, None, "attributes"),):
        attr = domain.read_num(w[a:b], 1, True, ">")
    key = domain.read_num(w[18:22], 4, True, ">")
    vlen = domain.read_num(w[22:26], 4, True, ">")
    return attr, key, vlen, WBytes.of(w[26:n])


def set_case(an, codec, msgs_spec, p):
    M = mod(an, "protocol.messages")
    msgs = []
    inner = []
    for key, value in msgs_spec(p):
        msgs.append(M.Message(magic=0, attributes=0, key=key, value=value))
        inner += spec.message_chunks(-1, key, value, models.crc32)
    try:
        ms = M.MessageSet.compressed(codec, msgs)
        got = via_produce(an, p, ms)
    except EngineSignal:
        raise
    except Exception as e:
        p.violation("a message set (codec %r) cannot be encoded: %s: %s" % (codec, type(e).__name__, e), site(e))
    inner_w = WBytes(inner)
    if not codec:
        want = WBytes([spec.num("i32", inner_w.length())] + inner)
        d = spec.same(got, want)
        p.check(d is None, "uncompressed message set: wrong encoding %s" % d, None,
                d and "%s\nneed %s" % (short(got, 900), short(want, 900)))
        return
    size = domain.read_num(got[0:4], 4, True, ">")
    body = WBytes.of(got[4:])
    ck(p, same_int(size, body.length()), "message set size %s is not the %s bytes that follow", size, body.length())
    attr, key, vlen, value = split_wrapper(p, body)
    ck(p, attr == codec, "wrapper attributes %s do not name codec %s", attr, codec)
    ck(p, key == -1, "wrapper key is not null (length %s)", key)
    ck(p, same_int(vlen, value.length()), "wrapper value length %s, actual %s", vlen, value.length())
    want = WBytes(spec.message_chunks(-1, None, value, models.crc32, attributes=codec))
    d = spec.same(body, want)
    p.check(d is None, "compressed wrapper: wrong encoding %s" % d)
    data = decompress_ref(p, codec, value)
    d = spec.same(data, inner_w)
    p.check(d is None, "the compressed data is not the encoding of the messages: %s" % d, None,
            d and "%s\nneed %s" % (short(data, 900), short(inner_w, 900)))


SNAPPY_MAGIC = b"\x82SNAPPY\0\0\0\0\1\0\0\0\1"


def decompress_ref(p, codec, value):
    """the checker's own reading of a compressed value; -> bytes"""
    if codec == 1:
        c = value.chunks
        ck(p, len(c) == 1 and c[0][0] == "o" and p.codecs.get(c[0][1], (None,))[0] == "gzip",
           "the value is not one gzip stream: %s", value)
        return p.codecs[c[0][1]][1]
    head = value[0:16]
    ck(p, head == SNAPPY_MAGIC, "snappy stream starts with %s instead of the xerial header", head)
    out = WBytes(())
    pos = 16
    n = value.length()
    while pos < n:
        ln = domain.read_num(value[pos:pos + 4], 4, True, ">")
        blk = WBytes.of(value[pos + 4:pos + 4 + ln])
        c = blk.chunks
        ck(p, len(c) == 1 and c[0][0] == "o" and p.codecs.get(c[0][1], (None,))[0] == "snappy",
           "snappy block at %s is not one compressed block: %s", pos, blk)
        out = WBytes.of(out + p.codecs[c[0][1]][1])
        pos = pos + 4 + ln
    return out


@check("C03", "path-sensitive abstract interpretation of message encoding with an uninterpreted checksum",
       "Keys, values, checksums and compressed data are opaque; the encoded chunks are compared with "
       "the checker's layout, the checksum argument with the bytes it must cover.", 40)
def c03(rep, tier):
    an = analysis(rep)
    from . import scale
    scale.patient(an, 12500)

    def opaque(nm):
        Sym.atom("bytes(%s)" % nm, 1, 2 ** 20)
        return opaque_text(nm, 2 ** 20)

    def binary(nm):
        return WBytes([("o", nm, Sym.atom("len:" + nm, 1, 2 ** 20), None)])
    shapes = {
        "empty set": lambda p: [],
        "one text": lambda p: [(None, opaque("v"))],
        "key and value": lambda p: [(opaque("k"), opaque("v"))],
        "null value": lambda p: [(opaque("k"), None)],
        "null key and value": lambda p: [(None, None)],
        "bytes": lambda p: [(binary("k"), binary("v"))],
        "empty value": lambda p: [(b"", "")],
        "two": lambda p: [(None, opaque("v1")), (opaque("k2"), opaque("v2"))],
        "three same": lambda p: [(None, "x"), (None, "y"), (None, "x")],
    }
    for nm, sh in shapes.items():
        for codec in (None, 1):
            if codec and nm == "empty set":
                continue
            an.explore("set %s codec=%s" % (nm, codec), lambda p: (
                setattr(p, "opaque_crc", True), set_case(an, codec, sh, p)), rep)
    n = scale.upto(an, 1500, 12500, *scale.SENDING)
    many = [(b"k%d" % i, b"v%d" % i) for i in range(n)]
    for codec in (None, 1):
        an.explore("%s messages codec=%s" % (n, codec), lambda p: (
            setattr(p, "opaque_crc", True), setattr(p, "crc_positive", True), set_case(an, codec, lambda p: many, p)), rep)
    snap = {
        "one": lambda p: [(None, text_of("v", 5))],
        "null": lambda p: [(text_of("k", 3), None)],
        "two": lambda p: [(text_of("k", 2), text_of("v", 9)), (None, text_of("w", 4))],
        "two blocks": lambda p: [(None, text_of("v", 40000))],
        "block edge": lambda p: [(None, text_of("v", 32768 - 26))],
        "two msgs, three blocks": lambda p: [(None, text_of("v", 60000)), (None, text_of("w", 20000))],
    }
    for nm, sh in snap.items():
        an.explore("set %s codec=2" % nm, lambda p: (
            setattr(p, "opaque_crc", True), set_case(an, 2, sh, p)), rep)


# ------------------------------------------------------------------------------------------ C04

def concrete_msg(nm, klen, vlen, attributes=0, off=None):
    if off is None:
        off = Sym.atom(nm + ".off", 0, 2 ** 62)

    def part(x, n):
        if n is None:
            return None
        return WBytes([("o", nm + x, n, ("text", opaque_text(nm + x)))]) if n else b""
    k, v = part(".key", klen), part(".val", vlen)
    return off, k, v, spec.message_chunks(off, k, v, lambda b: Sym.atom(nm + ".crc", *I["i32"]), attributes)


def total(chunks):
    n = 0
    for c in chunks:
        n = n + spec.chunk_len(c)
    return n


def decode_case(an, p, chunks, expect, cut=None, tail=True):
    M = mod(an, "protocol.messages")
    w = WBytes(chunks)
    n = w.length()
    if cut is not None:
        w = WBytes.of(w[0:cut])
        n = cut
    pre = [("o", "before", 6, None)]
    post = [("o", "after", 40, None)] if tail else []
    buf = WBytes(pre + spec.enc("i32", n) + list(w.chunks) + post).norm()
    try:
        ms, end = M.MessageSet.parse(buf, 6)
    except EngineSignal:
        raise
    except Exception as e:
        p.violation("decoding fails with %s: %s (cut at %s)" % (type(e).__name__, e, cut), site(e))
    ck(p, same_int(end, n + 10), "after the message set the decoder continues at %s instead of %s (trailing message cut at byte %s)",
       end, n + 10, cut)
    compare_messages(p, "message set (cut=%s)" % cut, ms, expect)


@check("C04", "path-sensitive abstract interpretation of message-set decoding over every cut position",
       "Message contents are opaque; every byte position of a truncated trailing message is a case; "
       "bytes outside the declared range are opaque, so reading them cannot yield the expected result.", 150)
def c04(rep, tier):
    an = analysis(rep)
    shapes = [(None, 3), (2, 3), (None, None), (4, None), (0, 0)]
    for sh in shapes:
        for tail in (True, False):
            def full(p, k=1):
                ch, ex = [], []
                for i in range(k):
                    o, kk, v, c = concrete_msg("m%d" % i, *sh)
                    ch += c
                    ex.append((o, kk, v))
                return ch, ex
            for k in (0, 1, 2, 3):
                an.explore("complete %s x%d tail=%s" % (sh, k, tail), lambda p: decode_case(
                    an, p, *full(p, k), tail=tail), rep)
    # every cut position of the trailing message after 0, 1 or 2 complete ones
    for pre in (0, 1, 2):
        for sh in ((2, 3), (None, 5)):
            ln = 12 + 14 + (sh[0] or 0) + sh[1]
            for cut in range(0, ln):
                for tail in (True, False):
                    def drv(p):
                        ch, ex = [], []
                        for i in range(pre):
                            o, kk, v, c = concrete_msg("m%d" % i, None, 4)
                            ch += c
                            ex.append((o, kk, v))
                        base = total(ch)
                        o, kk, v, c = concrete_msg("cut", *sh)
                        decode_case(an, p, ch + c, ex, cut=base + cut, tail=tail)
                    an.explore("cut %s pre=%d at %d tail=%s" % (sh, pre, cut, tail), drv, rep)

    def wrapper(p, codec, nm, inner, key=None, bits=0):
        w = WBytes(inner)
        if codec == 1:
            val = WBytes.of(p.codec("gzip", w.norm()))
        else:
            n = w.length()
            cutp = n // 2
            blocks = [w.norm()] if codec == 2 else [WBytes.of(w[0:cutp]).norm(), WBytes.of(w[cutp:n]).norm()]
            chunks = [("c", SNAPPY_MAGIC)]
            for b in blocks:
                c = WBytes.of(p.codec("snappy", b))
                chunks += spec.enc("i32", c.length()) + list(c.chunks)
            val = WBytes(chunks)
        off = Sym.atom(nm + ".off", 0, 2 ** 62)
        return spec.message_chunks(off, key, val, lambda b: Sym.atom(nm + ".crc", *I["i32"]),
                                   attributes=min(codec, 2) | bits)
    for codec in (1, 2, 3):
        for layout in ("w", "wp", "pw", "ww", "pwp"):
            for k in (1, 2):
                def drv(p):
                    ch, ex = [], []
                    for i, kind in enumerate(layout):
                        if kind == "p":
                            o, kk, v, c = concrete_msg("p%d" % i, 2, 4)
                            ch += c
                            ex.append((o, kk, v))
                        else:
                            inner = []
                            for j in range(k):
                                o, kk, v, c = concrete_msg("w%d.%d" % (i, j), 1, 4 + j)
                                inner += c
                                ex.append((o, kk, v))
                            ch += wrapper(p, codec, "w%d" % i, inner)
                    decode_case(an, p, ch, ex)
                an.explore("compressed codec=%d %s inner=%d" % (codec, layout, k), drv, rep)

    def odd(p, codec, key, bits):
        """a wrapper with a key, attribute bits which name no codec"""
        o, kk, v, c = concrete_msg("p", 2, 4, bits)
        i1, i2 = concrete_msg("w.0", 1, 4, bits), concrete_msg("w.1", None, 3)
        w = wrapper(p, codec, "w", i1[3] + i2[3], key, bits)
        decode_case(an, p, c + w, [(o, kk, v), i1[:3], i2[:3]])
    for codec in (1, 2, 3):
        for key in (None, b"", b"key"):
            for bits in (0, 4, 8, -128):
                an.explore("wrapper codec=%d key=%r bits=%d" % (codec, key, bits), lambda p: odd(p, codec, key, bits), rep)

    def cutw(p, at):
        o, kk, v, c = concrete_msg("p", None, 4)
        i1 = concrete_msg("w.0", 1, 4)
        w = wrapper(p, 1, "w", i1[3])
        decode_case(an, p, c + w, [(o, kk, v)], cut=total(c) + at)

    def dense(p, codec, n):
        """wrappers that hold far more than their own size, among others"""
        ch, ex = [], []
        for i in range(2):
            inner = []
            for j in range(n):
                o, kk, v, c = concrete_msg("w%d.%d" % (i, j), None, 70000)
                inner += c
                ex.append((o, kk, v))
            ch += wrapper(p, codec, "w%d" % i, inner)
        o, kk, v, c = concrete_msg("p", 2, 4)
        decode_case(an, p, ch + c, ex + [(o, kk, v)])
    for codec in (1, 2):
        for n in (1, 2, 20):
            an.explore("dense wrappers codec=%d inner=%d" % (codec, n), lambda p: dense(p, codec, n), rep)
    def alike(p, codec, layout):
        """messages with equal offsets (each counts), equal keys and values"""
        ch, ex = [], []
        for i, kind in enumerate(layout):
            if kind == "p":
                o, kk, v, c = concrete_msg("m", 1, 4, 0, 7)
                ch += c
                ex.append((o, kk, v))
            else:
                inner = []
                for j in range(2):
                    o, kk, v, c = concrete_msg("m", 1, 4, 0, 7)
                    inner += c
                    ex.append((o, kk, v))
                ch += wrapper(p, codec, "w%d" % i, inner)
        decode_case(an, p, ch, ex)
    for codec in (1, 2):
        for layout in ("pp", "pw", "wp", "ww", "wpw"):
            an.explore("equal messages codec=%d %s" % (codec, layout), lambda p: alike(p, codec, layout), rep)
    for at in range(0, 30):
        an.explore("cut wrapper at %d" % at, lambda p: cutw(p, at), rep)


# ------------------------------------------------------------------------------------------ C05

@check("C05", "abstract interpretation of the codec framing over uninterpreted, mutually inverse codecs",
       "gzip/snappy themselves are uninterpreted inverse pairs; what is decided is the framing around "
       "them for opaque data of sizes around every block boundary.", 40)
def c05(rep, tier):
    an = analysis(rep)
    B = 32 * 1024

    def data(p, n, nm="data"):
        return WBytes([("o", nm, n, None)]).norm() if n else b""
    sizes = [0, 1, 100, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B - 1, 100000, 2 ** 20 + 1, 2 ** 24 + 3]
    for n in sizes:
        def rt(p):
            for name in ("gzip", "snappy") if n <= 2 ** 21 else ("gzip",):
                m = mod(an, "compression." + name)
                try:
                    z = m.compress(data(p, n))
                    back = m.decompress(z)
                except EngineSignal:
                    raise
                except Exception as e:
                    p.violation("%s round trip of %d bytes fails: %s: %s" % (name, n, type(e).__name__, e), site(e))
                d = spec.same(back, data(p, n))
                p.check(d is None, "%s round trip of %d bytes loses data: %s" % (name, n, d))
                if name == "snappy":
                    got = decompress_ref(p, 2, WBytes.of(z))
                    d = spec.same(got, data(p, n))
                    p.check(d is None, "snappy frames do not cover the input of %d bytes: %s" % (n, d))
                elif n:
                    got = decompress_ref(p, 1, WBytes.of(z))
                    p.check(spec.same(got, data(p, n)) is None, "gzip stream does not hold the input")
        an.explore("round trip %d" % n, rt, rep)
    # foreign streams: every split into blocks, compressed block sizes down to one byte
    for lens in ([1], [3], [11], [12], [13], [40], [5, 1], [1, 5], [30, 2], [2, 30], [12, 12, 12], [7, 0, 7]):
        def fs(p):
            m = mod(an, "compression.snappy")
            chunks = [("c", SNAPPY_MAGIC)]
            want = WBytes(())
            for i, ln in enumerate(lens):
                if ln == 0:
                    continue
                plain = data(p, 9 + i, "plain%d" % i)
                nm = "snappyblock%d" % i
                p.codecs[nm] = ("snappy", plain)
                chunks += spec.enc("i32", ln) + [("o", nm, ln, None)]
                want = WBytes.of(want + plain)
            try:
                got = m.decompress(WBytes(chunks).norm())
            except EngineSignal:
                raise
            except Exception as e:
                p.violation("snappy stream with blocks of %s bytes is not decompressed: %s: %s"
                            % (lens, type(e).__name__, e), site(e))
            d = spec.same(got, want)
            p.check(d is None, "snappy stream with compressed blocks of %s bytes loses data: %s" % (lens, d))
        an.explore("foreign snappy %s" % lens, fs, rep)
    # missing library
    an2 = Analysis(absent=("snappy",))
    an2.load_all()

    def missing(p):
        m = mod(an2, "compression.snappy")
        for fn, arg in (("compress", data(p, 10)), ("decompress", SNAPPY_MAGIC + b"\0\0\0\1x"),
                        ("compress", b""), ("decompress", SNAPPY_MAGIC)):
            try:
                r = getattr(m, fn)(arg)
            except EngineSignal:
                raise
            except (NameError, AttributeError, TypeError) as e:
                p.violation("snappy.%s without the library fails with %s instead of a clear error"
                            % (fn, type(e).__name__), site(e))
            except Exception:
                p.check(True, "")
            else:
                p.violation("snappy.%s without the library returns %s" % (fn, short(r)))
    an2.explore("snappy library missing", missing, rep)


# ------------------------------------------------------------------------------------------ C06

@check("C06", "evaluation of the constant tables against the frozen protocol tables",
       "Module bodies are interpreted; every entry of the tables is an obligation.", 100)
def c06(rep, tier):
    an = analysis(rep)

    def drv(p):
        C = mod(an, "constants")
        E = need(mod(an, "protocol.errors"), "errors")
        keys = need(C, "API_KEYS")
        for k, v in spec.API_KEYS.items():
            ck(p, keys.get(k) == v, "api key of %s is %s instead of %s", k, keys.get(k), v)
        table = need(C, "ERROR_CODES")
        for c, nm in spec.ERROR_CODES.items():
            ck(p, table.get(c) == nm, "error code %s is named %s instead of %s", c, table.get(c), nm)
            ck(p, getattr(E, nm, None) == c, "errors.%s is %s instead of %s", nm, getattr(E, nm, None), c)
            r = c in E.retriable
            ck(p, r == (c in spec.RETRIABLE), "error %s (%s) %s retriable", c, nm,
               "must be" if c in spec.RETRIABLE else "must not be")
        ck(p, set(E.retriable) <= set(table), "retriable set has codes no table knows: %s", set(E.retriable) - set(table))
        ck(p, len(set(table.values())) == len(table), "two error codes share a name")
        ck(p, len(set(keys.values())) == len(keys), "two apis share a key")
        for nm, v in (("API_VERSION", 0), ("CONSUMER_REPLICA_ID", -1), ("GZIP", 1), ("SNAPPY", 2),
                      ("DEFAULT_KAFKA_PORT", 9092), ("CLIENT_ID", "kiel")):
            ck(p, getattr(C, nm, None) == v, "%s is %s instead of %s", nm, getattr(C, nm, None), v)
        ck(p, set(C.SUPPORTED_COMPRESSION) == {None, 1, 2}, "supported codecs are %s", C.SUPPORTED_COMPRESSION)
        S = need(mod(an, "clients.single"), "SingleConsumer")
        ck(p, (S.BEGINNING, S.END) == (-2, -1), "special start values are %s", (S.BEGINNING, S.END))
        # every request/response class carries the key of the api it encodes
        for key in sorted(spec.REQUESTS):
            api, _ = spec.REQUESTS[key]
            cls = need(mod(an, "protocol." + key[0]), key[1])
            ck(p, cls.api == api and spec.API_KEYS[api] == keys.get(cls.api), "%s is labelled %s", key[1], cls.api)
        for key in sorted(spec.RESPONSES):
            api, _ = spec.RESPONSES[key]
            cls = need(mod(an, "protocol." + key[0]), key[1])
            ck(p, cls.api == api, "%s is labelled %s", key[1], cls.api)
    an.explore("tables", drv, rep)
