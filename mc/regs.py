"""Registries of custom coders, their reference model, and the operations on them."""
import weakref

import eth_abi
from eth_abi import decoding, encoding
from eth_abi import exceptions as X
from eth_abi.codec import ABICodec
from eth_abi.registry import ABIRegistry, BaseEquals, Equals, has_arrlist, is_base_tuple, registry

from mc import abi
from mc.abi import word

# ------------------------------------------------------------------ coders with an identity
# Encoder i turns the int v into word(1000 * i + v); decoder i turns word w into ("Di", w).


class NumEncoder(encoding.BaseEncoder):
    tag = 0

    def validate_value(self, value):
        if not isinstance(value, int):
            self.invalidate_value(value)

    def encode(self, value):
        self.validate_value(value)
        return word(1000 * self.tag + value)

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class NumDecoder(decoding.BaseDecoder):
    tag = 0

    def decode(self, stream):
        d = stream.read(32)
        if len(d) != 32:
            raise X.InsufficientDataBytes("short")
        return (f"D{self.tag}", int.from_bytes(d, "big"))

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def enc_callable(i):
    def encoder(value):
        return word(1000 * i + value)

    return encoder


def dec_callable(i):
    def decoder(stream):
        return (f"D{i}", int.from_bytes(stream.read(32), "big"))

    return decoder


def make_coders(n):
    """tag -> (encoder, decoder): classes, instances and plain callables in turn."""
    out = {}
    for i in range(1, n + 1):
        kind = i % 3
        if kind == 2:
            out[i] = (enc_callable(i), dec_callable(i))
            continue
        e = type(f"E{i}", (NumEncoder,), {"tag": i})
        d = type(f"D{i}", (NumDecoder,), {"tag": i})
        out[i] = (e, d) if kind == 1 else (e(), d())
    return out


CODERS = make_coders(12)


def pred_f(s):
    return s in ("foo", "bar")


def pred_g(s):
    return s == "bar"


class Starts:
    """A user-defined matcher with equality: two equal ones are the same lookup."""

    def __init__(self, p):
        self.p = p

    def __call__(self, s):
        return s.startswith(self.p) and s.isalnum()

    def __eq__(self, o):
        return isinstance(o, Starts) and o.p == self.p

    def __hash__(self):
        return hash(("Starts", self.p))


# lookups: name -> (function building a fresh lookup, function telling whether it matches)
def _base_foo(s):
    try:
        n = abi.syntax(s)
    except abi.NotAType:
        return False
    return n[0] == "basic" and n[1] == "foo" and n[3] is None


def _base_foo_sub(s):
    return _base_foo(s) and abi.syntax(s)[2] is not None


def _arr(s):
    try:
        return abi.syntax(s)[-1] is not None
    except abi.NotAType:
        return False


def _tup(s):
    try:
        n = abi.syntax(s)
    except abi.NotAType:
        return False
    return n[0] == "tuple" and n[-1] is None


LOOKUPS = {
    "=foo": (lambda: "foo", lambda s: s == "foo"),
    "=bar": (lambda: "bar", lambda s: s == "bar"),
    "=foo[]": (lambda: "foo[]", lambda s: s == "foo[]"),
    "=(foo,bar)": (lambda: "(foo,bar)", lambda s: s == "(foo,bar)"),
    "base foo": (lambda: BaseEquals("foo"), _base_foo),
    "base foo sub": (lambda: BaseEquals("foo", with_sub=True), _base_foo_sub),
    "f": (lambda: pred_f, pred_f),
    "g": (lambda: pred_g, pred_g),
    "starts b": (lambda: Starts("b"), lambda s: s.startswith("b") and s.isalnum()),
    "arr": (lambda: has_arrlist, _arr),
    "tup": (lambda: is_base_tuple, _tup),
}
# Equals("foo") is an equal lookup for the string registration "foo"
ARRAY, TUPLE = "ARRAY", "TUPLE"


class Model:
    """What is registered: two lists (encoders, decoders) of [lookup key, coder tag, label]."""

    def __init__(self):
        self.e = []
        self.d = []

    def copy(self):
        m = Model()
        m.e = [list(x) for x in self.e]
        m.d = [list(x) for x in self.d]
        return m

    def key(self):
        return repr((self.e, self.d))


def m_add(entries, key, tag, label):
    if key.startswith("="):
        label = key[1:]
    if any(x[0] == key for x in entries):
        return ValueError
    if label is not None and any(x[2] == label for x in entries):
        return ValueError
    entries.append([key, tag, label])
    return None


def m_remove(entries, how, what):
    for x in entries:
        if x[0 if how == "key" else 2] == what:
            entries.remove(x)
            return None
    return KeyError


class Lookup(Exception):
    def __init__(self, kind):
        self.kind = kind


def m_find(entries, s):
    hits = [x for x in entries if LOOKUPS[x[0]][1](s)]
    if len(hits) > 1:
        raise Lookup("multiple")
    if not hits:
        try:
            abi.syntax(s)
        except abi.NotAType:
            raise Lookup("unparsable")
        raise Lookup("none")
    return hits[0][1]


def m_build(entries, s):
    """Resolve a type string to a coder tree: ("num", tag) / ("arr", item, k) / ("tup", items)."""
    tag = m_find(entries, s)
    if tag == ARRAY:
        n = abi.syntax(s)
        dim = n[-1][-1]
        item = abi.render(n[:-1] + (n[-1][:-1] or None,))
        return ("arr", m_build(entries, item), dim[0] if dim else None)
    if tag == TUPLE:
        return ("tup", tuple(m_build(entries, abi.render(c)) for c in abi.syntax(s)[1]))
    return ("num", tag)


def t_dyn(t):
    return t[0] == "arr" and (t[2] is None or t_dyn(t[1])) or t[0] == "tup" and any(map(t_dyn, t[1]))


def t_size(t):
    if t_dyn(t) or t[0] == "num":
        return 32
    return t[2] * t_size(t[1]) if t[0] == "arr" else sum(map(t_size, t[1]))


def t_value(t, c):
    if t[0] == "arr":
        return [t_value(t[1], c) for _ in range(2 if t[2] is None else t[2])]
    if t[0] == "tup":
        return tuple(t_value(x, c) for x in t[1])
    c[0] += 1
    return c[0]


def t_enc(t, v):
    if t[0] == "num":
        return word(1000 * t[1] + v)
    if t[0] == "arr":
        body = t_seq([t[1]] * len(v), v)
        return body if t[2] is not None else word(len(v)) + body
    return t_seq(t[1], v)


def t_seq(ts, vs):
    off = sum(map(t_size, ts))
    head, tail = [], []
    for t, v in zip(ts, vs):
        e = t_enc(t, v)
        if t_dyn(t):
            head.append(word(off))
            tail.append(e)
            off += len(e)
        else:
            head.append(e)
    return b"".join(head + tail)


def t_dec(t, v):
    """What decoding the canonical payload of v should give (payload built with tag 0)."""
    if t[0] == "num":
        return (f"D{t[1]}", v)
    if t[0] == "arr":
        return tuple(t_dec(t[1], x) for x in v)
    return tuple(t_dec(x, y) for x, y in zip(t[1], v))


def t_zero(t):
    """The same shape with coders of tag 0: words are the plain values."""
    if t[0] == "num":
        return ("num", 0)
    if t[0] == "arr":
        return ("arr", t_zero(t[1]), t[2])
    return ("tup", tuple(map(t_zero, t[1])))


# ------------------------------------------------------------------ observation
def classify(e):
    if isinstance(e, X.MultipleEntriesFound):
        return "multiple"
    if isinstance(e, X.NoEntriesFound):
        return "none"
    if isinstance(e, (X.ParseError, ValueError)):
        return "unparsable"
    return f"{type(e).__name__}: {e}"


_codecs = weakref.WeakKeyDictionary()


def codec_of(reg):
    """One codec per registry, kept across operations: it must see every change."""
    c = _codecs.get(reg)
    if c is None:
        c = _codecs[reg] = ABICodec(reg)
    return c


def expect_enc(m, s):
    try:
        t = m_build(m.e, s)
    except Lookup as e:
        return ("fail", e.kind), None
    v = t_value(t, [0])
    return ("bytes", t_seq([t], [v])), v


def observe_enc(reg, s, v):
    codec = codec_of(reg)
    try:
        return ("bytes", codec.encode([s], [1 if v is None else v]))
    except Exception as e:
        if isinstance(e, X.EncodingError):
            return ("fail", f"EncodingError: {e}")
        return ("fail", classify(e))


def expect_has(m, s):
    try:
        m_build(m.e, s)
        return True
    except Lookup as e:
        return "multiple" if e.kind == "multiple" else False


def observe_has(reg, s):
    try:
        a, b = reg.has_encoder(s), codec_of(reg).is_encodable_type(s)
        return a if a is b else f"has_encoder {a}, is_encodable_type {b}"
    except X.MultipleEntriesFound:
        return "multiple"
    except Exception as e:
        return repr(e)


def expect_dec(m, s):
    try:
        t = m_build(m.d, s)
    except Lookup as e:
        return ("fail", e.kind), bytes(96)
    v = t_value(t, [0])
    return ("value", (t_dec(t, v),)), t_seq([t_zero(t)], [v])


def observe_dec(reg, s, data, strict):
    codec = codec_of(reg)
    try:
        return ("value", codec.decode([s], data, strict=strict))
    except Exception as e:
        if isinstance(e, X.DecodingError):
            return ("fail", f"DecodingError: {e}")
        return ("fail", classify(e))


def base_registry():
    r = ABIRegistry()
    r.register(has_arrlist, encoding.BaseArrayEncoder, decoding.BaseArrayDecoder, label="has_arrlist")
    r.register(is_base_tuple, encoding.TupleEncoder, decoding.TupleDecoder, label="is_base_tuple")
    m = Model()
    for x in (m.e, m.d):
        x.append(["arr", ARRAY, "has_arrlist"])
        x.append(["tup", TUPLE, "is_base_tuple"])
    return r, m


PROBES = ("foo", "bar", "foo8", "baz", "foo[]", "(foo,bar)", "(foo)", "bar[2][]", "(foo8,bar[])[1]", "foo[", "()")


# ------------------------------------------------------------------ operations
class Op:
    """do(reg) -> exception class or None; model(m) -> the same, expected."""

    def __init__(self, name, do, model):
        self.name = name
        self.do = do
        self.model = model

    def __repr__(self):
        return self.name


def op_register(key, tag, label=None, half="both"):
    def do(reg):
        e, d = CODERS[tag] if isinstance(tag, int) else (
            (encoding.BaseArrayEncoder, decoding.BaseArrayDecoder)
            if tag == ARRAY
            else (encoding.TupleEncoder, decoding.TupleDecoder)
        )
        look = LOOKUPS[key][0]()
        kw = {} if label is None else {"label": label}
        if half == "both":
            reg.register(look, e, d, **kw)
        elif half == "enc":
            reg.register_encoder(look, e, **kw)
        else:
            reg.register_decoder(look, d, **kw)

    def model(m):
        r = None
        if half in ("both", "enc"):
            r = m_add(m.e, key, tag, label)
            if r:
                return r
        if half in ("both", "dec"):
            r = m_add(m.d, key, tag, label)
        return r

    fn = {"both": "register", "enc": "register_encoder", "dec": "register_decoder"}[half]
    return Op(f"{fn}({key!r}, #{tag}{'' if label is None else f', label={label!r}'})", do, model)


def op_unregister(what, half="both", by="label"):
    """by label, by an equal lookup ("key"), or by Equals(type string) ("equals")."""

    def arg():
        if by == "label":
            return what
        if by == "equals":
            return Equals(what[1:])
        return LOOKUPS[what][0]()

    def do(reg):
        if half == "both":
            reg.unregister(arg())
        elif half == "enc":
            reg.unregister_encoder(arg())
        else:
            reg.unregister_decoder(arg())

    def model(m):
        how = "label" if by == "label" else "key"
        r = None
        if half in ("both", "enc"):
            r = m_remove(m.e, how, what)
            if r:
                return r
        if half in ("both", "dec"):
            r = m_remove(m.d, how, what)
        return r

    fn = {"both": "unregister", "enc": "unregister_encoder", "dec": "unregister_decoder"}[half]
    return Op(f"{fn}({by} {what!r})", do, model)


OPS = [
    op_register("=foo", 1),
    op_register("base foo", 2, "L1"),
    op_register("f", 3, "L1"),
    op_unregister("foo"),
    op_unregister("L1"),
    op_register("=foo", 4),
    op_register("=bar", 5, half="enc"),
    op_register("=bar", 6, half="dec"),
    op_register("f", 7),
    op_register("g", 8, "foo"),
    op_unregister("base foo", "enc", "key"),
    op_unregister("base foo", "dec", "key"),
    op_unregister("f", "both", "key"),
    op_unregister("=foo", "both", "equals"),
    op_unregister("bar", "enc"),
    op_unregister("bar", "dec"),
    op_register("=foo[]", 9),
    op_unregister("has_arrlist"),
    op_register("arr", ARRAY, "has_arrlist"),
    op_register("starts b", 10, "L2"),
    op_unregister("starts b", "both", "key"),
    op_register("base foo sub", 11),
    op_register("=foo", 12, half="enc"),
    op_unregister("foo", "dec"),
    op_register("=(foo,bar)", 2),
]
# a smaller alphabet for longer sequences
CORE = [OPS[i] for i in (0, 1, 2, 3, 4, 6, 7, 9, 10, 13, 14, 16)]


def apply(op, reg, m):
    """Run the operation on both; returns (got, want) exception classes."""
    want = op.model(m)
    try:
        op.do(reg)
        got = None
    except (ValueError, KeyError) as e:
        got = KeyError if isinstance(e, KeyError) else ValueError
    return got, want


def compare(reg, m, probes=PROBES):
    """None, or a description of the first difference between the registry and the model."""
    for s in probes:
        want, v = expect_enc(m, s)
        got = observe_enc(reg, s, v)
        if got != want:
            return f"encode([{s!r}], [{v!r}]) gives {got}, expected {want}"
        w = expect_has(m, s)
        g = observe_has(reg, s)
        if g != w:
            return f"has_encoder({s!r}) gives {g}, expected {w}"
        if w != "multiple":
            g = codec_of(reg).is_encodable(s, 1 if v is None else v)
            if g != w:
                return f"is_encodable({s!r}, {v!r}) gives {g}, expected {w}"
        want, data = expect_dec(m, s)
        for strict in (True, False):
            got = observe_dec(reg, s, data, strict)
            if got != want:
                return f"decode([{s!r}], {data.hex()}, strict={strict}) gives {got}, expected {want}"
    return None
