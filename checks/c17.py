import functools
import itertools

from checks.common import *
from checks.decoding import real
from eth_abi import decoding, encoding
from eth_abi.base import parse_type_str
from eth_abi.codec import ABICodec
from eth_abi.registry import BaseEquals

W = abi.word
CustomError = X.EncodingTypeError
DYNAMIC = ("dynamic", "ragged")


# ------------------------------------------------------------------ what the custom type means
class Spec:
    def __init__(self, name, width):
        self.name = name
        self.width = width
        self.dynamic = width in DYNAMIC
        self.size = {"wide": 64, "narrow": 20, "empty": 0}.get(width, 32)

    def enc(self, v):
        return raw_encode(self.width, v)

    def canon(self, v):
        return ("X", None if self.width == "empty" else v)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def raw_encode(width, v):
    if width == "static":
        return W(v + 10)
    if width == "wide":
        return W(v + 20) + W(v + 21)
    if width == "narrow":
        return v.to_bytes(20, "big")
    if width == "empty":
        return b""
    if width == "ragged":
        return W(v) + bytes([7]) * v
    return W(v) + bytes([7]) * v + bytes(-v % 32)


def raw_decode(width, stream):
    def take(n):
        d = stream.read(n)
        if len(d) != n:
            raise X.InsufficientDataBytes("custom decoder ran out of data")
        return d

    if width == "narrow":
        return ("X", int.from_bytes(take(20), "big"))
    if width == "empty":
        return ("X", None)
    a = int.from_bytes(take(32), "big")
    if width == "static":
        return ("X", a - 10)
    if width == "wide":
        b = int.from_bytes(take(32), "big")
        if b != a + 1:
            raise X.NonEmptyPaddingBytes("custom decoder: words do not match")
        return ("X", a - 20)
    fill = 0 if width == "ragged" else -a % 32
    d = take(a + fill)
    if d != bytes([7]) * a + bytes(fill):
        raise X.NonEmptyPaddingBytes("custom decoder: wrong filling")
    return ("X", a)


def bad(v):
    return isinstance(v, bool) or not isinstance(v, int) or not 0 <= v < 200


# ------------------------------------------------------------------ the ways to provide a coder
def coder_callable(width):
    def encoder(v):
        if bad(v):
            raise CustomError("not a custom value")
        return raw_encode(width, v)

    def decoder(stream):
        return raw_decode(width, stream)

    if width in DYNAMIC:
        encoder.is_dynamic = decoder.is_dynamic = True
    return encoder, decoder


def coder_partial(width):
    e, d = coder_callable(width)
    e, d = functools.partial(e), functools.partial(d)
    if width in DYNAMIC:
        e.is_dynamic = d.is_dynamic = True
    return e, d


class Callables:
    def __init__(self, width, dyn):
        self.width = width
        if dyn:
            self.is_dynamic = width in DYNAMIC


class EncObj(Callables):
    def __call__(self, v):
        if bad(v):
            raise CustomError("not a custom value")
        return raw_encode(self.width, v)


class DecObj(Callables):
    def __call__(self, stream):
        return raw_decode(self.width, stream)


def coder_object(width):
    return EncObj(width, True), DecObj(width, True)


class XEncoder(encoding.BaseEncoder):
    width = "static"

    def validate_value(self, value):
        if bad(value):
            self.invalidate_value(value)

    def encode(self, value):
        self.validate_value(value)
        return raw_encode(self.width, value)

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class XDecoder(decoding.BaseDecoder):
    width = "static"

    def decode(self, stream):
        return raw_decode(self.width, stream)

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def coder_class(width):
    return (
        type("XE", (XEncoder,), {"width": width, "is_dynamic": width in DYNAMIC}),
        type("XD", (XDecoder,), {"width": width, "is_dynamic": width in DYNAMIC}),
    )


def coder_instance(width):
    e, d = coder_class(width)
    return e(), d()


class PEncoder(XEncoder):
    @parse_type_str("foo")
    def from_type_str(cls, abi_type, registry):
        return cls()


class PDecoder(XDecoder):
    @parse_type_str("foo")
    def from_type_str(cls, abi_type, registry):
        return cls()


def coder_parsed(width):
    return (
        type("PE", (PEncoder,), {"width": width, "is_dynamic": width in DYNAMIC}),
        type("PD", (PDecoder,), {"width": width, "is_dynamic": width in DYNAMIC}),
    )


def coder_mixed(width):
    """class encoder, callable decoder"""
    return coder_class(width)[0], coder_callable(width)[1]


def coder_mixed2(width):
    return coder_callable(width)[0], coder_instance(width)[1]


KINDS = {
    "callable": coder_callable, "class": coder_class, "instance": coder_instance, "object": coder_object,
    "partial": coder_partial, "parsed": coder_parsed, "class/callable": coder_mixed, "callable/instance": coder_mixed2,
}
WIDTHS = ("static", "dynamic", "wide", "narrow", "empty", "ragged")
LOOK = ("foo", BaseEquals("foo"), lambda s: s == "foo")


@functools.lru_cache(None)
def codec(kind, width, look):
    e, d = KINDS[kind](width)
    r = registry.copy()
    lk = LOOK[look]
    r.register(lk, e, d, **({} if look == 0 else {"label": "foo"}))
    p = registry_packed.copy()
    p.register_encoder(lk, e, label="foo")
    return ABICodec(r), ABICodec(p), Spec("foo", width)


def replace(t, x):
    if t == ("leaf",):
        return x
    if t[0] == "arr":
        return ("arr", replace(t[1], x), t[2])
    if t[0] == "tup":
        return ("tup", tuple(replace(c, x) for c in t[1]))
    return t


class CBuild(gen.Build):
    """Values; the custom leaf may be replaced by a wrong one (bad_at: which occurrence)."""

    def __init__(self, ch, bad_at=None, badv=None, **kw):
        super().__init__(ch, **kw)
        self.bad_at = bad_at
        self.badv = badv
        self.seen = 0

    def value(self, t, depth=0):
        if t[0] == "custom":
            self.seen += 1
            if self.seen == self.bad_at:
                return self.badv
            return (self.seen * 5 + 1) % 60
        return super().value(t, depth)


def compose(ch, job):
    """The custom type at every position of every type tree."""
    kind, width, look, shapes = job
    std, pk, spec = codec(kind, width, look)
    x = ("custom", spec)
    shape = ch.pick(shapes, free=True)
    t = replace(shape, x)
    s = abi.tstr(t)
    lens = ch.pick(((2, 2, 2), (0, 0, 0), (1, 3, 1)), free=True)
    b = CBuild(ch, lens=lens, vary=False)
    v = b.value(t)
    types, strs, values = ([t], [s], [v])
    if shape[0] == "tup" and ch.pick((0, 1), free=True):
        types, strs, values = list(t[1]), [abi.tstr(c) for c in t[1]], list(v)
    data = abi.enc_seq(types, values)
    what = f"custom {kind} {width} coder, types {strs}, values {short(values)}"
    ch.op(6)
    got = std.encode(strs, values)
    if got != data:
        raise Violation(f"{what}: encode gives {short(got.hex(), 800)}, expected {short(data.hex(), 800)}")
    want = tuple(abi.canon(tt, vv) for tt, vv in zip(types, values))
    for kw in ({}, {"strict": False}, {}):
        g = std.decode(strs, data, **kw)
        if not abi.same_seq(types, g, want):
            raise Violation(f"{what}: decode {kw} gives {short(g)}, expected {short(want)}")
    for tt, ss, vv in zip(types, strs, values):
        if std.is_encodable(ss, vv) is not True or std.is_encodable_type(ss) is not True:
            raise Violation(f"{what}: is_encodable({ss!r}) is not True")
        if pk.is_encodable(ss, vv) is not True:
            raise Violation(f"{what}: packed is_encodable({ss!r}) is not True")
    core.note(f"{width} {'dyn' if abi.is_dyn(t) else 'static'}")
    # a wrong custom value is refused wherever it stands
    for badv in (300, "x", None):
        for at in range(1, b.seen + 1):
            w = CBuild(ch, at, badv, lens=lens, vary=False).value(t)
            ch.op(4)
            for c, name in ((std, "encode"), (pk, "encode_packed")):
                if c.is_encodable(s, w) is not False:
                    raise Violation(f"{what}: is_encodable (for {name}) of {short(w)} is not False")
                try:
                    c.encode([s], [w])
                except EncodingError:
                    pass
                else:
                    raise Violation(f"{what}: {name} accepts {short(w)}")
    # truncated payloads reach the custom decoder and are refused
    if data:
        g = None
        try:
            g = std.decode(strs, data[:-32])
        except DecodingError:
            pass
        if g is not None:
            raise Violation(f"{what}: decode accepts a payload without its last word: {short(g)}")
    if width not in DYNAMIC or kind not in ("object", "partial", "callable", "class", "instance", "parsed", "class/callable", "callable/instance"):
        want_p = b"".join(abi.packed(tt, vv) for tt, vv in zip(types, values))
        g = pk.encode(strs, values)
        if g != want_p:
            raise Violation(f"{what}: encode_packed gives {short(g.hex(), 800)}, expected {short(want_p.hex(), 800)}")
    return s, short(v, 80)


UNAFFECTED = (
    ("uint8", 5), ("bytes", b"ab"), ("uint8[]", [1, 2]), ("(uint8,bytes)[2]", [(1, b"a"), (2, b"")]), ("string", "foo"), ("bool", True),
    ("address", "0x" + "11" * 20), ("fixed8x1", gen.D("1.5")), ("(bytes,(int16,string)[])", (b"q", [(-5, "s")])), ("bytes3", b"abc"),
)


def others(ch, job):
    """Other types, and codecs on the original registry, are unaffected."""
    kind, width, look = job
    std, pk, spec = codec(kind, width, look)
    use = ch.pick((0, 1), free=True)
    if use:
        std.decode(["(foo[],uint8)"], std.encode(["(foo[],uint8)"], [([1, 2], 5)]), strict=False)
    s, v = ch.pick(UNAFFECTED, free=True)
    t = abi.ptype(s)
    ch.op(6)
    data = abi.enc_seq([t], [v])
    for c in (std, eth_abi):
        if c.encode([s], [v]) != data or not abi.same_seq([t], c.decode([s], data), (abi.canon(t, v),)):
            raise Violation(f"registering a {kind} {width} coder changes type {s}")
        for w in (None, object(), 1 << 300):
            if c.is_encodable(s, w) is not False:
                raise Violation(f"registering a {kind} {width} coder changes is_encodable({s!r}, {w!r})")
    if pk.encode([s], [v]) != abi.packed(t, v) or encode_packed([s], [v]) != abi.packed(t, v):
        raise Violation(f"registering a {kind} {width} coder changes packed type {s}")
    for f in (eth_abi.is_encodable, is_encodable_packed):
        if f("foo", 1) is not False or f("foo[]", [1]) is not False:
            raise Violation("the custom type is known to the built-in codec")
    core.note("unaffected")
    return s, kind, width


def two(ch, job):
    """Two custom types of different kinds next to each other."""
    (k1, w1), (k2, w2) = job
    r = registry.copy()
    e1, d1 = KINDS[k1](w1)
    e2, d2 = KINDS[k2](w2)
    r.register("foo", e1, d1)
    r.register("bar", e2, d2)
    c = ABICodec(r)
    a, b = ("custom", Spec("foo", w1)), ("custom", Spec("bar", w2))
    by = ("bytes",)
    t = ch.pick(
        (("tup", (a, b)), ("tup", (b, by, a)), ("arr", ("tup", (a, b)), None), ("tup", (("arr", a, 2), ("arr", b, None))), ("arr", ("tup", (by, b, a)), 2)),
        free=True,
    )
    v = CBuild(ch, lens=(2, 2), vary=False).value(t)
    s = abi.tstr(t)
    data = abi.enc_seq([t], [v])
    ch.op(3)
    got = c.encode([s], [v])
    if got != data:
        raise Violation(f"{k1} {w1} and {k2} {w2}: encode([{s!r}], [{v}]) gives {got.hex()}, expected {data.hex()}")
    g = c.decode([s], data)
    if not abi.same_seq([t], g, (abi.canon(t, v),)):
        raise Violation(f"{k1} {w1} and {k2} {w2}: decode([{s!r}]) gives {g}")
    if c.is_encodable(s, v) is not True:
        raise Violation(f"{k1} {w1} and {k2} {w2}: is_encodable({s!r}, {v}) is not True")
    core.note("two")
    return s


def has_leaf(t):
    if t == ("leaf",):
        return True
    if t[0] == "arr":
        return has_leaf(t[1])
    return t[0] == "tup" and any(map(has_leaf, t[1]))


def jobs(tier):
    out = []
    size = {"quick": 5, "thorough": 6}[tier]
    shapes = [t for t in gen.all_trees(size, (("leaf",), ("uint", 8), ("bytes",))) if has_leaf(t)]
    for kind in KINDS:
        for w in WIDTHS:
            for look in range(3):
                sh = shapes if look == 0 or tier == "thorough" else shapes[:40]
                for i in range(0, len(sh), 40):
                    out.append(("compose", (kind, w, look, tuple(sh[i : i + 40])), 0, None))
                out.append(("others", (kind, w, look), 0, None))
    kw = list(itertools.product(("callable", "class", "instance"), WIDTHS))
    out += [("two", (p, q), 0, None) for p in kw for q in kw]
    return out


CHECK = core.Check(
    "C17",
    {"compose": compose, "others": others, "two": two},
    jobs,
    TRUST + ["a dynamic plain callable declares itself with an is_dynamic attribute, as coder classes do"],
    lambda t: "8 ways to provide a coder x 6 encodings (one word, two words, 20 bytes, nothing, dynamic, dynamic of any length) x 3 lookups x every type tree of <=5 nodes "
    "(thorough 6) that contains the custom type (leaves custom/uint8/bytes) x 3 length patterns; 3 wrong values at every "
    "occurrence; truncated payloads; all pairs of 18 coders in 5 compounds; 10 other types on the same and the original registry",
)
