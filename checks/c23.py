import array
import collections
import io

from checks.common import *
from eth_abi import abi as abimod, packed as packedmod
from eth_abi.codec import ABICodec, ABIDecoder, ABIEncoder
from eth_abi.decoding import ContextFramesBytesIO

# ------------------------------------------------------------------ 1. kinds of arguments
Pair = collections.namedtuple("Pair", "a b")


class L(list):
    pass


class Tu(tuple):
    pass


class By(bytes):
    pass


class Ba(bytearray):
    pass


def gen_of(xs):
    for x in xs:
        yield x


# name -> (accepted, function from a list of items)
CONTAINERS = {
    "list": (True, list), "tuple": (True, tuple), "list subclass": (True, L), "tuple subclass": (True, Tu),
    "generator": (False, gen_of), "iterator": (False, iter), "map": (False, lambda xs: map(lambda x: x, xs)), "dict": (False, lambda xs: {i: x for i, x in enumerate(xs)}),
    "dict keys": (False, lambda xs: dict.fromkeys(map(str, xs)).keys()), "dict values": (False, lambda xs: {i: x for i, x in enumerate(xs)}.values()),
    "set": (False, lambda xs: set(map(str, xs))), "frozenset": (False, lambda xs: frozenset(map(str, xs))), "deque": (False, collections.deque),
    "UserList": (False, collections.UserList), "str": (False, lambda xs: "".join(map(str, xs))), "bytes": (False, lambda xs: bytes(len(xs))),
    "bytearray": (False, lambda xs: bytearray(len(xs))), "range": (False, lambda xs: range(len(xs))), "None": (False, lambda xs: None), "int": (False, len),
    "the item": (False, lambda xs: xs[0] if xs else 0), "memoryview": (False, lambda xs: memoryview(bytes(len(xs)))), "True": (False, lambda xs: True),
    "object": (False, lambda xs: object()),
}
DATA = {
    "bytes": (True, bytes), "bytearray": (True, bytearray), "bytes subclass": (True, By), "bytearray subclass": (True, Ba), "memoryview": (False, memoryview),
    "hex": (False, lambda d: d.hex()), "0x hex": (False, lambda d: "0x" + d.hex()), "latin": (False, lambda d: d.decode("latin1")), "list": (False, list),
    "tuple": (False, tuple), "array": (False, lambda d: array.array("B", d)), "stream": (False, io.BytesIO), "frames": (False, ContextFramesBytesIO),
    "None": (False, lambda d: None), "int": (False, lambda d: int.from_bytes(d, "big")), "bool": (False, lambda d: True), "list of bytes": (False, lambda d: [d]),
}
ARGS = ((["uint8"], [5]), (["uint8", "bytes"], [5, b"ab"]), (["string"], ["x"]), (["bool[]", "(uint8,string)"], [[True], (1, "s")]), ([], []), (["bytes"], [b"b"]))
ENC = {
    "encode": (lambda: eth_abi.encode, False), "codec.encode": (lambda: ABICodec(registry).encode, False), "encode_packed": (lambda: encode_packed, True),
    "encoder.encode": (lambda: ABIEncoder(registry_packed).encode, True),
}
DECS = {"decode": lambda: eth_abi.decode, "codec.decode": lambda: ABICodec(registry).decode, "decoder.decode": lambda: ABIDecoder(registry).decode}


def call(f, *a, **kw):
    try:
        return ("value", f(*a, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raise", e)


def reference(types, values, packed):
    ts = [abi.ptype(t) for t in types]
    if packed:
        return b"".join(abi.packed(t, v) for t, v in zip(ts, values))
    return abi.enc_seq(ts, values)


def enc_kinds(ch, job):
    fn, i = job
    types, values = ARGS[i]
    tk = ch.pick(list(CONTAINERS), free=True)
    ak = ch.pick(list(CONTAINERS), free=True)
    how = ch.pick(("positional", "keywords"), free=True)
    mk, packed = ENC[fn]
    f = mk()
    t, a = CONTAINERS[tk][1](list(types)), CONTAINERS[ak][1](list(values))
    ch.op()
    r = call(f, t, a) if how == "positional" else call(f, types=t, args=a)
    tok = CONTAINERS[tk][0] or type(t) in (list, tuple)
    aok = CONTAINERS[ak][0] or type(a) in (list, tuple)
    if tok and aok:
        if tk == "the item" or ak == "the item":
            core.note("item")
            return None
        core.note("accepted")
        want = reference(types, values, packed)
        if r != ("value", want):
            raise Violation(f"{fn} with types as {tk}, args as {ak} ({types}, {values}) -> {short(r)}, expected {want.hex()}")
    else:
        core.note("refused")
        if r[0] == "value" or not isinstance(r[1], TypeError):
            raise Violation(f"{fn} with types as {tk}, args as {ak} ({types}, {values}) -> {short(r)}, expected TypeError")
    return fn, tk, ak


def dec_kinds(ch, job):
    fn, i = job
    types, values = ARGS[i]
    tk = ch.pick(list(CONTAINERS), free=True)
    dk = ch.pick(list(DATA), free=True)
    how = ch.pick(("positional", "keywords", "strict", "lax", "lax positional"), free=True)
    f = DECS[fn]()
    data = reference(types, values, False)
    t, d = CONTAINERS[tk][1](list(types)), DATA[dk][1](data)
    ch.op()
    r = {
        "positional": lambda: call(f, t, d), "keywords": lambda: call(f, types=t, data=d), "strict": lambda: call(f, t, d, strict=True),
        "lax": lambda: call(f, types=t, data=d, strict=False), "lax positional": lambda: call(f, t, d, False),
    }[how]()
    tok = CONTAINERS[tk][0] or type(t) in (list, tuple)
    if tok and DATA[dk][0]:
        core.note("accepted")
        want = tuple(abi.canon(abi.ptype(s), v) for s, v in zip(types, values))
        if r[0] != "value" or type(r[1]) is not tuple or not abi.same_seq([abi.ptype(s) for s in types], r[1], want):
            raise Violation(f"{fn} with types as {tk}, data as {dk} ({types}, {values}) -> {short(r)}, expected {short(want)}")
    else:
        core.note("refused")
        if r[0] == "value" or not isinstance(r[1], TypeError):
            raise Violation(f"{fn} with types as {tk}, data as {dk} ({types}, {values}) -> {short(r)}, expected TypeError")
    return fn, tk, dk


# ------------------------------------------------------------------ 2. numbers of types and values
ITEMS = (("uint8", 5), ("bytes", b"ab"), ("(bool,string)", (True, "s")), ("int16[2]", [1, 2]), ("string[]", []))


def arity(ch, job):
    """n types with m values: accepted exactly when n == m."""
    n, m = job
    first = ch.pick(range(len(ITEMS)), free=True)
    packed = ch.pick((False, True), free=True)
    types = [ITEMS[(first + i) % len(ITEMS)][0] for i in range(n)]
    values = [ITEMS[(first + i) % len(ITEMS)][1] for i in range(m)]
    for cont in (list, tuple):
        ch.op()
        r = call(encode_packed if packed else encode, types, cont(values))
        if n == m:
            want = reference(types, values, packed)
            if r != ("value", want):
                raise Violation(f"encode{'_packed' if packed else ''}({types}, {values}) -> {short(r)}, expected {want.hex()}")
            core.note("same number")
        else:
            if r[0] == "value" or not isinstance(r[1], EncodingError):
                raise Violation(f"encode{'_packed' if packed else ''} of {n} types and {m} values ({types}, {values}) -> {short(r)}, expected EncodingError")
            core.note("different number")
    return n, m


# ------------------------------------------------------------------ 3. entry points agree
def encoders():
    c = registry.copy()
    return (
        ("eth_abi.encode", eth_abi.encode), ("eth_abi.abi.encode", abimod.encode), ("default_codec", abimod.default_codec.encode),
        ("ABIEncoder", ABIEncoder(registry).encode), ("ABICodec", ABICodec(registry).encode), ("codec of a copy", ABICodec(c).encode),
        ("codec of a copy, again", ABICodec(c).encode),
    )


def packers():
    c = registry_packed.copy()
    return (
        ("encode_packed", packedmod.encode_packed), ("default_encoder_packed", packedmod.default_encoder_packed.encode),
        ("ABIEncoder", ABIEncoder(registry_packed).encode), ("ABICodec", ABICodec(registry_packed).encode), ("copy", ABIEncoder(c).encode),
    )


def decoders():
    c = registry.copy()
    return (
        ("eth_abi.decode", eth_abi.decode), ("eth_abi.abi.decode", abimod.decode), ("default_codec", abimod.default_codec.decode),
        ("ABIDecoder", ABIDecoder(registry).decode), ("ABICodec", ABICodec(registry).decode), ("codec of a copy", ABICodec(c).decode),
    )


def checkers():
    return (
        ("is_encodable", eth_abi.is_encodable), ("abi.is_encodable", abimod.is_encodable), ("default_codec", abimod.default_codec.is_encodable),
        ("ABIEncoder", ABIEncoder(registry).is_encodable), ("copy", ABICodec(registry.copy()).is_encodable),
    ), (
        ("is_encodable_packed", packedmod.is_encodable_packed), ("default_encoder_packed", packedmod.default_encoder_packed.is_encodable),
        ("ABIEncoder", ABIEncoder(registry_packed).is_encodable), ("ABICodec of a copy", ABICodec(registry_packed.copy()).is_encodable),
    )


EP = (encoders(), packers(), decoders()) + checkers()


def outcome(r):
    return r if r[0] == "value" else ("raise", type(r[1]).__name__)


def agree(what, results):
    first = results[0][1]
    for name, r in results[1:]:
        if r != first or repr(r) != repr(first):
            raise Violation(f"{what}: {results[0][0]} gives {short(first)}, {name} gives {short(r)}")


def entry(ch, job):
    """The same call through every entry point, and through the coder of the tuple type."""
    strs, types, values = gen.trees_make(ch, job)
    data = abi.enc_seq(types, values)
    es, ps, ds, cs, cps = EP
    ch.op(len(es) + len(ps) + 2 * len(ds) + len(cs) + len(cps) + 4)
    w = f"({strs}, {short(values)})"
    tup = "(" + ",".join(strs) + ")"
    res = [(n, outcome(call(f, strs, values))) for n, f in es]
    res.append(("keywords", outcome(call(eth_abi.encode, types=strs, args=values))))
    if strs:
        res.append((f"registry.get_encoder({tup!r})", outcome(call(lambda: registry.get_encoder(tup)(values)))))
    agree("encode" + w, res)
    if res[0][1] != ("value", data):
        raise Violation(f"encode{w} -> {short(res[0][1])}, expected {data.hex()[:600]}")
    res = [(n, outcome(call(f, strs, values))) for n, f in ps]
    if strs:
        res.append((f"registry_packed.get_encoder({tup!r})", outcome(call(lambda: registry_packed.get_encoder(tup)(values)))))
    agree("encode_packed" + w, res)
    for strict in (True, False):
        res = [(n, outcome(call(f, strs, data, strict=strict))) for n, f in ds]
        if strs:
            res.append((f"registry.get_decoder({tup!r})", outcome(call(lambda: registry.get_decoder(tup, strict=strict)(ContextFramesBytesIO(data))))))
        agree(f"decode({strs}, {data.hex()[:600]}, strict={strict})", res)
    for t, v in zip(strs, values):
        for fs in (cs, cps):
            agree(f"is_encodable({t!r}, {short(v)})", [(n, outcome(call(f, t, v))) for n, f in fs])
            agree(f"is_encodable({t!r}, None)", [(n, outcome(call(f, t, None))) for n, f in fs])
    core.note("entry")
    return strs, short(values, 100)


def bad(ch, job):
    """Calls that fail: the same exception class through every entry point."""
    t, v, d = job
    es, ps, ds, cs, cps = EP
    ch.op(len(es) + len(ps) + len(ds) + len(cs) + len(cps))
    agree(f"encode([{t!r}], [{short(v)}])", [(n, outcome(call(f, [t], [v]))) for n, f in es])
    agree(f"encode_packed([{t!r}], [{short(v)}])", [(n, outcome(call(f, [t], [v]))) for n, f in ps])
    for strict in (True, False):
        agree(f"decode([{t!r}], {d.hex()}, strict={strict})", [(n, outcome(call(f, [t], d, strict=strict))) for n, f in ds])
    for fs in (cs, cps):
        agree(f"is_encodable({t!r}, {short(v)})", [(n, outcome(call(f, t, v))) for n, f in fs])
    core.note("bad")
    return t, short(v)


BADS = [
    (t, v, d)
    for t in ("uint8", "int8", "bool", "bytes2", "bytes", "string", "address", "fixed8x1", "uint8[2]", "uint8[]", "(uint8,bytes)", "nosuch", "uint7", "uint8[", "", "()")
    for v in (None, 256, "x", b"abc", [1], (1, 2), [1, b"x"], True, 0.5, gen.D("0.01"), {}, "\ud800")
    for d in (b"", bytes(31), abi.word(0x20) + abi.word(3) + b"ab", b"\xff" * 64)
]


def jobs(tier):
    out = [("enc_kinds", (f, i), 0, None) for f in ENC for i in range(len(ARGS))]
    out += [("dec_kinds", (f, i), 0, None) for f in DECS for i in range(len(ARGS))]
    top = {"quick": 7, "thorough": 20}[tier]
    out += [("arity", (n, m), 0, None) for n in range(top) for m in range(top)]
    small, big = {"quick": (2, 4), "thorough": (3, 5)}[tier]
    ts = gen.all_trees(small)
    out += [("entry", tuple(ts[i : i + 4]), 1, None) for i in range(0, len(ts), 4)]
    ts = [t for n in range(small + 1, big + 1) for t in gen.trees(n)]
    out += [("entry", tuple(ts[i : i + 16]), 0, None) for i in range(0, len(ts), 16)]
    out += [("bad", b, 0, None) for b in BADS]
    return out


CHECK = core.Check(
    "C23",
    {"enc_kinds": enc_kinds, "dec_kinds": dec_kinds, "arity": arity, "entry": entry, "bad": bad},
    jobs,
    TRUST,
    lambda t: f"{len(CONTAINERS)} kinds of containers for types x the same for args ({len(DATA)} kinds of data) x 6 argument lists x 4 encode and 3 "
    "decode entry points, positional and keyword; n types x m values for n, m < 7 (thorough 20); every type of <=2 nodes (thorough 3) with "
    "values within 1 deviation and of <=4 (5) with default values through 7 encode, 5 packed, 6 decode and 9 is_encodable entry points and the "
    f"coder of the tuple type; {len(BADS)} failing calls",
)
