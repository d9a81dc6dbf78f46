import decimal
import itertools
import re

from checks.common import *
from eth_abi import grammar

D = decimal.Decimal
W = abi.word
FUNCS = {
    "encode": eth_abi.encode, "decode": eth_abi.decode, "is_encodable": eth_abi.is_encodable, "is_encodable_type": eth_abi.is_encodable_type,
    "encode_packed": encode_packed, "is_encodable_packed": is_encodable_packed, "parse": grammar.parse, "normalize": grammar.normalize,
}


def s32(b):
    return b + bytes(-len(b) % 32)


AB = W(32) + W(2) + s32(b"ab")
DIRTY = W(32) + W(2) + b"ab" + b"\x01" * 30  # non-zero padding
CUT = W(32) + W(2) + b"ab"  # padding missing
ARR = W(32) + W(2) + W(64) + W(128) + W(1) + s32(b"x") + W(2) + s32(b"yz")
ARR_BAD = W(32) + W(2) + W(64) + W(0) + W(1) + s32(b"x") + W(2) + s32(b"yz")
ARR_SHORT = ARR[:-40]
TUP = W(32) + W(5) + W(64) + W(2) + s32(b"ab")

# ------------------------------------------------------------------ the alphabet of calls.
# Each entry builds fresh arguments: (function, args, kwargs)
CALLS = [
    lambda: ("encode", (["uint8"], [1]), {}),
    lambda: ("encode", (["uint8"], [True]), {}),
    lambda: ("encode", (["bool"], [True]), {}),
    lambda: ("encode", (["bool"], [1]), {}),
    lambda: ("encode", (["fixed128x18"], [D("1.0")]), {}),
    lambda: ("encode", (["uint8", "bytes[]"], [1, [b"ab", bytearray(b"ab")]]), {}),
    lambda: ("encode", (["(uint8,bytes)[]"], [[(1, bytearray(b"ab")), [2, b"c"]]]), {}),
    lambda: ("encode", (["(uint8,bytes)[]"], [[(1, bytearray(b"ab")), [300, b"c"]]]), {}),
    lambda: ("encode", (["bytes[2]"], [[b"ab"]]), {}),
    lambda: ("decode", (["bytes"], AB), {}),
    lambda: ("decode", (["bytes"], DIRTY), {}),
    lambda: ("decode", (["bytes"], DIRTY), {"strict": False}),
    lambda: ("decode", (["bytes"], bytearray(CUT)), {"strict": False}),
    lambda: ("decode", (["string"], bytearray(AB)), {}),
    lambda: ("decode", (["string"], W(32) + W(2) + s32(b"\xff\xfe")), {}),
    lambda: ("decode", (["bytes[]"], bytearray(ARR)), {}),
    lambda: ("decode", (["bytes[]"], ARR_BAD), {}),
    lambda: ("decode", (["bytes[]"], ARR_SHORT), {}),
    lambda: ("decode", (["(uint8,bytes)"], TUP), {}),
    lambda: ("decode", (["int8", "uint8"], W(-1) + W(255)), {}),
    lambda: ("decode", (["uint8", "int8"], W(-1) + W(255)), {}),
    lambda: ("decode", (["fixed8x1"], W(-5)), {}),
    lambda: ("is_encodable", ("uint8", 1), {}),
    lambda: ("is_encodable", ("uint8", 1.0), {}),
    lambda: ("is_encodable", ("uint8", True), {}),
    lambda: ("is_encodable", ("fixed128x18", 1.0), {}),
    lambda: ("is_encodable", ("fixed128x18", D(1)), {}),
    lambda: ("is_encodable", ("nosuch", 1), {}),
    lambda: ("is_encodable_type", ("(uint8,nosuch)[]",), {}),
    lambda: ("is_encodable_type", ("(uint8,bytes)[]",), {}),
    lambda: ("encode_packed", (["uint8", "bytes[]"], [1, [b"ab", bytearray(b"c")]]), {}),
    lambda: ("encode_packed", (["uint8"], [True]), {}),
    lambda: ("encode_packed", (["string"], ["ab"]), {}),
    lambda: ("encode_packed", (["bytes"], [bytearray(b"ab")]), {}),
    lambda: ("is_encodable_packed", ("uint8[2]", [1, 2]), {}),
    lambda: ("parse", ("(uint8,bytes)[]",), {}),
    lambda: ("parse", ("uint08",), {}),
    lambda: ("parse", ("uint",), {}),
    lambda: ("normalize", ("(uint,fixed)[2]",), {}),
    lambda: ("encode", (["uint"], [1]), {}),
    lambda: ("encode", ("uint8", [1]), {}),
    lambda: ("decode", (["bytes"], AB.hex()), {}),
    lambda: ("encode", (["address"], ["0x" + "aB" * 20]), {}),
    lambda: ("decode", (["address"], W(0xAB)), {}),
    lambda: ("encode", (["string"], ["\ud800"]), {}),
    lambda: ("encode", (["fixed128x18"], [D("NaN")]), {}),
]
# ------------------------------------------------------------------ groups of calls that share coders:
# one leaf type alone, in an array and in a tuple; accepted payloads and payloads with each kind of fault
N_BASE = len(CALLS)
GROUPS = {}
LEAVES = ("string", "bytes", "uint8", "int16", "bytes3", "bool", "fixed8x1", "address", "function")


def _payloads(t, v, w):
    """Two accepted payloads of [t] and neighbours with one thing changed each."""
    ok = abi.enc_seq([t], [v])
    out = [ok, abi.enc_seq([t], [w])]
    out += [ok[:-1], ok[:-32], ok[:-32] + b"\xff" * 32, ok[:-1] + b"\x01"]
    for k in range(min(len(ok) // 32 - 1, 3)):
        out.append(ok[: 32 * k] + W(2**256 - 1) + ok[32 * k + 32 :])
        out.append(ok[: 32 * k] + W(0) + ok[32 * k + 32 :])
    if abi.has_string(t):
        k = ok.rfind(b"ab")
        out.append(ok[:k] + b"\xff\xfe" + ok[k + 2 :])
    return list(dict.fromkeys(out))


def _bad(t):
    return {"string": 5, "bytes": "ab", "bytesM": b"abcdefghijklmnopqrstuvwxyz" * 2, "bool": 2, "address": b"ab", "uint": 256, "int": 1 << 20}.get(t[0], D("0.01"))


def _groups():
    for leaf in LEAVES:
        lt = abi.ptype(leaf)
        v, w, bad = ("ab", "cdé", 5) if leaf == "string" else (b"ab", b"\x00", "ab") if leaf == "bytes" else (gen.default(lt, 1), gen.default(lt, 2), _bad(lt))
        ids = []
        for shape, mk in (("{}", lambda x: x), ("{}[]", lambda x: [x]), ("(uint8,{})", lambda x: (7, x))):
            ty = shape.format(leaf)
            t = abi.ptype(ty)
            calls = [("decode", ([ty], p), {"strict": s}) for p in _payloads(t, mk(v), mk(w)) for s in (True, False)]
            calls += [(f, ([ty], [mk(x)]), {}) for f in ("encode", "encode_packed") for x in (v, bad)]
            calls += [("is_encodable", (ty, mk(x)), {}) for x in (v, bad)]
            for c in calls:
                ids.append(len(CALLS))
                CALLS.append(lambda c=c: (c[0], tuple(list(map(_fresh, a)) if isinstance(a, list) else a for a in c[1]), dict(c[2])))
        GROUPS[leaf] = tuple(ids)


# compound types, with faults in every word
SHAPES = {
    "uint8[3]": ((1, 2, 3), (4, 5, 6)), "uint8[]": ((1, 2, 3), (9,)), "(uint8,bool,int8)": ((1, True, -1), (2, False, 3)),
    "bytes[2]": ((b"ab", b"c"), (b"", b"zz")), "(uint8,string,uint8[])": ((1, "ab", (5, 6)), (2, "", ())),
    "(uint8,bytes3)[2]": (((1, b"abc"), (2, b"def")), ((3, b"xyz"), (4, b"uvw"))), "uint8[2][]": (((1, 2), (3, 4)), ((5, 6),)),
    "string[][2]": ((("ab",), ("c", "d")), ((), ("x",))),
}


def _shapes():
    for ty, (v, w) in SHAPES.items():
        t = abi.ptype(ty)
        ok = abi.enc_seq([t], [v])
        n = len(ok) // 32
        pays = [ok, abi.enc_seq([t], [w]), b""] + [ok[: 32 * k] + W(x) + ok[32 * k + 32 :] for k in range(n) for x in (2**256 - 1, 7)] + [ok[:k] for k in range(32, len(ok), 32)]
        calls = [("decode", ([ty], p), {}) for p in dict.fromkeys(pays)]
        calls += [(f, ([ty], [x]), {}) for f in ("encode", "encode_packed") for x in (v, w, (), _spoil(v, True), _spoil(v, False))]
        calls += [("is_encodable", (ty, x), {}) for x in (v, _spoil(v, True))]
        ids = range(len(CALLS), len(CALLS) + len(calls))
        CALLS.extend(lambda c=c: (c[0], tuple(list(a) if isinstance(a, list) else a for a in c[1]), dict(c[2])) for c in calls)
        GROUPS[ty] = tuple(ids)


def _spoil(v, last):
    """v with the last (or first) leaf replaced by a value of no type."""
    if not isinstance(v, tuple) or not v:
        return None
    return v[:-1] + (_spoil(v[-1], last),) if last else (_spoil(v[0], last),) + v[1:]


def _fresh(x):
    return list(map(_fresh, x)) if isinstance(x, list) else x


_groups()
_shapes()
SMALL = (1, 2, 3, 7, 9, 10, 11, 12, 14, 16, 17, 18, 24, 26, 28, 30, 35, 42)


def freeze(x):
    """Deep snapshot with types."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(freeze, x)))
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, D):
        return ("D", str(x))
    if isinstance(x, (bytes, bytearray)):
        return (type(x).__name__, bytes(x))
    if isinstance(x, grammar.ABIType):
        return (type(x).__name__, x.to_type_str(), repr(x.arrlist), freeze(getattr(x, "components", None)))
    return (type(x).__name__, repr(x))


def immutable(x):
    if isinstance(x, tuple):
        return all(map(immutable, x))
    return x is None or type(x) in (int, bool, str, bytes, D)


def scrub(s):
    return re.sub(r"0x[0-9a-f]{8,}", "0x..", s)[:200]


def perform(i, results=None):
    """Run call i on fresh arguments; returns its frozen outcome.  Afterwards the arguments
    must be as before; then everything mutable in them is scribbled over, and earlier results
    (kept in `results`) must not change."""
    name, args, kw = CALLS[i]()
    before = freeze((args, kw))
    try:
        r = FUNCS[name](*args, **kw)
    except core.ExecTimeout:
        raise
    except Exception as e:
        out = ("raises", type(e).__name__, scrub(str(e)))
        r = None
    else:
        out = ("returns", freeze(r))
        if not isinstance(r, grammar.ABIType) and not immutable(r):
            raise Violation(f"{name}({short(args)}) returns mutable or unexpected objects: {short(r)}")
    if freeze((args, kw)) != before:
        raise Violation(f"{name} changes its arguments: {short(before)} -> {short(freeze((args, kw)))}")
    if results is not None:
        results.append((i, r, freeze(r)))
        scribble(args)
        for j, old, was in results:
            if freeze(old) != was:
                raise Violation(f"the result of {show(j)} changed after changing the arguments of, or after calling, {show(i)}: {short(was)} -> {short(old)}")
    return out


def scribble(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            x.append("scribble")
            x[0] = None
    elif isinstance(x, bytearray):
        x[:] = b"\x77" * len(x)


def show(i):
    name, args, kw = CALLS[i]()
    return f"{name}({', '.join([short(a, 200) for a in args] + [f'{k}={v}' for k, v in kw.items()])})"


_alone = {}


def alone(i):
    if i not in _alone:
        _alone[i] = core.forked(lambda: perform(i, []))
    return _alone[i]


def sequence(ch, job):
    """First calls fixed by the job, the others chosen; every execution in a fresh process."""
    first, n, alphabet = job
    seq = list(first)
    while len(seq) < n:
        seq.append(ch.pick(alphabet, free=True))
    want = [alone(i) for i in sorted(set(seq))]
    want = dict(zip(sorted(set(seq)), want))

    def run():
        results = []
        for k, i in enumerate(seq):
            got = perform(i, results)
            if got != want[i]:
                raise Violation(
                    f"{show(i)} alone: {want[i]}\n  after " + "; ".join(show(j) for j in seq[:k]) + f": {got}",
                )
        return len(seq)

    ch.op(core.forked(run))
    for i in seq:
        core.note(f"{i} {want[i][0]}")
    return [show(i) for i in seq][:3]


def repeat(ch, job):
    """The same call n times, with another one at every position, in one process."""
    i, n = job
    j = ch.pick(range(N_BASE), free=True)
    want = {k: alone(k) for k in {i, j}}

    def run():
        results = []
        for k in range(n):
            for c in (i,) * (k % 3 + 1) + (j,):
                got = perform(c, results)
                if got != want[c]:
                    raise Violation(f"{show(c)} alone: {want[c]}; in repetition {k} of {show(i)} and {show(j)}: {got}")
            del results[:-6]
        return 2 * n

    ch.op(core.forked(run))
    core.note("repeat")
    return show(i), show(j)


# ------------------------------------------------------------------ long histories over many types
def history(ch, job):
    """Every type of a long list in one process, in a chosen order and with a probe after each:
    nothing that the library keeps about one type shows up in another."""
    which, stride = job
    strict = ch.pick((True, False), free=True)
    if which == "basics":
        ts = [(s, t) for s, t in gen.basics()]
    elif which == "fixed":
        ts = [(abi.tstr(t), t) for t in gen.FIXEDS]
    else:
        ts = [(abi.tstr(t), t) for t in gen.all_trees(4)]
    n = len(ts)
    order = [(k * stride) % n for k in range(n)] if stride else list(range(n - 1, -1, -1))

    def run():
        b = gen.Build(core.Chooser(), vary=False)
        for rnd in range(2):
            for k in order:
                s, t = ts[k]
                v = b.value(t)
                data = abi.enc_seq([t], [v])
                if encode([s], [v]) != data:
                    raise Violation(f"in a long history encode([{s!r}], [{short(v)}]) -> {encode([s], [v]).hex()}")
                got = decode([s], data, strict=strict)
                if not abi.same_seq([t], got, (abi.canon(t, v),)):
                    raise Violation(f"in a long history decode([{s!r}], {data.hex()}, strict={strict}) -> {short(got)}")
                if encode_packed([s], [v]) != abi.packed(t, v):
                    raise Violation(f"in a long history encode_packed([{s!r}], [{short(v)}]) -> {encode_packed([s], [v]).hex()}")
                if is_encodable(s, None) is not False or is_encodable(s, v) is not True:
                    raise Violation(f"in a long history is_encodable({s!r}) is wrong")
        return 10 * len(order)

    ch.op(core.forked(run))
    core.note(which)
    return which, stride, strict, n


# ------------------------------------------------------------------ the same objects, changed in place between calls
SLOTS = {
    # name: (function, build(contents) -> args, set(args, contents), contents)
    "buffer": ("decode", lambda x: (["bytes"], bytearray(x)), lambda a, x: _set(a[1], x), (AB, W(32) + W(2) + s32(b"zz"), DIRTY, W(32) + W(1) + s32(b"q"), CUT, W(64) + W(2) + s32(b"ab"))),
    "buffer text": ("decode", lambda x: (["string"], bytearray(x)), lambda a, x: _set(a[1], x), (AB, W(32) + W(2) + s32(b"zz"), DIRTY, W(32) + W(2) + s32(b"\xff\xfe"), CUT)),
    "buffer words": ("decode", lambda x: (["uint8", "int8"], bytearray(x)), lambda a, x: _set(a[1], x), (W(1) + W(2), W(255) + W(-1), W(-1) + W(1), W(3), W(5) + W(6) + W(7))),
    "types in": ("encode", lambda x: (list(x), [1, b"\x05"]), lambda a, x: _set(a[0], x), (("uint8", "bytes1"), ("int16", "bytes"), ("bytes", "bytes"), ("uint8",), ("bool", "bytes1"), ("uint256", "nosuch"))),
    "types out": ("decode", lambda x: (list(x), W(64) + W(1) + W(1) + s32(b"z")), lambda a, x: _set(a[0], x), (("uint8", "uint8"), ("bytes", "bool"), ("uint256", "bytes"), ("uint8",), ("string", "string"), ("nosuch",))),
    "types packed": ("encode_packed", lambda x: (list(x), [1, b"\x05"]), lambda a, x: _set(a[0], x), (("uint8", "bytes1"), ("int16", "bytes"), ("bytes", "bytes"), ("uint8",), ("uint256", "nosuch"))),
    "values": ("encode", lambda x: (["uint8", "uint8"], list(x)), lambda a, x: _set(a[1], x), ((1, 2), (3, 4), (1, 300), (1,), (1, 2, 3), (True, 2))),
    "values packed": ("encode_packed", lambda x: (["uint8", "uint8"], list(x)), lambda a, x: _set(a[1], x), ((1, 2), (3, 4), (1, 300), (1,), (1, 2, 3))),
    "items": ("encode", lambda x: (["uint8[]", "uint8[2]"], [list(x), [1, 2]]), lambda a, x: _set(a[1][0], x), ((1, 2), (3, 4), (1, 300), (), (1, 2, 3), ("a", 2))),
    "items packed": ("encode_packed", lambda x: (["uint8[]"], [list(x)]), lambda a, x: _set(a[1][0], x), ((1, 2), (3, 4), (1, 300), (), (1, 2, 3))),
    "members": ("encode", lambda x: (["(uint8,bytes)"], [list(x)]), lambda a, x: _set(a[1][0], x), ((1, b"ab"), (2, b"ab"), (1, b"zz"), (1,), (1, 2))),
    "blob": ("encode", lambda x: (["bytes", "bytes[]"], [bytearray(x), [b"q"]]), lambda a, x: _set(a[1][0], x), (b"ab", b"zz", b"", b"abc" * 20)),
    "blob inside": ("encode", lambda x: (["(uint8,bytes3)[]"], [[(1, bytearray(x))]]), lambda a, x: _set(a[1][0][0][1], x), (b"ab", b"zz", b"", b"abcd")),
    "blob packed": ("encode_packed", lambda x: (["bytes"], [bytearray(x)]), lambda a, x: _set(a[1][0], x), (b"ab", b"zz", b"", b"abc" * 20)),
    "asked items": ("is_encodable", lambda x: ("uint8[2]", list(x)), lambda a, x: _set(a[1], x), ((1, 2), (3, 300), (), (1, 2, 3), ("a", 2))),
    "asked blob": ("is_encodable", lambda x: ("bytes3", bytearray(x)), lambda a, x: _set(a[1], x), (b"ab", b"zz", b"", b"abcd")),
    "asked packed": ("is_encodable_packed", lambda x: ("uint8[2]", list(x)), lambda a, x: _set(a[1], x), ((1, 2), (3, 300), (), (1, 2, 3))),
}


def _set(x, contents):
    x[:] = contents


def outcome(name, args, kw={}):
    try:
        return "returns", freeze(FUNCS[name](*args, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return "raises", type(e).__name__, scrub(str(e))


def inplace(ch, job):
    """Calls with the same argument objects, whose contents the caller changes between the
    calls: each outcome is that of fresh objects with the same contents."""
    slot, n, kw = job
    name, build, put, contents = SLOTS[slot]
    seq = [ch.pick(contents, free=True) for _ in range(n)]
    want = [core.forked(lambda: outcome(name, build(x), kw)) for x in seq]

    def run():
        args = build(seq[0])
        for k, x in enumerate(seq):
            put(args, x)
            got = outcome(name, args, kw)
            if got != want[k]:
                raise Violation(f"{name} ({slot}) with {short(x)}: {want[k]}; the same object after {short(seq[:k])}: {got}")
        return n

    ch.op(core.forked(run))
    core.note(f"inplace {slot}")
    return slot, [repr(x)[:80] for x in seq]


def coprime(n, k):
    import math

    while math.gcd(n, k) != 1:
        k += 1
    return k


def jobs(tier):
    n = N_BASE
    out = [("sequence", ((), 1, tuple(range(n))), 0, None)]
    out += [("sequence", ((i,), 2, tuple(range(n))), 0, None) for i in range(n)]
    if tier == "quick":
        out += [("sequence", ((i, j), 3, SMALL), 0, None) for i in SMALL for j in SMALL]
    else:
        out += [("sequence", ((i, j), 3, tuple(range(n))), 0, None) for i in range(n) for j in range(n)]
    for g in GROUPS.values():
        out += [("sequence", ((i,), 2, g), 0, None) for i in g]
        if tier != "quick":
            out += [("sequence", ((i, j), 3, g[::2]), 0, None) for i in g[::2] for j in g[::2]]
    for slot, (name, _, _, contents) in SLOTS.items():
        for kw in ({}, {"strict": False}) if name == "decode" else ({},):
            out += [("inplace", (slot, k, kw), 0, None) for k in ((2, 3) if tier == "quick" else (2, 3, 4))]
    out += [("repeat", (i, 40 if tier == "quick" else 150), 0, None) for i in range(n)]
    for which, m in (("basics", len(gen.basics())), ("fixed", len(gen.FIXEDS)), ("trees", len(gen.all_trees(4)))):
        for k in (0, 1, 2, 7, 64) if tier == "quick" else (0, 1, 2, 3, 5, 7, 8, 31, 64, 127, 200):
            out.append(("history", (which, coprime(m, k) if k else 0), 0, None))
    return out


CHECK = core.Check(
    "C18",
    {"sequence": sequence, "repeat": repeat, "history": history, "inplace": inplace},
    jobs,
    TRUST + ["parsed type descriptions (ABIType objects) are immutable by convention: the harness does not assign to their attributes"],
    lambda t: f"{N_BASE} calls (equal values of different types, failing calls at every stage, strict and not, packed, parser): every "
    "sequence of <=2, of 3 over 18 of them (thorough: over all), each in a fresh process and compared with the call alone; every pair "
    "repeated 40 (150) times; every pair (thorough: triples of every second call) of the calls of each of 17 groups that share coders (9 leaf types alone, in an "
    "array, in a tuple; accepted payloads and neighbours with one fault, strict and not; good and bad values; 8 compound types with a fault in each word of the payload or the first or last item); every sequence of <=3 (4) "
    "contents put in place into the same argument objects; arguments snapshotted and then overwritten; histories of two rounds over all basic types, all 5120 fixed "
    "types and all trees of <=4 nodes in 5 (11) orders",
)
