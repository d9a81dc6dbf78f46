"""Input spaces shared by the checks: type trees, leaf sweeps, length sweeps, value forms.

A space is a pair (jobs(tier) -> list of jobs, make(ch, job) -> (type strings, model types,
values)).  All choices go through the chooser, so the explorer enumerates the space.
"""
import collections
import collections.abc
import decimal
import enum
import functools

from mc import abi

D = decimal.Decimal


# ------------------------------------------------------------------ leaves
def _blob(n, seed):
    return bytes(((i * 7 + seed * 13 + 1) % 255) + 1 for i in range(n))


_TEXT = "aé€𝄞z\x00Ω☃b"


def _text(nchars, seed):
    return "".join(_TEXT[(i + seed) % len(_TEXT)] for i in range(nchars))


def default(t, n):
    """A value of leaf type t, distinct for distinct positions n."""
    k = t[0]
    if k == "uint":
        return (n * 37 + 1) % (1 << t[1])
    if k == "int":
        m = (n * 29 + 3) % (1 << (t[1] - 1))
        return -m if n % 2 else m
    if k in ("ufixed", "fixed"):
        m = (n * 29 + 3) % (1 << (t[1] - 1))
        return abi.unscaled(-m if n % 2 and k == "fixed" else m, t[2])
    if k == "bool":
        return n % 2 == 0
    if k == "address":
        return "0x" + (n * 0x0123456789ABCDEF0123 + (1 << 150) + 5).to_bytes(20, "big").hex()
    if k == "bytesM":
        return _blob(t[1], n)
    if k == "bytes":
        return _blob((n * 11 + 5) % 41, n)
    return _text((n * 5 + 3) % 17, n)


@functools.lru_cache(600)
def specials(t):
    """A few boundary values of a leaf type."""
    k = t[0]
    if k == "uint":
        return [0, (1 << t[1]) - 1, 1 << (t[1] - 1)]
    if k == "int":
        return [0, -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1, -1]
    if k == "ufixed":
        return [D(0), abi.unscaled((1 << t[1]) - 1, t[2]), abi.unscaled(1, t[2])]
    if k == "fixed":
        return [
            D(0),
            abi.unscaled(-(1 << (t[1] - 1)), t[2]),
            abi.unscaled((1 << (t[1] - 1)) - 1, t[2]),
            abi.unscaled(-1, t[2]),
        ]
    if k == "bool":
        return [False, True]
    if k == "address":
        return ["0x" + "00" * 20, "0x" + "ff" * 20, bytes(range(20))]
    if k == "bytesM":
        return [b"\xff" * t[1], b"", b"\x00" * t[1], b"\x00" * (t[1] - 1) + b"\x01"]
    if k == "bytes":
        return [b"", _blob(32, 1), _blob(33, 2), _blob(31, 3), b"\x00" * 32, b"a\x00"]
    return ["", "x" * 32, "y" * 33, "€" * 11, "\x00", "a\x00\x00"]


@functools.lru_cache(600)
def sweep(t):
    """Many values of a leaf type: all powers of two and neighbours, all lengths, ..."""
    k = t[0]
    if k == "uint":
        out = [0]
        for b in range(t[1]):
            out += [(1 << b) - 1, 1 << b, (1 << b) + 1]
        out += [(1 << t[1]) - 1, (1 << t[1]) - 2, int("a5" * (t[1] // 8), 16)]
        return sorted({x for x in out if abi.member(t, x)})
    if k == "int":
        out = [0]
        for b in range(t[1]):
            for x in ((1 << b) - 1, 1 << b, (1 << b) + 1):
                out += [x, -x]
        return sorted({x for x in out if abi.member(t, x)})
    if k in ("ufixed", "fixed"):
        m, n = t[1], t[2]
        out = {0, 1, 2, 9, 10, 11, (1 << m) - 1, (1 << m) - 2, (1 << (m - 1)), (1 << (m - 1)) - 1}
        j = 0
        while 10**j < 1 << m:
            if j in (1, 2, n - 1, n, n + 1) or 10 ** (j + 1) >= 1 << m:
                out |= {10**j, 10**j - 1, 10**j + 1, 7 * 10**j}
            j += 1
        out |= {-x for x in out}
        lo, hi = (0, 1 << m) if k == "ufixed" else (-(1 << (m - 1)), 1 << (m - 1))
        res = [abi.unscaled(x, n) for x in sorted(out) if lo <= x < hi]
        # whole numbers as ints, and the same number written with other exponents
        for x in (0, 1, 2, 5, -1, -3, 10**20):
            if lo <= x * 10**n < hi:
                res += [x, D(x), D(x).scaleb(0)]
                if x:
                    res.append(D((int(x < 0), (abs(x),) if abs(x) < 10 else (1, 0), 0 if abs(x) < 10 else 19)))
        return res
    if k == "bool":
        return [False, True]
    if k == "address":
        h = "52908400098527886E0F7030069857D2E4169EE7"
        m = "5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed"
        out = [bytes(range(1, 21)), bytearray(range(20)), bytes(20), b"\xff" * 20]
        for x in (h, m, m.lower(), m.upper(), "00" * 20, "ff" * 20, "FF" * 20, "0" * 39 + "1", "1" + "0" * 39):
            out += ["0x" + x, x, "0X" + x]
        out += ["0x" + (1 << b).to_bytes(20, "big").hex() for b in range(160)]
        return out
    if k == "bytesM":
        out = []
        for n in range(t[1] + 1):
            out += [_blob(n, n), b"\x00" * n, b"\xff" * n]
            if n:
                out += [b"\x00" * (n - 1) + b"\x01", b"\x01" + b"\x00" * (n - 1), bytearray(_blob(n, 2))]
        return out
    if k == "bytes":
        out = []
        for n in range(0, 70):
            out += [_blob(n, n), b"\x00" * n, b"\xff" * n]
            if n:
                out += [b"\x00" * (n - 1) + b"\x01", b"\x01" + b"\x00" * (n - 1), bytearray(_blob(n, 2))]
        out += [bytes([i]) for i in range(256)]
        return out
    out = []
    for n in range(0, 70):
        out += [_text(n, n), "a" * n, "\x00" * n, "é" * n, "€" * n, "𝄞" * n, "a" * n + "é" if n else "é"]
    out += [chr(i) for i in range(0, 0x250)]
    out += [chr(c) for c in (0x7FF, 0x800, 0xFFFF, 0xFFFD, 0xFEFF, 0xD7FF, 0xE000, 0x10000, 0x10FFFF, 0x2028)]
    out += ["a\uFEFFb", "\uFEFFa", "\r\n", "\n", "e\u0301", "\u00e9", "ﬁ", "A\u030a", "ÅK", " ", "0x00", "0xff", "null"]
    return out


# ------------------------------------------------------------------ basic types
INTS = [("uint", m) for m in range(8, 257, 8)] + [("int", m) for m in range(8, 257, 8)]
BYTESM = [("bytesM", m) for m in range(1, 33)]
FIXEDS = [(k, m, n) for k in ("fixed", "ufixed") for m in range(8, 257, 8) for n in range(1, 81)]
ODD = [("bool",), ("address",), ("bytes",), ("string",)]
ALIASES = list(abi.ALIASES.items())  # (string, type)
FIXED_EDGE = [
    (k, m, n)
    for k in ("fixed", "ufixed")
    for m in (8, 16, 64, 128, 200, 248, 256)
    for n in (1, 2, 3, 18, 19, 38, 77, 78, 79, 80)
]


def basics(fixed=FIXED_EDGE):
    """(type string, type) of every basic type, aliases included."""
    return [(abi.tstr(t), t) for t in INTS + BYTESM + ODD + list(fixed)] + ALIASES


# ------------------------------------------------------------------ type trees
TREE_LEAVES = (("int", 16), ("bytes",), ("bytesM", 3), ("string",))


@functools.lru_cache(None)
def trees(size, leaves=TREE_LEAVES):
    """All types with exactly `size` nodes over the leaves, [], [1], [2] and tuples."""
    if size == 1:
        return tuple(leaves)
    out = []
    for t in trees(size - 1, leaves):
        out += [("arr", t, None), ("arr", t, 2), ("arr", t, 1)]
    for comps in tree_seqs(size - 1, leaves):
        out.append(("tup", comps))
    return tuple(out)


@functools.lru_cache(None)
def tree_seqs(total, leaves=TREE_LEAVES):
    if total == 0:
        return ()
    out = []
    for first in range(1, total + 1):
        for t in trees(first, leaves):
            if first == total:
                out.append((t,))
            else:
                for rest in tree_seqs(total - first, leaves):
                    out.append((t,) + rest)
    return tuple(out)


def all_trees(maxsize, leaves=TREE_LEAVES):
    return [t for n in range(1, maxsize + 1) for t in trees(n, leaves)]


class Build:
    """Builds a value of a type, asking the chooser for lengths and leaf values."""

    def __init__(self, ch, lens=(2, 0, 1, 3), leaf=specials, vary=True):
        self.ch = ch
        self.lens = lens
        self.leaf = leaf
        self.vary = vary
        self.n = 0

    def value(self, t, depth=0):
        k = t[0]
        if k == "arr":
            n = t[2]
            if n is None:
                lens = self.lens if depth < 3 else (1, 0, 2)
                n = self.ch.pick(lens) if self.vary else lens[0]
            return [self.value(t[1], depth + 1) for _ in range(n)]
        if k == "tup":
            return tuple(self.value(x, depth) for x in t[1])
        self.n += 1
        d = default(t, self.n)
        if not self.vary:
            return d
        return self.ch.pick([d] + self.leaf(t))


def as_lists(ch, t):
    """A tuple type can be passed as one argument or as an argument list: try both."""
    if t[0] == "tup" and ch.pick((0, 1), free=True):
        return list(t[1])
    return [t]


def trees_jobs(tier):
    """(chunk of types, bound) for the tree space."""
    small = {"quick": 4, "thorough": 5}[tier]
    big = {"quick": 5, "thorough": 6}[tier]
    return _trees_jobs(small, big)


@functools.lru_cache(None)
def _trees_jobs(small, big):
    out = []
    ts = all_trees(small)
    out += [(tuple(ts[i : i + 12]), 2) for i in range(0, len(ts), 12)]
    ts = [t for n in range(small + 1, big + 1) for t in trees(n)]
    step = 64
    out += [(tuple(ts[i : i + step]), 1) for i in range(0, len(ts), step)]
    return out


def trees_make(ch, job):
    t = ch.pick(job, free=True)
    types = as_lists(ch, t)
    b = Build(ch)
    return [abi.tstr(x) for x in types], types, [b.value(x) for x in types]


# ------------------------------------------------------------------ leaf sweep
def _ctx(name, s, t):
    """Context -> (type strings, types, function leaf value -> values)."""
    by = ("bytes",)
    if name == "top":
        return [s], [t], lambda v: [v]
    if name == "dyn":
        return [s + "[]"], [("arr", t, None)], lambda v: [[v, default(t, 2)]]
    if name == "sized":
        return [s + "[2]"], [("arr", t, 2)], lambda v: [[default(t, 1), v]]
    if name == "tup":
        return [f"({s},bytes)"], [("tup", (t, by))], lambda v: [(v, b"ab")]
    if name == "tup2":
        return [f"(bytes,{s})"], [("tup", (by, t))], lambda v: [(b"abc", v)]
    if name == "stat":
        return [f"({s},uint8)[2]"], [("arr", ("tup", (t, ("uint", 8))), 2)], lambda v: [
            [(v, 7), (default(t, 3), 8)]
        ]
    if name == "list":
        return [s, "string", s], [t, ("string",), t], lambda v: [v, "xyz", default(t, 4)]
    if name == "deep":
        return [f"({s}[][1],{s})[]"], [
            ("arr", ("tup", (("arr", ("arr", t, None), 1), t)), None)
        ], lambda v: [[([[v]], default(t, 5)), ([[]], v)]]
    raise KeyError(name)


CTX = ("top", "dyn", "sized", "tup", "tup2", "stat", "list", "deep")


def leaves_jobs(tier):
    out = []
    for s, t in basics(fixed=()):
        out.append((((s, t),), "sweep", ("top",)))
        out.append((((s, t),), "specials", CTX[1:]))
    fx = [(abi.tstr(t), t) for t in FIXEDS]
    for i in range(0, len(fx), 64):
        out.append((tuple(fx[i : i + 64]), "sweep", ("top",)))
    edge = FIXED_EDGE if tier == "quick" else FIXEDS
    fx = [(abi.tstr(t), t) for t in edge]
    for i in range(0, len(fx), 10):
        out.append((tuple(fx[i : i + 10]), "specials", CTX[1:]))
    return out


def leaves_make(ch, job):
    pairs, dom, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    strs, types, f = _ctx(c, s, t)
    v = ch.pick(sweep(t) if dom == "sweep" else specials(t) + [default(t, 9)], free=True)
    return strs, types, f(v)


# ------------------------------------------------------------------ length, arity, depth sweeps
def _near_pow2(lo, hi):
    out = set()
    k = 0
    while 1 << k <= hi:
        for d in (-33, -32, -31, -2, -1, 0, 1, 2, 31, 32, 33):
            x = (1 << k) + d
            if lo <= x <= hi:
                out.add(x)
        k += 1
    return out


def byte_lengths(tier):
    top = {"quick": 640, "thorough": 2100}[tier]
    return sorted(set(range(0, top)) | _near_pow2(0, {"quick": 1 << 17, "thorough": 1 << 21}[tier]))


def item_counts(tier):
    top = {"quick": 140, "thorough": 600}[tier]
    return sorted(set(range(0, top)) | _near_pow2(0, {"quick": 1 << 10, "thorough": 1 << 13}[tier]))


ITEM_TYPES = (
    ("uint", 256),
    ("bytes",),
    ("tup", (("bool",), ("int", 8))),
    ("arr", ("uint", 16), None),
    ("string",),
    ("int", 16),
    ("bool",),
    ("address",),
    ("bytesM", 3),
    ("fixed", 16, 2),
    ("tup", (("int", 24), ("bytes",))),
)


def lengths_jobs(tier):
    out = []
    bl = byte_lengths(tier)
    for i in range(0, len(bl), 40):
        out.append(("bytes", tuple(bl[i : i + 40])))
        out.append(("string", tuple(bl[i : i + 40])))
    ic = item_counts(tier)
    for it in ITEM_TYPES:
        for i in range(0, len(ic), 16):
            out.append(("dyn", it, tuple(ic[i : i + 16])))
            out.append(("sized", it, tuple(x for x in ic[i : i + 16] if x)))
    out = [j for j in out if j[-1]]
    arities = list(range(1, {"quick": 70, "thorough": 300}[tier])) + [127, 128, 129, 255, 256, 257]
    for i in range(0, len(arities), 8):
        out.append(("arity", tuple(arities[i : i + 8])))
    out.append(("depth", tuple(range(1, {"quick": 24, "thorough": 40}[tier]))))
    return out


def lengths_make(ch, job):
    kind = job[0]
    n = ch.pick(job[-1], free=True)
    if kind == "bytes":
        v = ch.pick((_blob(n, n), b"\x00" * n), free=True)
        c = ch.pick((0, 1, 2), free=True)
        if c == 0:
            return ["bytes"], [("bytes",)], [v]
        if c == 1:
            return ["bytes[]", "uint8"], [("arr", ("bytes",), None), ("uint", 8)], [[v, b"q"], 9]
        return ["(string,bytes,bytes)"], [("tup", (("string",), ("bytes",), ("bytes",)))], [("s", v, b"t")]
    if kind == "string":
        c = ch.pick((0, 1), free=True)
        s = ch.pick(("ascii", "wide"), free=True)
        v = "q" * n if s == "ascii" else _text(n, n)
        if c == 0:
            return ["string"], [("string",)], [v]
        return ["string[2]", "string"], [("arr", ("string",), 2), ("string",)], [["", v], "z"]
    if kind in ("dyn", "sized"):
        it = job[1]
        t = ("arr", it, None if kind == "dyn" else n)
        b = Build(ch, vary=False)
        v = [b.value(it) for _ in range(n)]
        if ch.pick((0, 1), free=True):
            return [abi.tstr(t), "bytes"], [t, ("bytes",)], [v, b"end"]
        return [abi.tstr(t)], [t], [v]
    if kind == "arity":
        which = ch.pick((0, 1, 2, 3), free=True)
        pool = [("uint", 8), ("bytes",), ("tup", (("bool",), ("bool",))), ("string",), ("arr", ("int", 8), None)]
        if which == 0:
            ts = [pool[i % len(pool)] for i in range(n)]
        elif which == 1:
            ts = [("uint", 8 * (1 + i % 32)) for i in range(n)]
        elif which == 2:
            ts = [("bytes",)] * n
        else:
            ts = [("int", 16)] * (n - 1) + [("bytes",)]
        b = Build(ch, vary=False)
        if ch.pick((0, 1), free=True):
            ts = [("tup", tuple(ts))]
        return [abi.tstr(t) for t in ts], ts, [b.value(t) for t in ts]
    # depth
    shape = ch.pick(("[]", "[1]", "()", "mix", "pair", "smix"), free=True)
    leaf = ch.pick((("uint", 8), ("bytes",)), free=True)
    t = leaf
    for i in range(n):
        if shape == "[]" or shape == "mix" and i % 3 == 0:
            t = ("arr", t, None)
        elif shape == "[1]" or shape == "mix" and i % 3 == 1 or shape == "smix" and i % 2:
            t = ("arr", t, 1)
        elif shape == "pair":
            t = ("tup", (("int", 8), t))
        else:
            t = ("tup", (t,))
    b = Build(ch, lens=(1,), vary=False)
    v = b.value(t)
    return [abi.tstr(t)], [t], [v]


# ------------------------------------------------------------------ forms of Python values
class Seq(collections.abc.Sequence):
    """A minimal user-defined sequence."""

    def __init__(self, items):
        self._items = list(items)

    def __getitem__(self, i):
        return self._items[i]

    def __len__(self):
        return len(self._items)


class MyList(list):
    pass


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyDecimal(D):
    pass


Colour = enum.IntEnum("Colour", "RED GREEN BLUE")
Point = collections.namedtuple("Point", "x y")


@functools.lru_cache(600)
def forms():
    """(type string, value, equivalent plain value)"""
    out = []
    for s in ("uint8[]", "uint8[3]", "(uint8,uint8,uint8)", "int16[]", "int16[3]"):
        for f in (list, tuple, Seq, MyList, collections.deque):
            out.append((s, f([1, 2, 3]), [1, 2, 3]))
        out.append((s, range(1, 4), [1, 2, 3]))
        out.append((s, memoryview(b"\x01\x02\x03"), [1, 2, 3]))
        out.append((s, MyList([MyInt(1), Colour.GREEN, 3]), [1, 2, 3]))
    for s in ("bytes[]", "bytes[2]", "(bytes,bytes)"):
        for f in (list, tuple, Seq, MyList, collections.deque):
            out.append((s, f([b"ab", bytearray(b"cd")]), [b"ab", b"cd"]))
    out.append(("(uint8,bytes)[]", [Point(1, b"x"), Point(2, b"y")], [(1, b"x"), (2, b"y")]))
    out.append(("(uint8,bytes)[]", Seq([Seq([1, b"x"]), MyList([2, b"y"])]), [(1, b"x"), (2, b"y")]))
    out.append(("uint8[][]", Seq([Seq([1]), range(3), ()]), [[1], [0, 1, 2], []]))
    for s in ("uint8", "int8", "uint256", "int256"):
        out += [(s, MyInt(3), 3), (s, Colour.BLUE, 3)]
    out += [("int8", MyInt(-3), -3)]
    for s in ("bytes", "bytes4", "bytes32"):
        out += [(s, bytearray(b"abc"), b"abc"), (s, MyBytes(b"abc"), b"abc"), (s, bytearray(), b"")]
    out += [("string", MyStr("aé"), "aé"), ("string", MyStr(""), "")]
    for s in ("fixed128x18", "ufixed128x18", "fixed8x1", "ufixed8x1"):
        for v in (D("1.5"), D("15E-1"), D("1.50000"), D("0.15E1"), MyDecimal("1.5"), D("1.5000000000000000000000000000")):
            out.append((s, v, D("1.5")))
        for v in (D("1E1"), D("10"), D("10.0"), D("0.0010E4"), 10, MyInt(10)):
            out.append((s, v, D(10)))
        for v in (D("0"), D("-0"), D("0E50"), D("0E-50"), D("-0.0"), 0):
            out.append((s, v, D(0)))
    a = bytes(range(1, 21))
    for v in (a, bytearray(a), "0x" + a.hex(), a.hex(), "0x" + a.hex().upper(), "0X" + a.hex(), MyStr("0x" + a.hex()), MyBytes(a)):
        out.append(("address", v, "0x" + a.hex()))
        out.append(("address[]", [v, v], ["0x" + a.hex()] * 2))
        out.append(("(string,address)", ("q", v), ("q", "0x" + a.hex())))
    return out


def forms_jobs(tier):
    n = len(forms())
    return [tuple(range(i, min(n, i + 20))) for i in range(0, n, 20)]


def forms_make(ch, job):
    s, v, plain = forms()[ch.pick(job, free=True)]
    t = abi.ptype(s)
    if ch.pick((0, 1), free=True):
        return ["string", s], [("string",), t], ["pre", v]
    return [s], [t], [v]


# ------------------------------------------------------------------ repeated equal values
EQ_SIZES = (0, 1, 31, 32, 33, 63, 64, 65, 96, 127, 128, 256, 500, 1000, 1024, 2048, 4095, 4096, 4097, 10000, 65536, 70000)
EQ_SHAPES = (
    "{0}|{0}",
    "({0},{0},{0})",
    "{0}[]",
    "{0}[3]",
    "{0}[2][2]",
    "{0}[][]",
    "({0},uint8,{0})[]",
    "{0}|{1}|{0}",
    "({0},({0},{1}),{1})",
    "({0},{0})|{0}",
    "{0}[]|{0}[]",
    "({0}[2])|({0}[])",
)


def _eq_leaf(ch, n):
    k = ch.pick(("bytes", "string", "uint16[]", "int8[]", "(bool,bytes)"), free=True)
    if k == "bytes":
        return k, _blob(n, 3)
    if k == "string":
        return k, "é" * (n // 2)
    if k == "uint16[]":
        return k, [65535] * min(n, 1200)
    if k == "int8[]":
        return k, [-1] * min(n, 1200)
    return k, (True, _blob(n, 3))


def _split_top(s):
    out, depth = [""], 0
    for c in s:
        depth += (c == "(") - (c == ")")
        if c == "," and not depth:
            out.append("")
        else:
            out[-1] += c
    return out


def equal_jobs(tier):
    return [(i, n) for i in range(len(EQ_SHAPES)) for n in EQ_SIZES]


def equal_make(ch, job):
    """Types in which the same value occurs several times: same positions equal, others different."""
    i, n = job
    s, v = _eq_leaf(ch, n)
    other = ch.pick(("bytes", "same", "uint8"), free=True) if "{1}" in EQ_SHAPES[i] else "uint8"
    o = {"bytes": b"zz", "same": v, "uint8": 7}[other]
    u = s if other == "same" else other
    count = ch.pick((2, 3), free=True)

    def value(t):
        if t == "{0}":
            return v
        if t == "{1}":
            return o
        if t == "uint8":
            return 7
        if t[0] == "(" and t[-1] == ")":
            return tuple(value(x) for x in _split_top(t[1:-1]))
        item, dim = t[:-1].rsplit("[", 1)
        return [value(item) for _ in range(int(dim) if dim else count)]

    shapes = EQ_SHAPES[i].split("|")
    strs = [x.replace("{0}", s).replace("{1}", u) for x in shapes]
    return strs, [abi.ptype(x) for x in strs], [value(x) for x in shapes]


# ------------------------------------------------------------------ contents
CHARS = [chr(c) for c in (0, 1, 9, 10, 13, 0x1A, 0x20, 0x22, 0x27, 0x5C, 0x7F, 0x80, 0xA0, 0xAD, 0x301, 0x378, 0x600, 0x200B, 0x200E, 0x2028, 0xD7FF, 0xE000, 0xFB01, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xE0001, 0x10FFFF)]


def content_jobs(tier):
    out = [("text", lo) for lo in range(0, 0x110000, 0x2000)]
    out += [("chars", c) for c in CHARS]
    out += [("bytes", lo) for lo in range(0, 256, 16)]
    out += [("address", k) for k in range(0, 21)]
    out += [("runs", lo) for lo in range(0, 256, 16)]
    return out


def content_make(ch, job):
    """Every code point; unusual characters, every byte value and runs of equal bits at
    either end and throughout."""
    kind, x = job
    if kind == "text":
        lo = x + 64 * ch.index(0x2000 // 64, free=True)
        v = "".join(chr(c) for c in range(lo, lo + 64) if not 0xD800 <= c < 0xE000)
        return ["string"], [("string",)], [v]
    if kind in ("chars", "bytes"):
        n = ch.pick((1, 2, 3, 4, 8, 16, 20, 24, 30, 31, 32, 33, 63, 64, 65, 96), free=True)
        where = ch.pick(("first", "last", "all", "middle", "both"), free=True)
        fill = ch.pick("a€" if kind == "chars" else (0x61, 0, 0xFF), free=True)
        if kind == "bytes":
            x += ch.index(16, free=True)
        v = [fill] * n
        if where in ("first", "both"):
            v[0] = x
        if where in ("last", "both"):
            v[-1] = x
        if where == "middle":
            v[n // 2] = x
        if where == "all":
            v = [x] * n
        if kind == "chars":
            return ["string"], [("string",)], ["".join(v)]
        v = bytes(v)
        if ch.pick((0, 1) if n <= 32 else (0,), free=True):
            return [f"bytes{n}", "bytes32"], [("bytesM", n), ("bytesM", 32)], [v, v]
        return ["bytes"], [("bytes",)], [v]
    if kind == "address":
        m = ch.pick(range(0, 21 - x), free=True)
        fill = ch.pick((0xFF, 0x10, 0x0F, 0xAB), free=True)
        v = bytes(x) + bytes([fill]) * (20 - x - m) + bytes(m)
        if ch.pick((0, 1), free=True):
            v = "0x" + v.hex()
        return ["address", "address[]"], [("address",), ("arr", ("address",), None)], [v, [v]]
    # 2**a - 2**b and the complement: a run of ones, a run of zeros
    a = x + 1 + ch.index(16, free=True)
    b = ch.pick(range(0, a), free=True)
    v = (1 << a) - (1 << b)
    w = ((1 << 256) - 1) ^ v
    signed = [y - (1 << 256) if y >> 255 else y for y in (v, w)]
    m = -(-a // 8) * 8
    n = v - (1 << m) if v >> (m - 1) else v
    return (
        ["uint256", "uint256", "int256", "int256", f"uint{m}", f"int{m}"],
        [("uint", 256), ("uint", 256), ("int", 256), ("int", 256), ("uint", m), ("int", m)],
        [v, w, *signed, v, n],
    )


# ------------------------------------------------------------------ more than a mebibyte
def big_jobs(tier):
    sizes = ((1 << 20) - 96, (1 << 20) + 1, (1 << 24) + 7) if tier == "quick" else ((1 << 20) - 96, 1 << 20, (1 << 20) + 1, (1 << 22) + 31, (1 << 24) - 64, (1 << 24) + 7, (1 << 25) + 3)
    out = [("bytes", n, s) for n in sizes for s in range(6)]
    out += [("items", n, s) for n in ((16500, 33000, 66000) if tier == "quick" else (16384, 16500, 32769, 33000, 66000, 140000)) for s in range(5)]
    return out


def big_make(ch, job):
    kind, n, s = job
    by, st, u = ("bytes",), ("string",), ("uint", 16)
    if kind == "bytes":
        v = (_blob(255, 1) * (n // 255 + 1))[:n]
        types, values = (
            ([by, by], [v, b"end"]),
            ([("arr", by, None)], [[b"a", v, b"end"]]),
            ([("tup", (by, u, st))], [(v, 5, "end")]),
            ([("arr", by, 2), st], [[v, b"b"], "end"]),
            ([st, ("arr", ("tup", (by, u)), None)], ["é" * (n // 2), [(b"x", 1), (b"", 2)]]),
            ([("tup", (("tup", (by,)), ("arr", st, 1)))], [((v,), ["end"])]),
        )[s]
    else:
        types, values = (
            ([("arr", u, None), by], [[i % 65536 for i in range(n)], b"end"]),
            ([("arr", by, None)], [[b"q"] * (n - 1) + [b"end"]]),
            ([("arr", u, n), st], [[i % 65536 for i in range(n)], "end"]),
            ([("tup", (("arr", ("bool",), None), st, u))], [([i % 3 == 0 for i in range(n)], "end", 7)]),
            ([("arr", ("arr", u, None), None)], [[[i % 65536 for i in range(n)], [], [9]]]),
        )[s]
    return [abi.tstr(t) for t in types], types, values


# ------------------------------------------------------------------ every value of the small types
def small_jobs(tier):
    out = [(k, n, b) for k in ("uint", "int", "bytesM") for n in (8, 16) for b in range(0, 1 << n, 2048)]
    places = range(1, 81)
    out += [(k, (8, n), 0) for k in ("fixed", "ufixed") for n in places]
    out += [(k, (16, n), b) for k in ("fixed", "ufixed") for n in ((1, 4, 5, 18, 80) if tier == "quick" else places) for b in range(0, 1 << 16, 4096)]
    return out


def small_make(ch, job):
    """Every value of the types of one and two bytes, 64 at a time."""
    k, n, lo = job
    bits = n[0] if isinstance(n, tuple) else n
    lo += 64 * ch.index(min(4096 if isinstance(n, tuple) else 2048, 1 << bits) // 64, free=True)
    xs = range(lo, lo + 64)
    if k == "bytesM":
        t = ("bytesM", bits // 8)
        vs = [x.to_bytes(bits // 8, "big") for x in xs]
    else:
        if k in ("int", "fixed"):
            xs = [x - (1 << (bits - 1)) for x in xs]
        t = (k, bits) if not isinstance(n, tuple) else (k, *n)
        vs = list(xs) if not isinstance(n, tuple) else [abi.unscaled(x, n[1]) for x in xs]
    return [abi.tstr(t)] * 64, [t] * 64, vs


SPACES = {
    "small": (small_jobs, small_make),
    "big": (big_jobs, big_make),
    "content": (content_jobs, content_make),
    "equal": (equal_jobs, equal_make),
    "trees": (trees_jobs, trees_make),
    "leaves": (leaves_jobs, leaves_make),
    "lengths": (lengths_jobs, lengths_make),
    "forms": (forms_jobs, forms_make),
}

BOUNDS = {
    "quick": "type trees: every type of <=4 nodes (leaves int16/bytes/bytes3/string, [] [1] [2], "
    "tuples) with all values within 2 deviations of position-distinct defaults, 5 nodes within 1; "
    "leaves: every basic type and alias incl. all 5120 fixed types over all powers of two and "
    "neighbours / all lengths, in 8 contexts; lengths: every byte/char length 0..639 and 2^k "
    "neighbourhoods to 2^17, item counts 0..139 and 2^k neighbourhoods to 1024, arity 1..69 and "
    "127..257, nesting depth 1..23; value forms: every accepted Python representation listed in gen.forms; "
    "equal: 12 shapes in which one value of 5 dynamic kinds occurs repeatedly, 22 sizes to 70000 bytes; content: every code point, "
    "31 characters and every byte value at either end, in the middle and throughout, runs of zero bytes in addresses, all 32896 integers "
    "2^a-2^b and their complements; big: values of 2^20 and 2^24 bytes and 16500..66000 items before others; "
    "small: every value of the integer, bytes and fixed types of one byte and two (two-byte fixed types: 5 numbers of places)",
    "thorough": "as quick with 5-node trees within 2 deviations and 6-node trees within 1; all fixed "
    "types in all contexts; lengths 0..2099 and 2^k neighbourhoods to 2^21, item counts 0..599 and "
    "neighbourhoods to 8192, arity to 299, depth to 39; small with every number of places",
}


def space_jobs(tier, spaces=tuple(SPACES), cap=None):
    out = []
    for name in spaces:
        jobs, _ = SPACES[name]
        for j in jobs(tier):
            bound = 0
            if name == "trees":
                j, bound = j
            out.append((name, j, bound, cap))
    return out
