from checks.common import *

import eth_abi.abi as eabi
from eth_abi import grammar
from eth_abi.codec import ABIEncoder

is_type = eabi.is_encodable_type
is_type_packed = ABIEncoder(registry_packed).is_encodable_type


def attempt(f, *a, **kw):
    try:
        return ("value", f(*a, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raise", e)


def judge(ch, s, deep=True):
    ch.op()
    try:
        t = abi.ptype(s)
    except abi.NotAType:
        t = None
    got = attempt(is_type, s)
    gotp = attempt(is_type_packed, s)
    want = ("value", t is not None)
    for name, g in (("is_encodable_type", got), ("is_encodable_type_packed", gotp)):
        if g != want:
            raise Violation(f"{name}({s!r}) -> {short(g)}, expected {want}")
    core.note("type" if t else "not a type")
    if t is None:
        if not deep:
            return None
        ch.op(4)
        for f, a in (
            (encode, ([s], [1])), (encode, ([s], [b""])), (decode, ([s], bytes(64))), (encode_packed, ([s], [1])),
            (decode, ([s], abi.word(0x20) + abi.word(0))),
        ):
            g = attempt(f, *a)
            if g[0] == "value":
                raise Violation(f"{f.__name__}{short(a)} accepted the unsupported type {s!r}: {short(g[1])}", py("encode", *a))
        for v in (1, b"", [1]):
            for f in (is_encodable, is_encodable_packed):
                g = attempt(f, s, v)
                if g != ("value", False):
                    raise Violation(f"{f.__name__}({s!r}, {v!r}) -> {short(g)} for an unsupported type")
        return None
    b = gen.Build(ch, lens=(1,), vary=False)
    v = b.value(t)
    ch.op(5)
    data = abi.enc_seq([t], [v])
    for f, a, w in (
        (encode, ([s], [v]), data),
        (encode_packed, ([s], [v]), abi.packed(t, v)),
        (is_encodable, (s, v), True),
        (is_encodable_packed, (s, v), True),
    ):
        g = attempt(f, *a)
        if g != ("value", w):
            raise Violation(f"{f.__name__}{short(a)} -> {short(g, 800)}, expected {short(w, 800)}")
    g = attempt(decode, [s], data)
    if g[0] != "value" or not abi.same_seq([t], g[1], (abi.canon(t, v),)):
        raise Violation(f"decode([{s!r}], {data.hex()}) -> {short(g)}, expected {short(abi.canon(t, v))}")
    return s


BASES = (
    "uint", "int", "bytes", "byte", "bool", "address", "string", "fixed", "ufixed", "function", "hash", "real", "ureal", "uin",
    "uints", "UINT", "Int", "Bytes", "BOOL", "boolean", "addr", "str", "text", "char", "tuple", "array", "list", "float", "u",
    "i", "x", "b", "num", "contract", "enum", "struct", "mapping", "void", "unsigned", "decimal", "ubytes", "ustring", "ubool",
)


def subs(ch, job):
    """Every base name with every size 0..299 (and a few larger), alone and nested."""
    base, lo, hi = job
    n = ch.pick(list(range(lo, hi)), free=True)
    sub = "" if n == 0 else str(n - 1) if n < 301 else str((512, 1000, 1024, 65536, 10**20)[n - 301])
    s = base + sub
    c = ch.pick(("%s", "%s[]", "%s[3]", "(%s)", "(bool,%s)[2]"), free=True)
    return judge(ch, c % s, deep=n < 40)


def grid(ch, job):
    """Every fixed/ufixed MxN with M in 0..272 and N in 0..90."""
    base, m = job
    n = ch.pick(range(0, 91), free=True)
    return judge(ch, f"{base}{m}x{n}", deep=(m % 8 == 0))


def bare(ch, job):
    """Every base name with odd suffixes."""
    base = job
    suf = ch.pick(
        ("", "8x1", "8x", "x8", "256x18", "128x18", "1x1", "32x32", "08", "8x01", "8X1", " ", "[]", "[0]", "[1]", "[][1]", "8[]", "8x1[]", "8 []", "()", "8)", ",", "-8", "+8", "8.0", "0x8", "８", "\n", "8\n"),
        free=True,
    )
    pre = ch.pick(("", " ", "(", "u", "[]", "\n", ","), free=True)
    c = ch.pick(("%s", "(%s)", "(%s,uint8)[]", "%s[2]", "(uint8,(%s))"), free=True)
    return judge(ch, c % (pre + base + suf))


def alias(ch, job):
    """An alias behaves as its canonical type at every position of every type tree."""
    name, shapes = job
    shape = ch.pick(shapes, free=True)
    canon_t = abi.ALIASES[name]
    other = ch.pick((("bytes", ("bytes",)), ("uint8", ("uint", 8)), (name, canon_t)), free=True)
    s, t, c = fill(shape, (name, canon_t), other)
    b = gen.Build(ch, lens=(2, 1, 0))
    v = b.value(t)
    ch.op(6)
    for f, a1, a2 in (
        (encode, ([s], [v]), ([c], [v])),
        (encode_packed, ([s], [v]), ([c], [v])),
        (is_encodable, (s, v), (c, v)),
        (is_encodable_packed, (s, v), (c, v)),
    ):
        x, y = attempt(f, *a1), attempt(f, *a2)
        if x[0] != "value" or x != y:
            raise Violation(f"{f.__name__}: {s!r} gives {short(x, 600)}, {c!r} gives {short(y, 600)} for {short(v)}")
    data = abi.enc_seq([t], [v])
    if encode([s], [v]) != data:
        raise Violation(f"encode([{s!r}], [{short(v)}]) is not the encoding of {c}")
    if encode_packed([s], [v]) != abi.packed(t, v):
        raise Violation(f"encode_packed([{s!r}], [{short(v)}]) is not the packed encoding of {c}")
    for kw in ({}, {"strict": False}):
        g = attempt(decode, [s], data, **kw)
        if g[0] != "value" or not abi.same_seq([t], g[1], (abi.canon(t, v),)):
            raise Violation(f"decode([{s!r}], {data.hex()}) -> {short(g)}, expected {short(abi.canon(t, v))}")
    # a value outside the canonical type is outside the alias as well
    for bad in BADV[canon_t[0]](canon_t):
        w = place(shape, bad)
        if w is None:
            break
        for f in (is_encodable, is_encodable_packed):
            if f(s, w) is not f(c, w):
                raise Violation(f"{f.__name__}({s!r}, {short(w)}) differs from {c!r}")
    core.note("alias " + name)
    return s, c, short(v, 100)


BADV = {
    "int": lambda t: (1 << 255, -(1 << 255) - 1, True, "1", 1.0, None),
    "uint": lambda t: (1 << 256, -1, True, "1", 1.0, None),
    "fixed": lambda t: (gen.D("1E-19"), 1 << 127, 1.0, None, "1"),
    "ufixed": lambda t: (gen.D("1E-19"), -1, 1 << 128, 1.0, None, "1"),
    "bytesM": lambda t: (b"a" * (t[1] + 1), "a", None, 1),
}


def fill(shape, a, other):
    """shape with leaf ("L",) -> (alias string, type, canonical string); the first leaf is the
    alias, later ones alternate between other and the alias."""
    count = [0]

    def go(t):
        if t[0] == "arr":
            s, m, c = go(t[1])
            suf = "[]" if t[2] is None else f"[{t[2]}]"
            return s + suf, ("arr", m, t[2]), c + suf
        if t[0] == "tup":
            parts = [go(x) for x in t[1]]
            return (
                "(" + ",".join(p[0] for p in parts) + ")",
                ("tup", tuple(p[1] for p in parts)),
                "(" + ",".join(p[2] for p in parts) + ")",
            )
        count[0] += 1
        s, m = a if count[0] % 2 else other
        return s, m, abi.tstr(m)

    return go(shape)


def place(shape, bad):
    """A value of a one-leaf shape with the bad leaf in it; None for other shapes."""
    if shape[0] == "arr":
        v = place(shape[1], bad)
        return None if v is None else [v] * (shape[2] or 1)
    if shape[0] == "tup":
        if len(shape[1]) != 1:
            return None
        v = place(shape[1][0], bad)
        return None if v is None else (v,)
    return bad


MIX = ("int", "uint", "byte", "function", "fixed", "ufixed", "int8", "uint8", "bytes", "bytes1", "string", "bool", "address", "fixed8x1", "uint256")


def mixed(ch, job):
    """Tuples and argument lists that mix aliases with types whose names contain them."""
    a = job
    n = ch.pick((1, 2), free=True)
    rest = [ch.pick(MIX, free=True) for _ in range(n)]
    return judge(ch, ch.pick(("(%s)", "((%s)[],bool)"), free=True) % ",".join([a] + rest))


def many(ch, job):
    """Types with many aliases in them: every one of them is replaced, wherever it stands."""
    n, shape = job
    names = sorted(abi.ALIASES) + ["bytes", "uint8", "string"]
    step = ch.pick((1, 2, 0, 4), free=True)
    parts = [names[(i * step + 3) % len(names)] for i in range(n)]
    if shape == "flat":
        s = "(" + ",".join(parts) + ")"
    elif shape == "arrays":
        s = "(" + ",".join(p + ("[]", "[1]", "")[i % 3] for i, p in enumerate(parts)) + ")"
    elif shape == "deep":
        s = parts[0]
        for p in parts[1:]:
            s = f"({p},{s})"
    else:
        half = n // 2
        s = "((" + ",".join(parts[:half] or ["bool"]) + ")[],(" + ",".join(parts[half:]) + "))[1]"
    want = abi.tstr(abi.ptype(s))
    ch.op()
    got = attempt(grammar.normalize, s)
    if got != ("value", want):
        raise Violation(f"normalize({short(s, 600)}) -> {short(got, 600)}, expected {short(want, 600)}")
    return judge(ch, s, deep=False)


def jobs(tier):
    out = []
    counts = (2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129) if tier == "quick" else range(1, 140)
    out += [("many", (n, sh), 0, None) for n in counts for sh in ("flat", "arrays", "deep", "halves") if sh != "deep" or n <= 40]
    for b in BASES:
        out.append(("bare", b, 0, None))
        big = b in ("uint", "int", "bytes", "byte", "bool", "address", "string", "fixed", "ufixed", "function", "hash")
        for lo in range(0, 306 if big or tier == "thorough" else 40, 20):
            out.append(("subs", (b, lo, min(lo + 20, 306)), 0, None))
    for b in ("fixed", "ufixed"):
        for m in range(0, 273):
            if tier == "thorough" or m % 8 in (0, 1, 7) or m in (12, 20, 100):
                out.append(("grid", (b, m), 0, None))
    shapes = gen.all_trees({"quick": 4, "thorough": 5}[tier], (("L",),))
    for name in abi.ALIASES:
        for i in range(0, len(shapes), 8):
            out.append(("alias", (name, tuple(shapes[i : i + 8])), 1, None))
    out += [("mixed", a, 0, None) for a in MIX]
    return out


CHECK = core.Check(
    "C12",
    {"subs": subs, "grid": grid, "bare": bare, "alias": alias, "mixed": mixed, "many": many},
    jobs,
    TRUST,
    lambda t: f"{len(BASES)} base names x sizes none,0..299 and larger (11 names; others 0..38; thorough all) x 5 positions; all "
    "fixed/ufixed MxN with M in 0..272 (quick: M mod 8 in 0,1,7) and N in 0..90; 28 odd suffixes x 7 prefixes; each alias in every "
    "type shape of <=4 nodes (thorough 5) with values within 1 deviation; all tuples of <=3 of 15 mixed names; types with "
    "2..129 aliases (thorough 1..139), flat, with dimensions, nested to depth 40 and in two halves",
)
