"""Payload spaces for the decoder: make(ch, job) -> (type strings, types, payload)."""
import functools

from mc import abi, gen
from mc.abi import word

MAXW = (1 << 256) - 1


def T(*strs):
    return tuple(strs), tuple(abi.ptype(s) for s in strs)


# ------------------------------------------------------------------ 1. all word strings
WORDS = [
    word(0x20),
    word(0),
    word(1),
    word(0x40),
    word(2),
    word(0x60),
    b"a" + bytes(31),
    word(MAXW),
]
WORDS_THOROUGH = WORDS + [word(0x80), word(0x3F), word(0x21)]

WORD_TYPES = [
    T("uint8"),
    T("bool", "int8"),
    T("bytes"),
    T("string"),
    T("uint8[]"),
    T("bool[2]"),
    T("bytes[]"),
    T("string[1]"),
    T("bytes[2]"),
    T("uint8[][]"),
    T("uint8[1][]"),
    T("uint8[][1]"),
    T("(bytes)"),
    T("(uint8,bytes)"),
    T("(bytes,uint8)"),
    T("((bytes))"),
    T("(bytes)[]"),
    T("(uint8)[]"),
    T("(bool,bool)[]"),
    T("(uint8[])"),
    T("uint8", "bytes"),
    T("bytes", "uint8"),
    T("bytes", "string"),
    T("uint8[]", "bytes"),
    T("(uint8,uint8)", "bytes"),
    T("bytes", "uint8[2]"),
    T("(uint8,(uint8,uint8),bytes)"),
    T("((uint8,bytes),bool)"),
    T("uint8[2][]"),
    T("bytes1", "bytes"),
    T("address", "bytes"),
    T("fixed8x1", "bytes"),
    T("int256[]"),
    T("bool[][]"),
    T("bytes3[]"),
    T("(string)"),
    T("((uint8[1]),bytes)"),
]
CUTS = (0, 31, 1, 16)
# explored to five words already in the quick tier
FIVE = [("bytes[]",), ("(uint8,bytes)",), ("bytes", "string"), ("uint8[][]",), ("bytes[2]",), ("(uint8,uint8)", "bytes")]


def words_jobs(tier):
    out = []
    for i in range(len(WORD_TYPES)):
        n = 6 if tier == "thorough" else 5 if WORD_TYPES[i][0] in FIVE else 4
        for k in range(0, n + 1):
            if k < 3:
                out.append((i, k, (), tier))
            else:
                for a in range(len(WORDS)):
                    out.append((i, k, (a,), tier))
    return out


def words_make(ch, job):
    i, k, first, tier = job
    strs, types = WORD_TYPES[i]
    alpha = WORDS
    ws = [alpha[a] for a in first]
    while len(ws) < k:
        ws.append(ch.pick(alpha, free=True))
    data = b"".join(ws)
    if data and k <= (3 if tier == "quick" else 5):
        data = data[: len(data) - ch.pick(CUTS, free=True)]
    return strs, types, data


# ------------------------------------------------------------------ 2. mutated canonical encodings
def mut_types(size):
    return gen.all_trees(size, (("int", 16), ("bytes",), ("string",)))


def muts_jobs(tier):
    small, big = {"quick": (2, 4), "thorough": (3, 5)}[tier]
    ts = mut_types(small)
    out = [(tuple(ts[i : i + 2]), 2) for i in range(0, len(ts), 2)]
    ts = [t for t in mut_types(big) if t not in set(ts)]
    out += [(tuple(ts[i : i + 16]), 1) for i in range(0, len(ts), 16)]
    return out


@functools.lru_cache(4096)
def mutants(w, i, n):
    """Words that may replace word i (value w) of data; the first is w itself."""
    out = [w, 0, 1, 0x20, 0x40, 0x60, w + 1, w - 1, w + 32, w - 32, w + 31, n, n - 1, n - 32]
    out += [n - 31, n - 32 * i, n + 32, MAXW, MAXW - 31, 1 << 255, 1 << 64, (1 << 63) - 1, 1 << 63]
    out += [w + (1 << 64), w + (1 << 128), w ^ 1, w ^ (1 << 248), w ^ 0x80, w | (0xFF << 248), 3]
    out += [w ^ (1 << 15), w ^ (1 << 16), 0x7FFF, 0x8000, 0xFFFF]
    seen = []
    for x in out:
        x %= 1 << 256
        if x not in seen:
            seen.append(x)
    return seen


def muts_make(ch, job):
    types, strs, data = _canonical(ch, job)
    n = len(data)
    shape = ch.pick(("same", "cut", "drop", "dup", "tail"))
    if shape == "cut":
        data = data[: ch.pick([c for k in range(0, n, 32) for c in (k, k + 1, k + 31)])]
    elif shape == "drop":
        k = 32 * ch.index(n // 32, free=True)
        data = data[:k] + data[k + 32 :]
    elif shape == "dup":
        k = 32 * ch.index(n // 32, free=True)
        data = data[: k + 32] + data[k:]
    elif shape == "tail":
        data += ch.pick((b"\x00", b"\x01" * 31, bytes(32), b"\xff" * 64), free=True)
    ws = [data[k : k + 32] for k in range(0, len(data), 32)]
    for i, wb in enumerate(ws):
        if len(wb) == 32:
            w = int.from_bytes(wb, "big")
            ws[i] = word(ch.pick(mutants(w, i, len(data))))
    return strs, types, b"".join(ws)


def _canonical(ch, job):
    t = ch.pick(job, free=True)
    if t[0] == "tup":
        types = list(t[1]) if ch.pick((0, 1), free=True) else [t]
    else:
        types = [t]
    b = gen.Build(ch, lens=(2, 1), vary=False)
    data = abi.enc_seq(types, [b.value(x) for x in types])
    return types, [abi.tstr(x) for x in types], data


# ------------------------------------------------------------------ 3. pointers in mixed heads
MEMBERS = [
    ("uint", 8),
    ("bytes",),
    ("tup", (("uint", 8), ("bool",))),
    ("arr", ("uint", 8), 2),
    ("arr", ("uint", 8), None),
    ("tup", (("uint", 8), ("bytes",))),
    ("arr", ("bytes",), 2),
    ("tup", (("tup", (("uint", 8), ("uint", 8))), ("uint", 8))),
    ("arr", ("string",), None),
]
FRAMES = ("top", "tuple", "dynarr", "sizedarr", "nested")


def heads_jobs(tier):
    out = []
    seqs = [(a,) for a in range(len(MEMBERS))]
    seqs += [(a, b) for a in range(len(MEMBERS)) for b in range(len(MEMBERS))]
    third = range(len(MEMBERS)) if tier == "thorough" else (0, 1, 2)
    seqs += [(a, b, c) for a in range(len(MEMBERS)) for b in range(len(MEMBERS)) for c in third]
    for s in seqs:
        if any(abi.is_dyn(MEMBERS[i]) for i in s):
            for f in FRAMES:
                if tier == "quick" and len(s) == 3 and f not in ("top", "nested"):
                    continue
                out.append((s, f, tier, 1 if tier == "thorough" or len(s) == 3 else 2))
    return out


@functools.lru_cache(4096)
def pointer_values(tier, base, end, n, orig):
    """Offsets worth trying for a pointer of a head that starts at base and ends at end."""
    if tier == "thorough":
        out = list(range(0, n - base + 40))
    else:
        out = list(range(0, n - base + 34, 32))
        for c in (0, end - base, n - base, orig):
            out += [c - 33, c - 32, c - 31, c - 1, c, c + 1, c + 31, c + 32]
    out += [1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) + orig, (1 << 255), MAXW, MAXW - 31]
    out += [(1 << 256) - 32, (1 << 256) - base - 32 if base else MAXW, (1 << 256) - (end - base)]
    seen = [orig]
    for x in out:
        if 0 <= x < 1 << 256 and x not in seen:
            seen.append(x)
    return seen


def heads_make(ch, job):
    seq, frame, tier, _ = job
    members = [MEMBERS[i] for i in seq]
    inner = ("tup", tuple(members))
    b = gen.Build(ch, lens=(2,), vary=False)
    ivals = tuple(b.value(m) for m in members)
    if frame == "top":
        types, vals, base = members, list(ivals), 0
    elif frame == "tuple":
        types, vals, base = [("uint", 8), inner], [5, ivals], 0x40
    elif frame == "dynarr":
        types, vals, base = [("arr", inner, None)], [[ivals, ivals]], 0x20 + 0x20 + 0x40
    elif frame == "sizedarr":
        types, vals, base = [("arr", inner, 2), ("bool",)], [[ivals, ivals], True], 0x40 + 0x40
    else:
        # (string, (uint8, inner)): the inner frame starts after two outer frames
        types = [("string",), ("tup", (("uint", 8), inner))]
        vals = ["st", (6, ivals)]
        base = 0x40 + 0x40 + 0x40
    data = bytearray(abi.enc_seq(types, vals))
    # some slack in front of the end, so that pointers in the padding area find zeros
    if ch.pick((0, 1), free=True):
        data += bytes(64)
    pos = base
    end = base + sum(abi.head_size(m) for m in members)
    for m in members:
        if abi.is_dyn(m):
            orig = int.from_bytes(data[pos : pos + 32], "big")
            data[pos : pos + 32] = word(ch.pick(pointer_values(tier, base, end, len(data), orig)))
        pos += abi.head_size(m)
    return [abi.tstr(t) for t in types], types, bytes(data)


# ------------------------------------------------------------------ 3b. pointers in arrays
ARR_ITEMS = [("bytes",), ("arr", ("uint", 8), None), ("tup", (("uint", 8), ("bytes",))), ("arr", ("bytes",), 1)]


def arrptr_jobs(tier):
    return [
        (i, n, k, o, tier)
        for i in range(len(ARR_ITEMS))
        for n in (1, 2, 3)
        for k in ("dyn", "sized")
        for o in ("top", "after", "in")
    ]


def arrptr_make(ch, job):
    i, n, k, o, tier = job
    it = ARR_ITEMS[i]
    b = gen.Build(ch, lens=(2,), vary=False)
    t = ("arr", it, None if k == "dyn" else n)
    v = [b.value(it) for _ in range(n)]
    lead = 32 if k == "dyn" else 0
    if o == "top":
        types, vals, base = [t], [v], 0x20 + lead
    elif o == "after":
        types, vals, base = [("bool",), t, ("string",)], [True, v, "s"], 0x60 + lead
    else:
        types, vals, base = [("tup", (("tup", (("uint", 8), ("uint", 8))), t))], [((1, 2), v)], 0x20 + 0x60 + lead
    data = bytearray(abi.enc_seq(types, vals))
    if ch.pick((0, 1), free=True):
        data += bytes(64)
    end = base + 32 * n
    if k == "dyn":
        c = ch.pick((n, 0, n - 1 if n > 1 else 4, n + 1, n + 2, 1 << 32, 1 << 64, MAXW))
        data[base - 32 : base] = word(c)
    for j in range(n):
        p = base + 32 * j
        orig = int.from_bytes(data[p : p + 32], "big")
        data[p : p + 32] = word(ch.pick(pointer_values(tier, base, end, len(data), orig)))
    return [abi.tstr(t) for t in types], types, bytes(data)


# ------------------------------------------------------------------ 4. single words of basic types
def flips_jobs(tier):
    ts = gen.basics(fixed=gen.FIXED_EDGE)
    ts = [(s, t) for s, t in ts if t[0] not in ("bytes", "string")]
    out = [("flip", tuple(ts[i : i + 4])) for i in range(0, len(ts), 4)]
    fx = [(abi.tstr(t), t) for t in gen.FIXEDS]
    out += [("edge", tuple(fx[i : i + 80])) for i in range(0, len(fx), 80)]
    return out


def flips_make(ch, job):
    kind, pairs = job
    s, t = ch.pick(pairs, free=True)
    if kind == "edge":
        m = t[1]
        x = ch.pick(
            [y % (1 << 256) for b in (m - 1, m, 255, 256) for d in (-2, -1, 0, 1) for y in ((1 << b) + d, -(1 << b) + d)],
            free=True,
        )
        data = word(x)
    else:
        c = ch.pick((0, 1, 2), free=True)
        v = ch.pick([gen.default(t, 5)] + (gen.specials(t) if not c else []), free=True)
        data = abi.enc(t, v)
        bit = ch.pick(range(256), free=True)
        x = int.from_bytes(data, "big") ^ (1 << bit)
        data = word(x)
    if kind == "edge":
        c = 0
    if c == 1:
        return [f"({s},bytes)"], [("tup", (t, ("bytes",)))], word(0x20) + data + word(0x40) + word(0)
    if c == 2:
        return [s + "[]"], [("arr", t, None)], word(0x20) + word(1) + data
    return [s], [t], data


# ------------------------------------------------------------------ 5. byte strings: lengths, padding, text
def strs_jobs(tier):
    top = {"quick": 100, "thorough": 260}[tier]
    out = []
    for s in ("bytes", "string"):
        for n in range(0, top):
            out.append((s, "pad", n))
        for ctx in range(4):
            out.append((s, "len", ctx))
    out += [("string", "utf8", a) for a in range(0, 256, 16)]
    return out


def _in_ctx(s, ctx, body):
    if ctx == 0:
        return [s], word(0x20) + body
    if ctx == 1:
        return [s + "[]"], word(0x20) + word(1) + word(0x20) + body
    if ctx == 2:
        return ["(uint8,%s)" % s], word(0x20) + word(5) + word(0x40) + body
    return ["uint8", s], word(5) + word(0x40) + body


LENS = list(range(0, 130)) + [(1 << k) + d for k in range(8, 257) for d in (-33, -32, -31, -1, 0, 1, 31, 32)]
LENS = [x for x in LENS if x < 1 << 256]


def strs_make(ch, job):
    s, kind, a = job
    if kind == "pad":
        n = a
        ctx = ch.pick(range(4), free=True)
        fill = ch.pick((b"x", b"\x00"), free=True)
        pad = bytearray(-n % 32)
        muts = [None] + [(i, b) for i in range(len(pad)) for b in (1, 0x80)] + [("cut", i) for i in range(1, 35)] + [("ext", i) for i in (1, 31, 32)]
        m = ch.pick(muts, free=True)
        body = word(n) + fill * n
        if m and m[0] == "cut":
            body = (body + pad)[: max(0, len(body) + len(pad) - m[1])]
        else:
            if m and m[0] == "ext":
                pad += b"\x01" * m[1]
            elif m:
                pad[m[0]] = m[1]
            body += pad
        strs, data = _in_ctx(s, ctx, body)
    elif kind == "len":
        have = ch.pick((0, 1, 31, 32, 33, 63, 64, 96), free=True)
        fill = ch.pick((b"x", b"\x00"), free=True)
        n = ch.pick(LENS, free=True)
        strs, data = _in_ctx(s, a, word(n) + fill * have)
    else:
        lead = ch.pick(range(a, a + 16), free=True)
        second = ch.pick((None, 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF), free=True)
        rest = ch.pick((b"", b"\x80", b"\xbf\xbf", b"A", b"\x80\xc0", b"\x80\x80\x80"), free=True)
        b = bytes([lead]) + (bytes([second]) if second is not None else b"") + rest
        strs, data = _in_ctx(s, ch.pick((0, 1), free=True), word(len(b)) + b + bytes(-len(b) % 32))
    return strs, [abi.ptype(x) for x in strs], data


# ------------------------------------------------------------------ 6. claimed counts and sizes
def claims_jobs(tier):
    return [(i, tier) for i in range(len(CLAIM_TYPES))]


CLAIM_TYPES = [
    T("uint8[]"), T("bytes[]"), T("(uint8,bytes)[]"), T("uint8[][]"), T("bytes"), T("string"),
    T("bool[2][]"), T("string[][2]"), T("(bytes[],uint8[])"), T("uint8[2][][]"), T("bytes", "uint8[]"),
    T("uint8[1000000]"), T("bytes[1000000]"), T("(uint8,uint8[100000])[]"), T("uint8[1000][1000][1000]"),
    T("bytes[4294967296]"), T("uint8[18446744073709551616]"), T("bool[340282366920938463463374607431768211456][]"),
    T("bytes[9223372036854775807][]"), T("(bytes)[9223372036854775808]"),
]
BIG = sorted(
    {0, 1, 2, 3, 100}
    | {(1 << k) + d for k in (8, 16, 20, 24, 26, 28, 29, 30, 31, 32, 33, 36, 40, 48, 56, 58, 59, 60, 61, 62, 63, 64, 65, 127, 128, 255, 256) for d in (-32, -1, 0, 1)}
    - {1 << 256, (1 << 256) + 1}
)


def claims_make(ch, job):
    i, tier = job
    strs, types = CLAIM_TYPES[i]
    n = ch.pick(BIG[::5] + BIG[-1:] if tier == "some" else BIG, free=True)
    rest = ch.pick(range(0, 5), free=True)
    p = ch.pick((0x20, 0x40), free=True)
    fill = ch.pick((0, 0x20, 1, 0x40), free=True)
    data = word(p) + (word(0x20) if p == 0x40 else b"") + word(n) + word(fill) * rest
    if len(strs) == 2:
        data = word(0x40) + word(0x40 + p - 0x20) + data[32:]
    data = data[: len(data) - ch.pick((0, 31, 1), free=True)]
    return strs, types, data


# ------------------------------------------------------------------ 7. long values with one fault
LONG_ITEMS = ("uint8", "int16", "bool", "bytes3", "address", "fixed8x1", "uint256", "(bool,int8)", "bytes", "string", "uint8[]", "(uint8,bytes)")
LONG_COUNTS = (5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 1025)
LONG_BYTES = (100, 127, 128, 129, 255, 257, 511, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 5000, 8191, 10000, 16385, 32769, 65535, 65537, 100001, 131071)


def long_jobs(tier):
    some = tier != "thorough"
    counts = (9, 17, 33, 65, 130, 257, 1025) if some else LONG_COUNTS
    sizes = (129, 257, 513, 1025, 2049, 4097, 10001, 65537, 131071) if some else LONG_BYTES
    out = [("items", it, n, some) for it in LONG_ITEMS for n in counts]
    out += [("bytes", it, n, some) for it in ("bytes", "string") for n in sizes]
    return out


def long_make(ch, job):
    kind, it, n, some = job
    b = gen.Build(ch, lens=(2,), vary=False)
    if kind == "bytes":
        strs = ch.pick(([it], ["uint8", it + "[]"]), free=True)
        v = bytes(b"xyzw"[i % 4] for i in range(n))
        v = v.decode() if it == "string" else v
        vals = [v] if len(strs) == 1 else [1, [v, v]]
    else:
        dyn = ch.pick((True, False), free=True)
        tail = ch.pick((False, True), free=True)
        strs = [f"{it}[{'' if dyn else n}]"] + (["string"] if tail else [])
        vals = [[b.value(abi.ptype(it)) for _ in range(n)]] + (["end"] if tail else [])
    types = [abi.ptype(s) for s in strs]
    data = abi.enc_seq(types, vals)
    k = len(data) // 32
    spots = {2, k // 2, k - 2, k - 1} if some else {0, 1, 2, 3, k // 4, k // 2, k // 2 + 1, k - 4, k - 3, k - 2, k - 1}
    spots = sorted(spots & set(range(k)))
    f = ch.pick(("none", "bit", "cut"), free=True)
    if f == "cut":
        data = data[: len(data) - ch.pick((1, 32) if some else (1, 31, 32, 33, 64), free=True)]
    elif f == "bit":
        i = ch.pick(spots, free=True)
        m = ch.pick((0, 8, 16, 160, 231, 255) if some else (0, 7, 8, 15, 16, 64, 128, 160, 231, 232, 240, 255), free=True)
        w = int.from_bytes(data[32 * i : 32 * i + 32], "big") ^ (1 << m)
        data = data[: 32 * i] + word(w) + data[32 * i + 32 :]
    return strs, types, data


# ------------------------------------------------------------------ 8. deep nesting, one word wrong
def _chain(kind, leaf, d):
    """The leaf type wrapped d times; mixed kinds alternate."""
    t, v = leaf
    for i in range(d):
        k = kind[i % len(kind)]
        if k == "t":
            t, v = ("tup", (t,)), (v,)
        elif k == "u":
            t, v = ("tup", (("uint", 8), t)), (i, v)
        elif k == "v":
            t, v = ("tup", (t, ("bool",))), (v, True)
        elif k == "d":
            t, v = ("arr", t, None), [v]
        else:
            t, v = ("arr", t, 1), [v]
    return t, v


DEEP_KINDS = ("t", "u", "v", "d", "s", "ud", "ts", "vsd")
DEEP_LEAVES = ((("bytes",), b"ab"), (("arr", ("uint", 8), None), [1]), (("uint", 8), 7))
DEEP_DEPTHS = {"quick": (4, 6, 8, 9, 10, 13, 17), "thorough": tuple(range(3, 25)) + (32, 33)}


def deep_jobs(tier):
    return [(k, l, d, tier) for k in DEEP_KINDS for l in range(len(DEEP_LEAVES)) for d in DEEP_DEPTHS[tier]]


def deep_make(ch, job):
    k, l, d, tier = job
    t, v = _chain(k, DEEP_LEAVES[l], d)
    first = ch.pick((0, 1), free=True)
    types, vals = ([("uint", 8), t], [3, v]) if first else ([t], [v])
    data = abi.enc_seq(types, vals)
    n = len(data)
    i = ch.index(n // 32 + 1, free=True)
    if i == n // 32:
        data = data[: n - ch.pick((0, 1, 31, 32, 33), free=True)]
    else:
        w = int.from_bytes(data[32 * i : 32 * i + 32], "big")
        if tier == "thorough":
            x = ch.pick(mutants(w, i, n), free=True)
        else:
            few = [w, 0, 1, 0x20, w + 32, w - 32, w - 1, n - 32 * i, n, MAXW, 1 << 64, MAXW - 31, w ^ (1 << 255)]
            x = ch.pick(few, free=True) % (1 << 256)
        data = data[: 32 * i] + word(x) + data[32 * i + 32 :]
    return [abi.tstr(t) for t in types], types, data


# ------------------------------------------------------------------ 9. wide heads, one pointer wrong
WIDE = {"quick": (5, 8, 9, 16, 17, 33, 65, 129), "thorough": (5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 257)}


def wide_jobs(tier):
    return [(n, pat, f, tier) for n in WIDE[tier] for pat in ("dyn", "mix", "last", "first") for f in ("top", "tuple", "array")]


def wide_make(ch, job):
    n, pat, frame, tier = job
    dyn, stat = (("bytes",), b"ab"), (("uint", 8), 5)
    two = (("tup", (("uint", 8), ("bool",))), (1, True))
    if pat == "dyn":
        ms = [dyn] * n
    elif pat == "mix":
        ms = [(dyn, stat, two)[i % 3] for i in range(n)]
    elif pat == "last":
        ms = [stat] * (n - 1) + [dyn]
    else:
        ms = [dyn] + [stat] * (n - 1)
    types, vals = [m[0] for m in ms], [m[1] for m in ms]
    base = 0
    inner = list(types)
    if frame == "tuple":
        types, vals, base = [("tup", tuple(types))], [tuple(vals)], 0x20
    elif frame == "array":
        types, vals, base = [("arr", ("tup", tuple(types)), None)], [[tuple(vals)]], 0x60
    data = abi.enc_seq(types, vals)
    spots, pos = [], base
    for t in inner:
        if t == ("bytes",):
            spots.append(pos)
        pos += abi.head_size(t)
    end = pos - base
    spots = spots if tier == "thorough" else sorted({spots[0], spots[len(spots) // 2], spots[-1]})
    p = ch.pick(spots, free=True)
    w = int.from_bytes(data[p : p + 32], "big")
    m = len(data) - base
    offs = [w, 0, 32, end - 32, end - 1, end, end - end % 512, w - 32, w + 32, w ^ 32, m, m - 1, m - 32, m + 1, MAXW, 1 << 64]
    x = ch.pick(offs, free=True) % (1 << 256)
    return [abi.tstr(t) for t in types], types, data[:p] + word(x) + data[p + 32 :]


# ------------------------------------------------------------------ 10. one pointer of a table, where nothing else is wrong
TABLE = {"quick": (2, 5, 17, 33, 65, 100, 257), "thorough": (2, 3, 5, 9, 17, 18, 33, 34, 65, 66, 100, 129, 257, 300, 513, 1025)}
TABLE_FRAMES = ("array", "sized", "top", "tuple", "tuples", "inner")


def table_jobs(tier):
    return [(n, f) for n in TABLE[tier] for f in TABLE_FRAMES]


def table_make(ch, job):
    """A table of n pointers, all to an empty item after it except one: that one points into
    the table or elsewhere, and whatever it points to reads as an item, so that only the
    pointer is wrong."""
    n, frame = job
    by = ("bytes",)
    h = 32 * n
    i = ch.index(n, free=True)
    x = ch.pick(sorted({0, 32, 32 * i, 32 * (n // 2), h - 32, h - 64 if n > 1 else 0, h, h + 32, h + 31}), free=True)
    body = b"".join(word(x if k == i else h) for k in range(n)) + bytes(h + 128)
    if frame == "array":
        types, data = [("arr", by, None)], word(32) + word(n) + body
    elif frame == "sized":
        types, data = [("arr", by, n)], word(32) + body
    elif frame == "top":
        types, data = [by] * n, body
    elif frame == "tuple":
        types, data = [("tup", (by,) * n)], word(32) + body
    elif frame == "tuples":
        types, data = [("arr", ("tup", (by,) * n), None)], word(32) + word(1) + word(32) + body
    else:
        types, data = [("tup", (("uint", 8), ("arr", by, None)))], word(32) + word(7) + word(64) + word(n) + body
    return [abi.tstr(t) for t in types], types, data


# ------------------------------------------------------------------ 11. one of many members malformed
EACH = {"quick": (9, 33, 65, 130), "thorough": (9, 17, 33, 65, 66, 129, 130, 257, 300, 513)}
EACH_ITEMS = {
    "bool": (1, (2, 1 << 8, 1 << 255)),
    "uint8": (200, (1 << 8, 1 << 255, MAXW)),
    "int16": (MAXW, (1 << 15, MAXW >> 1, 1 << 16)),
    "bytes3": (0x616263 << 232, ((0x616263 << 232) + 1, (0x616263 << 232) + (1 << 231))),
    "address": (5, (1 << 160, 1 << 255)),
    "fixed8x1": (MAXW, (128, MAXW - 128, 1 << 8)),
    "(bool,uint8)": (None, (2, 1 << 8)),
}


def each_jobs(tier):
    return [(n, s, f) for n in EACH[tier] for s in EACH_ITEMS for f in ("array", "sized", "top", "tuple", "inner")]


def each_make(ch, job):
    """Many members, of which one (each in turn) is malformed or missing."""
    n, s, frame = job
    t = abi.ptype(s)
    ok, bad = EACH_ITEMS[s]
    per = abi.head_size(t) // 32
    ws = [word(1 if ok is None else ok)] * (n * per)
    i = ch.index(n * per, free=True)
    ws[i] = word(ch.pick(bad, free=True))
    body = b"".join(ws)
    if frame == "array":
        types, data = [("arr", t, None)], word(32) + word(n) + body
    elif frame == "sized":
        types, data = [("arr", t, n)], body
    elif frame == "top":
        types, data = [t] * n, body
    elif frame == "tuple":
        types, data = [("tup", (t,) * n)], body
    else:
        types = [("tup", (("bytes",), ("arr", t, n), ("bool",)))]
        data = word(32) + word(64 + len(body)) + body + word(1) + word(0)
    return [abi.tstr(x) for x in types], types, data


# ------------------------------------------------------------------ 12. every low (or high) half-word of small types
LOW = ("uint8", "int8", "bool", "fixed8x1", "ufixed8x2", "int16", "address", "bytes1", "bytes2")


def low_jobs(tier):
    return [(s, fill, lo) for s in LOW for fill in (0, 0xFF) for lo in range(0, 1 << 16, 4096)]


def low_make(ch, job):
    """Every value of the two bytes at the value's end of a word, over zeros and over ones."""
    s, fill, lo = job
    x = lo + ch.index(4096, free=True)
    two = x.to_bytes(2, "big")
    rest = bytes([fill]) * 30
    return [s], [abi.ptype(s)], two + rest if s.startswith("bytes") else rest + two


SPACES = {
    "low": (low_jobs, low_make),
    "each": (each_jobs, each_make),
    "table": (table_jobs, table_make),
    "deep": (deep_jobs, deep_make),
    "wide": (wide_jobs, wide_make),
    "long": (long_jobs, long_make),
    "words": (words_jobs, words_make),
    "muts": (muts_jobs, muts_make),
    "heads": (heads_jobs, heads_make),
    "arrptr": (arrptr_jobs, arrptr_make),
    "flips": (flips_jobs, flips_make),
    "strs": (strs_jobs, strs_make),
    "claims": (claims_jobs, claims_make),
}

BOUND_OF = {"arrptr": {"quick": 2, "thorough": 2}}

BOUNDS = {
    "quick": "words: every payload of 0..4 words (0..5 for six types) over an 8-word alphabet (<=3 words also "
    "cut inside the last word) for 37 type lists; muts: canonical encodings of every type of <=2 nodes with "
    "<=2 words replaced / cut / dropped / duplicated / extended, of 3..4 nodes with 1; heads: every head of "
    "<=2 members in 5 frames with <=2 pointers replaced by boundary offsets, of 3 members with 1; arrptr: "
    "arrays of 1..3 dynamic items, <=2 pointers/counts replaced; flips: every bit of the word of every basic "
    "type in 3 contexts, word boundaries of all 5120 fixed types; strs: every length 0..99 with every padding "
    "byte, cut and extension, lengths at 2^k neighbours to 2^256, every UTF-8 lead byte; claims: "
    "counts/lengths at 2^k neighbours to 2^256 over payloads of <=7 words; long: arrays of 12 item types with 9..1025 items and strings to 131071 bytes, "
    "whole, cut, or with one of 6 bits flipped in one of 4 words; deep: 8 kinds of nesting x 3 leaves x depths to 17, every word "
    "replaced by 13 others or the end cut; wide: heads of 5..129 members, one pointer replaced by 16 boundary offsets; "
    "table: tables of 2..257 pointers in 6 frames, every one of them in turn replaced by 9 offsets where everything readable is an item; "
    "each: 9..130 members of 7 types in 5 frames, every word in turn malformed in 2 or 3 ways; "
    "low: every value of two bytes over zeros and over ones for 9 types",
    "thorough": "as quick with words to 6 words, muts one node deeper, heads of <=3 members with every byte "
    "offset (1 pointer), arrptr with every byte offset (2 pointers), strs to length 259, deep to depth 33 with ~35 "
    "words, wide with every pointer to 257 members, tables to 1025, each to 513",
}


def space_jobs(tier, spaces=tuple(SPACES)):
    out = []
    for name in spaces:
        for j in SPACES[name][0](tier):
            bound = BOUND_OF.get(name, {}).get(tier, 0)
            if name == "muts":
                j, bound = j
            if name == "heads":
                bound = j[-1]
            out.append((name, j, bound, None))
    return out
