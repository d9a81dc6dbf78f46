import sys
import time
import tracemalloc

from checks.decoding import *
from eth_abi.codec import ABICodec
from eth_abi.decoding import ContextFramesBytesIO

# ------------------------------------------------------------------ counting the work
MON = sys.monitoring
EV = MON.events
EVENTS = (EV.CALL, EV.JUMP, EV.PY_START, EV.PY_RESUME)
TOOL = 4


class Counter:
    on = False
    n = 0
    limit = 0


class TooMuch(BaseException):
    pass


def _count(*a):
    Counter.n += 1
    if Counter.n > Counter.limit:
        Counter.limit = float("inf")
        raise TooMuch()


def measure(limit, fn, *a, **kw):
    """Number of calls, loop iterations and generator steps, in whatever library, of
    fn(*a); ("result", r), ("raise", e), or ("too much", None) once they exceed limit."""
    if not Counter.on:
        MON.use_tool_id(TOOL, "work")
        for e in EVENTS:
            MON.register_callback(TOOL, e, _count)
        Counter.on = True
    Counter.n = 0
    Counter.limit = limit
    MON.set_events(TOOL, EV.CALL | EV.JUMP | EV.PY_START | EV.PY_RESUME)
    try:
        r = ("value", fn(*a, **kw))
    except TooMuch:
        r = ("too much", None)
    except core.ExecTimeout:
        raise
    except Exception as e:
        r = ("raise", e)
    finally:
        MON.set_events(TOOL, 0)
    if Counter.n > limit:
        r = ("too much", None)
    return Counter.n, r


class CountingStream(ContextFramesBytesIO):
    count = 0

    def read(self, *a):
        d = super().read(*a)
        CountingStream.count += len(d)
        return d


class Codec(ABICodec):
    stream_class = CountingStream


CODEC = Codec(registry)


# ------------------------------------------------------------------ the allowance
def size(t):
    """Nodes of the type."""
    if t[0] == "arr":
        return 1 + size(t[1])
    if t[0] == "tup":
        return 1 + sum(map(size, t[1]))
    return 1


def depth(t):
    if t[0] == "arr":
        return 1 + depth(t[1])
    if t[0] == "tup":
        return 1 + max(map(depth, t[1]))
    return 1


def nodes(t, v):
    if t[0] == "arr":
        return 1 + sum(nodes(t[1], x) for x in v)
    if t[0] == "tup":
        return 1 + sum(nodes(a, b) for a, b in zip(t[1], v))
    return 1


# measured on the unchanged tree: at most 41 events per unit for decoding, 37 for encoding,
# 33 for resolving a type.
K_DEC = 140
K_ENC = 140
K_COLD = 140
BASE = 400


def ratio(name, n, units):
    core.note(f"{name} {min(9, 10 * n // (units * 140))}")


def check_decode(ch, strs, types, data):
    want, d = model(types, data)
    words = (len(data) + 31) // 32
    total = sum(map(size, types)) + 1
    units = d.steps + total + (words if want[0] == "bad" else 0)
    real(strs, b"")  # resolve the types first
    for kw in ({}, {"strict": False}):
        real(strs, b"", **kw)
        ch.op()
        CountingStream.count = 0
        n, r = measure(BASE + K_DEC * units, CODEC.decode, strs, data, **kw)
        what = f"decode({short(strs)}, <{len(data)} bytes> {short(data.hex(), 900)}{', strict=False' if kw else ''})"
        if r[0] == "too much":
            raise Violation(
                f"{what} does more than {BASE + K_DEC * units} calls and iterations for a value of {d.steps} words "
                f"and a type of {total} nodes (payload {words} words, {want[0]})",
                py("decode", strs, data, **kw),
            )
        if CountingStream.count > 1024 + 4 * 32 * units:
            raise Violation(
                f"{what} reads {CountingStream.count} bytes from a stream of {len(data)} for a value of {d.steps} words",
                py("decode", strs, data, **kw),
            )
        if kw and want[0] == "bad":
            continue
        core.note("decoded" if r[0] == "value" else "rejected")
        ratio("dec", n, units)
    return strs, units, n


def check_encode(ch, strs, types, values):
    total = 1 + sum(nodes(t, v) for t, v in zip(types, values))
    dep = 2 + max((depth(t) for t in types), default=0)
    units = total * dep
    ch.op(3)
    for name, f, args in (
        ("encode", eth_abi.encode, (strs, values)),
        ("encode_packed", encode_packed, (strs, values)),
    ):
        f(*args)
        n, r = measure(BASE + K_ENC * units, f, *args)
        if r[0] == "too much":
            raise Violation(
                f"{name}({short(strs)}, {short(values, 500)}) does more than {BASE + K_ENC * units} calls and iterations for "
                f"{total} members nested {dep - 2} deep",
                py(name, strs, values) if name == "encode" else None,
            )
        ratio(name, n, units)
    for s, t, v in zip(strs, types, values):
        units = nodes(t, v) * (2 + depth(t))
        is_encodable(s, v)
        n, r = measure(BASE + K_ENC * units, is_encodable, s, v)
        if r[0] == "too much":
            raise Violation(f"is_encodable({short(s)}, {short(v, 500)}) does more than {BASE + K_ENC * units} calls and iterations")


def values_family(make):
    def run(ch, job):
        strs, types, values = make(ch, job)
        check_encode(ch, strs, types, values)
        return check_decode(ch, strs, types, abi.enc_seq(types, values))

    return run


def payload_family(make):
    def run(ch, job):
        strs, types, data = make(ch, job)
        return check_decode(ch, list(strs), list(types), data)

    return run


# ------------------------------------------------------------------ nesting
U8, BY, STR = ("uint", 8), ("bytes",), ("string",)
LEVELS = {
    "[]": lambda t: ("arr", t, None),
    "[1]": lambda t: ("arr", t, 1),
    "(t)": lambda t: ("tup", (t,)),
    "(u,t)": lambda t: ("tup", (U8, t)),
    "(t,u)": lambda t: ("tup", (t, U8)),
    "(t,b)": lambda t: ("tup", (t, BY)),
    "(b,t)": lambda t: ("tup", (BY, t)),
    "((u,u),t)": lambda t: ("tup", (("tup", (U8, U8)), t)),
}


def nest(n, levels, leaf):
    t = leaf
    for i in range(n):
        t = LEVELS[levels[i % len(levels)]](t)
    return t


def nest_make(ch, job):
    levels, depths = job
    leaf = ch.pick((U8, BY, ("tup", (U8, STR))), free=True)
    n = ch.pick(depths, free=True)
    t = nest(n, levels, leaf)
    v = gen.Build(ch, lens=(1,), vary=False).value(t)
    return [abi.tstr(t)], [t], [v]


def wide_make(ch, job):
    """One compound of n members, then one level of nesting around it."""
    member, ns = job
    n = ch.pick(ns, free=True)
    outer = ch.pick(("list", "tup", "[]", "[n]", "[][1]", "(u,t)[]"), free=True)
    b = gen.Build(ch, lens=(1,), vary=False)
    if outer == "list":
        types = [member] * n
    elif outer == "tup":
        types = [("tup", (member,) * n)]
    elif outer == "[n]":
        types = [("arr", member, n)]
    elif outer == "[]":
        return [abi.tstr(member) + "[]"], [("arr", member, None)], [[b.value(member) for _ in range(n)]]
    elif outer == "[][1]":
        t = ("arr", ("arr", member, None), 1)
        return [abi.tstr(t)], [t], [[[b.value(member) for _ in range(n)]]]
    else:
        t = ("arr", ("tup", (U8, member)), None)
        return [abi.tstr(t)], [t], [[(1, b.value(member)) for _ in range(n)]]
    return [abi.tstr(t) for t in types], types, [b.value(t) for t in types]


def shared_make(ch, job):
    """Every pointer of an array goes to the same tail, at each of n levels: the value is much
    larger than the payload, but no larger than the work.  Also with the last word missing."""
    width, levels = job
    leaf = ch.pick((U8, BY), free=True)
    kind = ch.pick(("[]", "[k]"), free=True)
    t = ("arr", leaf, None if kind == "[]" else width)
    t0 = t
    for _ in range(levels):
        t = ("arr", t, None if kind == "[]" else width)
    inner = abi.enc(t0, [gen.default(leaf, 3)] * width)
    body = inner
    for _ in range(levels):
        if abi.is_dyn(t0):
            body = b"".join([abi.word(32 * width)] * width) + body
            if kind == "[]":
                body = abi.word(width) + body
        else:
            body = abi.enc(t, gen.Build(ch, lens=(width,), vary=False).value(t))
            break
    data = (abi.word(0x20) if abi.is_dyn(t) else b"") + body
    data = data[: len(data) - ch.pick((0, 1, 32), free=True)]
    return [abi.tstr(t)], [t], data


# ------------------------------------------------------------------ first use
def cold(ch, job):
    """Resolving a type for the first time, in a fresh process."""
    levels, depths = job
    leaf = ch.pick((U8, BY), free=True)
    n = ch.pick(depths, free=True)
    t = nest(n, levels, leaf)
    s = abi.tstr(t)
    v = gen.Build(ch, lens=(1,), vary=False).value(t)
    what = ch.pick(("encode", "decode", "is_encodable_type", "packed"), free=True)
    data = abi.enc_seq([t], [v])
    limit = BASE * 5 + K_COLD * len(s) * (n + 3)

    def run():
        f, args = {
            "encode": (encode, ([s], [v])),
            "decode": (decode, ([s], data)),
            "is_encodable_type": (eth_abi.is_encodable_type, (s,)),
            "packed": (encode_packed, ([s], [v])),
        }[what]
        k, r = measure(limit, f, *args)
        if r[0] == "too much":
            raise Violation(f"the first {what} of type {short(s)} does more than {limit} calls and iterations for {len(s)} characters nested {n} deep")
        return k

    ch.op()
    k = core.forked(run)
    ratio("cold", k, len(s) * (n + 3))
    return s, what, k


# ------------------------------------------------------------------ memory
def memory(ch, job):
    """Peak memory of a decode stays in proportion to payload and value."""
    strs, types, data = pay.claims_make(ch, job)
    want, d = model(types, data)
    words = (len(data) + 31) // 32
    units = d.steps + sum(map(size, types)) + words
    strs = list(strs)
    real(strs, b"")
    for kw in ({}, {"strict": False}):
        ch.op()
        tracemalloc.start()
        try:
            real(strs, data, **kw)
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        if peak > 200000 + 4000 * units:
            raise Violation(
                f"decode({short(strs)}, <{len(data)} bytes> {short(data.hex(), 900)}) allocates {peak} bytes",
                py("decode", strs, data, **kw),
            )
        core.note(f"peak {peak // 20000}")
    return strs, len(data), peak


# ------------------------------------------------------------------ many members
ITEMS = {
    "uint8": 200, "int256": -3, "bool": True, "address": "0x" + "1a" * 20, "bytes7": b"abcdefg", "bytes": b"ab" * 20, "string": "xyz",
    "uint8[]": [1, 2], "uint8[2]": [3, 4], "(uint8,bytes)": (1, b"q"), "(bool,int8)": (False, -1), "fixed128x18": gen.D("-1.5"), "bytes[1]": [b"r"],
}


def cpu(f, *a, **kw):
    t = time.thread_time()
    f(*a, **kw)
    return time.thread_time() - t


def big(ch, job):
    """Processor time for 32 times the members is not out of proportion: also sees work that
    is done inside C calls.  The allowance is four times the linear one plus 2 s."""
    item, form, op, small, large = job
    s = {"[]": item + "[]", "[1][]": item + "[1][]"}.get(form)
    v = ITEMS[item]

    def prepare(n):
        if form == "[]":
            strs, vs = [s], [[v] * n]
        elif form == "[N]":
            strs, vs = [f"{item}[{n}]"], [[v] * n]
        elif form == "[1][]":
            strs, vs = [s], [[[v]] * n]
        elif form == "(..)":
            strs, vs = ["(" + ",".join([item] * n) + ")"], [tuple([v] * n)]
        else:
            strs, vs = [item] * n, [v] * n
        if op == "encode":
            f, a, kw = eth_abi.encode, (strs, vs), {}
        elif op == "packed":
            f, a, kw = encode_packed, (strs, vs), {}
        elif op == "is_encodable":
            f, a, kw = is_encodable, (strs[0], vs[0]), {}
        else:
            f, a, kw = eth_abi.decode, (strs, abi.enc_seq([abi.ptype(x) for x in strs], vs)), {"strict": op == "decode"}
        return f, a, kw

    ch.op(2)
    f, a, kw = prepare(small)
    f(*a, **kw)
    t0 = max(cpu(f, *a, **kw) for _ in range(2))
    f, a, kw = prepare(large)
    if form in ("(..)", "list"):
        f(*a, **kw)  # resolve the type
    limit = 2 + 4 * t0 * large / small
    t1 = None
    for _ in range(3):
        t1 = cpu(f, *a, **kw)
        if t1 <= limit:
            break
    else:
        raise Violation(f"{op} of {large} members of {item} ({form}) takes {t1:.1f} s of processor time, of {small} members {t0:.3f} s")
    core.note("in proportion")
    return item, form, op, round(t0, 4), round(t1, 4)


FAMILIES = {
    "big": big,
    "trees": values_family(gen.trees_make),
    "lengths": values_family(gen.lengths_make),
    "nest": values_family(nest_make),
    "wide": values_family(wide_make),
    "words": payload_family(pay.words_make),
    "muts": payload_family(pay.muts_make),
    "claims": payload_family(pay.claims_make),
    "shared": payload_family(shared_make),
    "cold": cold,
    "memory": memory,
}


def jobs(tier):
    out = []
    quick = tier == "quick"
    ls = list(LEVELS)
    one = [(a,) for a in ls]
    two = [(a, b) for a in ls for b in ls if a != b]
    three = [(a, b, c) for a in ls for b in ls for c in ls if len({a, b, c}) == 3]
    deep = tuple(range(0, 13)) + (16, 20, 24, 32, 40)
    for lv in one + two + ([] if quick else three):
        out.append(("nest", (lv, deep if quick else tuple(range(0, 45))), 0, None))
    for lv in one + (two if not quick else two[::5]):
        out.append(("cold", (lv, (1, 2, 3, 4, 6, 8, 12, 16, 20) if quick else tuple(range(1, 31))), 0, None))
    ns = (0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 300) if quick else tuple(range(0, 60)) + (89, 144, 300, 600, 1200)
    ns = tuple(n for n in ns if n)
    for m in (U8, BY, ("tup", (U8, U8)), ("tup", (U8, BY)), ("arr", U8, None), ("arr", BY, 2), ("arr", U8, 3), ("bytesM", 5), ("address",), ("fixed", 128, 18), STR):
        for i in range(0, len(ns), 4):
            out.append(("wide", (m, ns[i : i + 4]), 0, None))
    ops = ("encode", "packed", "is_encodable", "decode", "decode loose")
    for item in ITEMS:
        for form in ("[]", "[N]") if quick else ("[]", "[N]", "[1][]"):
            for op in ops:
                if form == "[N]" and quick and op not in ("encode", "decode"):
                    continue
                out.append(("big", (item, form, op, 2500, 80000), 0, None))
    for item in ("uint8", "bytes"):
        for form in ("(..)", "list"):
            out += [("big", (item, form, op, 500, 20000), 0, None) for op in ops if not (form == "list" and op == "is_encodable")]
    for w in range(1, 5):
        for n in range(1, 6 if quick else 8):
            if w ** (n + 1) <= 5000:
                out.append(("shared", (w, n), 0, None))
    out += [("claims", j, 0, None) for j in pay.claims_jobs("some" if quick else tier)]
    out += [("memory", j, 0, None) for j in pay.claims_jobs("some" if quick else tier)]
    bl = [x for x in gen.byte_lengths("quick") if x < 40 or x % 37 == 0]
    out += [("lengths", ("bytes", tuple(bl[i : i + 20])), 0, None) for i in range(0, len(bl), 20)]
    size_ = 4 if quick else 5
    ts = gen.all_trees(size_)
    out += [("trees", tuple(ts[i : i + 20]), 0 if quick else 1, None) for i in range(0, len(ts), 20)]
    for j in pay.words_jobs("quick"):
        if j[1] <= (3 if quick else 5):
            out.append(("words", j, 0, None))
    ts = pay.mut_types(3 if quick else 4)
    out += [("muts", tuple(ts[i : i + 6]), 1, None) for i in range(0, len(ts), 6)]
    return out


CHECK = core.Check(
    "C15",
    FAMILIES,
    jobs,
    TRUST
    + [
        "work is counted as calls, loop iterations and generator steps in all Python code (sys.monitoring) plus bytes read from the "
        "stream; work inside C calls is seen through bytes read, peak memory, and processor time (80000 against 2500 members: an "
        "alarm only beyond 2 s plus four times the linear time, three times in a row)",
        "a type has been used before, except in the cold family",
        f"allowance: {K_DEC} events per word of the value and node of the type to decode, {K_ENC} per member and nesting level to "
        f"encode, {K_COLD} per character and nesting level to resolve a type (3 to 4 times what the unchanged tree needs)",
    ],
    lambda t: "every chain of 1..2 (thorough 3) alternating kinds of nesting level out of 8, depth 0..12 and to 40; compounds of "
    "11 member types with 1..300 (1200) members in 6 arrangements; processor time for 80000 members of 13 types; all trees of <=4 (5) nodes; byte lengths to 2^17; all payloads of "
    "<=3 (5) words over 8 words for 37 types; single mutations of encodings of <=3 (4) nodes; claimed counts/lengths to 2^256; "
    "arrays sharing tails at 1..5 levels; first use at depth 1..20 (30)",
)
