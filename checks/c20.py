import decimal
import itertools
import random

from checks.common import *
from eth_abi.tools import get_abi_strategy
from hypothesis.control import BuildContext
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData, PrimitiveProvider

# ------------------------------------------------------------------ hypothesis, with enumerated answers
INT = (0, 1, -1, 2, 255, 256, -128, 127, 1 << 64, -(1 << 64), 1 << 128, 1 << 255, -(1 << 255), (1 << 256) - 1, 1 << 256)


class Enumerating(PrimitiveProvider):
    """Answers every draw of a strategy from the chooser; `eager` booleans are answered True
    while that many remain (long lists) and are not choice points."""

    lifetime = "test_function"

    def __init__(self, ch, eager=None):
        super().__init__(None)
        self.ch = ch
        self.eager = eager
        self.draws = 0

    def _count(self):
        self.draws += 1
        if self.draws > 60000:
            raise Violation("a strategy does not stop drawing")

    def draw_boolean(self, p=0.5, *, forced=None, fake_forced=False):
        self._count()
        if forced is not None:
            return forced
        if p <= 0:
            return False
        if p >= 1:
            return True
        if self.eager is not None:
            self.eager -= 1
            return self.eager >= 0
        return self.ch.pick((False, True))

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, forced=None, fake_forced=False):
        self._count()
        if forced is not None:
            return forced
        lo, hi = min_value, max_value
        cand = [shrink_towards]
        if lo is not None:
            cand += [lo, lo + 1]
        if hi is not None:
            cand += [hi, hi - 1]
        if lo is not None and hi is not None:
            if hi - lo <= 16:
                cand += list(range(lo, hi + 1))
            cand.append((lo + hi) // 2)
            cand.append(lo + (hi - lo) // 3)
        else:
            cand += INT
        out = []
        for x in cand:
            if (lo is None or x >= lo) and (hi is None or x <= hi) and x not in out:
                out.append(x)
        if self.eager is not None:
            return out[self.draws % len(out)]
        return self.ch.pick(out)

    def draw_float(self, *, min_value=-float("inf"), max_value=float("inf"), allow_nan=True, smallest_nonzero_magnitude=5e-324, forced=None, fake_forced=False):
        self._count()
        if forced is not None:
            return forced
        out = [x for x in (0.0, 1.5, -1.5, min_value, max_value, 1e300, -1e-300) if min_value <= x <= max_value]
        if allow_nan:
            out.append(float("nan"))
        return self.ch.pick(out)

    def draw_string(self, intervals, *, min_size=0, max_size=None, forced=None, fake_forced=False):
        self._count()
        if forced is not None:
            return forced
        iv = list(intervals.intervals)
        edge = [chr(c) for a, b in iv for c in (a, b)]
        if len(edge) > 60:
            edge = edge[:30] + edge[-30:]
        base = chr(intervals[0])
        top = 200 if max_size is None or max_size > 5000 else int(max_size)
        out = [base * min_size]
        for n in (0, 1, 2, 31, 32, 33, top):
            if min_size <= n <= top:
                out.append(("".join(edge) * (n // len(edge) + 1))[:n])
                out.append(base * n)
        if min_size <= 1 <= top:
            out += edge
        out = list(dict.fromkeys(out))
        if self.eager is not None:
            return out[self.draws % len(out)]
        return self.ch.pick(out)

    def draw_bytes(self, size, *, forced=None, fake_forced=False):
        self._count()
        if forced is not None:
            return forced
        z = bytes(size)
        out = [z, b"\xff" * size]
        if size:
            out += [b"\x80" + z[1:], b"\x7f" + b"\xff" * (size - 1), z[1:] + b"\x01", bytes((7 * i + 1) % 256 for i in range(size))]
        out = list(dict.fromkeys(out))
        if self.eager is not None:
            return out[self.draws % len(out)]
        return self.ch.pick(out)


NOTHING = object()


def draw(strategy, ch, eager=None):
    data = ConjectureData(1 << 24, b"", random=random.Random(0), provider=Enumerating(ch, eager))
    try:
        with BuildContext(data):
            return data.draw(strategy)
    except (StopTest, UnsatisfiedAssumption):
        return NOTHING


def enumerate_draws(strategy, bound, cap=200000):
    """Every value the strategy gives with <= bound non-default answers."""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, cost = stack.pop()
        ch = core.Chooser(prefix)
        v = draw(strategy, ch)
        n += 1
        if n > cap:
            raise RuntimeError("too many draws")
        if v is not NOTHING:
            yield v
        if cost == bound:
            continue
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            for alt in range(1, ch.points[i][0]):
                stack.append((tuple(ch.choices[:i]) + (alt,), cost + 1))


# ------------------------------------------------------------------ what must be reachable
def limits(t):
    k = t[0]
    if k == "uint":
        return 0, (1 << t[1]) - 1
    if k == "int":
        return -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1
    if k == "ufixed":
        return abi.unscaled(0, t[2]), abi.unscaled((1 << t[1]) - 1, t[2])
    if k == "fixed":
        return abi.unscaled(-(1 << (t[1] - 1)), t[2]), abi.unscaled((1 << (t[1] - 1)) - 1, t[2])
    if k == "bool":
        return False, True
    if k == "address":
        return "0x" + "00" * 20, "0x" + "ff" * 20
    if k == "bytesM":
        return bytes(t[1]), b"\xff" * t[1]
    return None


def required(t, path=()):
    k = t[0]
    if k == "arr":
        if t[2] is None:
            return {path + ("empty",), path + ("non-empty",), path + ("two or more",)} | required(t[1], path + ("[0]",))
        return required(t[1], path + ("[0]",)) | required(t[1], path + ("[-1]",))
    if k == "tup":
        return set().union(*(required(c, path + (f".{i}",)) for i, c in enumerate(t[1])))
    if k in ("bytes", "string"):
        return {path + ("empty",), path + ("non-empty",)}
    return {path + ("smallest",), path + ("largest",)}


def reached(t, v, path=()):
    """Features of a canonical value."""
    k = t[0]
    if k == "arr":
        out = set()
        if t[2] is None:
            out.add(path + ("non-empty" if v else "empty",))
            if len(v) > 1:
                out.add(path + ("two or more",))
        if v:
            out |= reached(t[1], v[0], path + ("[0]",))
            if t[2] is not None:
                out |= reached(t[1], v[-1], path + ("[-1]",))
        return out
    if k == "tup":
        return set().union(*(reached(c, x, path + (f".{i}",)) for i, (c, x) in enumerate(zip(t[1], v))))
    if k in ("bytes", "string"):
        return {path + ("non-empty" if v else "empty",)}
    lo, hi = limits(t)
    out = set()
    if v == lo:
        out.add(path + ("smallest",))
    if v == hi:
        out.add(path + ("largest",))
    return out


def dyn_depth(t):
    if t[0] == "arr":
        return dyn_depth(t[1]) + (t[2] is None)
    if t[0] == "tup":
        return max(map(dyn_depth, t[1]))
    return int(t[0] in ("bytes", "string"))


def check_value(s, t, v):
    if abi.member(t, v) is not True:
        raise Violation(f"get_abi_strategy({s!r}) generates {short(v)}, which is not a value of the type")
    if is_encodable(s, v) is not True:
        raise Violation(f"get_abi_strategy({s!r}) generates {short(v)}, which is not encodable")
    want = abi.canon(t, v)
    data = encode([s], [v])
    if not abi.same_seq([t], decode([s], data), (want,)):
        raise Violation(f"get_abi_strategy({s!r}) generates {short(v)}, which does not survive encode and decode: {short(decode([s], data))}")
    if data != abi.enc_seq([t], [v]):
        raise Violation(f"get_abi_strategy({s!r}) generates {short(v)}, which encodes to {short(data.hex())}")
    return want


def strategy(ch, job):
    pairs, bound, longs = job
    s, t = ch.pick(pairs, free=True)
    b = bound if bound is not None else min(4, dyn_depth(t) + 1)
    strat = get_abi_strategy(s)
    got = set()
    n = 0
    # two-or-more needs one more answer than the depth
    for v in enumerate_draws(strat, b):
        n += 1
        got |= reached(t, check_value(s, t, v))
    for k in longs:
        v = draw(strat, core.Chooser(), eager=k)
        if v is not NOTHING:
            n += 1
            got |= reached(t, check_value(s, t, v))
    miss = required(t) - got
    if miss:
        raise Violation(f"no answers to the draws of get_abi_strategy({s!r}) give a value that is {sorted(miss)} ({n} values generated)")
    ch.op(4 * n)
    core.extra("values", n)
    core.note(f"{t[0]}")
    return s, n


def far(ch, job):
    """Large types: the values of the default answers, of one other answer at each end of the
    draws, and of eager lists."""
    s, t = job
    strat = get_abi_strategy(s)
    n = 0
    first = core.Chooser()
    seen = [draw(strat, first)]
    m = len(first.points)
    for i in sorted({0, 1, m // 2, m - 2, m - 1} & set(range(m))):
        for alt in range(1, first.points[i][0]):
            seen.append(draw(strat, core.Chooser(tuple(first.choices[:i]) + (alt,))))
    seen += [draw(strat, core.Chooser(), eager=k) for k in (1, 2, 3, 40)]
    for v in seen:
        if v is not NOTHING:
            n += 1
            check_value(s, t, v)
    if not n:
        raise Violation(f"get_abi_strategy({s!r}) gives no value")
    ch.op(4 * n)
    core.extra("values", n)
    core.note("far " + t[0])
    return s[:80], n


LEAVES = (("uint", 8), ("int", 16), ("bytes",), ("string",), ("bytesM", 3), ("bool",), ("address",), ("fixed", 8, 1), ("ufixed", 256, 80))


def jobs(tier):
    out = []
    b = [(s, t) for s, t in gen.basics(fixed=())]
    out += [("strategy", (tuple(b[i : i + 8]), 2, (40, 5000)), 0, None) for i in range(0, len(b), 8)]
    fx = [(abi.tstr(t), t) for t in gen.FIXEDS]
    out += [("strategy", (tuple(fx[i : i + 64]), 2, ()), 0, None) for i in range(0, len(fx), 64)]
    ts = [(abi.tstr(t), t) for t in gen.all_trees(2, LEAVES) if t[0] in ("arr", "tup")]
    ts += [(abi.tstr(t), t) for t in gen.trees(3, LEAVES[:6])]
    out += [("strategy", (tuple(ts[i : i + 4]), None, (3, 40)), 0, None) for i in range(0, len(ts), 4)]
    alias = [(f, ("tup", (x, ("arr", x, None)))) for a, x in gen.ALIASES for f in (f"({a},{a}[])",)]
    alias += [(f"{a}[2]", ("arr", x, 2)) for a, x in gen.ALIASES]
    alias += [(f"({a})[][2]", ("arr", ("arr", ("tup", (x,)), None), 2)) for a, x in gen.ALIASES]
    out += [("strategy", ((p,), 3, (3, 40)), 0, None) for p in alias]
    sized = [(f"uint8[{n}]", ("arr", ("uint", 8), n)) for n in list(range(1, 12)) + [31, 32, 33]]
    out += [("strategy", ((p,), 1, (3,)), 0, None) for p in sized]
    # longer arrays, wider tuples, deeper nestings: the default answers and long lists
    u, by, bo = ("uint", 8), ("bytes",), ("bool",)
    far = []
    for n in [12, 16, 17, 20, 24, 25, 40, 48, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300] + ([511, 512, 513, 1000, 1024, 1025] if tier == "thorough" else []):
        far += [("arr", x, n) for x in (u, by, ("tup", (u, by)), ("arr", bo, 2), ("arr", bo, None))]
        far += [("tup", (("arr", u, n), by)), ("arr", ("arr", bo, n), 2), ("arr", ("arr", u, n), None)]
    for n in [*range(2, 20), 31, 32, 33, 40, 64, 65, 100]:
        far += [("tup", (u,) * n), ("tup", tuple((u, by, bo, ("arr", u, 2))[i % 4] for i in range(n)))]
    for n in range(3, 16 if tier == "quick" else 30):
        for w in (lambda t: ("tup", (t,)), lambda t: ("arr", t, 1), lambda t: ("arr", t, None), lambda t: ("tup", (bo, ("arr", t, None)))):
            t = u
            for _ in range(n):
                t = w(t)
            far.append(t)
    # every list of array dimensions
    for k in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for dims in itertools.product((1, 2, 3, None), repeat=k):
            t = ("tup", (bo, by)) if k == 2 else u
            for d in dims:
                t = ("arr", t, d)
            far.append(t)
    out += [("far", (abi.tstr(t), t), 0, None) for t in far]
    if tier == "thorough":
        ts = [(abi.tstr(t), t) for t in gen.trees(4, LEAVES[:4])]
        out += [("strategy", (tuple(ts[i : i + 8]), None, (3, 40)), 0, None) for i in range(0, len(ts), 8)]
    return out


CHECK = core.Check(
    "C20",
    {"strategy": strategy, "far": far},
    jobs,
    TRUST
    + [
        "every value a strategy can give comes from the draws hypothesis 6.108.6 makes of its provider; draws are answered from boundary "
        "domains (limits and neighbours, all of small ranges, edge characters, byte patterns), not from every integer",
    ],
    lambda t: "every basic type, alias and all 5120 fixed types: every combination of <=2 non-default answers to the draws; every compound of "
    "<=3 nodes (thorough 4), aliases in compounds, array sizes 1..33: up to 4 non-default answers; lists of 40 and 5000 items; array sizes to 300 (1025) in 8 "
    "shapes, tuples of <=100 members, 4 kinds of nesting to depth 15 (29), every list of <=4 (5) array dimensions out of 1, 2, 3 and open: default, single other and eager answers",
)
