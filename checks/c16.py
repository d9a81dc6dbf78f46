import decimal
import importlib
import itertools
import sys

from checks.common import *

D = decimal.Decimal
ROUND = (
    decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN, decimal.ROUND_UP, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_CEILING,
    decimal.ROUND_FLOOR, decimal.ROUND_05UP,
)
SIGNALS = (
    decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Clamped, decimal.Underflow, decimal.Overflow, decimal.DivisionByZero,
    decimal.FloatOperation, decimal.InvalidOperation,
)


def default():
    return decimal.Context(
        prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999, capitals=1, clamp=0, flags=[],
        traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow],
    )


def changed(**kw):
    c = default()
    on = kw.pop("on", ())
    off = kw.pop("off", ())
    for k, v in kw.items():
        setattr(c, k, v)
    for s in on:
        c.traps[s] = True
    for s in off:
        c.traps[s] = False
    return c


def contexts():
    """keyword dicts; every execution builds its own Context from one of them"""
    out = []
    for prec in (1, 2, 3, 5, 18, 27, 28, 29, 38, 77, 78, 100, 998, 999, 1000, decimal.MAX_PREC):
        for r in ROUND:
            out.append(dict(prec=prec, rounding=r))
    for e in (0, 1, 5, 28, 80):
        out += [dict(Emax=e), dict(Emin=-e), dict(Emax=e, Emin=-e), dict(Emax=e, Emin=-e, clamp=1), dict(Emax=e, Emin=-e, prec=2, clamp=1)]
    out += [dict(Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, prec=decimal.MAX_PREC, clamp=c) for c in (0, 1)]
    out += [dict(clamp=1), dict(capitals=0), dict(clamp=1, capitals=0, prec=4)]
    subsets = [s for n in (1, 2) for s in itertools.combinations(SIGNALS, n)] + [SIGNALS]
    for s in subsets:
        out.append(dict(on=s))
        out.append(dict(on=s, prec=1, Emax=1, Emin=-1))
        out.append(dict(off=s))
    out.append(dict(on=SIGNALS, prec=1, Emax=0, Emin=0, clamp=1, rounding=decimal.ROUND_UP))
    out.append(dict(off=SIGNALS, prec=1, Emax=0, Emin=0, clamp=1, rounding=decimal.ROUND_FLOOR))
    return out


CONTEXTS = contexts()


def settings(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(bool(c.traps[s]) for s in SIGNALS))


# ------------------------------------------------------------------ what is called
def q(n, p):
    return abi.unscaled(n, p)


def values_of(t):
    """Values inside, on and outside the limits, exact and with excess digits."""
    if t[0] in ("fixed", "ufixed"):
        m, p = t[1], t[2]
        lo, hi = (-(1 << (m - 1)), (1 << (m - 1)) - 1) if t[0] == "fixed" else (0, (1 << m) - 1)
        out = [q(n, p) for n in (0, 1, -1, hi, hi - 1, hi + 1, lo, lo + 1, lo - 1, hi // 3, lo // 7, 10**p, 5 * 10 ** (p - 1), 12345)]
        out += [q(n * 10 + 1, p + 1) for n in (0, hi, hi // 3)] + [q(n * 10 - 1, p + 1) for n in (lo, hi, 1)]
        out += [D("0E+3"), D("1E+1"), D("1E+200"), D("-1E-200"), D("NaN"), D("sNaN"), D("Infinity"), D("-Infinity"), 0, 1, -1, 3, 1 << 300, 1.5, "1.5", None]
        return out
    return [D(1), D("1.5"), D("NaN"), D("sNaN"), 1, 1.0, -1, 255, 256, None]


def payloads_of(t):
    if t[0] in ("fixed", "ufixed"):
        m = t[1]
        ns = (0, 1, -1, (1 << (m - 1)) - 1, -(1 << (m - 1)), 1 << (m - 1), (1 << m) - 1, 1 << m, (1 << m) // 3, 12345678901234567890 % (1 << m), 5, 10**38 % (1 << m))
        return [abi.word(n) for n in ns] + [b"\x00" * 31]
    return [abi.word(n) for n in (0, 1, -1)]


def outcome(fn, *a, **kw):
    try:
        r = fn(*a, **kw)
    except core.ExecTimeout:
        raise
    except Exception as e:
        # the class says what the caller sees; a decimal signal would be one of decimal's classes
        return ("raises", "DecodingError" if isinstance(e, DecodingError) else "EncodingError" if isinstance(e, EncodingError) else type(e).__name__)
    if isinstance(r, tuple):
        return ("value", tuple(exact(x) for x in r))
    return ("value", r)


def exact(x):
    if isinstance(x, D):
        return ("D",) + x.as_tuple()[:1] + norm(x)
    if isinstance(x, tuple):
        return tuple(map(exact, x))
    return x


def norm(x):
    """digits and exponent without trailing zeros: numeric value, independent of contexts"""
    if not x.is_finite():
        return (str(x),)
    _, digits, e = x.as_tuple()
    n = int("".join(map(str, digits)) or "0")
    if n == 0:
        return (0, 0)
    while n % 10 == 0:
        n //= 10
        e += 1
    return (n, e)


WRAP = {
    "top": (lambda s: s, lambda v: v),
    "[]": (lambda s: s + "[]", lambda v: [v]),
    "()": (lambda s: f"(bytes,{s})", lambda v: (b"a", v)),
}


def wrap_data(name, w):
    if name == "top":
        return w
    if name == "[]":
        return abi.word(32) + abi.word(1) + w
    return abi.word(32) + abi.word(64) + w + abi.word(1) + b"a" + bytes(31)


def calls_of(s, t):
    """(label, function, args) for a type."""
    out = []
    wraps = ("top", "[]", "()")
    for i, v in enumerate(values_of(t)):
        ws = wraps if i < 6 else ("top",)
        for w in ws:
            ts, vv = WRAP[w][0](s), WRAP[w][1](v)
            out.append(("encode", "encode", ([ts], [vv])))
            out.append(("is_encodable", "is_encodable", (ts, vv)))
            out.append(("encode_packed", "encode_packed", ([ts], [vv])))
        out.append(("is_encodable_packed", "is_encodable_packed", (s, v)))
    for i, d in enumerate(payloads_of(t)):
        for w in wraps if i < 5 else ("top",):
            out.append(("decode", "decode", ([WRAP[w][0](s)], wrap_data(w, d))))
    return out


FUNCS = {
    "encode": encode, "decode": decode, "is_encodable": is_encodable, "encode_packed": encode_packed, "is_encodable_packed": is_encodable_packed,
}




_base = {}


def expected(s, t):
    """Outcome of every call under the default context, checked against the model once."""
    if s not in _base:
        decimal.setcontext(default())
        calls = calls_of(s, t)
        _base[s] = (calls, [outcome(FUNCS[f], *a) for _, f, a in calls])
        for (label, f, a), got in zip(*_base[s]):
            if label == "decode" and got[0] == "value" and a[0] == [s]:
                want = abi.dec_seq([t], a[1])
                if got[1] != tuple(map(exact, want)):
                    raise Violation(f"decode({a[0]}, {a[1].hex()}) -> {got}, expected {want}")
            if label == "encode" and got[0] == "value" and a[0] == [s] and abi.member(t, a[1][0]) is True:
                if got[1] != abi.enc_seq([t], a[1]):
                    raise Violation(f"encode({a[0]}, {a[1]}) -> {got[1].hex()}")
    return _base[s]


def compare(ch, s, t, kw, funcs=FUNCS, exp=None):
    calls, want = exp or expected(s, t)
    ctx = changed(**kw)
    before = settings(ctx)
    # setcontext() keeps exactly this object: settings are compared on what the thread sees
    decimal.setcontext(ctx)
    try:
        for (label, f, a), w in zip(calls, want):
            got = outcome(funcs[f], *a)
            now = decimal.getcontext()
            if now is not ctx or settings(now) != before:
                decimal.setcontext(default())
                raise Violation(f"{label}({short(a)}) leaves the decimal context changed: {short(ctx)} -> {short(now)}")
            if got != w:
                decimal.setcontext(default())
                raise Violation(
                    f"under {short(ctx, 400)} {label}({short(a)}) -> {got}, but under the default context {w}",
                )
    finally:
        decimal.setcontext(default())
    ch.op(len(calls))
    core.note(f"{len(set(map(str, want)))} outcomes")


def warm(ch, job):
    pairs = job
    s, t = ch.pick(pairs, free=True)
    kw = ch.pick(CONTEXTS, free=True)
    compare(ch, s, t, kw)
    return s, short(kw)


FIRST = [dict(prec=1), dict(prec=5, rounding=decimal.ROUND_UP), dict(prec=28, on=SIGNALS), dict(prec=1, Emax=1, Emin=-1, on=SIGNALS), dict(Emax=5, Emin=-5, clamp=1), dict(prec=3, rounding=decimal.ROUND_FLOOR, off=SIGNALS), dict(prec=1, Emax=0, Emin=0, clamp=1, rounding=decimal.ROUND_CEILING, off=SIGNALS)]


def first(ch, job):
    """The first use of a type (or the import of the library) happens under an odd context,
    in a fresh process; the same calls under that and other contexts are then as usual."""
    s, t = ch.pick(job, free=True)
    kw = ch.pick(FIRST, free=True)
    then = ch.pick((dict(), dict(prec=2)), free=True)
    reload = ch.pick((False, True), free=True)
    exp = core.forked(lambda: expected_quietly(s, t))
    exp = (calls_of(s, t), exp)

    def run():
        funcs = FUNCS
        if reload:
            ctx = changed(**kw)
            before = settings(ctx)
            decimal.setcontext(ctx)
            for name in [m for m in sys.modules if m == "eth_abi" or m.startswith("eth_abi.")]:
                del sys.modules[name]
            new = importlib.import_module("eth_abi")
            pk = importlib.import_module("eth_abi.packed")
            if decimal.getcontext() is not ctx or settings(ctx) != before:
                raise Violation(f"importing eth_abi changes the decimal context {short(kw)}")
            funcs = {
                "encode": new.encode, "decode": new.decode, "is_encodable": new.is_encodable, "encode_packed": pk.encode_packed,
                "is_encodable_packed": pk.is_encodable_packed,
            }
            ex = sys.modules["eth_abi.exceptions"]
            global EncodingError, DecodingError
            EncodingError, DecodingError = ex.EncodingError, ex.DecodingError
        c = core.Chooser()
        compare(c, s, t, kw, funcs, exp)
        compare(c, s, t, then, funcs, exp)
        return c.ops

    ch.op(core.forked(run))
    core.note("first")
    return s, short(kw), reload


def expected_quietly(s, t):
    expected(s, t)
    return _base[s][1]


def jobs(tier):
    out = []
    edge = gen.FIXED_EDGE
    if tier == "quick":
        edge = [t for t in edge if t[1] in (8, 64, 128, 256) and t[2] in (1, 3, 18, 38, 77, 80)]
    ts = [(abi.tstr(t), t) for t in edge] + [("fixed", ("fixed", 128, 18)), ("ufixed", ("ufixed", 128, 18)), ("uint8", ("uint", 8)), ("bool", ("bool",)), ("int256", ("int", 256))]
    out += [("warm", (p,), 0, None) for p in ts]
    fx = [("fixed128x18", ("fixed", 128, 18)), ("ufixed256x80", ("ufixed", 256, 80)), ("fixed8x1", ("fixed", 8, 1)), ("ufixed8x80", ("ufixed", 8, 80)), ("fixed256x77", ("fixed", 256, 77))]
    out += [("first", (p,), 0, None) for p in (fx if tier == "quick" else ts)]
    return out


CHECK = core.Check(
    "C16",
    {"warm": warm, "first": first},
    jobs,
    TRUST + ["status flags of the caller's context are not settings and are not compared"],
    lambda t: f"{len(CONTEXTS)} contexts (16 precisions x 8 rounding modes, exponent limits, clamping, every one and every two traps on "
    "or off) x 48 (thorough 140) fixed types and 5 others x about 40 values and 13 payloads each, through encode, decode, is_encodable "
    "and the packed forms; 7 contexts at first use and at import of the library, in fresh processes",
)
