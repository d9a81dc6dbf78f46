from checks.common import *
from mc import vals
from checks.c06 import WRAP, COMPOUND, long_jobs, long_make

NEG = "C07-negative-excess-digits"
TINY = "C07-underflow"


def known_wrong(t, v, out):
    """The committed known findings: exactly this wrong output for exactly this input class."""
    if t[0] not in ("fixed", "ufixed") or not isinstance(v, abi.decimal.Decimal) or not v.is_finite():
        return None
    if v.as_tuple().exponent < -1000997 and abs(v) < abi.decimal.Decimal("1E-1000000") and v > 0:
        return TINY if out == bytes(32) else None
    if t[0] == "fixed" and v < 0:
        # scaled to 999 digits, then truncated toward zero
        n = int(CTX.multiply(v, abi.decimal.Decimal(10) ** t[2]))
        if n < -(1 << (t[1] - 1)):
            return None
        want = b"\xff" * 31 + b"\x00" if n == 0 else abi.word(n)
        return NEG if out == want else None
    return None


CTX = abi.decimal.Context(prec=999)


def judge(ch, s, t, v, finding=None):
    ok = abi.member(t, v)
    ch.op()
    try:
        out = encode([s], [v])
        done = True
    except core.ExecTimeout:
        raise
    except Exception as e:
        out = e
        done = False
    if not done:
        core.note("rejected")
        if ok is True:
            raise Violation(f"encode([{s!r}], [{short(v)}]) raised {short(out)} for a value of the type", py("encode", [s], [v]))
        if not isinstance(out, EncodingError):
            raise Violation(f"encode([{s!r}], [{short(v)}]) raised {short(out)}, not EncodingError", py("encode", [s], [v]))
        return s, short(v, 80), "rejected"
    if ok is False:
        key = finding(out) if finding else None
        if key and core.is_known(key):
            core.note("known finding")
            core.known(key, f"{s} {short(v, 60)}")
            return s, short(v, 80), "known finding"
        raise Violation(f"encode([{s!r}], [{short(v)}]) accepted a value outside the type: {short(out.hex(), 600)}", py("encode", [s], [v]))
    if ok is None:
        core.note("unspecified")
        return s, short(v, 80), "unspecified"
    core.note("accepted")
    want = abi.enc_seq([t], [v])
    if out != want:
        raise Violation(
            f"encode([{s!r}], [{short(v)}]) changed the value: {short(out.hex(), 600)}, expected {short(want.hex(), 600)}",
            py("encode", [s], [v]),
        )
    return s, short(v, 80), "accepted"


def edges(ch, job):
    """Values at and around every limit of every basic type."""
    s, t = ch.pick(job, free=True)
    v = ch.pick(_edges(t), free=True)
    return judge(ch, s, t, v, lambda out: known_wrong(t, v, out))


_cache = {}


def _edges(t):
    if t not in _cache:
        _cache.clear()
        _cache[t] = vals.outside(t) + gen.specials(t)
    return _cache[t]


def nested(ch, job):
    """The same limits for a member of a compound value."""
    pairs, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    v = ch.pick(_edges(t), free=True)
    fmt, wrap = WRAP[c]
    full = fmt % s
    d = gen.default(t, 2)
    if t[0] == "fixed" and isinstance(v, abi.decimal.Decimal) and v.is_finite() and v < 0 and abi.member(t, v) is False:
        return None  # the known finding at top level; judged there
    if t[0] in ("fixed", "ufixed") and isinstance(v, abi.decimal.Decimal) and v.is_finite() and v.as_tuple().exponent < -1000000:
        return None
    return judge(ch, full, abi.ptype(full), wrap(v, d))


def wilds(ch, job):
    pairs, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    v = vals.get(ch.index(vals.NWILD, free=True))
    fmt, wrap = WRAP[c]
    full = fmt % s
    fin = (lambda out: known_wrong(t, v, out)) if c == "top" else None
    return judge(ch, full, abi.ptype(full), wrap(v, gen.default(t, 2)), fin)


def shapes(ch, job):
    """Sequences of every length for arrays, and of every arity for tuples."""
    kind, n = job
    m = ch.pick(range(0, n + 5), free=True)
    f = ch.pick((list, tuple, gen.Seq), free=True)
    which = ch.pick((0, 1, 2), free=True)
    item = [("uint", 8), ("bytes",), ("tup", (("bool",), ("string",)))][which]
    b = gen.Build(ch, vary=False)
    v = f([b.value(item) for _ in range(m)])
    t = ("arr", item, n) if kind == "sized" else ("tup", (item,) * n)
    c = ch.pick((0, 1, 2), free=True)
    if c == 1:
        t, v = ("arr", t, None), [v]
    elif c == 2:
        t, v = ("tup", (("bytes",), t)), (b"q", v)
    return judge(ch, abi.tstr(t), t, v)


def treevals(ch, job):
    """Every type tree; <=1 member has a wrong length or arity or is outside its type."""
    t = ch.pick(job, free=True)
    v = Off(ch).value(t)
    return judge(ch, abi.tstr(t), t, v)


class Off(gen.Build):
    def __init__(self, ch):
        super().__init__(ch, lens=(2, 0, 3))

    def value(self, t, depth=0):
        k = t[0]
        if k == "arr":
            n = t[2]
            if n is not None:
                n = self.ch.pick((n, n - 1, n + 1, 0))
            else:
                n = self.ch.pick(self.lens)
            return [self.value(t[1], depth + 1) for _ in range(n)]
        if k == "tup":
            out = tuple(self.value(x, depth) for x in t[1])
            d = self.ch.pick((0, 1, 2))
            return out if not d else out[:-1] if d == 1 else out + (1,)
        self.n += 1
        return self.ch.pick([gen.default(t, self.n)] + gen.specials(t) + OFF[k])


OFF = {
    "int": [1 << 15, -(1 << 15) - 1, 1.0, "1", None, True, 1 << 256],
    "bytesM": [b"aaaa", b"a" * 32, b"a" * 33, "aaa", 5, [1, 2, 3], b"abc\x00"],
    "bytes": ["a", None, 5, [1], memoryview(b"a")],
    "string": [b"a", None, 5, ["a"], "\ud800"],
}


def long(ch, job):
    s, v = long_make(ch, job)
    return judge(ch, s, abi.ptype(s), v)


def jobs(tier):
    out = []
    b = gen.basics(gen.FIXEDS)
    for i in range(0, len(b), 4):
        out.append(("edges", tuple(b[i : i + 4]), 0, None))
    if tier == "quick":
        b = gen.basics()
    some = [(abi.tstr(t), t) for t in [("uint", 8), ("int", 24), ("uint", 256), ("int", 256), ("bytesM", 5), ("bytesM", 32), ("address",), ("bool",), ("string",), ("bytes",), ("fixed", 8, 1), ("ufixed", 128, 18), ("fixed", 256, 80)]] + gen.ALIASES
    for p in some:
        for c in list(WRAP)[1:]:
            out.append(("nested", ((p,), (c,)), 0, None))
        out.append(("wilds", ((p,), tuple(WRAP)), 0, None))
    for i in range(0, len(b), 12):
        out.append(("wilds", (tuple(b[i : i + 12]), ("top",)), 0, None))
    top = {"quick": 34, "thorough": 140}[tier]
    for n in range(1, top):
        out += [("shapes", ("sized", n), 0, None), ("shapes", ("tuple", n), 0, None)]
    ts = gen.all_trees({"quick": 4, "thorough": 5}[tier])
    for i in range(0, len(ts), 24):
        out.append(("treevals", tuple(ts[i : i + 24]), 1, None))
    return out + long_jobs(tier)


CHECK = core.Check(
    "C07",
    {"edges": edges, "nested": nested, "wilds": wilds, "shapes": shapes, "treevals": treevals, "long": long},
    jobs,
    TRUST + ["whether a bool is a fixed-point value is left open (the documentation does not say)"],
    lambda t: "limits +-2 and excess digits (1..2500 places, exponents to -2000000 and 10^9) of every basic type and alias "
    "incl. all 5120 fixed types; members in 6 compound contexts; "
    f"{vals.NWILD} Python objects of every sort x every basic type; every array length / tuple arity n in 1..33 (thorough 139) "
    "with 0..n+4 members in 3 positions; every type tree of <=4 (thorough 5) nodes with <=1 faulty member; lists of 19 lengths to 1025 "
    "(thorough: all to 130, and 5000) of 12 item types with <=1 bad item at up to 20 positions; "
    "accepted values are compared with the specified encoding",
)
