from checks.common import *
from mc import vals

PAIRS = (("standard", encode, is_encodable, "encode"), ("packed", encode_packed, is_encodable_packed, "packed.encode_packed"))


def judge(ch, s, mk, supported=True, what=""):
    """mk() builds a fresh value."""
    for mode, enc, isenc, fn in PAIRS:
        ch.op(3)
        v = mk()
        try:
            ok = isenc(s, v)
        except core.ExecTimeout:
            raise
        except Exception as e:
            raise Violation(f"{mode}: is_encodable({s!r}, {short(mk())}) raised {short(e)} {what}")
        if ok is not True and ok is not False:
            raise Violation(f"{mode}: is_encodable({s!r}, {short(mk())}) returned {short(ok)} {what}")
        v = mk()
        try:
            out = enc([s], [v])
            done = True
        except core.ExecTimeout:
            raise
        except Exception as e:
            done = False
            out = e
        if done != ok:
            raise Violation(
                f"{mode}: is_encodable({s!r}, {short(mk())}) is {ok} but encode "
                f"{'succeeds' if done else 'raises ' + short(out)} {what}"
            )
        if not done and supported and not isinstance(out, EncodingError):
            raise Violation(f"{mode}: encode([{s!r}], [{short(mk())}]) raised {short(out)}, not EncodingError {what}")
        if done and not isinstance(out, bytes):
            raise Violation(f"{mode}: encode([{s!r}], [{short(mk())}]) returned {short(out)} {what}")
        # asking again must give the same answer
        if isenc(s, mk()) is not ok:
            raise Violation(f"{mode}: is_encodable({s!r}, {short(mk())}) changed its answer {what}")
        core.note(mode + (" yes" if ok else " no"))
    return s, ok


# contexts: (type string of s, wrapper of a leaf value)
WRAP = {
    "top": ("%s", lambda v, d: v),
    "dyn": ("%s[]", lambda v, d: [d, v]),
    "sized": ("%s[2]", lambda v, d: [v, d]),
    "tup": ("(bool,%s)", lambda v, d: (True, v)),
    "tup2": ("(%s,bytes)", lambda v, d: (v, b"x")),
    "deep": ("(%s[1],string)[]", lambda v, d: [([d], "s"), ([v], "t")]),
    "nest": ("((%s)[2][],uint8)", lambda v, d: ([[(d,), (v,)]], 4)),
}


def wilds(ch, job):
    """Every Python object of the catalogue offered to every basic type in every context."""
    pairs, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    i = ch.index(vals.NWILD, free=True)
    fmt, wrap = WRAP[c]
    return repr(judge(ch, fmt % s, lambda: wrap(vals.get(i), gen.default(t, 2))))


_dom = {}


def edges(ch, job):
    pairs, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    if t not in _dom:
        _dom.clear()
        _dom[t] = vals.outside(t)
    v = ch.pick(_dom[t], free=True)
    fmt, wrap = WRAP[c]
    return repr(judge(ch, fmt % s, lambda: wrap(v, gen.default(t, 2))))


COMPOUND = (
    "uint8[]", "uint8[2]", "bytes[]", "bytes[2]", "(uint8,uint8)", "(uint8,bytes)", "(bytes,uint8)",
    "uint8[][]", "uint8[2][2]", "uint8[][2]", "(uint8,bytes)[]", "(uint8,bytes)[2]", "string[]", "bool[2]",
    "(uint8[],uint8[])", "((uint8,uint8),uint8)", "fixed8x1[]", "address[]", "bytes2[2]", "(uint8)",
)


def shapes(ch, job):
    """Arbitrary objects, and sequences of <=2 arbitrary objects, offered to compound types."""
    s = ch.pick(job, free=True)
    shape = ch.pick((0, 1, 2), free=True)
    if shape == 0:
        i = ch.index(vals.NWILD, free=True)
        return repr(judge(ch, s, lambda: vals.get(i)))
    f = ch.pick((list, tuple), free=True)
    i = ch.index(vals.NWILD, free=True)
    if shape == 1:
        return repr(judge(ch, s, lambda: f([vals.get(i)])))
    core_vals = (3, 4, 10, 34, 52, 77, 92, 118, 141)
    j = ch.pick([x for x in core_vals if x < vals.NWILD], free=True)
    return repr(judge(ch, s, lambda: f([vals.get(i), vals.get(j)])))


def treevals(ch, job):
    """Every type tree with well-typed values and up to one wrong member."""
    t = ch.pick(job, free=True)
    b = Wrong(ch)
    b.value(t)
    choices = list(ch.choices)
    return repr(judge(ch, abi.tstr(t), lambda: Wrong(core.Chooser(tuple(choices)), skip=1).value(t)))


WRONG = (None, 1 << 300, "\ud800", [], (1, 2, 3, 4, 5), b"toolong", True)


class Wrong(gen.Build):
    def __init__(self, ch, skip=0):
        super().__init__(ch, lens=(2, 0, 3))
        if skip:
            ch.pick(range(100000))

    def value(self, t, depth=0):
        w = self.ch.index(len(WRONG) + 1)
        if w:
            return WRONG[w - 1]
        return super().value(t, depth)


LONG = {
    "uint8": (7, (256, -1, None, "7")),
    "int256": (-7, (1 << 255, 1.0)),
    "bool": (True, (1, None)),
    "address": ("0x" + "1a" * 20, ("0x", b"", 5)),
    "bytes3": (b"abc", (b"abcd", "abc")),
    "bytes": (b"ab", ("ab", None)),
    "string": ("ab", (b"ab", "\ud800")),
    "fixed128x18": (gen.D("1.5"), (1.5, gen.D("1E-19"), gen.D("NaN"))),
    "uint8[]": ([1, 2], ([1, 256], None, 1)),
    "uint8[2]": ([1, 2], ([1], [1, 2, 3])),
    "(uint8,bytes)": ((1, b"x"), ((1, "x"), (1,), None)),
    "(bool,int8)": ((True, -1), ((True, 200), [True])),
}
LONGN = (0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 256, 257, 1000, 1025)


def positions(n):
    return [i for i in sorted({0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 99, 127, 128, 255, 256, n // 3, n // 2, n - 33, n - 2, n - 1}) if 0 <= i < n]


def long_make(ch, job):
    """A long list of one type in which no or one item is bad."""
    s, ns = job
    good, bads = LONG[s]
    n = ch.pick(ns, free=True)
    i = ch.pick([None] + positions(n), free=True)
    v = [good] * n
    if i is not None:
        v[i] = ch.pick(bads, free=True)
    forms = ["%s[]", "%s[][]"] + (["%s[N]"] if n else []) + (["tuple"] if 0 < n <= 129 else [])
    f = ch.pick(forms, free=True)
    if f == "tuple":
        return "(" + ",".join([s] * n) + ")", tuple(v)
    if f == "%s[][]":
        return f % s, [[], v, [good]]
    return f.replace("N", str(n)) % s, v


def long(ch, job):
    s, v = long_make(ch, job)
    return short(judge(ch, s, lambda: v), 200)


def long_jobs(tier):
    out = []
    for s in LONG:
        ns = LONGN if tier == "quick" else tuple(range(0, 131)) + LONGN[-4:] + (5000,)
        for i in range(0, len(ns), 4):
            out.append(("long", (s, ns[i : i + 4]), 0, None))
    return out


UNSUPPORTED = (
    "uint7", "uint264", "uint0", "int", "hash", "hash32", "foo", "foo8", "", "(", "()", "uint8[", "uint8[0]", "bytes0",
    "bytes33", "bool8", "address20", "string5", "fixed8x0", "fixed8x81", "fixed7x1", "ufixed256", "uint8x8", "bytes1x1",
    "uint8 ", " uint8", "uint8,uint8", "(uint8,)", "(foo)", "foo[]", "(uint8,foo)[2]", "function24", "byte1", "byte",
)


def types_(ch, job):
    s = ch.pick(job, free=True)
    i = ch.index(vals.NWILD, free=True)
    sup = True
    try:
        abi.ptype(s)
    except abi.NotAType:
        sup = False
    return repr(judge(ch, s, lambda: vals.get(i), supported=sup))


def jobs(tier):
    out = []
    b = gen.basics()
    if tier == "thorough":
        b = gen.basics(gen.FIXEDS)
    kinds = [x for x in b if x[1][0] not in ("uint", "int", "bytesM", "fixed", "ufixed") or x[1][1] in (8, 16, 32, 24, 128, 256, 1, 2, 20)]
    for i in range(0, len(kinds), 2):
        out.append(("wilds", (tuple(kinds[i : i + 2]), tuple(WRAP)), 0, None))
    for i in range(0, len(b), 8):
        out.append(("wilds", (tuple(b[i : i + 8]), ("top",)), 0, None))
        out.append(("edges", (tuple(b[i : i + 8]), ("top",) if tier == "quick" else tuple(WRAP)), 0, None))
    for s in COMPOUND:
        out.append(("shapes", (s,), 0, None))
    ts = gen.all_trees({"quick": 4, "thorough": 5}[tier])
    for i in range(0, len(ts), 24):
        out.append(("treevals", tuple(ts[i : i + 24]), 1, None))
    out += [("types", (s,), 0, None) for s in UNSUPPORTED]
    out += long_jobs(tier)
    return out


CHECK = core.Check(
    "C06",
    {"wilds": wilds, "edges": edges, "shapes": shapes, "treevals": treevals, "types": types_, "long": long},
    jobs,
    TRUST + ["values whose own methods (other than repr) misbehave are out of scope"],
    lambda t: f"{vals.NWILD} Python objects of every sort x every basic type (140 of the fixed types) and alias, in 7 contexts "
    "for the representative ones; limits +-2 of every basic type; compound types x objects and sequences of <=2 objects; every "
    "type tree of <=4 (thorough 5) nodes with <=1 wrong or boundary member; 34 unsupported type strings; lists of 19 lengths to 1025 (thorough: all to 130, and 5000) of 12 "
    "item types with <=1 bad item at up to 20 positions; standard and packed",
)
