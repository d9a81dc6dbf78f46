import itertools
import re

from checks.common import *
from checks.c11 import SEEDS, TOKENS
from eth_abi import grammar

ABITypeError = X.ABITypeError


def valid(base, sub):
    """Is the size of a known base one that the specification has?  (Unknown bases are not judged.)"""
    if base in ("string", "address", "bool"):
        return sub is None
    if base == "bytes":
        return sub is None or isinstance(sub, int) and sub <= 32
    if base in ("int", "uint"):
        return isinstance(sub, int) and sub in range(8, 257, 8)
    if base in ("fixed", "ufixed"):
        return isinstance(sub, tuple) and sub[0] in range(8, 257, 8) and 1 <= sub[1] <= 80
    if base == "hash":
        return isinstance(sub, int)
    return True


def spans(s):
    """(base, sub, text, column) of every basic type in s, left to right."""
    for m in re.finditer(r"([A-Za-z]+)([1-9][0-9]*)?(?:x([1-9][0-9]*))?((?:\[[0-9]*\])*)", s):
        b, a, c, _ = m.groups()
        sub = None if a is None else int(a) if c is None else (int(a), int(c))
        yield b, sub, m[0], m.start() + 1


def judge(ch, s):
    """validate() of the parsed string, of its members and of its items."""
    try:
        node = abi.syntax(s)
    except abi.NotAType:
        core.note("no type")
        return s
    t = grammar.parse(s)
    bad = [(text, col) for b, sub, text, col in spans(s) if not valid(b, sub)]
    ch.op()
    verdict(s, t, bad, s)
    part(ch, s, t, node)
    core.note("invalid" if bad else "valid")
    canonical(ch, s, node)
    return s


def part(ch, s, t, node):
    """The members and items, and theirs, know their own validity."""
    if node[-1] is not None:
        own(ch, s, t.item_type, (*node[:-1], node[-1][:-1] or None), "item type")
    if node[0] == "tuple":
        for c, n in zip(t.components, node[1]):
            own(ch, s, c, n, "member")


def own(ch, s, t, node, what):
    ch.op()
    got = attempt(t.validate)
    if got != ("value", None) if fine(node) else got[0] != "raise" or not isinstance(got[1], ABITypeError):
        raise Violation(f"parse({s!r}): validate() of the {what} {t.to_type_str()!r} gives {got}")
    part(ch, s, t, node)


def fine(node):
    return all(map(fine, node[1])) if node[0] == "tuple" else valid(node[1], node[2])


def attempt(f):
    try:
        return ("value", f())
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raise", e)


def verdict(s, t, bad, full):
    got = attempt(t.validate)
    rep = f"from eth_abi.grammar import parse; print(parse({s!r}).validate())"
    if not bad:
        if got != ("value", None):
            raise Violation(f"parse({s!r}).validate() -> {got}, all its types are valid", rep)
        return
    if got[0] != "raise" or not isinstance(got[1], ABITypeError):
        raise Violation(f"parse({s!r}).validate() -> {got}, {bad} are no valid types", rep)
    msg = str(got[1])
    if not any(f"'{text}'" in msg and re.search(rf"\bcolumn {col}\b", msg) for text, col in bad) or f"'{full}'" not in msg:
        raise Violation(f"parse({s!r}).validate() -> {msg!r}, which names none of {bad} in {full!r}", rep)


def canonical(ch, s, node):
    """normalize() replaces every alias and nothing else, once and for all."""
    want = abi.render(_canon(node))
    ch.op(2)
    got = attempt(lambda: grammar.normalize(s))
    if got != ("value", want):
        raise Violation(f"normalize({s!r}) -> {got}, expected {want!r}")
    if grammar.normalize(want) != want:
        raise Violation(f"normalize({want!r}) -> {grammar.normalize(want)!r}: not stable")


CANON = {"int": ("int", 256), "uint": ("uint", 256), "fixed": ("fixed", (128, 18)), "ufixed": ("ufixed", (128, 18)), "function": ("bytes", 24), "byte": ("bytes", 1)}


def _canon(n):
    if n[0] == "tuple":
        return ("tuple", tuple(map(_canon, n[1])), n[2])
    if n[2] is None and n[1] in CANON:
        return ("basic", *CANON[n[1]], n[3])
    return n


# ------------------------------------------------------------------ every size of every base, in context
BASES = ("uint", "int", "bytes", "string", "address", "bool", "fixed", "ufixed", "hash", "function", "byte", "foo", "Uint", "uints", "b")
CONTEXTS = ("{}", "{}[]", "{}[3][]", "({})", "(bool,{})", "({},bool)[2]", "((bool,{}),bytes)", "(uint8[],{}[4],(string,bool[]))", "(uint9,{})", "({},bytes33)")


def sizes(ch, job):
    base, lo, hi = job
    for n in range(lo, hi):
        for c in CONTEXTS:
            judge(ch, c.format(base + (str(n) if n else "")))
    return base, lo


def pairs(ch, job):
    base, m = job
    for n in (*range(1, 90), 99, 100, 256, 1000):
        for c in CONTEXTS[:6] if m % 8 == 0 else CONTEXTS[:2]:
            judge(ch, c.format(f"{base}{m}x{n}"))
    return base, m


PARTS = ("uint", "8", "9", "[]", "(", ")", ",", "[2]", "x1", "bytes", "33", "fixed", "byte", "foo")


def tokens(ch, job):
    first, n = job
    return judge(ch, "".join(first) + "".join(ch.pick(PARTS, free=True) for _ in range(n - len(first))))


def members(ch, job):
    """Tuples in which any of the members are invalid."""
    n, first = job
    ms = [first] + [ch.pick(("bool", "uint9", "bytes33[]", "(string8)", "fixed8x81", "foo7", "int", "uint16[2]"), free=True) for _ in range(n - 1)]
    tail = ch.pick(("", "[]", "[1][2]"), free=True)
    return judge(ch, "(" + ",".join(ms) + ")" + tail)


def wide(ch, job):
    """One invalid member at every place of a wide or deep type."""
    kind, n, bad = job
    for i in range(n):
        if kind == "wide":
            s = "(" + ",".join(bad if k == i else "uint8" for k in range(n)) + ")"
        else:
            s = bad
            for k in range(n):
                s = f"(bool,{s})[2]" if k == i else f"({s})"
        judge(ch, s)
    return kind, n, bad


WRAPS = ("({})", "(bool,{})", "({},string)", "{}[]", "{}[2]")


def wraps(ch, job):
    """Every way of putting a type inside others."""
    s, n, last = job
    for _ in range(n):
        s = ch.pick(WRAPS, free=True).format(s)
    return judge(ch, last.format(s))


# ------------------------------------------------------------------ equality
def equality(ch, job):
    """Parsed types are equal exactly when they were written alike."""
    a = EQ[job]
    x = grammar.parse(a)
    for b in EQ:
        ch.op(2)
        y = grammar.parse(b)
        if (x == y) is not (a == b) or (x != y) is (a == b):
            raise Violation(f"parse({a!r}) == parse({b!r}) is {x == y}")
    for other in (None, a, 5, object(), node_tuple(x)):
        if x == other:
            raise Violation(f"parse({a!r}) == {other!r}")
    if node_tuple(x) != node_tuple(grammar.parse(a)):
        raise Violation(f"parse({a!r}) changed")
    core.note("equality")
    return a


def node_tuple(t):
    return (type(t).__name__, t.to_type_str(), t.arrlist)


EQ = sorted(
    {c.format(b) for b in ("uint", "uint8", "uint256", "int8", "fixed", "fixed128x18", "bytes", "bytes1", "byte", "foo", "Foo") for c in CONTEXTS[:8]}
    | set(SEEDS)
    | {"(uint8,uint8)", "((uint8),uint8)", "(uint8,(uint8))", "((uint8,uint8))", "(uint8)[]", "(uint8[])", "uint8[1][2]", "uint8[2][1]", "uint8[12]", "uint8[1]"}
)


def built(ch, job):
    """Types put together by hand are equal to the parsed ones and know as much."""
    s = EQ[job]
    t = grammar.parse(s)
    u = build(abi.syntax(s))
    ch.op(4)
    if not (u == t and t == u) or u.to_type_str() != s or u.is_array is not t.is_array or bool(u.is_dynamic) is not bool(t.is_dynamic):
        raise Violation(f"{s!r} built by hand: equal {u == t}, {u.to_type_str()!r}, is_array {u.is_array}, is_dynamic {u.is_dynamic}")
    if t.is_array and u.item_type != t.item_type:
        raise Violation(f"{s!r} built by hand: item type {u.item_type!r}")
    core.note("built")
    return s


def build(n):
    if n[0] == "tuple":
        return grammar.TupleType(tuple(map(build, n[1])), n[2])
    return grammar.BasicType(n[1], n[2], n[3])


def jobs(tier):
    out = []
    for b in BASES:
        top = 300 if tier == "quick" else 1100
        out += [("sizes", (b, lo, min(lo + 20, top)), 0, None) for lo in range(0, top, 20)]
    for b in ("fixed", "ufixed", "uint", "bytes", "string", "foo"):
        for m in range(1, 273):
            if tier == "thorough" or b.endswith("fixed") and m % 8 in (0, 1, 7) or m in (1, 8, 9, 32, 128, 256, 264):
                out.append(("pairs", (b, m), 0, None))
    n = {"quick": 5, "thorough": 6}[tier]
    out += [("tokens", ((), k), 0, None) for k in range(1, 3)]
    out += [("tokens", ((a,), k), 0, None) for k in range(3, n + 1) for a in PARTS]
    out += [("members", (k, f), 0, None) for k in range(1, 5 if tier == "quick" else 6) for f in ("bool", "uint9", "bytes33[]", "(string8)", "int")]
    for k in (5, 16, 17, 33, 65) if tier == "quick" else (5, 9, 16, 17, 33, 65, 129):
        out += [("wide", ("wide", k, b), 0, None) for b in ("uint9", "bytes33[2]", "(bool,int7)")]
    for k in (2, 5, 9, 15):
        out += [("wide", ("deep", k, b), 0, None) for b in ("uint9", "bytes33[2]", "uint8")]
    for b in ("uint9", "bytes33", "string8", "uint8") if tier == "quick" else ("uint9", "bytes33", "string8", "uint8", "fixed8x81", "int"):
        out += [("wraps", (b, k, w), 0, None) for k in range(5 if tier == "quick" else 6) for w in WRAPS]
    out += [("equality", i, 0, None) for i in range(len(EQ))]
    out += [("built", i, 0, None) for i in range(len(EQ))]
    return out


CHECK = core.Check(
    "C27",
    {"sizes": sizes, "pairs": pairs, "tokens": tokens, "members": members, "wide": wide, "wraps": wraps, "equality": equality, "built": built},
    jobs,
    TRUST,
    lambda t: f"{len(BASES)} bases x sizes none, 1..299 (thorough 1099) x 10 contexts; fixed-like MxN for 6 bases, M to 272, N to 89 and 4 larger; every string "
    f"of <=5 (6) of 14 tokens that parses; tuples of <=4 (5) members out of 8 kinds; one invalid member at every place of tuples of 5..65 (129) members and nestings to "
    f"15; every sequence of <=5 (6) of {len(WRAPS)} ways of nesting around valid and invalid types; equality of every pair of {len(EQ)} types, parsed and built by hand",
)
