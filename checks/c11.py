import itertools

from checks.common import *
from eth_abi import grammar

ParseError = X.ParseError


def node_of(t):
    """The parsed object, as the model's syntax tree."""
    if isinstance(t, grammar.TupleType):
        return ("tuple", tuple(node_of(c) for c in t.components), t.arrlist)
    if isinstance(t, grammar.BasicType):
        return ("basic", t.base, t.sub, t.arrlist)
    raise Violation(f"parse result {t!r} is neither a BasicType nor a TupleType")


def describe(s, t, node, depth=0):
    got = node_of(t)
    if got != node or repr(got) != repr(node):
        raise Violation(f"parse({s!r}) gives {got}, the grammar says {node}", f"from eth_abi.grammar import parse; print(vars(parse({s!r})))")
    r = t.to_type_str()
    if r != abi.render(node):
        raise Violation(f"parse({s!r}) renders as {r!r}, expected {abi.render(node)!r}")
    arr = node[-1] is not None
    if t.is_array is not arr:
        raise Violation(f"parse({s!r}): is_array of {r!r} is {t.is_array}")
    try:
        m = abi._from_syntax(node)
    except abi.NotAType:
        m = None
    if m is not None and bool(t.is_dynamic) is not abi.is_dyn(m):
        raise Violation(f"parse({s!r}): is_dynamic of {r!r} is {t.is_dynamic}")
    if arr:
        item = node[:-1] + (node[-1][:-1] or None,)
        describe(s, t.item_type, item, depth + 1)
    else:
        try:
            it = t.item_type
        except ValueError:
            pass
        else:
            raise Violation(f"parse({s!r}): item_type of the non-array {r!r} is {it!r}")
    if node[0] == "tuple" and depth < 3:
        for c, n in zip(t.components, node[1]):
            describe(s, c, n, depth + 1)


def judge(ch, s):
    ch.op()
    try:
        node = abi.syntax(s)
    except abi.NotAType:
        node = None
    try:
        t = grammar.parse(s)
    except (ParseError, ValueError) as e:
        core.note("rejected " + type(e).__name__)
        if node is not None:
            raise Violation(f"parse({s!r}) raised {short(e)}, the grammar accepts it", f"from eth_abi.grammar import parse; print(parse({s!r}))")
        return None
    except core.ExecTimeout:
        raise
    except Exception as e:
        raise Violation(f"parse({s!r}) raised {short(e)}, neither ParseError nor ValueError", f"from eth_abi.grammar import parse; print(parse({s!r}))")
    if node is None:
        raise Violation(f"parse({s!r}) accepted a string outside the grammar: {t!r}", f"from eth_abi.grammar import parse; print(parse({s!r}))")
    core.note("accepted")
    describe(s, t, node)
    if t.to_type_str() != s:
        raise Violation(f"parse({s!r}) renders as {t.to_type_str()!r}")
    if not (grammar.parse(s) == t):
        raise Violation(f"parse({s!r}) is not equal to itself")
    return s


CHARS = "u8[](),x01"


def chars(ch, job):
    """Every string up to a length over the grammar's characters."""
    prefix, n = job
    s = prefix + "".join(ch.pick(CHARS, free=True) for _ in range(n - len(prefix)))
    return judge(ch, s)


TOKENS = ("uint", "8", "[]", "(", ")", ",", "[2]", "x", "256", "bytes", "[", "]", "18", "0", "Q")


def tokens(ch, job):
    prefix, n = job
    s = "".join(prefix) + "".join(ch.pick(TOKENS, free=True) for _ in range(n - len(prefix)))
    return judge(ch, s)


SEEDS = (
    "uint256", "int8", "bool", "address", "bytes", "bytes32", "string", "fixed128x18", "ufixed8x80", "function", "byte",
    "uint", "uint8[]", "uint8[10]", "bytes[][2]", "uint8[][][]", "uint8[1][22][333]", "(uint8)", "(uint8,bytes)", "((uint8))",
    "(uint8,(bool,bytes[]))", "(uint8[2],string)[]", "((a,b)[3],c)[][12]", "(a)[1][]", "Foo", "foo12x34[5][]", "(x1x2,x)", "x",
    "((((a))))", "(a,b,c,d,e,f)", "uint8[4294967296]", "a1[100]",
)
INSERT = list("abzAZx0129[](),") + list(" \t\n\r\0\"'\\/_-+.;:*{}<>|") + ["é", "ß", "１", "٣", "²", "Ａ", "\u200b", "\ufeff", "\ud800", "К", "[]", "[0]", "[-1]", "()", ",,", "[01]", "[1,2]", "x01", "0x1"]


def edits(ch, job):
    """Every string within one (short seeds: two) edits of a valid type string."""
    s, n = job
    for _ in range(n):
        kind = ch.pick(("none", "ins", "del", "rep", "swap", "dup"), free=True)
        if kind == "none":
            break
        if kind == "ins":
            i = ch.index(len(s) + 1, free=True)
            s = s[:i] + ch.pick(INSERT, free=True) + s[i:]
        elif not s:
            break
        else:
            i = ch.index(len(s), free=True)
            if kind == "del":
                s = s[:i] + s[i + 1 :]
            elif kind == "rep":
                s = s[:i] + ch.pick(INSERT, free=True) + s[i + 1 :]
            elif kind == "swap":
                s = s[:i] + s[i : i + 2][::-1] + s[i + 2 :]
            else:
                s = s[:i] + s[i] * 2 + s[i + 1 :]
    return judge(ch, s)


POINTS = ("{}", "a{}", "a{}8", "a8{}", "a[{}]", "a8x{}", "({})", "a{}b")


def points(ch, job):
    """Every Unicode code point of a block at every kind of place in a type string."""
    lo, hi, places = job
    for c in range(lo, hi):
        for p in places:
            judge(ch, p.format(chr(c)))
    return hex(lo)


def valid(ch, job):
    """Every type tree with unusual names, sizes and dimensions, as a string."""
    t = ch.pick(job, free=True)
    return judge(ch, tree_str(ch, t))


NAMES = ("int", "uint8", "fixed8x1", "Zz", "a10x20", "bytes", "string", "bytes32", "x", "aX1", "function", "byte", "hash32", "bool", "address", "string7")
DIMS = ("[]", "[1]", "[10]", "[99999999999999999999]", "[256]")


def tree_str(ch, t):
    if t[0] == "arr":
        return tree_str(ch, t[1]) + ch.pick(DIMS)
    if t[0] == "tup":
        return "(" + ",".join(tree_str(ch, x) for x in t[1]) + ")"
    return ch.pick(NAMES)


def dims(ch, job):
    """Every list of <=6 dimensions on basic types and tuples, and inside a tuple."""
    base, n = job
    s = base + "".join(ch.pick(("[]", "[1]", "[20]"), free=True) for _ in range(n))
    f = ch.pick(("%s", "(%s,b)", "(c,(%s)[])[4]"), free=True)
    return judge(ch, f % s)


def sizes(ch, job):
    """Long names, many digits, many dimensions, many components, deep nesting."""
    kind = job
    n = ch.pick(list(range(1, 41)) + [50, 64, 100, 127, 128, 255, 256, 257, 300], free=True)
    if kind == "name":
        s = "ab" * n
    elif kind == "digits":
        s = "uint" + "1" + "0" * (n - 1)
    elif kind == "digits2":
        s = "fixed" + "9" * n + "x" + "1" * n
    elif kind == "dim":
        s = "a[" + "7" * n + "]"
    elif kind == "dims":
        s = "a" + "".join(f"[{i}]" if i % 3 else "[]" for i in range(n))
    elif kind == "comps":
        s = "(" + ",".join(f"t{chr(97 + i % 26)}"[: 1 + i % 2] for i in range(n)) + ")"
    elif kind == "nest":
        n = min(n, 60)
        s = "(" * n + "a" + ")" * n
    else:
        n = min(n, 60)
        s = "(" * n + "a" + "".join(")[]" if i % 2 else ",b)" for i in range(n))
    m = ch.pick(("", "cut", "extra"), free=True)
    if m == "cut":
        s = s[:-1]
    elif m == "extra":
        s += ")"
    return judge(ch, s)


def huge(ch, job):
    """Sizes at Python's limit for the digits of an int: parsed, or refused as any other string."""
    n = ch.pick((4299, 4300, 4301, 5000), free=True)
    f = ch.pick(("uint%s", "fixed%sx1", "fixed8x%s", "a[%s]", "(a,uint%s)", "(b[%s],c)[]"), free=True)
    s = f % ("1" * n)
    if n <= 4300:
        return judge(ch, s) and n
    ch.op()
    try:
        t = grammar.parse(s)
    except (ParseError, ValueError) as e:
        core.note("huge " + type(e).__name__)
    except core.ExecTimeout:
        raise
    except Exception as e:
        raise Violation(f"parse({f % '<' + str(n) + ' digits>'!r}) raised {short(e)}, neither ParseError nor ValueError")
    else:
        core.note("huge accepted")


def jobs(tier):
    n = {"quick": 6, "thorough": 8}[tier]
    out = [("chars", ("", k), 0, None) for k in range(0, 4)]
    for k in range(4, n + 1):
        for p in itertools.product(CHARS, repeat=2 if k < 8 else 3):
            out.append(("chars", ("".join(p), k), 0, None))
    n = {"quick": 5, "thorough": 6}[tier]
    out += [("tokens", ((), k), 0, None) for k in range(0, 4)]
    for k in range(4, n + 1):
        for p in itertools.product(TOKENS, repeat=2):
            out.append(("tokens", (p, k), 0, None))
    for s in SEEDS:
        out.append(("edits", (s, 1), 0, None))
        if len(s) <= {"quick": 3, "thorough": 12}[tier]:
            out.append(("edits", (s, 2), 0, None))
    ts = gen.all_trees({"quick": 4, "thorough": 5}[tier], (("leaf",),))
    ts = list(dict.fromkeys(_shape(t) for t in ts))
    out += [("valid", (t,), 2, None) for t in ts]
    out += [("sizes", k, 0, None) for k in ("name", "digits", "digits2", "dim", "dims", "comps", "nest", "nest2")]
    # the planes with assigned letters and digits; the rest of the code space in the two plainest places
    for lo in range(0, 0x110000, 0x200):
        full = tier != "quick" or lo < 0x3000 or 0xA000 <= lo < 0xAC00 or 0xF800 <= lo < 0x12000 or 0x1D000 <= lo < 0x20000
        if full or lo < 0x20000 or 0xE0000 <= lo < 0xE0200:
            out.append(("points", (lo, lo + 0x200, POINTS if full else POINTS[:3]), 0, None))
    out.append(("huge", None, 0, None))
    for n in range(0, {"quick": 7, "thorough": 9}[tier]):
        out += [("dims", (b, n), 0, None) for b in ("a", "uint8", "fixed8x1", "string", "(a)", "(uint8,bytes)", "((a)[3],b[])")]
    return out


def _shape(t):
    if t[0] == "arr":
        return ("arr", _shape(t[1]), None)
    if t[0] == "tup":
        return ("tup", tuple(_shape(x) for x in t[1]))
    return t


CHECK = core.Check(
    "C11",
    {"chars": chars, "tokens": tokens, "edits": edits, "valid": valid, "sizes": sizes, "huge": huge, "dims": dims, "points": points},
    jobs,
    TRUST,
    lambda t: {
        "quick": "every string of <=6 characters over 10 characters, every string of <=5 of 15 tokens, every string within 1 edit "
        "(49 inserted fragments) of 32 valid types, 2 edits for the short ones, every type shape of <=4 nodes x 16 names x 5 "
        "dimensions within 2 deviations; every list of <=6 dimensions out of 3 on 7 bases in 3 contexts; names/digits/dimensions/components to 300, nesting to 60; sizes of 4299..5000 digits; "
        "every code point below U+20000 in 3 to 8 places of a type string",
        "thorough": "as quick with <=8 characters, <=6 tokens, 2 edits for seeds of <=12 characters, shapes of <=5 nodes, <=8 dimensions, every code point in 8 places",
    }[t],
)
