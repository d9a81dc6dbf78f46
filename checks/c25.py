from checks.common import *
from checks.c11 import SEEDS, TOKENS, CHARS, INSERT
from eth_abi import registry as reg
from eth_abi.registry import BaseEquals, Equals, has_arrlist, is_base_tuple

BASES = ("uint", "int", "bytes", "byte", "u", "x", "a", "foo", "string", "tuple", "", "uint8", "fixed", "Foo")


def facts(s):
    """(base, sub given?) of a basic type without dimensions, is it an array, is it a tuple."""
    try:
        n = abi.syntax(s)
    except abi.NotAType:
        return None, False, False
    arr = n[-1] is not None
    if n[0] == "tuple":
        return None, arr, not arr
    return (None if arr else (n[1], n[2] is not None)), arr, False


def call(p, s):
    try:
        return p(s)
    except core.ExecTimeout:
        raise
    except Exception as e:
        return e


PREDS = [(BaseEquals(b, with_sub=w) if w is not None else BaseEquals(b), b, w) for b in BASES for w in (None, True, False)]


def judge(ch, s):
    basic, arr, tup = facts(s)
    ch.op(len(PREDS) + 3)
    for p, b, w in PREDS:
        want = basic is not None and basic[0] == b and (w is None or basic[1] is w)
        got = call(p, s)
        if got is not want:
            raise Violation(f"BaseEquals({b!r}, with_sub={w})({s!r}) -> {short(got)}, expected {want}")
    for f, want in ((has_arrlist, arr), (is_base_tuple, tup)):
        got = call(f, s)
        if got is not want:
            raise Violation(f"{f.__name__}({s!r}) -> {short(got)}, expected {want}")
    for v in (s, s + "x", s[:-1], s.upper(), "(" + s + ")"):
        if call(Equals(v), s) is not (v == s):
            raise Violation(f"Equals({v!r})({s!r}) is wrong")
    core.note("basic" if basic else "array" if arr else "tuple" if tup else "no type")
    return s


def chars(ch, job):
    prefix, n = job
    return judge(ch, prefix + "".join(ch.pick(CHARS, free=True) for _ in range(n - len(prefix))))


def tokens(ch, job):
    prefix, n = job
    return judge(ch, "".join(prefix) + "".join(ch.pick(TOKENS, free=True) for _ in range(n - len(prefix))))


def edits(ch, job):
    s = job
    kind = ch.pick(("none", "ins", "del"), free=True)
    if kind == "ins":
        i = ch.index(len(s) + 1, free=True)
        s = s[:i] + ch.pick(INSERT, free=True) + s[i:]
    elif kind == "del":
        i = ch.index(len(s), free=True)
        s = s[:i] + s[i + 1 :]
    return judge(ch, s)


# ------------------------------------------------------------------ every pair of names and strings
WORDCH = "aAbs1[] "


def words(n):
    import itertools

    return ["".join(p) for k in range(n + 1) for p in itertools.product(WORDCH, repeat=k)]


def variants(s):
    import unicodedata

    out = {s, s.upper(), s.lower(), s.title(), s.swapcase(), s.strip(), s + " ", " " + s, s + "\n", "\t" + s, s + "\0", s + "[]", s + "[1]", "(" + s + ")", s + "," + s, s * 2, s[::-1], s[1:], s[:-1]}
    out |= {s + "8", s + "256", s + "8x1", s.rstrip("0123456789"), unicodedata.normalize("NFKC", s), s.replace("a", "ａ"), s.replace("s", "ſ"), abi_alias(s)}
    return sorted(out)


def abi_alias(s):
    return {"uint": "uint256", "uint256": "uint", "int": "int256", "int256": "int", "byte": "bytes1", "bytes1": "byte", "function": "bytes24", "bytes24": "function", "fixed": "fixed128x18", "fixed128x18": "fixed"}.get(s, s)


def matching(ch, job):
    """Equals(v) and BaseEquals(v) against every string of a set, in both directions."""
    kind, x = job
    if kind == "words":
        vs, ss = [x], words(3)
    else:
        vs = ss = variants(x)
    for v in vs:
        for s in ss:
            ch.op()
            if call(Equals(v), s) is not (v == s):
                raise Violation(f"Equals({v!r})({s!r}) -> {short(call(Equals(v), s))}")
    for v in vs if kind != "words" else vs if x.isalpha() and len(x) < 3 else ():
        for s in ss:
            basic, _, _ = facts(s)
            for w in (None, True, False):
                ch.op()
                want = basic is not None and basic[0] == v and (w is None or basic[1] is w)
                got = call(BaseEquals(v, with_sub=w), s)
                if got is not want:
                    raise Violation(f"BaseEquals({v!r}, with_sub={w})({s!r}) -> {short(got)}, expected {want}")
    core.note("matching")
    return kind, x


# ------------------------------------------------------------------ equality of lookups
class Sub(BaseEquals):
    __slots__ = ()


ALL = [("Equals", v) for v in ("uint", "int", "uint8", "", "foo", "UINT", "uint ", "uint256", "(uint)", "uint[]")] + [("BaseEquals", b, w) for b in ("UINT", "uint8") for w in (None, False)] + [("BaseEquals", b, w) for b in ("uint", "int", "foo") for w in (None, True, False)] + [("Sub", "uint", None)]


def mk(d):
    if d[0] == "Equals":
        return Equals(d[1])
    return {"BaseEquals": BaseEquals, "Sub": Sub}[d[0]](d[1], with_sub=d[2])


def equality(ch, job):
    """Two lookups are equal, and hash alike, exactly when they are of one kind and describe the same."""
    a = ALL[job]
    b = ch.pick(ALL, free=True)
    x, y = mk(a), mk(b)
    ch.op(4)
    want = a == b
    if (x == y) is not want or (x != y) is want:
        raise Violation(f"{x!r} == {y!r} is {x == y}")
    if want and hash(x) != hash(y):
        raise Violation(f"{x!r} and {y!r} are equal with different hashes")
    d = {x: 1}
    if (y in d) is not want:
        raise Violation(f"a dict with {x!r} {'lacks' if want else 'has'} {y!r}")
    for other in (None, "uint", a, tuple(x), str(x), object()):
        if x == other:
            raise Violation(f"{x!r} == {other!r}")
    core.note("equal" if want else "different")
    # the same through a registry: a second, equal lookup is refused, any other accepted
    r = reg.ABIRegistry()
    e1, e2 = (lambda v: b"1" * 32), (lambda v: b"2" * 32)
    r.register_encoder(x, e1, label="one")
    try:
        r.register_encoder(y, e2, label="two")
        refused = False
    except ValueError:
        refused = True
    if refused is not want:
        raise Violation(f"registering {y!r} after {x!r}: refused is {refused}")
    # removing by an equal lookup removes that one only
    r.unregister_encoder(mk(b) if not want else mk(a))
    ch.op(3)
    left = []
    for lab in ("one", "two"):
        try:
            r.unregister_encoder(lab)
            left.append(lab)
        except KeyError:
            pass
    if left != ([] if want else ["one"]):
        raise Violation(f"{x!r} as 'one' and {y!r} as 'two', the second removed by an equal lookup: left {left}")
    return repr(x), repr(y)


# ------------------------------------------------------------------ one registration per type
def unique(ch, job):
    """Exactly one of the built-in registrations matches each supported type: found by removing
    them one at a time."""
    s, t = ch.pick(job, free=True)
    ch.op(30)
    for name, r0, labels in (("registry", registry, LABELS), ("registry_packed", registry_packed, LABELS)):
        if not r0.has_encoder(s):
            raise Violation(f"{name} has no encoder for {s!r}")
        need = []
        for lab in labels:
            r = r0.copy()
            r.unregister_encoder(lab)
            if not r.has_encoder(s):
                need.append(lab)
        want = LABEL_OF(t, s)
        if set(need) != want:
            raise Violation(f"{name}: {s!r} is encoded by the registrations {sorted(need)}, expected {sorted(want)}")
    core.note("unique")
    return s


LABELS = ("uint", "int", "address", "bool", "ufixed", "fixed", "bytes<M>", "bytes", "function", "byte", "string", "has_arrlist", "is_base_tuple")


def LABEL_OF(t, s):
    if t[0] == "arr":
        return {"has_arrlist"} | LABEL_OF(t[1], "")
    if t[0] == "tup":
        return {"is_base_tuple"}.union(*(LABEL_OF(x, "") for x in t[1]))
    if s in ("function", "byte"):
        return {s}
    return {{"bytesM": "bytes<M>"}.get(t[0], t[0])}


def jobs(tier):
    import itertools

    n = {"quick": 4, "thorough": 5}[tier]
    out = [("chars", ("", k), 0, None) for k in range(0, 3)]
    out += [("chars", (a, k), 0, None) for k in range(3, n + 1) for a in CHARS]
    out += [("tokens", ((), k), 0, None) for k in range(0, 3)]
    out += [("tokens", ((a,), k), 0, None) for k in range(3, n + 1) for a in TOKENS]
    out += [("edits", s, 0, None) for s in SEEDS]
    out += [("matching", ("words", w), 0, None) for w in words(2 if tier == "quick" else 3)]
    out += [("matching", ("variants", x), 0, None) for x in (*SEEDS, *BASES, *abi.ALIASES)]
    out += [("equality", i, 0, None) for i in range(len(ALL))]
    b = gen.basics() + [(a, t) for a, t in abi.ALIASES.items()]
    b += [(abi.tstr(t), t) for t in gen.all_trees(4 if tier == "quick" else 5)]
    out += [("unique", tuple(b[i : i + 8]), 0, None) for i in range(0, len(b), 8)]
    return out


CHECK = core.Check(
    "C25",
    {"chars": chars, "tokens": tokens, "edits": edits, "equality": equality, "unique": unique, "matching": matching},
    jobs,
    TRUST,
    lambda t: f"every string of <=4 (thorough 5) over {len(CHARS)} characters and of <=4 (5) over {len(TOKENS)} tokens, and every string within one "
    f"insertion or deletion of {len(SEEDS)} type strings, against {len(PREDS)} BaseEquals lookups, Equals, has_arrlist and is_base_tuple; Equals and BaseEquals of every string of <=2 "
    "(3) against every string of <=3 over 8 characters and between 20 variants (case, blanks, sizes, aliases, compatibility letters) of every seed; every pair "
    "of 24 lookups for equality, hash and registration; every basic type and type of <=4 (5) nodes against the 13 built-in registrations, one removed at a time",
)
