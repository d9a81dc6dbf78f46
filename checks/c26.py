from checks.common import *
from checks import c06, c07, c12
from checks.c06 import WRAP
from mc import faults, pay, vals

from eth_abi import encoding, grammar
from eth_abi.codec import ABICodec, ABIDecoder
from eth_abi.registry import BaseEquals

CLASSES = {
    faults.SHORT: (X.InsufficientDataBytes, ()),
    faults.PAD: (X.NonEmptyPaddingBytes, ()),
    faults.PTR: (X.InvalidPointer, ()),
    faults.TEXT: (UnicodeDecodeError, ()),
    faults.TYPE: (X.EncodingTypeError, ()),
    faults.BOUNDS: (X.ValueOutOfBounds, ()),
    # a legal range, but an illegal value
    faults.ILLEGAL: (X.IllegalValue, X.ValueOutOfBounds),
    faults.ANY: (X.EncodingError, ()),
    faults.PARSE: (X.ParseError, ()),
    faults.ABITYPE: (X.ABITypeError, ()),
    faults.NOENTRY: (X.NoEntriesFound, ()),
    faults.VALUE: (ValueError, ()),
}


def fits(e, kinds):
    return any(isinstance(e, CLASSES[k][0]) and not isinstance(e, CLASSES[k][1]) for k in kinds)


def texts(e, what):
    """The refusal can be shown."""
    for f in (str, repr):
        try:
            s = f(e)
        except Exception as err:
            raise Violation(f"{what}: {f.__name__}() of the {type(e).__name__} raised {type(err).__name__}")
        if not isinstance(s, str) or not s:
            raise Violation(f"{what}: {f.__name__}() of the {type(e).__name__} gives {s!r}")


def refuse(ch, kinds, f, args, kw=None, replay=None):
    """f(*args) is refused with the class of one of the faults; with none, it is not refused."""
    ch.op()
    try:
        f(*args, **(kw or {}))
    except core.ExecTimeout:
        raise
    except Exception as e:
        what = f"{getattr(f, '__name__', f)}{short(args, 700)}"
        if not kinds:
            return e
        if not fits(e, kinds):
            raise Violation(f"{what} raised {type(e).__name__} ({short(str(e), 200)}) for the fault(s) {sorted(kinds)}", replay)
        texts(e, what)
        core.note("+".join(sorted(kinds)) + " -> " + type(e).__name__)
        return e
    core.note("accepted")
    return None


# ------------------------------------------------------------------ payloads
def payload(ch, strs, types, data, lax):
    kinds = faults.of_payload(types, data)
    refuse(ch, kinds, decode, (strs, data), replay=py("decode", strs, data))
    if lax and kinds & {faults.PAD, faults.SHORT}:
        # without strict, some of them are no faults; what is refused is refused the same way
        refuse(ch, kinds, decode, (strs, data), {"strict": False}, replay=py("decode", strs, data, strict=False))
    return strs, data.hex()[:256], sorted(kinds)


def pay_family(name):
    make = pay.SPACES[name][1]

    def run(ch, job):
        strs, types, data = make(ch, job)
        return payload(ch, list(strs), list(types), data, name in ("strs", "deep", "wide"))

    return run


# ------------------------------------------------------------------ values
def value(ch, s, t, v):
    kinds = faults.of_value(t, v)
    for f in (encode, encode_packed):
        refuse(ch, kinds, f, ([s], [v]))
    return s, short(v, 80), sorted(kinds)


def edges(ch, job):
    s, t = ch.pick(job, free=True)
    return value(ch, s, t, ch.pick(c07._edges(t), free=True))


def wilds(ch, job):
    pairs, ctxs = job
    s, t = ch.pick(pairs, free=True)
    c = ch.pick(ctxs, free=True)
    v = vals.get(ch.index(vals.NWILD, free=True))
    fmt, wrap = WRAP[c]
    full = fmt % s
    v = wrap(v, gen.default(t, 2))
    t = abi.ptype(full)
    kinds = faults.of_value(t, v)
    refuse(ch, kinds, encode, ([full], [v]))
    return full, short(v, 80), sorted(kinds)


def shapes(ch, job):
    s = ch.pick(job, free=True)
    shape = ch.pick((0, 1), free=True)
    v = vals.get(ch.index(vals.NWILD, free=True))
    return value(ch, s, abi.ptype(s), v if shape == 0 else [v])


def treevals(ch, job):
    t = ch.pick(job, free=True)
    return value(ch, abi.tstr(t), t, c07.Off(ch).value(t))


def lists(ch, job):
    s, v = c06.long_make(ch, job)
    return value(ch, s, abi.ptype(s), v)


def arity(ch, job):
    """Any other number of values than types, at top level."""
    n = job
    m = ch.pick(range(0, n + 4), free=True)
    s, good, bad = ch.pick((("uint8", 7, 300), ("bytes", b"ab", "ab"), ("(bool,string)", (True, "x"), (True,))), free=True)
    k = ch.pick([None] + list(range(m)), free=True)
    vs = [bad if i == k else good for i in range(m)]
    kinds = faults.of_value(("tup", (abi.ptype(s),) * n), vs)
    for f in (encode, encode_packed):
        refuse(ch, kinds, f, ([s] * n, vs))
    return n, m, s, k


# ------------------------------------------------------------------ type strings
packed_decoder = ABIDecoder(registry_packed)


def type_string(ch, s):
    kinds = faults.of_type(s)
    if not kinds:
        # a good type: only the registry without decoders refuses it
        refuse_all(ch, {faults.NOENTRY}, [(packed_decoder.decode, ([s], bytes(64)))], s)
        return s, []
    calls = [
        (encode, ([s], [1])),
        (encode, (["uint8", s], [1, 1])),
        (decode, ([s], bytes(64))),
        (decode, ([s, "bytes"], bytes(128), False)),
        (encode_packed, ([s], [1])),
        (registry.get_encoder, (s,)),
        (registry.get_decoder, (s,)),
    ]
    refuse_all(ch, kinds, calls, s)
    refuse_all(ch, kinds | {faults.NOENTRY} if faults.PARSE not in kinds else kinds, [(packed_decoder.decode, ([s], bytes(64)))], s)
    if kinds <= {faults.PARSE, faults.VALUE}:
        refuse_all(ch, kinds, [(grammar.parse, (s,))] if faults.PARSE in kinds else [], s)
    return s, sorted(kinds)


def refuse_all(ch, kinds, calls, s):
    for f, a in calls:
        if refuse(ch, kinds, f, a) is None:
            raise Violation(f"{f.__name__}{short(a)} accepted {s!r}, which has the fault(s) {sorted(kinds)}")


def subs(ch, job):
    base, lo, hi = job
    n = ch.pick(list(range(lo, hi)), free=True)
    s = base + ("" if n == 0 else str(n))
    c = ch.pick(("%s", "%s[]", "(%s)", "(bool,%s)[2]", "((uint8[],%s),bytes)"), free=True)
    return type_string(ch, c % s)


def grid(ch, job):
    base, m = job
    return type_string(ch, f"{base}{m}x{ch.pick((0, 1, 2, 18, 79, 80, 81, 100, 1000), free=True)}")


def bare(ch, job):
    base = job
    suf = ch.pick(("", "8x1", "8x", "x8", "1x1", "08", "8x01", "8X1", " ", "[]", "[0]", "[1]", "[][1]", "8 []", "()", "8)", ",", "-8", "８", "\n", "9" * 5000, "[" + "9" * 5000 + "]"), free=True)
    pre = ch.pick(("", " ", "(", "[]", ","), free=True)
    c = ch.pick(("%s", "(%s)", "(%s,uint8)[]", "(uint8,(%s))"), free=True)
    return type_string(ch, c % (pre + base + suf))


def pairs(ch, job):
    """Two members with faults of their own: one of them is reported."""
    a = job
    b = ch.pick(PAIR, free=True)
    c = ch.pick(("(%s,%s)", "(%s[],%s)[1]", "((%s),(%s))"), free=True)
    return type_string(ch, c % (a, b))


PAIR = ("uint8", "uint9", "foo", "bytes33", "bool1", "bar[]", "byte2", "fixed8", "(uint8", "", "string[0]", "int264[2]", "hash", "hash32")


# ------------------------------------------------------------------ registries
def registries(ch, job):
    """No or several registrations for a type, through every entry point."""
    s, label, member, with_sub = job
    mode = ch.pick(("none", "twice", "encoder", "decoder", "encoder twice", "decoder twice"), free=True)
    ctx = ch.pick(("%s", "%s[]", "(%s,bool)", "(string,%s[2])"), free=True)
    full = ctx % s
    r = registry.copy()
    lookup = BaseEquals(member, with_sub=with_sub) if ch.pick((0, 1), free=True) else (lambda x: x == s)
    enc = dec = None
    one, two = X.NoEntriesFound, X.MultipleEntriesFound
    if mode == "none":
        r.unregister(label)
        enc = dec = one
    elif mode == "encoder":
        r.unregister_encoder(label)
        enc = one
    elif mode == "decoder":
        r.unregister_decoder(label)
        dec = one
    coders = encoding.BooleanEncoder, (lambda stream: stream.read(32))
    if mode == "twice":
        r.register(lookup, *coders, label="other")
        enc = dec = two
    elif mode == "encoder twice":
        r.register_encoder(lookup, coders[0], label="other")
        enc = two
    elif mode == "decoder twice":
        r.register_decoder(lookup, coders[1], label="other")
        dec = two
    c = ABICodec(r)
    t = abi.ptype(full)
    v = gen.Build(core.Chooser(()), lens=(1,), vary=False).value(t)
    data = abi.enc_seq([t], [v])
    calls = [
        ("encode", lambda: c.encode([full], [v]), enc),
        ("decode", lambda: c.decode([full], data), dec),
        ("get_encoder", lambda: r.get_encoder(full), enc),
        ("get_decoder", lambda: r.get_decoder(full), dec),
        ("is_encodable_type", lambda: c.is_encodable_type(full), two if enc is two else None),
        ("is_encodable", lambda: c.is_encodable(full, v), two if enc is two else None),
        ("has_encoder", lambda: r.has_encoder(full), two if enc is two else None),
    ]
    for name, f, want in calls:
        ch.op()
        try:
            got = f()
            err = None
        except Exception as e:
            err = e
            texts(e, name)
        core.note(f"{name}: {type(err).__name__}")
        if want is None and err is not None or want is not None and not isinstance(err, want):
            raise Violation(
                f"{name} of {full!r} ({mode} registered for {s!r}) "
                + (f"raised {type(err).__name__}" if err else f"returned {short(got)}")
                + f", expected {want.__name__ if want else 'no error'}"
            )
        if name in ("is_encodable_type", "is_encodable", "has_encoder") and err is None and got is not (enc is None):
            raise Violation(f"{name} of {full!r} ({mode} registered for {s!r}) returned {got!r}")
    return full, mode


REGS = (
    ("uint8", "uint", "uint", True), ("string", "string", "string", False), ("bytes", "bytes", "bytes", None), ("bool", "bool", "bool", False),
    ("fixed8x1", "fixed", "fixed", True), ("address", "address", "address", False), ("bytes3", "bytes<M>", "bytes", None),
)

HIER = (
    (X.EncodingTypeError, X.EncodingError), (X.IllegalValue, X.EncodingError), (X.ValueOutOfBounds, X.IllegalValue),
    (X.InsufficientDataBytes, X.DecodingError), (X.NonEmptyPaddingBytes, X.DecodingError), (X.InvalidPointer, X.DecodingError),
    (X.ABITypeError, ValueError), (X.NoEntriesFound, X.PredicateMappingError), (X.MultipleEntriesFound, X.PredicateMappingError),
    (X.NoEntriesFound, ValueError), (X.MultipleEntriesFound, ValueError),
)
ROOTS = (X.EncodingError, X.DecodingError, X.ParseError, X.PredicateMappingError)


def hierarchy(ch, job):
    """The documented class tree, and that unrelated kinds stay unrelated."""
    allc = sorted({c for p in HIER for c in p} | set(ROOTS), key=lambda c: c.__name__)
    a = ch.pick(allc, free=True)
    b = ch.pick(allc, free=True)
    ch.op()
    up = {(x, y) for x, y in HIER}
    while True:
        more = {(x, z) for x, y in up for y2, z in up if y is y2} - up
        if not more:
            break
        up |= more
    want = a is b or (a, b) in up
    if issubclass(a, b) is not want:
        raise Violation(f"issubclass({a.__name__}, {b.__name__}) is {not want}")
    return a.__name__, b.__name__, want


PAYS = {"quick": ("words", "muts", "heads", "strs", "claims", "wide", "table"), "thorough": tuple(pay.SPACES)}


def jobs(tier):
    out = [j for j in pay.space_jobs(tier, PAYS[tier])]
    b = gen.basics(gen.FIXEDS) if tier == "thorough" else gen.basics()
    for i in range(0, len(b), 4):
        out.append(("edges", tuple(b[i : i + 4]), 0, None))
        out.append(("wilds", (tuple(b[i : i + 4]), ("top",)), 0, None))
    some = [(abi.tstr(t), t) for t in [("uint", 8), ("int", 256), ("bytesM", 5), ("address",), ("bool",), ("string",), ("bytes",), ("fixed", 8, 1), ("ufixed", 128, 18)]]
    out += [("wilds", ((p,), tuple(WRAP)), 0, None) for p in some]
    out += [("shapes", (s,), 0, None) for s in c06.COMPOUND]
    ts = gen.all_trees({"quick": 4, "thorough": 5}[tier])
    for i in range(0, len(ts), 24):
        out.append(("treevals", tuple(ts[i : i + 24]), 1, None))
    ts = gen.all_trees(3)
    for i in range(0, len(ts), 4):
        out.append(("treevals", tuple(ts[i : i + 4]), 2, None))
    out += [("lists",) + j[1:] for j in c06.long_jobs(tier)]
    out += [("arity", n, 0, None) for n in range(1, 8 if tier == "quick" else 40)]
    for base in c12.BASES:
        out.append(("bare", base, 0, None))
        for lo in range(0, 300 if tier == "thorough" or base in faults.KNOWN else 20, 20):
            out.append(("subs", (base, lo, lo + 20), 0, None))
    out += [("grid", (x, m), 0, None) for x in ("fixed", "ufixed") for m in range(1, 273)]
    out += [("pairs", a, 0, None) for a in PAIR]
    out += [("registries", r, 0, None) for r in REGS]
    out.append(("hierarchy", None, 0, None))
    return out


FAMILIES = {n: pay_family(n) for n in pay.SPACES}
FAMILIES.update(
    {"edges": edges, "wilds": wilds, "shapes": shapes, "treevals": treevals, "arity": arity, "subs": subs, "grid": grid,
     "bare": bare, "pairs": pairs, "registries": registries, "hierarchy": hierarchy, "lists": lists}
)
CHECK = core.Check(
    "C26",
    FAMILIES,
    jobs,
    TRUST + ["where several faults are present any of their classes is accepted", "malformed addresses given as text or bytes: any EncodingError"],
    lambda t: f"payload spaces {', '.join(PAYS[t])} (bounds as for C03) with the set of all faults of each payload; limits and foreign "
    "objects of every basic type, compound types, type trees of <=3 nodes with <=2 and of <=4 (thorough 5) with <=1 faulty members, lists "
    "to 1025 items, argument counts; base names x sizes x positions, odd strings, pairs of faulty members; registries with no or two "
    "registrations for 7 types in 4 positions; the exception class tree",
)
