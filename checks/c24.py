import codecs
import itertools

from checks.common import *
from eth_abi import decoding as dec, encoding as enc
from eth_abi.codec import ABICodec
from eth_abi.registry import BaseEquals

codecs.register_error("verif-qm", lambda e: ("?" * (e.end - e.start), e.end))
codecs.register_error("verif-hex", lambda e: ("<%s>" % e.object[e.start : e.end].hex(), e.end))
HANDLERS = ("strict", "ignore", "replace", "backslashreplace", "surrogateescape", "surrogatepass", "verif-qm", "verif-hex")
W = abi.word


def codec_for(h, where):
    """A codec with the handler for "string" itself or for a type of its own."""
    r = registry.copy()
    d = dec.StringDecoder(handle_string_errors=h)
    if where == "string":
        r.unregister_decoder("string")
        r.register_decoder(BaseEquals("string"), d, label="string")
        return ABICodec(r), "string"
    if where == "class":

        class Mine(dec.StringDecoder):
            def __init__(self):
                super().__init__(handle_string_errors=h)

            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls()

        r.register("text", enc.TextStringEncoder, Mine)
        return ABICodec(r), "text"
    r.register("text", enc.TextStringEncoder(), d)
    return ABICodec(r), "text"


CODECS = {(h, w): codec_for(h, w) for h in HANDLERS for w in ("string", "text", "class")}

# every class of byte in UTF-8: boundaries of ASCII, continuation and lead bytes
ALPHA = (0x41, 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF)


def body(b):
    return W(len(b)) + b + bytes(-len(b) % 32)


# type with %s, payload around the body, how to find the text in the result
PLACES = {
    "top": ("%s", lambda b: W(0x20) + body(b), lambda r: r[0]),
    "array": ("%s[]", lambda b: W(0x20) + W(2) + W(0x40) + W(0x80) + body(b"ok") + body(b), lambda r: r[0][1]),
    "tuple": ("(uint8,%s)", lambda b: W(0x20) + W(5) + W(0x40) + body(b), lambda r: r[0][1]),
    "nested": ("(%s,bytes)[1]", lambda b: W(0x20) + W(0x20) + W(0x40) + W(0x40 + len(body(b))) + body(b) + body(b"z"), lambda r: r[0][0][0]),
}


def expect(b, h):
    try:
        return ("value", b.decode("utf-8", h))
    except UnicodeDecodeError:
        return ("raise", UnicodeDecodeError)


def judge(ch, b, h, where, place, strict):
    codec, name = CODECS[(h, where)]
    t, mk, get = PLACES[place]
    data = mk(b)
    want = expect(b, h)
    ch.op()
    try:
        got = ("value", get(codec.decode([t % name], data, strict=strict)))
    except core.ExecTimeout:
        raise
    except Exception as e:
        got = ("raise", type(e))
    core.note(want[0])
    if got != want or (got[0] == "value" and type(got[1]) is not str):
        raise Violation(f"StringDecoder({h!r}) registered as {name!r} ({where}): decode([{t % name!r}], {data.hex()}, strict={strict}) -> {got!r}, expected {want!r}")
    # the default decoder is strict, whatever was registered elsewhere
    dflt = expect(b, "strict")
    ch.op()
    try:
        got = ("value", get(decode([t % "string"], data, strict=strict)))
    except core.ExecTimeout:
        raise
    except Exception as e:
        got = ("raise", type(e))
    if got != dflt:
        raise Violation(f"decode([{t % 'string'!r}], {data.hex()}, strict={strict}) -> {got!r}, expected {dflt!r}")


def pairs(ch, job):
    """Every string of two bytes."""
    h, lo = job
    a = ch.pick(range(lo, lo + 16), free=True)
    for b in range(256):
        judge(ch, bytes((a, b)), h, "string", "top", True)
    return h, a


def seqs(ch, job):
    """Every string over the byte classes up to a length, in every place."""
    h, n, first = job
    b = bytes((first,) + tuple(ch.pick(ALPHA, free=True) for _ in range(n - 1)))
    where = "string" if n > 3 else ch.pick(("string", "text", "class"), free=True)
    place = "top" if n > 3 or (n == 3 and where != "string") else ch.pick(list(PLACES), free=True)
    strict = True if n > 3 or (n == 3 and where != "string") else ch.pick((True, False), free=True)
    judge(ch, b, h, where, place, strict)
    return h, b.hex(), where, place, strict


def long(ch, job):
    """An invalid byte somewhere in a longer text, at and around word boundaries."""
    h, n = job
    ch_ = ch.pick(("a", "é", "€", "😀"), free=True)
    t = (ch_ * n).encode()[:n]
    at = ch.pick(sorted({0, 1, n // 2, n - 1, 30, 31, 32, 33} & set(range(n))), free=True)
    x = ch.pick((b"", b"\xff", b"\x80", b"\xe2\x82", b"\xed\xa0\x80"), free=True)
    judge(ch, t[:at] + x + t[at:], h, ch.pick(("string", "text", "class"), free=True), ch.pick(list(PLACES), free=True), True)
    return h, n, at, x.hex()


def several(ch, job):
    """Two codecs with different handlers used in turn: each keeps its own."""
    h1 = job
    h2 = ch.pick(HANDLERS, free=True)
    w1, w2 = ch.pick(("string", "text", "class"), free=True), ch.pick(("string", "text", "class"), free=True)
    s = ch.pick((True, False), free=True)
    b = ch.pick((b"a\xff", b"\xc3\xa9\x80", b"ok", b"\xed\xa0\x80"), free=True)
    for k in range(2):
        judge(ch, b, h1, w1, "top", s)
        judge(ch, b, h2, w2, "array", not s)
    return h1, h2


def both(ch, job):
    """One registry with two text types, each with its own handler (the documented example)."""
    h1 = job
    h2 = ch.pick(HANDLERS, free=True)
    r = registry.copy()
    r.register("t1", enc.TextStringEncoder, dec.StringDecoder(handle_string_errors=h1))
    r.register("t2", enc.TextStringEncoder, dec.StringDecoder(handle_string_errors=h2))
    c = ABICodec(r)
    strict = ch.pick((True, False), free=True)
    for b in (b"a\xffb", b"\xe2\x82", b"fine", b"\xed\xb2\x80"):
        e = [expect(b, h) for h in (h1, h2, "strict")]
        for ts in (["t1", "t2", "string"], ["(t1,t2)", "string"], ["t2", "t1"], ["t1[1]", "t2[]"]):
            flat = [x for x in " ".join(ts).replace("(", " ").replace(")", " ").replace(",", " ").replace("[1]", "").replace("[]", "").split()]
            idx = {"t1": 0, "t2": 1, "string": 2}
            types = [t.replace("t1", "bytes").replace("t2", "bytes").replace("string", "bytes") for t in ts]
            vals = [(b, b) if t.startswith("(") else [b] if t.endswith("]") else b for t in ts]
            data = abi.enc_seq([abi.ptype(t) for t in types], vals)
            outs = [e[idx[x]] for x in flat]
            ch.op()
            try:
                got = ("value", list(_flat(c.decode(ts, data, strict=strict))))
            except core.ExecTimeout:
                raise
            except Exception as x:
                got = ("raise", type(x))
            bad = [o for o in outs if o[0] == "raise"]
            want = bad[0] if bad else ("value", [o[1] for o in outs])
            if got != want:
                raise Violation(f"t1 with {h1!r}, t2 with {h2!r}: decode({ts}, {data.hex()}, strict={strict}) -> {got!r}, expected {want!r}")
    core.note("both")
    return h1, h2


NAMES = ("Verif", "verif", "VERIF", "verif-a", "verif_a", "verif a", " verif", "verif ", "", "Strict", "STRICT", "strict ", "Ignore", "REPLACE", "x" * 300, "naïve", "Straße", "STRASSE", "0", "None", "utf-8", "ﬁ")


def names(ch, job):
    """The handler is looked up by exactly its name: handlers whose names differ in case,
    blanks, dashes or normalisation are different handlers."""
    for k, n in enumerate(NAMES):
        codecs.register_error(n, lambda e, k=k: ("<%d>" % k, e.end))
    a, b = job, ch.pick(NAMES, free=True)
    where = ch.pick(("string", "text", "class"), free=True)
    one, two = codec_for(a, where), codec_for(b, where)
    for codec, h in ((one, a), (two, b), (one, a)):
        for data in (b"a\xff", b"ok", b"\xe2\x82z"):
            check_one(ch, codec, h, data, where)
    core.note("names")
    return a, b


HOW = {
    "skip": lambda e: ("S", e.end),
    "other": lambda e: ("OO", e.end),
    "one": lambda e: ("1", e.start + 1),
    "rest": lambda e: ("R", len(e.object)),
    "empty": lambda e: ("", e.end),
    "raise": None,
    "lone": lambda e: ("\udc80", e.end),
    "hex": lambda e: (e.object[e.start :].hex(), e.end),
}


def _raise(e):
    raise e


def redefine(ch, job):
    """A user's handler is registered anew between decodes, by decoders built before and
    after: every decode uses the handler as it is then."""
    first, where = job
    seq = [first] + [ch.pick(list(HOW), free=True) for _ in range(2)]
    data = ch.pick((b"a\xffb", b"\xe2\x82", b"\xff\xfe\xed\xa0\x80z", b"fine"), free=True)
    name = "verif-redefined"
    built = []
    for how in seq:
        codecs.register_error(name, HOW[how] or _raise)
        built.append(codec_for(name, where))
        for codec in built:
            check_one(ch, codec, name, data, where, how)
    core.note("redefine")
    return seq, where, data.hex()


def check_one(ch, codec, h, b, where, how=""):
    codec, name = codec
    for place in ("top", "array"):
        t, mk, get = PLACES[place]
        want = expect(b, h)
        ch.op()
        try:
            got = ("value", get(codec.decode([t % name], mk(b))))
        except core.ExecTimeout:
            raise
        except Exception as e:
            got = ("raise", type(e))
        if got != want:
            raise Violation(f"StringDecoder({h!r}) {how} registered as {name!r} ({where}): decode([{t % name!r}], {mk(b).hex()}) -> {got!r}, expected {want!r}")


def _flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from _flat(x)
    else:
        yield v


def jobs(tier):
    out = [("pairs", (h, a), 0, None) for h in HANDLERS for a in range(0, 256, 16)]
    top = {"quick": 4, "thorough": 5}[tier]
    out += [("seqs", (h, n, f), 0, None) for h in HANDLERS for n in range(1, top + 1) for f in ALPHA if n < 4 or tier == "thorough" or h in ("strict", "replace", "surrogateescape")]
    out += [("long", (h, n), 0, None) for h in HANDLERS for n in (5, 31, 32, 33, 64, 100, 1000, 5000)]
    out += [("several", h, 0, None) for h in HANDLERS]
    out += [("both", h, 0, None) for h in HANDLERS]
    out += [("names", n, 0, None) for n in NAMES]
    out += [("redefine", (h, w), 0, None) for h in HOW for w in ("string", "text", "class")]
    return out


CHECK = core.Check(
    "C24",
    {"pairs": pairs, "seqs": seqs, "long": long, "several": several, "both": both, "names": names, "redefine": redefine},
    jobs,
    TRUST + ["bytes.decode is the oracle for each error handler"],
    lambda t: f"{len(HANDLERS)} error handlers (2 of the user's own) x every byte string of length 2; of length <=2 over {len(ALPHA)} byte classes x 3 ways "
    "to register x 4 places x strict or not; of length 3 less the cross of ways and places; of length 4 at top level for 3 handlers (thorough 5, all); longer texts (5..5000 bytes) with a fault at 8 positions; "
    "every pair of handlers in turn and in one registry; every pair of 22 handler names that differ in case, blanks or form; every sequence of "
    "3 definitions out of 8 of one handler, by decoders built before and after",
)
