import decimal
import itertools
import re

from checks.common import *
from checks.c18 import freeze, scrub
from eth_abi import decoding, encoding, grammar
from eth_abi.codec import ABICodec
from mc.sched import Sched

D = decimal.Decimal
W = abi.word


def s32(b):
    return b + bytes(-len(b) % 32)


AB = W(32) + W(2) + s32(b"ab")
DIRTY = W(32) + W(2) + b"ab" + b"\x01" * 30
ARR = W(32) + W(2) + W(64) + W(128) + W(1) + s32(b"x") + W(2) + s32(b"yz")
ARR_BAD = W(32) + W(2) + W(64) + W(0) + W(1) + s32(b"x") + W(2) + s32(b"yz")
ARR_DIRTY = W(32) + W(2) + W(64) + W(128) + W(1) + s32(b"x") + W(2) + b"yz" + b"\x01" * 30
TUP = W(32) + W(5) + W(64) + W(2) + s32(b"ab")
TUP2 = W(32) + W(7) + W(64) + W(3) + s32(b"cde")


# every entry: name -> function(codec, packed codec) performing one call
CALLS = {
    "enc uint8": lambda c, p: c.encode(["uint8"], [1]),
    "enc uint8 bad": lambda c, p: c.encode(["uint8"], [256]),
    "enc int16": lambda c, p: c.encode(["int16"], [-2]),
    "enc bytes": lambda c, p: c.encode(["bytes"], [b"ab"]),
    "enc bytes long": lambda c, p: c.encode(["bytes"], [b"q" * 33]),
    "enc string": lambda c, p: c.encode(["string"], ["xyz"]),
    "enc (uint8,bytes)": lambda c, p: c.encode(["(uint8,bytes)"], [(5, b"ab")]),
    "enc (uint8,bytes) 2": lambda c, p: c.encode(["(uint8,bytes)"], [(7, b"cde")]),
    "enc (uint8,bytes) bad": lambda c, p: c.encode(["(uint8,bytes)"], [(7, 5)]),
    "enc uint8[]": lambda c, p: c.encode(["uint8[]"], [[1, 2]]),
    "enc uint8[] bad": lambda c, p: c.encode(["uint8[]"], [[1, -2]]),
    "enc bytes[]": lambda c, p: c.encode(["bytes[]"], [[b"x", b"yz"]]),
    "enc bytes[] 0": lambda c, p: c.encode(["bytes[]"], [[]]),
    "enc bytes[2]": lambda c, p: c.encode(["bytes[2]"], [[b"x", b"yz"]]),
    "enc fixed": lambda c, p: c.encode(["fixed128x18"], [D("1.5")]),
    "enc fixed 2": lambda c, p: c.encode(["fixed128x18"], [D("-0.000000000000000001")]),
    "enc fixed bad": lambda c, p: c.encode(["fixed128x18"], [D("1E-19")]),
    "enc address": lambda c, p: c.encode(["address"], ["0x" + "aB" * 20]),
    "enc bool": lambda c, p: c.encode(["bool"], [True]),
    "enc list": lambda c, p: c.encode(["uint8", "bytes"], [1, b"q"]),
    "dec uint8": lambda c, p: c.decode(["uint8"], W(5)),
    "dec uint8 bad": lambda c, p: c.decode(["uint8"], W(500)),
    "dec int16": lambda c, p: c.decode(["int16"], W(-3)),
    "dec bytes": lambda c, p: c.decode(["bytes"], AB),
    "dec bytes dirty": lambda c, p: c.decode(["bytes"], DIRTY),
    "dec bytes dirty loose": lambda c, p: c.decode(["bytes"], DIRTY, strict=False),
    "dec string": lambda c, p: c.decode(["string"], AB),
    "dec string loose": lambda c, p: c.decode(["string"], DIRTY, strict=False),
    "dec string bad": lambda c, p: c.decode(["string"], W(32) + W(2) + s32(b"\xff\xfe")),
    "dec (uint8,bytes)": lambda c, p: c.decode(["(uint8,bytes)"], TUP),
    "dec (uint8,bytes) 2": lambda c, p: c.decode(["(uint8,bytes)"], TUP2),
    "dec (uint8,bytes) bad": lambda c, p: c.decode(["(uint8,bytes)"], TUP[:-40]),
    "dec uint8[]": lambda c, p: c.decode(["uint8[]"], W(32) + W(3) + W(1) + W(2) + W(3)),
    "dec uint8[] short": lambda c, p: c.decode(["uint8[]"], W(32) + W(3) + W(1)),
    "dec bytes[]": lambda c, p: c.decode(["bytes[]"], ARR),
    "dec bytes[] bad": lambda c, p: c.decode(["bytes[]"], ARR_BAD),
    "dec bytes[] dirty": lambda c, p: c.decode(["bytes[]"], ARR_DIRTY),
    "dec bytes[] loose": lambda c, p: c.decode(["bytes[]"], ARR, strict=False),
    "dec uint8[2]": lambda c, p: c.decode(["uint8[2]"], W(1) + W(2)),
    "dec fixed": lambda c, p: c.decode(["fixed128x18"], W(-15)),
    "dec fixed 2": lambda c, p: c.decode(["fixed128x18"], W(10**30)),
    "dec address": lambda c, p: c.decode(["address"], W(0xAB)),
    "dec bytes4": lambda c, p: c.decode(["bytes4"], b"abcd" + bytes(28)),
    "dec list": lambda c, p: c.decode(["bytes", "uint8"], W(64) + W(9) + W(2) + s32(b"ab")),
    "is uint8": lambda c, p: c.is_encodable("uint8", 1),
    "is uint8 no": lambda c, p: c.is_encodable("uint8", "x"),
    "is bytes[]": lambda c, p: c.is_encodable("bytes[]", [b"a"]),
    "is bytes[] no": lambda c, p: c.is_encodable("bytes[]", [b"a", 1]),
    "is unknown": lambda c, p: c.is_encodable("nosuch", 1),
    "pk uint8": lambda c, p: p.encode(["uint8"], [1]),
    "pk uint8 bad": lambda c, p: p.encode(["uint8"], [-1]),
    "pk bytes[]": lambda c, p: p.encode(["bytes[]"], [[b"x", b"yz"]]),
    "pk (uint8,bytes)": lambda c, p: p.encode(["(uint8,bytes)"], [(5, b"ab")]),
    "pk fixed": lambda c, p: p.encode(["fixed128x18"], [D("1.5")]),
    "pk is": lambda c, p: p.is_encodable("string", "x"),
    "copy": lambda c, p: use_copy(c),
    "copy2": lambda c, p: use_copy2(c),
    "copy packed": lambda c, p: use_copy_packed(p),
}


# same type, different data: state kept on a shared coder between two steps of one call shows
# here.  type -> (value, a value as different as possible, a value that is refused)
A1, A2 = "0x" + "00" * 19 + "01", "0x" + "fe" * 20
SAME = {
    "uint8": (0, 255, 256),
    "int16": (5, -3, 1 << 15),
    "uint256": (1, (1 << 256) - 1, -1),
    "bool": (True, False, 1),
    "address": (A1, A2, "0x"),
    "bytes3": (b"abc", b"", b"abcd"),
    "fixed128x18": (D("1.5"), D("-0.000000000000000001"), D("1E-19")),
    "ufixed8x1": (D(0), D("25.5"), D("25.6")),
    "ufixed256x18": (D("7E-18"), D((1 << 190) + 12345).scaleb(-18, decimal.Context(prec=999)), D("1E-19")),
    "fixed256x80": (D("-3E-80"), D("1E-79"), D("1E-81")),
    "bytes": (b"ab", b"", "x"),
    "string": ("xyz", "\u20ac" * 11, 5),
    "int8[]": ([1], [-1, 2, -3], [200]),
    "int8[2]": ([1, -1], [-2, 2], [1]),
    "bytes[]": ([b"x"], [b"", b"yz"], [b"", 1]),
    "bytes[2]": ([b"x", b""], [b"", b"y" * 33], [b""]),
    "(int8,bytes)": ((1, b"ab"), (-1, b""), (1, 1)),
    "(bool,int8)": ((True, 1), (False, -1), (True,)),
    "(int8,bytes)[]": ([(1, b"ab")], [], [(1, 1)]),
    "int8[][]": ([[1], []], [[-1, -2]], [[1], 2]),
    "function": (b"f" * 24, b"", b"f" * 25),
}
SAMES = []
SCALARS = (("int16", "D"), ("bool", "D"), ("bytes3", "DE"), ("fixed128x18", "D"), ("ufixed256x18", "DE"), ("string", "DE"))


def _same():
    for s, (a, b, bad) in SAME.items():
        t = abi.ptype(s)
        da, db = abi.enc_seq([t], [a]), abi.enc_seq([t], [b])
        cut = da[:-1] if s != "bool" else W(2)
        CALLS[f"E {s} a"] = lambda c, p, s=s, v=a: c.encode([s], [v])
        CALLS[f"E {s} b"] = lambda c, p, s=s, v=b: c.encode([s], [v])
        CALLS[f"E {s} bad"] = lambda c, p, s=s, v=bad: c.encode([s], [v])
        CALLS[f"I {s} b"] = lambda c, p, s=s, v=b: c.is_encodable(s, v)
        CALLS[f"I {s} bad"] = lambda c, p, s=s, v=bad: c.is_encodable(s, v)
        CALLS[f"P {s} a"] = lambda c, p, s=s, v=a: p.encode([s], [v])
        CALLS[f"P {s} b"] = lambda c, p, s=s, v=b: p.encode([s], [v])
        CALLS[f"D {s} a"] = lambda c, p, s=s, d=da: c.decode([s], d)
        CALLS[f"D {s} b"] = lambda c, p, s=s, d=db: c.decode([s], d)
        CALLS[f"D {s} cut"] = lambda c, p, s=s, d=cut: c.decode([s], d)
        CALLS[f"D {s} loose"] = lambda c, p, s=s, d=db: c.decode([s], d, strict=False)
        for x, y in (("E a", "E b"), ("E b", "E bad"), ("I b", "I bad"), ("P a", "P b"), ("D a", "D b"), ("D b", "D cut"), ("D a", "D loose"), ("E a", "D b")):
            SAMES.append(tuple(f"{z[0]} {s} {z[2:]}" for z in (x, y)))


SMALLCALLS = list(CALLS)
_same()
# type strings that are refused: parsed anew by every call
for _n, _s in (("syntax", "uint8["), ("empty", "()"), ("base", "nosuch"), ("size", "uint7"), ("member", "(uint8,nosuch)")):
    CALLS[f"enc bad type {_n}"] = lambda c, p, s=_s: c.encode([s], [1])
    CALLS[f"dec bad type {_n}"] = lambda c, p, s=_s: c.decode([s], W(1))
BADTYPES = [("enc bad type " + a, "enc bad type " + b) for a, b in itertools.combinations(("syntax", "empty", "base", "size", "member"), 2)]
BADTYPES += [("dec bad type syntax", "dec bad type empty"), ("dec bad type syntax", "enc uint8"), ("enc bad type empty", "dec bytes[]")]


class Shift(encoding.UnsignedIntegerEncoder):
    """a replacement for uint8 in the copy"""

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls(value_bit_size=16)


def use_copy(c):
    """Take a copy of the registry in use, change it, use it."""
    r = c._registry.copy() if not hasattr(c, "reg") else c.reg.copy()
    r.unregister_encoder("uint")
    r.register_encoder("uint8", lambda v: b"\x07" * 32)
    n = ABICodec(r)
    a = n.encode(["uint8", "uint8[]"], [1, [2]])
    r.unregister_encoder("uint8")
    return a, n.is_encodable_type("uint8")


def use_copy2(c):
    r = c.reg.copy()
    r.unregister("bytes")
    r.register("bytes", lambda v: W(32) + b"z" * 32, lambda s: s.read(32), label="bytes")
    n = ABICodec(r)
    return n.decode(["(uint8,bytes)"], W(5) + W(6)), n.encode(["(uint8,bytes)"], [(5, b"q")])


def use_copy_packed(p):
    r = p.reg.copy()
    r.unregister_encoder("bytes")
    r.register_encoder("bytes", lambda v: b"Z")
    n = ABICodec(r)
    return n.encode(["bytes[]"], [[b"x", b"yz"]])


class Codec(ABICodec):
    def __init__(self, reg):
        super().__init__(reg)
        self.reg = reg


STD, PK = Codec(registry), Codec(registry_packed)


def frozen(r):
    if r[0] == "returns":
        return ("returns", freeze(r[1]))
    e = r[1]
    return ("raises", type(e).__name__, scrub(str(e)))


def plain(name, std, pk):
    try:
        return frozen(("returns", CALLS[name](std, pk)))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return frozen(("raises", e))


_alone = {}


def alone(name):
    if name not in _alone:
        _alone[name] = core.forked(lambda: plain(name, STD, PK))
    return _alone[name]


def play(ch, names, bound, fine, window, std, pk):
    s = Sched(ch, [lambda n=n: CALLS[n](std, pk) for n in names], bound, fine, window)
    outs = s.run()
    for n, o in zip(names, outs):
        if o[0] == "raises" and not isinstance(o[1], Exception):
            raise o[1]
    return [frozen(o) for o in outs], s


def judge(names, outs, how):
    for n, o in zip(names, outs):
        if o != alone(n):
            raise Violation(f"threads {names}, {how}: '{n}' alone gives {alone(n)}, here {o}")


def warm(ch, job):
    """All types were used before."""
    names, bound, fine, window = job
    for n in names:
        alone(n)
        for _ in range(2):
            plain(n, STD, PK)
    outs, s = play(ch, names, bound, fine, window, STD, PK)
    ch.op(s.points)
    judge(names, outs, "warm")
    # and afterwards the library is as before
    for n in names:
        o = plain(n, STD, PK)
        if o != alone(n):
            raise Violation(f"after threads {names} (warm) ended, '{n}' gives {o}, alone {alone(n)}")
    core.note("preempted" if s.preempted else "serial")
    core.extra("switches", s.switches)
    core.extra("stalls", s.stalls)
    return {"threads": names, "points": s.points, "preemptions": s.preempted}


warm.tolerant = True


def cold(ch, job):
    """First use of the types, in a fresh process."""
    names, bound, fine, window, own = job

    for n in names:
        alone(n)

    def run():
        std, pk = (Codec(registry.copy()), Codec(registry_packed.copy())) if own else (STD, PK)
        c = core.Chooser(ch.prefix)
        div = None
        try:
            outs, s = play(c, names, bound, fine, window, std, pk)
        except core.Divergence:
            return c.choices, c.points, None
        judge(names, outs, "first use")
        for n in names:
            o = plain(n, std, pk)
            if o != alone(n):
                raise Violation(f"after threads {names} (first use) ended, '{n}' gives {o}, alone {alone(n)}")
        return c.choices, c.points, (s.points, s.preempted, s.switches, s.stalls)

    r = core.forked(run)
    ch.choices[:], ch.points[:] = r[0], r[1]
    if r[2] is None:
        raise core.Divergence("cold")
    ch.op(r[2][0])
    core.note("preempted" if r[2][1] else "serial")
    core.extra("switches", r[2][2])
    core.extra("stalls", r[2][3])
    return {"threads": names, "points": r[2][0]}


cold.tolerant = True

SMALL = (
    "enc uint8", "enc uint8 bad", "enc (uint8,bytes)", "enc (uint8,bytes) 2", "enc bytes[]", "enc fixed", "enc fixed bad", "dec uint8", "dec bytes dirty", "dec bytes dirty loose",
    "dec (uint8,bytes)", "dec (uint8,bytes) 2", "dec bytes[]", "dec bytes[] bad", "dec fixed", "is bytes[] no", "pk bytes[]", "copy",
)
# pairs explored with two preemptions
TWICE = (
    ("enc uint8", "enc uint8 bad"), ("dec uint8", "dec uint8 bad"), ("dec fixed", "dec fixed 2"), ("is uint8", "is uint8 no"), ("pk uint8", "pk uint8 bad"),
    ("dec bytes dirty", "dec bytes dirty loose"), ("enc fixed", "enc fixed 2"), ("enc bool", "enc address"), ("enc bytes", "enc bytes long"),
)
FINE = TWICE + (
    ("enc bytes[] 0", "enc bytes[]"), ("dec string loose", "dec string"), ("dec (uint8,bytes)", "dec (uint8,bytes) 2"), ("dec uint8[]", "dec uint8[] short"),
)
COLD = (
    ("dec (uint8,bytes)", "dec (uint8,bytes) 2"), ("enc (uint8,bytes)", "enc (uint8,bytes) 2"), ("dec bytes dirty", "dec bytes dirty loose"), ("enc bytes[]", "dec bytes[]"),
    ("enc uint8", "enc uint8 bad"), ("enc uint8[]", "pk uint8"), ("is bytes[]", "is bytes[] no"), ("is unknown", "is uint8"), ("pk bytes[]", "enc bytes[]"), ("dec fixed", "enc fixed"),
    ("copy", "enc uint8[]"), ("copy2", "dec (uint8,bytes)"), ("copy2", "enc (uint8,bytes)"), ("copy packed", "pk bytes[]"), ("copy", "is uint8"), ("dec bytes[] loose", "dec bytes[] dirty"),
)


def windows(step, top):
    out = [(i, i + step) for i in range(0, top, step)]
    return out + [(out[-1][1], 10**9)]


def jobs(tier):
    out = []
    quick = tier == "quick"
    names = SMALLCALLS
    # one preemption, every line
    pairs = list(itertools.combinations_with_replacement(SMALL, 2))
    if not quick:
        pairs = list(itertools.combinations_with_replacement(names, 2))
    out += [("warm", (p, 1, False, None), 1, None) for p in pairs + SAMES + BADTYPES]
    if not quick:
        out += [("warm", (p, 1, True, None), 1, None) for p in SAMES]
    # one preemption, every bytecode instruction
    fine = FINE if quick else list(itertools.combinations_with_replacement(SMALL, 2)) + list(FINE)
    out += [("warm", (p, 1, True, None), 1, None) for p in fine]
    # two preemptions, every line
    same2 = [(f"{k} {s} a", f"{k} {s} b") for s, ks in SCALARS for k in ks]
    for p in same2:
        for w in windows(10, 300):
            out.append(("warm", (p, 2, False, w), 2, None))
    for p in TWICE if quick else list(TWICE) + list(itertools.combinations_with_replacement(SMALL, 2)):
        for w in windows(10, 300):
            out.append(("warm", (p, 2, False, w), 2, None))
    # three threads
    for p in (("dec bytes dirty", "dec bytes dirty loose", "dec bytes"), ("enc uint8", "enc uint8 bad", "enc uint8"), ("enc fixed", "dec fixed", "pk fixed")):
        for w in windows(15, 90):
            out.append(("warm", (p, 1 if quick else 2, False, w), 1 if quick else 2, None))
    # first use
    cp = list(COLD) if quick else list(itertools.combinations_with_replacement(SMALL, 2)) + list(COLD)
    for p in cp:
        for own in (False, True) if not quick or p in COLD[::3] else (False,):
            for w in windows(100, 800):
                out.append(("cold", (p, 1, False, w, own), 1, None))
    if not quick:
        for p in COLD[:6]:
            for w in windows(10, 600):
                out.append(("cold", (p, 2, False, w, True), 2, 20000))
    return out


core.PIN = True
CHECK = core.Check(
    "C19",
    {"warm": warm, "cold": cold},
    jobs,
    TRUST
    + [
        "threads are switched before source lines (or, in the fine mode, bytecode instructions) of eth_abi; the GIL serialises the rest",
        "changing a registry while another thread uses that same registry is not claimed",
    ],
    lambda t: f"{len(CALLS)} calls; two threads: every schedule with <=1 preemption at a line for all pairs of 18 calls (thorough: of all), "
    "with <=1 preemption at a bytecode instruction for 13 pairs and with <=2 at lines for 18 pairs (thorough: also all pairs of 18 calls); three threads "
    "with <=1 (2); first use of the types in a fresh process, with the built-in registry and with a fresh copy, 16 pairs (thorough 187) "
    "with 1 preemption; for each of 21 types 8 pairs of calls on that type with different data, <=1 preemption at a line (thorough: also at an instruction); 13 pairs of calls with type strings that are refused",
)
