import copy
import itertools

from checks.common import *
from mc import regs
from mc.regs import OPS
from eth_abi.codec import ABICodec
from eth_abi.registry import ABIRegistry, BaseEquals
from eth_abi import decoding, encoding

# simple, interacting operations
SEL = [OPS[i] for i in (0, 1, 2, 3, 4, 6, 7, 10, 13, 16, 17, 18)]
SMALL = [OPS[i] for i in (0, 1, 3, 4, 17)]
PROBES = ("foo", "bar", "foo8", "foo[]", "(foo,bar)", "bar[2][]", "(foo8,bar[])[1]", "baz")
COPIES = (("copy()", lambda r: r.copy()), ("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy))


def check_all(ch, world, log, probes=PROBES):
    for name, (reg, m) in world.items():
        ch.op(4 * len(probes))
        diff = regs.compare(reg, m, probes)
        if diff:
            raise Violation(f"after {log}: registry {name}: {diff}")


def step(ch, world, log, name, op):
    reg, m = world[name]
    ch.op()
    got, want = regs.apply(op, reg, m)
    log.append(f"{name}.{op.name}")
    if got is not want:
        raise Violation(f"after {log[:-1]}: {log[-1]} gave {got}, expected {want}")


def copies(ch, job):
    """Prepare A, look it up (or not), copy it to B, then every interleaving of operations on
    both; after each one both registries are compared with their own model."""
    pre, how, depth, look = job
    world = {"A": regs.base_registry()}
    log = []
    for i in pre:
        step(ch, world, log, "A", SEL[i])
    if look:
        check_all(ch, world, log)
    cname, cfun = COPIES[how]
    reg, m = world["A"]
    ch.op()
    b = cfun(reg)
    log.append(f"B = {cname} of A")
    if b is reg or not isinstance(b, ABIRegistry):
        raise Violation(f"{cname} returned {b!r}")
    world["B"] = (b, m.copy())
    if ch.pick((1, 0), free=True):
        check_all(ch, world, log)
    for i in range(depth):
        name = ch.pick(("B", "A"), free=True)
        step(ch, world, log, name, ch.pick(SEL if depth < 3 else SMALL, free=True))
        check_all(ch, world, log, PROBES if i == depth - 1 else PROBES[:5:4])
    core.note(f"{cname} looked up {look}")
    return log


def chain(ch, job):
    """Copies of copies, and copies made in between operations."""
    world = {"A": regs.base_registry()}
    log = []
    names = "ABC"
    for i in range(job):
        acts = [("op", n, o) for n in world for o in SMALL]
        if len(world) < 3:
            acts += [("copy", n, c) for n in world for c in range(3)]
        a = ch.pick(acts, free=True)
        if a[0] == "op":
            step(ch, world, log, a[1], a[2])
        else:
            reg, m = world[a[1]]
            new = names[len(world)]
            world[new] = (COPIES[a[2]][1](reg), m.copy())
            log.append(f"{new} = {COPIES[a[2]][0]} of {a[1]}")
            ch.op()
        check_all(ch, world, log, ("foo", "(foo,bar)", "foo[]"))
    core.note(f"chain {len(world)}")
    return log


# ------------------------------------------------------------------ copies of the built-in registries
class SubRegistry(ABIRegistry):
    pass


def _u7(r):
    r.unregister("uint")
    r.register(BaseEquals("uint"), regs.NumEncoder, regs.NumDecoder, label="uint")


def _nobytes(r):
    r.unregister_decoder("bytes")
    r.unregister_encoder("bytes")


def _strings(r):
    r.unregister_decoder("string")
    r.register_decoder(BaseEquals("string"), decoding.StringDecoder(handle_string_errors="replace"), label="string")


def _noarr(r):
    r.unregister_encoder("has_arrlist")


CHANGES = (("replace uint", _u7), ("drop bytes", _nobytes), ("string errors", _strings), ("drop arrays", _noarr))
W = abi.word
PROBE_CALLS = [
    ("encode", ["uint8"], [5], W(5)),
    ("encode", ["uint8[]", "bytes"], [[5], b"a"], W(0x40) + W(0x80) + W(1) + W(5) + W(1) + b"a" + bytes(31)),
    ("encode", ["(uint8,string)"], [(5, "x")], W(0x20) + W(5) + W(0x40) + W(1) + b"x" + bytes(31)),
    ("decode", ["uint8"], W(5), (5,)),
    ("decode", ["bytes"], W(0x20) + W(1) + b"a" + bytes(31), (b"a",)),
    ("decode", ["(uint8,bytes)[]"], W(0x20) + W(1) + W(0x20) + W(5) + W(0x40) + W(1) + b"a" + bytes(31), (((5, b"a"),),)),
    ("decode", ["string"], W(0x20) + W(1) + b"\xff" + bytes(31), "UnicodeDecodeError"),
    ("decode", ["string[]"], W(0x20) + W(1) + W(0x20) + W(1) + b"\xff" + bytes(31), "UnicodeDecodeError"),
]


def run_calls(codec):
    out = []
    for fn, types, arg, want in PROBE_CALLS:
        try:
            out.append(getattr(codec, fn)(types, arg))
        except core.ExecTimeout:
            raise
        except Exception as e:
            out.append(type(e).__name__)
    return out


def fresh_outcomes(change):
    """What a registry with that change alone does (differential oracle: a separate copy)."""
    r = registry.copy()
    if change is not None:
        CHANGES[change][1](r)
    return run_calls(ABICodec(r))


BASE = [c[3] for c in PROBE_CALLS]


def builtin(ch, job):
    how, order = job
    warm = ch.pick((0, 1), free=True)
    c1 = ch.pick(range(len(CHANGES)), free=True)
    c2 = ch.pick(range(len(CHANGES)), free=True)
    want1, want2 = fresh_outcomes(c1), fresh_outcomes(c2)
    a = COPIES[how][1](registry)
    log = []
    if warm:
        run_calls(ABICodec(a))
    b = COPIES[order][1](a)
    ch.op(4)
    CHANGES[c1][1](b)
    checks = [("the default registry", eth_abi.abi.default_codec, BASE), ("A", ABICodec(a), BASE), ("B", ABICodec(b), want1)]
    for name, codec, want in checks:
        ch.op(len(PROBE_CALLS))
        got = run_calls(codec)
        if got != want:
            raise Violation(f"B copied from A (a copy of the default registry), then B: {CHANGES[c1][0]}: {name} gives {short(got, 600)}, expected {short(want, 600)}")
    CHANGES[c2][1](a)
    checks = [("the default registry", eth_abi.abi.default_codec, BASE), ("A", ABICodec(a), want2), ("B", ABICodec(b), want1)]
    for name, codec, want in checks:
        ch.op(len(PROBE_CALLS))
        got = run_calls(codec)
        if got != want:
            raise Violation(f"B: {CHANGES[c1][0]}, A: {CHANGES[c2][0]}: {name} gives {short(got, 600)}, expected {short(want, 600)}")
    if want1 == BASE:
        raise Violation(f"a change ({CHANGES[c1][0]}) of a copy has no effect")
    core.note("builtin")
    return CHANGES[c1][0], CHANGES[c2][0]


def packed_copy(ch, job):
    r = COPIES[job][1](registry_packed)
    ch.op(3)
    before = encode_packed(["uint8", "uint16[]"], [5, [6]])
    r.unregister_encoder("uint")
    after = encode_packed(["uint8", "uint16[]"], [5, [6]])
    r.register_encoder(BaseEquals("uint"), regs.NumEncoder, label="uint")
    again = encode_packed(["uint8", "uint16[]"], [5, [6]])
    mine = ABICodec(r).encode(["uint8[]"], [[5]])
    if not (before == after == again == b"\x05\x00\x06") or mine != W(5):
        raise Violation(f"packed registry affected by a change to its copy: {before} {after} {again} {mine}")
    core.note("packed")


def empties(ch, job):
    """Registries of which a side (or both) is empty when they are copied: never used, emptied
    again, or the packed one, which has no decoders."""
    how, kind = job
    e, d = regs.CODERS[2]
    if kind == "packed":
        a = registry_packed.copy()
    else:
        a = ABIRegistry()
        if kind == "emptied":
            a.register("foo", e, d)
            a.has_encoder("foo"), a.get_decoder("foo")
            a.unregister("foo")
        elif kind == "encoders":
            a.register_encoder("bar", e)
        elif kind == "decoders":
            a.register_decoder("bar", d)
    b = COPIES[how][1](a)
    regs_ = {"the original": a, "the copy": b}
    has = {n: {"enc": set(), "dec": set()} for n in regs_}
    first, second = ch.pick((("the original", "the copy"), ("the copy", "the original")), free=True)
    side1, side2 = ch.pick(("enc", "dec", "both"), free=True), ch.pick(("enc", "dec", "both"), free=True)
    log = [f"{COPIES[how][0]} of a registry ({kind})"]
    for name, typ, side, k in ((first, "foo", side1, 2), (second, "baz", side2, 3), (second, "foo", side1, 3)):
        r = regs_[name]
        if has[name]["enc"] & {typ} or has[name]["dec"] & {typ}:
            continue
        e, d = regs.CODERS[k]
        ch.op()
        log.append(f"register {typ} {side} with {name}")
        try:
            if side != "dec":
                r.register_encoder(typ, e)
                has[name]["enc"].add(typ)
            if side != "enc":
                r.register_decoder(typ, d)
                has[name]["dec"].add(typ)
        except ValueError as x:
            raise Violation(f"{log}: refused: {x}")
        for n, q in regs_.items():
            for t in ("foo", "baz"):
                ch.op(2)
                try:
                    q.get_decoder(t)
                    dec = True
                except Exception as x:
                    if type(x).__name__ != "NoEntriesFound":
                        raise Violation(f"{log}: {n}: get_decoder({t!r}) raises {short(x)}")
                    dec = False
                got = (q.has_encoder(t), dec)
                want = (t in has[n]["enc"], t in has[n]["dec"])
                if got != want:
                    raise Violation(f"{log}: {n} has (encoder, decoder) for {t!r}: {got}, expected {want}")
    core.note("empties " + kind)
    return log


def subclass(ch, job):
    """Copying keeps the class, the labels and the registered objects."""
    r = SubRegistry()
    e, d = regs.CODERS[job]
    lab = ch.pick((None, "L"), free=True)
    r.register(regs.pred_f, e, d, **({"label": lab} if lab else {}))
    cname, f = ch.pick(COPIES, free=True)
    c = f(r)
    ch.op(4)
    if type(c) is not SubRegistry:
        raise Violation(f"{cname} of a subclass instance is a {type(c).__name__}")
    if job % 3 == 2 and (c.get_encoder("foo") is not e or c.get_decoder("foo") is not d):
        raise Violation(f"{cname}: the copy does not hold the registered callable")
    try:
        c.register(regs.pred_f, e, d)
        raise Violation(f"{cname}: the copy accepts a lookup that is already registered")
    except ValueError:
        pass
    if lab:
        c.unregister("L")
    else:
        c.unregister_encoder(regs.pred_f)
        c.unregister_decoder(regs.pred_f)
    r.get_encoder("foo"), r.get_decoder("foo")
    if c.has_encoder("foo"):
        raise Violation(f"{cname}: still registered after unregister")
    if lab:
        r.unregister("L")
    core.note("subclass")


def jobs(tier):
    out = []
    pres = [()] + [(i,) for i in range(len(SEL))]
    pres2 = [p for p in itertools.product(range(7), repeat=2)]
    for how in range(3):
        for p in pres:
            for look in (True, False):
                out.append(("copies", (p, how, 2, look), 0, None))
        for p in [(), (0,), (1,)]:
            out.append(("copies", (p, how, 3, True), 0, None))
    for p in pres2 if tier == "thorough" else pres2[::5]:
        for how in range(3) if tier == "thorough" else (1,):
            out.append(("copies", (p, how, 2, True), 0, None))
    if tier == "thorough":
        out += [("copies", (p, h, 3, k), 0, None) for p in pres for h in range(3) for k in (True, False)]
    out.append(("chain", {"quick": 3, "thorough": 4}[tier], 0, None))
    out += [("builtin", (h, o), 0, None) for h in range(3) for o in range(3)]
    out += [("packed", h, 0, None) for h in range(3)]
    out += [("empties", (h, k), 0, None) for h in range(3) for k in ("packed", "fresh", "emptied", "encoders", "decoders")]
    out += [("subclass", i, 0, None) for i in (1, 2, 3)]
    return out


CHECK = core.Check(
    "C14",
    {"copies": copies, "chain": chain, "builtin": builtin, "packed": packed_copy, "subclass": subclass, "empties": empties},
    jobs,
    TRUST,
    lambda t: "3 ways to copy x 0..1 preparing operations (10 pairs; thorough 49) of 12 x looked up before / after the copy or not x "
    "every sequence of 2 operations (12) on either registry (3 of 5 operations for some; thorough all), both registries compared "
    "with their own model on 8 types after every step; every chain of 3 (thorough 4) operations and copies on <=3 registries; all "
    "pairs of 4 changes to copies of the built-in registry; copies of registries with an empty side (5 kinds) then changed on either side",
)
