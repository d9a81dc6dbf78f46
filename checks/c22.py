import itertools

from checks.common import *
from mc import vals
from eth_abi import decoding as dec, encoding as enc
from eth_abi.decoding import ContextFramesBytesIO

D = gen.D
ParseError = X.ParseError

# class -> (kind, packed?); a class is built for the types of its kind and for no others
ENCODERS = {
    "BooleanEncoder": ("bool", False), "PackedBooleanEncoder": ("bool", True),
    "UnsignedIntegerEncoder": ("uint", False), "PackedUnsignedIntegerEncoder": ("uint", True),
    "SignedIntegerEncoder": ("int", False), "PackedSignedIntegerEncoder": ("int", True),
    "UnsignedFixedEncoder": ("ufixed", False), "PackedUnsignedFixedEncoder": ("ufixed", True),
    "SignedFixedEncoder": ("fixed", False), "PackedSignedFixedEncoder": ("fixed", True),
    "AddressEncoder": ("address", False), "PackedAddressEncoder": ("address", True),
    "BytesEncoder": ("bytesM", False), "PackedBytesEncoder": ("bytesM", True),
    "ByteStringEncoder": ("bytes", False), "PackedByteStringEncoder": ("bytes", True),
    "TextStringEncoder": ("string", False), "PackedTextStringEncoder": ("string", True),
    "BaseArrayEncoder": ("arr", False), "PackedArrayEncoder": ("arr", True),
    "TupleEncoder": ("tup", False),
}
DECODERS = {
    "BooleanDecoder": "bool", "UnsignedIntegerDecoder": "uint", "SignedIntegerDecoder": "int", "UnsignedFixedDecoder": "ufixed",
    "SignedFixedDecoder": "fixed", "AddressDecoder": "address", "BytesDecoder": "bytesM", "ByteStringDecoder": "bytes",
    "StringDecoder": "string", "BaseArrayDecoder": "arr", "TupleDecoder": "tup",
}
REFUSED = (ValueError, ParseError)
BYTES = ("bytes", "bytesM")


def build(cls, s, reg):
    try:
        return ("value", cls.from_type_str(s, reg))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raise", e)


def same_kind(kind, t):
    """None: not stated (bytes and bytesM share a base; an array of tuples is a tuple type)."""
    if t[0] == kind:
        return True
    if t[0] in BYTES and kind in BYTES:
        return None
    if kind == "tup" and t[0] == "arr":
        return None
    return False


def use_encoder(ch, coder, name, s, t, v, packed):
    want = abi.packed(t, v) if packed else abi.enc(t, v)
    ch.op(3)
    try:
        got = coder(v)
        again = coder.encode(v)
        coder.validate_value(v)
    except core.ExecTimeout:
        raise
    except Exception as e:
        raise Violation(f"{name} for {s!r}: encoding {short(v)} raises {short(e)}")
    if got != want or again != want:
        raise Violation(f"{name} for {s!r}: {short(v)} is encoded as {short(bytes(got).hex(), 600)}, expected {want.hex()[:600]}")
    dyn = abi.is_dyn(t) and not packed
    if bool(coder.is_dynamic) is not dyn:
        raise Violation(f"{name} for {s!r}: is_dynamic is {coder.is_dynamic}")


def wrong(ch, job):
    """A coder on its own refuses what encode() refuses, in every way to use it."""
    s, t, name = ch.pick(job, free=True)
    packed = ENCODERS[name][1]
    cls = getattr(enc, name)
    coder = cls.from_type_str(s, registry_packed if packed else registry)
    i = ch.index(vals.NWILD, free=True)
    if t[0] in ("arr", "tup"):
        k = ch.index(3, free=True)
        good = gen.default(t, 1)
        mk = [lambda: vals.get(i), lambda: [*good[:-1], vals.get(i)], lambda: [*good, vals.get(i)]][k]
    else:
        mk = lambda: vals.get(i)
    ok = (is_encodable_packed if packed else is_encodable)(s, mk())
    core.note(f"wrong {ok}")
    if ok is not False:
        return None
    for way in (coder, coder.encode, coder.validate_value):
        ch.op()
        try:
            got = way(mk())
        except core.ExecTimeout:
            raise
        except EncodingError:
            continue
        except Exception as e:
            got = e
        raise Violation(f"{name} for {s!r}: {getattr(way, '__name__', 'call')} of {short(mk())} gives {short(got)}, expected EncodingError")
    return name, s, i


def use_decoder(ch, coder, name, s, t, v, front):
    """Alone on a stream, in front of and behind other data, possibly inside a frame."""
    data = abi.enc(t, v)
    frame = front
    st = ContextFramesBytesIO(b"\xa5" * front + data + b"\xc3" * 40)
    if front:
        st.push_frame(frame)
    ch.op()
    try:
        got = coder(st)
    except core.ExecTimeout:
        raise
    except Exception as e:
        raise Violation(f"{name} for {s!r}: decoding {data.hex()[:600]} at position {front} raises {short(e)}")
    if not abi.same(t, got, abi.canon(t, v)):
        raise Violation(f"{name} for {s!r}: {data.hex()[:600]} at position {front} is decoded as {short(got)}, expected {short(abi.canon(t, v))}")
    if not abi.is_dyn(t) and st.tell() != front + len(data):
        raise Violation(f"{name} for {s!r}: the cursor is at {st.tell()} after decoding {len(data)} bytes at {front}")
    if front:
        st.pop_frame()
        if st.tell() != 0:
            raise Violation(f"{name} for {s!r}: frames are left open or closed too often")
    if bool(coder.is_dynamic) is not abi.is_dyn(t):
        raise Violation(f"{name} for {s!r}: is_dynamic is {coder.is_dynamic}")


def types(ch, job):
    """Every coder class with every type string."""
    s, t = ch.pick(job, free=True)
    name = ch.pick(list(ENCODERS) + list(DECODERS), free=True)
    isenc = name in ENCODERS
    kind, packed = ENCODERS[name] if isenc else (DECODERS[name], False)
    cls = getattr(enc if isenc else dec, name)
    reg = registry_packed if packed else registry
    want = same_kind(kind, t)
    if want is None:
        core.note("not stated")
        return None
    ch.op()
    r = build(cls, s, reg)
    if not want:
        core.note("refused")
        if r[0] == "value" or not isinstance(r[1], REFUSED):
            raise Violation(f"{name}.from_type_str({s!r}) -> {short(r[1])}, expected ValueError or ParseError")
        return None
    core.note("built " + kind)
    if r[0] != "value":
        raise Violation(f"{name}.from_type_str({s!r}) raises {short(r[1])}")
    b = gen.Build(ch, lens=(2,), vary=False)
    v = b.value(t)
    if t[0] not in ("arr", "tup"):
        v = ch.pick([v] + list(gen.specials(t)), free=True)
    if isenc:
        use_encoder(ch, r[1], name, s, t, v, packed)
    else:
        use_decoder(ch, r[1], name, s, t, v, ch.pick((0, 32, 5), free=True))
    return name, s, short(v, 100)


NONTYPES = (
    "", " ", "uint7", "uint0", "uint257", "uint264", "int9", "bytes0", "bytes33", "fixed8", "ufixed128", "fixed7x1", "fixed8x0", "fixed8x81", "ufixed264x1",
    "bool8", "address20", "string8", "foo", "foo8", "foo[]", "(foo)", "uint8[", "uint8]", "()", "(uint8", "uint8,", "uint08", "uint8 ", "[]", "uint7[]",
    "(uint8,int7)", "fixed128x18x2", "8", "uint-8", "bytes32x1", "int8x8", "bool[", "byte2", "function24", "fixed8[]", "(bytes0)[]", "((),uint8)", "hash32",
)


def nontypes(ch, job):
    """No class is built for a string that is not a type."""
    name = job
    isenc = name in ENCODERS
    kind, packed = ENCODERS[name] if isenc else (DECODERS[name], False)
    s = ch.pick(NONTYPES, free=True)
    ch.op()
    r = build(getattr(enc if isenc else dec, name), s, registry_packed if packed else registry)
    core.note("nontype")
    if r[0] == "value" or not isinstance(r[1], REFUSED):
        raise Violation(f"{name}.from_type_str({s!r}) -> {short(r[1])}, expected ValueError or ParseError")
    return name, s


# ------------------------------------------------------------------ direct construction
NUMERIC = {
    "UnsignedInteger": ("uint",), "SignedInteger": ("int",), "Bytes": ("bytesM",), "UnsignedFixed": ("ufixed",), "SignedFixed": ("fixed",),
    "Boolean": ("bool",), "Address": ("address",),
}
OWN = {"bool": 8, "address": 160}  # these have one bit size


def expected(kind, bits, size, places, v):
    """The value v of width bits in size bytes."""
    if kind == "bytesM":
        return v + bytes(size - len(v))
    if kind == "address":
        v = int(v, 16)
    n = abi.scaled(v, places) if kind in ("fixed", "ufixed") else v
    return (n % (1 << 8 * size)).to_bytes(size, "big")


def sample(kind, bits, places):
    if kind == "bool":
        return [True, False], [2, 0, 1, None]
    if kind == "address":
        return ["0x" + "%040x" % n for n in (0, 1, 2**160 - 1, 0xABCDEF << 130)], ["0x" + "00" * 21, "0x" + "00" * 19, 0, b"a" * 19]
    signed = kind in ("int", "fixed")
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if kind == "bytesM":
        m = bits // 8
        return [b"\xff" * m, b"a" * m, bytes(m), b"", b"ab"[:m]], [b"a" * (m + 1), b"\0" * (m + 1)]
    ins = sorted({lo, hi, 0, 1, hi // 2, lo // 3, max(lo, -1)})
    outs = [lo - 1, hi + 1]
    if kind in ("fixed", "ufixed"):
        return [abi.unscaled(n, places) for n in ins], [abi.unscaled(n, places) for n in outs]
    return ins, outs


def config(ch, job):
    """Sizes given directly: refused exactly when they do not fit together; otherwise the coder
    works with those sizes."""
    name, bits = job
    (kind,) = NUMERIC[name]
    size = ch.pick(range(0, 36), free=True)
    kw = dict(data_byte_size=size)
    if kind not in OWN:
        kw["value_bit_size"] = bits
    if kind in ("fixed", "ufixed"):
        kw["frac_places"] = ch.pick((1, 80), free=True)
    ok = bits % 8 == 0 and bits <= 8 * size
    for mod, suf in ((enc, "Encoder"), (dec, "Decoder")):
        cls = getattr(mod, name + suf)
        ch.op()
        try:
            c = cls(**kw)
        except ValueError as e:
            if ok:
                raise Violation(f"{name}{suf}({kw}) is refused: {short(e)}")
            core.note("config refused")
            continue
        except core.ExecTimeout:
            raise
        except Exception as e:
            raise Violation(f"{name}{suf}({kw}) raises {short(e)}")
        if not ok:
            raise Violation(f"{name}{suf}({kw}) is accepted")
        core.note("config accepted")
        if not bits:
            continue
        places = kw.get("frac_places", 0)
        ins, outs = sample(kind, bits, places)
        for v in ins:
            want = expected(kind, bits, size, places, v)
            ch.op()
            if mod is enc:
                got = c(v)
                if got != want:
                    raise Violation(f"{name}{suf}({kw})({v!r}) -> {got.hex()}, expected {want.hex()}")
            else:
                st = ContextFramesBytesIO(want + b"\x77" * 3)
                got = c(st)
                canon = v + bytes(bits // 8 - len(v)) if kind == "bytesM" else v
                if got != canon or st.tell() != size:
                    raise Violation(f"{name}{suf}({kw}) decodes {want.hex()} as {got!r} up to {st.tell()}, expected {canon!r}")
                if size:
                    short_st = ContextFramesBytesIO(want[:-1])
                    try:
                        got = c(short_st)
                    except DecodingError:
                        pass
                    else:
                        raise Violation(f"{name}{suf}({kw}) decodes only {size - 1} bytes as {got!r}")
        if mod is enc:
            for v in outs:
                ch.op()
                try:
                    got = c(v)
                except EncodingError:
                    continue
                raise Violation(f"{name}{suf}({kw})({v!r}) -> {got.hex()}, but it does not fit {bits} bits")
        elif size * 8 > bits:
            # every padding bit set on its own is refused
            base = expected(kind, bits, size, places, ins[0])
            pad = range(0, 8 * size - bits) if kind == "bytesM" else range(bits, 8 * size)
            for i in pad:
                w = (int.from_bytes(base, "big") ^ (1 << i)).to_bytes(size, "big")
                ch.op()
                try:
                    got = c(ContextFramesBytesIO(w))
                except DecodingError:
                    continue
                raise Violation(f"{name}{suf}({kw}) decodes {w.hex()} as {got!r} in spite of its padding")
    return name, kw


def places(ch, job):
    """Fractional places 1..80 and nothing else."""
    name, bits = job
    n = ch.pick(range(-3, 90), free=True)
    for mod, suf in ((enc, "Encoder"), (dec, "Decoder")):
        ch.op()
        ok = 1 <= n <= 80
        try:
            getattr(mod, name + suf)(value_bit_size=bits, frac_places=n)
        except ValueError:
            if ok:
                raise Violation(f"{name}{suf} refuses frac_places={n}")
            continue
        if not ok:
            raise Violation(f"{name}{suf} accepts frac_places={n}")
    core.note("places")
    return name, bits, n


def names_near(known):
    """Names that are no settings: one edit away from one, differing in case, private, short."""
    base = {"value_bit_size", "data_byte_size", "is_big_endian", "frac_places", "array_size", "is_dynamic", "strict", *known}
    out = {"nosuch", "places", "size", "Strict", "bit_size", "byte_size", "padding"}
    for n in base:
        out |= {n[:i] + n[i + 1 :] for i in range(len(n))} | {n[:i] + n[i + 1] + n[i] + n[i + 2 :] for i in range(len(n) - 1)}
        out |= {n.upper(), n.title(), n.replace("_", ""), n + "s", "x" + n} | {p + n + q for p in ("", "_", "__") for q in ("", "_", "__")}
    letters = "_aAx1"
    for k in (1, 2, 3):
        out |= {"".join(c) for c in itertools.product(letters, repeat=k)}
    return sorted(x for x in out if x.isidentifier() and x not in base)


def settings(ch, job):
    """Unknown settings and missing ones."""
    name = job
    isenc = name in ENCODERS
    mod = enc if isenc else dec
    cls = getattr(mod, name)
    kind = ENCODERS[name][0] if isenc else DECODERS[name]
    full = {
        "uint": dict(value_bit_size=8), "int": dict(value_bit_size=8), "ufixed": dict(value_bit_size=8, frac_places=1),
        "fixed": dict(value_bit_size=8, frac_places=1), "bytesM": dict(value_bit_size=8),
        "tup": {"encoders" if isenc else "decoders": ()}, "arr": {"item_encoder" if isenc else "item_decoder": lambda v: b""},
    }.get(kind, {})
    if name in ("BaseArrayEncoder", "BaseArrayDecoder"):
        names = ("SizedArray", "DynamicArray")
        cls = getattr(mod, ch.pick(names, free=True) + ("Encoder" if isenc else "Decoder"))
        if cls.__name__.startswith("Sized"):
            full = dict(full, array_size=2)
    ch.op(2)
    cls(**full)
    for k in full:
        if k == "array_size" and not isenc:
            continue  # the decoder does not check it
        rest = {a: b for a, b in full.items() if a != k}
        for kw in (rest, dict(rest, **{k: None})):
            try:
                cls(**kw)
            except (ValueError, TypeError, AttributeError):
                continue
            raise Violation(f"{cls.__name__}({kw}) is built without {k}")
    if kind in ("bool", "uint", "int", "fixed", "ufixed", "address", "bytesM"):
        need = ("value_bit_size", "data_byte_size", "is_big_endian", "encode_fn" if isenc else "decoder_fn")
        if isenc and kind in ("uint", "int"):
            need += ("bounds_fn", "type_check_fn")
        for k in need:
            ch.op()
            try:
                cls(**dict(full, **{k: None}))
            except (ValueError, TypeError, AttributeError):
                continue
            raise Violation(f"{cls.__name__} is built with {k}=None")
    for k in names_near(tuple(full)):
        if hasattr(cls, k):
            continue
        ch.op()
        for x in (1, None):
            try:
                cls(**dict(full, **{k: x}))
            except (AttributeError, TypeError):
                continue
            raise Violation(f"{cls.__name__} accepts the unknown setting {k}")
    core.note("settings")
    return cls.__name__


COMPOUND = [t for t in gen.all_trees(4) if t[0] in ("arr", "tup")]


def jobs(tier):
    b = gen.basics()
    if tier == "thorough":
        b = b + [(abi.tstr(t), t) for t in gen.FIXEDS]
    b = b + [(n, t) for n, t in abi.ALIASES.items()]
    out = [("types", tuple(b[i : i + 4]), 0, None) for i in range(0, len(b), 4)]
    c = [(abi.tstr(t), t) for t in COMPOUND]
    out += [("types", tuple(c[i : i + 8]), 0, None) for i in range(0, len(c), 8)]
    w = [(u, t, n) for u, t in gen.basics() + c for n in ENCODERS if same_kind(ENCODERS[n][0], t)]
    out += [("wrong", tuple(w[i::96]), 0, None) for i in range(96)]
    out += [("nontypes", n, 0, None) for n in list(ENCODERS) + list(DECODERS)]
    bits = range(0, 273)
    out += [("config", (n, k), 0, None) for n in NUMERIC for k in ([OWN[NUMERIC[n][0]]] if NUMERIC[n][0] in OWN else bits)]
    out += [("places", (n, k), 0, None) for n in ("UnsignedFixed", "SignedFixed") for k in range(8, 257, 8)]
    out += [("settings", n, 0, None) for n in list(ENCODERS) + list(DECODERS)]
    return out


CHECK = core.Check(
    "C22",
    {"types": types, "wrong": wrong, "nontypes": nontypes, "config": config, "places": places, "settings": settings},
    jobs,
    TRUST,
    lambda t: f"{len(ENCODERS)} encoder and {len(DECODERS)} decoder classes x every basic type (quick: 60 fixed types, thorough all), alias and "
    f"every compound type of <=4 nodes ({len(COMPOUND)}), with boundary values, at 3 stream positions, and with {vals.NWILD} odd objects, alone and as an item, that encode() refuses; {len(NONTYPES)} strings that are no "
    "types; bit sizes 0..272 x data sizes 0..35 for 7 pairs of classes with boundary values, short data and every padding bit; fractional "
    "places -3..89 x 32 bit sizes; missing settings and some 300 names of unknown settings of every class",
)
