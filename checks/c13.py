import itertools

from checks.common import *
from mc import regs
from mc.regs import CORE, OPS

PROBE_SETS = {"all": regs.PROBES, "few": ("foo", "(foo,bar)", "bar[2][]")}


def sequences(ch, job):
    """Every operation sequence; between operations the registry is looked up or left alone, so
    that both warm and cold lookups precede every operation."""
    alphabet, prefix, depth, masks = job
    ops = {"all": OPS, "core": CORE}[alphabet]
    reg, m = regs.base_registry()
    log = []
    if masks and ch.pick((1, 0), free=True):
        look(ch, reg, m, log, "few")
    for i in range(depth):
        op = ops[prefix[i]] if i < len(prefix) else ch.pick(ops, free=True)
        ch.op()
        before = m.copy()
        got, want = regs.apply(op, reg, m)
        log.append(op.name)
        if got is not want:
            raise Violation(f"after {log[:-1]}: {op.name} {'raised ' + got.__name__ if got else 'succeeded'}, expected {want}")
        core.note(f"{op.name.split('(')[0]} {'refused' if want else 'done'}")
        if i == depth - 1:
            look(ch, reg, m, log, "all")
        elif not masks or ch.pick((1, 0), free=True):
            look(ch, reg, m, log, "few")
    return log


def look(ch, reg, m, log, which):
    probes = PROBE_SETS[which]
    ch.op(4 * len(probes))
    diff = regs.compare(reg, m, probes)
    log.append("lookups")
    if diff:
        raise Violation(f"after {log}: {diff}")


# ------------------------------------------------------------------ changes to the built-in registry
from eth_abi import encoding, decoding  # noqa: E402
from eth_abi.codec import ABICodec  # noqa: E402
from eth_abi.registry import BaseEquals, Equals  # noqa: E402

E7, D7 = type("E7", (regs.NumEncoder,), {"tag": 7}), type("D7", (regs.NumDecoder,), {"tag": 7})

BUILTIN_OPS = (
    ("unregister uint", lambda r: r.unregister("uint")),
    ("register BaseEquals uint", lambda r: r.register(BaseEquals("uint"), E7, D7, label="uint")),
    ("register 'uint8'", lambda r: r.register("uint8", E7, D7)),
    ("unregister 'uint8'", lambda r: r.unregister("uint8")),
    ("restore uint", lambda r: r.register(BaseEquals("uint"), encoding.UnsignedIntegerEncoder, decoding.UnsignedIntegerDecoder, label="uint")),
    ("unregister_decoder by lookup", lambda r: r.unregister_decoder(BaseEquals("uint"))),
    ("unregister_encoder by lookup", lambda r: r.unregister_encoder(BaseEquals("uint"))),
    ("unregister_encoder BaseEquals(uint, with_sub)", lambda r: r.unregister_encoder(BaseEquals("uint", with_sub=True))),
)


class BModel:
    """uint: None / "std" / 7 for each half; and whether 'uint8' is registered."""

    def __init__(self):
        self.e = {"uint": "std"}
        self.d = {"uint": "std"}

    def run(self, i):
        e, d = self.e, self.d
        if i == 0:
            if "uint" not in e:
                return KeyError
            del e["uint"]
            if "uint" not in d:
                return KeyError
            del d["uint"]
        elif i in (1, 4):
            tag = 7 if i == 1 else "std"
            if "uint" in e:
                return ValueError
            e["uint"] = tag
            if "uint" in d:
                return ValueError
            d["uint"] = tag
        elif i == 2:
            if "uint8" in e:
                return ValueError
            e["uint8"] = d["uint8"] = 7
        elif i == 3:
            if "uint8" not in e:
                return KeyError
            del e["uint8"], d["uint8"]
        elif i == 5:
            if "uint" not in d:
                return KeyError
            del d["uint"]
        elif i == 6:
            if "uint" not in e:
                return KeyError
            del e["uint"]
        else:
            return KeyError
        return None

    @staticmethod
    def pick(x, s):
        hits = [v for k, v in x.items() if k == s or k == "uint"]
        return "multiple" if len(hits) > 1 else hits[0] if hits else "none"


def bcompare(reg, m):
    codec = regs.codec_of(reg)
    W = abi.word
    for leaf in ("uint8", "uint16"):
        for fmt, types in (("%s", None), ("%s[]", None), ("(bytes,%s)", None), ("(%s,bool)[1]", None)):
            s = fmt % leaf
            how = m.pick(m.e, leaf)
            n = 5 if how != 7 else 7005
            plain = {
                "%s": lambda n: W(n),
                "%s[]": lambda n: W(0x20) + W(1) + W(n),
                "(bytes,%s)": lambda n: W(0x20) + W(0x40) + W(n) + W(0),
                "(%s,bool)[1]": lambda n: W(n) + W(1),
            }[fmt]
            v = {"%s": 5, "%s[]": [5], "(bytes,%s)": (b"", 5), "(%s,bool)[1]": [(5, True)]}[fmt]
            try:
                got = codec.encode([s], [v])
            except Exception as e:
                got = regs.classify(e)
            want = how if isinstance(how, str) and how != "std" else plain(n)
            if got != want:
                return f"encode([{s!r}], [{v!r}]) gives {short(got)}, expected {short(want)}"
            how = m.pick(m.d, leaf)
            x = 5 if how != 7 else ("D7", 5)
            want = {"%s": x, "%s[]": (x,), "(bytes,%s)": (b"", x), "(%s,bool)[1]": ((x, True),)}[fmt]
            if isinstance(how, str) and how != "std":
                want = how
            else:
                want = (want,)
            for strict in (True, False):
                try:
                    got = codec.decode([s], plain(5), strict=strict)
                except Exception as e:
                    got = regs.classify(e)
                if got != want:
                    return f"decode([{s!r}], ...) gives {short(got)}, expected {short(want)}"
    return None


def builtin(ch, job):
    first, depth = job
    reg = registry.copy()
    m = BModel()
    log = []
    for i in range(depth):
        k = first if i == 0 else ch.index(len(BUILTIN_OPS), free=True)
        name, do = BUILTIN_OPS[k]
        ch.op()
        want = m.run(k)
        try:
            do(reg)
            got = None
        except (ValueError, KeyError) as e:
            got = KeyError if isinstance(e, KeyError) else ValueError
        log.append(name)
        if got is not want:
            raise Violation(f"after {log[:-1]}: {name} gave {got}, expected {want}")
        if ch.pick((1, 0), free=True) or i == depth - 1:
            ch.op(24)
            diff = bcompare(reg, m)
            log.append("lookups")
            if diff:
                raise Violation(f"after {log}: {diff}")
    core.note("builtin")
    return log


# ------------------------------------------------------------------ labels given with a string lookup
def labelled(ch, job):
    """register("foo", ..., label="L"): documented as labelled "L" (known finding: the label is
    ignored and the type string is the label)."""
    reg, m = regs.base_registry()
    e, d = regs.CODERS[job]
    reg.register("foo", e, d, label="L")
    ch.op(2)
    try:
        reg.unregister("L")
        ok = True
    except KeyError:
        ok = False
    if not ok:
        reg.unregister("foo")
        if not core.is_known("C13-label-ignored"):
            raise Violation('register("foo", e, d, label="L"); unregister("L") raises KeyError')
        core.known("C13-label-ignored", 'register("foo", e, d, label="L"); unregister("L")')
        core.note("label ignored")
    else:
        core.note("label used")
    try:
        reg.get_encoder("foo")
        raise Violation("still registered")
    except X.NoEntriesFound:
        pass
    reg.register("foo", e, d)
    return "labelled"


# ------------------------------------------------------------------ strategy registry
def strategies(ch, job):
    from hypothesis import strategies as st

    from eth_abi.tools._strategies import StrategyRegistry

    reg = StrategyRegistry()
    S = [st.just(i) for i in range(4)]
    entries = []
    log = []
    for i in range(job):
        k = ch.pick(range(10), free=True)
        adds = {
            0: ("=foo", S[0], None), 1: ("base foo", S[1], "L1"), 2: ("f", S[2], "L1"), 3: ("g", S[3], "foo"),
        }
        rems = {4: ("label", "foo"), 5: ("label", "L1"), 6: ("key", "base foo"), 7: ("key", "f"), 8: ("equals", "=foo"), 9: ("key", "g")}
        ch.op()
        try:
            if k in adds:
                key, s, label = adds[k]
                want = regs.m_add(entries, key, s, label)
                reg.register_strategy(regs.LOOKUPS[key][0](), s, **({} if label is None else {"label": label}))
            else:
                how, what = rems[k]
                want = regs.m_remove(entries, "label" if how == "label" else "key", what)
                reg.unregister_strategy(what if how == "label" else Equals(what[1:]) if how == "equals" else regs.LOOKUPS[what][0]())
            got = None
        except (ValueError, KeyError) as e:
            got = KeyError if isinstance(e, KeyError) else ValueError
        log.append(str(adds.get(k, rems.get(k))))
        if got is not want:
            raise Violation(f"strategy registry, after {log}: {got}, expected {want}")
        for s in ("foo", "bar", "baz", "foo8"):
            try:
                w = regs.m_find(entries, s)
            except regs.Lookup as e:
                w = e.kind
            try:
                g = reg.get_strategy(s)
            except Exception as e:
                g = regs.classify(e)
            if g is not w and not (isinstance(g, str) and g == w):
                raise Violation(f"strategy registry, after {log}: get_strategy({s!r}) gives {g}, expected {w}")
    core.note("strategies")
    return log


def invalid(ch, job):
    """Lookups and labels of a wrong kind are refused with TypeError and change nothing."""
    reg, m = regs.base_registry()
    OPS[0].do(reg), OPS[0].model(m)
    bad = ch.pick((5, None, b"foo", 1.5, ("foo",), ["foo"]), free=True)
    f = ch.pick(range(5), free=True)
    e, d = regs.CODERS[1]
    call = (
        lambda: reg.register(bad, e, d), lambda: reg.register_encoder(bad, e), lambda: reg.register_decoder(bad, d),
        lambda: reg.unregister_encoder(bad), lambda: reg.unregister_decoder(bad),
    )[f]
    ch.op()
    try:
        call()
    except TypeError:
        pass
    except Exception as ex:
        raise Violation(f"lookup {bad!r}: {short(ex)} instead of TypeError")
    else:
        raise Violation(f"lookup {bad!r} was accepted")
    diff = regs.compare(reg, m)
    if diff:
        raise Violation(f"after a refused lookup {bad!r}: {diff}")
    core.note("invalid lookup")


def jobs(tier):
    out = []
    d = {"quick": 3, "thorough": 4}[tier]
    n = range(len(OPS))
    for k in range(1, d + 1):
        plen = min(k, 2 if k > 2 else 1)
        for p in itertools.product(n, repeat=plen):
            out.append(("sequences", ("all", p, k, k <= 3), 0, None))
    d2 = {"quick": 4, "thorough": 5}[tier]
    for p in itertools.product(range(len(CORE)), repeat=2):
        out.append(("sequences", ("core", p, d2, False), 0, None))
    for k in range(len(BUILTIN_OPS)):
        out.append(("builtin", (k, {"quick": 3, "thorough": 4}[tier]), 0, None))
    out += [("labelled", i, 0, None) for i in (1, 2, 3)]
    out += [("strategies", k, 0, None) for k in range(1, {"quick": 4, "thorough": 5}[tier] + 1)]
    out.append(("invalid", 0, 0, None))
    return out


CHECK = core.Check(
    "C13",
    {"sequences": sequences, "builtin": builtin, "labelled": labelled, "strategies": strategies, "invalid": invalid},
    jobs,
    TRUST + ["register()/unregister() act on the encoders first, then on the decoders; no atomicity of the pair is claimed"],
    lambda t: {
        "quick": f"every sequence of <=3 of {len(OPS)} operations with every choice of looking up / not looking up in between, every "
        f"sequence of 4 of {len(CORE)} operations, 11 probe types each for encode, has_encoder, strict and non-strict decode; every "
        "sequence of 3 of 8 changes to the built-in uint registration; strategy registry: every sequence of <=4 of 10 operations",
        "thorough": "as quick with sequences of 4 (all operations), 5 (core operations), 4 (built-in), 5 (strategies)",
    }[t],
)
