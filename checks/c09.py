from checks.decoding import *
from eth_abi import decoding as dmod, encoding as emod
from eth_abi.codec import ABICodec
from eth_abi.registry import BaseEquals

NESTED = "C09-nested"


def lax_check(types, data, got, strs, strict_got=None):
    """Judge a non-strict result."""
    want, d = model(types, data, pad=False)
    if want[0] == "bad":
        core.note("rejected")
        if got[0] != "raise":
            raise Violation(show(strs, data, got, want, strict=False), py("decode", strs, data, strict=False))
        return
    if got[0] == "value":
        core.note("relaxed" if d.padding_fault else "same")
        if not abi.same_seq(types, got[1], want[1]):
            raise Violation(show(strs, data, got, want, strict=False), py("decode", strs, data, strict=False))
        return
    nested, _ = model(types, data, pad="nested")
    if nested[0] == "bad" and core.is_known(NESTED):
        core.note("nested rejected")
        core.known(NESTED, f"types {strs}")
        return
    raise Violation(show(strs, data, got, want, strict=False), py("decode", strs, data, strict=False))


def strict_check(types, data, got, strs):
    want, _ = model(types, data)
    ok = (
        got[0] == "value" and abi.same_seq(types, got[1], want[1])
        if want[0] == "value"
        else got[0] == "raise"
    )
    if not ok:
        raise Violation(show(strs, data, got, want, strict=True), py("decode", strs, data))


def check(ch, strs, types, data):
    ch.op(3)
    lax = real(strs, data, strict=False)
    lax_check(types, data, lax, strs)
    # the call before must not have changed what strict mode does, nor the other way round
    strict = real(strs, data)
    strict_check(types, data, strict, strs)
    if strict[0] == "value" and (lax[0] != "value" or repr(lax[1]) != repr(strict[1])):
        raise Violation("strict and non-strict differ: " + show(strs, data, lax, strict, strict=False))
    again = real(strs, data, strict=False)
    lax_check(types, data, again, strs)
    return {"types": strs, "payload": data.hex()[:512], "nonstrict": repr(lax[1])[:200]}


# ------------------------------------------------------------------ histories of mixed calls
class PlainBlob(dmod.ByteStringDecoder):
    """A user's decoder class for a new dynamic type."""

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


class BlobEncoder(emod.ByteStringEncoder):
    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


def codec_builtin():
    return eth_abi, "bytes"


def codec_default():
    return eth_abi.abi.default_codec, "string"


def codec_copy():
    return ABICodec(registry.copy()), "bytes"


def codec_instance():
    r = registry.copy()
    r.register("blob", emod.ByteStringEncoder(), dmod.ByteStringDecoder())
    return ABICodec(r), "blob"


def codec_class():
    r = registry.copy()
    r.register("blob", BlobEncoder, PlainBlob)
    return ABICodec(r), "blob"


def codec_replaced():
    r = registry.copy()
    r.unregister_decoder("bytes")
    r.register_decoder(BaseEquals("bytes", with_sub=False), dmod.ByteStringDecoder(), label="bytes")
    return ABICodec(r), "bytes"


def codec_string_instance():
    r = registry.copy()
    r.unregister_decoder("string")
    r.register_decoder(BaseEquals("string"), dmod.StringDecoder(handle_string_errors="replace"), label="string")
    return ABICodec(r), "string"


CODECS = [codec_builtin, codec_default, codec_copy, codec_instance, codec_class, codec_replaced, codec_string_instance]
W = abi.word
PAY = {
    "good": W(0x20) + W(3) + b"abc" + bytes(29),
    "cut": W(0x20) + W(3) + b"abc",
    "dirty": W(0x20) + W(3) + b"abc" + bytes(28) + b"\x01",
    "short": W(0x20) + W(3) + b"ab",
}
PAYN = {
    "good": W(0x20) + W(1) + W(0x20) + W(3) + b"abc" + bytes(29),
    "dirty": W(0x20) + W(1) + W(0x20) + W(3) + b"abc" + bytes(28) + b"\x01",
}
OPS = [(p, s, "") for p in ("dirty", "cut", "good", "short") for s in (False, True)]
OPS += [(p, s, "[]") for p in ("dirty", "good") for s in (False, True)]


def history(ch, job):
    """Every sequence of strict / non-strict decodes on two codecs; each call is judged as if
    it were alone."""
    ia, ib, n = job
    codecs = [CODECS[ia](), CODECS[ib]()]
    log = []
    for _ in range(n):
        which = ch.pick((0, 1), free=True)
        p, strict, suffix = ch.pick(OPS, free=True)
        codec, name = codecs[which]
        data = (PAYN if suffix else PAY)[p]
        base = ("string",) if name == "string" else ("bytes",)
        types = [("arr", base, None)] if suffix else [base]
        strs = [name + suffix]
        ch.op()
        try:
            got = ("value", codec.decode(strs, data, strict=strict))
        except core.ExecTimeout:
            raise
        except Exception as e:
            got = ("raise", e)
        log.append((CODECS[(ia, ib)[which]].__name__, strs, p, "strict" if strict else "non-strict"))
        try:
            if strict:
                strict_check(types, data, got, strs)
            else:
                lax_check(types, data, got, strs)
        except Violation as v:
            raise Violation(f"after {log[:-1]}: {log[-1]}: {v}")
    return log


SPACES = ("strs", "muts", "words", "heads", "deep", "long")


def jobs(tier):
    out = pay.space_jobs(tier, SPACES)
    n = len(CODECS)
    depth = {"quick": 2, "thorough": 3}[tier]
    for a in range(n):
        for b in range(n):
            out.append(("history", (a, b, depth), 0, None))
    if tier == "quick":
        out += [("history", (a, a, 3), 0, None) for a in (0, 3, 4, 5)]
    return out


FAMS = families(check, SPACES)
FAMS["history"] = history
CHECK = core.Check(
    "C09",
    FAMS,
    jobs,
    TRUST,
    lambda t: pay.BOUNDS[t] + " (spaces strs, muts, words, heads, deep, long), each payload decoded non-strict, strict, "
    "non-strict; history: every sequence of 2 (3 for some codecs; thorough 3 for all) decodes out of 12 on "
    "every pair of 7 codecs (built-in, copy, registered instance, class, replaced)",
)
