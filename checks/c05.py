from eth_abi.codec import ABICodec
from eth_abi.decoding import BaseDecoder
from eth_abi.registry import registry

from checks.decoding import *


def check(ch, strs, types, data):
    want, d = model(types, data)
    ch.op()
    got = real(strs, data)
    if want[0] == "value":
        core.note("followed")
        ok = got[0] == "value" and abi.same_seq(types, got[1], want[1])
    else:
        core.note("rejected " + (type(got[1]).__name__ if got[0] == "raise" else "-"))
        ok = got[0] == "raise" and allowed_error(types, got[1])
    if not ok:
        raise Violation(show(strs, data, got, want), py("decode", strs, data))
    if want[0] == "value":
        lax, _ = model(types, data, pad=False)
        ch.op()
        got = real(strs, data, strict=False)
        if got[0] != "value" or not abi.same_seq(types, got[1], lax[1]):
            raise Violation(show(strs, data, got, lax, strict=False), py("decode", strs, data, strict=False))
    else:
        # a pointer fault is a fault in non-strict mode as well
        lax, _ = model(types, data, pad=False)
        ch.op()
        got = real(strs, data, strict=False)
        if lax[0] == "bad" and (got[0] == "value" or not allowed_error(types, got[1])):
            raise Violation(show(strs, data, got, lax, strict=False), py("decode", strs, data, strict=False))
    return {"types": strs, "payload": data.hex()[:512], "model": repr(want)[:200]}


# ---------------------------------------------------------------- registered dynamic decoders
# A custom dynamic decoder may read nothing at all, so only the pointer check stands between it
# and a pointer at the end of the payload.
class Rest:
    is_dynamic = True

    def __call__(self, stream):
        return stream.read()


class RestDecoder(BaseDecoder):
    is_dynamic = True

    def decode(self, stream):
        return stream.read()

    @classmethod
    def from_type_str(cls, type_str, registry):
        return cls()


CODECS = []
for _d in (Rest(), RestDecoder):
    _r = registry.copy()
    _r.register_decoder("rest", _d)
    CODECS.append(ABICodec(_r))

# (type list, words in front of the head the pointer lies in, words of that head before the
# pointer, words after it)
REST = (
    (["rest"], (), 0, 0),
    (["uint8", "rest"], (), 1, 0),
    (["rest", "uint8"], (), 0, 1),
    (["rest", "(uint8,uint8)"], (), 0, 2),
    (["uint8[2]", "rest", "bool"], (), 2, 1),
    (["rest[1]"], (0x20,), 0, 0),
    (["rest[2]"], (0x20,), 1, 0),
    (["rest[2]"], (0x20,), 0, -1),
    (["rest[]"], (0x20, 1), 0, 0),
    (["rest[]"], (0x20, 3), 2, 0),
    (["(rest)"], (0x20,), 0, 0),
    (["(uint8,rest)"], (0x20,), 1, 0),
    (["(rest,uint8[3])"], (0x20,), 0, 3),
    (["bool", "(uint8,rest)[1]"], (0, 0x40, 0x20), 1, 0),
    (["((uint8,rest))"], (0x20, 0x20), 1, 0),
    (["(rest)[]"], (0x20, 1, 0x20), 0, 0),
    (["rest[][1]"], (0x20, 0x20, 1), 0, 0),
)


def custom(ch, job):
    i, tail = job
    strs, front, before, after = REST[i]
    arr = strs[-1].startswith("rest[") and before
    other = abs(after)
    size = 32 * (before + 1 + other)
    base = 32 * len(front)
    n = base + size + tail
    off = ch.pick([x for x in range(0, n - base + 70)] + [1 << 32, 1 << 63, 1 << 64, pay.MAXW, pay.MAXW - base + 1], free=True)
    ok = size <= off < n - base
    # the other pointers of an array are good whenever there is a tail
    fill = size if arr or after < 0 else 0
    data = b"".join(abi.word(w) for w in front) + abi.word(fill) * before + abi.word(off) + abi.word(size if after < 0 else 0) * other
    data += bytes(j % 250 + 1 for j in range(tail))
    c = ch.pick(CODECS, free=True)
    kw = ch.pick(({}, {"strict": False}), free=True)
    ch.op()
    try:
        got = ("value", c.decode(strs, data, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        got = ("raise", e)
    if fill and not tail:
        ok = False
    if ok:
        v = got[1] if got[0] == "value" else None
        good = v is not None and data[base + off :] in _leaves(v)
    else:
        good = got[0] == "raise" and isinstance(got[1], DecodingError)
    core.note("custom followed" if ok else "custom rejected")
    if not good:
        raise Violation(show(strs, data, got, **kw) + f"\n(custom dynamic decoder 'rest' reads to the end; the pointer is {off}, its head ends at {size}, the payload at {n - base})")
    return {"types": strs, "pointer": off, "followed": ok}


def _leaves(v):
    if isinstance(v, tuple):
        return [y for x in v for y in _leaves(x)]
    return [v]


SPACES = ("heads", "arrptr", "words", "deep", "wide", "table")
CHECK = core.Check(
    "C05",
    {**families(check, SPACES), "custom": custom},
    lambda tier: pay.space_jobs(tier, SPACES)
    + [("custom", (i, t), 0, None) for i in range(len(REST)) for t in (0, 1, 31, 32, 33, 64)],
    TRUST,
    lambda t: pay.BOUNDS[t] + " (spaces heads, arrptr, words, deep, wide and table); custom: a registered dynamic decoder that reads to the end, "
    "17 positions x 6 tail lengths x every byte offset to beyond the end",
)
