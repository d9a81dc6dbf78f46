from checks.common import *


def check(ch, strs, types, values):
    want = tuple(abi.canon(t, v) for t, v in zip(types, values))
    ch.op()
    data = encode(strs, values)
    for what, arg, kw in (
        ("strict", data, {}),
        ("strict", data, {"strict": True}),
        ("non-strict", data, {"strict": False}),
        ("bytearray", bytearray(data), {}),
    ):
        ch.op()
        got = decode(strs, arg, **kw)
        if not abi.same_seq(types, got, want):
            raise Violation(
                f"{what} decode({short(strs)}, encode(..., {short(values)})) = {short(got, 1500)}"
                f"\nexpected {short(want, 1500)}",
                f"import eth_abi; t, v = {strs!r}, {values!r}; print(eth_abi.decode(t, eth_abi.encode(t, v)))"
                if len(repr(values)) < 3000
                else None,
            )
    core.note(len(data) // 32 if len(data) < 2000 else "long")
    if len(data) <= 96:
        return {"types": strs, "values": repr(values), "decoded": repr(want)}


CHECK = core.Check(
    "C02",
    make_families(check),
    gen.space_jobs,
    TRUST,
    lambda tier: gen.BOUNDS[tier] + "; each value decoded strict (default and explicit), non-strict and from a bytearray",
)
