from checks.common import *


def check(ch, strs, types, values):
    want = abi.enc_seq(types, values)
    ch.op()
    got = encode(strs, values)
    core.note(len(want) // 32 if len(want) < 2000 else "long")
    if not isinstance(got, bytes) or got != want:
        raise Violation(
            f"encode({short(strs)}, {short(values)}) = {short(got if not isinstance(got, bytes) else got.hex(), 1500)}"
            f"\nspecification: {short(want.hex(), 1500)}",
            py("encode", strs, values),
        )
    if ch.ops == 1 and len(want) <= 96:
        return {"types": strs, "values": repr(values), "encoding": want.hex()}


CHECK = core.Check(
    "C01",
    make_families(check),
    gen.space_jobs,
    TRUST,
    lambda tier: gen.BOUNDS[tier],
)
