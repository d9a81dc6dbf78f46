from checks.common import *


def check(ch, strs, types, values):
    want = b"".join(abi.packed(t, v) for t, v in zip(types, values))
    ch.op()
    got = encode_packed(strs, values)
    core.note(len(want) if len(want) < 200 else "long")
    if not isinstance(got, bytes) or got != want:
        raise Violation(
            f"encode_packed({short(strs)}, {short(values)}) = {short(got if not isinstance(got, bytes) else got.hex(), 1500)}"
            f"\nspecification: {short(want.hex(), 1500)}",
            py("packed.encode_packed", strs, values),
        )
    if len(want) <= 96:
        return {"types": strs, "values": repr(values), "packed": want.hex()}


CHECK = core.Check(
    "C10",
    make_families(check),
    gen.space_jobs,
    TRUST,
    lambda tier: gen.BOUNDS[tier],
)
