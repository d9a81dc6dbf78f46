import tracemalloc

from checks.decoding import *


def judge(strs, types, data, strict):
    got = real(strs, data, strict=strict)
    if got[0] == "raise":
        core.note(type(got[1]).__name__)
        if not allowed_error(types, got[1]):
            raise Violation(show(strs, data, got, strict=strict), py("decode", strs, data, strict=strict))
    else:
        core.note("returned")


def check(ch, strs, types, data):
    for strict in (True, False):
        ch.op()
        judge(strs, types, data, strict)
    return {"types": strs, "payload": data.hex()[:512]}


def alloc(ch, job):
    """Claimed sizes: memory must follow the actual payload, not the claim."""
    strs, types, data = pay.claims_make(ch, job)
    strs = list(strs)
    for strict in (True, False):
        # first use of a type builds its coders; that is not the decoder's allocation
        judge(strs, types, b"", strict)
        tracemalloc.start()
        try:
            ch.op()
            judge(strs, types, data, strict)
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        if peak > ALLOC_BASE + 200 * len(data):
            raise Violation(
                show(strs, data, real(strs, data, strict=strict))
                + f"\npeak allocation {peak} bytes for a payload of {len(data)} bytes"
            )


ALLOC_BASE = 1 << 20
FAMS = families(check)
FAMS["alloc"] = alloc
CHECK = core.Check(
    "C04",
    FAMS,
    lambda tier: pay.space_jobs(tier) + [("alloc", j, 0, None) for j in pay.claims_jobs(tier)],
    TRUST + ["memory is measured with tracemalloc (Python allocations) under a 3 GB address-space limit"],
    lambda t: pay.BOUNDS[t] + "; each payload in strict and non-strict mode; alloc: the claims space with "
    "peak Python allocation <= 1 MiB + 200 x payload",
)
