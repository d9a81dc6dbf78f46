from checks.decoding import *

TAILS = (b"\x00", b"\x01", bytes(31), bytes(32), b"\xff" * 32, b"\xff" * 33, bytes(64) + b"\x20", "self")


def cuts_of(n, full):
    if n <= full:
        return list(range(n))
    out = set()
    for k in range(0, n + 1, 32):
        if k < 640 or k > n - 640 or k % 1024 == 0:
            out |= {k - 1, k, k + 1, k + 16}
    return sorted(c for c in out if 0 <= c < n)


def judge(ch, strs, types, values, full=700):
    data = encode(strs, values)
    want = tuple(abi.canon(t, v) for t, v in zip(types, values))
    for c in cuts_of(len(data), full):
        ch.op()
        got = real(strs, data[:c])
        if got[0] == "value" or not isinstance(got[1], DecodingError):
            raise Violation(
                f"first {c} of {len(data)} bytes of encode({short(strs)}, {short(values)}): " + show(strs, data[:c], got),
                py("decode", strs, data[:c]),
            )
    core.extra("cuts", len(cuts_of(len(data), full)))
    for tail in TAILS:
        tail = data if tail == "self" else tail
        for kw in ({}, {"strict": False}):
            ch.op()
            got = real(strs, data + tail, **kw)
            if got[0] != "value" or not abi.same_seq(types, got[1], want):
                raise Violation(
                    f"encode({short(strs)}, {short(values)}) with {len(tail)} bytes appended: "
                    + show(strs, data + tail, got, ("value", want), **kw),
                    py("decode", strs, data + tail, **kw),
                )
    core.note(len(data) // 32 if len(data) < 2000 else "long")
    if len(data) <= 128:
        return {"types": strs, "values": repr(values), "cuts": len(data), "tails": len(TAILS)}


def trees(ch, job):
    return judge(ch, *gen.trees_make(ch, job))


def leaves(ch, job):
    return judge(ch, *gen.leaves_make(ch, job))


def lengths(ch, job):
    return judge(ch, *gen.lengths_make(ch, job), full=0)


TAIL_CASES = [
    (["bytes"], [b""]), (["bytes"], [b"ab"]), (["string", "uint8"], ["", 0]), (["uint8[]"], [[]]), (["uint8[]"], [[1, 2]]),
    (["bytes[]"], [[b"", b""]]), (["bytes[2]"], [[b"x", b""]]), (["(uint8,bytes)[]"], [[(0, b"")]]), (["uint256"], [0]),
    (["bool", "bytes3"], [True, b"abc"]), (["((bytes),uint8[][])"], [((b"",), [[], [0]])]), (["string"], ["y" * 33]),
    (["fixed8x1", "address", "string[][]"], [gen.D("0.5"), "0x" + "00" * 20, [[""], []]]),
]
TAIL_FILL = (b"\x00", b"\xff", b"\x01", b"\x20", abi.word(0x20), abi.word(1), abi.word(0x40) + abi.word(0))
TAIL_LEN = list(range(0, 131)) + [k + d for k in (160, 256, 512, 1024, 2048, 4096, 8192, 65536) for d in (-1, 0, 1, 31, 32)]


def tails(ch, job):
    """Longer data behind the payload: every length to 130 and around powers of two, 7 fillings."""
    strs, values = TAIL_CASES[job]
    types = [abi.ptype(x) for x in strs]
    data = abi.enc_seq(types, values)
    want = tuple(abi.canon(t, v) for t, v in zip(types, values))
    fill = ch.pick(TAIL_FILL, free=True)
    n = ch.pick(TAIL_LEN, free=True)
    tail = (fill * (n // len(fill) + 1))[:n]
    for kw in ({}, {"strict": False}):
        ch.op()
        got = real(strs, data + tail, **kw)
        if got[0] != "value" or not abi.same_seq(types, got[1], want):
            raise Violation(
                f"encode({strs}, {values}) with {n} bytes {fill[-1:].hex()}.. appended: " + show(strs, data + tail, got, ("value", want), **kw),
                py("decode", strs, data + tail, **kw),
            )
    core.note("tail")
    return strs, n


def jobs(tier):
    out = [("tails", i, 0, None) for i in range(len(TAIL_CASES))]
    two, one, zero = {"quick": (2, 4, 5), "thorough": (3, 5, 6)}[tier]
    last = 0
    for size, bound, step in ((two, 2, 2), (one, 1, 4), (zero, 0, 40)):
        ts = [t for n in range(last + 1, size + 1) for t in gen.trees(n)]
        out += [("trees", tuple(ts[i : i + step]), bound, None) for i in range(0, len(ts), step)]
        last = size
    b = gen.basics()
    ctxs = gen.CTX
    for i in range(0, len(b), 4):
        out.append(("leaves", (tuple(b[i : i + 4]), "specials", ctxs), 0, None))
    for j in gen.lengths_jobs("quick"):
        # every fourth length in the quick tier: each one costs a decode per cut
        if tier == "quick":
            j = j[:-1] + (j[-1][::4],)
        out.append(("lengths", j, 0, None))
    return out


CHECK = core.Check(
    "C08",
    {"trees": trees, "leaves": leaves, "lengths": lengths, "tails": tails},
    jobs,
    TRUST,
    lambda t: "every byte position as a cut (encodings over 700 bytes: word boundaries -1/0/+1/+16) and 8 tails in strict "
    "and non-strict mode, for: every type of <=2/4/5 nodes (thorough 3/5/6) with values within 2/1/0 deviations; every basic "
    "type x boundary values x 8 contexts; the length/arity/depth sweep (quick: every fourth); 13 payloads followed by 0..130 or 2^k (to 65536) -1..+32 bytes of 7 fillings",
)
