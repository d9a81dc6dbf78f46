from checks.decoding import *
from eth_abi.codec import ABICodec, ABIDecoder
from eth_abi.decoding import ContextFramesBytesIO

DATA = bytes(range(1, 41))
OPS = (
    [("read", n) for n in (1, 3, 0, 33, None)]
    + [("sif", p) for p in (0, 1, 6, 45)]
    + [("sif0", p) for p in (0, 4)]
    + [("seek", p) for p in (0, 9, 50)]
    + [("push", o) for o in (0, 2, 7, 44)]
    + [("pop",)]
)


class Model:
    def __init__(self, data):
        self.d = data
        self.pos = 0
        self.frames = []
        self.base = 0

    def step(self, op):
        k = op[0]
        if k == "read":
            if op[1] is None:
                r = self.d[self.pos :]
            else:
                r = self.d[self.pos : self.pos + op[1]]
            self.pos += len(r)
            return ("bytes", r)
        if k in ("sif", "sif0"):
            self.pos = self.base + op[1]
        elif k == "seek":
            self.pos = op[1]
        elif k == "push":
            self.frames.append((self.base, self.pos))
            self.base += op[1]
            self.pos = self.base
        else:
            if not self.frames:
                return ("raises", "IndexError")
            self.base, self.pos = self.frames.pop()
        return ("done",)


def do(s, op):
    k = op[0]
    try:
        if k == "read":
            r = s.read() if op[1] is None else s.read(op[1])
            return ("bytes", r)
        if k == "sif":
            s.seek_in_frame(op[1])
        elif k == "sif0":
            s.seek_in_frame(op[1], 0)  # whence: from the start, spelled out
        elif k == "seek":
            s.seek(op[1])
        elif k == "push":
            s.push_frame(op[1])
        else:
            s.pop_frame()
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raises", type(e).__name__)
    return ("done",)


def probe(s):
    """Position and frame base, without lasting effect."""
    pos = s.tell()
    s.seek_in_frame(0)
    base = s.tell()
    s.seek_in_frame(3)
    if s.tell() != base + 3:
        return pos, (base, s.tell())
    s.seek(pos)
    return pos, base


class Extended(ContextFramesBytesIO):
    """A subclass that only adds to the default class."""

    made = 0

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.log = []
        Extended.made += 1

    def push_frame(self, offset):
        self.log.append(offset)
        return super().push_frame(offset)


CLASSES = (ContextFramesBytesIO, Extended)


def frames(ch, job):
    first, n, make = job
    cls = CLASSES[make]
    s, m = cls(DATA), Model(DATA)
    # a second stream that is worked on in between must not matter
    other, om = cls(DATA[::-1]), Model(DATA[::-1])
    do(other, ("push", 5)), om.step(("push", 5))
    ops = list(first)
    for i in range(n):
        op = ops[i] if i < len(ops) else ch.pick(OPS, free=True)
        if i >= len(ops):
            ops.append(op)
        got, want = do(s, op), m.step(op)
        if got != want:
            raise Violation(f"stream operations {ops}: the last gives {got}, expected {want}")
        # every operation, on both streams, is followed by a probe of position and base
        if i == n - 1 or make:
            p = probe(s)
            if p != (m.pos, m.base):
                raise Violation(f"stream operations {ops}: position and frame base are {p}, expected {(m.pos, m.base)}")
        ch.op()
        do(other, ("push", 1)), om.step(("push", 1))
    # unwind: every frame restores its state; then popping fails and changes nothing
    while m.frames:
        do(s, ("pop",))
        m.step(("pop",))
        if probe(s) != (m.pos, m.base):
            raise Violation(f"stream operations {ops}, then popping to depth {len(m.frames)}: position and frame base {probe(s)}, expected {(m.pos, m.base)}")
    for _ in range(2):
        if do(s, ("pop",)) != ("raises", "IndexError") or probe(s) != (m.pos, m.base):
            raise Violation(f"stream operations {ops}: popping with no open frame")
    if probe(other) != (om.pos, om.base):
        raise Violation("operations on one stream change another")
    core.note(f"depth {sum(o[0] == 'push' for o in ops)}")
    return ops


# ------------------------------------------------------------------ custom stream classes
KEY = 0x5A


def mask(b):
    return bytes(x ^ KEY for x in b)


class Prefix(ContextFramesBytesIO):
    """Skips a function selector."""

    def __init__(self, data, *a, **kw):
        super().__init__(bytes(data)[4:], *a, **kw)


class Masked(ContextFramesBytesIO):
    """The payload is stored masked; every way to get at the bytes unmasks them."""

    def read(self, *a):
        return mask(super().read(*a))

    def read1(self, *a):
        return mask(super().read1(*a))

    def getvalue(self):
        return mask(super().getvalue())

    def getbuffer(self):
        return memoryview(mask(super().getvalue()))

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readline(self, *a):
        return mask(super().readline(*a))


def codec_of(cls, base=ABICodec):
    return type("C", (base,), {"stream_class": cls})(registry)


def instance_of(cls, base=ABICodec):
    """The stream class set on one codec only."""
    c = base(registry)
    c.stream_class = cls
    return c


STREAMS = {
    "own masked": (instance_of(Masked), mask),
    "own prefix": (instance_of(Prefix, ABIDecoder), lambda d: b"\xde\xad\xbe\xef" + d),
    "extended": (codec_of(Extended), lambda d: d),
    "plain": (codec_of(type("Plain", (ContextFramesBytesIO,), {})), lambda d: d),
    "prefix": (codec_of(Prefix, ABIDecoder), lambda d: b"\xde\xad\xbe\xef" + d),
    "masked": (codec_of(Masked), mask),
    "default": (ABICodec(registry), lambda d: d),
}


def outcome(c, strs, data, **kw):
    try:
        return ("value", c.decode(strs, data, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raises", type(e).__name__)


def streams(ch, strs, types, data):
    want = {}
    m, _ = model(types, data)
    for kw in ({}, {"strict": False}):
        ref = outcome(eth_abi, strs, data, **kw)
        for name, (c, f) in STREAMS.items():
            made = Extended.made
            ch.op()
            got = outcome(c, strs, f(data), **kw)
            same = got == ref if got[0] == "raises" or ref[0] == "raises" else abi.same_seq(types, got[1], ref[1])
            if not same:
                raise Violation(
                    f"decoder with stream class {name}: types {strs}, payload {short(data.hex(), 900)} {kw}: {short(got)}, with the default class {short(ref)}",
                )
            if name == "extended" and Extended.made == made:
                raise Violation(f"decode({strs}, ...{kw}) makes no stream of the configured class")
        core.note(ref[0])
        if not kw and (ref[0] == "value") != (m[0] == "value"):
            raise Violation(f"decode({strs}, {data.hex()}) -> {short(ref)}, expected {short(m)}")
    return strs, data.hex()[:200]


def payloads(make):
    def run(ch, job):
        strs, types, data = make(ch, job)
        return streams(ch, list(strs), list(types), data)

    return run


def values(ch, job):
    strs, types, vals = gen.trees_make(ch, job)
    return streams(ch, strs, types, abi.enc_seq(types, vals))


FAMILIES = {
    "frames": frames, "words": payloads(pay.words_make), "muts": payloads(pay.muts_make), "heads": payloads(pay.heads_make), "values": values,
}


def jobs(tier):
    out = []
    n = {"quick": 5, "thorough": 6}[tier]
    for make in (0, 1):
        for k in range(0, n + 1 - make):
            if k < 3:
                out.append(("frames", ((), k, make), 0, None))
            else:
                out += [("frames", ((a, b), k, make), 0, None) for a in OPS for b in OPS]
    for j in pay.words_jobs("quick"):
        if j[1] <= {"quick": 2, "thorough": 4}[tier]:
            out.append(("words", j, 0, None))
    ts = pay.mut_types({"quick": 3, "thorough": 4}[tier])
    out += [("muts", tuple(ts[i : i + 6]), 1, None) for i in range(0, len(ts), 6)]
    for j in pay.heads_jobs("quick"):
        if len(j[0]) <= 2:
            out.append(("heads", j, 1, None))
    ts = gen.all_trees({"quick": 4, "thorough": 5}[tier])
    out += [("values", tuple(ts[i : i + 20]), 0, None) for i in range(0, len(ts), 20)]
    return out


CHECK = core.Check(
    "C21",
    FAMILIES,
    jobs,
    TRUST + ["offsets and positions are those that fit a file position (the decoder refuses larger pointers before it follows them)"],
    lambda t: f"every sequence of <=5 (thorough 6) operations out of {len(OPS)} (reads, seeks, frame seeks, pushes, pops, also past the end and with no "
    "frame) on a 40-byte stream and its subclass, then unwinding, against a model; custom stream classes (extended, plain, skipping a "
    "prefix, masked storage) against the default class on all payloads of <=2 (4) words over 8 words for 37 types, single mutations of "
    "encodings of <=3 (4) nodes, pointers of heads of <=2 members, all trees of <=4 (5) nodes",
)
