import decimal
import signal
import sys

from checks.common import *
from checks import c18
from checks.c18 import CALLS, FUNCS, GROUPS, N_BASE, freeze, scrub, show
from eth_abi import decoding, encoding
from eth_abi.codec import ABICodec
from eth_abi.decoding import ContextFramesBytesIO, StringDecoder
from mc.sched import ROOT

D = decimal.Decimal
W = abi.word


class Cut(BaseException):
    """The interruption, where it is no built-in exception."""


KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "other": Cut}


# ------------------------------------------------------------------ cutting a call short at its k-th step
class Cutter:
    """Raises exc before the k-th step (line, or instruction) of the code under test; k=None
    only counts the steps."""

    def __init__(self, exc, k, fine):
        self.exc = exc
        self.k = k
        self.fine = fine
        self.n = 0
        self.hit = False
        self.dropped = False

    def drop(self, x):
        """The interpreter drops what is raised while it closes a generator that is no longer used."""
        self.dropped = True

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line"):
            if self.n == self.k and not self.hit:
                self.hit = True
                raise self.exc("cut")
            self.n += 1
        return self.local

    def run(self, f):
        """Outcome of f: ("returns", value) or ("raises", exception)."""
        old = sys.gettrace()
        if self.fine:  # CPython 3.12 looks for this when settrace is called
            sys._getframe().f_trace_opcodes = True
        hook, sys.unraisablehook = sys.unraisablehook, self.drop
        sys.settrace(self.trace)
        try:
            try:
                r = f()
            finally:
                sys.settrace(old)
                sys.unraisablehook = hook
        except core.ExecTimeout:
            raise
        except BaseException as e:
            return "raises", e
        return "returns", r


# calls that are made after each interrupted call
PROBES = (0, 5, 7, 9, 10, 11, 13, 15, 18, 21, 26, 29, 30, 33, 38, 42)


def perform(i):
    return c18.perform(i)


def inner(f):
    """In a child of the child, with a time limit of its own (timers are not inherited)."""

    def run():
        signal.setitimer(signal.ITIMER_REAL, core.EXEC_TIMEOUT * 0.9)
        return f()

    return core.forked(run)


FIRST = (5, 9, 18, 21, 30)  # at first use


_alone = {}


def alone(i):
    if i not in _alone:
        _alone[i] = core.forked(lambda: perform(i))
    return _alone[i]


def count(i, warm, fine):
    def run():
        if warm:
            perform(i)
        name, args, kw = CALLS[i]()
        c = Cutter(None, None, fine)
        c.run(lambda: FUNCS[name](*args, **kw))
        return c.n

    return core.forked(run)


def cut(ch, job):
    """Call i is cut at every step of a range; then it and the probes are made."""
    i, warm, kind, fine, lo, hi, probes = job
    probes = (i,) + tuple(p for p in probes if p != i)
    want = {p: alone(p) for p in probes}
    n = count(i, warm, fine)

    def one(k):
        before = decimal.getcontext().copy()
        name, args, kw = CALLS[i]()
        was = freeze((args, kw))
        c = Cutter(KINDS[kind], k, fine)
        got = c.run(lambda: FUNCS[name](*args, **kw))
        where = f"{show(i)}, cut by {KINDS[kind].__name__} at step {k} of {n}"
        if c.hit and not c.dropped and kind != "memory" and not (got[0] == "raises" and isinstance(got[1], KINDS[kind])):
            raise Violation(f"{where}: the exception does not reach the caller, {short(got)}")
        if freeze((args, kw)) != was:
            raise Violation(f"{where}: the arguments are changed: {short(args)}")
        # an interruption between a with statement's last line and its __exit__ keeps the context
        # that the statement set: CPython gives no way to prevent that, so it is not judged
        decimal.setcontext(before)
        for p in probes:
            g = perform(p)
            if g != want[p]:
                raise Violation(f"{where}: afterwards {show(p)} gives {short(g)}, alone {short(want[p])}")
        return c.hit

    def all_(ks):
        if warm:
            for p in probes:
                perform(p)
            return sum(one(k) for k in ks)  # one after the other, with the probes in between
        return sum(inner(lambda: one(k)) for k in ks)

    ks = range(lo, min(hi, n))
    hits = core.forked(lambda: all_(ks))
    ch.op((len(probes) + 1) * len(ks))
    core.extra("cuts", hits)
    core.note(f"{kind} {'warm' if warm else 'first use'}{' fine' if fine else ''} {want[i][0]}")
    return show(i)[:150], kind, warm, [lo, min(hi, n)]


def twice(ch, job):
    """Two calls on the same coders are cut, each at every step."""
    i, j, lo, hi = job
    probes = (i, j)
    want = {p: alone(p) for p in probes}
    n = [count(p, True, False) for p in (i, j)]

    def one(a):
        for p in probes:
            perform(p)
        before = decimal.getcontext().copy()
        for b in range(n[1]):
            for x, k in ((i, a), (j, b)):
                name, args, kw = CALLS[x]()
                Cutter(KeyboardInterrupt, k, False).run(lambda: FUNCS[name](*args, **kw))
                decimal.setcontext(before.copy())
            for p in probes:
                g = perform(p)
                if g != want[p]:
                    raise Violation(f"{show(i)} cut at step {a}, {show(j)} cut at step {b}: afterwards {show(p)} gives {short(g)}, alone {short(want[p])}")

    for a in range(lo, min(hi, n[0])):
        core.forked(lambda: one(a))
        ch.op(4 * n[1])
    core.note("twice")
    return show(i)[:100], show(j)[:100], n


def pile(ch, job):
    """A call is cut at every step, over and over in one process, with nothing in between."""
    i, times = job
    want = {p: alone(p) for p in (i,) + PROBES}
    n = count(i, True, False)

    def run():
        for p in want:
            perform(p)
        before = decimal.getcontext().copy()
        made = 0
        while n and made < times:
            for k in range(n):
                name, args, kw = CALLS[i]()
                Cutter(KeyboardInterrupt, k, False).run(lambda: FUNCS[name](*args, **kw))
                decimal.setcontext(before.copy())
                made += 1
        for p in want:
            g = perform(p)
            if g != want[p]:
                raise Violation(f"{show(i)} cut {made} times, at every step in turn: afterwards {show(p)} gives {short(g)}, alone {short(want[p])}")

    core.forked(run)
    ch.op(times)
    core.extra("cuts", times)
    core.note("pile")
    return show(i)[:150], times


def again(ch, job):
    """Each of some calls many times in one process, whether it fails or returns; then all."""
    ids, times = job
    want = {p: alone(p) for p in ids}

    def run():
        for i in ids:
            for k in range(times):
                g = perform(i)
                if g != want[i]:
                    raise Violation(f"{show(i)} gives {short(g)} the {k + 1}th time, alone {short(want[i])}")
        for i in ids:
            g = perform(i)
            if g != want[i]:
                raise Violation(f"after {times} times each of {len(ids)} calls, {show(i)} gives {short(g)}, alone {short(want[i])}")

    core.forked(run)
    ch.op(times * len(ids))
    core.note("again")
    return [show(i)[:100] for i in ids], times


# ------------------------------------------------------------------ exceptions out of the user's own code
class Fuse:
    """Goes off at the n-th use."""

    def __init__(self, n, exc):
        self.n = n
        self.exc = exc
        self.used = 0

    def __call__(self):
        self.used += 1
        if self.used == self.n:
            raise self.exc("the user's code fails")


def coders(fuse):
    """Four kinds of user coders that fail when the fuse goes off."""

    def enc(v):
        fuse()
        return W(v)

    def dec(s):
        fuse()
        return int.from_bytes(s.read(32), "big")

    class E(encoding.BaseEncoder):
        def validate_value(self, value):
            fuse()

        def encode(self, value):
            fuse()
            return W(len(value)) + bytes(value) + bytes(-len(value) % 32)

        @classmethod
        def from_type_str(cls, s, r):
            fuse()
            return cls(is_dynamic=True)

    class DD(decoding.BaseDecoder):
        def decode(self, stream):
            fuse()
            n = int.from_bytes(stream.read(32), "big")
            fuse()
            return stream.read(n)

        @classmethod
        def from_type_str(cls, s, r):
            fuse()
            return cls(is_dynamic=True)

    return enc, dec, E, DD


class Stream(ContextFramesBytesIO):
    fuse = staticmethod(lambda: None)

    def read(self, *a):
        Stream.fuse()
        return super().read(*a)

    def seek(self, *a):
        Stream.fuse()
        return super().seek(*a)

    def push_frame(self, *a):
        Stream.fuse()
        return super().push_frame(*a)

    def pop_frame(self, *a):
        Stream.fuse()
        return super().pop_frame(*a)


class Codec(ABICodec):
    stream_class = Stream


class Seq(list):
    """A list that can fail when it is looked at."""

    fuse = staticmethod(lambda: None)

    def __iter__(self):
        for x in list.__iter__(self):
            Seq.fuse()
            yield x

    def __len__(self):
        Seq.fuse()
        return list.__len__(self)


USER = {
    # types, values (custom "one": a word; "many": bytes)
    "alone": (["one", "many"], [5, b"abc"]),
    "arrays": (["one[]", "many[2]"], [[1, 2, 3], [b"", b"xyz"]]),
    "tuples": (["(uint8,one,many)", "(many,(one,bytes))[]"], [(1, 2, b"q"), [(b"a", (1, b"b")), (b"cc", (2, b""))]]),
    "mixed": (["bytes[]", "one[2][]", "string", "(bool,many[])"], [[b"x", b"yz"], [[1, 2], [3, 4]], "txt", (True, [b"1", b""])]),
}
PARTS = 12
SMALL = ("alone", "instances")
BUILTIN = (["bytes[]", "(uint8,string)[2]", "fixed8x1", "int16[][]"], [[b"x", b"yz"], [(1, "a"), (2, "b")], D("1.5"), [[1], [], [-2, 3]]])


def attempt(f):
    try:
        return "returns", f()
    except core.ExecTimeout:
        raise
    except BaseException as e:
        return "raises", type(e).__name__


def user(ch, job):
    """The user's coders, streams and values fail at every use in turn; afterwards the same codec,
    a copy of its registry and the built-in codec give what they always give."""
    what, op, kind = job
    exc = {"zero": ZeroDivisionError, "attribute": AttributeError, "interrupt": KeyboardInterrupt, "value": ValueError, "stop": StopIteration}[kind]
    types, values = USER[what] if what in USER else BUILTIN
    bvals = list(BUILTIN[1])
    want_b = abi.enc_seq([abi.ptype(t) for t in BUILTIN[0]], bvals)

    def one(n):
        fuse = Fuse(0, exc)
        enc, dec, E, DD = coders(fuse)
        r = registry.copy()
        r.register("one", enc, dec)
        r.register("many", E, DD)
        c = Codec(r)
        spare = Fuse(0, exc)
        Stream.fuse = Seq.fuse = spare
        good = attempt(lambda: c.encode(types, values))
        if good[0] != "returns":
            raise Violation(f"user coders in {types}: {good}")
        data = good[1]
        back = c.decode(types, data)
        c2 = Codec(r.copy())
        fresh = c if n % 2 else c2  # with and without earlier use of the types
        live = {"coder": fuse, "stream": spare, "values": spare}[op[1]]
        live.used, live.n = 0, n
        args = [Seq(v) if op[1] == "values" and isinstance(v, list) else v for v in values]
        if op[0] == "encode":
            got = attempt(lambda: fresh.encode(types, args))
        elif op[0] == "decode":
            got = attempt(lambda: fresh.decode(types, data, strict=op[2]))
        else:
            got = attempt(lambda: [fresh.is_encodable(t, v) for t, v in zip(types, args)])
        went = live.used >= n
        if went and kind == "interrupt" and got != ("raises", "KeyboardInterrupt"):
            raise Violation(f"user code ({op[1]}) raised KeyboardInterrupt at use {n} of {op[0]}({types}), which gives {short(got)}")
        live.n = 0
        for codec in (fresh, c, c2, Codec(r.copy())):
            for _ in range(2):
                again = attempt(lambda: codec.encode(types, values)), attempt(lambda: codec.decode(types, data)), attempt(lambda: codec.decode(types, data, strict=False))
                if again != (("returns", data), ("returns", back), ("returns", back)):
                    raise Violation(f"user code ({op[1]}) failed with {exc.__name__} at use {n} of {op[0]}({types}): {short(got)}; afterwards {short(again)}")
            if any(attempt(lambda: codec.is_encodable(t, v)) != ("returns", True) for t, v in zip(types, values)):
                raise Violation(f"user code ({op[1]}) failed with {exc.__name__} at use {n} of {op[0]}({types}); afterwards is_encodable is wrong")
        if eth_abi.encode(BUILTIN[0], bvals) != want_b or eth_abi.encode(BUILTIN[0], list(decode(BUILTIN[0], want_b))) != want_b:
            raise Violation(f"user code failed at use {n} of {op[0]}({types}); afterwards the built-in codec is wrong")
        return went

    n = 1
    while core.forked(lambda: one(n)):
        ch.op(12)
        n += 1
        if n > 400:
            raise Violation(f"{op[0]}({types}) uses the user's {op[1]} without end")
    core.extra("cuts", n - 1)
    core.note(f"user {op[1]} {op[0]}")
    return what, op, kind, n - 1


def custom(ch, job):
    """Calls on a codec with the user's coders (callables, classes, instances), cut at every step."""
    what, op, warm, kind, part = job
    types, values = USER[what] if what in USER else (["bytes[]", "string", "bytes"], [[b"x"], "ab", b"yz"])

    def make():
        enc, dec, E, DD = coders(Fuse(0, Cut))
        r = registry.copy()
        if what == "instances":
            r.unregister("string")
            r.register("string", encoding.TextStringEncoder(), StringDecoder(handle_string_errors="replace"))
            r.unregister("bytes")
            r.register("bytes", encoding.ByteStringEncoder(), decoding.ByteStringDecoder(), label="bytes")
        else:
            r.register("one", enc, dec)
            r.register("many", E, DD)
        return r

    def call(c, data):
        if op == "encode":
            return c.encode(types, values)
        if op == "is":
            return [c.is_encodable(t, v) for t, v in zip(types, values)]
        if op == "has":
            return [c.is_encodable_type(t) for t in types]
        return c.decode(types, data, strict=op == "decode")

    def battery(c, data, dirty):
        return tuple(attempt(f) for f in (
            lambda: c.encode(types, values), lambda: c.decode(types, data), lambda: c.decode(types, data, strict=False), lambda: [c.is_encodable(t, v) for t, v in zip(types, values)],
            lambda: c.decode(["bytes"], dirty), lambda: c.decode(["bytes"], dirty, strict=False), lambda: c.decode(["string"], dirty), lambda: c.decode(["string"], dirty, strict=False),
        ))

    dirty = W(32) + W(2) + b"ab" + b"\x01" * 30

    def plain():
        c = ABICodec(make())
        data = c.encode(types, values)
        want = battery(ABICodec(make()), data, dirty)
        n = []
        for _ in range(2):
            cu = Cutter(None, None, False)
            cu.run(lambda: call(c, data))
            n.append(cu.n)
        c = ABICodec(make())
        cu = Cutter(None, None, False)
        cu.run(lambda: call(c, data))
        return data, want, n[1] if warm else cu.n

    data, want, n = core.forked(plain)

    def one(k):
        r = make()
        c = ABICodec(r)
        if warm:
            battery(c, data, dirty)
        before = decimal.getcontext().copy()
        cu = Cutter(KINDS[kind], k, False)
        got = cu.run(lambda: call(c, data))
        decimal.setcontext(before)
        if not cu.dropped and kind == "interrupt" and not (got[0] == "raises" and isinstance(got[1], KeyboardInterrupt)):
            raise Violation(f"{op}({types}) cut at step {k}: {short(got)}")
        for x in (c, ABICodec(r.copy())) if what in SMALL else (c,):
            g = battery(x, data, dirty)
            if g != want:
                raise Violation(f"user codec, {op}({types}) cut by {KINDS[kind].__name__} at step {k} of {n} ({'later' if warm else 'first'} use): afterwards {short(g)}, expected {short(want)}")

    ks = range(part, n, PARTS)
    for k in ks:
        core.forked(lambda: one(k))
        ch.op(24)
    core.extra("cuts", len(ks))
    core.note(f"custom {op} {warm}")
    return what, op, warm, n


# ------------------------------------------------------------------ copies and new coders
def copying(ch, job):
    """A copy() that is cut at every step leaves the original as it was."""
    warm, kind = job

    def prepare():
        r = registry.copy()
        r.register("foo", lambda v: W(v), lambda s: int.from_bytes(s.read(32), "big"))
        c = ABICodec(r)
        if warm:
            c.encode(["foo[]", "bytes"], [[1], b"a"])
        return r, c

    def uses(c):
        d = c.encode(["foo[]", "bytes", "(foo,string)"], [[1, 2], b"a", (3, "x")])
        return d, c.decode(["foo[]", "bytes", "(foo,string)"], d)

    def steps():
        r, _ = prepare()
        cu = Cutter(None, None, False)
        cu.run(r.copy)
        return cu.n

    def one(k):
        r, c = prepare()
        want = uses(ABICodec(prepare()[0]))
        cu = Cutter(KINDS[kind], k, False)
        got = cu.run(r.copy)
        if not cu.dropped and got[0] != "raises":
            raise Violation(f"copy() cut at step {k}: {short(got)}")
        s = r.copy()
        for x in (c, ABICodec(r), ABICodec(s)):
            if uses(x) != want:
                raise Violation(f"after a copy() that was cut at step {k}, coding gives {short(uses(x))}, expected {short(want)}")
        s.unregister("foo")
        if r.has_encoder("foo") is not True or s.has_encoder("foo") is not False or registry.has_encoder("foo"):
            raise Violation(f"after a copy() that was cut at step {k}, registries share registrations")

    n = core.forked(steps)
    for k in range(n):
        core.forked(lambda: one(k))
        ch.op(4)
    core.extra("cuts", n)
    core.note("copy")
    return n


def related(i):
    """Probes for a call of a group: some of the calls that share its coders."""
    for g in GROUPS.values():
        if i in g:
            return tuple(g[:: max(1, len(g) // 8)])
    return PROBES


def jobs(tier):
    quick = tier == "quick"
    out = []
    span = 24
    for i in range(N_BASE):
        for warm in (False, True):
            n = count(i, warm, False)
            for kind in ("interrupt", "memory", "other") if not quick else ("interrupt", "memory"):
                if quick and kind == "memory" and not warm:
                    continue
                out += [("cut", (i, warm, kind, False, lo, lo + span, PROBES if warm else FIRST), 0, None) for lo in range(0, max(n, 1), span)]
    fine = FINE if quick else range(N_BASE)
    for i in fine:
        n = count(i, True, True)
        out += [("cut", (i, True, "interrupt", True, lo, lo + span, PROBES), 0, None) for lo in range(0, max(n, 1), span)]
    for name, g in GROUPS.items():
        pick = list(g)[:: 6 if quick else 2]
        for i in pick:
            n = count(i, True, False)
            for warm in (True,) if quick else (True, False):
                n = count(i, warm, False)
                out += [("cut", (i, warm, "interrupt", False, lo, lo + span, related(i)), 0, None) for lo in range(0, max(n, 1), span)]
    out += [("pile", (i, 1200 if quick else 12000), 0, None) for i in range(N_BASE)]
    for g in (range(N_BASE), *GROUPS.values()):
        ids = tuple(g) if not quick or g == range(N_BASE) else tuple(g)[::3]
        out += [("again", (ids[k : k + 8], 1200 if quick else 12000), 0, None) for k in range(0, len(ids), 8)]
    pairs = ((9, 10), (10, 11), (0, 2), (13, 14), (21, 4), (19, 20)) if quick else [(a, b) for a in FINE for b in FINE]
    out += [("twice", (i, j, lo, lo + 3), 0, None) for i, j in pairs for lo in range(0, count(i, True, False), 3)]
    for what in (*USER, "builtin"):
        ops = [("encode", "coder"), ("decode", "coder", True), ("decode", "coder", False), ("is", "coder")] if what in USER else []
        ops += [("decode", "stream", True), ("decode", "stream", False), ("encode", "values"), ("is", "values")]
        out += [("user", (what, op, kind), 0, None) for op in ops for kind in ("zero", "attribute", "interrupt", "value", "stop")]
    out += [("custom", (what, op, warm, kind, part), 0, None) for part in range(PARTS) for what in (("alone", "arrays", "instances") if quick else (*USER, "instances")) for op in ("encode", "decode", "loose", "is", "has") for warm in (False, True) for kind in ("interrupt",) + (() if quick else ("memory",))]
    out += [("copying", (w, k), 0, None) for w in (False, True) for k in KINDS if k != "memory"]
    return out


FINE = (0, 2, 4, 9, 11, 13, 16, 18, 21, 22, 33)
CHECK = core.Check(
    "C28",
    {"cut": cut, "twice": twice, "pile": pile, "again": again, "user": user, "custom": custom, "copying": copying},
    jobs,
    TRUST + ["an interruption arrives before a source line (in the fine mode a bytecode instruction) of eth_abi; inside other libraries and C code it is not placed"],
    lambda t: f"{N_BASE} calls, at first use and later, cut by KeyboardInterrupt and (later use; thorough: both, and a third class) MemoryError before every line, {len(FINE)} of them (thorough: all) also "
    f"before every bytecode instruction; every 6th (2nd) call of 17 groups that share coders, before every line; then the call itself and {len(PROBES)} others compared with the call alone; 6 (121) "
    "pairs of calls both cut, at every pair of lines; every call cut 1200 (12000) times in a row, and every call (of the groups every 3rd) made 1200 (12000) times; user coders, streams and values that fail at each use in turn with 5 exception classes, 5 type lists, 8 operations; 5 operations of codecs with user coders or coder instances, cut before every line; copy() cut at every line",
)
