"""Python values of all sorts, to be offered to every type."""
import array
import collections
import datetime
import decimal
import fractions
import types
import uuid

from mc import abi, gen
from mc.gen import Colour, MyBytes, MyDecimal, MyInt, MyList, MyStr, Seq

D = decimal.Decimal


class NoRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


class NoReprInt(int):
    def __repr__(self):
        raise RuntimeError("no repr")


class NoReprList(list):
    def __repr__(self):
        raise RuntimeError("no repr")


class NoReprStr(str):
    def __repr__(self):
        raise RuntimeError("no repr")


class NoReprBytes(bytes):
    def __repr__(self):
        raise RuntimeError("no repr")


class Indexable:
    """Looks like a number through __index__/__int__, but is not one."""

    def __index__(self):
        return 1

    __int__ = __index__


class HasLen:
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return 1


class EqualsAll:
    def __eq__(self, o):
        return True

    __hash__ = None


class BytesLike:
    def __bytes__(self):
        return b"abc"


ADDR = "0x" + bytes(range(1, 21)).hex()


def wild():
    """Fresh objects every time, simplest first."""
    return [
        None,
        True,
        False,
        0,
        1,
        -1,
        2,
        1.0,
        0.0,
        1.5,
        float("nan"),
        float("inf"),
        1j,
        complex(1, 0),
        fractions.Fraction(1, 2),
        fractions.Fraction(3),
        D(1),
        D("1.5"),
        D("-1"),
        D("NaN"),
        D("-NaN"),
        D("sNaN"),
        D("Infinity"),
        D("-Infinity"),
        D("1E+400"),
        D("1E-400"),
        D("1E-90"),
        D("-0"),
        MyInt(1),
        Colour.RED,
        MyDecimal("1"),
        NoReprInt(1),
        NoReprInt(1 << 300),
        b"",
        b"a",
        b"ab",
        bytes(20),
        bytes(19),
        bytes(21),
        bytes(32),
        bytes(33),
        bytes(24),
        b"\xff\xfe",
        bytearray(b"a"),
        bytearray(20),
        memoryview(b"a"),
        memoryview(b"ab"),
        MyBytes(b"a"),
        NoReprBytes(b"a"),
        NoReprBytes(bytes(40)),
        array.array("B", [1, 2]),
        "",
        "a",
        "ab",
        "0x",
        "0x01",
        "1",
        "é",
        "\ud800",
        "a\udfffb",
        "\ud83d\ude00",
        ADDR,
        ADDR[2:],
        ADDR[:-1],
        ADDR + "0",
        ADDR.upper(),
        "0x" + "g" * 40,
        " " + ADDR,
        ADDR + "\n",
        "0x" + "１" * 40,
        "0x" + "K" * 40,
        "-x" + "1" * 40,
        MyStr("a"),
        NoReprStr("a"),
        NoReprStr("\ud800"),
        MyStr("\ud800"),
        [],
        [1],
        [1, 2],
        [1, 2, 3],
        [[1], [2]],
        [True, False],
        [None],
        [b"a", b"b"],
        ["a", "b"],
        ["\ud800", "a"],
        [1, "a"],
        [1, 300],
        [[1, 2], [3, 4]],
        [(1, b"a")],
        [(1, b"a"), (2, b"b")],
        (),
        (1,),
        (1, 2),
        (1, b"a"),
        (b"a", 1),
        (1, 2, 3),
        ((1, 2), 3),
        ([], []),
        range(2),
        range(0),
        MyList([1, 2]),
        NoReprList([1, 2]),
        NoReprList([1, 1 << 300]),
        NoReprList([]),
        [NoRepr(), NoRepr()],
        collections.deque([1, 2]),
        Seq([1, 2]),
        Seq([]),
        {1, 2},
        frozenset(),
        {1: 2, 3: 4},
        {},
        collections.OrderedDict(),
        {1: 2}.keys(),
        iter([1, 2]),
        (x for x in [1, 2]),
        map(int, "12"),
        zip(),
        slice(2),
        object(),
        NoRepr(),
        Indexable(),
        HasLen(),
        EqualsAll(),
        BytesLike(),
        int,
        len,
        lambda: 1,
        Ellipsis,
        NotImplemented,
        types.SimpleNamespace(),
        uuid.UUID(int=1),
        datetime.date(2020, 1, 1),
        ValueError("x"),
        1 << 255,
        1 << 256,
        -(1 << 255),
        -(1 << 255) - 1,
        1 << 4000,
        -(1 << 4000),
        1 << 20000,
        [1 << 20000, 2],
        10**5000,
        D(1 << 4000),
        D("1E+999999"),
        D("1E-1000500"),
        D(10) ** 76,
    ]


_WILD = wild()
NWILD = len(_WILD)


def get(i):
    """The i-th object; iterators are built anew because using them consumes them."""
    v = _WILD[i]
    return wild()[i] if hasattr(v, "__next__") else v


def outside(t):
    """Values at and beyond the limits of a leaf type (and just inside, as a control)."""
    k = t[0]
    if k in ("uint", "int"):
        m = t[1]
        out = []
        for b in sorted({0, 1, 7, 8, 9, 15, 16, m - 9, m - 8, m - 7, m - 2, m - 1, m, m + 1, m + 7, m + 8, 255, 256, 257, 264, 512}):
            if b < 0:
                continue
            for d in (-2, -1, 0, 1, 2):
                out += [(1 << b) + d, -((1 << b) + d)]
        return list(dict.fromkeys(out))
    if k in ("ufixed", "fixed"):
        m, n = t[1], t[2]
        out = []
        for b in (m - 1, m, m + 1, 0):
            for d in (-1, 0, 1):
                for s in (1, -1):
                    x = s * ((1 << b) + d)
                    out.append(abi.unscaled(x, n))
                    # one more digit
                    for e in (1, 5, 9):
                        out.append(abi.unscaled(x * 10 + s * e, n + 1))
        for x in (0, 1, -1, 3, -3):
            for extra in (1, 2, 5, 40, 919, 1000, 2500):
                out.append(abi.unscaled(x * 10**extra + 1, n + extra))
                out.append(abi.unscaled(x * 10**extra - 1, n + extra))
                out.append(abi.unscaled(x * 10**extra, n + extra))
        for e in (-1000, -5000, -999999, -1000990, -1000997, -1000998, -1000999, -2000000):
            out += [D((0, (1,), e)), D((1, (1,), e)), D((0, (1, 2, 3), e)), D((0, (0,), e))]
        for e in (1, 5, 38, 76, 77, 78, 100, 1000, 999999, 10**9):
            out += [D((0, (1,), e)), D((1, (1,), e)), D((0, (0,), e))]
        out += [0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 10**18, 10**19, 10**58, 10**59, 10**60, 1 << 255]
        out += [(1 << m) // 10**n, (1 << m) // 10**n + 1, -((1 << m) // 10**n), (1 << (m - 1)) // 10**n, (1 << (m - 1)) // 10**n + 1]
        return out
    if k == "bytesM":
        return [f(bytes([x]) * n) for n in range(0, 70) for x in (0, 1, 255) for f in (bytes, bytearray)] + [
            b"a" * t[1] + b"\x00",
            b"a" * t[1] + b"\x00" * 10,
            "a" * t[1],
            "0x" + "00" * t[1],
        ]
    if k == "address":
        return (
            [bytes(n) for n in range(0, 40)]
            + [b"\x01" * n for n in range(0, 40)]
            + ["0x" + "1" * n for n in range(0, 66)]
            + ["1" * n for n in range(0, 66)]
            + ["0x" + "ab" * 19 + c for c in ("g0", "0g", " 0", "0 ", "-0", "_0", "０0")]
            + [b"0x" + b"1" * 40, bytearray(b"1" * 40), 1, 0x11 << 152]
        )
    if k == "bool":
        return [0, 1, 2, -1, True, False, "true", b"\x01", None, D(1), 1.0]
    if k == "string":
        return ["", "\x00", "\ud800", "\udfff", "a\ud800", "\ud83d\ude00", "\U0010ffff", "\uffff", "\udc80", b"a", b""] + [
            chr(c) for c in range(0xD7F0, 0xE010)
        ]
    return [b"", bytearray(b"x"), "", "x", None, [1], memoryview(b"x"), 0, 5]
