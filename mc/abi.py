"""Reference model of the Solidity contract ABI, written from the specification.

Independent of eth_abi: its own type syntax tree, its own parser, encoder, packed encoder,
decoder and acceptance predicate.  Kept boring on purpose.

Types are tuples:
  ("uint", M) ("int", M) ("ufixed", M, N) ("fixed", M, N) ("bytesM", M) ("bool",)
  ("address",) ("bytes",) ("string",) ("arr", item, k or None) ("tup", (items...))
  ("custom", spec) - a coder the user registered; spec has name, dynamic, size, enc, canon
"""
import decimal
from fractions import Fraction

ALIASES = {
    "int": ("int", 256),
    "uint": ("uint", 256),
    "fixed": ("fixed", 128, 18),
    "ufixed": ("ufixed", 128, 18),
    "function": ("bytesM", 24),
    "byte": ("bytesM", 1),
}


class Bad(Exception):
    """The payload does not denote a value (or the value is not of the type)."""


class BadText(Bad):
    """A string member is not valid UTF-8."""


class NotAType(Exception):
    pass


# ------------------------------------------------------------------ types
def tstr(t):
    k = t[0]
    if k in ("uint", "int"):
        return k + str(t[1])
    if k in ("ufixed", "fixed"):
        return f"{k}{t[1]}x{t[2]}"
    if k == "bytesM":
        return "bytes" + str(t[1])
    if k == "custom":
        return t[1].name
    if k == "arr":
        return tstr(t[1]) + ("[]" if t[2] is None else f"[{t[2]}]")
    if k == "tup":
        return "(" + ",".join(tstr(x) for x in t[1]) + ")"
    return k


_DIG = "0123456789"
_ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def syntax(s):
    """Parse by the documented grammar only: returns ("basic", base, sub, dims) or
    ("tuple", comps, dims), where sub is None, n or (m, n) and dims is None or a tuple of
    () / (k,).  Raises NotAType."""
    node, i = _syn_type(s, 0)
    if i != len(s):
        raise NotAType(s)
    return node


def _syn_num(s, i):
    if i >= len(s) or s[i] not in "123456789":
        raise NotAType(s)
    j = i + 1
    while j < len(s) and s[j] in _DIG:
        j += 1
    return int(s[i:j]), j


def _syn_dims(s, i):
    dims = []
    while i < len(s) and s[i] == "[":
        if i + 1 < len(s) and s[i + 1] == "]":
            dims.append(())
            i += 2
            continue
        n, j = _syn_num(s, i + 1)
        if j >= len(s) or s[j] != "]":
            raise NotAType(s)
        dims.append((n,))
        i = j + 1
    return (tuple(dims) if dims else None), i


def _syn_type(s, i):
    if i < len(s) and s[i] == "(":
        comps = []
        i += 1
        while True:
            c, i = _syn_type(s, i)
            comps.append(c)
            if i < len(s) and s[i] == ",":
                i += 1
                continue
            if i < len(s) and s[i] == ")":
                i += 1
                break
            raise NotAType(s)
        dims, i = _syn_dims(s, i)
        return ("tuple", tuple(comps), dims), i
    j = i
    while j < len(s) and s[j] in _ALPHA:
        j += 1
    if j == i:
        raise NotAType(s)
    base = s[i:j]
    sub = None
    if j < len(s) and s[j] in "123456789":
        sub, j = _syn_num(s, j)
        if j < len(s) and s[j] == "x" and j + 1 < len(s) and s[j + 1] in "123456789":
            n, j = _syn_num(s, j + 1)
            sub = (sub, n)
    dims, j = _syn_dims(s, j)
    return ("basic", base, sub, dims), j


def render(node):
    """Inverse of syntax()."""
    if node[0] == "tuple":
        base = "(" + ",".join(render(c) for c in node[1]) + ")"
    else:
        sub = node[2]
        base = node[1]
        if isinstance(sub, tuple):
            base += f"{sub[0]}x{sub[1]}"
        elif sub is not None:
            base += str(sub)
    return base + "".join("[%s]" % (d[0] if d else "") for d in (node[-1] or ()))


def ptype(s):
    """Type string -> type, by the ABI specification incl. aliases.  Raises NotAType."""
    return _from_syntax(syntax(s))


def _from_syntax(n):
    if n[0] == "tuple":
        t = ("tup", tuple(_from_syntax(c) for c in n[1]))
    else:
        _, base, sub, _ = n
        if sub is None and base in ALIASES:
            t = ALIASES[base]
        elif sub is None and base in ("bool", "address", "bytes", "string"):
            t = (base,)
        elif base in ("uint", "int") and isinstance(sub, int) and sub in range(8, 257, 8):
            t = (base, sub)
        elif base == "bytes" and isinstance(sub, int) and 1 <= sub <= 32:
            t = ("bytesM", sub)
        elif (
            base in ("fixed", "ufixed")
            and isinstance(sub, tuple)
            and sub[0] in range(8, 257, 8)
            and 1 <= sub[1] <= 80
        ):
            t = (base,) + sub
        else:
            raise NotAType(render(n))
    for d in n[-1] or ():
        t = ("arr", t, d[0] if d else None)
    return t


def is_dyn(t):
    k = t[0]
    if k in ("bytes", "string"):
        return True
    if k == "custom":
        return t[1].dynamic
    if k == "arr":
        return t[2] is None or is_dyn(t[1])
    if k == "tup":
        return any(is_dyn(x) for x in t[1])
    return False


def static_size(t):
    """Bytes a static type takes in a head."""
    k = t[0]
    if k == "custom":
        return t[1].size
    if k == "arr":
        return t[2] * static_size(t[1])
    if k == "tup":
        return sum(static_size(x) for x in t[1])
    return 32


def head_size(t):
    return 32 if is_dyn(t) else static_size(t)


def has_string(t):
    k = t[0]
    if k == "arr":
        return has_string(t[1])
    if k == "tup":
        return any(has_string(x) for x in t[1])
    return k == "string"


# ------------------------------------------------------------------ encoding
def word(n):
    return (n % (1 << 256)).to_bytes(32, "big")


def scaled(v, places):
    """The integer a fixed-point value is stored as; raises Bad if it has excess digits."""
    x = Fraction(v) * 10**places
    if x.denominator != 1:
        raise Bad("excess digits")
    return x.numerator


def address_bytes(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    return bytes.fromhex(v[2:] if v[:2] in ("0x", "0X") else v)


def enc(t, v):
    k = t[0]
    if k in ("uint", "int"):
        return word(v)
    if k in ("ufixed", "fixed"):
        return word(scaled(v, t[2]))
    if k == "bool":
        return word(1 if v else 0)
    if k == "address":
        return bytes(12) + address_bytes(v)
    if k == "bytesM":
        return bytes(v) + bytes(32 - len(v))
    if k in ("bytes", "string"):
        b = v.encode("utf-8") if k == "string" else bytes(v)
        return word(len(b)) + b + bytes(-len(b) % 32)
    if k == "custom":
        return t[1].enc(v)
    if k == "arr":
        body = enc_seq([t[1]] * len(v), list(v))
        return body if t[2] is not None else word(len(v)) + body
    return enc_seq(t[1], list(v))


def enc_seq(types, values):
    off = sum(head_size(t) for t in types)
    head = []
    tail = []
    for t, v in zip(types, values):
        e = enc(t, v)
        if is_dyn(t):
            head.append(word(off))
            tail.append(e)
            off += len(e)
        else:
            head.append(e)
    return b"".join(head) + b"".join(tail)


def packed(t, v):
    k = t[0]
    if k in ("uint", "int"):
        return (v % (1 << t[1])).to_bytes(t[1] // 8, "big")
    if k in ("ufixed", "fixed"):
        return (scaled(v, t[2]) % (1 << t[1])).to_bytes(t[1] // 8, "big")
    if k == "bool":
        return b"\x01" if v else b"\x00"
    if k == "address":
        return address_bytes(v)
    if k == "bytesM":
        return bytes(v) + bytes(t[1] - len(v))
    if k == "bytes":
        return bytes(v)
    if k == "string":
        return v.encode("utf-8")
    if k == "custom":
        return t[1].enc(v)
    if k == "arr":
        return b"".join(packed(t[1], x) for x in v)
    return b"".join(packed(x, y) for x, y in zip(t[1], v))


def unscaled(n, places):
    """Exact Decimal n / 10**places, independent of any context."""
    return decimal.Decimal((1 if n < 0 else 0, tuple(map(int, str(abs(n)))), -places))


def canon(t, v):
    """The Python value decode() should give back for v."""
    k = t[0]
    if k in ("uint", "int", "bool", "string"):
        return v
    if k in ("ufixed", "fixed"):
        return unscaled(scaled(v, t[2]), t[2])
    if k == "address":
        return "0x" + address_bytes(v).hex()
    if k == "bytesM":
        return bytes(v) + bytes(t[1] - len(v))
    if k == "bytes":
        return bytes(v)
    if k == "custom":
        return t[1].canon(v)
    if k == "arr":
        return tuple(canon(t[1], x) for x in v)
    return tuple(canon(x, y) for x, y in zip(t[1], v))


def same(t, a, e):
    """Is the decoded value a exactly the expected value e of type t?"""
    k = t[0]
    if k in ("uint", "int"):
        return isinstance(a, int) and not isinstance(a, bool) and a == e
    if k == "bool":
        return isinstance(a, bool) and a == e
    if k in ("ufixed", "fixed"):
        return isinstance(a, decimal.Decimal) and a == e
    if k in ("address", "string"):
        return isinstance(a, str) and a == e
    if k in ("bytesM", "bytes"):
        return isinstance(a, bytes) and a == e
    if k == "custom":
        return type(a) is type(e) and a == e
    if not isinstance(a, tuple) or len(a) != len(e):
        return False
    if k == "arr":
        return all(same(t[1], x, y) for x, y in zip(a, e))
    return len(a) == len(t[1]) and all(same(x, y, z) for x, y, z in zip(t[1], a, e))


def same_seq(types, a, e):
    return (
        isinstance(a, tuple)
        and len(a) == len(e) == len(types)
        and all(same(t, x, y) for t, x, y in zip(types, a, e))
    )


# ------------------------------------------------------------------ decoding
class Dec:
    """Reference decoder.  pad=True: canonical padding of bytes/string required; False: not;
    "nested": required except for members of the outermost sequence.

    The whole result is defined even for non-canonical layouts: tails may overlap, be out
    of order or leave gaps; a pointer must lie at or after the end of the head it belongs
    to and inside the payload.
    `steps` counts words read, as a bound on the work of the value."""

    def __init__(self, data, pad=True, limit=200000):
        self.d = data
        self.pad = pad
        self.n = len(data)
        self.steps = 0
        self.limit = limit
        self.text_error = False
        self.padding_fault = False

    def w(self, pos):
        self.steps += 1
        if pos + 32 > self.n:
            raise Bad("word past the end")
        if self.steps > self.limit:
            raise TooBig()
        return int.from_bytes(self.d[pos : pos + 32], "big")

    def at(self, t, pos, top=False):
        k = t[0]
        if k == "uint":
            x = self.w(pos)
            if x >> t[1]:
                raise Bad("uint padding")
            return x
        if k == "int":
            return self.signed(t[1], pos)
        if k == "ufixed":
            x = self.w(pos)
            if x >> t[1]:
                raise Bad("ufixed padding")
            return unscaled(x, t[2])
        if k == "fixed":
            return unscaled(self.signed(t[1], pos), t[2])
        if k == "bool":
            x = self.w(pos)
            if x > 1:
                raise Bad("bool")
            return x == 1
        if k == "address":
            x = self.w(pos)
            if x >> 160:
                raise Bad("address padding")
            return "0x" + x.to_bytes(20, "big").hex()
        if k == "bytesM":
            b = self.w(pos).to_bytes(32, "big")
            if any(b[t[1] :]):
                raise Bad("bytesM padding")
            return b[: t[1]]
        if k in ("bytes", "string"):
            n = self.w(pos)
            s = pos + 32
            if s + n > self.n:
                raise Bad("bytes past the end")
            p = -n % 32
            if s + n + p > self.n or any(self.d[s + n : s + n + p]):
                self.padding_fault = True
                if self.pad is True or self.pad == "nested" and not top:
                    raise Bad("bytes padding")
            self.steps += (n + 31) // 32
            b = bytes(self.d[s : s + n])
            if k == "bytes":
                return b
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                self.text_error = True
                raise BadText("utf-8")
        if k == "arr":
            if t[2] is not None:
                return self.seq_n(t[1], t[2], pos)
            n = self.w(pos)
            if n > self.n // 32:
                # every item takes at least one word of payload in the head
                raise Bad("too many items")
            return self.seq_n(t[1], n, pos + 32)
        return self.seq(t[1], pos)

    def signed(self, m, pos):
        x = self.w(pos)
        if x >> 255:
            x -= 1 << 256
        if not -(1 << (m - 1)) <= x < 1 << (m - 1):
            raise Bad("sign extension")
        return x

    def seq_n(self, t, n, pos):
        h = head_size(t)
        if n * 32 > self.n:
            raise Bad("too many items")
        return self._members([t] * n, [h] * n, pos)

    def seq(self, types, pos, top=False):
        return self._members(types, [head_size(t) for t in types], pos, top)

    def _members(self, types, sizes, pos, top=False):
        end = pos + sum(sizes)
        # the head must be present and its pointers valid
        p = pos
        where = []
        for t, h in zip(types, sizes):
            if is_dyn(t):
                x = pos + self.w(p)
                if x < end or x >= self.n:
                    raise Bad("pointer")
                where.append(x)
            else:
                where.append(p)
            p += h
        if end > self.n:
            raise Bad("head past the end")
        return tuple(self.at(t, x, top) for t, x in zip(types, where))


class TooBig(Exception):
    """The value is too large for the exploration (never for the real decoder)."""


def dec_seq(types, data, pad=True, limit=200000):
    d = Dec(data, pad, limit)
    return d.seq(list(types), 0, True)


# ------------------------------------------------------------------ acceptance
def is_seq(v):
    import collections.abc

    return isinstance(v, collections.abc.Sequence) and not isinstance(
        v, (str, bytes, bytearray)
    )


def member(t, v):
    """Does v belong to t?  True, False, or None where the documentation leaves it open
    (bool for fixed-point types)."""
    k = t[0]
    if k in ("uint", "int"):
        if isinstance(v, bool) or not isinstance(v, int):
            return False
        if k == "uint":
            return 0 <= v < 1 << t[1]
        return -(1 << (t[1] - 1)) <= v < 1 << (t[1] - 1)
    if k in ("ufixed", "fixed"):
        if isinstance(v, bool):
            return None
        if isinstance(v, decimal.Decimal):
            if not v.is_finite():
                return False
            sign, digits, exp = v.as_tuple()
            if v.is_zero():
                return True
            # cheap rejections, so that no astronomically large number is built
            if v.adjusted() > 90 or exp < -100000 and len(digits) < 2000:
                return False
        elif not isinstance(v, int):
            return False
        elif abs(v).bit_length() > 600:
            return False
        try:
            x = scaled(v, t[2])
        except Bad:
            return False
        if k == "ufixed":
            return 0 <= x < 1 << t[1]
        return -(1 << (t[1] - 1)) <= x < 1 << (t[1] - 1)
    if k == "bool":
        return isinstance(v, bool)
    if k == "address":
        if isinstance(v, (bytes, bytearray)):
            return len(v) == 20
        if not isinstance(v, str):
            return False
        h = v[2:] if v[:2] in ("0x", "0X") else v
        return len(h) == 40 and all(c in "0123456789abcdefABCDEF" for c in h)
    if k == "bytesM":
        return isinstance(v, (bytes, bytearray)) and len(v) <= t[1]
    if k == "bytes":
        return isinstance(v, (bytes, bytearray))
    if k == "string":
        if not isinstance(v, str):
            return False
        try:
            v.encode("utf-8")
        except UnicodeEncodeError:
            return False
        return True
    if not is_seq(v):
        return False
    if k == "arr":
        if t[2] is not None and len(v) != t[2]:
            return False
        r = [member(t[1], x) for x in v]
    else:
        if len(v) != len(t[1]):
            return False
        r = [member(x, y) for x, y in zip(t[1], v)]
    if any(x is False for x in r):
        return False
    return None if any(x is None for x in r) else True
