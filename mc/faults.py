"""What can be wrong with a payload, a value or a type string: the set of all kinds of fault in it.

A refusal must be of the class of one of the faults that are present; with one fault there is
one choice.  The sets are complete: whatever order the parts are looked at in, a fault that is
met is in the set."""
from mc import abi
from mc.abi import decimal

SHORT, PAD, PTR, TEXT = "short", "padding", "pointer", "text"


class Payload:
    def __init__(self, data):
        self.d = data
        self.n = len(data)
        self.out = set()
        self.seen = set()

    def word(self, pos):
        if pos + 32 > self.n:
            self.out.add(SHORT)
            return None
        return int.from_bytes(self.d[pos : pos + 32], "big")

    def at(self, t, pos):
        if (t, pos) in self.seen:
            return
        self.seen.add((t, pos))
        k = t[0]
        if k == "arr":
            if t[2] is None:
                n = self.word(pos)
                if n is None:
                    return
                pos += 32
            else:
                n = t[2]
            room = self.n // 32 + 1
            if n > room:
                # more items than the payload has words
                self.out.add(SHORT)
                if abi.is_dyn(t[1]):
                    self.out.add(PTR)
                    return
                n = room
            self.members([t[1]] * n, pos)
        elif k == "tup":
            self.members(t[1], pos)
        elif k in ("bytes", "string"):
            n = self.word(pos)
            if n is None:
                return
            s = pos + 32
            if s + n > self.n:
                self.out.add(SHORT)
                return
            p = -n % 32
            if s + n + p > self.n:
                self.out.add(SHORT)
            if any(self.d[s + n : s + n + p]):
                self.out.add(PAD)
            if k == "string":
                try:
                    bytes(self.d[s : s + n]).decode("utf-8")
                except UnicodeDecodeError:
                    self.out.add(TEXT)
        else:
            if self.word(pos) is None:
                return
            try:
                abi.Dec(self.d).at(t, pos)
            except abi.Bad:
                self.out.add(PAD)

    def members(self, types, pos):
        sizes = [abi.head_size(t) for t in types]
        end = pos + sum(sizes)
        p = pos
        for t, h in zip(types, sizes):
            if p > self.n:
                self.out.add(SHORT)
                return
            if abi.is_dyn(t):
                x = self.word(p)
                if x is not None:
                    if end <= pos + x < self.n:
                        self.at(t, pos + x)
                    else:
                        self.out.add(PTR)
            else:
                self.at(t, p)
            p += h


def of_payload(types, data):
    p = Payload(data)
    p.members(list(types), 0)
    return p.out


# ------------------------------------------------------------------ values
TYPE, BOUNDS, ILLEGAL, ANY = "type", "bounds", "illegal", "any"


def of_value(t, v, out=None):
    out = set() if out is None else out
    k = t[0]
    if k in ("uint", "int"):
        if isinstance(v, bool) or not isinstance(v, int):
            out.add(TYPE)
        elif not abi.member(t, v):
            out.add(BOUNDS)
    elif k in ("ufixed", "fixed"):
        if isinstance(v, bool):
            out.add(ANY)
        elif not isinstance(v, (int, decimal.Decimal)):
            out.add(TYPE)
        elif isinstance(v, decimal.Decimal) and not v.is_finite():
            out.add(ILLEGAL)
        elif abi.member(t, v) is False:
            out |= _fixed(t, v)
    elif k == "bool":
        if not isinstance(v, bool):
            out.add(TYPE)
    elif k == "address":
        if not isinstance(v, (str, bytes, bytearray)):
            out.add(TYPE)
        elif not abi.member(t, v):
            out.add(ANY)
    elif k in ("bytesM", "bytes"):
        if not isinstance(v, (bytes, bytearray)):
            out.add(TYPE)
        elif k == "bytesM" and len(v) > t[1]:
            out.add(BOUNDS)
    elif k == "string":
        if not isinstance(v, str):
            out.add(TYPE)
        elif not abi.member(t, v):
            out.add(ILLEGAL)
    elif not abi.is_seq(v):
        out.add(TYPE)
    elif k == "arr":
        if t[2] is not None and len(v) != t[2]:
            out.add(BOUNDS)
        for x in v:
            of_value(t[1], x, out)
    else:
        if len(v) != len(t[1]):
            out.add(BOUNDS)
        for x, y in zip(t[1], v):
            of_value(x, y, out)
    return out


def _fixed(t, v):
    """An int or finite Decimal outside the type: beyond the limits, too many digits, or both."""
    out = set()
    k, m, n = t
    if isinstance(v, int):
        sign, size, exp = v < 0, abs(v), 0
    else:
        s, digits, exp = v.as_tuple()
        sign, size = s == 1, int("".join(map(str, digits))) if len(digits) <= 4000 else None
    if size is None:
        return {BOUNDS, ILLEGAL}
    if isinstance(v, decimal.Decimal) and v.adjusted() > 90 or size.bit_length() > 20000:
        out.add(BOUNDS)
    elif exp < -100000:
        if sign and k == "ufixed":
            out.add(BOUNDS)
    else:
        # |v| * 10^n against the limit, as integers
        lim = (1 << m) - 1 if k == "ufixed" else (1 << (m - 1)) - (0 if sign else 1)
        if k == "ufixed" and sign and size:
            out.add(BOUNDS)
        elif size * 10 ** max(exp + n, 0) > lim * 10 ** max(-exp - n, 0):
            out.add(BOUNDS)
    e = exp + n
    if e < 0 and size:
        if -e > 5000 or size % 10**-e:
            out.add(ILLEGAL)
    return out


# ------------------------------------------------------------------ type strings
PARSE, ABITYPE, NOENTRY, VALUE = "parse", "abitype", "noentry", "value"
KNOWN = ("uint", "int", "fixed", "ufixed", "bytes", "bool", "address", "string")


def of_type(s):
    """Kinds of fault of a type string, for the default registry."""
    try:
        node = abi.syntax(s)
    except abi.NotAType:
        return {PARSE, VALUE} if "()" in s else {PARSE}
    except ValueError:
        # a number too long for Python; the rest of the string may be wrong as well
        return {PARSE, VALUE}
    out = set()
    _tree(node, out)
    return out


def _tree(n, out):
    if n[0] == "tuple":
        for c in n[1]:
            _tree(c, out)
        return
    base, sub = n[1], n[2]
    try:
        abi._from_syntax(("basic", base, sub, None))
    except abi.NotAType:
        if base in KNOWN:
            out.add(ABITYPE)
        elif base in ("byte", "function"):
            out.add(VALUE)
        elif base == "hash":
            out |= {ABITYPE, NOENTRY}
        else:
            out.add(NOENTRY)
