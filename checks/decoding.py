"""Shared judge for the decoder properties."""
from checks.common import *
from mc import pay


def model(types, data, pad=True):
    """("value", v) or ("bad", text_error)"""
    d = abi.Dec(data, pad)
    try:
        return ("value", d.seq(list(types), 0, True)), d
    except abi.Bad:
        return ("bad", None), d


def real(strs, data, **kw):
    try:
        return ("value", decode(strs, data, **kw))
    except core.ExecTimeout:
        raise
    except Exception as e:
        return ("raise", e)


def allowed_error(types, e):
    if isinstance(e, DecodingError):
        return True
    return isinstance(e, UnicodeDecodeError) and any(abi.has_string(t) for t in types)


def show(strs, data, got, want=None, **kw):
    g = short(got[1], 1200) if got[0] == "value" else f"raises {short(got[1], 300)}"
    a = "".join(f", {k}={v}" for k, v in kw.items())
    s = f"decode({short(list(strs))}, {short(bytes(data).hex(), 1600)}{a}) -> {g}"
    if want is not None:
        s += "\nmodel: " + (short(want[1], 1200) if want[0] == "value" else "not a valid payload")
    return s


def families(check, spaces=tuple(pay.SPACES)):
    fams = {}
    for name in spaces:
        make = pay.SPACES[name][1]

        def run(ch, job, make=make):
            strs, types, data = make(ch, job)
            return check(ch, list(strs), list(types), data)

        fams[name] = run
    return fams
