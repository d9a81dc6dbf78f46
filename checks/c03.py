from checks.decoding import *


def check(ch, strs, types, data):
    want, d = model(types, data)
    ch.op()
    got = real(strs, data)
    if want[0] == "value":
        core.note("accepted")
        ok = got[0] == "value" and abi.same_seq(types, got[1], want[1])
    else:
        core.note("text" if d.text_error else "rejected")
        ok = got[0] == "raise"
    if not ok:
        raise Violation(show(strs, data, got, want), py("decode", strs, data))
    return {"types": strs, "payload": data.hex()[:512], "model": repr(want)[:200]}


CHECK = core.Check("C03", families(check), pay.space_jobs, TRUST, lambda t: pay.BOUNDS[t])
