"""Helpers shared by the property checks.  Everything here uses eth_abi's public API only."""
import eth_abi
from eth_abi import exceptions as X
from eth_abi.registry import registry, registry_packed

from mc import abi, core, gen
from mc.core import Violation, short

encode = eth_abi.encode
decode = eth_abi.decode
is_encodable = eth_abi.is_encodable
from eth_abi.packed import encode_packed, is_encodable_packed  # noqa: E402

EncodingError = X.EncodingError
DecodingError = X.DecodingError

TRUST = [
    "CPython 3.12, eth-utils 6.0.0, parsimonious 0.10.0 and hypothesis behave as documented",
    "the reference model in mc/abi.py states the Solidity ABI specification correctly",
    "values, types and payloads outside the stated alphabets and bounds are not explored",
]


def py(fn, *args, **kw):
    a = ", ".join([repr(x) for x in args] + [f"{k}={v!r}" for k, v in kw.items()])
    s = f"import eth_abi; print(eth_abi.{fn}({a}))"
    return s if len(s) < 4000 else None


def make_families(check, spaces=tuple(gen.SPACES)):
    """families: for each input space, run check(ch, strs, types, values)."""
    fams = {}
    for name in spaces:
        _, make = gen.SPACES[name]

        def run(ch, job, make=make):
            strs, types, values = make(ch, job)
            return check(ch, strs, types, values)

        fams[name] = run
    return fams
