"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "bounded exhaustive enumeration of types and values on the real encoder against a reference model",
    "C02": "bounded exhaustive enumeration of types and values through encode and decode on the real code",
    "C03": "bounded exhaustive enumeration of payloads on the real decoder against a reference decoder",
    "C04": "bounded exhaustive enumeration of payloads on the real decoder under memory and time limits",
    "C05": "exhaustive enumeration of pointer values in every small head layout against a reference decoder",
    "C06": "bounded exhaustive enumeration of (type, value) pairs incl. foreign values; agreement of the two calls",
    "C07": "bounded exhaustive enumeration of values inside and outside each type against a membership model",
    "C08": "exhaustive enumeration of cut points and appended tails of enumerated encodings",
    "C09": "bounded exhaustive enumeration of payloads and of call sequences mixing strict and non-strict decodes",
    "C10": "bounded exhaustive enumeration of types and values on the packed encoder against a reference model",
    "C11": "exhaustive enumeration of type strings over the grammar's alphabet against a reference parser",
    "C12": "exhaustive enumeration of type strings and alias positions against the specification's type set",
    "C13": "explicit-state enumeration of registry operation sequences on the real registry against a state model",
    "C14": "enumeration of operation sequences over a registry and its copies against independent state models",
    "C15": "bounded exhaustive enumeration of types and payloads with a counted-work bound from the model",
    "C16": "exhaustive enumeration of decimal contexts x types x values on the real code",
    "C17": "bounded exhaustive enumeration of coder kinds x positions in type trees against the model",
    "C18": "exhaustive enumeration of call sequences in fresh processes against each call alone",
    "C19": "stateless model checking of thread interleavings: controlled scheduler, bounded preemptions",
    "C20": "exhaustive enumeration of bounded answer sequences to the strategies' draws",
    "C21": "exhaustive enumeration of stream operation sequences against a state model; stream classes over payload spaces",
    "C22": "exhaustive enumeration of coder classes x type strings and of size settings on the real coders against the model",
    "C23": "exhaustive enumeration of argument kinds, arities and entry points on the real code; agreement and reference model",
    "C24": "bounded exhaustive enumeration of byte strings x error handlers x registrations against bytes.decode",
    "C25": "bounded exhaustive enumeration of strings against a reference parser; all pairs of lookups; all registrations removed in turn",
    "C26": "bounded exhaustive enumeration of faulty values, payloads and type strings against a model of all faults present",
    "C27": "bounded exhaustive enumeration of type strings against an independent model of validity and aliases",
    "C28": "exhaustive fault injection: every interruption point of each call of a fixed alphabet on the real code, results compared with runs alone",
}
NOTE = (
    "Every execution within the stated bounds (evidence: coverage.bounds) is run on the code in /repo's working tree and compared with the "
    "reference model; outside the bounds nothing is claimed. Trusts CPython, eth-utils, parsimonious, hypothesis and the reference model mc/abi.py."
)
EXTRA = {
    "C15": " Work is counted events (calls, iterations) plus bytes read; allowances are 3-4x what the unchanged tree needs.",
    "C19": " Preemption points are source lines (and bytecode instructions) of eth_abi; 1-2 preemptions, 2-3 threads.",
    "C07": " Two known findings (negative excess digits, underflow) are listed in known_findings.txt.",
    "C09": " One known finding (flag not propagated into nested values) is listed in known_findings.txt.",
    "C13": " One known finding (label ignored for type-string lookups) is listed in known_findings.txt.",
}
PY = "/opt/venv/bin/python -B checks/run.py"
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"{PY} {p} --tier quick",
            "thorough_cmd": f"{PY} {p} --tier thorough",
            "technique": t,
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(p, ""),
        }
        for p, t in TECH.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo. A violation's replay file is run with: " + PY + " <ID> --replay <file>.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
