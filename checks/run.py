"""Entry point: python checks/run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# never read or write bytecode beside the sources: /repo's working tree is what is checked
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"no-bytecode-{os.getpid()}")
sys.path[:0] = [VERIF, REPO]


def main():
    prop = sys.argv[1]
    import eth_abi

    where = os.path.realpath(os.path.dirname(eth_abi.__file__))
    if where != os.path.realpath(os.path.join(REPO, "eth_abi")):
        print(f"eth_abi imported from {where}, not from {REPO}", file=sys.stderr)
        return 2
    from mc import core

    check = importlib.import_module(f"checks.{prop.lower()}").CHECK
    return core.main(check, sys.argv[2:])


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
