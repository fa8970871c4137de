"""Command line: python3-vt -m otfcheck <property> [--tier quick|thorough]"""
import argparse
import importlib
import os
import pkgutil
import sys

from .harness import Report, Lab


def registry():
    from . import props

    r = {}
    for m in pkgutil.iter_modules(props.__path__):
        mod = importlib.import_module("otfcheck.props." + m.name)
        r.update(getattr(mod, "CHECKS", {}))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    a = ap.parse_args()
    reg = registry()
    if a.prop == "list":
        print("\n".join(sorted(reg)))
        return 0
    rc = 0
    for p in sorted(reg) if a.prop == "all" else a.prop.split(","):
        rep = Report(p, a.tier)
        try:
            Lab()
        except SyntaxError as e:
            print(f"{p}: the package does not parse: {e}")
            return 2
        except Exception as e:
            rep.undecided("analysis", "package", f"{type(e).__name__}: {e}")
        rep.spawn(reg[p], a.tier == "thorough")
        rc = max(rc, rep.finish())
    return rc


if __name__ == "__main__":
    sys.exit(main())
