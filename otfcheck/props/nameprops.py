"""C24: everything the code refers to exists."""
import os

from ..harness import ROOT as REPO
from ..resolve import analyse, settle

RULES = {
    "names": "every name read is bound by some assignment, definition or import that can precede it",
    "imports": "every import finds its module and name, in any order of importing the modules",
    "attributes": "every attribute exists in the module, class hierarchy or library it is looked up in",
    "calls": "the arguments of every call of a known function can be bound to its parameters",
    "raises": "what is raised is an exception",
    "formats": "format strings have an argument for every field",
    "requirements": "every third party package the modules import is declared",
    "scopes": "functions analysed, one per class of receiver",
}


def c24(rep, thorough):
    R = analyse(REPO)
    settle(R)
    seen = set()
    for rule, construct, msg in R.found:
        if (rule, construct.split(" on ")[0], msg) in seen:
            continue
        seen.add((rule, construct.split(" on ")[0], msg))
        rep.bad(rule, construct, msg)
    bad = {r for r, _, _ in R.found}
    for rule, n in sorted(R.checked.items()):
        if rule not in bad:
            rep.ok(rule, f"{n} sites in {len(R.mods)} modules", RULES.get(rule, ""))
    rep.functions |= R.scopes


CHECKS = {"C24": c24}
