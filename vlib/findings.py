"""Known findings: inputs that violate a property on the unchanged tree.

known_findings.txt lists them, one per line:

    known: property=<id> key=<key> <what fails>
    fixed: property=<id> <commit> <what failed>

For a `known` line the property module holds KNOWN[key] = fn(ctx), which raises
Violation while the finding is present. The generators exclude such inputs by
construction; anything else that fails is a violation.
"""
import os

from . import engine

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def load(prop):
    out = []
    if not os.path.exists(PATH):
        return out
    for line in open(PATH):
        parts = line.strip().split(" ", 3)
        if parts and parts[0] == "known:" and parts[1] == "property=" + prop:
            out.append((parts[2].split("=", 1)[1], parts[3]))
    return out


def report(module, prop, mkscratch, tier):
    known = getattr(module, "KNOWN", {})
    for key, what in load(prop):
        fn = known[key]
        try:
            fn(engine.Ctx(prop, tier, mkscratch()))
        except engine.Violation:
            yield "KNOWN-FINDING: property={} {}".format(prop, what)
        else:
            yield "note: known finding no longer fails: property={} {}".format(prop, what)
