"""check.py ID [--replay FILE]: decides one property; see DESIGN.md."""
import argparse
import atexit
import importlib
import itertools
import os
import resource
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import engine, findings, tool  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    opts = ap.parse_args()
    prop = opts.property
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = engine.fingerprint(os.environ["VERIF_SEED"])
    started = time.time()

    scratch_root = tempfile.mkdtemp(prefix="verif_{}_".format(prop))
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(scratch_root, ignore_errors=True)
    atexit.register(cleanup)
    # bytecode of the code under test is never read from nor written to its tree
    sys.pycache_prefix = os.path.join(scratch_root, "pyc")
    serial = itertools.count()

    def mkscratch():
        d = os.path.join(scratch_root, "{}_{}".format(os.getpid(), next(serial)))
        os.makedirs(d, exist_ok=True)
        return d

    tool.setup_paths()
    soft = 12 << 30
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    module = importlib.import_module("props." + prop.lower())
    if getattr(module, "LIMIT_AS", True):
        resource.setrlimit(resource.RLIMIT_AS, (soft, resource.getrlimit(resource.RLIMIT_AS)[1]))

    def log(msg):
        sys.stderr.write("[{}] {}\n".format(prop, msg))
        sys.stderr.flush()

    sections = module.SECTIONS
    if opts.replay:
        import json
        record = json.load(open(opts.replay))
        if record.get("section") == "regression":
            v = run_regressions(module, prop, tier, mkscratch, only=record["name"])[0]
        else:
            v = engine.replay(prop, sections, record, mkscratch, tier)
        if v is None:
            print("replay: no violation")
            return 0
        print("VIOLATION property={} replay={}".format(prop, opts.replay))
        print(v.message)
        for k, x in sorted(v.detail.items()):
            print("--- {}:\n{}".format(k, x))
        return 1

    if hasattr(module, "prepare"):
        module.prepare(mkscratch(), tier)

    violation, reg_stats = run_regressions(module, prop, tier, mkscratch)
    replay_dir = os.path.join(EVIDENCE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, "{}-{}-{}.json".format(prop, tier, seed))
    result = None
    record = None
    if violation is not None:
        record = {"property": prop, "section": "regression", "name": violation.detail.get("regression"),
                  "message": violation.message, "detail": violation.detail}
    else:
        budget = getattr(module, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3 * 3600)
        result = engine.run_sections(prop, sections, tier, seed, mkscratch, budget, log)
        if result["failure"]:
            record = dict(result["failure"], property=prop, seed=seed, tier=tier)

    stats = engine.Stats()
    stats.merge(reg_stats)
    coverage = {}
    if result:
        stats.merge(result["stats"])
        coverage["cases_per_section"] = result["cases"]
        coverage["stopped_early"] = result["stopped_early"]
    coverage.update({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": len(stats.distinct),
        "rule": module.RULE,
        "samples": stats.samples[:6],
        "classes": dict(sorted(stats.classes.items())),
        "discarded": dict(sorted(stats.discards.items())),
        "regression_cases": reg_stats.evaluations,
    })
    if hasattr(module, "extra_coverage"):
        coverage.update(module.extra_coverage())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "wall_s": round(time.time() - started, 2),
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "violations": 1 if record else 0,
    }
    ev_dir = EVIDENCE
    os.makedirs(ev_dir, exist_ok=True)
    engine.dump_json(os.path.join(ev_dir, prop + ".json"), evidence)

    for line in findings.report(module, prop, mkscratch, tier):
        print(line)

    if record:
        engine.dump_json(replay_path, record)
        print("VIOLATION property={} replay={}".format(prop, replay_path))
        print(record["message"])
        for k, x in sorted(record["detail"].items()):
            print("--- {}:\n{}".format(k, x))
        return 1
    if result["errors"]:
        print("check error:\n" + result["errors"][0])
        return 2
    floor = getattr(module, "MIN_EVALUATIONS", 20)
    if stats.evaluations < floor and not os.environ.get("VERIF_SECTION"):
        print("check error: only {} evaluations; discards: {}".format(stats.evaluations, coverage["discarded"]))
        return 2
    print("{} held: {} evaluations, {} distinct non-trivial, {:.1f} s".format(
        prop, stats.evaluations, len(stats.distinct), time.time() - started))
    return 0


def run_regressions(module, prop, tier, mkscratch, only=None):
    """Plain saved cases, run before any generation."""
    ctx = engine.Ctx(prop, tier, mkscratch())
    for name, fn in getattr(module, "REGRESSIONS", []):
        if only and name != only:
            continue
        try:
            fn(ctx)
        except engine.Violation as v:
            v.detail["regression"] = name
            return v, ctx.stats
    return None, ctx.stats


if __name__ == "__main__":
    sys.stdout.flush()
    sys.exit(main())
