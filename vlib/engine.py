"""Choice-sequence property testing engine.

A case is a function of a `Src`. A `Src` hands out bounded integers, either fresh
from a seeded generator or replayed from a recorded list, and records them
together with the spans (sub-structures) they belong to. Shrinking edits the
recorded list and runs the case again. By convention choice 0 is the simplest.
"""
import collections
import concurrent.futures as futures
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


# Violation and Discard are no Exceptions: what calls the code under test catches any Exception
class Violation(BaseException):
    """The property does not hold; `detail` is a JSON-able description."""

    def __init__(self, message, **detail):
        BaseException.__init__(self, message)
        self.message = message
        self.detail = detail

    def __reduce__(self):
        return (_rebuild_violation, (self.message, self.detail))


def _rebuild_violation(message, detail):
    return Violation(message, **detail)


class Discard(BaseException):
    """The generated case is outside of the property's domain."""


class HarnessError(Exception):
    """The check itself could not do its work."""


class _Span(object):
    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.src._open.append(len(self.src.choices))

    def __exit__(self, *_):
        start = self.src._open.pop()
        self.src.spans.append((start, len(self.src.choices)))


MAX_CHOICES = 200000


class Src(object):
    def __init__(self, seed=None, replay=None, forced=()):
        self.forced = forced
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.choices = []
        self.spans = []
        self._open = []

    def span(self):
        return _Span(self)

    def _draw(self, n):
        """Uniform integer in [0, n)."""
        index = len(self.choices)
        if index >= MAX_CHOICES:
            raise Discard("too many choices")
        if self.replay is not None:
            value = self.replay[index] if index < len(self.replay) else 0
            if value >= n:
                value = n - 1
        elif index < len(self.forced):
            value = self.forced[index]
        else:
            value = self.rng.randrange(n)
        self.choices.append(value)
        return value

    def int(self, lo, hi):
        """Uniform in [lo, hi]; simplest is lo."""
        return lo + self._draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self._draw(len(seq))]

    def chance(self, percent):
        """True with the given probability; simplest is False."""
        return self._draw(100) >= 100 - percent

    def weighted(self, pairs):
        """pairs: [(weight, value)]; simplest is the first."""
        total = sum(w for w, _ in pairs)
        x = self._draw(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def more(self, count, lo, hi, percent):
        """List continuation: True if one more element is to be drawn."""
        if count < lo:
            return True
        if count >= hi:
            return False
        return self.chance(percent)

    def bytes(self, n):
        return bytes(self._draw(256) for _ in range(n))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self._draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def fingerprint(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return int.from_bytes(h.digest(), "big")


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.classes = collections.Counter()
        self.discards = collections.Counter()
        self.samples = []
        self.sample_cap = 4

    def hit(self, nontrivial_fp=None):
        self.evaluations += 1
        if nontrivial_fp is not None:
            self.distinct.add(nontrivial_fp)

    def label(self, *names):
        for n in names:
            self.classes[n] += 1

    def label_n(self, name, n):
        self.classes[name] += n

    def sample(self, text):
        if len(self.samples) < self.sample_cap:
            self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def wants_sample(self):
        return len(self.samples) < self.sample_cap

    def merge(self, other):
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        self.classes.update(other.classes)
        self.discards.update(other.discards)
        for s in other.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


class Section(object):
    """A generated check: fn(src, ctx) raises Violation or Discard, or returns."""

    def __init__(self, name, fn, quick, thorough, shrink_s=60, forced=None, axes=()):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shrink_s = shrink_s
        self.forced = forced    # (seed, index) -> the first choices of a case, for enumerations
        self.axes = axes        # positions of choices of which every lower value is tried when a failure is shrunk


class Ctx(object):
    def __init__(self, prop, tier, scratch):
        self.prop = prop
        self.tier = tier
        self.scratch = scratch
        self.stats = Stats()
        self.shrinking = False


def case_seed(seed, prop, section, index):
    h = hashlib.blake2b("{}/{}/{}/{}".format(seed, prop, section, index).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


def run_case(section, src, ctx):
    """Returns None or a Violation."""
    try:
        section.fn(src, ctx)
    except Violation as v:
        return v
    except Discard as d:
        ctx.stats.discards[str(d)] += 1
    return None


def shrink(section, choices, spans, ctx, budget_s):
    """Returns (choices, violation) of the smallest failing case found."""
    t_end = time.time() + budget_s
    shrink_ctx = Ctx(ctx.prop, ctx.tier, ctx.scratch)
    shrink_ctx.shrinking = True
    seen = set()

    best = {"choices": list(choices), "spans": list(spans), "violation": None}

    def attempt(cand):
        if time.time() > t_end:
            return False
        key = tuple(cand)
        if key in seen:
            return False
        seen.add(key)
        src = Src(replay=cand)
        shrink_ctx.stats = Stats()
        try:
            v = run_case(section, src, shrink_ctx)
        except HarnessError:
            return False
        if v is None:
            return False
        # what was really consumed
        got = list(src.choices)
        while got and got[-1] == 0:
            got.pop()
        if (len(got), got) < (len(best["choices"]), best["choices"]) or best["violation"] is None:
            best["choices"], best["spans"], best["violation"] = got, list(src.spans), v
            return True
        return False

    first = list(choices)
    while first and first[-1] == 0:
        first.pop()
    attempt(first)
    if best["violation"] is None:
        return None, None

    for pos in section.axes:
        c = best["choices"]
        any(attempt(c[:pos] + [v] + c[pos + 1:]) for v in range(c[pos] if pos < len(c) else 0))

    improved = True
    while improved and time.time() < t_end:
        improved = False
        # delete whole spans, largest first
        i = 0
        spans_sorted = sorted(set(best["spans"]), key=lambda s: (s[0] - s[1], s[0]))
        while i < len(spans_sorted) and time.time() < t_end:
            a, b = spans_sorted[i]
            i += 1
            c = best["choices"]
            if b <= a or a >= len(c):
                continue
            if attempt(c[:a] + c[b:]) or (a > 0 and attempt(c[:a - 1] + c[b:])):
                improved = True
                spans_sorted = sorted(set(best["spans"]), key=lambda s: (s[0] - s[1], s[0]))
                i = 0
                continue
            if any(c[a:b]) and attempt(c[:a] + [0] * (b - a) + c[b:]):
                improved = True
        # delete chunks
        for size in (32, 16, 8, 4, 2, 1):
            pos = len(best["choices"]) - size
            while pos >= 0 and time.time() < t_end:
                c = best["choices"]
                if attempt(c[:pos] + c[pos + size:]):
                    improved = True
                pos -= size
        # lower single values
        pos = 0
        while pos < len(best["choices"]) and time.time() < t_end:
            c = best["choices"]
            v = c[pos]
            if v:
                if attempt(c[:pos] + [0] + c[pos + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and pos < len(best["choices"]):
                        mid = (lo + hi) // 2
                        c = best["choices"]
                        if attempt(c[:pos] + [mid] + c[pos + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
            pos += 1
    return best["choices"], best["violation"]


# ---------------------------------------------------------------- parallel run

_G = {}


def _worker_init(parent_stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G["stop"] = parent_stop


def _run_shard(job):
    section_name, indices, seed, deadline = job
    section = _G["sections"][section_name]
    ctx = Ctx(_G["prop"], _G["tier"], _G["mkscratch"]())
    failure = None
    stopped = False
    error = None
    done = 0
    for index in indices:
        if _G["stop"].is_set():
            break
        if time.time() > deadline:
            stopped = True
            break
        src = Src(seed=case_seed(seed, ctx.prop, section_name, index),
                  forced=section.forced(seed, index) if section.forced else ())
        try:
            v = run_case(section, src, ctx)
        except Exception:
            error = "section {} index {}\n{}".format(section_name, index, traceback.format_exc())
            _G["stop"].set()
            break
        done += 1
        if v is not None:
            failure = (index, list(src.choices), list(src.spans), v.message, v.detail)
            _G["stop"].set()
            break
    return section_name, done, ctx.stats, failure, stopped, error


def run_sections(prop, sections, tier, seed, mkscratch, budget_s, log):
    """Runs all the sections; returns a result dictionary."""
    _G["sections"] = {s.name: s for s in sections}
    _G["prop"] = prop
    _G["tier"] = tier
    _G["mkscratch"] = mkscratch
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    deadline = time.time() + budget_s
    jobs = []
    for s in sections:
        n = s.quick if tier == "quick" else s.thorough
        only = os.environ.get("VERIF_SECTION")
        if only and s.name != only:
            continue
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = int(n * scale) if scale != 1 else n
        shards = min(n, NPROC * 4)
        for k in range(shards):
            jobs.append((s.name, list(range(k, n, shards)), seed, deadline))
    # interleave sections so that a shared budget is spent on all of them
    jobs.sort(key=lambda j: (j[1][0], j[0]))
    total = Stats()
    per_section = collections.Counter()
    failures, errors = [], []
    stopped = False
    sys.stdout.flush()
    sys.stderr.flush()
    with futures.ProcessPoolExecutor(NPROC, mp_context=mp, initializer=_worker_init, initargs=(stop,)) as pool:
        for future in futures.as_completed([pool.submit(_run_shard, j) for j in jobs]):
            name, done, stats, failure, was_stopped, error = future.result()
            per_section[name] += done
            total.merge(stats)
            stopped = stopped or was_stopped
            if failure:
                failures.append((name,) + failure)
            if error:
                errors.append(error)
    result = {
        "stats": total,
        "cases": dict(per_section),
        "stopped_early": stopped,
        "errors": errors,
        "failure": None,
    }
    if failures:
        failures.sort(key=lambda f: len(f[2]))
        name, index, choices, spans, message, detail = failures[0]
        section = _G["sections"][name]
        log("failing case: section {} index {}: {}".format(name, index, message))
        ctx = Ctx(prop, tier, mkscratch())
        small, violation = None, None
        if section.shrink_s:
            small, violation = shrink(section, choices, spans, ctx, section.shrink_s)
        result["failure"] = {
            "section": name,
            "index": index,
            "choices": small if small is not None else choices,
            "original_choices": choices,
            "message": violation.message if violation else message,
            "detail": violation.detail if violation else detail,
            "shrunk": violation is not None,
        }
    return result


def replay(prop, sections, record, mkscratch, tier):
    section = {s.name: s for s in sections}[record["section"]]
    ctx = Ctx(prop, tier, mkscratch())
    return run_case(section, Src(replay=record["choices"]), ctx)


def dump_json(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=repr)
        f.write("\n")
    os.replace(tmp, path)
