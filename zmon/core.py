"""Run context shared by all checks: seeds, case bookkeeping, violation reports, known findings, evidence, workers."""
import hashlib
import json
import os
import sys
import threading
import time
import traceback
import concurrent.futures as cf
import multiprocessing as mp
from contextlib import contextmanager
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("ZMON_REPO", "/repo"))
SRC = REPO/"src"
MAX_REPORTED = 25


MALFORMED = (TypeError, ValueError, AttributeError, IndexError, KeyError)


class HarnessError(Exception):
    """The check itself is wrong or cannot run (never a verdict about zernpy)."""


def import_target():
    """Import zernpy from the working tree (and from nowhere else)."""
    sys.path.insert(0, str(SRC))
    import zernpy
    origin = Path(zernpy.__file__).resolve()
    if SRC.resolve() not in origin.parents:
        raise HarnessError(f"zernpy imported from {origin}, expected from {SRC}")
    return zernpy


def to_jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): to_jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return {"ndarray": list(x.shape), "dtype": str(x.dtype), "head": [to_jsonable(v) for v in x.ravel()[:12].tolist()]}
    if isinstance(x, np.generic):
        return to_jsonable(x.item())
    if isinstance(x, (list, tuple, set)):
        return [to_jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return str(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    """Collects what one run observed.  Sub-contexts (worker processes, threads) are merged into the main one."""

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, int(seed), only
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.rules = {}        # monitored rule -> number of evaluated observations
        self.events = {}       # kind of observed event -> count
        self.extra = {}
        self.violations = []
        self.n_violations = 0
        self.current = None
        self.section = ""
        self.lock = threading.Lock()
        self.thorough = tier == "thorough"

    # ---- randomness: every section has its own stream derived from VERIF_SEED
    def rng(self, *labels):
        import numpy as np
        h = hashlib.sha256(repr((self.seed, self.prop, self.tier) + labels).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- cases and observations
    def case(self, key, nontrivial=True, sample=None, **detail):
        """Start one case (input, history or schedule)."""
        self.current = {"section": self.section, "case": to_jsonable(key), **{k: to_jsonable(v) for k, v in detail.items()}}
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                self.distinct.add(hashlib.blake2b(repr((self.section, key)).encode(), digest_size=8).digest())
            if len(self.samples) < 12 and (self.evaluations in (1, 7, 40, 150, 600, 2500) or sample):
                self.samples.append(self.current)

    def event(self, kind, n=1):
        with self.lock:
            self.events[kind] = self.events.get(kind, 0) + n

    def ok(self, condition, rule, **detail):
        """One observation of the named rule; a false condition is a violation."""
        with self.lock:
            self.rules[rule] = self.rules.get(rule, 0) + 1
        if not bool(condition):
            self.violation(rule, **detail)
            return False
        return True

    def violation(self, rule, **detail):
        with self.lock:
            self.n_violations += 1
            if len(self.violations) < 200:
                self.violations.append({"rule": rule, "case": self.current, "detail": to_jsonable(detail), "section": self.section})

    @contextmanager
    def guard(self, rule="no unexpected exception"):
        """An exception out of zernpy code where none is allowed is a violation; one out of the harness is an error."""
        try:
            yield
        except (HarnessError, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: B902
            if self.from_target(e):
                self.ok(False, rule, exception=f"{type(e).__name__}: {e}", where=self.frames(e))
            elif isinstance(e, MALFORMED) and self.evaluations > 0:
                # the oracle could not even be applied to what the library returned (None, text, ragged or missing parts ...)
                self.ok(False, "the returned result has a form the oracle can be applied to", exception=f"{type(e).__name__}: {e}",
                        where=self.frames(e))
            else:
                raise
        else:
            with self.lock:
                self.rules[rule] = self.rules.get(rule, 0) + 1

    @staticmethod
    def frames(e):
        return [f"{Path(f.filename).name}:{f.lineno} {f.name}" for f in traceback.extract_tb(e.__traceback__)][-6:]

    @staticmethod
    def from_target(e):
        root = str(SRC)
        seen = set()
        while e is not None and id(e) not in seen:
            seen.add(id(e))
            if any(str(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__)):
                return True
            e = e.__cause__ or e.__context__
        return False

    def raises(self, exc, fn, rule, **detail):
        """fn() must raise exc (and nothing else)."""
        try:
            res = fn()
        except exc:
            return self.ok(True, rule)
        except BaseException as e:  # noqa: B902
            return self.ok(False, rule, got=f"{type(e).__name__}: {e}", expected=str(exc), **detail)
        return self.ok(False, rule, got=f"returned {res!r}"[:300], expected=str(exc), **detail)

    # ---- merging
    def sub(self):
        c = Ctx(self.prop, self.tier, self.seed, self.only)
        c.section = self.section
        return c

    def export(self):
        d = {k: getattr(self, k) for k in ("evaluations", "distinct", "samples", "rules", "events", "violations", "n_violations", "extra")}
        return d

    def merge(self, d):
        with self.lock:
            self.evaluations += d["evaluations"]; self.distinct |= d["distinct"]
            self.samples += d["samples"][:max(0, 12 - len(self.samples))][:3]
            for name in ("rules", "events"):
                tgt = getattr(self, name)
                for k, v in d[name].items():
                    tgt[k] = tgt.get(k, 0) + v
            self.violations += d["violations"][:max(0, 200 - len(self.violations))]
            self.n_violations += d["n_violations"]
            for k, v in d["extra"].items():
                if isinstance(v, (int, float)) and isinstance(self.extra.get(k), (int, float)):
                    self.extra[k] = max(v, self.extra[k])
                else:
                    self.extra.setdefault(k, v)

    def pmap(self, func, items, workers=8, timeout=None):
        """Run func(ctx, item) in forked worker processes; returns the list of results."""
        items = list(items)
        if not items:
            return []
        out = []
        with cf.ProcessPoolExecutor(min(workers, len(items)), mp_context=mp.get_context("fork")) as ex:
            futs = [ex.submit(_task, func, (self.prop, self.tier, self.seed, self.only, self.section), it) for it in items]
            for f in futs:
                data, res, err = f.result(timeout=timeout)
                self.merge(data)
                if err:
                    raise HarnessError("worker failed: " + err)
                out.append(res)
        return out


def _task(func, args, item):
    ctx = Ctx(*args[:4]); ctx.section = args[4]
    try:
        res = None; err = None
        with ctx.guard():
            res = func(ctx, item)
    except BaseException:  # noqa: B902
        err = traceback.format_exc()
    return ctx.export(), res, err


# ---------------------------------------------------------------- known findings
def load_known():
    path = VERIF/"known_findings.json"
    if not path.exists():
        return []
    return json.loads(path.read_text())["findings"]


def is_known(v, prop, known):
    for k in known:
        if k["property"] == prop and k["rule"] == v["rule"] and all(
                (v["case"] or {}).get(a) == b for a, b in k.get("case", {}).items()):
            return k
    return None


# ---------------------------------------------------------------- finishing
def finish(ctx, rule_text, level, assumptions):
    known = load_known()
    fresh = []; old = {}
    for v in ctx.violations:
        k = is_known(v, ctx.prop, known)
        if k is None:
            fresh.append(v)
        else:
            old[k["what"]] = k
    for what in old:
        print(f"KNOWN-FINDING: property={ctx.prop} {what}")
    ev_dir = VERIF/"evidence"; ev_dir.mkdir(exist_ok=True)
    evidence = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.distinct), "rule": rule_text,
                     "samples": ctx.samples[:12] or [{"note": "no case was run"}],
                     "observations_per_rule": dict(sorted(ctx.rules.items())), "observed_events": dict(sorted(ctx.events.items())),
                     **{k: to_jsonable(v) for k, v in ctx.extra.items()}},
        "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(fresh)}
    (ev_dir/f"{ctx.prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False))
    if fresh:
        rep_dir = ev_dir/"replay"; rep_dir.mkdir(exist_ok=True)
        for i, v in enumerate(fresh[:MAX_REPORTED]):
            path = rep_dir/f"{ctx.prop}-{ctx.tier}-{ctx.seed}-{i}.json"
            path.write_text(json.dumps({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, **v,
                                        "how": f"VERIF_SEED={ctx.seed} ./check {ctx.prop} {ctx.tier}  (or: ./check --replay {path})"},
                                       indent=1, ensure_ascii=False))
            if i < 8:
                print(f"  [{v['section']}] {v['rule']}: case={json.dumps(v['case'], ensure_ascii=False)[:300]} "
                      f"detail={json.dumps(v['detail'], ensure_ascii=False)[:600]}")
            if i == 0:
                first = path
        print(f"{ctx.n_violations} violating observations")
        print(f"VIOLATION property={ctx.prop} replay={first}")
        return 1
    n_obs = sum(ctx.rules.values())
    if n_obs == 0:
        print(f"{ctx.prop}: no monitor was reached, no verdict")
        return 3
    print(f"{ctx.prop} {ctx.tier} seed={ctx.seed}: {ctx.evaluations} cases, {len(ctx.distinct)} distinct non-trivial, "
          f"{n_obs} observations of {len(ctx.rules)} rules, {evidence['wall_s']} s: held")
    return 0
