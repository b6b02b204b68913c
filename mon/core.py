"""Monitor object, check runner, evidence, verdicts."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.json")


class SutError(Exception):
    """The code under test raised on valid input."""


class Mon:
    """Collects what the monitors observed in one (or many merged) cases."""

    def __init__(self, case=None):
        self.case = case
        self.events = Counter()  # observed events by kind
        self.checks = Counter()  # oracle decisions by kind
        self.sigs = set()  # distinct non-trivial observations
        self.worst = {}  # largest error / tolerance by oracle
        self.violations = []
        self.known = []
        self.samples = []

    # --- observation -----------------------------------------------------
    def event(self, kind, n=1):
        self.events[kind] += n

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def call(self, label, fn, *a, **k):
        """Run the code under test on valid input."""
        self.events["call:" + label] += 1
        try:
            return fn(*a, **k)
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-6)
            self.fail("raises:" + label,
                      f"{label}: {type(e).__name__}: {str(e)[:300]}", tb=tb)
            raise SutError(label) from e

    # --- oracles -----------------------------------------------------------
    def fail(self, kind, detail, key=None, **extra):
        v = {"kind": kind, "detail": str(detail)[:2000], "key": key,
             "case": self.case}
        v.update(extra)
        self.violations.append(v)

    def ok(self, kind, cond, detail="", key=None, **extra):
        self.checks[kind] += 1
        if not bool(cond):
            self.fail(kind, detail() if callable(detail) else detail, key,
                      **extra)
            return False
        return True

    def close(self, kind, got, want, rtol=1e-9, atol=0.0, scale=None,
              detail="", key=None):
        """|got - want| <= rtol * scale + atol elementwise; NaN never passes."""
        import numpy as np

        self.checks[kind] += 1
        got = np.asarray(to_np(got), dtype=float)
        want = np.asarray(to_np(want), dtype=float)
        if got.shape != want.shape:
            self.fail(kind, f"shape {got.shape} != {want.shape} {detail}", key)
            return False
        if got.size == 0:
            return True
        sc = np.abs(want) if scale is None else np.asarray(to_np(scale), float)
        with np.errstate(invalid="ignore", over="ignore"):
            tol = rtol * sc + atol
            err = np.abs(got - want)
        # an infinite tolerance (scale) decides nothing
        good = ((err <= tol) & np.isfinite(tol)) | (
            np.isinf(want) & (got == want))
        good &= ~np.isnan(got) & ~np.isnan(want)
        with np.errstate(divide="ignore", invalid="ignore"):
            ratio = np.where(err == 0, 0.0, err / tol)
        if np.all(np.isfinite(ratio)):
            self.worst[kind] = max(self.worst.get(kind, 0.0),
                                   float(np.max(ratio)))
        if np.all(good):
            return True
        i = np.unravel_index(
            int(np.argmax(np.where(np.isfinite(ratio), np.where(good, -1,
                                                                 ratio),
                                   np.where(good, -1, np.inf)))), got.shape)
        tolb = np.broadcast_to(tol, got.shape)
        self.fail(kind, f"at {tuple(int(x) for x in i)}: got {got[i]!r} want "
                        f"{want[i]!r} tol {tolb[i]:.3e} "
                        f"({int((~good).sum())}/{got.size} off) {detail}", key)
        return False

    def merge(self, o):
        self.events.update(o.events)
        self.checks.update(o.checks)
        self.sigs |= o.sigs
        for k, v in o.worst.items():
            self.worst[k] = max(self.worst.get(k, 0.0), v)
        self.violations += o.violations
        self.known += o.known
        if len(self.samples) < 4:
            self.samples += o.samples[: 4 - len(self.samples)]


def to_np(x):
    if hasattr(x, "detach"):
        return x.detach().cpu().numpy()
    return x


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if hasattr(x, "tolist"):
        return x.tolist()
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


# --- workers ----------------------------------------------------------------

_MOD = None


def _init_torch():
    import torch

    torch.set_num_threads(1)


def _run_case(case):
    mon = Mon(case)
    err = None
    try:
        _MOD.run(case, mon)
    except SutError:
        pass
    except Exception:  # noqa: BLE001
        err = traceback.format_exc(limit=-8)
    mon.events["cases"] += 1
    return mon, err


def prepare():
    """Import the code under test from the working tree, freshly compiled."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    _init_torch()
    # Third-party modules may use their bytecode caches, but the code under test
    # is always compiled from the current source text.
    import tad_mctc.ncoord  # noqa: F401
    import tad_multicharge  # noqa: F401
    import numpy.testing  # noqa: F401

    sys.pycache_prefix = "/nonexistent/verif-no-bytecode-cache"
    import tad_dftd4

    p = os.path.realpath(tad_dftd4.__file__)
    if not p.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"tad_dftd4 imported from {p}, not from {src}")

    # Load lazily imported modules before the workers are forked (no autograd:
    # its threads do not survive a fork). Failures show up in the cases.
    import torch

    try:
        n = torch.tensor([8, 1, 1])
        x = torch.tensor([[0., 0., 0.], [1.8, 0., 0.], [0., 1.8, 0.]])
        p = {"s8": 1.0, "a1": 0.4, "a2": 5.0}
        for m in ("d4", "d4s"):
            tad_dftd4.dftd4(n, x, 0, p, model=m)
        tad_dftd4.D4Model(n, ref_charges="gfn2").weight_references()
    except Exception:  # noqa: BLE001
        pass


def load_known(pid):
    try:
        with open(KNOWN) as fp:
            d = json.load(fp)
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in d.get("known", []) if e["property"] == pid}


def main(argv=None):
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(
        os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("--only", help="substring of the case kind")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.property.upper()
    t0 = time.time()
    limit = a.limit or (600.0 if a.tier == "quick" else 7200.0)

    prepare()
    _MOD = importlib.import_module("mon.props." + pid.lower())

    if a.replay:
        with open(a.replay) as fp:
            cases = [json.load(fp)["case"]]
    else:
        cases = list(_MOD.cases(a.tier, a.seed))
    if a.only:
        cases = [c for c in cases if a.only in str(c.get("kind"))]

    total = Mon()
    listed = load_known(pid)
    errors = []
    skipped = 0
    if a.jobs <= 1 or len(cases) == 1:
        for c in cases:
            if time.time() - t0 > limit:
                skipped += 1
                continue
            m, e = _run_case(c)
            total.merge(m)
            if e:
                errors.append((c, e))
    else:
        import multiprocessing as mp
        from concurrent.futures import (FIRST_COMPLETED, ProcessPoolExecutor,
                                        wait)

        from concurrent.futures.process import BrokenProcessPool

        ctx = mp.get_context("fork")

        def pool():
            return ProcessPoolExecutor(a.jobs, mp_context=ctx,
                                       initializer=_init_torch)

        ex = pool()
        todo = list(cases)[::-1]
        live = {}
        suspects = []
        try:
            while todo or live:
                broken = False
                while todo and len(live) < 2 * a.jobs and not broken:
                    c = todo.pop()
                    try:
                        live[ex.submit(_run_case, c)] = c
                    except BrokenProcessPool:
                        todo.append(c)
                        broken = True
                left = limit - (time.time() - t0)
                if left <= 0:
                    break
                done, _ = wait(list(live), timeout=left,
                               return_when=FIRST_COMPLETED)
                for f in done:
                    c = live.pop(f)
                    e = None
                    try:
                        m, e = f.result()
                        total.merge(m)
                    except BrokenProcessPool:
                        broken = True
                        suspects.append(c)
                    except Exception:  # noqa: BLE001
                        e = traceback.format_exc(limit=-4)
                    if e:
                        errors.append((c, e))
                if broken:
                    # a worker died: its cases are repeated in isolation
                    suspects += list(live.values())
                    live = {}
                    ex.shutdown(wait=False, cancel_futures=True)
                    ex = pool()
                    if len(suspects) > 80:
                        break
                if len(errors) > 50 or sum(
                        v.get("key") not in listed
                        for v in total.violations) > 400:
                    skipped += len(todo)
                    todo = []
                    break
            skipped += len(todo) + len(live)
        finally:
            for pr in list((getattr(ex, "_processes", None) or {}).values()):
                pr.terminate()
            ex.shutdown(wait=False, cancel_futures=True)
        for c in suspects:
            with ProcessPoolExecutor(1, mp_context=ctx,
                                     initializer=_init_torch) as one:
                try:
                    m, e = one.submit(_run_case, c).result()
                    total.merge(m)
                except BrokenProcessPool:
                    e = None
                    m = Mon(c)
                    m.fail("crash", "the process running this case died")
                    total.merge(m)
                if e:
                    errors.append((c, e))

    # --- verdict ---------------------------------------------------------------
    known = listed
    seen_known = {}
    viol = []
    for v in total.violations:
        if v.get("key") and v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            viol.append(v)

    min_obs = getattr(_MOD, "MIN", {})
    missing = []
    if not a.replay and not a.only:
        cnt = Counter(total.checks)
        cnt.update(total.events)
        # a slow machine may not get through all cases within the time limit
        part = 1.0
        if skipped and not errors and not viol:
            part = max(0.25, total.events["cases"] / max(1, len(cases)))
        for k, n in min_obs.items():
            n = n if isinstance(n, int) else n[a.tier]
            n = int(n * part) if part < 1.0 else n
            if k.startswith("#"):
                cnt[k] = sum(1 for e in total.events if e.startswith(k[1:])
                             and e[len(k) - 1:].isdigit())
            if cnt[k] < n:
                missing.append(f"{k}: {cnt[k]} < {n}")

    rdir = os.path.join(VERIF, "evidence", "replays")
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        bykind = {}
        for v in viol:
            bykind.setdefault(v["kind"], []).append(v)
        for i, (k, vs) in enumerate(sorted(bykind.items())):
            if i >= 5:
                break
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as fp:
                json.dump(jsonable({"property": pid, "count": len(vs),
                                    "seed": a.seed, "tier": a.tier,
                                    **vs[0]}), fp, indent=1)
            lines.append(f"VIOLATION property={pid} replay={path}")
            print(f"# {pid} {k}: {len(vs)} violation(s); first: "
                  f"{vs[0]['detail'][:500]} case={json.dumps(jsonable(vs[0]['case']))[:300]}")
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(sum(total.checks.values())),
            "distinct_nontrivial": len(total.sigs),
            "rule": getattr(_MOD, "RULE", ""),
            "samples": jsonable(total.samples[:4]) or [jsonable(cases[0])],
            "cases_planned": len(cases),
            "cases_run": int(total.events.get("cases", 0)),
            "cases_skipped": skipped,
            "events": dict(sorted(total.events.items())),
            "oracle_decisions": dict(sorted(total.checks.items())),
            "worst_error_over_tolerance": {
                k: float(f"{v:.3g}") for k, v in sorted(total.worst.items())},
            "harness_errors": len(errors),
            "known_findings": sorted(seen_known),
        },
        "assumptions": getattr(_MOD, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if os.environ.get("VERIF_MARGINS") and min_obs and not a.only:
        for k, n in min_obs.items():
            n = n if isinstance(n, int) else n[a.tier]
            if cnt[k] < 1.5 * n and not k.startswith("#"):
                print(f"MARGIN {pid} {k}: {cnt[k]} / {n}")
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
            json.dump(jsonable(ev), fp, indent=1)
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    print(f"# {pid} tier={a.tier} seed={a.seed} cases={total.events['cases']}"
          f"/{len(cases)} decisions={sum(total.checks.values())} "
          f"distinct={len(total.sigs)} wall={wall:.1f}s "
          f"violations={len(viol)} errors={len(errors)} skipped={skipped}")
    if a.v:
        print(json.dumps(jsonable(ev["coverage"]), indent=1)[:6000])
    if viol:
        for ln in lines:
            print(ln)
        return 1
    if errors:
        print("INCONCLUSIVE: harness error\n" + errors[0][1] + "\ncase="
              + json.dumps(jsonable(errors[0][0]))[:500])
        return 2
    if missing:
        print("INCONCLUSIVE: too few observations: " + "; ".join(missing))
        return 2
    return 0
