"""C12: evaluations are pure: no side effects, no history, no interference."""
from __future__ import annotations

import contextlib
import copy
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import (ROUTES, config, evaluate, kwargs, offboundary, pick_api,
                      plain, reference)
from ..sut import DAMP, N, T, d4, model, tparam

RULE = (
    "Sanitized evaluations (every configuration of the energy function and entry "
    "point, properties, weights, gradients) with byte-exact snapshots and tensor "
    "version counters of all arguments, process-global state (default dtype, "
    "grad/inference modes, random generators, warning filters, environment, "
    "package data tensors, class attributes) and an audit hook for file, process "
    "and network access; histories of other evaluations around a probe, with "
    "near-collisions (same shape or elements, other values, dtypes, factors, "
    "reused objects and addresses); callers that modify their own tensors, "
    "dictionaries and cutoffs in place between evaluations; results kept over "
    "later evaluations and results modified by the caller; terms, damping and "
    "CN functions of the caller that keep what they returned and received; no_grad / "
    "inference_mode / default-dtype interleavings; threads with a 1 us switch "
    "interval on private and shared objects; directed preemption: an evaluation "
    "is suspended at a chosen line or bytecode of the package while another "
    "thread runs a complete evaluation on the same damping function, method or "
    "model object. Non-trivial: a probe re-evaluated "
    "after at least one different evaluation, or an evaluation overlapping "
    "others; distinct by history."
)
ASSUME = [
    "the `doi` label that a damping object remembers from its last call is "
    "metadata, not an input or result, and is not monitored",
    "results are compared with a relative tolerance of 1e-10 (1e-5 in single "
    "precision), not bitwise",
    "internal caches are allowed as long as no result depends on them",
]
MIN = {"inputs_unchanged": 200, "globals_unchanged": 200, "repeat": 200,
       "history": 600, "inplace": 200, "modes": 100, "threads": 300,
       "overlaps": 50, "model_kwargs": 50, "audit": 200, "snapshots": 2000, "accumulate": 10,
       "doi": 30, "accumulated": 30, "computed": 15,
       "reuse": 150, "retained": 1500, "results_owned": 1500, "preempted": 1800, "preempting": 1800,
       "foreign_memory": 15, "crash_state": 1000, "crash_later": 1000, "fault_state": 600,
       "fault_later": 250, "parts_kept": 300, "seen_globals": 1500}


warnings.filterwarnings("ignore", message=".*model_kwargs.*")


def cases(tier, seed):
    n = {"quick": 1, "thorough": 30}[tier]
    out = []
    for kind, k in (("sanitize", 200), ("history", 64), ("inplace", 64),
                    ("retain", 60), ("modes", 40), ("reuse", 40), ("threads", 24),
                    ("preempt", 120), ("crash", 120), ("fault", 120),
                    ("parts", 60)):
        out += [{"kind": kind, "i": i, "seed": seed} for i in range(k * n)]
    return out


def run(case, mon):
    rng = gen.rs("c12", case["kind"], case["i"], case["seed"])
    {"sanitize": _sanitize, "history": _history, "inplace": _inplace,
     "retain": _retain, "modes": _modes, "reuse": _reuse, "threads": _threads,
     "preempt": _preempt, "crash": _crash, "fault": _fault,
     "parts": _parts}[case["kind"]](rng, mon, case)


# --- sanitizer -----------------------------------------------------------------

def tensor_fp(t):
    v = t._version if not t.is_inference() else -1
    grad = None
    if t.is_leaf and t.grad is not None:
        grad = (id(t.grad), t.grad.detach().contiguous().numpy().tobytes())
    return (id(t), v, t.dtype, tuple(t.shape), t.requires_grad, t.is_leaf,
            t.retains_grad, len(t._backward_hooks or ()), grad,
            t.detach().cpu().contiguous().numpy().tobytes())


def obj_fp(x):
    if isinstance(x, torch.Tensor):
        return tensor_fp(x)
    if isinstance(x, dict):
        return tuple((k, id(v), obj_fp(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(obj_fp(v) for v in x)
    if isinstance(x, (d4.Cutoff, d4.D4Model, d4.D4SModel)):
        out = []
        for c in type(x).__mro__:
            for s in getattr(c, "__slots__", ()):
                # private slots may hold caches
                if not s.startswith("_") and hasattr(x, s):
                    out.append((s, obj_fp(getattr(x, s))))
        return tuple(out)
    return repr(x) if isinstance(x, (int, float, str, bool, type(None))) \
        else type(x).__name__


def _sha(b):
    return hashlib.sha1(b).hexdigest()


class _Ids(dict):
    """Identities of the functions and classes of a namespace. Names that appear
    or disappear (lazy imports) are no difference, replaced ones are."""

    def __init__(self, ns):
        super().__init__((k, id(v)) for k, v in list(ns.items()) if callable(v)
                         and not k.startswith("_"))

    def __eq__(self, other):
        return all(other.get(k, v) == v for k, v in self.items())

    def __ne__(self, other):
        return not self == other


def _umask():
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("Umask"):
                return line.split()[1]
    return None


def global_fp():
    g = {
        "default dtype": torch.get_default_dtype(),
        "grad mode": torch.is_grad_enabled(),
        "inference mode": torch.is_inference_mode_enabled(),
        "anomaly": torch.is_anomaly_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "threads": torch.get_num_threads(),
        "torch rng": _sha(torch.get_rng_state().numpy().tobytes()),
        "numpy rng": _sha(repr(np.random.get_state()).encode()),
        "python rng": _sha(repr(random.getstate()).encode()),
        "environ": _sha(repr(sorted(os.environ.items())).encode()),
        "cwd": os.getcwd(),
        "warning filters": _sha(repr(warnings.filters).encode()),
        "switch interval": sys.getswitchinterval(),
        "recursion limit": sys.getrecursionlimit(),
        "numpy errors": repr(np.geterr()),
        "print options": repr(torch._tensor_str.PRINT_OPTS),
        "default device": str(torch.get_default_device()),
        "matmul precision": torch.get_float32_matmul_precision(),
        "deterministic warn": torch.is_deterministic_algorithms_warn_only_enabled(),
        "anomaly nan check": torch.is_anomaly_check_nan_enabled(),
        "warn always": torch.is_warn_always_enabled(),
        "autocast": torch.is_autocast_enabled("cpu"),
        "multithreaded grad": torch.autograd.is_multithreading_enabled(),
        "view replay": torch.autograd.is_view_replay_enabled(),
        "flush denormal": float(torch.tensor([1e-310],
                                             dtype=torch.float64) * 0.5) == 0.0,
        "mkldnn": torch.backends.mkldnn.enabled,
        "gc": (gc.isenabled(), gc.get_threshold()),
        "logging": (logging.root.level, logging.root.disabled,
                    len(logging.root.handlers), logging.root.manager.disable),
        "signals": tuple(repr(signal.getsignal(k)) for k in (2, 8, 11, 14, 15)),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal": repr(decimal.getcontext().prec),
        "int digits": sys.get_int_max_str_digits(),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "excepthook": (id(sys.excepthook), id(sys.displayhook)),
        "path": tuple(sys.path),
        "umask": _umask(),
    }
    # nobody else's functions are replaced, nobody else's tables changed
    for name in ("torch", "torch.nn.functional", "torch.linalg", "math", "numpy",
                 "tad_mctc.storch", "builtins", "copy", "inspect", "tomli"):
        mod = sys.modules.get(name)
        if mod is not None:
            g["functions of " + name] = _Ids(vars(mod))
    g["functions of Tensor"] = _Ids(vars(torch.Tensor))
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(("tad_mctc", "tad_multicharge")):
            continue
        if name.split(".")[-1] != "__init__":
            g["functions of " + name] = _Ids(vars(mod))
        for k, v in list(vars(mod).items()):
            if type(v) is torch.Tensor and not v.is_inference():
                g[f"{name}.{k}@{id(v)}"] = (v.dtype, v._version, v.requires_grad)
            elif isinstance(v, (float, int, str)) and k.isupper():
                g[f"{name}.{k}"] = v
    for name, mod in list(sys.modules.items()):
        if not name.startswith("tad_dftd4") or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, torch.Tensor):
                # a private name may be bound to another tensor (a cache)
                g[f"{name}.{k}@{id(v)}" if k.startswith("_")
                  else f"{name}.{k}"] = (
                    v.dtype, tuple(v.shape), v.requires_grad,
                    -1 if v.is_inference() else v._version,
                    _sha(v.detach().numpy().tobytes()))
            elif isinstance(v, (float, str)) and name.endswith("defaults"):
                g[f"{name}.{k}"] = v
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

    for c in (DispD4, DispD4Exact):
        g[c.__name__] = repr(getattr(c, "TERMS", None))
    for n, c in DAMP.items():
        g["damping " + n] = (
            repr(getattr(c, "radius_type", None)),
            repr(getattr(c, "REQUIRED_BY_ORDER", None)))
    return g


_AUDIT = {"on": False, "log": []}


def _hook(event, args):
    if not _AUDIT["on"]:
        return
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        m = mode or ""
        w = any(c in m for c in "wax+") or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR
                                                | os.O_CREAT | os.O_TRUNC))
        if w and not str(path).startswith(("/dev/", "/proc/")):
            _AUDIT["log"].append((event, str(path), m))
    elif event.startswith(("os.remove", "os.rename", "os.mkdir", "os.rmdir",
                           "shutil.", "subprocess.", "socket.", "os.system",
                           "os.putenv", "os.chdir", "os.kill", "os.fork",
                           "os.exec", "urllib.")):
        _AUDIT["log"].append((event, repr(args)[:100]))


_HOOKED = False


def audited(mon, fn):
    global _HOOKED
    if not _HOOKED:
        sys.addaudithook(_hook)
        _HOOKED = True
    _AUDIT["log"] = []
    _AUDIT["on"] = True
    try:
        return fn()
    finally:
        _AUDIT["on"] = False
        mon.ok("audit", not _AUDIT["log"], f"side effects {_AUDIT['log'][:3]}")


def guarded(mon, label, objs, fn):
    """Run fn, comparing all arguments and the global state before and after."""
    before = {k: obj_fp(v) for k, v in objs.items()}
    g0 = global_fp()
    mon.event("snapshots", len(before) + len(g0))
    out = audited(mon, fn)
    g1 = global_fp()
    for k, v in objs.items():
        mon.ok("inputs_unchanged", obj_fp(v) == before[k],
               f"{label}: argument {k} was modified")
    bad = [k for k in g0 if k in g1 and g0[k] != g1[k]]
    mon.ok("globals_unchanged", not bad, f"{label}: changed global state {bad}")
    return out


def tol(dtype):
    return 1e-10 if dtype == torch.float64 else 1e-5


def same(mon, kind, got, want, detail):
    got = got if isinstance(got, (tuple, list)) else [got]
    want = want if isinstance(want, (tuple, list)) else [want]
    for a, b in zip(got, want):
        mon.close(kind, a, b, rtol=tol(b.dtype), atol=1e-300,
                  scale=float(b.detach().abs().max()) + 1e-30, detail=detail)


# --- jobs: closures over concrete argument objects -------------------------------

def job(rng, mon, dtype=None, shared=None, grad=None):
    """Random evaluation: (label, objects, callable returning tensors)."""
    z, x, _ = gen.molecule(rng, nmax=6)
    c = config(rng, z)
    x = offboundary(z, x, c)
    dtype = dtype or (torch.float32 if rng.rand() < 0.25 else torch.float64)
    nb, xt = N(z), T(x, dtype)
    p = tparam(c["p"], dtype) if rng.rand() < 0.6 else dict(c["p"])
    ch = T(c["charge"], dtype) if rng.rand() < 0.6 else c["charge"]
    kw = kwargs(nb, c, dtype, force_instance=rng.rand() < 0.3)
    grad = rng.rand() < 0.3 if grad is None else grad
    if rng.rand() < 0.25:
        p["doi"] = "10.1063/1.4993215"
        mon.event("doi")
    if grad:
        xt.requires_grad_(True)
        for k, v in list(p.items()):
            if isinstance(v, torch.Tensor):
                v.requires_grad_(True)
        u = rng.rand()
        if u < 0.4:
            # gradients the caller accumulated earlier
            for v in [xt, *p.values()]:
                if isinstance(v, torch.Tensor):
                    v.grad = torch.full_like(v, 0.75).detach()
            mon.event("accumulated")
        elif u < 0.6:
            xt = xt * 1.0  # computed by the caller
            mon.event("computed")
    what = str(rng.choice(["dftd4", "dftd4", "class", "exact", "props",
                           "weights"]))
    objs = {"numbers": nb, "positions": xt, "charge": ch, "param": p, **{
        k: v for k, v in kw.items() if k != "damping_function"}}
    if what == "props":
        co = kw.get("cutoff")

        def fn():
            return list(mon.call("get_properties", d4.get_properties, nb, xt,
                                 ch, co))
    elif what == "weights":
        m = kw["model"] if not isinstance(kw["model"], str) else model(
            nb, c["kind"], dtype)
        cn = T(np.abs(rng.normal(size=len(z))) * 2, dtype)
        q = T(rng.normal(size=len(z)) * 0.3, dtype)
        objs.update(model=m, cn=cn, q=q)

        def fn():
            w, dq = mon.call("weights", m.weight_references, cn, q,
                             with_dgwdq=True)
            out = [w.clone(), dq]
            fp = tensor_fp(w)
            for name in ("get_atomic_c6", "get_weighted_pols",
                         "get_polarizabilities"):
                out.append(mon.call(name, getattr(m, name), w))
                mon.ok("inputs_unchanged", tensor_fp(w) == fp,
                       f"{name} modifies the weights")
            return out
    else:
        mkw = None
        if what != "dftd4" and rng.rand() < 0.4:
            # keyword arguments of the model: used, or ignored with a warning
            mkw = {"ga": 2.5, "gc": 1.5}
            if rng.rand() < 0.5:
                mkw["wf"] = T(4.0, dtype)
            objs["model_kwargs"] = mkw
            mon.event("model_kwargs")
        ckw = None
        if what != "dftd4" and rng.rand() < 0.4:
            # keyword arguments of the coordination number function
            from tad_mctc import ncoord

            ckw = {"cn_fn": ncoord.cn_d4, "cn_fn_kwargs": {
                "counting_function": [ncoord.erf_count, ncoord.exp_count][
                    rng.randint(2)]}}
            if rng.rand() < 0.3:
                del ckw["cn_fn"]
            objs["cn_fn_kwargs"] = ckw["cn_fn_kwargs"]
            mon.event("cn_fn_kwargs")

        def energy():
            return evaluate(mon, nb, xt, ch, p, kw, what, model_kwargs=mkw,
                            cn_kwargs=ckw)

        def fn():
            e = energy()
            if grad:
                g = torch.autograd.grad(e.sum(), xt)[0]
                return [e, g]
            return [e]

        fn.energy = energy
    lab = f"{what} {c['kind']} {c['damping']} {z.tolist()} {dtype}"
    return lab, objs, fn


def _detach(r):
    return [t.detach().clone() for t in r]


def _sanitize(rng, mon, case):
    lab, objs, fn = job(rng, mon)
    a = _detach(guarded(mon, lab, objs, fn))
    b = _detach(guarded(mon, "repeat " + lab, objs, fn))
    same(mon, "repeat", b, a, lab)
    x = objs["positions"]
    if x.requires_grad and x.is_leaf and hasattr(fn, "energy"):
        # backward accumulates into what the caller already has
        old = torch.zeros_like(x) if x.grad is None else x.grad.clone()
        for _ in range(2):
            fn.energy().sum().backward()
        same(mon, "accumulate", x.grad, old + 2 * b[1], lab)
    mon.sample({"job": lab, "globals": len(global_fp())})


def _near(rng, z, x, c, dtype):
    """A configuration that is easily confused with the probe."""
    z, x, c = np.array(z), np.array(x), dict(c)
    k = rng.randint(9)
    if k == 8 and len(z) > 1:
        # isoelectronic: same shape, same sum
        a, b = rng.choice(len(z), 2, replace=False)
        if z[a] < 86 and z[b] > 1:
            z[a] += 1
            z[b] -= 1
        x = gen.grow(rng, z)
        k = 1
    elif k == 0:
        x = x * rng.uniform(1.02, 1.2)
    elif k == 1 or k == 8:
        k = 1
        z = np.array([int(rng.randint(1, 87)) for _ in z])
        x = gen.grow(rng, z)
    elif k == 2:
        z, x = z[::-1].copy(), x.copy()
        x = gen.grow(rng, z)
    elif k == 3:
        c["charge"] = float(c["charge"]) + 1.0
        c["q"] = None
    elif k == 4:
        c["kind"] = "d4s" if c["kind"] == "d4" else "d4"
    elif k == 5:
        c["model"] = {"wf": float(rng.choice([3.0, 4.0, 7.0])),
                      "ga": float(rng.choice([2.0, 3.0]))}
    elif k == 6:
        c["p"] = gen.param(rng)
        c["damping"] = "rational"
    else:
        c["cutoff"] = {"disp2": 8.0, "disp3": 7.25, "cn_eeq": 6.5}
    if k in (1, 2):
        for f in ("q", "r4r2", "rvdw"):
            c[f] = None
        if "ref_charges" in c["model"]:
            c["model"] = {}
    return z, x, c


def _history(rng, mon, case):
    z, x, _ = gen.molecule(rng, nmax=6)
    c = config(rng, z)
    c["damping"], c["p"] = "rational", gen.param(rng)
    x = offboundary(z, x, c)
    api = pick_api(rng, ("dftd4", "dftd4", "class"))
    c["api"] = api
    ref = reference(z, x, c)

    # one context for the whole history, or a mixture
    ctx = [contextlib.nullcontext, torch.no_grad, torch.inference_mode,
           None][rng.choice(4, p=[0.4, 0.3, 0.1, 0.2])]

    def within():
        if ctx is not None:
            return ctx()
        return [contextlib.nullcontext, torch.no_grad,
                torch.inference_mode][rng.randint(3)]()

    def probe(tag):
        # fresh objects every time
        with within():
            e = evaluate(mon, N(z), T(x), c["charge"], dict(c["p"]),
                         kwargs(N(z), c), api)
            return torch.tensor(e.detach().numpy().copy()), tag

    first, _ = probe("first")
    if not ref["ambiguous"]:
        mon.close("history", first, ref["e"], scale=ref["scale"] + 1e-30,
                  rtol=1e-6 if ref["tiny_cn"] else 1e-8, atol=1e-13,
                  detail=f"{z.tolist()} closed form")
    steps = []
    for s in range(12):
        if rng.rand() < 0.7:
            z2, x2, c2 = _near(rng, z, x, c, None)
            dt = torch.float32 if rng.rand() < 0.3 else torch.float64
            with within():
                evaluate(mon, N(z2), T(x2, dt, grad=bool(rng.rand() < 0.3)),
                         c2["charge"], dict(c2["p"]), kwargs(N(z2), c2, dt),
                         str(rng.choice(["dftd4", "class", "exact"]))
                         if c2["damping"] == "rational" else "dftd4")
            steps.append("near")
        else:
            lab, _, fn = job(rng, mon)
            fn()
            steps.append(lab.split()[0])
        e, _ = probe(s)
        mon.close("history", e, first, rtol=1e-10, atol=1e-300,
                  scale=float(first.abs().max()) + 1e-30,
                  detail=f"{z.tolist()} after {steps}")
        mon.nontrivial(case["i"], case["seed"], tuple(steps))


def _inplace(rng, mon, case):
    """The caller changes its own objects between evaluations."""
    z, x, _ = gen.molecule(rng, nmax=6)
    n = len(z)
    kind = str(rng.choice(["d4", "d4s"]))
    nb, xt = N(z), T(x)
    damping = str(rng.choice(["rational", "rational", "zero", "mzero", "op"]))
    p = gen.param(rng, damping)
    tp = tparam(p)
    cut = d4.Cutoff(dtype=torch.float64)
    ch = T(0.0)
    q = T(np.zeros(n))
    own = rng.rand() < 0.5
    if own:
        # memory of the caller, changed without notice
        bufs = {k: v.numpy().copy() for k, v in
                (("n", nb), ("x", xt), ("c", ch), ("q", q))}
        nb, xt, ch, q = (torch.from_numpy(bufs[k]) for k in "nxcq")
        pb = {k: np.array(float(v)) for k, v in tp.items()}
        tp = {k: torch.from_numpy(v) for k, v in pb.items()}
        mon.event("foreign_memory")
    useq = rng.rand() < 0.3
    api = pick_api(rng, ("dftd4", "dftd4", "class"))
    fn = {"rational": None, "zero": d4.damping.ZeroDamping(),
          "mzero": d4.damping.MZeroDamping(),
          "op": d4.damping.OptimisedPowerDamping()}[damping]
    if fn is not None and api == "class":
        api = "dftd4"
    curcut = {}
    for s in range(8):
        kw = {"model": kind, "cutoff": cut}
        if useq:
            kw["q"] = q
        if fn is not None:
            kw["damping_function"] = fn
        e = evaluate(mon, nb, xt, ch, tp, kw, api)
        zz, xx = nb.numpy().copy(), xt.numpy().copy()
        pv = {k: float(v) for k, v in tp.items()}
        ref = R.energy(zz, xx, float(ch), pv, kind=kind, cutoff=curcut,
                       damping=damping, terms=("2",) + ROUTES[api][0],
                       charge_dependent3=ROUTES[api][1],
                       q=q.numpy().copy() if useq else None)
        cuts = [30.0] + [curcut.get(k, v)
                         for k, v in R.DEFAULT_CUTOFF.items()]
        if not ref["ambiguous"] and R.boundary_distance(xx, cuts) > 1e-6:
            mon.close("inplace", e, ref["e"], scale=ref["scale"] + 1e-30,
                      rtol=1e-6 if ref["tiny_cn"] else 1e-8, atol=1e-13,
                      detail=f"step {s} {zz.tolist()} {kind} {api}")
        # the same values in fresh objects
        kw2 = {"model": kind, "cutoff": d4.Cutoff(
            **curcut, dtype=torch.float64)}
        if useq:
            kw2["q"] = q.clone()
        if fn is not None:
            kw2["damping_function"] = type(fn)()
        e2 = evaluate(mon, nb.clone(), xt.clone(), ch.clone(),
                      {k: v.clone() for k, v in tp.items()}, kw2, api)
        mon.close("inplace", e, e2, rtol=1e-10, atol=1e-300,
                  scale=float(e2.abs().max()) + 1e-30,
                  detail=f"fresh objects, step {s} {zz.tolist()}")
        mon.nontrivial(case["i"], case["seed"], s)
        k = rng.randint(6)

        def put(name, t, v):
            if own:
                bufs[name][...] = v
            else:
                t.copy_(torch.as_tensor(v))

        if k == 0:
            put("x", xt, xx * float(rng.uniform(1.01, 1.15)))
        elif k == 1:
            new = elements(rng, n)
            put("n", nb, np.asarray(new))
            put("x", xt, gen.grow(rng, new))
        elif k == 2:
            put("c", ch, np.array(float(rng.choice([1.0, -1.0, 0.5, 2.0]))))
        elif k == 3:
            for key, lo, hi in (("s8", 0.2, 3), ("a2", 3, 6),
                                ("rs6", 0.9, 1.3)):
                if key in tp:
                    v = float(rng.uniform(lo, hi))
                    if own:
                        pb[key][...] = v
                    else:
                        tp[key].fill_(v)
        elif k == 4:
            v = float(rng.choice([7.25, 12.5, 33.0]))
            if rng.rand() < 0.5:
                cut.disp2.fill_(v)
                curcut["disp2"] = v
            else:
                cut.disp3 = T(v)
                curcut["disp3"] = v
        else:
            put("q", q, rng.normal(size=n) * 0.3)


def elements(rng, n):
    return gen.elements(rng, n)


def _retain(rng, mon, case):
    """Results belong to the caller: no later evaluation changes them, and
    changing them changes no later evaluation."""
    from tad_dftd4.dispersion.d4 import DispD4
    from tad_dftd4.dispersion.twobody import dispersion2

    n = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 33]))
    if rng.rand() < 0.1:
        n = int(rng.choice([64, 90]))
    b = int(rng.choice([0, 0, 1, 2, 3]))
    dt = torch.float64 if rng.rand() < 0.8 else torch.float32
    kind = str(rng.choice(["d4", "d4s"]))
    same = rng.rand() < 0.5
    z0 = None
    systems = []
    for _ in range(3):
        mols = [gen.molecule(rng, n=n, shape="grow" if n > 12 else None,
                             numbers=None if z0 is None else z0[k])
                for k in range(max(b, 1))]
        if same and z0 is None:
            z0 = [m[0] for m in mols]
        z = np.stack([m[0] for m in mols])
        x = np.stack([m[1] for m in mols])
        systems.append((z, x) if b else (z[0], x[0]))
    p = gen.param(rng)
    tp = tparam(p, dt)
    disp = DispD4(model=kind, dtype=dt)
    shared = N(systems[0][0])
    mod = model(shared, kind, dt) if same else None

    def every(k, fresh=False):
        z, x = systems[k]
        nb = N(z) if fresh or not same else shared
        xt = T(x, dt)
        ch = torch.zeros(z.shape[:-1], dtype=dt)
        pr = {a: v.clone() for a, v in tp.items()} if fresh else tp
        m = model(N(z), kind, dt) if fresh or mod is None else mod
        out = {"energy": mon.call("dftd4", d4.dftd4, nb, xt, ch, pr,
                                  model=kind)}
        if fresh:
            out["class"] = mon.call("calculate", DispD4(
                model=kind, dtype=dt).calculate, nb, xt, ch, pr)
        else:
            out["class"] = mon.call("calculate", disp.calculate, nb, xt, ch,
                                    pr)
        for a, v in zip(("cn", "q", "c6", "alpha"), mon.call(
                "get_properties", d4.get_properties, nb, xt, ch)):
            out[a] = v
        w, dw = mon.call("weights", m.weight_references, out["cn"].clone(),
                         out["q"].clone(), with_dgwdq=True)
        out["weights"], out["dweights"] = w, dw
        out["mc6"] = mon.call("c6", m.get_atomic_c6, w.clone())
        out["pols"] = mon.call("pols", m.get_weighted_pols, w.clone())
        out["static"] = mon.call("static", m.get_polarizabilities, w.clone())
        r = T(R.G["r4r2"][z], dt)
        for mat in (True, False):
            out["pair" + str(mat)] = mon.call(
                "dispersion2", dispersion2, nb, xt, pr, out["mc6"].clone(), r,
                as_matrix=mat)
        if out["energy"].numel() > 1:
            mon.nontrivial("retain", case["i"], case["seed"], k)
        return out

    kept = []
    for k in range(3):
        out = every(k)
        kept.append({a: (v, v.clone()) for a, v in out.items()})
        for j, res in enumerate(kept):
            for a, (v, c) in res.items():
                mon.ok("retained", torch.equal(v, c), f"{a} of evaluation {j} "
                       f"changed by evaluation {k} ({kind}, n={n}, batch {b})")
    # the caller modifies the results
    for res in kept:
        for v, _ in res.values():
            v.mul_(-3.0).add_(7.0)
    for fresh in (True, False):
        for k in range(3):
            for a, v in every(k, fresh).items():
                c = kept[k][a][1]
                mon.close("results_owned", v, c, rtol=1e-12
                          if dt == torch.float64 else 2e-4,
                          scale=float(c.abs().max()) + 1e-30,
                          detail=f"{a} after modified results ({kind}, n={n}, "
                          f"batch {b}, fresh {fresh})")


def _modes(rng, mon, case):
    """no_grad / inference_mode / default dtype interleaved with gradients."""
    z, x, _ = gen.molecule(rng, nmax=6)
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    kw = {"model": kind}
    m = None
    if rng.rand() < 0.4:
        m = model(N(z), kind)
        kw["model"] = m

    def ev(grad=False):
        xt = T(x, grad=grad)
        e = evaluate(mon, N(z), xt, 0.0, p, kw, "dftd4")
        if grad:
            g = mon.call("grad", torch.autograd.grad, e.sum(), xt)[0]
            return e.detach(), g
        return e.detach(), None

    order = list(rng.permutation(5))
    base = None
    for k in order:
        if k == 0:
            with torch.no_grad():
                r = ev()
        elif k == 1:
            with torch.inference_mode():
                r = ev()
                r = (torch.tensor(r[0].numpy().copy()), None)
        elif k == 2:
            r = ev(True)
        elif k == 3:
            old = torch.get_default_dtype()
            try:
                torch.set_default_dtype(torch.float64)
                r = ev()
            finally:
                torch.set_default_dtype(old)
        else:
            r = ev()
        mon.ok("mode_state", torch.is_grad_enabled()
               and not torch.is_inference_mode_enabled(), f"mode {k}")
        if base is None:
            base = r[0].clone()
        mon.close("modes", r[0].clone(), base, rtol=1e-10, atol=1e-300,
                  scale=float(base.abs().max()) + 1e-30,
                  detail=f"{z.tolist()} {kind} modes {order} at {k}")
    g1 = ev(True)[1]
    g2 = ev(True)[1]
    mon.close("modes", g2, g1, rtol=1e-10, atol=1e-300,
              scale=float(g1.abs().max()) + 1e-30, detail="gradients")
    mon.nontrivial(case["i"], case["seed"], tuple(int(k) for k in order))


def _reuse(rng, mon, case):
    """One method / model / cutoff / damping object, many evaluations."""
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

    kind = str(rng.choice(["d4", "d4s"]))
    cls = DispD4 if rng.rand() < 0.6 else DispD4Exact
    terms = ("2", "atm") if cls is DispD4 else ("2", "xatm")
    disp = cls(model=kind, dtype=torch.float64)
    damp = DAMP["rational"]()
    cut = d4.Cutoff(dtype=torch.float64)
    p = {"s8": 1.0, "a1": 0.4, "a2": 5.0}
    n = int(rng.randint(2, 6))
    mols = [gen.molecule(rng, n=n)[:2] for _ in range(4)]
    dkeep = dict(p)
    other = cls(model=kind, dtype=torch.float64)
    for s in range(10):
        u = rng.rand()
        if u < 0.15:  # other method objects have their own terms
            from tad_dftd4.dispersion.twobody import TwoBodyTerm

            other.register(TwoBodyTerm(damping_fn=DAMP["zero"](),
                                       charge_dependent=False))
        elif u < 0.25 and other.terms:
            other.deregister(other.terms[-1])
        elif u < 0.35:  # copies are as good as the original
            cp = copy.copy if rng.rand() < 0.5 else copy.deepcopy
            disp, damp, cut = cp(disp), cp(damp), cp(cut)
            mon.event("copies")
        z, x = mols[rng.randint(len(mols))]
        ch = gen.charge(rng)
        if rng.rand() < 0.5:
            e = mon.call("calculate", disp.calculate, N(z), T(x), ch, p,
                         cutoff=cut)
            t = terms
        else:
            e = mon.call("dftd4", d4.dftd4, N(z), T(x), ch, p, model=kind,
                         cutoff=cut, damping_function=damp)
            t = ("2", "atm")
        ref = R.energy(z, x, ch, p, kind=kind, terms=t)
        if ref["ambiguous"] or R.boundary_distance(
                x, [60, 40, 25, 30]) < 1e-6:
            continue
        mon.close("reuse", e, ref["e"], scale=ref["scale"] + 1e-30,
                  rtol=1e-6 if ref["tiny_cn"] else 1e-8, atol=1e-13,
                  detail=f"step {s} {z.tolist()} {kind} {cls.__name__}")
        if rng.rand() < 0.3:  # undisturbed by a failing call in between
            try:
                disp.calculate(N(z), T(x)[:-1], 0.0, p)
            except Exception:  # noqa: BLE001
                pass
            try:
                disp.calculate(N(z), T(x), 0.0, {"s8": 1.0})
            except Exception:  # noqa: BLE001
                pass
        mon.nontrivial(case["i"], case["seed"], s)
    mon.ok("inputs_unchanged", p == dkeep, "parameters")


def _threads(rng, mon, case):
    nt = int(rng.choice([4, 6, 8]))
    per = 6
    share = rng.rand() < 0.5
    if share:
        # the same tensors, model and parameters in all threads
        lab, objs, fn = job(rng, mon, dtype=torch.float64)
        jobs = [[(lab, objs, fn)] * per for _ in range(nt)]
        # plus near-collisions of shape and elements
        for k in range(nt // 2):
            jobs[k] = [job(rng, mon) for _ in range(per)]
    else:
        jobs = [[job(rng, mon) for _ in range(per)] for _ in range(nt)]
    first = rng.rand() < 0.5
    base = None
    if not first:
        base = [[_detach(f()) for _, _, f in js] for js in jobs]
    out = [[None] * per for _ in jobs]
    spans = []
    bar = threading.Barrier(nt)
    active = [0]
    lock = threading.Lock()
    peak = [0]

    def work(k):
        bar.wait()
        for i, (_, _, f) in enumerate(jobs[k]):
            with lock:
                active[0] += 1
                peak[0] = max(peak[0], active[0])
                spans.append(active[0])
            try:
                out[k][i] = _detach(f())
            except Exception as e:  # noqa: BLE001
                out[k][i] = e
            with lock:
                active[0] -= 1

    g0 = {k: obj_fp(v) for js in jobs for lab, o, _ in js
          for k, v in ((f"{lab} {n}", w) for n, w in o.items())}
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.event("overlaps", sum(1 for s in spans if s > 1))
    if base is None:
        base = [[_detach(f()) for _, _, f in js] for js in jobs]
    for k in range(nt):
        for i in range(per):
            lab = jobs[k][i][0]
            if isinstance(out[k][i], Exception):
                mon.fail("threads", f"{lab} in a thread: {out[k][i]!r}")
                continue
            same(mon, "threads", out[k][i], base[k][i], f"concurrent {lab}")
    g1 = {k: obj_fp(v) for js in jobs for lab, o, _ in js
          for k, v in ((f"{lab} {n}", w) for n, w in o.items())}
    mon.ok("inputs_unchanged", g0 == g1, "arguments changed by threads")
    if peak[0] > 1:
        mon.nontrivial(case["i"], case["seed"], "threads", tuple(spans[:20]))
    mon.event(f"peak_concurrency:{peak[0]}")


# --- directed preemption ---------------------------------------------------------

PKG = os.sep + "tad_dftd4" + os.sep


class Preempt:
    """Suspends the current thread at the k-th package event of `fn`."""

    def __init__(self, k, action, opcodes=False):
        self.k, self.action, self.opcodes = k, action, opcodes
        self.n = 0
        self.where = None
        self.funcs = {}

    def _global(self, frame, event, arg):
        if PKG not in frame.f_code.co_filename:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            where = (os.path.basename(frame.f_code.co_filename),
                     frame.f_code.co_name)
            if self.k < 0:
                self.funcs.setdefault(where, []).append(self.n)
            elif self.n == self.k:
                self.where = where
                sys.settrace(None)
                self.action()
                return None
            self.n += 1
        return self._local

    def run(self, fn):
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(None)


def _preempt(rng, mon, case):
    """Another thread runs a whole evaluation while this one is suspended."""
    from tad_dftd4.dispersion.d4 import DispD4, DispD4Exact

    n = int(rng.randint(2, 6))
    za, xa, _ = gen.molecule(rng, n=n)
    how = str(rng.choice(["default", "damping", "disp", "disp", "model",
                          "model"]))
    zb = za
    if how != "model" and rng.rand() < 0.7:
        zb = gen.molecule(rng, n=n)[0]
    xb = gen.grow(rng, zb) if rng.rand() < 0.7 or zb is not za else xa * 1.07
    kind = str(rng.choice(["d4", "d4s"]))
    pa, pb = gen.param(rng), gen.param(rng)
    if rng.rand() < 0.5:
        pb = dict(pa)
    ca, cb = gen.charge(rng), gen.charge(rng)
    dtb = torch.float32 if how in ("default", "damping") \
        and rng.rand() < 0.3 else torch.float64
    cls = DispD4 if rng.rand() < 0.6 else DispD4Exact
    grad = rng.rand() < 0.3
    wfb = {"gc": 1.0, "wf": 4.0} if how in ("default", "damping") \
        and rng.rand() < 0.4 else {}

    def make(fresh):
        """Two jobs, sharing one object unless `fresh`."""
        out = []
        obj = None
        for z, x, ch, p, dt, mk in ((za, xa, ca, pa, torch.float64, {}),
                                    (zb, xb, cb, pb, dtb, wfb)):
            nb = N(z)
            if obj is None or fresh:
                obj = {"default": lambda: None,
                       "damping": DAMP["rational"],
                       "disp": lambda: cls(model=kind, dtype=torch.float64),
                       "model": lambda: model(nb, kind)}[how]()
            kw = {"model": model(nb, kind, dt, **mk) if mk else kind}
            if how == "damping":
                kw["damping_function"] = obj
            elif how == "model":
                kw["model"] = obj

            def fn(nb=nb, x=x, ch=ch, p=p, dt=dt, kw=kw, obj=obj):
                xt = T(x, dt, grad=grad)
                if how == "disp":
                    e = obj.calculate(nb, xt, ch, dict(p))
                else:
                    e = d4.dftd4(nb, xt, ch, dict(p), **kw)
                if grad:
                    return [e, torch.autograd.grad(e.sum(), xt)[0]]
                return [e]
            out.append(fn)
        return out

    state0 = process_state()
    base = [_detach(f()) for f in make(True)]
    fa, fb = make(False)
    fa(), fb()  # imports, lazily loaded data
    lab = f"{how} {kind} {za.tolist()} {zb.tolist()}"
    for opcodes in (False, True):
        cnt = Preempt(-1, None, opcodes)
        cnt.run(fa)
        mon.event("preempt_points", cnt.n)
        if cnt.n == 0:
            continue
        # half of the points uniform, half spread over the functions
        ks = set(rng.choice(cnt.n, min(cnt.n, 7), replace=False).tolist())
        fs = list(cnt.funcs.values())
        for f in rng.choice(len(fs), min(len(fs), 8), replace=False):
            ks.add(int(rng.choice(fs[f])))
        for k in sorted(ks):
            res = {}
            th = []
            seen = []

            def other():
                try:
                    res["b"] = _detach(fb())
                except Exception as e:  # noqa: BLE001
                    res["b"] = e

            def action():
                seen.append(process_state())
                t = threading.Thread(target=other)
                t.start()
                t.join(20.0)  # waits for a lock of the suspended one: resume
                th.append(t)

            pre = Preempt(int(k), action, opcodes)
            try:
                got = _detach(pre.run(fa))
            except Exception as e:  # noqa: BLE001
                got = e
            for t in th:
                t.join()
            if not th:
                mon.event("preempt_missed")
                continue
            at = "%s:%s" % pre.where
            mon.event("preempt@" + at)
            mon.ok("seen_globals", seen[0] == state0,
                   f"other threads see {seen[0]} instead of {state0} while "
                   f"an evaluation is at {at}")
            for name, g, w in (("preempted", got, base[0]),
                               ("preempting", res["b"], base[1])):
                if isinstance(g, Exception):
                    mon.fail(name, f"{lab} at {at}: {g!r}")
                else:
                    same(mon, name, g, w, f"{lab} at {at}")
            mon.nontrivial("preempt", case["i"], case["seed"], int(k), opcodes)


def process_state():
    """Process-wide (not thread-local) state that other threads see."""
    return (str(torch.get_default_dtype()), str(torch.tensor(0.5).dtype),
            torch.are_deterministic_algorithms_enabled(),
            torch.get_num_threads(), repr(np.geterr()),
            sys.getrecursionlimit(), os.getcwd())


class Injected(BaseException):
    """Interruption (like KeyboardInterrupt) at a chosen point."""


@contextlib.contextmanager
def default_dtype(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def _unharmed(mon, kind, label, objs, before, g0, others):
    """Arguments, global state and later results after a failed evaluation."""
    for k, v in objs.items():
        mon.ok(kind + "_state", obj_fp(v) == before[k],
               f"{label}: argument {k} was modified")
    g1 = global_fp()
    bad = [k for k in g0 if k in g1 and g0[k] != g1[k]]
    mon.ok(kind + "_state", not bad, f"{label}: changed global state {bad}")
    for lab, fn, base in others:
        same(mon, kind + "_later", _detach(fn()), base, f"{label}, then {lab}")


def _crash(rng, mon, case):
    """An evaluation is interrupted at a chosen point; nothing is left behind."""
    with default_dtype([torch.float32, torch.float64][int(rng.rand() < 0.3)]):
        lab, objs, fn = job(rng, mon)
        lab2, _, fn2 = job(rng, mon)
        base, base2 = _detach(fn()), _detach(fn2())
        fn()
        before = {k: obj_fp(v) for k, v in objs.items()}
        g0 = global_fp()
        for opcodes in (False, True):
            cnt = Preempt(-1, None, opcodes)
            cnt.run(fn)
            if cnt.n == 0:
                continue
            ks = set(rng.choice(cnt.n, min(cnt.n, 3), replace=False).tolist())
            fs = list(cnt.funcs.values())
            for f in rng.choice(len(fs), min(len(fs), 3), replace=False):
                ks.add(int(rng.choice(fs[f])))
            for k in sorted(ks):
                def action():
                    raise Injected

                pre = Preempt(int(k), action, opcodes)
                hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
                try:
                    pre.run(fn)
                    mon.event("crash_survived")
                except Injected:
                    mon.event("crashed")
                finally:
                    sys.unraisablehook = hook
                if pre.where is None:
                    continue
                at = "%s:%s" % pre.where
                mon.event("crash@" + at)
                _unharmed(mon, "crash", f"{lab} interrupted at {at}", objs,
                          before, g0, [("the same", fn, base),
                                       (lab2, fn2, base2)])
                mon.nontrivial("crash", case["i"], case["seed"], int(k),
                               opcodes)


def _fault(rng, mon, case):
    """Calls that are rejected, or whose callbacks fail, leave nothing behind."""
    with default_dtype([torch.float32, torch.float64][int(rng.rand() < 0.3)]):
        z, x, _ = gen.molecule(rng, nmax=6)
        c = config(rng, z)
        c["q"] = None
        x = offboundary(z, x, c)
        nb, xt = N(z), T(x)
        p = tparam(c["p"])
        kw = kwargs(nb, c)
        ch = T(c["charge"])
        lab2, _, fn2 = job(rng, mon)

        def fn():
            return [d4.dftd4(nb, xt, ch, p, **kw)]

        base, base2 = _detach(mon.call("dftd4", fn)), _detach(fn2())
        objs = {"numbers": nb, "positions": xt, "charge": ch, "param": p, **{
            k: v for k, v in kw.items() if k != "damping_function"}}
        before = {k: obj_fp(v) for k, v in objs.items()}
        g0 = global_fp()

        def boom(*a, **k):
            raise Injected

        damp = type(kw["damping_function"])

        class Late(damp):
            """Fails in a later call."""

            left = int(rng.randint(0, 3))

            def __call__(self, *a, **k):
                if self.left == 0:
                    raise Injected
                self.left -= 1
                return damp.__call__(self, *a, **k)

        req = sorted(k for k in p if k in ("a1", "a2", "rs6", "rs8", "bet"))
        faults = {
            "missing": lambda: d4.dftd4(nb, xt, ch, {
                k: v for k, v in p.items() if k not in req}, **kw),
            "unknown": lambda: d4.dftd4(nb, xt, ch, dict(p, s7=1.0), **kw),
            "positions": lambda: d4.dftd4(nb, xt[..., :2], ch, p, **kw),
            "element": lambda: d4.dftd4(nb + 110, xt, ch, p),
            "q": lambda: d4.dftd4(nb, xt, ch, p, **dict(
                kw, q=torch.zeros(len(z) + 1))),
            "model": lambda: d4.dftd4(nb, xt, ch, p, **dict(kw, model="d6")),
            "cn": lambda: d4.dftd4(nb, xt, ch, p, cn_function=boom, **kw),
            "counting": lambda: d4.dftd4(nb, xt, ch, p,
                                         counting_function=boom, **kw),
            "damping": lambda: d4.dftd4(nb, xt, ch, p, **dict(
                kw, damping_function=Late())),
        }
        for name in rng.permutation(sorted(faults))[:5]:
            try:
                audited(mon, faults[name])
                mon.event("fault_accepted:" + name)
            except (Injected, Exception) as e:  # noqa: B014
                mon.event(f"fault:{name}:{type(e).__name__}")
            _unharmed(mon, "fault", f"{name} {z.tolist()}", objs, before, g0,
                      [("the same", fn, base), (lab2, fn2, base2)])
            mon.nontrivial("fault", case["i"], case["seed"], str(name))


def _parts(rng, mon, case):
    """Terms, damping and CN functions of the caller keep their tensors."""
    from tad_mctc.ncoord import cn_d4

    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    b = int(rng.randint(0, 3))
    mols = [gen.molecule(rng, nmax=6)[:2] for _ in range(max(b, 1))]
    z, x = mols[0]
    if b:
        z = np.zeros((b, max(len(m[0]) for m in mols)), dtype=int)
        x = np.zeros((*z.shape, 3))
        for i, (zi, xi) in enumerate(mols):
            z[i, :len(zi)], x[i, :len(zi)] = zi, xi
    nb, xt = N(z), T(x)
    p = tparam(dict(gen.param(rng), rs9=1.0))
    ch = T(rng.randint(-1, 2, size=z.shape[:-1]))
    log = []

    def keep(what, v):
        log.append((what, v, v.detach().clone()))
        return v

    def cn(*a, **k):
        return keep("cn", cn_d4(*a, **k))

    class Damp(DAMP["rational"]):
        def __call__(self, *a, **k):
            return keep("damping", super().__call__(*a, **k))

    def term(base, **kw):
        class Keep(base):
            def calculate(self, *a, **k):
                for v in (*a, *k.values()):
                    if isinstance(v, torch.Tensor):
                        keep("term argument", v)
                return keep("term", super().calculate(*a, **k))

        return Keep(**kw)

    new = [lambda: term(TwoBodyTerm, damping_fn=Damp()),
           lambda: term(TwoBodyTerm, charge_dependent=False),
           lambda: term(D4ATMApprox), lambda: term(D4ATMExact),
           lambda: TwoBodyTerm(), lambda: D4ATMApprox()]
    kind = str(rng.choice(["d4", "d4s"]))
    disp = Disp(model=kind, cn_fn=cn, dtype=torch.float64)
    sel = [int(k) for k in rng.randint(len(new), size=rng.randint(1, 5))]
    for k in sel:
        disp.register(new[k]())
    grad = bool(rng.rand() < 0.5)
    y = xt.clone().requires_grad_(grad)
    tot = [mon.call("calculate", disp.calculate, nb, y, ch, p)
           for _ in range(2)]
    mon.close("parts_repeat", tot[1], tot[0], rtol=1e-10,
              scale=float(tot[0].detach().abs().max()) + 1e-30, detail=f"{sel}")
    if grad:
        mon.call("grad", torch.autograd.grad, tot[0].sum(), y)
    for what, v, c in log:
        same = torch.allclose(v.detach(), c, 0, 0, equal_nan=True)
        mon.ok("parts_kept", same, f"{what} changed after "
               f"it was handed over ({kind}, terms {sel}, {z.tolist()})")
    mon.nontrivial("parts", case["i"], case["seed"])
