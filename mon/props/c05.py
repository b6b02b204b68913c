"""C05: energies and derivatives are always finite."""
from __future__ import annotations

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .. import gen, refmodel as R
from ..common import config, evaluate, pick_api
from ..sut import DT, N, T, d4, model
from .c03 import layout
from .c04 import build

RULE = (
    "Hostile workloads under a non-finite-value monitor: single atoms and ions, "
    "strongly over-coordinated and compressed clusters, hydrides with fully "
    "compensated nuclear charge, collinear and highly symmetric arrangements, "
    "fragments hundreds to thousands of Bohr apart, extreme partial charges, "
    "zero-valued parameters, padded batches; every element; both models, all "
    "damping functions and both precisions. Observed: energies, properties, the "
    "gradient with respect to every differentiable input and the double-backward "
    "product over all inputs. On a non-finite value the evaluation is repeated "
    "under a dispatch-level tracer that names the first operation producing it. "
    "Non-trivial: a configuration with at least one non-zero derivative or a "
    "hostile feature; distinct by scenario and content."
)
ASSUME = [
    "distances between atoms at least 0.4 times the sum of covalent radii",
    "arrangements so dense that the charge equilibration matrix of the "
    "dependency is indefinite are evaluated with explicit partial charges",
    "single precision: fragments beyond 200 Bohr are single atoms (the "
    "dependency's quadratic-expansion distances lose all digits otherwise)",
    "single precision: no cutoffs beyond 100 Bohr for atoms further apart (the "
    "15th power of the distance in the three-body term exceeds the range)",
]
SCEN = ("atom", "dense", "hydride", "linear", "far", "charged", "zeroparam",
        "padded", "random", "pair", "symmetric")
MIN = {"finite:energy": 1000, "finite:first": 1000, "finite:second": 800,
       "finite:property": 300, "f32": 300, "f64": 300, "#Z": 103,
       **{"scenario:" + s: 20 for s in SCEN}}


def cases(tier, seed):
    f = {"quick": 2, "thorough": 30}[tier]
    out = [{"kind": "atom", "i": z, "seed": seed} for z in range(1, 104)]
    out += [{"kind": "pair", "i": z, "seed": seed} for z in range(1, 104)]
    out += [{"kind": "dense", "i": z, "seed": seed} for z in range(1, 104)]
    for k, n in (("dense", 100), ("hydride", 50), ("linear", 60), ("far", 110),
                 ("charged", 110), ("zeroparam", 110), ("padded", 110),
                 ("random", 120), ("symmetric", 60)):
        out += [{"kind": k, "i": 200 + i, "seed": seed} for i in range(n * f)]
    return out


class Tracer(TorchDispatchMode):
    """Names the first operation with finite input and non-finite output."""

    def __init__(self):
        super().__init__()
        self.first_nan = None
        self.first_inf = None
        self.ops = 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        self.ops += 1
        if isinstance(out, torch.Tensor) and out.is_floating_point():
            if self.first_nan is None and bool(torch.isnan(out).any()):
                self.first_nan = f"{func} (op {self.ops})"
            if self.first_inf is None and bool(torch.isinf(out).any()):
                self.first_inf = f"{func} (op {self.ops})"
        return out


def isolated_trace(go):
    """Run the tracer in a forked child: tracing a backward pass from Python
    can crash the interpreter."""
    import os

    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            tr = Tracer()
            try:
                with tr:
                    go()
            except BaseException:  # noqa: BLE001
                pass
            os.write(wr, f"{tr.first_nan}\n{tr.first_inf}".encode())
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as fp:
        txt = fp.read()
    os.waitpid(pid, 0)
    a, _, b = txt.partition("\n")
    return a or "backward pass", b or "backward pass"


def finite(t):
    return bool(torch.isfinite(t).all())


def examine(mon, L, fn, api, tag, second=True):
    names = list(L)

    def go():
        Lg = {k: v.detach().clone().requires_grad_(True)
              for k, v in L.items()}
        xs = [Lg[k] for k in names]
        e = fn(Lg, mon, api)
        out = [("energy", "energy", e)]
        g = mon.call("grad:first", torch.autograd.grad, e.sum(), xs,
                     create_graph=second, allow_unused=True)
        for k, a in zip(names, g):
            if a is not None:
                out.append(("first", k, a))
        if second:
            gg = [a for a in g if a is not None and a.requires_grad]
            if gg:
                # a fixed combination of all rows of the second derivatives
                w = torch.Generator().manual_seed(7)
                s = sum((a * (0.5 + torch.rand(a.shape, generator=w,
                                               dtype=a.dtype))).sum()
                        for a in gg)
                h = mon.call("grad:second", torch.autograd.grad, s, xs,
                             allow_unused=True)
                for k, a in zip(names, h):
                    if a is not None:
                        out.append(("second", k, a))
        return out

    out = go()
    bad = [o for o in out if not finite(o[2])]
    for kind, k, t in out:
        mon.checks["finite:" + kind] += 1
        mon.event("values", t.numel())
    if any(kind == "first" and float(t.detach().abs().max()) > 0
           for kind, k, t in out if t.numel() and finite(t)):
        mon.nontrivial(tag, float(out[0][2].detach().sum())
                       if finite(out[0][2]) else 0)
    if bad:
        nan, inf = isolated_trace(go)
        for kind, k, t in bad[:4]:
            mon.fail("finite:" + kind,
                     (f"{kind} derivative by {k}" if kind != "energy" else
                      "energy") + f": non-finite in {tag}; first NaN from "
                     f"{nan}, first inf from {inf}",
                     origin_nan=nan, origin_inf=inf,
                     what=f"{kind} {k}", scenario=tag)


def run(case, mon):
    kind, i = case["kind"], case["i"]
    rng = gen.rs("c05", kind, i, case["seed"])
    mon.event("scenario:" + kind)
    dts = ["f32", "f64"]
    charge = 0.0
    q = None
    cfg = {}
    if kind == "atom":
        nums, pos = np.array([i]), rng.normal(size=(1, 3)) * 3
        charge = float(rng.choice([0, 1, -1, 2, -2, 4]))
    elif kind == "pair":
        j = int(rng.choice([i, 1, 2, int(rng.randint(1, 104))]))
        nums = np.array([i, j])
        d = (R.G["rcov"][i] + R.G["rcov"][j]) * rng.choice(
            [0.45, 0.7, 1.0, 2.0, 5.0])
        pos = np.array([[0, 0, 0], gen._unit(rng) * d])
        charge = float(rng.choice([0, 0, 1, -1, 2, -2, 3, -3]))
    elif kind == "dense":
        # one atom inside a compressed shell or lattice of others
        z = i if i <= 103 else int(rng.choice([1, 2, 10, 18, 3, 9, 8]))
        zs = int(rng.choice([1, 2, 3, 26, 79, 92, 55, 6,
                             int(rng.randint(1, 104))]))
        n = int(rng.choice([6, 8, 12, 14]))
        u = fib(n)
        f = rng.choice([0.45, 0.55, 0.65, 0.8])
        r = f * (R.G["rcov"][z] + R.G["rcov"][zs])
        # shell atoms must not overlap
        dm = R.distances(u)
        dm = dm[np.triu_indices(n, 1)].min()
        r = max(r, 0.42 * 2 * R.G["rcov"][zs] / dm)
        nums = np.array([z] + [zs] * n)
        pos = np.concatenate([np.zeros((1, 3)), u * r])
    elif kind == "hydride":
        nums = np.array([[1], [1, 1], [1, 1, 1], [1, 2], [2, 2], [1, 8, 1],
                         [3, 1], [1, 1, 1, 1]][rng.randint(8)])
        pos = gen.linear(rng, nums) * rng.uniform(0.7, 2.0)
        charge = float(-rng.randint(1, 2 * len(nums) + 2))
        if rng.rand() < 0.5:
            q = np.where(nums == 1, -1.0, -2.0) * rng.choice([1.0, 1.0, 1.5])
    elif kind == "linear":
        nums = gen.elements(rng, int(rng.randint(2, 8)))
        pos = gen.linear(rng, nums)
        if rng.rand() < 0.5:  # exactly along an axis, equal spacing
            a = 1.6 * max(R.G["rcov"][z] for z in nums)
            pos = np.zeros((len(nums), 3))
            pos[:, rng.randint(3)] = np.arange(len(nums)) * a
    elif kind == "symmetric":
        # perfect cubes, squares, equilateral triangles (degenerate distances)
        z = int(rng.randint(1, 104))
        a = 2 * R.G["rcov"][z] * rng.choice([0.5, 0.8, 1.2])
        m = [np.array([[x, y, w] for x in (0, 1) for y in (0, 1)
                       for w in (0, 1)], float),
             np.array([[0, 0, 0], [1, 0, 0], [0.5, np.sqrt(.75), 0]]),
             np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0.]]),
             np.array([[1, 1, 1], [-1, -1, 1], [-1, 1, -1], [1, -1, -1],
                       [0, 0, 0.]])][rng.randint(4)]
        pos = m * a
        nums = np.full(len(m), z)
        if rng.rand() < 0.5:
            nums[rng.randint(len(m))] = rng.randint(1, 104)
    elif kind == "far":
        dts = ["f32" if rng.rand() < 0.5 else "f64"]
        nums = gen.elements(rng, int(rng.randint(2, 7)))
        pos = gen.grow(rng, nums)
        if dts[0] == "f32":
            sep = float(rng.choice([29.9, 45., 61., 150., 500., 2e3, 1e4,
                                    1e5, 1e6]))
            k = 1 if sep > 200 else int(rng.randint(1, len(nums)))
        else:
            sep = float(rng.choice([61., 150., 1e3, 5e3, 2e4, 2e5]))
            k = int(rng.randint(1, len(nums)))
        pos[-k:] += gen._unit(rng) * sep
        if len(nums) > 2 and rng.rand() < 0.5:  # triples with three long sides
            pos[0] += gen._unit(rng) * sep
        charge = float(rng.choice([0, 0, 1, -1]))
    elif kind == "charged":
        nums, pos, _ = gen.molecule(rng, nmax=6)
        charge = float(rng.choice([-6, -4, -3, 3, 4, 6, 10, 20]))
        if rng.rand() < 0.6:
            ze = R.G["zeff"][nums]
            q = np.array([rng.choice([0.0, -z, -z - 1.0, -z + 1e-3, 5.0, 20.0,
                                      -0.5, 1e-12]) for z in ze])
    elif kind == "zeroparam":
        nums, pos, _ = gen.molecule(rng, nmax=6)
    elif kind == "random":
        nums, pos, _ = gen.molecule(rng, nmax=10)
        charge = gen.charge(rng)
    elif kind == "padded":
        mols = [list(gen.molecule(rng, nmax=5)[:2])
                for _ in range(int(rng.randint(1, 4)))]
        if rng.rand() < 0.4:
            mols[0] = [gen.elements(rng, 1), np.zeros((1, 3))]
        nums, pos, idx = layout(
            rng, mols, str(rng.choice(["trailing", "scattered", "leading"])),
            int(rng.choice([1, 2])), str(rng.choice(["zero", "copies",
                                                     "random"])))
        charge = np.array([gen.charge(rng) for _ in mols])
        if rng.rand() < 0.4:
            q = np.where(nums > 0, rng.normal(size=nums.shape) * 0.5, 0.0)
    props = True
    if nums.ndim == 1 and not R.eeq_ok(nums, pos):
        mon.event("charge_model_indefinite")
        props = False
        if q is None:
            q = rng.normal(size=nums.shape) * 0.3
    for z in np.unique(nums):
        if z:
            mon.event(f"Z{int(z)}")
    for dt in dts:
        mon.event(dt)
        dtype = DT[dt]
        c = config(rng, nums.ravel()[nums.ravel() > 0])
        c["q"], c["r4r2"], c["rvdw"] = q, None, None
        c["charge"] = charge
        if kind == "far" and dt == "f32" and c["cutoff"]:
            c["cutoff"] = {k: v for k, v in c["cutoff"].items() if v <= 100.0}
        if kind in ("zeroparam", "padded") and rng.rand() < 0.8:
            for k in list(c["p"]):
                if rng.rand() < 0.4 and k not in ("rs6", "rs8", "alp"):
                    c["p"][k] = 0.0
            if rng.rand() < 0.2 and c["damping"] == "rational":
                c["p"]["a1"] = c["p"]["a2"] = 0.0
        api = pick_api(rng)
        L, fn, _ = build(rng, nums, pos, c, charge, dtype, api=api)
        tag = (f"{kind} {c['kind']} {c['damping']} {api} {dt} "
               f"{nums.tolist()[:4]}")
        examine(mon, L, fn, api, tag, second=nums.size <= 16)
        mon.sample({"scenario": kind, "numbers": nums.tolist(), "dtype": dt,
                    "inputs": sorted(L), "api": api})
        # properties and their gradient
        if not props:
            continue
        x = T(pos, dtype, grad=True)
        ch = T(charge, dtype, grad=True)
        pr = mon.call("get_properties", d4.get_properties, N(nums), x, ch)
        for nm, t in zip(("cn", "q", "c6", "alpha"), pr):
            mon.ok("finite:property", finite(t), f"{nm} in {tag}")
        g = mon.call("grad:props", torch.autograd.grad,
                     sum(t.sum() for t in pr), [x, ch], allow_unused=True)
        for t in g:
            if t is not None:
                mon.ok("finite:property", finite(t),
                       f"gradient of properties in {tag}")


def fib(n):
    k = np.arange(n) + 0.5
    ph = np.arccos(1 - 2 * k / n)
    th = np.pi * (1 + 5 ** 0.5) * k
    return np.stack([np.cos(th) * np.sin(ph), np.sin(th) * np.sin(ph),
                     np.cos(ph)], -1)
