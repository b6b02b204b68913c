"""C04: automatic derivatives are the true derivatives of the energy."""
from __future__ import annotations

import numpy as np
import torch
from torch.func import grad as fgrad
from torch.func import hessian, jacfwd, jacrev, jvp, vmap

from tad_dftd4.dispersion.twobody import dispersion2

from .. import gen, refmodel as R
from ..common import ROUTES, config, evaluate, grad_of, pick_api
from ..sut import DAMP, N, T, cutoff, d4, model
from .c02 import ambiguous, tiny_cn
from .c03 import layout, molecules, scatter

jacrev(lambda x: (x * x).sum())(torch.zeros(2))  # loads the transforms once

RULE = (
    "Differential monitor: the derivative of a randomly weighted sum of atomic "
    "energies along random directions of every differentiable input "
    "(positions, total charge or partial charges, each damping parameter, "
    "expectation values, van der Waals radii, weighting factors) is compared "
    "with extrapolated central differences of the energy; second derivatives "
    "(double backward over all inputs at once) with differences of gradients; "
    "reverse, forward, nested and vectorised transforms with each other; first derivatives of the "
    "reported properties and of the weights, C6 and polarizabilities of the "
    "models likewise. "
    "Non-trivial: a non-zero derivative was compared; distinct by molecule, "
    "configuration and input."
)
ASSUME = [
    "no distance within 0.03 Bohr of a cutoff and no weights at the underflow "
    "fallback, where the energy is not differentiable",
    "atoms with a vanishing coordination number (< 1e-6) in the charge model: "
    "looser tolerance (square root of a rounded zero in the dependency)",
    "comparisons whose finite difference does not converge are counted as "
    "fd_inconclusive and not judged",
]
MIN = {"first:positions": 200, "first:charge": 100, "first:q": 40,
       "first:r4r2": 60, "first:rvdw": 15, "first:wf": 40, "first:s8": 100,
       "first:a1": 100, "first:s9": 60, "first:alp": 50, "second": 400,
       "net_force": 150, "net_torque": 150, "transform": 60,
       "same_energy": 200, "forward": 600,
       "forward:r4r2": 20, "forward:rvdw": 10, "forward:wf": 20,
       "forward:charge": 40, "forward:q": 15, "forward:a1": 50, "batch:positions": 30,
       "props:positions": 30, "props:charge": 30, "props:cn": 20,
       "props:q": 20, "alone": 400, "mixed": 400, "props:wf": 20, "pair matrix": 20, "props:c6": 20}


def cases(tier, seed):
    f = {"quick": 1, "thorough": 20}[tier]
    out = [{"kind": "transform", "i": i, "seed": seed} for i in range(48 * f)]
    out += [{"kind": "big", "i": i, "seed": seed} for i in range(6 * f)]
    out += [{"kind": "props", "i": i, "seed": seed} for i in range(140 * f)]
    out += [{"kind": "batch", "i": i, "seed": seed} for i in range(48 * f)]
    out += [{"kind": "mol", "i": i, "seed": seed} for i in range(320 * f)]
    out += [{"kind": "sweep", "z": z, "i": z, "seed": seed}
            for z in range(1, 104)]
    return out


def away(pos, c):
    cuts = [R.CN_CUT] + list((c["cutoff"] or R.DEFAULT_CUTOFF).values())
    for _ in range(40):
        if R.boundary_distance(pos, cuts) > 0.03:
            return pos
        pos = pos * 1.004
    return None


def build(rng, nums, pos, c, charge, dtype=torch.float64, more=True,
          api="dftd4"):
    """Leaves (name -> tensor) and the energy as function of them."""
    L = {"positions": T(pos)}
    if c["q"] is None:
        L["charge"] = T(charge)
        if rng.rand() < 0.2:  # as a column
            L["charge"] = L["charge"].unsqueeze(-1)
    else:
        L["q"] = T(c["q"])
    p = dict(c["p"])
    if rng.rand() < 0.5:
        p.setdefault("s6", 1.0)
    if rng.rand() < 0.5:
        p.setdefault("s9", 1.0)
    if rng.rand() < 0.5:
        p.setdefault("alp", 16.0)
    for k, v in p.items():
        L["p:" + k] = T(v)
    n = nums.shape[-1]
    real = nums > 0
    if c["r4r2"] is not None or (more and rng.rand() < 0.3):
        r = R.G["r4r2"][nums] if c["r4r2"] is None else c["r4r2"]
        L["r4r2"] = T(r)
    vdw3 = "d3atm" in ROUTES[api][0]
    if vdw3 and rng.rand() < 0.6:
        p.setdefault("rs9", float(rng.choice([1.0, 4 / 3])))
        L["p:rs9"] = T(p["rs9"])
    if (vdw3 or c["damping"] in ("zero", "mzero")) and (
            c["rvdw"] is not None or rng.rand() < 0.7):
        r = R.G["vdw"][nums[..., :, None], nums[..., None, :]] \
            if c["rvdw"] is None else c["rvdw"]
        L["rvdw"] = T(r)
    mkw = dict(c["model"])
    wf = mkw.pop("wf", None)
    if wf is not None or rng.rand() < 0.35:
        if c["kind"] == "d4":
            L["wf"] = T(6.0 if wf is None else wf)
        else:
            w = R.G["wfpair"][nums[..., :, None], nums[..., None, :]]
            L["wf"] = T(w if wf is None else np.full_like(w, wf))
    nb = N(nums)
    cut = cutoff(c["cutoff"], dtype)
    L = {k: v.to(dtype) for k, v in L.items()}
    damp = DAMP[c["damping"]]()

    def fn(L, mon, api):
        kw = {"damping_function": damp}
        if mkw or "wf" in L:
            kw["model"] = mon.call("model", model, nb, c["kind"], dtype,
                                   wf=L.get("wf"), **mkw)
        else:
            kw["model"] = c["kind"]
        if cut is not None:
            kw["cutoff"] = cut
        for k in ("q", "r4r2", "rvdw"):
            if k in L:
                kw[k] = L[k]
        pp = {k[2:]: v for k, v in L.items() if k.startswith("p:")}
        return evaluate(mon, nb, L["positions"],
                        L.get("charge", torch.zeros(nums.shape[:-1],
                                                    dtype=dtype)),
                        pp, kw, api)

    def direction(name):
        t = L[name]
        d = rng.normal(size=tuple(t.shape))
        if name == "positions":
            s = 1.0
        elif name in ("charge", "q"):
            s = 0.3
        else:
            s = 0.2 * np.abs(t.numpy()) + (0.05 if name.startswith("p:")
                                           else 0.0)
            if name == "p:bet" and c["damping"] == "mzero":
                s = 0.02
        d = d * s
        if name == "rvdw":
            d = (d + np.swapaxes(d, -1, -2)) / 2
        if name in ("q", "r4r2") and nums.ndim > 1:
            d = np.where(real, d, 0.0)
        return T(d)

    return L, fn, direction


def fd(F, h):
    """Richardson-extrapolated central difference of F(t) at 0 with an error
    estimate; F returns a numpy array."""
    v = {}
    for k in (1.0, 0.5, 0.25):
        v[k] = (F(h * k) - F(-h * k)) / (2 * h * k)
    r1 = (4 * v[.5] - v[1.]) / 3
    r2 = (4 * v[.25] - v[.5]) / 3
    return r2, np.abs(r2 - r1)


def first_order(mon, rng, L, fn, direction, api, es, tag, pre="first:",
                tiny=False):
    names = list(L)
    Lg = {k: v.clone().requires_grad_(True) for k, v in L.items()}
    e = fn(Lg, mon, api)
    v = T(rng.uniform(0.5, 1.5, tuple(e.shape)) * rng.choice(
        [1, 1, -1], tuple(e.shape)))
    g = dict(zip(names, grad_of(mon, "all", (e * v).sum(),
                                [Lg[k] for k in names])))
    with torch.no_grad():
        e0 = fn(L, mon, api)
    mon.close("same_energy", e, e0, scale=max(es, 1e-12), rtol=1e-10,
              detail="with and without derivatives " + tag)
    for k in names:
        d = direction(k)

        def F(t):
            with torch.no_grad():
                return float((fn({**L, k: L[k] + t * d}, mon, api) * v).sum())

        # positions move by ~1 per unit t: keep steps well inside the margin
        h = {"positions": 2e-3, "charge": 1e-2, "q": 1e-2}.get(k, 2e-2)
        num, err = fd(F, h)
        ana = float((g[k] * d).sum())
        if rng.rand() < (0.35 if pre == "first:" else 0.15):
            # forward mode, same direction
            val, tan = mon.call("jvp " + k, jvp, lambda t: fn(
                {**L, k: t}, mon, api), (L[k],), (d,))
            mon.close("forward", float((tan * v).sum()), ana, rtol=1e-8,
                      scale=float((g[k] * d).abs().sum())
                      + float((tan * v).abs().sum()) + 1e-12 * es,
                      detail=f"{k} {tag}")
            mon.event("forward:" + (k[2:] if k.startswith("p:") else k))
        nrm = float(g[k].norm() * d.norm())
        sc = max(abs(num), 1e-3 * nrm)
        noise = 200 * 2.2e-16 * es * max(1, e.numel()) / (h / 4)
        tol = 5 * err + (1e-3 if tiny else 1e-6) * sc + noise
        if err > 2e-2 * max(sc, noise / 1e-2):
            mon.event("fd_inconclusive")
            continue
        nm = k[2:] if k.startswith("p:") else k
        mon.close(pre + nm, ana, num, rtol=0.0, atol=tol,
                  detail=f"{tag} err={err:.1e}")
        if abs(num) > 1e-12:
            mon.nontrivial(nm, tag, num)


def alone(mon, rng, L, fn, api, es, tag):
    """One input at a time (the others being plain numbers or constants), and
    inputs of another precision than the positions."""
    names = list(L)
    low = [k for k in names if k.startswith("p:") or k in ("charge", "q")]
    L = {k: v.float().double() if k in low else v for k, v in L.items()}
    Lg = {k: v.clone().requires_grad_(True) for k, v in L.items()}
    e = fn(Lg, mon, api)
    v = T(rng.uniform(0.5, 1.5, tuple(e.shape)))
    g = dict(zip(names, grad_of(mon, "joint", (e * v).sum(),
                                [Lg[k] for k in names])))
    plain = rng.rand() < 0.5
    for k in rng.permutation(names)[:3]:
        x = L[k].clone().requires_grad_(True)
        one = {n: (x if n == k else float(t) if plain and t.ndim == 0
                   and n.startswith("p:") else t) for n, t in L.items()}
        out = fn(one, mon, api)
        sc = float(g[k].abs().max())
        if not out.requires_grad:
            mon.ok("alone", sc <= 1e-12 * es,
                   f"no derivative for {k} as the only input {tag}")
            continue
        a = grad_of(mon, "alone", (out * v).sum(), [x])[0]
        mon.close("alone", a, g[k], rtol=1e-9, scale=sc, atol=1e-14 * es,
                  detail=f"{k} as the only differentiable input {tag}")
    if not low:
        return
    pick = [k for k in low if rng.rand() < 0.6] or low[:1]
    Lf = {k: (v.float() if k in pick else v).clone().requires_grad_(True)
          for k, v in L.items()}
    out = fn(Lf, mon, api)
    a = grad_of(mon, "mixed", (out * v).sum(), [Lf[k] for k in names])
    for k, x in zip(names, a):
        sc = float(g[k].abs().max())
        mon.close("mixed", x.double(), g[k], rtol=2e-6, scale=sc,
                  atol=1e-8 * es, detail=f"{k} with {pick} in single {tag}")


def second_order(mon, rng, L, fn, direction, api, es, tag, tiny=False):
    names = list(L)
    v = None

    def gradient(LL, create=False):
        nonlocal v
        Lg = {k: x.detach().clone().requires_grad_(True)
              for k, x in LL.items()}
        e = fn(Lg, mon, api)
        if v is None:
            v = T(rng.uniform(0.5, 1.5, tuple(e.shape)))
        xs = [Lg[k] for k in names]
        g = mon.call("grad:second", torch.autograd.grad, (e * v).sum(), xs,
                     create_graph=create, allow_unused=True)
        return xs, [torch.zeros_like(x) if a is None else a
                    for a, x in zip(g, xs)]

    d = {k: direction(k) for k in names}
    # one sector at a time: positions, charges, everything else, all together
    sectors = [["positions"], ["charge", "q"], names]
    for sec in sectors:
        sec = [k for k in sec if k in d]
        xs, g = gradient(L, True)
        s = sum((g[names.index(k)] * d[k]).sum() for k in sec)
        hv = mon.call("grad:hvp", torch.autograd.grad, s, xs,
                      allow_unused=True)
        hv = [torch.zeros_like(x) if a is None else a for a, x in zip(hv, xs)]

        def F(t):
            _, gg = gradient({k: (x + t * d[k] if k in sec else x)
                              for k, x in L.items()})
            return np.concatenate([a.detach().numpy().ravel() for a in gg])

        h = 2e-3
        num, err = fd(F, h)
        off = 0
        gmax = max(float(a.detach().abs().max()) for a in g)
        for k, a in zip(names, hv):
            n = a.numel()
            nk, ek = num[off:off + n], err[off:off + n]
            off += n
            sc = max(np.abs(nk).max(), 1e-2 * np.abs(a.numpy()).max(), 0.0)
            noise = 2000 * 2.2e-16 * max(gmax, es) / (h / 4)
            if ek.max() > 2e-2 * max(sc, noise / 1e-2):
                mon.event("fd_inconclusive")
                continue
            mon.close("second", a.numpy().ravel(), nk, rtol=0.0,
                      atol=5 * ek.max() + (1e-2 if tiny else 1e-5) * sc
                      + noise,
                      detail=f"{k} by {sec[0]} {tag}")
            if np.abs(nk).max() > 1e-12:
                mon.nontrivial("second", k, tag, float(np.abs(nk).max()))


def run(case, mon):
    rng = gen.rs("c04", case["kind"], case["i"], case["seed"])
    kind = case["kind"]
    if kind == "batch":
        return _batch(rng, mon)
    if kind == "transform":
        return _transform(rng, mon)
    if kind == "props":
        return _props(rng, mon)
    if kind == "sweep":
        z = case["z"]
        nums = np.array([z] + list(rng.choice([z, 1, 6, int(
            rng.randint(1, 104))], 3)))
        nums, pos, shp = gen.molecule(rng, numbers=nums)
    elif kind == "big":
        nums, pos, shp = gen.molecule(rng, n=int(rng.choice([26, 32])),
                                      shape="grow")
    else:
        nums, pos, shp = gen.molecule(rng, nmax=8)
    c = config(rng, nums)
    if c["q"] is not None:
        c["q"] = rng.normal(size=len(nums)) * 0.3
    pos = away(pos, c)
    if pos is None or ambiguous(nums, pos, c):
        mon.event("skipped_not_differentiable")
        return
    api = pick_api(rng)
    L, fn, direction = build(rng, nums, pos, c, c["charge"], api=api)
    e = fn(L, mon, api)
    es = float(e.abs().sum())
    tag = f"{c['kind']} {c['damping']} {api} {nums.tolist()[:6]}"
    tiny = tiny_cn(nums, pos, c)
    first_order(mon, rng, L, fn, direction, api, es, tag, tiny=tiny)
    if kind == "mol":
        alone(mon, rng, L, fn, api, es, tag)
    if kind != "big":
        second_order(mon, rng, L, fn, direction, api, es, tag, tiny)
    # isolated molecule: no net force, no net torque
    x = L["positions"].clone().requires_grad_(True)
    e = fn({**L, "positions": x}, mon, api)
    g = grad_of(mon, "positions", e.sum(), [x])[0].numpy()
    gs = max(np.abs(g).max(), 1e-9 * es, 1e-14)
    mon.close("net_force", g.sum(0), np.zeros(3), atol=1e-8 * gs * len(nums),
              detail=tag)
    mon.close("net_torque", np.cross(pos, g).sum(0), np.zeros(3),
              atol=1e-8 * gs * max(1.0, np.abs(pos).max()) * len(nums),
              detail=tag)
    mon.sample({"numbers": nums.tolist(), "inputs": sorted(L), "api": api,
                "model": c["kind"], "damping": c["damping"]})


def _batch(rng, mon):
    b = int(rng.choice([2, 3]))
    mols = molecules(rng, b, nmax=6)
    c = config(rng, np.concatenate([m[0] for m in mols]))
    useq = c["q"] is not None
    c["q"] = c["r4r2"] = c["rvdw"] = None
    for m in mols:
        m[1] = away(m[1], c)
        if m[1] is None or ambiguous(m[0], m[1], c):
            mon.event("skipped_not_differentiable")
            return
    nums, pos, idx = layout(rng, mols, str(rng.choice(
        ["trailing", "scattered"])), int(rng.choice([0, 1])), "random")
    if useq:
        c["q"] = np.where(nums > 0, rng.normal(size=nums.shape) * 0.3, 0.0)
    ch = np.array([gen.charge(rng) for _ in range(b)])
    L, fn, direction = build(rng, nums, pos, c, ch)
    e = fn(L, mon, "dftd4")
    tag = f"batch {c['kind']} {c['damping']} {nums.tolist()[0][:4]}"
    first_order(mon, rng, L, fn, direction, "dftd4", float(e.abs().sum()),
                tag, pre="batch:",
                tiny=any(tiny_cn(z, x, c) for z, x in mols))


def _props(rng, mon):
    """Reported properties and the model functions behind them."""
    b = int(rng.choice([1, 1, 2, 3]))
    mols = molecules(rng, b, nmax=6)
    c = config(rng, np.concatenate([m[0] for m in mols]))
    c["q"] = c["r4r2"] = c["rvdw"] = None
    for m in mols:
        m[1] = away(m[1], c)
        if m[1] is None or ambiguous(m[0], m[1], c):
            mon.event("skipped_not_differentiable")
            return
    nums, pos, idx = layout(rng, mols, str(rng.choice(
        ["trailing", "scattered"])), int(rng.choice([0, 1])), "random")
    ch = np.array([gen.charge(rng) for _ in range(b)])
    if b == 1:
        nums, pos, ch = nums[0], pos[0], ch[0]
    nb = N(nums)
    u = rng.rand()
    if u < 0.3:
        # pair matrix and atomic energies of the two-body term from given
        # coefficients
        n = nums.shape[-1]
        c6 = np.exp(rng.normal(size=(*nums.shape, n)) * 0.5) * 30
        real = nums > 0
        pair = real[..., :, None] & real[..., None, :]
        L = {"positions": T(pos), "c6": T(np.where(
            pair, c6 + np.swapaxes(c6, -1, -2), 0.0)),
            "r4r2": T(R.G["r4r2"][nums])}
        if c["damping"] in ("zero", "mzero"):
            L["rvdw"] = T(R.G["vdw"][nums[..., :, None], nums[..., None, :]])
        par = dict(c["p"])
        par.setdefault("s6", 1.0)
        par.setdefault("s8", 1.0)
        if c["damping"] == "rational" and rng.rand() < 0.5:
            par.setdefault("s10", 1.0)
        for k, v in par.items():
            L["p:" + k] = T(v)
        damp = DAMP[c["damping"]]()
        disp2 = cutoff(c["cutoff"], torch.float64)
        ckw = {} if disp2 is None else {"cutoff": disp2.disp2}

        def fn(LL, mon, api):
            out = []
            for mat in (True, False):
                out.append(mon.call(
                    "dispersion2", dispersion2, nb, LL["positions"],
                    {k[2:]: v for k, v in LL.items() if k.startswith("p:")},
                    LL["c6"], LL["r4r2"], LL.get("rvdw"), damp,
                    as_matrix=mat, **ckw).reshape(-1))
            return torch.cat(out) * 100

        scale = {"positions": 1.0, "c6": 10.0, "r4r2": 0.5, "rvdw": 0.3,
                 "p:bet": 0.02}
        mon.event("pair matrix")
        tag = f"dispersion2 {c['damping']} {nums.tolist()}"
    elif u < 0.65:
        L = {"positions": T(pos), "charge": T(ch)}
        if rng.rand() < 0.25:
            L["charge"] = L["charge"].unsqueeze(-1)
        cut = cutoff(c["cutoff"], torch.float64)

        def fn(LL, mon, api):
            out = mon.call("get_properties", d4.get_properties, nb,
                           LL["positions"], LL["charge"], cut)
            return torch.cat([(a / s).reshape(-1) for a, s in
                              zip(out, (1.0, 1.0, 100.0, 10.0))])

        scale = {"positions": 1.0, "charge": 0.3}
        tag = f"get_properties {nums.tolist()}"
    else:
        kind = c["kind"]
        cn = [R.coordination(z, x) for z, x in mols]
        n = nums.shape[-1]
        full = np.zeros((b, n))
        for k in range(b):
            full[k, idx[k]] = cn[k]
        cn = full.reshape(nums.shape)
        mkw = dict(c["model"])
        w = mkw.pop("wf", None)
        if kind == "d4":
            wf = np.asarray(6.0 if w is None else w)
        else:
            wf = R.G["wfpair"][nums[..., :, None], nums[..., None, :]]
            wf = wf if w is None else np.full_like(wf, w)
        real = nums > 0
        q = np.where(real, rng.normal(size=nums.shape) * 0.3, 0.0)
        L = {"cn": T(cn), "q": T(q), "wf": T(wf)}

        def fn(LL, mon, api):
            m = mon.call("model", model, nb, kind, torch.float64,
                         wf=LL["wf"], **mkw)
            g = mon.call("weights", m.weight_references, LL["cn"], LL["q"])
            c6 = mon.call("c6", m.get_atomic_c6, g)
            al = mon.call("pols", m.get_weighted_pols, g)
            return torch.cat([g.reshape(-1), (c6 / 100).reshape(-1),
                              (al / 10).reshape(-1)])

        scale = {"cn": 0.1, "q": 0.3, "wf": 0.2}
        tag = f"model {kind} {nums.tolist()}"

    def direction(k):
        d = rng.normal(size=tuple(L[k].shape)) * scale.get(k, 0.1)
        if k in ("cn", "q", "r4r2") and nums.ndim > 1:
            d = np.where(nums > 0, d, 0.0)
        if k in ("rvdw", "c6"):
            d = np.where((nums > 0)[..., :, None] & (nums > 0)[..., None, :],
                         d + np.swapaxes(d, -1, -2), 0.0) / 2
        return T(d)

    e = fn(L, mon, "props")
    first_order(mon, rng, L, fn, direction, "props",
                float(e.abs().max()) * np.sqrt(e.numel()), tag, pre="props:",
                tiny=any(tiny_cn(z, x, c) for z, x in mols))


def _transform(rng, mon):
    nums, pos, shp = gen.molecule(rng, n=int(rng.choice([2, 3, 4, 5])))
    c = config(rng, nums)
    c["q"] = rng.normal(size=len(nums)) * 0.3 if rng.rand() < 0.3 else None
    pos = away(pos, c)
    if pos is None or ambiguous(nums, pos, c):
        return
    L, fn, direction = build(rng, nums, pos, c, c["charge"])
    api = "dftd4"
    X = L["positions"]

    def ea(x):
        return fn({**L, "positions": x}, mon, api)

    def e1(x):
        return ea(x).sum()

    tag = f"{c['kind']} {c['damping']} {nums.tolist()}"
    x = X.clone().requires_grad_(True)
    e0 = ea(x)
    g0 = grad_of(mon, "positions", e0.sum(), [x])[0]
    gs = max(float(g0.abs().max()), 1e-12)
    es = max(float(e0.detach().abs().max()), 1e-12)

    def cmp(nm, a, b, s, rt=1e-8):
        mon.close("transform", a, b, scale=s, rtol=rt, detail=f"{nm} {tag}")
        mon.event("transform:" + nm)

    jr = mon.call("jacrev", jacrev(ea), X)
    jf = mon.call("jacfwd", jacfwd(ea), X)
    js = max(float(jr.abs().max()), 1e-12)
    cmp("jacrev=jacfwd", jr, jf, js)
    cmp("jacrev=autograd", jr.sum(0), g0, gs * 10)
    cmp("grad", mon.call("func.grad", fgrad(e1), X), g0, gs)
    d = T(rng.normal(size=tuple(X.shape)))
    val, tan = mon.call("jvp", jvp, ea, (X,), (d,))
    cmp("jvp value", val, e0, es)
    cmp("jvp", tan, (jr * d).sum((-1, -2)), js * 10)
    h1 = mon.call("hessian", hessian(e1), X)
    h2 = mon.call("jacrev2", jacrev(jacrev(e1)), X)
    h3 = mon.call("autograd.hessian", torch.autograd.functional.hessian, e1, X)
    hs = max(float(h1.abs().max()), 1e-12)
    n3 = X.numel()
    cmp("hessian=jacrev2", h1, h2, hs)
    cmp("hessian=functional", h1, h3, hs)
    hm = h1.reshape(n3, n3)
    cmp("hessian symmetric", hm, hm.T, hs)
    # vectorised over geometries
    XS = torch.stack([X, X * 1.001, X + 0.3])
    ev = mon.call("vmap", vmap(ea), XS)
    el = torch.stack([ea(a) for a in XS])
    cmp("vmap", ev, el, es)
    gv = mon.call("vmap grad", vmap(fgrad(e1)), XS)
    cmp("vmap grad", gv[0], g0, gs)
    cmp("vmap grad translated", gv[2], g0, gs, 1e-7)
    # vectorised over charges, parameters, radii, weighting factors
    for nm in L:
        if nm == "positions" or rng.rand() < 0.3:
            continue
        vals = torch.stack([L[nm], L[nm] + 0.1])

        def ep(t):
            return fn({**L, nm: t}, mon, api)

        ev = mon.call("vmap " + nm, vmap(ep), vals)
        cmp("vmap " + nm, ev, torch.stack([ep(t) for t in vals]), es)
        jr = mon.call("jacrev " + nm, jacrev(ep), L[nm])
        jf = mon.call("jacfwd " + nm, jacfwd(ep), L[nm])
        cmp("jac " + nm, jr, jf, max(float(jr.abs().max()), es))
    mon.nontrivial("transform", tag, es)
