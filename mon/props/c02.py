"""C02: invariance under rigid motion, covariance under atom reordering."""
from __future__ import annotations

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import (config, evaluate, grad_of, gscale, kwargs, offboundary,
                      pick_api)
from ..sut import N, T, d4, tparam

RULE = (
    "Metamorphic monitor: every evaluation is repeated for the translated, "
    "rotated, reflected, inverted and axis-permuted molecule and for random "
    "reorderings of its atoms (with all atom-resolved inputs reordered alike), "
    "alone and as a batch of images; also for systems of hundreds of Bohr; energies, gradients, coordination numbers, "
    "charges, C6 coefficients and polarizabilities are compared. Molecules built "
    "from symmetry orbits check equality of equivalent atoms. Non-trivial: at "
    "least two atoms with a non-zero energy; distinct by geometry, "
    "configuration and transformation."
)
ASSUME = [
    "translations of at most 150 Bohr: the dependency computes distances by a "
    "quadratic expansion, whose rounding grows with the square of the "
    "coordinates (the tolerance accounts for it)",
    "distances at least 1e-6 away from every cutoff",
]
MIN = {"rigid_energy": 1000, "rigid_gradient": 500, "perm_energy": 300, "long_perm": 60,
       "perm_gradient": 300, "prop_perm": 100, "prop_rigid": 100,
       "orbit_energy": 100, "#Z": 103}


def cases(tier, seed):
    f = {"quick": 3, "thorough": 40}[tier]
    out = [{"kind": "big", "i": i, "seed": seed} for i in range(48 * f)]
    out += [{"kind": "long", "i": i, "seed": seed} for i in range(48 * f)]
    out += [{"kind": "rigid", "i": i, "seed": seed} for i in range(330 * f)]
    out += [{"kind": "perm", "i": i, "seed": seed} for i in range(400 * f)]
    out += [{"kind": "props", "i": i, "seed": seed} for i in range(160 * f)]
    out += [{"kind": "orbit", "i": i, "seed": seed} for i in range(200 * f)]
    return out


def motions(rng, pos):
    """(name, matrix, shift)"""
    eye = np.eye(3)
    out = [("rotation", gen.random_rotation(rng), np.zeros(3))]
    u = gen._unit(rng)
    out.append(("reflection", eye - 2 * np.outer(u, u), np.zeros(3)))
    out.append(("inversion", -eye, np.zeros(3)))
    p = rng.permutation(3)
    out.append(("axes", eye[p] * rng.choice([-1, 1], 3)[:, None], np.zeros(3)))
    t = rng.normal(size=3) * rng.choice([0.1, 1.0, 10.0, 60.0])
    out.append(("translation", eye, t))
    out.append(("both", gen.random_rotation(rng), rng.normal(size=3) * 10))
    # a coordinate frame in which components become exactly zero
    at = pos[rng.randint(len(pos))]
    out.append(("origin", eye, -at))
    out.append(("plane", eye, -at * rng.randint(0, 2, 3)))
    return out


def tol(*xs, tiny=False):
    m = max(float(np.abs(x).max(initial=1.0)) for x in xs)
    return 2e-9 + 2e3 * 2.2e-16 * m * m + (2e-7 if tiny else 0.0)


def tiny_cn(nums, pos, c):
    if c.get("q") is not None:
        return False
    cut = (c.get("cutoff") or R.DEFAULT_CUTOFF)["cn_eeq"]
    cn = R.coordination(nums, pos, en_weight=False, cutoff=cut)
    return bool((cn < 1e-6).any()) and len(nums) > 1


def energy_grad(mon, nums, pos, c, api, want_grad=True):
    nb = N(nums)
    x = T(pos, grad=want_grad)
    e = evaluate(mon, nb, x, T(c["charge"]), tparam(c["p"]),
                 kwargs(nb, c), api,
                 batch=gen.rs(pos.tobytes(), nums.tobytes(), api))
    g = grad_of(mon, "positions", e.sum(), [x])[0] if want_grad else None
    return e.detach(), g


def note(mon, nums):
    for z in nums:
        mon.event(f"Z{int(z)}")


def ambiguous(nums, pos, c):
    m = c["model"]
    mod = R.Model(nums, c["kind"], wf=m.get("wf"))
    mod.weights(R.coordination(nums, pos), None)
    return mod.ambiguous


def run(case, mon):
    rng = gen.rs("c02", case["kind"], case["i"], case["seed"])
    kind = case["kind"]
    if kind in ("rigid", "big", "long"):
        if kind == "big":
            n = int(rng.randint(15, 70) if case["i"] % 8
                    else rng.randint(70, 110))
            nums, pos, shp = gen.molecule(rng, n=n, shape=str(rng.choice(
                ["grow", "lattice", "fragments"])))
        elif kind == "long":
            nums, pos = extended(rng)
            shp = "long"
        else:
            nums, pos, shp = gen.molecule(rng)
        c = config(rng, nums)
        pos = offboundary(nums, pos, c)
        if ambiguous(nums, pos, c):
            mon.event("skipped_ambiguous_underflow")
            return
        api = pick_api(rng)
        e0, g0 = energy_grad(mon, nums, pos, c, api)
        tiny = tiny_cn(nums, pos, c)
        es = max(float(e0.abs().max()), 1e-12)
        gs = max(gscale(g0), 1e-8 * es, 1e-12)
        mv = motions(rng, pos)
        if kind != "rigid":
            mv = [mv[i] for i in rng.choice(len(mv), 3, replace=False)]
        note(mon, nums)
        imgs = []
        for name, rot, sh in mv:
            x = pos @ rot.T + sh
            imgs.append(x)
            e, g = energy_grad(mon, nums, x, c, api)
            rt = tol(x, tiny=tiny)
            mon.close("rigid_energy", e, e0, scale=es, rtol=rt,
                      detail=f"{name} {c['kind']} {c['damping']} {api}")
            mon.close("rigid_gradient", g.numpy(), g0.numpy() @ rot.T,
                      scale=gs, rtol=20 * rt,
                      detail=f"{name} {c['kind']} {c['damping']} {api}")
            mon.event("motion:" + name)
            if es > 1e-12:
                mon.nontrivial(name, nums.tolist(), e0.tolist()[:4])
        if kind == "long":
            pi = rng.permutation(len(nums)) if rng.rand() < 0.5 else \
                np.arange(len(nums))[::-1].copy()
            e, g = energy_grad(mon, nums[pi], pos[pi], reorder(c, pi), api)
            mon.close("long_perm", e, e0.numpy()[pi], scale=es,
                      rtol=tol(pos, tiny=tiny), detail=api)
            mon.close("long_perm", g, g0.numpy()[pi], scale=gs,
                      rtol=20 * tol(pos, tiny=tiny), detail="gradient")
        # all images as one batch
        if kind == "rigid" and rng.rand() < 0.4:
            b = len(imgs)
            cb = dict(c)
            for k in ("q", "r4r2", "rvdw"):
                if c[k] is not None:
                    cb[k] = np.stack([c[k]] * b)
            nb = N(np.stack([nums] * b))
            e = evaluate(mon, nb, T(np.stack(imgs)), T([c["charge"]] * b),
                         tparam(c["p"]), kwargs(nb, cb), api)
            mon.close("rigid_energy", e, np.stack([e0.numpy()] * b),
                      scale=es, rtol=tol(*imgs, tiny=tiny),
                      detail="images as batch")
        mon.sample({"numbers": nums.tolist(), "shape": shp,
                    "motions": [m[0] for m in mv], "api": api})
        return
    if kind == "perm":
        nums, pos, shp = gen.molecule(rng, nmax=16)
        if len(nums) < 2:
            return
        c = config(rng, nums)
        pos = offboundary(nums, pos, c)
        if ambiguous(nums, pos, c):
            mon.event("skipped_ambiguous_underflow")
            return
        api = pick_api(rng)
        e0, g0 = energy_grad(mon, nums, pos, c, api)
        es = max(float(e0.abs().max()), 1e-12)
        gs = max(gscale(g0), 1e-8 * es, 1e-12)
        rt = tol(pos, tiny=tiny_cn(nums, pos, c))
        note(mon, nums)
        for name in ("random", "reverse", "swap"):
            n = len(nums)
            if name == "random":
                pi = rng.permutation(n)
            elif name == "reverse":
                pi = np.arange(n)[::-1].copy()
            else:
                pi = np.arange(n)
                a, b = rng.choice(n, 2, replace=False)
                pi[a], pi[b] = b, a
            cp = reorder(c, pi)
            e, g = energy_grad(mon, nums[pi], pos[pi], cp, api)
            d = f"{name} {c['kind']} {c['damping']} {api}"
            mon.close("perm_energy", e, e0.numpy()[pi], scale=es, rtol=rt,
                      detail=d)
            mon.close("perm_total", e.sum(), e0.sum(), scale=es * n, rtol=rt,
                      detail=d)
            mon.close("perm_gradient", g, g0.numpy()[pi], scale=gs,
                      rtol=20 * rt, detail=d)
            mon.nontrivial(name, nums.tolist(), pi.tolist(), e0.tolist()[:3])
        return
    if kind == "props":
        nums, pos, shp = gen.molecule(rng, nmax=16)
        c = {"cutoff": None, "q": None}
        pos = offboundary(nums, pos, c)
        if ambiguous(nums, pos, dict(model={}, kind="d4")):
            mon.event("skipped_ambiguous_underflow")
            return
        ch = gen.charge(rng)
        ref = [t.numpy() for t in mon.call("get_properties", d4.get_properties,
                                           N(nums), T(pos), T(ch))]
        tiny = tiny_cn(nums, pos, c)
        sc = [max(np.abs(r).max(), 1.0) for r in ref]
        note(mon, nums)
        for name, rot, sh in motions(rng, pos):
            x = pos @ rot.T + sh
            got = mon.call("get_properties", d4.get_properties, N(nums), T(x),
                           T(ch))
            for lab, a, b, s in zip(("cn", "q", "c6", "alpha"), got, ref, sc):
                mon.close("prop_rigid", a, b, scale=s,
                          rtol=10 * tol(x, tiny=tiny), detail=f"{lab} {name}")
        pi = rng.permutation(len(nums))
        got = mon.call("get_properties", d4.get_properties, N(nums[pi]),
                       T(pos[pi]), T(ch))
        for lab, a, b, s in zip(("cn", "q", "c6", "alpha"), got, ref, sc):
            want = b[np.ix_(pi, pi)] if b.ndim == 2 else b[pi]
            mon.close("prop_perm", a, want, scale=s,
                      rtol=10 * tol(pos, tiny=tiny), detail=lab)
        mon.nontrivial("props", nums.tolist(), ref[1].tolist()[:4])
        return
    if kind == "orbit":
        # molecule made of symmetry orbits
        grp = str(rng.choice(["C2", "Ci", "Cs", "C3", "C4v", "D2h", "C6"]))
        ops = group(grp)
        k = int(rng.randint(1, 4))
        for _ in range(60):
            base = gen.elements(rng, k)
            x0 = rng.normal(size=(k, 3)) * (3.0 + k)
            nums, pos, orb = [], [], []
            for i in range(k):
                for o in ops:
                    nums.append(base[i])
                    pos.append(o @ x0[i])
                    orb.append(i)
            nums, pos, orb = map(np.array, (nums, pos, orb))
            if gen.ok_distances(nums, pos, 0.6):
                break
        else:
            mon.event("orbit_not_placed")
            return
        sh = rng.permutation(len(nums))
        nums, pos, orb = nums[sh], pos[sh], orb[sh]
        c = config(rng, nums)
        c["q"] = c["r4r2"] = c["rvdw"] = None
        if rng.rand() < 0.3:
            c["q"] = rng.normal(size=k)[orb] * 0.3
        if R.boundary_distance(pos, [R.CN_CUT] + list(
                (c["cutoff"] or R.DEFAULT_CUTOFF).values())) < 1e-6:
            return
        if ambiguous(nums, pos, c):
            return
        api = pick_api(rng)
        e, g = energy_grad(mon, nums, pos, c, api)
        es = max(float(e.abs().max()), 1e-12)
        rt = tol(pos, tiny=tiny_cn(nums, pos, c))
        note(mon, nums)
        gn = np.linalg.norm(g.numpy(), axis=-1)
        for i in range(k):
            idx = np.where(orb == i)[0]
            mon.close("orbit_energy", e.numpy()[idx],
                      np.full(len(idx), e.numpy()[idx[0]]), scale=es, rtol=rt,
                      detail=f"{grp} {c['kind']}")
            mon.close("orbit_gradient", gn[idx], np.full(len(idx), gn[idx[0]]),
                      scale=max(gn.max(), 1e-12), rtol=20 * rt,
                      detail=f"{grp} {c['kind']}")
        mon.nontrivial(grp, nums.tolist(), e.tolist()[:3])
        return
    raise ValueError(kind)


def reorder(c, pi):
    cp = dict(c)
    if c["q"] is not None:
        cp["q"] = c["q"][pi]
    if c["r4r2"] is not None:
        cp["r4r2"] = c["r4r2"][pi]
    if c["rvdw"] is not None:
        cp["rvdw"] = c["rvdw"][np.ix_(pi, pi)]
    return cp


def extended(rng):
    """Systems much longer than all cutoffs (chains, distant clusters)."""
    n = int(rng.randint(8, 50))
    nums = gen.elements(rng, n)
    if rng.rand() < 0.5:
        pos = np.zeros((n, 3))
        step = rng.uniform(1.0, 4.0)
        u = gen._unit(rng)
        for i in range(1, n):
            d = step * (R.G["rcov"][nums[i]] + R.G["rcov"][nums[i - 1]])
            pos[i] = pos[i - 1] + u * d + rng.normal(size=3) * 0.2
    else:
        pos = np.zeros((n, 3))
        i, at = 0, np.zeros(3)
        while i < n:
            k = min(int(rng.randint(1, 7)), n - i)
            pos[i:i + k] = gen.grow(rng, nums[i:i + k]) + at
            at = at + gen._unit(rng) * rng.uniform(40, 400)
            i += k
    if not gen.ok_distances(nums, pos, 0.55):
        return gen.molecule(rng, n=n)[:2]
    return nums, pos - pos.mean(0) * float(rng.rand() < 0.5)


def group(name):
    def rz(a):
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0],
                         [0, 0, 1.0]])

    d = np.diag
    if name == "C2":
        return [np.eye(3), d([-1., -1, 1])]
    if name == "Ci":
        return [np.eye(3), -np.eye(3)]
    if name == "Cs":
        return [np.eye(3), d([1., 1, -1])]
    if name == "C3":
        return [rz(2 * np.pi * i / 3) for i in range(3)]
    if name == "C6":
        return [rz(2 * np.pi * i / 6) for i in range(6)]
    if name == "C4v":
        r = [rz(np.pi * i / 2).round(12) for i in range(4)]
        return r + [x @ d([-1., 1, 1]) for x in r]
    return [d([a, b, c]) for a in (1., -1.) for b in (1., -1.)
            for c in (1., -1.)]
