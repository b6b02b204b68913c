"""C01: energies equal the D4 / D4S closed form."""
from __future__ import annotations

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import (RARE, config, evaluate, kwargs, offboundary, reference,
                      run_sut)
from ..sut import DAMP, DT, N, T, cutoff, d4, model, tparam

RULE = (
    "Random and structured molecules (1 to ~330 atoms, the two-body term to 1100, all elements 1-103, "
    "bonded clusters, lattices, chains, fragments beyond cutoffs) x model "
    "(D4, D4S, by key or instance, custom ga/gc/wf, EEQ or GFN2 reference "
    "charges) x damping function x parameter set x total charge or explicit "
    "partial charges x radii and cutoff overrides x batch or single x float or "
    "tensor parameters; user-given coordination number and counting functions "
    "(functional API and method objects). Non-trivial: at least two atoms inside the two-body "
    "cutoff, i.e. a non-zero energy was compared with the reference model; "
    "distinct by geometry and configuration."
)
ASSUME = [
    "element data, charge model and coordination number constants are those of "
    "the committed golden snapshot (they are data, see C16)",
    "interatomic distances are at least 0.55 times the sum of covalent radii",
    "configurations in which a distance lies within 1e-6 of a cutoff are moved "
    "off the boundary (the boundary itself is C06)",
]
MIN = {"energy": {"quick": 2000, "thorough": 20000}, "#Z": 103, "padding": 50,
       "prop_c6": 50, "cn_function": 60, "pair_wf": 40, "huge": 3,
       "route:exact": 200, "route:d3atm": 80, "route:qexact": 80}


def cases(tier, seed):
    n = {"quick": 6000, "thorough": 60000}[tier]
    out = [{"kind": "sweep", "z": z, "seed": seed} for z in range(1, 104)]
    out += [{"kind": "mol", "i": i, "seed": seed} for i in range(n)]
    nbig = {"quick": 240, "thorough": 2400}[tier]
    out += [{"kind": "big", "i": i, "seed": seed} for i in range(nbig)]
    out += [{"kind": "batch", "i": i, "seed": seed}
            for i in range({"quick": 600, "thorough": 6000}[tier])]
    out += [{"kind": "props", "i": i, "seed": seed}
            for i in range({"quick": 450, "thorough": 4500}[tier])]
    out += [{"kind": "huge", "i": i, "seed": seed}
            for i in range({"quick": 4, "thorough": 24}[tier])]
    out += [{"kind": "hydride", "i": i, "seed": seed} for i in range(6)]
    out += [{"kind": "cnfn", "i": i, "seed": seed}
            for i in range({"quick": 360, "thorough": 4000}[tier])]
    # expensive first
    out.sort(key=lambda c: {"huge": -1, "big": 0, "batch": 1}.get(c["kind"], 2))
    return out


def tol(ref):
    return 2e-7 if ref["tiny_cn"] else 2e-9


def noise(ref):
    """Scale of every atom; reference polarizabilities that cancel (almost)
    exactly leave an atom with nothing but rounding."""
    sc = np.asarray(ref["scale"])
    return sc + 1e-5 * sc.max(initial=0.0)


def compare(mon, e, ref, numbers, tag):
    if ref["ambiguous"]:
        mon.event("skipped_ambiguous_underflow")
        return
    mon.close("energy", e, ref["e"], rtol=tol(ref), scale=noise(ref),
              atol=1e-19, detail=tag)
    mon.event("atoms", len(numbers))
    for z in numbers:
        mon.event(f"Z{int(z)}")
    if np.abs(ref["e"]).max(initial=0) > 1e-15:
        mon.nontrivial(tag, numbers.tolist(), ref["e"].round(10).tolist())


def run(case, mon):
    rng = gen.rs("c01", case["kind"], case.get("i", case.get("z", 0)),
                 case["seed"])
    kind = case["kind"]
    if kind == "sweep":
        z = case["z"]
        # every element: bonded to itself, to H and to a random partner, at
        # several degrees of coordination
        for rep in range(4):
            partner = int(rng.randint(1, 104))
            pool = [[z, 1], [z, z], [z, partner], [z, 8, 1]][rep]
            n = [3, 4, 6, 9][rep]
            nums = np.array([z] + list(rng.choice(pool, n - 1)))
            nums, pos, shp = gen.molecule(rng, numbers=nums)
            c = config(rng, nums)
            if rep < 2:
                c["q"] = None
                c["model"] = {}
                c["kind"] = ["d4", "d4s"][rep]
            pos = offboundary(nums, pos, c)
            ref = reference(nums, pos, c)
            e = run_sut(mon, rng, nums, pos, c)
            compare(mon, e, ref, nums, f"sweep {c['kind']} {c['damping']}")
        return
    if kind in ("mol", "big"):
        if kind == "big":
            i = case["i"]
            n = int(rng.randint(15, 72) if i % 8 else rng.randint(72, 150)
                    if i % 48 else rng.randint(150, 230))
            nums, pos, shp = gen.molecule(rng, n=n, shape=str(rng.choice(
                ["grow", "lattice", "fragments"])))
        else:
            nums, pos, shp = gen.molecule(rng)
        c = config(rng, nums)
        if rng.rand() < 0.25:
            # exact, charge-dependent or van der Waals three-body terms
            c["api"] = str(rng.choice(["exact", "exact"] + RARE))
            if "d3atm" in c["api"] and rng.rand() < 0.5:
                c["p"]["rs9"] = float(rng.choice([1.0, 0.8, 1.5]))
            mon.event("route:" + c["api"])
        pos = offboundary(nums, pos, c)
        ref = reference(nums, pos, c)
        e = run_sut(mon, rng, nums, pos, c)
        compare(mon, e, ref, nums, f"{shp} {c['kind']} {c['damping']} "
                                   f"{c.get('api')} {sorted(c['model'])}")
        mon.sample({"numbers": nums.tolist(), "shape": shp, "config": {
            k: v for k, v in c.items() if k not in ("rvdw",)},
            "energy": np.asarray(ref["e"]).sum()})
        return
    if kind == "huge":
        _huge(rng, mon, case["i"])
        return
    if kind == "hydride":
        # strongly reduced atoms: effective nuclear charge is fully compensated
        sys_ = [([1], -1), ([1, 1], -2), ([1, 1, 1], -3), ([1, 2], -3),
                ([2, 2], -4), ([1, 8, 1], -6)][case["i"]]
        nums = np.array(sys_[0])
        for rep in range(4):
            pos = gen.linear(rng, nums) * rng.uniform(0.9, 2.0)
            c = {"kind": ["d4", "d4s"][rep % 2], "damping": "rational",
                 "p": gen.param(rng), "charge": float(sys_[1]), "q": None,
                 "r4r2": None, "rvdw": None, "cutoff": None, "model": {}}
            ref = reference(nums, pos, c)
            e = run_sut(mon, rng, nums, pos, c)
            compare(mon, e, ref, nums, "hydride")
        return
    if kind == "cnfn":
        _cnfn(rng, mon)
        return
    if kind == "batch":
        b = int(rng.choice([1, 2, 3, 5]))
        mols = [gen.molecule(rng, nmax=8)[:2] for _ in range(b)]
        nmax = max(len(m[0]) for m in mols) + int(rng.rand() < 0.2)
        c = config(rng, mols[0][0])
        c["q"] = c["r4r2"] = c["rvdw"] = None
        if any(m[0].max() > R.MAXZ_GFN2 for m in mols):
            c["model"].pop("ref_charges", None)
        nums = np.zeros((b, nmax), int)
        pos = np.zeros((b, nmax, 3))
        ch = np.array([gen.charge(rng) for _ in range(b)])
        refs = []
        for k, (z, x) in enumerate(mols):
            x = offboundary(z, x, c)
            nums[k, :len(z)] = z
            pos[k, :len(z)] = x
            refs.append(reference(z, x, dict(c, charge=ch[k])))
        nb = N(nums)
        if c["kind"] == "d4s" and rng.rand() < 0.4:
            # individual weighting factors for the pairs of every molecule
            wf = rng.uniform(1.0, 9.0, (b, nmax, nmax))
            wf = wf + wf.swapaxes(1, 2)
            c["model"]["wf"] = T(wf)
            refs = [reference(z, pos[k, :len(z)], dict(
                c, charge=ch[k], model=dict(
                    c["model"], wf=wf[k, :len(z), :len(z)])))
                for k, (z, _) in enumerate(mols)]
            mon.event("pair_wf")
        mod = model(nb, c["kind"], **c["model"]) if c["model"] else c["kind"]
        e = mon.call("dftd4", d4.dftd4, nb, T(pos), T(ch), tparam(c["p"]),
                     model=mod, cutoff=cutoff(c["cutoff"]),
                     damping_function=DAMP[c["damping"]]())
        for k, (z, x) in enumerate(mols):
            compare(mon, e[k, :len(z)], refs[k], z, "batch " + c["kind"])
            mon.close("padding", e[k, len(z):], np.zeros(nmax - len(z)))
        return
    if kind == "props":
        nums, pos, shp = gen.molecule(rng, nmax=10)
        ch = gen.charge(rng)
        c = {"cutoff": None}
        pos = offboundary(nums, pos, c)
        cn, q, c6, al = mon.call("get_properties", d4.get_properties, N(nums),
                                 T(pos), T(ch))
        q0, cneeq = R.eeq_charges(nums, pos, ch)
        cn0 = R.coordination(nums, pos)
        m = R.Model(nums)
        w = m.weights(cn0, q0)
        if m.ambiguous:
            mon.event("skipped_ambiguous_underflow")
            return
        rt = 1e-6 if (cneeq < 1e-6).any() else 1e-8
        mon.close("prop_cn", cn, cn0, rtol=1e-9, atol=1e-10)
        mon.close("prop_q", q, q0, rtol=rt, atol=rt)
        mon.close("prop_c6", c6, m.c6(w), rtol=rt * 10)
        mon.close("prop_alpha", al, m.pols(w)[:, 0], rtol=rt * 10)
        mon.nontrivial("props", nums.tolist(), cn0.round(8).tolist())
        return
    raise ValueError(kind)


def _huge(rng, mon, i):
    """Hundreds of atoms (all terms) to above a thousand (two-body term)."""
    full = i % 4 == 0
    n = int([rng.randint(257, 330), rng.randint(330, 513),
             rng.randint(513, 800), rng.randint(1025, 1100)][i % 4])
    nums, pos, shp = gen.molecule(rng, n=n, shape=str(rng.choice(
        ["grow", "lattice", "fragments"])))
    c = config(rng, nums)
    c["rvdw"] = None
    if c["cutoff"] and min(c["cutoff"].values()) == 0.0:
        c["cutoff"] = None
    if i % 4 == 3:
        c["kind"] = "d4"
        c["model"].pop("wf", None)
    pos = offboundary(nums, pos, c)
    m = dict(c["model"])
    ref = R.energy(nums, pos, c["charge"], c["p"], kind=c["kind"], q=c["q"],
                   damping=c["damping"], cutoff=c["cutoff"], r4r2=c["r4r2"],
                   ref=m.pop("ref_charges", "eeq"),
                   terms=("2", "atm") if full else ("2",), **m)
    kw = kwargs(N(nums), c)
    e = evaluate(mon, N(nums), T(pos), c["charge"], tparam(c["p"]), kw,
                 "dftd4" if full else "two").detach()
    compare(mon, e, ref, nums, f"huge {n} {shp} {c['kind']} {c['damping']}")
    mon.event("huge")


def _cnfn(rng, mon):
    """User-given coordination numbers reach all terms, but not the charges."""
    from tad_mctc import ncoord
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import D4ATMApprox, DispD4
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    nums, pos, _ = gen.molecule(rng, nmax=8)
    c = config(rng, nums)
    if rng.rand() < 0.5:
        c["model"] = {}
    pos = offboundary(nums, pos, c)
    nb, x = N(nums), T(pos)
    how = str(rng.choice(["const", "exp", "gfn2", "custom", "cn_d3"]))
    kw, ckw = {}, {}
    if how == "const":
        k = rng.choice([3, 3, 1, 12])
        cn = np.abs(rng.normal(size=len(nums))) * k
        if k == 12 and rng.rand() < 0.7:  # weights not yet saturated
            c["model"]["wf"] = float(10 ** rng.uniform(-2.5, -1))

        def fn(numbers, positions, counting_function=None, **kwargs):
            mon.event("cn_function_called")
            return T(cn)
        kw["cn_function"] = fn
        ckw = {"cn_fn": fn}
    elif how == "cn_d3":
        cn = ncoord.cn_d3(nb, x, counting_function=ncoord.erf_count).numpy()
        kw["cn_function"] = ncoord.cn_d3
        ckw = {"cn_fn": ncoord.cn_d3,
               "cn_fn_kwargs": {"counting_function": ncoord.erf_count}}
    else:
        if how == "custom":
            k = float(rng.uniform(3, 12))

            def cf(r, r0, kcn=None):
                return torch.sigmoid(-k * (r / r0 - 1.1))
        else:
            cf = {"exp": ncoord.exp_count, "gfn2": ncoord.gfn2_count}[how]
        cn = ncoord.cn_d4(nb, x, counting_function=cf).numpy()
        kw["counting_function"] = cf
        if rng.rand() < 0.5:
            kw["cn_function"] = ncoord.cn_d4
        ckw = {"cn_fn_kwargs": {"counting_function": cf}}
    m = dict(c["model"])
    ref = R.energy(nums, pos, c["charge"], c["p"], kind=c["kind"], q=c["q"],
                   damping=c["damping"], cutoff=c["cutoff"], r4r2=c["r4r2"],
                   rvdw=c["rvdw"], ref=m.pop("ref_charges", "eeq"), cn=cn, **m)
    if ref["ambiguous"]:
        mon.event("skipped_ambiguous_underflow")
        return
    base = kwargs(nb, c)
    e = mon.call("dftd4", d4.dftd4, nb, x, c["charge"], c["p"], **base, **kw)
    mon.close("cn_function", e, ref["e"], rtol=tol(ref), scale=noise(ref),
              atol=1e-19, detail=f"{how} {c['kind']} {nums.tolist()}")
    damp = base.pop("damping_function")
    mod = base.pop("model")
    if c["damping"] == "rational" and rng.rand() < 0.5:
        disp = DispD4(model=mod, dtype=torch.float64, **ckw)
    else:
        disp = Disp(model=mod, dtype=torch.float64, **ckw)
        disp.register(TwoBodyTerm(damping_fn=damp))
        disp.register(D4ATMApprox())
    e = mon.call("calculate", disp.calculate, nb, x, c["charge"], c["p"],
                 **base)
    mon.close("cn_function", e, ref["e"], rtol=tol(ref), scale=noise(ref),
              atol=1e-19, detail=f"class {how} {c['kind']} {nums.tolist()}")
    mon.nontrivial("cnfn", how, nums.tolist(), ref["e"].round(10).tolist())
