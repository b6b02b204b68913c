"""C16: element data are the published D4 data for every element."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4 import data
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from .. import gen, refmodel as R
from ..sut import DAMP, DT, N, T, model

RULE = (
    "Probes that isolate one table entry each, for all elements 1-103, in "
    "single and double precision, with EEQ and GFN2 reference charges and "
    "several charge-scaling settings: one-hot weights give each reference "
    "polarizability at each frequency and each reference C6 of all element "
    "pairs; weights at coordination numbers between neighbouring references and "
    "at several charges give reference CNs, multiplicities, reference charges, "
    "hardness and effective nuclear charge; the pair-specific model at such "
    "coordination numbers gives the weighting factor of all element pairs; "
    "pure C8 energies of dimers give the expectation values; zero-damped dimers "
    "the pair radii; the table accessors in both precisions. Non-trivial: each "
    "probed (element or pair, reference, frequency); counted per table."
)
ASSUME = ["the committed golden snapshot holds the published values",
          "tables of the charge model and of the coordination number belong to "
          "other packages and are not judged here"]
MIN = {"alpha": 40, "refc6": 12, "weights": 200, "wfpair": 20, "r4r2": 15,
       "vdw": 8, "table": 5, "#Z": 103, "entries:alpha": 10000,
       "entries:refc6": 200000, "entries:wfpair": 10000}

ALL = np.arange(1, 104)
GFN = np.arange(1, 87)


def cases(tier, seed):
    k = {"quick": 10, "thorough": 30}[tier]
    out = []
    for r in range(k):
        for ref in ("eeq", "gfn2"):
            for dt in DT:
                for kind in ("d4", "d4s"):
                    out.append({"kind": "alpha", "ref": ref, "dt": dt,
                                "model": kind, "rep": r, "seed": seed})
                    out.append({"kind": "refc6", "ref": ref, "dt": dt,
                                "model": kind, "rep": r, "seed": seed})
        for dt in DT:
            out.append({"kind": "wfpair", "dt": dt, "rep": r, "seed": seed})
            out.append({"kind": "vdw", "dt": dt, "rep": r, "seed": seed})
            out.append({"kind": "r4r2", "dt": dt, "rep": r, "seed": seed})
            out.append({"kind": "table", "dt": dt, "rep": r, "seed": seed})
        for z in ALL:
            out.append({"kind": "weights", "z": int(z), "rep": r,
                        "seed": seed})
    return out


RT = {"f64": 1e-10, "f32": 2e-5}


def run(case, mon):
    rng = gen.rs("c16", *(str(v) for v in case.values()))
    {"alpha": _alpha, "refc6": _refc6, "weights": _weights, "wfpair": _wfpair,
     "r4r2": _r4r2, "vdw": _vdw, "table": _table}[case["kind"]](
         rng, mon, case)


def onehot(nums, r, kind, dt):
    n = len(nums)
    w = np.zeros((n, 7))
    w[:, r] = 1.0
    if kind == "d4s":
        w = np.broadcast_to(w, (n, n, 7))
    return T(w, DT[dt])


def settings(rng, case):
    """Charge scaling settings; the first repetition uses the defaults too."""
    out = [(3.0, 2.0), (float(rng.uniform(0.5, 4)), float(rng.uniform(0.5, 3)))]
    return out


def _alpha(rng, mon, case):
    nums = rng.permutation(ALL if case["ref"] == "eeq" else GFN)
    dt = DT[case["dt"]]
    for ga, gc in settings(rng, case):
        for chunk in np.array_split(nums, 4):
            m = mon.call("model", model, N(chunk), case["model"], dt, ga=ga,
                         gc=gc, ref_charges=case["ref"])
            for r in range(7):
                a = mon.call("pols", m.get_weighted_pols,
                             onehot(chunk, r, case["model"], case["dt"]))
                want = np.stack([R.ref_alpha(z, ga, gc, case["ref"])[r]
                                 for z in chunk])
                # the difference of two terms is rounded relative to the terms
                sc = np.abs(np.stack([
                    R.G["refascale"][z, r] * R.G["refalpha"][z, r]
                    for z in chunk])) + np.abs(want)
                mon.close("alpha", a, want, rtol=RT[case["dt"]], scale=sc,
                          atol=1e-12 if case["dt"] == "f64" else 1e-6,
                          detail=f"reference {r} of {chunk.tolist()} ga={ga} "
                                 f"gc={gc} {case['ref']}")
                mon.event("entries:alpha", a.numel())
        for z in nums:
            mon.event(f"Z{int(z)}")
            mon.nontrivial("alpha", int(z), case["ref"], case["dt"],
                           case["model"])


def _refc6(rng, mon, case):
    nums = rng.permutation(ALL if case["ref"] == "eeq" else GFN)
    dt = DT[case["dt"]]
    m = mon.call("model", model, N(nums), case["model"], dt,
                 ref_charges=case["ref"])
    al = np.stack([R.ref_alpha(z, ref=case["ref"]) for z in nums])
    for r in range(7):
        for s in range(7):
            n = len(nums)
            half = rng.rand(n) < 0.5
            w = np.zeros((n, 7))
            w[half, r] = 1.0
            w[~half, s] = 1.0
            gw = np.broadcast_to(w, (n, n, 7)) if case["model"] == "d4s" else w
            c6 = mon.call("c6", m.get_atomic_c6, T(gw, dt))
            a = np.einsum("ir,irw->iw", w, al)
            want = 3 / np.pi * np.einsum("iw,jw,w->ij", a, a, R.CPW)
            mon.close("refc6", c6, want, rtol=RT[case["dt"]] * 10,
                      atol=1e-9 if case["dt"] == "f64" else 2e-3,
                      detail=f"references {r},{s} {case['ref']}")
            mon.event("entries:refc6", c6.numel())
    mon.nontrivial("refc6", case["ref"], case["dt"], case["model"],
                   nums.tolist())


def probe_cns(z):
    """Where the weights respond most: between neighbouring references."""
    rc = np.unique(R.G["refcovcn"][z][R.nref(z)])
    g = [(a + b) / 2 for a, b in zip(rc[:-1], rc[1:])]
    g += [0.4 * a + 0.6 * b for a, b in zip(rc[:-1], rc[1:])]
    return g or [float(rc[0]) if len(rc) else 0.0]


def _weights(rng, mon, case):
    z = case["z"]
    mon.event(f"Z{z}")
    cns = probe_cns(z)
    cns += list(rng.uniform(0, max(cns) + 1.0, 3)) + [0.0, max(cns) + 1.7]
    qs = [0.0, 0.35, -0.3, 1.2, -0.8 * min(R.G["zeff"][z], 2.0),
          float(rng.normal() * 0.5)]
    for ref in ("eeq", "gfn2") if z <= 86 else ("eeq",):
        for dt in DT:
            ga, gc = [(3.0, 2.0), (2.0, 1.0)][rng.randint(2)]
            g = np.array([(a, b) for a in cns for b in qs])
            g = np.asarray(np.asarray(g, np.float32), float)
            m = mon.call("model", model, N(np.full((len(g), 1), z)), "d4",
                         DT[dt], ga=ga, gc=gc, ref_charges=ref)
            w = mon.call("weights", m.weight_references, T(g[:, :1], DT[dt]),
                         T(g[:, 1:], DT[dt]))
            want = np.zeros((len(g), 7))
            keep = np.ones(len(g), bool)
            for k, (cn, q) in enumerate(g):
                want[k], amb = R.atom_weights(z, cn, q, 6.0, ga, gc, ref)
                keep[k] = not amb
            mon.close("weights", w[:, 0][torch.tensor(keep)], want[keep],
                      rtol=1e-9 if dt == "f64" else 5e-5,
                      atol=1e-10 if dt == "f64" else 2e-6,
                      detail=f"Z={z} {ref} {dt}")
            mon.nontrivial("w", z, ref, dt)


def _wfpair(rng, mon, case):
    nums = rng.permutation(ALL)
    dt = DT[case["dt"]]
    f64 = case["dt"] == "f64"
    want = R.G["wfpair"][nums[:, None], nums[None, :]]
    # behaviour: weights at sensitive coordination numbers
    for k in range(3):
        cn = np.zeros(len(nums))
        for i, z in enumerate(nums):
            p = probe_cns(z)
            cn[i] = p[rng.randint(len(p))] + rng.uniform(-0.05, 0.05)
        cn = np.asarray(np.asarray(np.abs(cn), np.float32), float)
        ref = R.Model(nums, "d4s")
        w0 = ref.weights(cn, None)
        m = mon.call("model", model, N(nums), "d4s", dt)
        w = mon.call("weights", m.weight_references, T(cn, dt))
        if not ref.ambiguous:
            mon.close("wfpair", w, w0, rtol=1e-9 if f64 else 5e-5,
                      atol=1e-10 if f64 else 2e-6, detail="weights")
        mon.event("entries:wfpair", w0.shape[0] * w0.shape[1])
    # and in small molecules of random pairs
    for _ in range(30):
        a, b = (int(v) for v in rng.randint(1, 104, 2))
        nn = np.array([a, b])
        cn = np.array([probe_cns(a)[0], probe_cns(b)[-1]])
        cn = np.asarray(np.asarray(cn, np.float32), float)
        ref = R.Model(nn, "d4s")
        w0 = ref.weights(cn, None)
        w = mon.call("weights", model(N(nn), "d4s", dt).weight_references,
                     T(cn, dt))
        if not ref.ambiguous:
            mon.close("wfpair", w, w0, rtol=1e-9 if f64 else 5e-5,
                      atol=1e-10 if f64 else 2e-6, detail=f"pair {a} {b}")
    # the documented attribute of the model
    mon.close("wfpair", m.wf, want, rtol=1e-12 if f64 else 1e-6,
              detail="D4SModel.wf")
    mon.nontrivial("wfpair", case["dt"], nums.tolist())


def _r4r2(rng, mon, case):
    """Pure C8 energies of dimers: E = -3 C6 Q_A Q_B f8(R), per atom half."""
    dt = DT[case["dt"]]
    f64 = case["dt"] == "f64"
    disp = Disp(dtype=dt)
    mon.close("r4r2", mon.call("get_r4r2", disp.get_r4r2, N(ALL)),
              R.G["r4r2"][ALL], rtol=1e-13 if f64 else 1e-6,
              detail="Disp.get_r4r2")
    for rep in range(3):
        other = ALL if rep == 0 else rng.permutation(ALL)
        nums = np.stack([ALL, other], -1)
        x = np.zeros((len(ALL), 2, 3))
        x[:, 1, 2] = np.asarray(rng.uniform(5.0, 12.0), np.float32)
        for s in ("s8", "s10"):
            p = {"s6": 0.0, "s8": 0.0, "s9": 0.0, "s10": 0.0, "a1": 0.5,
                 "a2": 4.0, s: 1.0}
            for route in range(2):
                if route == 0:
                    c6 = T(np.ones((len(ALL), 2, 2)), dt)
                    e = mon.call("dispersion2", dispersion2, N(nums), T(x, dt),
                                 p, c6, T(R.G["r4r2"][nums], dt))
                    c60 = np.ones(len(ALL))
                    # given expectation values: only the formula
                else:
                    d = Disp(model="d4", dtype=dt)
                    d.register(TwoBodyTerm(charge_dependent=False))
                    e = mon.call("calculate", d.calculate, N(nums), T(x, dt),
                                 T(np.zeros(len(ALL)), dt), p)
                    c60 = np.zeros(len(ALL))
                    for k, nn in enumerate(nums):
                        mm = R.Model(nn)
                        c60[k] = mm.c6(mm.weights(R.coordination(nn, x[k]),
                                                  None))[0, 1]
                r = x[:, 1, 2]
                qq = 3 * R.G["r4r2"][nums[:, 0]] * R.G["r4r2"][nums[:, 1]]
                n = 8 if s == "s8" else 10
                c = c60 * (qq if n == 8 else qq ** 2 * 49 / 40)
                want = -0.5 * c / (r ** n + (0.5 * np.sqrt(qq) + 4.0) ** n)
                mon.close("r4r2", e, np.stack([want, want], -1),
                          rtol=1e-8 if f64 else 2e-4, detail=f"{s} energies")
        mon.nontrivial("r4r2", case["dt"], other.tolist())


def _vdw(rng, mon, case):
    dt = DT[case["dt"]]
    f64 = case["dt"] == "f64"
    disp = Disp(dtype=dt)
    nums = rng.permutation(ALL)
    mon.close("vdw", mon.call("get_rvdw", disp.get_rvdw, N(nums)),
              R.G["vdw"][nums[:, None], nums[None]],
              rtol=1e-13 if f64 else 1e-6, detail="Disp.get_rvdw")
    for rep in range(6):
        nn = np.stack([ALL, rng.permutation(ALL)], -1)
        x = np.zeros((len(ALL), 2, 3))
        x[:, 1, 2] = np.asarray(rng.uniform(4.0, 9.0), np.float32)
        p = {"s6": 1.0, "s8": 0.0, "s9": 0.0, "rs6": 1.0, "rs8": 1.0,
             "alp": 14.0, "a1": 0.4, "a2": 5.0}
        d = Disp(model="d4", dtype=dt)
        d.register(TwoBodyTerm(damping_fn=DAMP["zero"](),
                               charge_dependent=False))
        e = mon.call("calculate", d.calculate, N(nn), T(x, dt),
                     T(np.zeros(len(ALL)), dt), p)
        want = []
        for k, z in enumerate(nn):
            mm = R.Model(z)
            c6 = mm.c6(mm.weights(R.coordination(z, x[k]), None))[0, 1]
            r = x[k, 1, 2]
            f = 1 / (1 + 6 * (R.G["vdw"][z[0], z[1]] / r) ** 14)
            want.append(-0.5 * c6 * f / r ** 6)
        want = np.array(want)
        mon.close("vdw", e, np.stack([want, want], -1),
                  rtol=1e-8 if f64 else 5e-4, detail="zero-damped dimers")
    mon.nontrivial("vdw", case["dt"], nums.tolist())


def _table(rng, mon, case):
    dt = DT[case["dt"]]
    rt = 1e-14 if case["dt"] == "f64" else 1e-6
    for name, key in (("R4R2", "r4r2"), ("GAM", "gam")):
        t = mon.call(name, getattr(data, name), dtype=dt)
        mon.ok("table_dtype", t.dtype == dt, f"{name} {t.dtype}")
        mon.close("table", t[ALL], R.G[key][ALL], rtol=rt, detail=name)
    mon.close("table", mon.call("ZEFF", data.ZEFF)[ALL], R.G["zeff"][ALL],
              rtol=0.0, detail="ZEFF")
    from tad_dftd4.data.wfpair import WFPAIR

    t = mon.call("WFPAIR", WFPAIR, dtype=dt)
    mon.ok("table_dtype", t.dtype == dt, f"WFPAIR {t.dtype}")
    mon.close("table", t[1:104, 1:104], R.G["wfpair"][1:104, 1:104], rtol=rt,
              detail="WFPAIR")
    mon.nontrivial("table", case["dt"])
