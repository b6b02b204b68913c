"""C07: reference weights are a normalised, charge-scaled partition."""
from __future__ import annotations

import math

import numpy as np
import torch

from .. import gen, refmodel as R
from ..sut import DT, N, T, d4, model

RULE = (
    "Every element x a grid of coordination numbers (on, between, near and far "
    "above its reference CNs) x a grid of charges (reference charges, zero, "
    "strongly positive, at and below minus the effective nuclear charge) x "
    "model (standard and pair-specific with random partners) x weighting and "
    "charge-scaling factors x reference charges x precision. Observed: every "
    "weight, their normalisation after removing the charge scaling, absent "
    "references, the fallback for underflowing Gaussians, the derivatives by "
    "charge and coordination number (analytical and automatic). Non-trivial: "
    "grid points with at least two non-zero weights or in the fallback regime; "
    "distinct by element, point and configuration."
)
ASSUME = [
    "points where the Gaussian norm lies within 8 decades of the underflow "
    "threshold and fallback and normal weights differ are not judged",
    "reference data are those of the golden snapshot (C16)",
]
MIN = {"weights": 400, "normalised": 400, "nonnegative": 400, "absent": 400,
       "dq": 200, "dq_auto": 200, "dcn_auto": 100, "dcn": 100, "#Z": 103,
       "fallback_points": 1000, "f32": 100, "f64": 100, "gfn2": 50,
       "none_args": 60}

# rounding of the weights (doubles) times the slopes of the exponents (~1e3)
CN_ATOL = 1e-10


def cases(tier, seed):
    reps = {"quick": 12, "thorough": 60}[tier]
    out = []
    for r in range(reps):
        out += [{"kind": "grid", "z": z, "rep": r, "seed": seed}
                for z in range(1, 104)]
    out += [{"kind": "shapes", "z": 0, "rep": i, "seed": seed}
            for i in range(60 * reps)]
    return out


def cn_grid(rng, z):
    rc = np.unique(R.G["refcovcn"][z][R.nref(z)])
    g = [0.0]
    for c in rc:
        g += [c, c + 1e-3, max(c - 0.2, 0.0), c + 0.35]
    g += [(a + b) / 2 for a, b in zip(rc[:-1], rc[1:])]
    m = rc.max(initial=0.0)
    g += [m + x for x in (0.8, 1.5, 2.5, 4.0, 5.2, 6.5, 8.0, 11.0, 14.0, 20.0,
                              28.0, 45.0)]
    g += list(rng.uniform(0, m + 2, 5))
    return np.unique(np.round(g, 9))


def q_grid(rng, z, ref):
    ze = R.G["zeff"][z]
    rq = R.G["clsq" if ref == "eeq" else "refq_gfn2"][z][R.nref(z)]
    g = [0.0, 0.5, -0.5, 1.0, -1.0, 3.0, 8.0, -ze, -ze - 0.7, -ze + 0.05,
         -0.3 * ze]
    g += list(rq[:3]) + list(rng.normal(size=3) * 0.4)
    return np.unique(np.round(g, 9))


def analytic(z, cn, q, wf, ga, gc, ref):
    """weights, d/dcn, d/dq, pure gaussian weights, zeta, ambiguous, fallback"""
    gw, ln = R.gaussian_weights(z, cn, wf)
    have = R.nref(z)
    dgw = np.zeros(7)
    amb = fb = False
    if ln < R.UNDERFLOW_HI:
        f = R.fallback_weights(z)
        if ln < -760.0:
            gw, fb = f, True
        else:
            amb = True
            fb = ln < R.UNDERFLOW_LO
            if np.abs(f - gw).max() <= 1e-12:
                amb = False
                fb = True  # same value either way, derivative ~ 0
                gw = f
    if not fb:
        ent = []
        for r in range(7):
            if have[r]:
                d = cn - R.G["refcovcn"][z, r]
                for i in range(1, int(R.G["refc"][z, r]) + 1):
                    ent.append((r, -i * wf * d * d, -2 * i * wf * d))
        m = max(v for _, v, _ in ent)
        pr = np.array([math.exp(v - m) for _, v, _ in ent])
        pr /= pr.sum()
        sl = np.array([s for *_, s in ent])
        mean = (pr * sl).sum()
        for (r, _, _), p_, s_ in zip(ent, pr, sl):
            dgw[r] += p_ * (s_ - mean)
    refq = R.G["clsq" if ref == "eeq" else "refq_gfn2"][z]
    ze = R.G["zeff"][z]
    gam = R.G["gam"][z] * gc
    zt = R.zeta(ga, gam, refq + ze, q + ze)
    dz = np.zeros(7)
    qm = q + ze
    if qm > 0:
        with np.errstate(over="ignore", under="ignore", invalid="ignore"):
            s = np.exp(gam * (1 - (refq + ze) / qm))
            # the closed form factor vanishes where the scale overflows
            dz = np.where(np.isfinite(s), -ga * gam * s * zt * (refq + ze)
                          / qm ** 2, 0.0)
    w = np.where(have, zt * gw, 0.0)
    return (w, np.where(have, zt * dgw, 0.0), np.where(have, dz * gw, 0.0),
            gw, np.where(have, zt, 0.0), amb, fb)


def run(case, mon):
    rng = gen.rs("c07", case["kind"], case["z"], case["rep"], case["seed"])
    if case["kind"] == "grid":
        _grid(rng, mon, case["z"])
    else:
        _shapes(rng, mon)


def _grid(rng, mon, z):
    mon.event(f"Z{z}")
    for kind in ("d4", "d4s"):
        for dt in ("f64", "f32"):
            ga = float(rng.choice([3.0, 3.0, 2.0, 4.0, 3.0, 0.0, 0.5]))
            gc = float(rng.choice([2.0, 2.0, 1.0, 3.0, 2.0, 0.0, 0.5]))
            ref = "gfn2" if z <= R.MAXZ_GFN2 and rng.rand() < 0.35 else "eeq"
            partner = int(rng.choice([1, 6, z, int(rng.randint(1, 104))]))
            if ref == "gfn2" and partner > R.MAXZ_GFN2:
                partner = z
            wfs = None
            if rng.rand() < 0.4:
                wfs = float(rng.choice([1.5, 4.0, 5.5, 8.0, 0.05, 0.0,
                                        rng.uniform(0.02, 10.0)]))
            kw = dict(ga=ga, gc=gc, wf=wfs)
            if ref == "gfn2" or rng.rand() < 0.3:
                kw["ref_charges"] = ref
            mon.event(dt)
            mon.event(ref)
            _points(rng, mon, z, kind, dt, partner, wfs, ga, gc, ref, kw)


def _points(rng, mon, z, kind, dt, partner, wfs, ga, gc, ref, kw):
    dtype = DT[dt]
    cg, qg = cn_grid(rng, z), q_grid(rng, z, ref)
    pts = [(c, q) for c in cg for q in qg]
    if len(pts) > 150:
        pts = [pts[i] for i in rng.choice(len(pts), 150, replace=False)]
    npdt = np.float64 if dt == "f64" else np.float32
    cn = np.array([p[0] for p in pts], npdt).astype(float)
    q = np.array([p[1] for p in pts], npdt).astype(float)
    B = len(pts)
    # every grid point is one molecule of two atoms: z and its partner
    nums = np.stack([np.full(B, z), np.full(B, partner)], 1)
    pos_first = rng.rand() < 0.5
    a = 0
    if not pos_first:
        nums, a = nums[:, ::-1].copy(), 1
    cnb, qb = np.zeros((B, 2)), np.zeros((B, 2))
    cnb[:, a], qb[:, a] = cn, q
    cnb[:, 1 - a] = rng.uniform(0, 4)
    m = mon.call("model", model, N(nums), kind, dtype, **kw)
    tc = T(cnb, dtype, grad=True)
    tq = T(qb, dtype, grad=True)
    w = mon.call("weights", m.weight_references, tc, tq)
    want_shape = (B, 2, 7) if kind == "d4" else (B, 2, 2, 7)
    if not mon.ok("shape", tuple(w.shape) == want_shape, f"{tuple(w.shape)}"):
        return
    if w.dtype != dtype:
        mon.fail("dtype", f"weights {w.dtype} for {dtype}")
    # weights of atom a as seen by partner (d4s)
    wa = w[:, a] if kind == "d4" else w[:, 1 - a, a]
    wf = wfs if wfs is not None else (
        6.0 if kind == "d4" else float(R.G["wfpair"][z, partner]))
    if dt == "f32":
        wf = float(np.float32(wf))
    refs = [analytic(z, float(c), float(x), wf, ga, gc, ref)
            for c, x in zip(cn, q)]
    W = np.array([r[0] for r in refs])
    DC = np.array([r[1] for r in refs])
    DQ = np.array([r[2] for r in refs])
    ZT = np.array([r[4] for r in refs])
    amb = np.array([r[5] for r in refs])
    fb = np.array([r[6] for r in refs])
    mon.event("fallback_points", int((fb & ~amb).sum()))
    mon.event("ambiguous_points", int(amb.sum()))
    ok = ~amb
    tag = (f"Z={z} {kind} {dt} partner={partner} wf={wf:.3f} ga={ga} gc={gc} "
           f"{ref}")
    got = wa.detach().numpy().astype(float)
    zs = np.maximum(ZT, 1e-30)
    if dt == "f64":
        rt = np.full_like(W, 1e-8)
    else:
        ze = R.G["zeff"][z]
        gam = R.G["gam"][z] * gc
        rq = R.G["clsq" if ref == "eeq" else "refq_gfn2"][z] + ze
        qm = (q + ze)[:, None]
        with np.errstate(all="ignore"):
            x = np.where(qm > 0, rq[None] / np.where(qm > 0, qm, 1), 0)
            s = np.exp(np.clip(gam * (1 - x), -80, 80))
            amp = ga * s * gam * np.abs(x) * (1 + ze / np.maximum(qm, 1e-6))
        rt = np.clip(5e-4 + 50 * 1.2e-7 * amp, 0, 0.5)
    mon.close("weights", got[ok], W[ok], scale=zs[ok], rtol=1.0 * rt[ok],
              atol=1e-12, detail=tag)
    mon.ok("nonnegative", (got >= 0).all(), f"min {got.min()} {tag}")
    have = R.nref(z)
    mon.ok("absent", (got[:, ~have] == 0).all(),
           f"weight of an absent reference {tag}")
    # normalisation after removing the charge scaling (all points)
    big = ZT > 1e-25
    sel = (big | ~have[None]).all(1)
    if sel.any():
        nrm = np.where(have[None], got / np.where(big, ZT, 1), 0).sum(1)[sel]
        nfb = np.where(fb & ~amb, [int(R.fallback_weights(z).sum())] * B, 1)
        tol = 1e-8 if dt == "f64" else float(np.max(rt[sel]) * 7 + 1e-5)
        good = ~amb[sel]
        mon.close("normalised", nrm[good], nfb[sel][good].astype(float),
                  rtol=0.0, atol=tol, detail=tag)
    for i in np.where(((W > 1e-6).sum(1) > 1) | fb)[0][:40]:
        mon.nontrivial(tag, float(cn[i]), float(q[i]))

    # derivatives ------------------------------------------------------------
    zscale = max(float(np.abs(DQ[ok]).max(initial=0)), 1e-10)
    out = mon.call("weights:dq", m.weight_references, tc.detach(), tq.detach(),
                   with_dgwdq=True)
    w2, dq = out
    w2 = w2[:, a] if kind == "d4" else w2[:, 1 - a, a]
    dq = (dq[:, a] if kind == "d4" else dq[:, 1 - a, a]).numpy().astype(float)
    mon.close("same_weights", w2, wa, rtol=1e-6 if dt == "f32" else 1e-12,
              atol=1e-300, detail="with_dgwdq " + tag)
    if dt == "f64":
        mon.close("dq", dq[ok], DQ[ok], scale=np.abs(DQ[ok]) + 1e-6 * zscale,
                  rtol=1e-6, atol=1e-14, detail=tag)
    # automatic derivatives of every weight
    ad_c = np.zeros_like(got)
    ad_q = np.zeros_like(got)
    for r in np.where(have)[0]:
        g = mon.call("grad", torch.autograd.grad, wa[:, r].sum(), [tc, tq],
                     retain_graph=True, allow_unused=True)
        ad_c[:, r] = 0 if g[0] is None else g[0][:, a].numpy()
        ad_q[:, r] = 0 if g[1] is None else g[1][:, a].numpy()
    if dt == "f64":
        cs = max(float(np.abs(DC[ok]).max(initial=0)), 1e-10)
        mon.close("dq_auto", ad_q[ok], DQ[ok], rtol=1e-6, atol=1e-14,
                  scale=np.abs(DQ[ok]) + 1e-6 * zscale, detail=tag)
        mon.close("dcn_auto", ad_c[ok], DC[ok], rtol=1e-6, atol=CN_ATOL,
                  scale=np.abs(DC[ok]) + 1e-6 * cs, detail=tag)
    else:
        good = ok & (rt.max(1) < 1e-2)
        if good.any():
            mon.close("dq32", dq[good], ad_q[good], rtol=1e-2, atol=1e-6,
                      scale=zscale, detail=tag)
    if kind == "d4" and dt == "f64":
        w3, dc, dq3 = mon.call("weights:both", m.weight_references,
                               tc.detach(), tq.detach(), with_dgwdq=True,
                               with_dgwdcn=True)
        w4, dc4 = mon.call("weights:dcn", m.weight_references, tc.detach(),
                           tq.detach(), with_dgwdcn=True)
        mon.close("same_weights", w3, w, rtol=1e-12, atol=1e-300, detail=tag)
        mon.close("same_weights", w4, w, rtol=1e-12, atol=1e-300, detail=tag)
        mon.close("same_weights", dc4, dc, rtol=1e-12, atol=1e-300,
                  detail="derivatives " + tag)
        mon.close("dq", dq3[:, a].numpy()[ok], DQ[ok], rtol=1e-6, atol=1e-14,
                  scale=np.abs(DQ[ok]) + 1e-6 * zscale, detail=tag)
        dcn = dc[:, a].numpy()
        sc = np.abs(DC[ok]) + 1e-6 * cs
        neg = bool((np.abs(dcn[ok] + DC[ok]) <= 1e-6 * sc + CN_ATOL).all())
        mon.close("dcn", dcn[ok], DC[ok], scale=sc, rtol=1e-6, atol=CN_ATOL,
                  detail=tag, key="dgwdcn-sign" if neg else None)
    elif kind == "d4":
        dc = mon.call("weights:dcn", m.weight_references, tc.detach(),
                      tq.detach(), with_dgwdcn=True)[1]
        dcn = dc[:, a].numpy().astype(float)
        good = ok & (rt.max(1) < 1e-2)
        if good.any():
            cs = max(float(np.abs(ad_c[good]).max(initial=0)), 1e-6)
            neg = bool((np.abs(dcn[good] + ad_c[good]) <= 1e-2 * cs).all())
            mon.close("dcn32", dcn[good], ad_c[good], rtol=1e-2, atol=1e-6,
                      scale=cs, detail=tag, key="dgwdcn-sign" if neg else None)
    else:
        # not offered by this model: an error, or the derivative
        try:
            out = m.weight_references(tc.detach(), tq.detach(),
                                      with_dgwdcn=True)
        except NotImplementedError:
            mon.event("dcn_not_offered")
            out = None
        if out is not None:
            two = isinstance(out, tuple) and len(out) == 2
            mon.ok("dcn", two, f"derivatives were requested {tag}")
            if two:
                dcn = out[1][:, 1 - a, a].numpy().astype(float)
                want = DC if dt == "f64" else ad_c
                cs = max(float(np.abs(want[ok]).max(initial=0)), 1e-6)
                r = 1e-5 if dt == "f64" else 1e-2
                good = ok & (rt.max(1) < 1e-2) if dt == "f32" else ok
                neg = bool((np.abs(dcn[good] + want[good]) <= r * cs).all())
                mon.close("dcn", dcn[good], want[good], rtol=r, atol=1e-6,
                          scale=cs, detail=tag,
                          key="dgwdcn-sign" if neg else None)
    mon.sample({"z": z, "model": kind, "dtype": dt, "points": B,
                "fallback": int(fb.sum()), "ambiguous": int(amb.sum())})


def _shapes(rng, mon):
    """Free-standing molecules and batches, omitted arguments."""
    kind = str(rng.choice(["d4", "d4s"]))
    shp = [(1,), (4,), (7,), (2, 3), (2, 2, 4)][rng.randint(5)]
    nums = rng.randint(0, 104, shp)
    nums[..., 0] = rng.randint(1, 104)
    kw = {}
    ga, gc, ref_ = 3.0, 2.0, "eeq"
    if rng.rand() < 0.4:
        kw["wf"] = float(rng.choice([4.0, 5.0, 0.0]))
    if rng.rand() < 0.3:
        ga = kw["ga"] = float(rng.choice([0.0, 1.0, 2.5]))
        gc = kw["gc"] = float(rng.choice([0.0, 1.0, 2.5]))
    if rng.rand() < 0.3 and nums.max() <= R.MAXZ_GFN2:
        ref_ = kw["ref_charges"] = "gfn2"
    if kind == "d4s" and rng.rand() < 0.3:
        n = shp[-1]
        a = rng.uniform(3, 8, (n, n))
        kw["wf"] = T((a + a.T) / 2)
    m = mon.call("model", model, N(nums), kind, **kw)
    cn = np.abs(rng.normal(size=shp)) * 2.5
    q = rng.normal(size=shp) * 0.4
    for hc, hq in ((1, 1), (1, 0), (0, 1), (0, 0)):
        w = mon.call("weights", m.weight_references, T(cn) if hc else None,
                     T(q) if hq else None).numpy()
        flat = nums.reshape(-1, shp[-1])
        wn = w.reshape((flat.shape[0],) + w.shape[len(shp) - 1:])
        for b in range(flat.shape[0]):
            for i, z in enumerate(flat[b]):
                c = cn.reshape(flat.shape)[b, i] if hc else 0.0
                x = q.reshape(flat.shape)[b, i] if hq else 0.0
                js = [None] if kind == "d4" else range(shp[-1])
                for j in js:
                    if z == 0:
                        got = wn[b, i] if j is None else wn[b, j, i]
                        mon.ok("padding", (got == 0).all(), "padding weights")
                        continue
                    if "wf" in kw:
                        wf = float(kw["wf"]) if not isinstance(
                            kw["wf"], torch.Tensor) else float(kw["wf"][i, j])
                    elif j is None:
                        wf = 6.0
                    elif flat[b][j] == 0:
                        continue
                    else:
                        wf = float(R.G["wfpair"][z, flat[b][j]])
                    ref = analytic(int(z), float(c), float(x), wf, ga, gc,
                                   ref_)
                    if ref[5]:
                        continue
                    got = wn[b, i] if j is None else wn[b, j, i]
                    mon.close("weights", got, ref[0],
                              scale=np.maximum(ref[4], 1e-30), rtol=1e-8,
                              atol=1e-12, detail=f"Z={z} {kind} {shp}")
        if not (hc and hq):
            mon.event("none_args")
    mon.nontrivial("shapes", kind, nums.tolist())
