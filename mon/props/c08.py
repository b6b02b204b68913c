"""C08: C6 coefficients and polarizabilities are mutually consistent."""
from __future__ import annotations

import math

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import pad
from ..sut import DT, N, T, d4, model

RULE = (
    "Random molecules and padded batches over all elements x model (standard, "
    "pair-specific, default / scalar / matrix weighting factors) x reference "
    "charges x charge-scaling factors x precision, with physical and arbitrary "
    "positive weights. Observed: the C6 matrix (symmetry, sign, Casimir-Polder "
    "integral of the observed dynamic polarizabilities, bilinearity in the "
    "weights), dynamic and static polarizabilities, the reported properties, "
    "the quadrature routines, the pair-specific model with a uniform weighting "
    "factor. Non-trivial: at least two real atoms; distinct by configuration."
)
ASSUME = [
    "the polarizability of an atom as seen by one partner is the standard "
    "model's for the weights belonging to that partner; the pair-specific "
    "model reports their mean over the real partners",
    "polarizabilities and C6 are required positive where the charge scaling "
    "does not underflow (partial charges of physical magnitude)",
]
MIN = {"symmetric": 200, "positive": 200, "casimir_polder": 200,
       "static": 200, "pol_positive": 200, "uniform": 60, "bilinear": 200,
       "atom_scaling": 100, "partner_scaling": 60, "quadrature": 100,
       "props": 40, "given_rc6": 60, "#Z": 100, "padded": 60, "f32": 60,
       "d4s_mean": 60, "gfn2": 20, "padding": 60}


def cases(tier, seed):
    n = {"quick": 10000, "thorough": 60000}[tier]
    return [{"kind": ("mol", "mol", "uniform", "weights")[i % 4], "i": i,
             "seed": seed} for i in range(n)]


def run(case, mon):
    rng = gen.rs("c08", case["i"], case["seed"])
    {"mol": _mol, "uniform": _uniform, "weights": _weights}[case["kind"]](
        rng, mon, case["i"])


def _system(rng, mon, i, dt="f64"):
    """Molecule or padded batch; CN and charges of physical magnitude."""
    force = 1 + (i // 2) % R.MAXZ
    mols = []
    for k in range(int(rng.choice([1, 1, 2, 3]))):
        z, x, _ = gen.molecule(rng, nmax=7)
        if k == 0:
            z = np.array(z)
            z[0] = force
        mols.append((z, x))
    kw = {}
    if rng.rand() < 0.3:
        kw["ga"] = float(rng.choice([2.0, 3.5]))
        kw["gc"] = float(rng.choice([1.5, 2.5]))
    if max(z.max() for z, _ in mols) <= R.MAXZ_GFN2 and rng.rand() < 0.4:
        kw["ref_charges"] = "gfn2"
        mon.event("gfn2")
    if len(mols) == 1 and rng.rand() < 0.7:
        nums = mols[0][0]
    else:
        nums, _ = pad(mols, int(rng.randint(0, 3)))
        if rng.rand() < 0.4:  # padding anywhere
            p = rng.permutation(nums.shape[1])
            nums = nums[:, p]
        mon.event("padded")
    for z in np.unique(nums[nums > 0]):
        mon.event(f"Z{z}")
    mon.event(dt)
    cn = np.abs(rng.normal(size=nums.shape)) * 2.5 * (nums > 0)
    q = np.clip(rng.normal(size=nums.shape) * 0.3, -0.7, 1.5) * (nums > 0)
    return nums, cn, q, kw


def _pair_pols(m4, gw, kind):
    """Dynamic polarizability of atom i as seen by partner j: (..., i, j, 23)."""
    if kind == "d4":
        p = m4.get_weighted_pols(gw)
        return p.unsqueeze(-2).expand(*p.shape[:-1], p.shape[-2], p.shape[-1])
    n = gw.shape[-2]
    return torch.stack([m4.get_weighted_pols(gw[..., j, :, :])
                        for j in range(n)], -2)


def _cp(a):
    """Casimir-Polder integral from pair polarizabilities (..., i, j, w)."""
    at = np.swapaxes(a, -3, -2)
    return 3.0 / math.pi * (a * at * R.CPW).sum(-1)


def _consistency(mon, nums, m, m4, kind, gw, dtype, physical, tag):
    real = nums > 0
    pair = real[..., :, None] & real[..., None, :]
    f32 = dtype == torch.float32
    rt = 2e-5 if f32 else 1e-10
    c6 = mon.call("get_atomic_c6", m.get_atomic_c6, gw)
    pol = mon.call("get_weighted_pols", m.get_weighted_pols, gw)
    sta = mon.call("get_polarizabilities", m.get_polarizabilities, gw)
    if not mon.ok("shape", tuple(c6.shape) == pair.shape
                  and tuple(pol.shape) == nums.shape + (23,)
                  and tuple(sta.shape) == nums.shape,
                  f"{tuple(c6.shape)} {tuple(pol.shape)} {tuple(sta.shape)} "
                  f"for {nums.shape} {tag}"):
        return None
    for t in (c6, pol, sta):
        mon.ok("dtype", t.dtype == dtype, f"{t.dtype} {tag}")
    c = c6.numpy().astype(float)
    sc = np.maximum(np.abs(c), 1e-30)
    mon.close("symmetric", c, np.swapaxes(c, -1, -2), scale=sc, rtol=rt,
              atol=1e-12, detail=tag)
    mon.ok("padding", (c[~pair] == 0).all() and (pol.numpy()[~real] == 0).all()
           and (sta.numpy()[~real] == 0).all(), "non-zero padding " + tag)
    if physical:
        mon.ok("positive", (c[pair] > 0).all(), f"min {c[pair].min()} {tag}")
        mon.ok("pol_positive", (sta.numpy()[real] > 0).all(), tag)
        pn = pol.numpy()[real]
        mon.ok("pol_positive", (pn >= 0).all(), "dynamic " + tag)
    a = _pair_pols(m4, gw, kind).numpy().astype(float)
    mon.close("casimir_polder", c, _cp(a), scale=np.abs(_cp(a)), rtol=rt * 5,
              atol=1e-12, detail=tag)
    mon.close("static", sta, pol[..., 0], rtol=rt, atol=1e-300, detail=tag)
    # mean over real partners (the standard model has no partner dependence)
    wgt = np.broadcast_to(real[..., None, :, None], a.shape)
    cnt = real.sum(-1)[..., None, None]
    mean = np.where(wgt, a, 0).sum(-2) / cnt
    mon.close("d4s_mean" if kind == "d4s" else "d4_pols", pol, mean,
              scale=np.abs(mean), rtol=rt * 5, atol=1e-12, detail=tag)
    return c


def _mol(rng, mon, i):
    kind = "d4" if i % 4 == 0 else "d4s"
    dt = "f32" if rng.rand() < 0.3 else "f64"
    dtype = DT[dt]
    nums, cn, q, kw = _system(rng, mon, i, dt)
    nb = N(nums)
    n = nums.shape[-1]
    wk = dict(kw)
    style = rng.randint(4)
    if style == 1:
        wk["wf"] = float(rng.choice([4.0, 5.5]))
    elif style == 2 and kind == "d4s":
        a = rng.uniform(3, 8, (n, n))
        wk["wf"] = T((a + a.T) / 2, dtype)
    elif style == 3 and kind == "d4s" and nums.ndim == 2:
        a = rng.uniform(3, 8, nums.shape + (n,))
        wk["wf"] = T((a + np.swapaxes(a, -1, -2)) / 2, dtype)
    m = mon.call("model", model, nb, kind, dtype, **wk)
    m4 = mon.call("model", model, nb, "d4", dtype, **kw)
    gw = mon.call("weights", m.weight_references, T(cn, dtype), T(q, dtype))
    tag = f"{kind} {dt} {nums.tolist()} {sorted(wk)}"
    c = _consistency(mon, nums, m, m4, kind, gw, dtype, True, tag)
    if c is None:
        return
    # polarizabilities of the published data at these weights
    flat = nums.reshape(-1, n)
    a4 = _pair_pols(m4, gw, kind).numpy().astype(float).reshape(
        flat.shape[0], n, n, 23)
    g = gw.numpy().astype(float).reshape(
        (flat.shape[0],) + ((n, n, 7) if kind == "d4s" else (n, 7)))
    for b in range(flat.shape[0]):
        for k, z in enumerate(flat[b]):
            if z == 0:
                continue
            al = R.ref_alpha(z, kw.get("ga", 3.0), kw.get("gc", 2.0),
                             kw.get("ref_charges", "eeq"))
            w = g[b, k] if kind == "d4" else g[b, 0, k]
            mon.close("published", a4[b, k, 0], w @ al, rtol=1e-8
                      if dt == "f64" else 1e-4, atol=1e-10,
                      scale=np.abs(w) @ np.abs(al) if dt == "f64" else
                      float(np.max(np.abs(w) @ np.abs(al))),
                      detail=f"Z={z} {tag}")
    if (nums > 0).sum() > 1:
        mon.nontrivial(tag, i)
    mon.sample({"numbers": nums.tolist(), "model": kind, "c6_00":
                float(c.reshape(-1)[0])})
    # reported properties
    if rng.rand() < 0.5 and kind == "d4":
        mols = [gen.molecule(rng, numbers=z[z > 0]) for z in flat]
        ns, xs = pad([(a, b) for a, b, _ in mols])
        if nums.ndim == 1:
            ns, xs = ns[0], xs[0]
        ch = [gen.charge(rng) for _ in range(flat.shape[0])]
        pcn, pq, pc6, pal = mon.call(
            "get_properties", d4.get_properties, N(ns), T(xs, dtype),
            T(ch if nums.ndim == 2 else ch[0], dtype))
        mm = mon.call("model", model, N(ns), "d4", dtype)
        w = mm.weight_references(pcn, pq)
        mon.close("props", pc6, mm.get_atomic_c6(w), rtol=1e-5
                  if dt == "f32" else 1e-10, atol=1e-12, detail=tag)
        pw = mm.get_weighted_pols(w)
        mon.close("props", pal, pw[..., 0], rtol=1e-5 if dt == "f32" else
                  1e-10, atol=1e-12, detail=tag)


def _uniform(rng, mon, i):
    """Pair-specific model with a uniform factor is the standard model."""
    nums, cn, q, kw = _system(rng, mon, i)
    nb = N(nums)
    n = nums.shape[-1]
    f = float(rng.choice([6.0, 4.0, 5.25, 7.5, 2.0]))
    forms = {"float": f, "int": int(f), "scalar": T(f),
             "matrix": torch.full((n, n), f, dtype=torch.float64),
             "full": torch.full(nums.shape + (n,), f, dtype=torch.float64)}
    name = str(rng.choice(sorted(forms)))
    if name == "int":
        f = float(int(f))
    m4 = mon.call("model", model, nb, "d4", wf=f, **kw)
    dbg = getattr(d4.model.d4s, "D4SDebug", None)
    if dbg is not None and f == 6.0 and rng.rand() < 0.5:
        # the uniform factor is the default of this class
        name = "debug"
        ms = mon.call("model", dbg, nb, dtype=torch.float64, **kw)
    else:
        ms = mon.call("model", model, nb, "d4s", wf=forms[name], **kw)
    c, x = T(cn), T(q)
    g4 = mon.call("weights", m4.weight_references, c, x)
    gs = mon.call("weights", ms.weight_references, c, x)
    tag = f"uniform {name} {f} {nums.tolist()}"
    real = nums > 0
    want = g4.unsqueeze(-3).expand(*gs.shape).numpy()
    sel = np.broadcast_to(real[..., :, None, None], gs.shape)  # real partners
    mon.close("uniform", np.where(sel, gs.numpy(), 0),
              np.where(sel, want, 0), rtol=1e-9, atol=1e-13, detail=tag)
    mon.close("uniform", ms.get_atomic_c6(gs), m4.get_atomic_c6(g4),
              rtol=1e-9, atol=1e-12, detail="c6 " + tag)
    mon.close("uniform", ms.get_weighted_pols(gs), m4.get_weighted_pols(g4),
              rtol=1e-9, atol=1e-12, detail="pols " + tag)
    mon.close("uniform", ms.get_polarizabilities(gs),
              m4.get_polarizabilities(g4), rtol=1e-9, atol=1e-12,
              detail="static " + tag)
    # the energies as well
    flat = nums.reshape(-1, n)
    mols = [gen.molecule(rng, numbers=z[z > 0]) for z in flat]
    ns, xs = pad([(a, b) for a, b, _ in mols])
    p = gen.param(rng)
    form = f if name != "matrix" else torch.full((ns.shape[1],) * 2, f,
                                                 dtype=torch.float64)
    e = [mon.call("dftd4", d4.dftd4, N(ns), T(xs), torch.zeros(len(ns)), p,
                  model=model(N(ns), k, wf=form if k == "d4s" else f, **kw))
         for k in ("d4", "d4s")]
    mon.close("uniform", e[1], e[0], rtol=1e-9, atol=1e-13,
              scale=float(e[0].abs().max()), detail="energy " + tag)
    if real.sum() > 1:
        mon.nontrivial(tag, i)


def _weights(rng, mon, i):
    """Arbitrary weights: bilinearity, quadrature, given reference C6."""
    kind = "d4" if i % 8 == 3 else "d4s"
    nums, _, _, kw = _system(rng, mon, i)
    nb = N(nums)
    n = nums.shape[-1]
    m = mon.call("model", model, nb, kind, **kw)
    m4 = mon.call("model", model, nb, "d4", **kw)
    shp = nums.shape + (7,) if kind == "d4" else nums.shape + (n, 7)
    real = nums > 0
    msk = np.broadcast_to(real[..., None] if kind == "d4" else
                          real[..., None, :, None] & real[..., :, None, None],
                          shp)
    g1 = T(np.where(msk, rng.uniform(0.05, 1.0, shp), 0))
    g2 = T(np.where(msk, rng.uniform(0.05, 1.0, shp), 0))
    tag = f"weights {kind} {nums.tolist()}"
    c1 = _consistency(mon, nums, m, m4, kind, g1, torch.float64, False, tag)
    if c1 is None:
        return
    c2 = m.get_atomic_c6(g2).numpy()
    s = float(rng.uniform(0.2, 3))
    mon.close("bilinear", m.get_atomic_c6(s * g1), s * s * c1, rtol=1e-10,
              atol=1e-12, detail=tag)
    cp_, cm = (m.get_atomic_c6(g1 + g2).numpy(),
               m.get_atomic_c6(g1 - g2).numpy())
    mon.close("bilinear", cp_ + cm, 2 * (c1 + c2), scale=np.abs(cp_) + 1e-30,
              rtol=1e-9, atol=1e-10, detail="parallelogram " + tag)
    # scaling the weights of one atom
    k = int(rng.randint(n))
    h = g1.clone()
    h[..., k, :] *= s
    f = np.ones((n, n))
    f[k] *= s
    f[:, k] *= s
    mon.close("atom_scaling", m.get_atomic_c6(h), c1 * f, rtol=1e-10,
              atol=1e-12, detail=tag)
    mon.close("atom_scaling", m.get_weighted_pols(h), m.get_weighted_pols(
        g1).numpy() * np.where(np.arange(n) == k, s, 1)[:, None], rtol=1e-10,
              atol=1e-12, detail="pols " + tag)
    if kind == "d4s":  # weights of atom k towards one partner only
        j = int(rng.randint(n))
        h = g1.clone()
        h[..., j, k, :] *= s
        f = np.ones((n, n))
        if j == k:
            f[k, k] = s * s
        else:
            f[k, j] = f[j, k] = s
        mon.close("partner_scaling", m.get_atomic_c6(h), c1 * f, rtol=1e-10,
                  atol=1e-12, detail=tag)
    # reference C6 given by the user
    rc = rng.uniform(1, 50, nums.shape + (n, 7, 7))
    rc = rc + np.moveaxis(rc, (-4, -3, -2, -1), (-3, -4, -1, -2)) \
        if nums.ndim == 2 else rc + rc.transpose(1, 0, 3, 2)
    cls = d4.D4Model if kind == "d4" else d4.D4SModel
    mg = mon.call("model:rc6", cls, nb, rc6=T(rc), dtype=torch.float64, **kw)
    w = g1.numpy()
    want = np.einsum("...ijab,...ia,...jb->...ij", rc, w, w) if kind == "d4" \
        else np.einsum("...ijab,...jia,...ijb->...ij", rc, w, w)
    mon.close("given_rc6", mg.get_atomic_c6(g1), want, rtol=1e-10, atol=1e-12,
              detail=tag)
    # quadrature routines on arbitrary polarizabilities
    from tad_dftd4.utils import trapzd, trapzd_atm, trapzd_noref

    b = int(rng.randint(1, 4))
    # different numbers of atoms and references in both sets
    n1, n2 = 4, int(rng.choice([4, 4, 1, 3, 6]))
    p1, p2 = rng.uniform(0.1, 30, (b, n1, 7, 23)), rng.uniform(
        0.1, 30, (b, n2, 7 if n2 > 1 else 2, 23))
    th = 3 / math.pi
    mon.close("quadrature", trapzd(T(p1)), th * np.einsum(
        "w,biaw,bjcw->bijac", R.CPW, p1, p1), rtol=1e-11, detail="trapzd")
    mon.close("quadrature", trapzd(T(p1), T(p2)), th * np.einsum(
        "w,biaw,bjcw->bijac", R.CPW, p1, p2), rtol=1e-11, detail="trapzd 2")
    mon.close("quadrature", trapzd_noref(T(p1[:, :, 0])), th * np.einsum(
        "w,biw,bjw->bij", R.CPW, p1[:, :, 0], p1[:, :, 0]), rtol=1e-11,
              detail="trapzd_noref")
    mon.close("quadrature", trapzd_noref(T(p1[:, :, 0]), T(p2[:, :, 0])),
              th * np.einsum("w,biw,bjw->bij", R.CPW, p1[:, :, 0],
                             p2[:, :, 0]), rtol=1e-11, detail="noref 2")
    t3 = p1[:, :, None, None, 0] * p1[:, None, :, None, 1] * p1[
        :, None, None, :, 2]
    mon.close("quadrature", trapzd_atm(T(t3)), th * (t3 * R.CPW).sum(-1),
              rtol=1e-11, detail="trapzd_atm")
    if real.sum() > 1:
        mon.nontrivial(tag, i)
