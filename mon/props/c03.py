"""C03: batching and padding never change a molecule's result."""
from __future__ import annotations

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import (config, evaluate, grad_of, kwargs, offboundary,
                      pick_api)
from ..sut import DT, N, T, d4, model, tparam
from .c02 import ambiguous, tiny_cn

RULE = (
    "Differential monitor: every molecule is evaluated alone and inside "
    "batches of shape (b,), (b1, b2) or (b1, b2, b3), with trailing, leading, "
    "interior or scattered padding whose coordinates are zero, random, huge or "
    "copies of real atoms; energies, derivatives with respect to positions, "
    "charges, radii and parameters, weights, coordination numbers, charges, C6 "
    "coefficients and polarizabilities are compared, and padding entries must "
    "be exactly inert. Non-trivial: a batch with at least one padded entry or "
    "at least two molecules; distinct by content."
)
ASSUME = ["padding coordinates are finite",
          "every molecule of a batch has at least one atom"]
MIN = {"energy": 600, "gradient": 600, "pad_energy": 300, "pad_gradient": 300,
       "prop_c6": 150, "layout:leading": 20, "layout:scattered": 20,
       "layout:trailing": 20, "ndim:2": 50, "ndim:3": 50, "ndim:4": 20,
       "model_weights": 100, "f32_energy": 50, "many": 10, "#Z": 100,
       "square": 120}


def cases(tier, seed):
    f = {"quick": 4, "thorough": 60}[tier]
    out = [{"kind": "energy", "i": i, "seed": seed} for i in range(420 * f)]
    out += [{"kind": "props", "i": i, "seed": seed} for i in range(120 * f)]
    out += [{"kind": "model", "i": i, "seed": seed} for i in range(120 * f)]
    out += [{"kind": "f32", "i": i, "seed": seed} for i in range(60 * f)]
    out += [{"kind": "wide", "i": i, "seed": seed} for i in range(12 * f)]
    out += [{"kind": "square", "i": i, "seed": seed} for i in range(60 * f)]
    return out


def layout(rng, mols, name, nextra, junk):
    """Index lists, padded numbers and positions of every molecule."""
    nmax = max(len(z) for z, _ in mols) + nextra
    nums = np.zeros((len(mols), nmax), int)
    pos = np.zeros((len(mols), nmax, 3))
    idx = []
    for k, (z, x) in enumerate(mols):
        n = len(z)
        if name == "trailing":
            ii = np.arange(n)
        elif name == "leading":
            ii = np.arange(nmax - n, nmax)
        else:
            ii = np.sort(rng.choice(nmax, n, replace=False))
        nums[k, ii] = z
        pos[k, ii] = x
        pads = np.setdiff1d(np.arange(nmax), ii)
        if junk == "random":
            pos[k, pads] = rng.normal(size=(len(pads), 3)) * 3
        elif junk == "huge":
            pos[k, pads] = rng.normal(size=(len(pads), 3)) * 500
        elif junk == "copies":
            pos[k, pads] = x[rng.randint(0, n, len(pads))]
        elif junk == "const":
            pos[k, pads] = 1.0
        idx.append(ii)
    return nums, pos, idx


def molecules(rng, b, nmax=8, pool=None):
    out = []
    for _ in range(b):
        z, x, _ = gen.molecule(rng, nmax=nmax, pool=pool)
        out.append([z, x])
    if b > 1 and rng.rand() < 0.2:
        out[-1] = [out[0][0].copy(), out[0][1].copy()]  # duplicate molecule
    if rng.rand() < 0.2:
        out[rng.randint(b)] = [gen.elements(rng, 1), np.zeros((1, 3))]
    return out


def shape(rng):
    return [(1,), (2,), (3,), (5,), (2, 2), (1, 3), (3, 1), (2, 1, 2),
            (1, 1, 2), (2, 3)][rng.randint(10)]


def scatter(arrs, idx, nmax, fill, pair=False):
    b = len(arrs)
    out = np.full((b, nmax, nmax) if pair else (b, nmax), float(fill))
    for k in range(b):
        if pair:
            out[k][np.ix_(idx[k], idx[k])] = arrs[k]
        else:
            out[k, idx[k]] = arrs[k]
    return out


def run(case, mon):
    rng = gen.rs("c03", case["kind"], case["i"], case["seed"])
    {"energy": _energy, "props": _props, "model": _model, "f32": _f32,
     "wide": _wide, "square": _square}[case["kind"]](rng, mon)


def _setup(rng, mon, nmax=8, pool=None, shp=None):
    shp = shp or shape(rng)
    b = int(np.prod(shp))
    mols = molecules(rng, b, nmax, pool)
    lay = str(rng.choice(["trailing", "trailing", "leading", "scattered"]))
    junk = str(rng.choice(["zero", "zero", "random", "huge", "copies",
                           "const"]))
    mon.event("layout:" + lay)
    mon.event("junk:" + junk)
    mon.event(f"ndim:{len(shp) + 1}")
    for z, _ in mols:
        for a in z:
            mon.event(f"Z{int(a)}")
    return shp, b, mols, lay, junk


def _config(rng, mols):
    c = config(rng, np.concatenate([m[0] for m in mols]))
    # explicit atom-resolved inputs per molecule
    per = {"q": None, "r4r2": None, "rvdw": None}
    if c["q"] is not None:
        per["q"] = [rng.normal(size=len(z)) * 0.4 for z, _ in mols]
    if c["r4r2"] is not None:
        per["r4r2"] = [R.G["r4r2"][z] * rng.uniform(.7, 1.4, len(z))
                       for z, _ in mols]
    if c["rvdw"] is not None:
        per["rvdw"] = [R.G["vdw"][z[:, None], z[None]] * 1.1 for z, _ in mols]
    c["q"] = c["r4r2"] = c["rvdw"] = None
    return c, per


def _energy(rng, mon):
    shp, b, mols, lay, junk = _setup(rng, mon)
    c, per = _config(rng, mols)
    api = pick_api(rng)
    ch = np.array([gen.charge(rng) for _ in range(b)])
    for m in mols:
        m[1] = offboundary(m[0], m[1], c)
    nums, pos, idx = layout(rng, mols, lay, int(rng.choice([0, 0, 1, 3])),
                            junk)
    nmax = nums.shape[1]

    # batched evaluation
    full = shp + (nmax,)
    nb = N(nums.reshape(full))
    x = T(pos.reshape(full + (3,)), grad=True)
    q = T(ch.reshape(shp), grad=True)
    p = tparam(c["p"], grad=True)
    kw = kwargs(nb, c)
    leaves = {}
    for k in ("q", "r4r2", "rvdw"):
        if per[k] is not None:
            a = scatter(per[k], idx, nmax, 0.0, pair=k == "rvdw")
            kw[k] = T(a.reshape(full + ((nmax,) if k == "rvdw" else ())),
                      grad=True)
            leaves[k] = kw[k]
    e = evaluate(mon, nb, x, q, p, kw, api)
    if not mon.ok("shape", tuple(e.shape) == full,
                  f"energy shape {tuple(e.shape)} != {full}"):
        return
    # weighted sum: derivative of every molecule, with its own weight
    w = T(rng.uniform(0.5, 1.5, b).reshape(shp + (1,)))
    names = list(leaves)
    gs = grad_of(mon, "batch", (e * w).sum(),
                 [x, q] + [leaves[k] for k in names] + list(p.values()))
    eb = e.detach().numpy().reshape(b, nmax)
    gb = gs[0].numpy().reshape(b, nmax, 3)
    qb = gs[1].numpy().reshape(b)
    gl = {k: g.numpy().reshape(b, *g.shape[len(shp):])
          for k, g in zip(names, gs[2:])}
    gp = dict(zip(p, gs[2 + len(names):]))

    # singles
    psum = {k: 0.0 for k in p}
    pabs = {k: 0.0 for k in p}
    wn = w.numpy().reshape(b)
    for k, (z, xx) in enumerate(mols):
        if ambiguous(z, xx, c):
            mon.event("skipped_ambiguous_underflow")
            return
        n1 = N(z)
        x1 = T(xx, grad=True)
        q1 = T(ch[k], grad=True)
        p1 = tparam(c["p"], grad=True)
        kw1 = kwargs(n1, c)
        l1 = []
        for nm in names:
            kw1[nm] = T(per[nm][k], grad=True)
            l1.append(kw1[nm])
        e1 = evaluate(mon, n1, x1, q1, p1, kw1, api)
        g1 = grad_of(mon, "single", e1.sum(), [x1, q1] + l1 + list(p1.values()))
        ii = idx[k]
        pads = np.setdiff1d(np.arange(nmax), ii)
        tiny = tiny_cn(z, xx, dict(c, q=1 if per["q"] is not None else None))
        rt = 1e-6 if tiny else 1e-9
        if junk == "huge":
            rt = max(rt, 1e-8)
        es = max(float(e1.detach().abs().max()), 1e-12)
        tag = (f"{c['kind']} {c['damping']} {api} shape={shp} {lay} {junk} "
               f"molecule {k}")
        mon.close("energy", eb[k, ii], e1, scale=es, rtol=rt, detail=tag)
        g = g1[0].numpy() * wn[k]
        gsx = max(np.abs(g).max(), es * 1e-3)
        mon.close("gradient", gb[k, ii], g, scale=gsx, rtol=100 * rt,
                  detail=tag)
        mon.close("charge_gradient", qb[k], float(g1[1]) * wn[k],
                  scale=max(es, abs(float(g1[1]))), rtol=100 * rt, detail=tag)
        for nm, gg in zip(names, g1[2:]):
            gg = gg.numpy() * wn[k]
            sub = gl[nm][k][np.ix_(ii, ii)] if nm == "rvdw" else gl[nm][k][ii]
            mon.close("input_gradient", sub, gg,
                      scale=max(np.abs(gg).max(), es), rtol=100 * rt,
                      detail=f"{nm} {tag}")
            if len(pads):
                rest = gl[nm][k][pads]
                mon.close("pad_gradient", rest, np.zeros_like(rest), atol=1e-14,
                          detail=f"{nm} {tag}")
        for nm, gg in zip(p1, g1[2 + len(names):]):
            psum[nm] += float(gg) * wn[k]
            pabs[nm] += abs(float(gg)) + es
        if len(pads):
            mon.close("pad_energy", eb[k, pads], np.zeros(len(pads)), atol=1e-14,
                      detail=tag)
            mon.close("pad_gradient", gb[k, pads], np.zeros((len(pads), 3)), atol=1e-14,
                      detail=tag)
        if b > 1 or len(pads):
            mon.nontrivial(tag, z.tolist(), eb[k, ii].round(9).tolist())
    for nm in p:
        mon.close("param_gradient", float(gp[nm]), psum[nm], scale=pabs[nm],
                  rtol=1e-6, detail=f"{nm} shape={shp}")
    mon.sample({"shape": shp, "layout": lay, "junk": junk, "api": api,
                "numbers": nums.tolist()})


def _props(rng, mon):
    shp, b, mols, lay, junk = _setup(rng, mon)
    c = {"cutoff": None, "model": {}, "kind": "d4"}
    for m in mols:
        m[1] = offboundary(m[0], m[1], c)
        if ambiguous(m[0], m[1], c):
            return
    nums, pos, idx = layout(rng, mols, lay, int(rng.choice([0, 1, 3])), junk)
    nmax = nums.shape[1]
    ch = np.array([gen.charge(rng) for _ in range(b)])
    none = rng.rand() < 0.25
    if none:
        ch[:] = 0.0
    full = shp + (nmax,)
    x = T(pos.reshape(full + (3,)), grad=True)
    res = mon.call("get_properties", d4.get_properties, N(nums.reshape(full)),
                   x, None if none else T(ch.reshape(shp)))
    gr = grad_of(mon, "props", sum(r.sum() for r in res), [x])[0]
    cn, q, c6, al = [r.detach().numpy().reshape(b, *r.shape[len(shp):])
                     for r in res]
    gr = gr.numpy().reshape(b, nmax, 3)
    for k, (z, xx) in enumerate(mols):
        x1 = T(xx, grad=True)
        r1 = mon.call("get_properties", d4.get_properties, N(z), x1, T(ch[k]))
        g1 = grad_of(mon, "props", sum(r.sum() for r in r1), [x1])[0]
        ii = idx[k]
        pads = np.setdiff1d(np.arange(nmax), ii)
        rt = 1e-6 if tiny_cn(z, xx, {"cutoff": None}) else 1e-8
        tag = f"shape={shp} {lay} {junk}"
        mon.close("prop_cn", cn[k, ii], r1[0], rtol=rt, atol=1e-9, detail=tag)
        mon.close("prop_q", q[k, ii], r1[1], rtol=rt, atol=rt, detail=tag)
        mon.close("prop_c6", c6[k][np.ix_(ii, ii)], r1[2], rtol=rt * 10,
                  detail=tag)
        mon.close("prop_alpha", al[k, ii], r1[3], rtol=rt * 10, detail=tag)
        g1 = g1.numpy()
        mon.close("prop_gradient", gr[k, ii], g1, rtol=1e-5,
                  scale=max(np.abs(g1).max(), 1.0), detail=tag)
        if len(pads):
            for a in (cn[k, pads], q[k, pads], al[k, pads], c6[k][pads],
                      c6[k][:, pads], gr[k, pads]):
                mon.close("pad_property", a, np.zeros_like(a), atol=1e-14, detail=tag)
        mon.nontrivial("props", tag, z.tolist(), al[k, ii].round(8).tolist())


def _model(rng, mon):
    """Model level: weights, C6 and polarizabilities of a padded batch."""
    shp, b, mols, lay, junk = _setup(rng, mon)
    kind = str(rng.choice(["d4", "d4s"]))
    nums, pos, idx = layout(rng, mols, lay, int(rng.choice([0, 1, 2])), junk)
    nmax = nums.shape[1]
    full = shp + (nmax,)
    kw = {}
    if rng.rand() < 0.3:
        kw["wf"] = float(rng.choice([4.0, 6.0, 2.5]))
    if rng.rand() < 0.3 and nums.max() <= R.MAXZ_GFN2:
        kw["ref_charges"] = "gfn2"
    cns = [np.abs(rng.normal(size=len(z))) * 2 for z, _ in mols]
    qs = [rng.normal(size=len(z)) * 0.3 for z, _ in mols]
    if rng.rand() < 0.5:
        # far above and far below all references
        for cn in cns:
            far = rng.rand(len(cn)) < 0.5
            cn[far] = rng.choice([12.0, 18.5, 25.0, 60.0, 90.0], far.sum())
        for q in qs:
            far = rng.rand(len(q)) < 0.2
            q[far] = rng.choice([-60.0, -2.0, 3.0, 9.0], far.sum())
        mon.event("model_far")
    nb = N(nums.reshape(full))
    m = mon.call("model", model, nb, kind, **kw)
    w = mon.call("weights", m.weight_references,
                 T(scatter(cns, idx, nmax, 0).reshape(full)),
                 T(scatter(qs, idx, nmax, 0).reshape(full)))
    c6 = mon.call("c6", m.get_atomic_c6, w)
    pol = mon.call("pols", m.get_weighted_pols, w)
    a0 = mon.call("pol", m.get_polarizabilities, w)
    w, c6, pol, a0 = [t.numpy().reshape(b, *t.shape[len(shp):])
                      for t in (w, c6, pol, a0)]
    for k, (z, _) in enumerate(mols):
        ii = idx[k]
        m1 = mon.call("model", model, N(z), kind, **kw)
        w1 = mon.call("weights", m1.weight_references, T(cns[k]), T(qs[k]))
        tag = f"{kind} shape={shp} {lay}"
        sub = w[k][ii] if kind == "d4" else w[k][np.ix_(ii, ii)]
        mon.close("model_weights", sub, w1, rtol=1e-9, atol=1e-12, detail=tag)
        mon.close("model_c6", c6[k][np.ix_(ii, ii)],
                  mon.call("c6", m1.get_atomic_c6, w1), rtol=1e-9, detail=tag)
        mon.close("model_pols", pol[k][ii],
                  mon.call("pols", m1.get_weighted_pols, w1), rtol=1e-9,
                  atol=1e-12, detail=tag)
        mon.close("model_pol", a0[k][ii],
                  mon.call("pol", m1.get_polarizabilities, w1), rtol=1e-9,
                  atol=1e-12, detail=tag)
        mon.nontrivial("model", tag, z.tolist(), c6[k].sum().round(6))


def _f32(rng, mon):
    shp, b, mols, lay, junk = _setup(rng, mon, nmax=6, pool="organic",
                                     shp=[(2,), (3,), (2, 2)][rng.randint(3)])
    if junk == "huge":
        junk = "random"
    kind = str(rng.choice(["d4", "d4s"]))
    nums, pos, idx = layout(rng, mols, lay, 1, junk)
    full = shp + (nums.shape[1],)
    p = gen.param(rng)
    dt = torch.float32
    e = mon.call("dftd4", d4.dftd4, N(nums.reshape(full)),
                 T(pos.reshape(full + (3,)), dt),
                 T(np.zeros(shp), dt), tparam(p, dt), model=kind)
    eb = e.numpy().reshape(b, -1)
    for k, (z, xx) in enumerate(mols):
        e1 = mon.call("dftd4", d4.dftd4, N(z), T(xx, dt), T(0., dt),
                      tparam(p, dt), model=kind)
        es = max(float(e1.abs().max()), 1e-9)
        mon.close("f32_energy", eb[k, idx[k]], e1, scale=es, rtol=5e-3,
                  detail=f"{kind} {shp} {lay} {junk}")
        pads = np.setdiff1d(np.arange(nums.shape[1]), idx[k])
        mon.close("pad_energy", eb[k, pads], np.zeros(len(pads)), atol=1e-14)
        mon.nontrivial("f32", z.tolist(), eb[k].round(7).tolist())


def _wide(rng, mon):
    """Strongly different sizes, and many molecules."""
    kind = str(rng.choice(["d4", "d4s"]))
    u = rng.rand()
    if u < 0.3:
        mols = [list(gen.molecule(rng, n=int(rng.choice([30, 45, 66, 90])),
                                  shape="lattice")[:2]),
                list(gen.molecule(rng, n=2, shape="grow")[:2]),
                [np.array([1]), np.zeros((1, 3))]]
    elif u < 0.6:
        mols = [list(gen.molecule(rng, nmax=5)[:2]) for _ in range(24)]
    else:
        b = int(rng.choice([33, 65, 101, 130, 200, 260, 400]))
        mols = [list(gen.molecule(rng, n=int(rng.randint(1, 5)))[:2])
                for _ in range(b)]
    c = {"cutoff": None, "model": {}, "kind": kind}
    keep = []
    for m in mols:
        m[1] = offboundary(m[0], m[1], c)
        if not ambiguous(m[0], m[1], c):
            keep.append(m)
    mols = keep
    if len(mols) < 2:
        return
    if len(mols) > 20:
        mon.event("many")
    nums, pos, idx = layout(rng, mols,
                            str(rng.choice(["trailing", "scattered"])),
                            int(rng.randint(0, 2)),
                            str(rng.choice(["zero", "random"])))
    p = tparam(gen.param(rng))
    ch = np.array([gen.charge(rng) for _ in mols])
    x = T(pos).requires_grad_()
    shp = (len(mols),)
    for k in (7, 5, 3, 2):
        if len(mols) % k == 0 and rng.rand() < 0.5:
            shp = (len(mols) // k, k)
            break
    full = shp + nums.shape[1:]
    e = mon.call("dftd4", d4.dftd4, N(nums).reshape(full),
                 x.reshape(full + (3,)), T(ch).reshape(shp), p, model=kind)
    g, = torch.autograd.grad(e.sum(), x)
    e = e.detach().numpy().reshape(nums.shape)
    g = g.numpy()
    for k, (z, xx) in enumerate(mols):
        x1 = T(xx).requires_grad_()
        e1 = mon.call("dftd4", d4.dftd4, N(z), x1, T(ch[k]), p,
                      model=kind)
        if e1.requires_grad:
            g1, = torch.autograd.grad(e1.sum(), x1, allow_unused=True)
            g1 = np.zeros_like(xx) if g1 is None else g1.numpy()
        else:
            g1 = np.zeros_like(xx)
        e1 = e1.detach()
        tiny = tiny_cn(z, xx, {"cutoff": None})
        es = max(float(e1.abs().max()), 1e-12)
        lab = f"molecule {k} of {shp} {kind}"
        mon.close("energy", e[k, idx[k]], e1, scale=es,
                  rtol=1e-6 if tiny else 1e-9, detail=lab)
        if not tiny:
            mon.close("gradient", g[k, idx[k]], g1, rtol=1e-7,
                      scale=max(float(np.abs(g1).max()), es), detail=lab)
        pads = np.setdiff1d(np.arange(nums.shape[1]), idx[k])
        mon.close("pad_energy", e[k, pads], np.zeros(len(pads)), atol=1e-14)
        mon.close("pad_gradient", g[k, pads], np.zeros((len(pads), 3)),
                  atol=1e-14)
        mon.nontrivial("wide", z.tolist(), e[k].sum().round(9))


def _square(rng, mon):
    """As many molecules as atoms (or coordinates), everything given explicitly,
    pair factors shared by all molecules or one matrix each."""
    nmax = int(rng.choice([1, 2, 3, 3, 4, 5]))
    shp = [(nmax,), (3,), (nmax, nmax), (3, nmax), (1, nmax), (nmax, 1)][
        rng.randint(6)]
    b = int(np.prod(shp))
    kind = str(rng.choice(["d4", "d4s", "d4s"]))
    mols = [list(gen.molecule(rng, n=int(rng.randint(1, nmax + 1)))[:2])
            for _ in range(b)]
    mols[rng.randint(b)] = list(gen.molecule(rng, n=nmax)[:2])
    c = {"cutoff": None, "model": {}, "kind": kind}
    for m in mols:
        m[1] = offboundary(m[0], m[1], c)
    nums, pos, idx = layout(rng, mols, str(rng.choice(["trailing", "scattered"])),
                            0, str(rng.choice(["zero", "random"])))
    per = []
    for z, _ in mols:
        n = len(z)
        w = rng.uniform(0.5, 9.0, (n, n))
        v = rng.uniform(4.0, 7.0, (n, n))
        per.append({"q": rng.normal(size=n) * 0.2, "r4r2": rng.uniform(1.5, 7.0, n),
                    "rvdw": (v + v.T) / 2, "wf": (w + w.T) / 2})
    ch = rng.choice([-1.0, 0.0, 0.5, 1.0], b)
    given = {k for k in ("q", "r4r2", "rvdw") if rng.rand() < 0.5}
    mode = str(rng.choice(["shared", "each", "scalar", "none"]))
    if mode == "each" and kind == "d4":
        mode = "scalar"
    if mode == "shared" and kind == "d4":
        mode = "none"
    nat = nums.shape[1]
    full = tuple(shp) + (nat,)
    common = rng.uniform(0.5, 9.0, (nat, nat))
    common = (common + common.T) / 2
    one = float(rng.uniform(1.0, 9.0))
    if mode == "shared":
        wf = T(common)
    elif mode == "each":
        wf = T(scatter([m["wf"] for m in per], idx, nat, 6.0, pair=True)
               ).reshape(tuple(shp) + (nat, nat))
    elif mode == "scalar":
        wf = one
    else:
        wf = None
    cls = d4.D4SModel if kind == "d4s" else d4.D4Model
    nb = N(nums).reshape(full)
    kw = {}
    for k in given:
        a = scatter([m[k] for m in per], idx, nat, 0.0, pair=k == "rvdw")
        kw[k] = T(a).reshape(full + ((nat,) if k == "rvdw" else ()))
    fn = {}
    p = gen.param(rng)
    if rng.rand() < 0.4:
        from tad_dftd4.damping import ZeroDamping
        fn = {"damping_function": ZeroDamping()}
        p = {"s6": 1.0, "s8": 0.8, "s9": 1.0, "rs6": float(rng.uniform(0.8, 1.4)),
             "rs8": 1.0, "alp": 14.0, "a1": 0.4, "a2": 5.0}
    p = tparam(p)
    x = T(pos).requires_grad_()
    model = mon.call("model", cls, nb, wf=wf, dtype=torch.double)
    e = mon.call("dftd4", d4.dftd4, nb, x.reshape(full + (3,)),
                 T(ch).reshape(tuple(shp)), p, model=model, **kw, **fn)
    mon.ok("shape", tuple(e.shape) == full, lambda: f"{tuple(e.shape)} for {full}")
    g, = torch.autograd.grad(e.sum(), x)
    e = e.detach().numpy().reshape(nums.shape)
    g = g.numpy()
    mon.event("square")
    mon.event(f"wf:{mode}")
    for k, (z, xx) in enumerate(mols):
        if ambiguous(z, xx, c):
            continue
        ii = idx[k]
        w1 = {"shared": lambda: T(common[np.ix_(ii, ii)]),
              "each": lambda: T(per[k]["wf"]),
              "scalar": lambda: one, "none": lambda: None}[mode]()
        x1 = T(xx).requires_grad_()
        m1 = mon.call("model", cls, N(z), wf=w1, dtype=torch.double)
        e1 = mon.call("dftd4", d4.dftd4, N(z), x1, T(ch[k]), p, model=m1,
                      **{n: T(per[k][n]) for n in given}, **fn)
        g1 = None
        if e1.requires_grad:
            g1, = torch.autograd.grad(e1.sum(), x1, allow_unused=True)
        g1 = np.zeros_like(xx) if g1 is None else g1.numpy()
        e1 = e1.detach().numpy()
        tiny = tiny_cn(z, xx, {"cutoff": None})
        es = max(float(np.abs(e1).max()), 1e-12)
        lab = f"molecule {k} of {shp} {kind} wf={mode} given={sorted(given)}"
        mon.close("energy", e[k, ii], e1, scale=es,
                  rtol=1e-6 if tiny else 1e-9, detail=lab)
        if not tiny:
            mon.close("gradient", g[k, ii], g1, rtol=1e-7,
                      scale=max(float(np.abs(g1).max()), es), detail=lab)
        pads = np.setdiff1d(np.arange(nat), ii)
        mon.close("pad_energy", e[k, pads], np.zeros(len(pads)), atol=1e-14)
        mon.close("pad_gradient", g[k, pads], np.zeros((len(pads), 3)), atol=1e-14)
        mon.nontrivial("square", mode, z.tolist(), e1.sum().round(9))
