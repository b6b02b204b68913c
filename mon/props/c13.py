"""C13: precision follows the input and only costs rounding."""
from __future__ import annotations

import contextlib

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import (config, evaluate, grad_of, kwargs, offboundary, pick_api,
                      reference)
from ..sut import DAMP, DT, N, T, d4, model

RULE = (
    "Random molecules and configurations (model, damping function, charges, "
    "radii, cutoffs) x dtype of the positions x global default dtype x form of "
    "the damping parameters (float, single or double precision scalar tensor), "
    "of the total charge (int, float, tensor of either precision) and of the "
    "cutoffs. Observed: the dtype of every energy, property, weight, "
    "coefficient and derivative; double precision values against the reference "
    "model and across default dtypes; single precision values against the "
    "double precision reference within the rounding of the input amplified by "
    "the measured condition of the problem; weights of every element in single "
    "precision on a CN grid whose Gaussians underflow in single precision; "
    "models, cutoffs and methods converted between precisions. Non-trivial: a "
    "non-zero energy compared; distinct by molecule and configuration."
)
ASSUME = [
    "per-atom tensors (partial charges, radii) and model instances are given in "
    "the precision of the positions; damping parameters, total charges and "
    "cutoffs in any form",
    "where parameters are also given in single precision, their values are "
    "representable in it, so that the form does not change the value",
    "single precision values are judged to 1e-4 of the sum of absolute terms "
    "(1e-3 if the charge model is solved) plus the response of the reference to perturbations of the size of the "
    "rounding of squared distances",
]
MIN = {"dtype": 4000, "values": 350, "double": 800, "double_default": 400, "single": 300,
       "weights32": 300, "#Z": 103, "converted": 100, "props32": 60,
       "grad32": 60, "default:f32": 300, "default:f64": 300}

EPS32 = 1.2e-7


def cases(tier, seed):
    k = {"quick": 4, "thorough": 40}[tier]
    out = [{"kind": "mol", "i": i, "seed": seed} for i in range(520 * k)]
    out += [{"kind": "values", "i": i, "seed": seed} for i in range(260 * k)]
    out += [{"kind": "props", "i": i, "seed": seed} for i in range(100 * k)]
    out += [{"kind": "batch", "i": i, "seed": seed} for i in range(60 * k)]
    out += [{"kind": "weights", "i": z, "seed": seed, "rep": r}
            for z in range(1, 104) for r in range(1 + (k > 1) * 4)]
    out += [{"kind": "convert", "i": i, "seed": seed} for i in range(60 * k)]
    return out


DEFAULTS = {**DT, "f16": torch.float16, "bf16": torch.bfloat16}


@contextlib.contextmanager
def default(dt):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


def f32(x):
    return np.asarray(np.asarray(x, dtype=np.float32), dtype=float)


def f32cfg(c):
    """Round everything in a configuration to single precision values."""
    c = dict(c)
    c["p"] = {k: float(np.float32(v)) for k, v in c["p"].items()}
    c["charge"] = float(np.float32(c["charge"]))
    for k in ("q", "r4r2", "rvdw"):
        if c[k] is not None:
            c[k] = f32(c[k])
    if c["cutoff"]:
        c["cutoff"] = {k: float(np.float32(v)) for k, v in c["cutoff"].items()}
    return c


def param_forms(rng, p):
    """Every parameter in a form of its own."""
    style = rng.randint(4)
    out = {}
    for k, v in p.items():
        s = style if style < 3 else rng.randint(3)
        out[k] = [float(v), T(v, torch.float32), T(v, torch.float64)][s]
    if style == 0 and rng.rand() < 0.4:
        out = {k: int(v) if float(v).is_integer() else v
               for k, v in out.items()}
    return out


def charge_form(rng, v):
    f = [lambda: float(v), lambda: T(v, torch.float32),
         lambda: T(v, torch.float64), lambda: T([v], torch.float64)]
    if float(v).is_integer():
        f += [lambda: int(v), lambda: torch.tensor(int(v))]
    return f[rng.randint(len(f))]()


def cutoff_form(rng, c):
    if c is None:
        return [None, lambda: d4.Cutoff(), lambda: d4.Cutoff(
            dtype=torch.float64), lambda: d4.Cutoff(dtype=torch.float32)][
                rng.randint(4)]
    s = rng.randint(5)
    if s == 0:
        return lambda: d4.Cutoff(**c)
    if s in (1, 2):
        return lambda: d4.Cutoff(**c, dtype=[torch.float32,
                                             torch.float64][s - 1])
    if s == 3:
        return lambda: d4.Cutoff(**{k: int(v) if v.is_integer() else v
                                    for k, v in c.items()})
    return lambda: d4.Cutoff(**{k: T(v, torch.float64) for k, v in c.items()})


def isdt(mon, label, t, dt):
    mon.ok("dtype", isinstance(t, torch.Tensor) and t.dtype == dt,
           lambda: f"{label}: {getattr(t, 'dtype', type(t))} instead of {dt}")


def noise(pos):
    """Rounding of single precision distances (quadratic expansion)."""
    r = R.distances(pos) + np.eye(len(pos)) * 1e9
    x = np.sqrt((pos ** 2).sum(-1)).max(initial=1.0)
    return 4 * EPS32 * (x * x / min(r.min(initial=1e9), 10.0) + x)


def condition(rng, nums, pos, c, ref):
    """Largest response of the reference to perturbations at rounding level."""
    d = np.zeros(len(nums))
    for _ in range(4):
        x = pos + rng.choice([-1, 1], size=pos.shape) * noise(pos)
        d = np.maximum(d, np.abs(reference(nums, x, c)["e"] - ref["e"]))
    if c["q"] is not None:
        q = c["q"] * (1 + 4 * EPS32 * rng.choice([-1, 1], size=len(nums)))
        d = np.maximum(d, np.abs(reference(nums, pos, dict(c, q=q))["e"]
                                 - ref["e"]))
    return np.full(len(nums), d.max(initial=0.0))


def rtol32(c):
    """The linear equations for the charges lose some digits."""
    return 1e-3 if c["q"] is None else 1e-4


def call(mon, rng, nums, pos, c, dt, api, grad=False):
    nb = N(nums)
    kw = kwargs(nb, dict(c, cutoff=None), dt,
                force_instance=rng.rand() < 0.2)
    cf = cutoff_form(rng, c["cutoff"])
    if cf is not None:
        kw["cutoff"] = mon.call("Cutoff", cf)
    x = T(pos, dt, grad)
    p = param_forms(rng, c["p"])
    q = charge_form(rng, c["charge"])
    e = evaluate(mon, nb, x, q, p, kw, api, batch=rng)
    return e, x


def run(case, mon):
    rng = gen.rs("c13", case["kind"], case["i"], case.get("rep", 0),
                 case["seed"])
    {"mol": _mol, "props": _props, "batch": _batch, "weights": _weights,
     "convert": _convert, "values": _values}[case["kind"]](rng, mon, case)


def _setup(rng, nmax=9, **kw):
    nums, pos, shp = gen.molecule(rng, nmax=nmax, **kw)
    c = f32cfg(config(rng, nums))
    pos = f32(pos)
    return nums, f32(offboundary(nums, pos, c)), c, shp


def _mol(rng, mon, case):
    nums, pos, c, shp = _setup(rng)
    if c["damping"] in ("zero", "mzero") and rng.rand() < 0.5:
        # three-body radii then come from the built-in defaults
        c["p"] = {k: v for k, v in c["p"].items() if k not in ("a1", "a2")}
        cr = dict(c, p=dict(c["p"], a1=0.4, a2=5.0))
        mon.event("default_bj_radii")
    else:
        cr = c
    api = pick_api(rng, ("dftd4", "dftd4", "class", "exact"))
    cr = dict(cr, api=api)
    ref = reference(nums, pos, cr)
    seen = {}
    st = rng.get_state()
    for name, df in DT.items():
        with default(df):
            for dn, dt in DT.items():
                # the same forms for each combination
                rng.set_state(st)
                grad = rng.rand() < 0.4
                e, x = call(mon, rng, nums, pos, c, dt, api, grad)
                mon.event("default:" + name)
                isdt(mon, f"energy {api} (default {name})", e, dt)
                if grad and e.requires_grad:
                    g, = grad_of(mon, "pos", e.sum(), [x])
                    isdt(mon, "gradient", g, dt)
                    seen["g" + name, dn] = g
                seen[name, dn] = e.detach().numpy().astype(float)
    if ref["ambiguous"]:
        mon.event("skipped_ambiguous_underflow")
        return
    for name in DT:
        mon.close("double", seen[name, "f64"], ref["e"], scale=ref["scale"],
                  rtol=2e-7 if ref["tiny_cn"] else 1e-10, atol=1e-19,
                  detail=f"default {name}")
    mon.close("double_default", seen["f32", "f64"], seen["f64", "f64"],
              scale=ref["scale"], rtol=1e-12, atol=1e-17)
    if ("gf32", "f64") in seen and ("gf64", "f64") in seen:
        g = seen["gf64", "f64"].numpy()
        mon.close("double_default", seen["gf32", "f64"], g, rtol=1e-12,
                  scale=np.abs(g).max(initial=0.0), atol=1e-17,
                  detail="gradient")
    if R.boundary_distance(pos, [R.CN_CUT] + list(
            (c["cutoff"] or R.DEFAULT_CUTOFF).values())) < 1e-3:
        mon.event("skipped_boundary_single")
    else:
        cond = condition(rng, nums, pos, cr, ref)
        for name in DT:
            mon.close("single", seen[name, "f32"], ref["e"],
                      scale=ref["scale"], rtol=rtol32(c),
                      atol=1e-10 + 10 * cond, detail=f"default {name}")
        if ("gf32", "f32") in seen and ("gf32", "f64") in seen:
            g64 = seen["gf32", "f64"].numpy()
            # gradient differences measured at perturbed positions
            gs = np.abs(g64).max(initial=0.0)
            d = 0.0
            for _ in range(3):
                x = pos + rng.choice([-1, 1], size=pos.shape) * noise(pos)
                rng2 = np.random.RandomState(0)
                rng2.set_state(st)
                rng2.rand()
                e, xx = call(mon, rng2, nums, x, c, torch.float64, api, True)
                g, = grad_of(mon, "pos", e.sum(), [xx])
                d = max(d, np.abs(g.numpy() - g64).max(initial=0.0))
            for name in DT:
                mon.close("grad32", seen["g" + name, "f32"], g64,
                          rtol=0.0, atol=5e-3 * gs + 100 * d + 1e-9
                          + 2e-3 * ref["scale"].max(),
                          detail=f"default {name}")
    if np.abs(ref["e"]).max(initial=0) > 1e-12:
        mon.nontrivial(nums.tolist(), ref["e"].round(10).tolist(),
                       c["kind"], c["damping"])
        mon.sample({"numbers": nums.tolist(), "shape": shp,
                    "damping": c["damping"], "model": c["kind"],
                    "e64": float(ref["e"].sum()),
                    "e32": float(seen["f32", "f32"].sum())})


def _values(rng, mon, case):
    """Values that single precision cannot represent, in double precision."""
    nums, pos, shp = gen.molecule(rng, nmax=9)
    c = config(rng, nums)
    c["charge"] = float(rng.choice([c["charge"], 0.1, -0.7, 1 / 3]))
    c["p"] = {k: v * float(rng.uniform(0.99, 1.01)) for k, v in
              c["p"].items()}
    if rng.rand() < 0.3:
        c["model"] = dict(c["model"], ga=float(rng.uniform(2.5, 3.5)),
                          gc=float(rng.uniform(1.7, 2.2)))
        if rng.rand() < 0.5:
            c["model"]["wf"] = float(rng.uniform(4, 7))
    if c["cutoff"]:
        c["cutoff"] = {k: v * 1.0123456789 for k, v in c["cutoff"].items()}
    pos = offboundary(nums, pos, c)
    api = pick_api(rng, ("dftd4", "class", "exact"))
    ref = reference(nums, pos, dict(c, api=api))
    if ref["ambiguous"]:
        mon.event("skipped_ambiguous_underflow")
        return
    form = rng.randint(3)
    p = {k: float(v) if form == 0 or (form == 2 and rng.rand() < 0.5)
         else T(v) for k, v in c["p"].items()}
    ch = c["charge"] if rng.rand() < 0.6 else T(c["charge"])
    for name, df in DEFAULTS.items():
        with default(df):
            nb = N(nums)
            kw = kwargs(nb, c, torch.float64)
            e = evaluate(mon, nb, T(pos), ch, dict(p), kw, api, batch=rng)
            isdt(mon, f"energy {api} (default {name})", e, torch.float64)
            mon.close("values", e, ref["e"], scale=ref["scale"], atol=1e-19,
                      rtol=2e-7 if ref["tiny_cn"] else 1e-10,
                      detail=f"{api} default {name} form {form}")
    if len(nums) > 1:
        mon.nontrivial("values", nums.tolist(), ref["e"].round(12).tolist())


def _props(rng, mon, case):
    nums, pos, c, shp = _setup(rng, nmax=8)
    ch = float(rng.choice([c["charge"], 0.1, -0.7, 0.3]))
    form = rng.randint(3)
    cn0 = R.coordination(nums, pos)
    q0, cneeq = R.eeq_charges(nums, pos, ch)
    m = R.Model(nums)
    w = m.weights(cn0, q0)
    c60, al0 = m.c6(w), m.pols(w)[:, 0]
    for name, df in DEFAULTS.items():
        with default(df):
            for dn, dt in DT.items():
                a = [lambda: ch, lambda: T(ch, torch.float64),
                     lambda: T([ch], torch.float64)][form]()
                out = mon.call("get_properties", d4.get_properties, N(nums),
                               T(pos, dt), a)
                for lab, t in zip(("cn", "q", "c6", "alpha"), out):
                    isdt(mon, f"property {lab} (default {name})", t, dt)
                if m.ambiguous:
                    continue
                tiny = (cneeq < 1e-6).any()
                if dn == "f64":
                    rt = 1e-6 if tiny else 1e-8
                    mon.close("double", out[0], cn0, rtol=1e-9, atol=1e-10)
                    mon.close("double", out[1], q0, rtol=rt, atol=rt)
                    mon.close("double", out[2], c60, rtol=10 * rt)
                    mon.close("double", out[3], al0, rtol=10 * rt)
                    # charge conservation to double precision
                    mon.close("charge_double", out[1].sum(), ch, rtol=0,
                              atol=1e-12 * max(1, len(nums)))
                elif R.boundary_distance(pos, [R.CN_CUT, 25.0]) > 1e-3:
                    d = {}
                    for _ in range(4):
                        x = pos + rng.choice([-1, 1], size=pos.shape) \
                            * noise(pos)
                        cnp = R.coordination(nums, x)
                        qp, _c = R.eeq_charges(nums, x, ch, eps=1.19e-7)
                        mp = R.Model(nums)
                        wp = mp.weights(cnp, qp)
                        for k, v, v0 in (("cn", cnp, cn0), ("q", qp, q0),
                                         ("c6", mp.c6(wp), c60),
                                         ("al", mp.pols(wp)[:, 0], al0)):
                            d[k] = np.maximum(d.get(k, 0.0),
                                              np.abs(v - v0).max(initial=0))
                    mon.close("props32", out[0], cn0, rtol=2e-5,
                              atol=1e-5 + 10 * d["cn"])
                    mon.close("props32", out[1], q0, rtol=1e-3,
                              atol=3e-4 + 20 * d["q"])
                    mon.close("props32", out[2], c60, rtol=1e-3,
                              atol=20 * d["c6"])
                    mon.close("props32", out[3], al0, rtol=1e-3,
                              atol=20 * d["al"])
    mon.nontrivial("props", nums.tolist(), c60.round(6).tolist())


def _batch(rng, mon, case):
    from ..common import pad

    b = int(rng.randint(1, 4))
    mols = []
    for _ in range(b):
        z, x, _s = gen.molecule(rng, nmax=6)
        mols.append((z, f32(x)))
    c = f32cfg(config(rng, mols[0][0]))
    c["q"] = c["r4r2"] = c["rvdw"] = None
    if any(m[0].max() > R.MAXZ_GFN2 for m in mols):
        c["model"].pop("ref_charges", None)
    mols = [(z, f32(offboundary(z, x, c))) for z, x in mols]
    nums, pos = pad(mols, int(rng.randint(0, 3)))
    ch = f32([gen.charge(rng) for _ in range(b)])
    chs = rng.randint(3)
    for name, df in DT.items():
        with default(df):
            for dn, dt in DT.items():
                nb = N(nums)
                kw = kwargs(nb, dict(c, cutoff=None), dt)
                if c["cutoff"]:
                    kw["cutoff"] = d4.Cutoff(**c["cutoff"])
                a = [T(ch, torch.float64), T(ch, torch.float32),
                     [float(v) for v in ch]][chs]
                e = evaluate(mon, nb, T(pos, dt), a, param_forms(rng, c["p"]),
                             kw, "dftd4")
                isdt(mon, "batched energy", e, dt)
                if dn == "f32":
                    continue
                for k, (z, x) in enumerate(mols):
                    ref = reference(z, x, dict(c, charge=ch[k]))
                    if ref["ambiguous"]:
                        continue
                    mon.close("double", e[k, :len(z)], ref["e"],
                              scale=ref["scale"], atol=1e-19,
                              rtol=2e-7 if ref["tiny_cn"] else 1e-10)


def _weights(rng, mon, case):
    """Weights in single precision, where the Gaussians underflow."""
    z = case["i"]
    mon.event(f"Z{z}")
    rc = np.unique(R.G["refcovcn"][z][R.nref(z)])
    m = rc.max(initial=0.0)
    g = list(rc) + list(rng.uniform(0, m, 4)) + [0.0]
    g += [m + d for d in (1.0, 2.0, 3.0, 3.6, 3.9, 4.2, 4.5, 5.0, 5.5, 6.0)]
    g += list(m + rng.uniform(2.5, 6.5, 6))
    g += [x for d in (3.7, 4.0, 4.4) for x in [rc.min(initial=0) - d] if x > 0]
    cn = f32(np.unique(g))
    q = f32(rng.normal(size=len(cn)) * 0.3)
    for kind in ("d4", "d4s"):
        partner = int(rng.randint(1, 104))
        nums = np.array([[z, partner]] * len(cn))
        cns = np.stack([cn, np.full(len(cn), 1.0)], -1)
        qs = np.stack([q, np.zeros(len(cn))], -1)
        name = str(rng.choice(list(DEFAULTS)))
        with default(DEFAULTS[name]):
            mod = mon.call("model", model, N(nums), kind, torch.float32)
            w = mon.call("weights", mod.weight_references,
                         T(cns, torch.float32), T(qs, torch.float32))
            isdt(mon, "weights", w, torch.float32)
            c6 = mon.call("c6", mod.get_atomic_c6, w)
            isdt(mon, "c6", c6, torch.float32)
            al = mon.call("pols", mod.get_polarizabilities, w)
            isdt(mon, "polarizabilities", al, torch.float32)
            out = mon.call("weights", mod.weight_references,
                           T(cns, torch.float32), T(qs, torch.float32),
                           with_dgwdq=True)
            for t in out:
                isdt(mon, "weight derivatives", t, torch.float32)
        for i in range(len(cn)):
            # ln of the norm: far above the double precision threshold only
            for s in range(2):
                wf = 6.0 if kind == "d4" else R.G["wfpair"][z, nums[i, s]]
                gw, ln = R.gaussian_weights(z, cn[i], wf)
                if ln < R.UNDERFLOW_HI:
                    continue
                want, _a = R.atom_weights(z, cn[i], q[i], wf)
                got = w[i, 0] if kind == "d4" else w[i, s, 0]
                mon.close("weights32", got, want, rtol=2e-5, atol=2e-6,
                          detail=f"Z={z} cn={cn[i]} {kind}")
                if ln < -88:
                    mon.event("single_underflow")
                mon.nontrivial("w", z, float(cn[i]), kind)


def _convert(rng, mon, case):
    """Objects converted between precisions keep working."""
    nums, pos, c, shp = _setup(rng, nmax=6)
    nb = N(nums)
    ref = reference(nums, pos, c)
    for src, dst in (("f32", "f64"), ("f64", "f32"), ("f64", "f64")):
        a, b = DT[src], DT[dst]
        name = str(rng.choice(list(DT)))
        with default(DT[name]):
            kw = kwargs(nb, c, b)
            mod = mon.call("model", model, nb, c["kind"], a, **c["model"])
            how = rng.randint(2)
            mod2 = mon.call("convert:model", (lambda: mod.type(b)) if how
                            else (lambda: mod.to(dtype=b))) \
                if hasattr(mod, "to") and _to_dtype(mod) else \
                mon.call("convert:model", lambda: mod.type(b))
            mon.ok("converted", mod2.dtype == b, f"model {mod2.dtype}")
            mon.ok("converted", not mod2.numbers.is_floating_point(),
                   f"atomic numbers became {mod2.numbers.dtype}")
            cut = mon.call("Cutoff", d4.Cutoff, **(c["cutoff"] or {}), dtype=a)
            cut2 = mon.call("convert:cutoff", lambda: cut.type(b))
            for k in ("disp2", "disp3", "cn", "cn_eeq"):
                mon.ok("converted", getattr(cut2, k).dtype == b,
                       f"cutoff {k} {getattr(cut2, k).dtype}")
                mon.close("converted", getattr(cut2, k), getattr(cut, k),
                          rtol=0)
            kw["model"] = mod2
            kw["cutoff"] = cut2
            e = evaluate(mon, nb, T(pos, b), c["charge"], dict(c["p"]), kw)
            isdt(mon, "energy with converted model", e, b)
            if ref["ambiguous"]:
                continue
            # a model converted upwards keeps single precision reference data
            rt = 2e-9 if (src, dst) == ("f64", "f64") else rtol32(c)
            cond = 0.0
            if rt > 1e-6:
                if R.boundary_distance(pos, [R.CN_CUT] + list((
                        c["cutoff"] or R.DEFAULT_CUTOFF).values())) < 1e-3:
                    continue
                cond = condition(rng, nums, pos, c, ref)
            elif ref["tiny_cn"]:
                rt = 2e-7
            mon.close("converted", e, ref["e"], scale=ref["scale"],
                      rtol=rt, atol=1e-10 + 10 * cond,
                      detail=f"model {src}->{dst}")


def _to_dtype(mod):
    """Does `.to` of this container accept a dtype?"""
    import inspect

    try:
        return "dtype" in inspect.signature(mod.to).parameters
    except (TypeError, ValueError):
        return False
