"""C10: damping functions follow their closed form and limits."""
from __future__ import annotations

import numpy as np
import torch

from .. import gen, refmodel as R
from ..sut import DAMP, DT, T

RULE = (
    "Every damping function x order x grids of distances (0.05 to 1000 Bohr) and "
    "radii (all element pairs sampled) x parameters (database values, wide "
    "random values, zeros; floats, integers, tensors) x tensor shapes x "
    "precision, called as the objects users pass to the energy function. "
    "Observed: every returned value against the published formula, bounds, "
    "long- and short-range limits, monotonicity along sorted distances, "
    "with/without the distance power, irrelevance of unrelated parameters, and "
    "the outcome of calls with each required parameter missing or an "
    "unsupported order. Non-trivial: grids containing values below 0.1 and "
    "above 0.9; distinct by function, order, parameters and radius."
)
ASSUME = [
    "short-range suppression of modified zero damping is only required for "
    "beta = 0 (its published form does not vanish otherwise)",
    "the published formulas are those of the class documentation: rational "
    "R^n/(R^n+(a1 R0+a2)^n), zero 1/(1+6(rs R0/R)^a), modified zero "
    "1/(1+6(R/(rs R0)+beta R0)^-a), optimised power "
    "R^(b+n)/(R^(b+n)+(a1 R0+a2)^(b+n))",
]
MIN = {"formula": 600, "bounds": 400, "monotonic": 400, "long_range": 200,
       "short_range": 150, "power": 400, "views": 800, "unrelated": 200, "missing": 500,
       "unsupported": 100, "no_radius": 300, "switched_off": 500, "complete": 500, "rational": 40, "zero": 40,
       "mzero": 40, "op": 40, "f32": 100, "order6": 100, "order8": 100,
       "order9": 20, "order10": 20}

ORDERS = {"rational": (6, 8, 10), "zero": (6, 8, 9), "mzero": (6, 8),
          "op": (6, 8)}
REQ = {"rational": {6: ("a1", "a2"), 8: ("a1", "a2"), 10: ("a1", "a2")},
       "zero": {6: ("rs6", "alp"), 8: ("rs8", "alp"), 9: ("rs9", "alp")},
       "mzero": {6: ("rs6", "alp", "bet"), 8: ("rs8", "alp", "bet")},
       "op": {6: ("a1", "a2", "bet"), 8: ("a1", "a2", "bet")}}


def cases(tier, seed):
    n = {"quick": 12000, "thorough": 80000}[tier]
    out = [{"kind": "grid", "i": i, "seed": seed} for i in range(n)]
    out += [{"kind": "missing", "i": i, "seed": seed} for i in range(n // 8)]
    return out


def run(case, mon):
    rng = gen.rs("c10", case["kind"], case["i"], case["seed"])
    (_grid if case["kind"] == "grid" else _missing)(rng, mon, case["i"])


def _params(rng, name, order):
    p = {}
    if name in ("rational", "op"):
        p["a1"] = float(rng.choice([0.0, rng.uniform(0, 0.9), 0.4]))
        p["a2"] = float(rng.choice([rng.uniform(1.5, 8), 5.0, 4.2]))
        if p["a1"] > 0 and rng.rand() < 0.1:
            p["a2"] = 0.0
    if name in ("zero", "mzero"):
        p["alp"] = float(rng.choice([14.0, 16.0, 12.0, 9.0, 6.5, 16 / 3]))
        p["rs6"] = float(rng.uniform(0.6, 1.6))
        p["rs8"] = float(rng.uniform(0.6, 1.4))
        p["rs9"] = float(rng.choice([1.0, 4 / 3, rng.uniform(0.5, 1.5)]))
    if name == "mzero":
        p["bet"] = float(rng.choice([0.0, 0.01, 0.1, 0.4, 0.9]))
    if name == "op":
        p["bet"] = float(rng.choice([0.0, 1.0, 2.0, 6.0, 0.5, 3.3]))
    if rng.rand() < 0.15:  # far from all published values
        k = str(rng.choice([k for k in p]))
        p[k] = float(rng.choice({"a1": [1.5, 1e-3, 3.0], "a2": [0.3, 1.0, 12.0, 25.0],
                      "alp": [1.0, 2.0, 4.0, 20.0, 30.0],
                      "bet": [0.05, 1.0, 4.0], "rs6": [0.2, 3.0],
                      "rs8": [0.2, 3.0], "rs9": [0.2, 3.0]}[k]))
    if order == 10:
        p["s10"] = float(rng.choice([1.0, 0.5]))
    return p


def closed(name, order, r, radius, p):
    """Damping function f(R) for radius argument as passed to the object."""
    if name in ("rational", "op"):
        b = p["bet"] if name == "op" else 0.0
        r0 = p["a1"] * np.sqrt(radius) + p["a2"]
        return 1.0 / (1.0 + (r0 / r) ** (order + b))
    rs, al = {6: (p["rs6"], p["alp"]), 8: (p["rs8"], p["alp"] + 2.0),
              9: (p["rs9"], p["alp"])}[order]
    if name == "zero":
        return 1.0 / (1.0 + 6.0 * (rs * radius / r) ** al)
    return 1.0 / (1.0 + 6.0 * (r / (rs * radius) + p["bet"] * radius) ** -al)


def _radius(rng, name, size=None):
    z1 = rng.randint(1, 104, size)
    z2 = rng.randint(1, 104, size)
    if name in ("rational", "op"):
        return 3.0 * R.G["r4r2"][z1] * R.G["r4r2"][z2]
    return R.G["vdw"][z1, z2]


def _form(rng, p, dtype):
    style = rng.randint(3)
    if style == 0:
        return dict(p)
    if style == 1:
        return {k: T(v, dtype) for k, v in p.items()}
    return {k: (T(v, dtype) if rng.rand() < 0.5 else
                int(v) if v == int(v) else v) for k, v in p.items()}


def _grid(rng, mon, i):
    name = ("rational", "zero", "mzero", "op")[i % 4]
    order = ORDERS[name][rng.randint(len(ORDERS[name]))]
    dt = "f32" if rng.rand() < 0.3 else "f64"
    dtype = DT[dt]
    for e in (name, dt, f"order{order}"):
        mon.event(e)
    p = _params(rng, name, order)
    fn = DAMP[name]()
    lo, hi = (0.05, 1000.0) if dt == "f64" else (0.6, 100.0)
    nr = int(rng.choice([1, 5]))
    radii = np.atleast_1d(_radius(rng, name, nr))
    # distances around the point of half damping, and the whole range
    r = np.concatenate([np.geomspace(lo, hi, 40), rng.uniform(2, 15, 20),
                        rng.uniform(1, 60, 10)])
    r = np.unique(r.astype(np.float32).astype(float))
    rr = np.broadcast_to(r, (nr, len(r)))
    ra = np.broadcast_to(radii[:, None], rr.shape)
    ra = ra.astype(np.float32).astype(float) if dt == "f32" else ra
    par = _form(rng, p, dtype)
    a = mon.call("damping:full", fn, T(rr, dtype), T(ra, dtype), order, **par)
    f = mon.call("damping:only", fn, T(rr, dtype), T(ra, dtype), order,
                 only_damping=True, **par)
    if not mon.ok("shape", a.shape == rr.shape and f.shape == rr.shape
                  and a.dtype == dtype and f.dtype == dtype,
                  f"{a.shape} {f.shape} {a.dtype} {f.dtype}"):
        return
    want = closed(name, order, rr, ra, p)
    tag = f"{name} order {order} {dt} {p} radii {radii.tolist()}"
    al = max(order + p.get("bet", 0.0), p.get("alp", 0.0) + 2)
    rt = 1e-10 if dt == "f64" else 2e-6 * al
    mon.close("formula", f, want, rtol=rt, atol=1e-300 if dt == "f64"
              else 1e-36, detail=tag)
    wp = want / rr ** order
    mon.close("power", a, wp, rtol=rt * 2, atol=1e-300 if dt == "f64"
              else 1e-30, detail=tag)
    fn_ = f.numpy().astype(float)
    mon.ok("bounds", (fn_ >= 0).all() and (fn_ <= 1 + 1e-6).all(),
           f"{fn_.min()} .. {fn_.max()} {tag}")
    d = np.diff(fn_, axis=-1)
    mon.ok("monotonic", (d >= -(1e-12 if dt == "f64" else 2e-6)).all(),
           f"min step {d.min()} {tag}")
    if fn_.min() < 0.1 and fn_.max() > 0.9:
        mon.nontrivial(tag)
    # limits, judged on the observed values alone
    if dt == "f64" and p.get("alp", 14.0) > 5:
        far = np.full((nr, 1), 1e4)
        g = mon.call("damping:far", fn, T(far), T(ra[:, :1].copy()), order,
                     only_damping=True, **_form(rng, p, dtype)).numpy()
        mon.ok("long_range", (g > 1 - 1e-6).all(), f"{g.min()} {tag}")
        if not (name == "mzero" and p["bet"] > 0):
            crit = p["a1"] * np.sqrt(ra[:, :1]) + p["a2"] if "a1" in p else \
                ra[:, :1] * p[f"rs{order}"]
            near = 0.02 * crit
            g = mon.call("damping:near", fn, T(near), T(ra[:, :1].copy()),
                         order, only_damping=True,
                         **_form(rng, p, dtype)).numpy()
            mon.ok("short_range", (g < 1e-3).all(), f"{g.max()} {tag}")
    # without a damping radius nothing is damped
    if name != "mzero":
        zp = {k: (0.0 if k in ("a1", "a2") or (k.startswith("rs")
                  and rng.rand() < 0.5) else v) for k, v in p.items()}
        zr = np.zeros_like(ra) if name == "zero" else ra
        g = mon.call("damping:no radius", fn, T(rr, dtype), T(zr, dtype), order,
                     only_damping=True, **_form(rng, zp, dtype))
        mon.close("no_radius", g, np.ones_like(rr), rtol=1e-12 if dt == "f64"
                  else 1e-6, detail=tag)
    # shapes: pair matrices and batches
    n, b = int(rng.randint(2, 5)), int(rng.randint(1, 4))
    x = rng.uniform(1.5, 30, (b, n, n))
    y = _radius(rng, name, (b, n, n))
    if dt == "f32":
        x, y = (v.astype(np.float32).astype(float) for v in (x, y))
    g = mon.call("damping:batch", fn, T(x, dtype), T(y, dtype), order, True,
                 **par)
    mon.close("formula", g, closed(name, order, x, y, p), rtol=rt,
              atol=1e-36, detail="batch " + tag)
    # single values, vectors, expanded and transposed views
    form = int(rng.randint(4))
    xs, ys = T(x, dtype), T(y, dtype)
    if form == 0:
        xs, ys = xs[0, 0, 1], ys[0, 0, 1]
        x, y = x[0, 0, 1], y[0, 0, 1]
    elif form == 1:
        xs, ys = xs[:, 0, 0], ys[:, 0, 0]
        x, y = x[:, 0, 0], y[:, 0, 0]
    elif form == 2:
        xs, x = xs.transpose(-1, -2), np.swapaxes(x, -1, -2)
    else:
        ys, y = ys[:1].expand(b, n, n), np.broadcast_to(y[:1], x.shape)
    for only in (True, False):
        g = mon.call("damping:views", fn, xs, ys, order, only, **par)
        w = closed(name, order, x, y, p)
        mon.close("views", g, w if only else w / x ** order, rtol=rt * 2,
                  atol=1e-36 if only else 1e-30, detail=f"form {form} " + tag)
    # unrelated parameters
    noise = {"s6": 0.3, "s8": 7.0, "s9": 0.25, "doi": "10.1/x"}
    if order != 10:
        noise["s10"] = 0.7
    for k, v in (("a1", 0.9), ("a2", 9.0), ("rs6", 3.0), ("rs8", 3.0),
                 ("rs9", 3.0), ("bet", 0.3)):
        if k not in REQ[name][order]:
            noise[k] = v
    q = {k: v for k, v in p.items() if k in REQ[name][order] or k == "s10"}
    u = mon.call("damping:noise", fn, T(rr, dtype), T(ra, dtype), order,
                 only_damping=True, **{**q, **noise})
    mon.close("unrelated", u, f, rtol=1e-12 if dt == "f64" else rt,
              atol=1e-300 if dt == "f64" else 1e-36, detail=tag)
    mon.sample({"function": name, "order": order, "dtype": dt, "param": p,
                "f(5 Bohr)": float(closed(name, order, 5.0, radii[0], p))})


def _missing(rng, mon, i):
    for name in REQ:
        fn = DAMP[name]()
        x = T(rng.uniform(3, 9, (3, 3)))
        y = T(_radius(rng, name, (3, 3)))
        for order, req in REQ[name].items():
            full = {k: v for k, v in _params(rng, name, order).items()
                    if k in req or k == "s10"}
            full = _form(rng, full, torch.float64)
            only = bool(rng.rand() < 0.5)
            got = mon.call("damping:complete", fn, x, y, order,
                           only_damping=only, **full)
            mon.ok("complete", bool((got > 0).all()), f"{name} {order}")
            for k in req:
                variants = [{**full, k: None}]
                # rs9 and alp have documented defaults
                if k not in ("rs9", "alp"):
                    variants.append({a: b for a, b in full.items() if a != k})
                for par in variants:
                    mon.checks["missing"] += 1
                    mon.nontrivial(name, order, k, len(par))
                    try:
                        got = fn(x, y, order, only_damping=only, **par)
                    except Exception:  # noqa: BLE001
                        mon.event("rejected")
                        continue
                    # no contribution at all is the documented reading of an
                    # order without any scaling; a number in its place is not
                    mon.fail("missing", f"{name} order {order} without {k}: "
                                        f"{got.reshape(-1)[:3].tolist()}")
        # an order whose scaling is switched off (None) contributes nothing and
        # leaves the others alone
        for order in ORDERS[name]:
            for off in (6, 8, 9, 10):
                full = {**_params(rng, name, order), "s10": 1.0}
                off_par = {f"s{off}": None}
                if off != 10 and name in ("zero", "mzero"):
                    if off == order:
                        full = {k: v for k, v in full.items()
                                if k != f"rs{off}"}
                        off_par[f"rs{off}"] = None
                want = mon.call("damping:on", fn, x, y, order, **full) \
                    if off != order else torch.zeros_like(x)
                got = mon.call("damping:off", fn, x, y, order,
                               **{**full, **off_par})
                mon.close("switched_off", got, want, rtol=1e-13,
                          detail=f"{name} {order} without s{off}")
        bad = {"zero": (7, 10, 12), "mzero": (9, 10, 7), "op": (9, 10, 7),
               "rational": ()}[name]
        for order in bad:
            par = _params(rng, name, 6)
            par["s10"] = 1.0
            mon.checks["unsupported"] += 1
            try:
                got = fn(x, y, order, **par)
            except Exception:  # noqa: BLE001
                mon.event("rejected")
                continue
            mon.fail("unsupported", f"{name} order {order}: "
                                    f"{got.reshape(-1)[:3].tolist()}")
