"""C15: inconsistent input is rejected, never silently used."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import Damping
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ
from tad_dftd4.dispersion.d4 import (D4ATMApprox, D4ATMExact, DispD4,
                                     DispD4Exact)
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2

from .. import gen, refmodel as R
from ..common import config, kwargs, pad
from ..sut import DAMP, DT, N, T, model, tparam

RULE = (
    "Every valid call (molecule, batch or nested batch x model x damping x "
    "route: functional API, predefined classes, manual method, property "
    "function, models, low-level pair function) gets each applicable single "
    "corruption: wrong shapes of positions, expectation values, covalent and "
    "van der Waals radii, partial and total charges; partial charges no term "
    "uses; unknown model names and reference charges; atomic numbers beyond the "
    "tables; required damping parameters missing or None; unknown parameters; "
    "unsupported orders; missing radii. Observed: whether the corrupted call "
    "raises, and that the uncorrupted twin works before and after it with "
    "identical results. Non-trivial: every injected fault; distinct by route, "
    "fault, damping, model and shapes."
)
ASSUME = [
    "a total charge that broadcasts over the batch (one value) is not a fault",
    "any exception counts as a rejection; its type is not judged",
]
MIN = {"reject": 6000, "twin": 800, "twin_same": 120, "fault:positions": 500,
       "fault:r4r2": 300, "fault:rvdw": 300, "fault:rcov": 300, "fault:q": 300,
       "fault:charge": 150, "fault:q_unused": 60, "fault:model": 200,
       "fault:ref_charges": 60, "fault:element": 300, "fault:param": 300,
       "fault:order": 60, "fault:norvdw": 30, "valid": 150}


def cases(tier, seed):
    k = {"quick": 6, "thorough": 40}[tier]
    out = []
    for kind, n in (("mol", 150), ("batch", 100), ("props", 80),
                    ("model", 60), ("low", 40), ("valid", 60), ("noq", 40)):
        out += [{"kind": kind, "i": i, "seed": seed} for i in range(n * k)]
    return out


def run(case, mon):
    rng = gen.rs("c15", case["kind"], case["i"], case["seed"])
    {"mol": _call, "batch": _call, "props": _props, "model": _model,
     "low": _low, "valid": _valid, "noq": _noq}[case["kind"]](
         rng, mon, case["kind"])


def reject(mon, fault, label, fn):
    mon.event("fault:" + fault)
    try:
        r = fn()
    except Exception as e:  # noqa: BLE001
        mon.event("raised:" + type(e).__name__)
        mon.checks["reject"] += 1
        mon.nontrivial(fault, label)
        return
    mon.ok("reject", False, f"{fault}: {label} gave a result "
           f"{tuple(r.shape) if hasattr(r, 'shape') else type(r)}")


def twin(mon, label, fn, shape):
    e = mon.call("twin:" + label, fn)
    mon.ok("twin", tuple(e.shape) == tuple(shape)
           and bool(torch.isfinite(e).all()),
           lambda: f"{label}: {tuple(e.shape)} for numbers {tuple(shape)}")
    return e


REQUIRED = {"rational": ("a1", "a2"), "zero": ("rs6", "rs8"),
            "mzero": ("rs6", "rs8", "bet"), "op": ("a1", "a2", "bet")}
BAD_MODELS = ("d6", "", "d4 ", "dftd4", "D4SS", "eeq", "d2", "4", "s", "D5s",
              "d3bj", "xtb", None)


def shapes_atom(rng, shp):
    """Shapes inconsistent with one value per atom."""
    n = shp[-1]
    out = [(*shp[:-1], n + 1), (*shp, 1), (*shp, n), (1, *shp), ()]
    if n > 1:
        out += [(*shp[:-1], n - 1), (*shp[:-1], 1)]
    if len(shp) > 1:
        out += [shp[1:], (shp[0] + 1, *shp[1:])]
        if shp[0] > 1:
            out += [(1, *shp[1:]), (shp[0] - 1, *shp[1:])]
        if shp[0] != shp[1]:
            out += [(shp[1], shp[0], *shp[2:])]
    return [s for s in dict.fromkeys(out) if s != tuple(shp)]


def shapes_pos(rng, shp):
    out = [(*s, 3) for s in shapes_atom(rng, shp)]
    out += [(*shp, 2), (*shp, 4), (*shp, 1), shp, (*shp[:-1], 3, shp[-1])]
    return [s for s in dict.fromkeys(out) if s != (*shp, 3)]


def shapes_pair(rng, shp):
    n = shp[-1]
    ok = (*shp, n)
    out = [shp, (*shp, n + 1), (*shp[:-1], n + 1, n), (1, *ok),
           (*shp[:-1], n + 1, n + 1)]
    if n > 1:
        out += [(*shp, 1), (*shp[:-1], 1, n), (*shp[:-1], n - 1, n - 1),
                (*shp[:-1], 1, 1), (*shp, n - 1)]
    if len(shp) > 1:
        out += [ok[1:]]
        if shp[0] > 1:
            out += [(1, *ok[1:])]
    return [s for s in dict.fromkeys(out) if s != ok]


def shapes_charge(rng, shp):
    """Neither one value nor one value per molecule."""
    if len(shp) == 1:
        return [(2,), (3,), (1, 1), (2, 1), (1, 2)] + (
            [(shp[0],)] if shp[0] > 1 else [])
    b = shp[:-1]
    return [(b[0] + 1, *b[1:]), (b[0] + 2, *b[1:], 1)] + (
        [(b[0], 2)] if len(b) == 1 and shp[-1] != 2 and b[0] > 1 else [])


def setup(rng, kind):
    if kind == "mol":
        nums, pos, _ = gen.molecule(rng, nmax=6)
        c = config(rng, nums)
        charge = c["charge"]
    else:
        b = int(rng.choice([1, 2, 2, 3, 4]))
        mols = [gen.molecule(rng, nmax=5)[:2] for _ in range(b)]
        nums, pos = pad(mols)
        c = config(rng, nums.ravel())
        c["q"] = c["r4r2"] = c["rvdw"] = None
        charge = T([gen.charge(rng) for _ in range(b)])
        if rng.rand() < 0.25:
            nums, pos, charge = nums[None], pos[None], charge[None]
    if nums.max() > R.MAXZ_GFN2:
        c["model"].pop("ref_charges", None)
    return nums, pos, c, charge


def routes(rng, c, damp):
    """(label, callable taking the model and the arguments of calculate)"""
    dd = {"dtype": torch.float64}

    def fun(m, *a, **k):
        return d4.dftd4(*a, model=m, damping_function=damp, **k)

    def man(m, *a, **k):
        disp = Disp(model=m, **dd)
        disp.register(TwoBodyTerm(damping_fn=damp, charge_dependent=True))
        if rng.rand() < 0.7:
            disp.register(D4ATMApprox(damping_fn=DAMP["zero"](),
                                      charge_dependent=False))
        return disp.calculate(*a, **k)

    def cls(m, *a, **k):
        return DispD4(model=m, **dd).calculate(*a, **k)

    def exa(m, *a, **k):
        return DispD4Exact(model=m, **dd).calculate(*a, **k)

    out = [("function", fun), ("manual", man)]
    if c["damping"] == "rational":
        out += [("DispD4", cls), ("DispD4Exact", exa)]
    return out


def _call(rng, mon, kind):
    nums, pos, c, charge = setup(rng, kind)
    shp = nums.shape
    nb, x = N(nums), T(pos)
    kw = kwargs(nb, c)
    m = kw.pop("model")
    damp = kw.pop("damping_function")
    p = dict(c["p"]) if rng.rand() < 0.6 else tparam(c["p"])
    rs = routes(rng, c, damp)
    label, f = rs[rng.randint(len(rs))]
    if rng.rand() < 0.4:
        m = model(nb, c["kind"], **c["model"])
    first = twin(mon, label, lambda: f(m, nb, x, charge, p, **kw), shp)

    def val(s):
        return torch.rand(s, dtype=torch.float64) + 1.0

    torch.manual_seed(int(rng.randint(2 ** 31)))
    for s in shapes_pos(rng, shp):
        reject(mon, "positions", f"{label} {shp} {s}",
               lambda: f(m, nb, val(s) * 10, charge, p, **kw))
    for s in shapes_atom(rng, shp):
        for k in ("r4r2", "rcov", "q"):
            v = val(s) * (0.1 if k == "q" else 2.0)
            reject(mon, k, f"{label} {shp} {s}",
                   lambda: f(m, nb, x, charge, p, **dict(kw, **{k: v})))
    for s in shapes_pair(rng, shp):
        reject(mon, "rvdw", f"{label} {c['damping']} {shp} {s}",
               lambda: f(m, nb, x, charge, p, **dict(kw, rvdw=val(s) * 4)))
    if "q" not in kw:
        for s in shapes_charge(rng, shp):
            reject(mon, "charge", f"{label} {shp} {s}",
                   lambda: f(m, nb, x, val(s), p, **kw))
    for name in BAD_MODELS:
        reject(mon, "model", f"{label} {name!r}",
               lambda: f(name, nb, x, charge, p, **kw))
    # elements
    for z in (104, 105, 118, int(rng.randint(104, 400))):
        bad = nums.copy()
        idx = tuple(int(rng.randint(s)) for s in shp)
        bad[idx] = z
        reject(mon, "element", f"{label} {c['kind']} Z={z}",
               lambda: f(c["kind"], N(bad), x, charge, p, **kw))
    # parameters
    for k in REQUIRED[c["damping"]]:
        q = {a: b for a, b in p.items() if a != k}
        reject(mon, "param", f"{label} {c['damping']} without {k}",
               lambda: f(m, nb, x, charge, q, **kw))
        reject(mon, "param", f"{label} {c['damping']} {k}=None",
               lambda: f(m, nb, x, charge, dict(p, **{k: None}), **kw))
    for k in ("s7", "A1", "foo"):
        reject(mon, "param", f"{label} unknown {k}",
               lambda: f(m, nb, x, charge, dict(p, **{k: 1.0}), **kw))
    if c["damping"] != "rational":
        for v in (1.0, 0.0, T(0.5)):
            reject(mon, "order", f"{label} {c['damping']} s10={float(v)}",
                   lambda: f(m, nb, x, charge, dict(p, s10=v), **kw))
    again = twin(mon, label, lambda: f(m, nb, x, charge, p, **kw), shp)
    if label != "manual":
        mon.ok("twin_same", torch.equal(first, again),
               "the valid call changed after rejected ones")


def _props(rng, mon, kind):
    nums, pos, c, charge = setup(rng, "mol" if rng.rand() < 0.5 else "batch")
    shp = nums.shape
    nb, x = N(nums), T(pos)

    def f(*a):
        out = d4.get_properties(*a)
        return torch.cat([out[0], out[1], out[3]], -1)

    want = (*shp[:-1], 3 * shp[-1])
    first = twin(mon, "get_properties", lambda: f(nb, x, charge), want)
    twin(mon, "get_properties", lambda: f(nb, x), want)
    torch.manual_seed(int(rng.randint(2 ** 31)))
    for s in shapes_pos(rng, shp):
        reject(mon, "positions", f"properties {shp} {s}",
               lambda: f(nb, torch.rand(s, dtype=torch.float64) * 10, charge))
    for s in shapes_charge(rng, shp):
        reject(mon, "charge", f"properties {shp} {s}",
               lambda: f(nb, x, torch.rand(s, dtype=torch.float64)))
    for z in (104, 110, int(rng.randint(104, 400))):
        bad = nums.copy()
        bad[tuple(int(rng.randint(s)) for s in shp)] = z
        reject(mon, "element", f"properties Z={z}",
               lambda: f(N(bad), x, charge))
    again = twin(mon, "get_properties", lambda: f(nb, x, charge), want)
    mon.ok("twin_same", torch.equal(first, again), "changed")


def _model(rng, mon, kind):
    nums, pos, c, charge = setup(rng, "mol" if rng.rand() < 0.5 else "batch")
    nb = N(nums)
    dt = DT[str(rng.choice(list(DT)))]
    cls = {"d4": d4.D4Model, "d4s": d4.D4SModel}

    def full(k, z, **kw):
        m = cls[k](z, dtype=dt, **kw)
        return m.get_atomic_c6(m.weight_references())

    for k in cls:
        want = (*nums.shape, nums.shape[-1])
        twin(mon, "model " + k, lambda: full(k, nb), want)
        if nums.max() <= R.MAXZ_GFN2:
            twin(mon, "model gfn2", lambda: full(k, nb, ref_charges="gfn2"),
                 want)
        for bad in ("xtb", "", "eeq2", "gfn1", None, 3):
            reject(mon, "ref_charges", f"{k} {bad!r}",
                   lambda: full(k, nb, ref_charges=bad))
            # also with the coefficients given, so that only weights are made
            rc6 = torch.ones((*want, 7, 7), dtype=dt)
            reject(mon, "ref_charges", f"{k} {bad!r} rc6",
                   lambda: full(k, nb, ref_charges=bad, rc6=rc6))
            reject(mon, "ref_charges", f"{k} {bad!r} method",
                   lambda: DispD4(model=k, model_kwargs={"ref_charges": bad},
                                  dtype=torch.float64).calculate(
                       nb, T(pos), charge, dict(a1=0.4, a2=5.0)))
        for z in (104, 111, int(rng.randint(104, 300))):
            b = nums.copy()
            b[tuple(int(rng.randint(s)) for s in nums.shape)] = z
            reject(mon, "element", f"model {k} Z={z}", lambda: full(k, N(b)))
        for z in (87, 95, 103, 104):
            b = np.minimum(nums, R.MAXZ_GFN2)
            b[tuple(int(rng.randint(s)) for s in nums.shape)] = z
            reject(mon, "element", f"model gfn2 {k} Z={z}",
                   lambda: full(k, N(b), ref_charges="gfn2"))


class _OddRadius(type(DAMP["rational"]())):
    radius_type = "rcov"


def _low(rng, mon, kind):
    nums, pos, c, charge = setup(rng, "mol" if rng.rand() < 0.5 else "batch")
    nb, x = N(nums), T(pos)
    m = model(nb, c["kind"])
    c6 = m.get_atomic_c6(m.weight_references())
    r4 = T(R.G["r4r2"][nums])
    rv = T(R.G["vdw"][nums[..., :, None], nums[..., None, :]])
    for name in ("zero", "mzero"):
        p = gen.param(rng, name)
        mat = bool(rng.rand() < 0.3)
        shp = (*nums.shape, nums.shape[-1]) if mat else nums.shape
        twin(mon, "dispersion2", lambda: dispersion2(
            nb, x, p, c6, r4, rv, DAMP[name](), None, mat), shp)
        reject(mon, "norvdw", f"dispersion2 {name}", lambda: dispersion2(
            nb, x, p, c6, r4, None, DAMP[name](), None, mat))
        reject(mon, "norvdw", f"dispersion2 {name} default",
               lambda: dispersion2(nb, x, p, c6, r4,
                                   damping_function=DAMP[name]()))
    p = gen.param(rng)
    twin(mon, "dispersion2", lambda: dispersion2(nb, x, p, c6, r4), nums.shape)
    reject(mon, "radius_type", "dispersion2", lambda: dispersion2(
        nb, x, p, c6, r4, rv, _OddRadius()))
    # a damping class must not declare parameters it does not have

    def declare():
        class Bad(Damping):  # noqa: F841
            REQUIRED_BY_ORDER = {6: ("a1", "zzz")}

            def _f(self, distances, radii, order, *, a1=None, **kw):
                return distances

        return Bad

    reject(mon, "declaration", "REQUIRED_BY_ORDER", declare)


def _noq(rng, mon, kind):
    """Partial charges although no term depends on charges."""
    nums, pos, c, charge = setup(rng, "mol" if rng.rand() < 0.6 else "batch")
    nb, x = N(nums), T(pos)
    p = dict(gen.param(rng), rs9=1.0)
    q = T(rng.normal(size=nums.shape) * 0.2)
    # charges that vanish, or are tracked, are charges all the same
    unused = [q, torch.zeros_like(q), q.clone().requires_grad_(True)]
    dd = {"dtype": torch.float64}
    terms = [lambda cd: TwoBodyTerm(charge_dependent=cd),
             lambda cd: D4ATMApprox(charge_dependent=cd),
             lambda cd: D4ATMExact(charge_dependent=cd),
             lambda cd: D3ATM(charge_dependent=cd)]

    def disp(which):
        d = Disp(model=c["kind"], **dd)
        for t, cd in which:
            d.register(terms[t](cd))
        return d

    for _ in range(3):
        k = int(rng.randint(1, 4))
        sel = [(int(rng.randint(4)), False) for _ in range(k)]
        d = disp(sel)
        twin(mon, "no charges", lambda: d.calculate(nb, x, charge, p),
             nums.shape)
        for qu in unused:
            reject(mon, "q_unused", f"{sel}",
                   lambda: d.calculate(nb, x, charge, p, q=qu))
        i = int(rng.randint(k))
        sel[i] = (sel[i][0], True)
        d = disp(sel)
        twin(mon, "charges", lambda: d.calculate(nb, x, charge, p, q=q),
             nums.shape)
        twin(mon, "charges", lambda: d.calculate(nb, x, charge, p),
             nums.shape)
    d = DispD3BJ(model=c["kind"], **dd)
    e = disp([])
    for qu in unused:
        reject(mon, "q_unused", "DispD3BJ",
               lambda: d.calculate(nb, x, charge, p, q=qu))
        reject(mon, "q_unused", "no terms",
               lambda: e.calculate(nb, x, charge, p, q=qu))


def _valid(rng, mon, kind):
    """Unusual but valid calls are not rejected."""
    nums, pos, c, charge = setup(rng, "mol")
    nb, x = N(nums), T(pos)
    p = gen.param(rng)
    ch = c["charge"]
    base = twin(mon, "base", lambda: d4.dftd4(nb, x, ch, p), nums.shape)

    def same(label, fn, shape=nums.shape):
        e = twin(mon, label, fn, shape)
        mon.close("valid", e.reshape(-1, len(nums))[0], base, rtol=1e-11,
                  atol=1e-15, detail=label)

    same("int32 numbers", lambda: d4.dftd4(nb.to(torch.int32), x, ch, p))
    same("strided", lambda: d4.dftd4(
        torch.stack([nb, nb], -1)[:, 0],
        x.t().contiguous().t(), ch, p))
    same("expanded", lambda: d4.dftd4(
        nb.expand(3, -1), x.expand(3, -1, -1), T([ch] * 3), p),
        (3, len(nums)))
    same("batch of one, scalar charge", lambda: d4.dftd4(
        nb[None], x[None], T([ch]), p), (1, len(nums)))
    same("nested", lambda: d4.dftd4(
        nb[None, None], x[None, None], T([[ch]]), p), (1, 1, len(nums)))
    same("list charge", lambda: d4.dftd4(nb, x, [ch], p))
    same("one-element charge", lambda: d4.dftd4(nb, x, T([ch]), p))
    same("empty padding molecule", lambda: d4.dftd4(
        torch.stack([nb, nb * 0]), torch.stack([x, x * 0]), T([ch, 0.0]), p),
        (2, len(nums)))
    with torch.no_grad():
        same("no_grad", lambda: d4.dftd4(nb, x, ch, p))
    with torch.inference_mode():
        same("inference", lambda: d4.dftd4(nb, x, ch, p).clone())
    same("doi", lambda: d4.dftd4(nb, x, ch, dict(p, doi="10.1/x")))
    same("grad input", lambda: d4.dftd4(
        nb, x.clone().requires_grad_(True), ch, p).detach())
    for f in ("pbe", "b3lyp", "tpssh"):
        pf = mon.call("get_params", d4.get_params, method="d4", functional=f,
                      keep_doi=bool(rng.rand() < 0.5))
        twin(mon, "functional", lambda: d4.dftd4(nb, x, ch, pf), nums.shape)
    twin(mon, "only padding", lambda: d4.dftd4(nb * 0, x, 0, p), nums.shape)
