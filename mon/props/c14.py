"""C14: terms compose linearly and equivalent APIs agree."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.dispersion import Disp
from tad_dftd4.dispersion.base import DispTerm
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ, DispD3Zero
from tad_dftd4.dispersion.d4 import (D4ATMApprox, D4ATMExact, DispD4,
                                     DispD4Exact)
from tad_dftd4.dispersion.threebody import get_atm_dispersion
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2
from tad_mctc.ncoord import cn_d4
from tad_dftd4.damping import RationalDamping

from .. import gen, refmodel as R
from ..common import config, kwargs, offboundary, pad, reference
from ..sut import DAMP, N, T, model, tparam

RULE = (
    "(a) scaling: for random molecules and configurations the energies at unit "
    "scaling vectors are recorded, then energies at random vectors of s6, s8, "
    "s9, s10 (negative, zero, large, omitted, as float or tensor) must be their "
    "linear combination with the documented defaults for omitted ones; (b) "
    "routes: the same input through the functional API, the predefined classes, "
    "a manually assembled method, model given by name, instance or keyword "
    "arguments, explicit default arguments, explicitly precomputed charges, "
    "the low-level pair matrix and triple functions; (c) histories: random "
    "sequences of creating methods and registering / deregistering terms on "
    "several live objects, with the energy after every step compared with the "
    "reference sum over the terms that should be active. Non-trivial: non-zero "
    "energies; distinct by molecule, configuration and active term multiset."
)
ASSUME = ["element data are the golden ones (C16)",
          "the D3-like classes are exercised with the D4 models (the D3 model "
          "itself is not implemented in this commit)"]
MIN = {"linear": 600, "omitted": 300, "route": 1200, "history": 1200,
       "matrix": 150, "exact": 150, "custom": 150, "derived": 80, "signature": 300, "empty": 20, "d3class": 60}


def cases(tier, seed):
    k = {"quick": 6, "thorough": 40}[tier]
    out = []
    for kind, n in (("linear", 160), ("routes", 170), ("history", 140),
                    ("exact", 160), ("d3", 60), ("custom", 30), ("signature", 12)):
        out += [{"kind": kind, "i": i, "seed": seed} for i in range(n * k)]
    return out


def run(case, mon):
    rng = gen.rs("c14", case["kind"], case["i"], case["seed"])
    {"linear": _linear, "routes": _routes, "history": _history,
     "exact": _exact, "d3": _d3, "custom": _custom,
     "signature": _signature}[case["kind"]](rng, mon)


def rt(ref):
    return 2e-7 if ref["tiny_cn"] else 2e-9


DEFAULTS = {"s6": 1.0, "s8": 1.0, "s9": 1.0, "s10": 0.0}


def _linear(rng, mon):
    nums, pos, shp = gen.molecule(rng, nmax=8)
    c = config(rng, nums)
    pos = offboundary(nums, pos, c)
    keys = ["s6", "s8", "s9"]
    if c["damping"] == "rational":
        keys.append("s10")
    base = {k: v for k, v in c["p"].items() if k not in DEFAULTS}
    kw = kwargs(N(nums), c, force_instance=True)
    x, nb = T(pos), N(nums)

    def energy(p):
        return mon.call("dftd4", d4.dftd4, nb, x, c["charge"], p,
                        **kw).numpy()

    unit = {}
    for k in keys:
        p = dict(base, **{j: float(j == k) for j in keys})
        unit[k] = energy(p)
    ref1 = reference(nums, pos, dict(c, p=dict(base, s6=1.0, s8=1.0, s9=1.0)))
    scale = sum(np.abs(u) for u in unit.values()) + ref1["scale"]
    zero = energy(dict(base, **{j: 0.0 for j in keys}))
    mon.close("linear", zero, np.zeros(len(nums)), atol=1e-18)
    for _ in range(4):
        s = {k: float(rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, rng.uniform(-3, 3),
                                  17.0])) for k in keys}
        want = sum(s[k] * unit[k] for k in keys)
        p = dict(base, **s)
        if rng.rand() < 0.5:
            p = tparam(p)
        mon.close("linear", energy(p), want, rtol=1e-11, atol=1e-16,
                  scale=scale * max(1, max(abs(v) for v in s.values())),
                  detail=str(s))
    for _ in range(3):
        s = {k: float(rng.choice([0.0, 1.0, 0.5, 1.5])) for k in keys
             if rng.rand() < 0.5}
        full = dict(DEFAULTS, **s)
        want = sum(full[k] * unit[k] for k in keys)
        p = dict(base, **s)
        if rng.rand() < 0.5:
            p = tparam(p)
        mon.close("omitted", energy(p), want, rtol=1e-11, atol=1e-16,
                  scale=scale, detail=f"given {sorted(s)}")
    # remaining documented defaults
    p = dict(base, s9=1.0)
    e = energy(p)
    if c["damping"] in ("zero", "mzero"):
        q = {k: v for k, v in p.items() if k not in ("a1", "a2")}
        mon.close("omitted", energy(q), energy(dict(q, a1=0.4, a2=5.0)),
                  rtol=1e-12, scale=scale, atol=1e-16, detail="a1, a2")
    q = {k: v for k, v in p.items() if k != "alp"}
    mon.close("omitted", energy(q), energy(dict(q, alp=16.0)), rtol=1e-12,
              scale=scale, atol=1e-16, detail="alp")
    mon.nontrivial("lin", nums.tolist(), e.round(10).tolist())


def _routes(rng, mon):
    """Every way to ask for the same energy."""
    batch = rng.rand() < 0.4
    if batch:
        mols = [gen.molecule(rng, nmax=6)[:2] for _ in range(rng.randint(1, 4))]
        allz = np.concatenate([z for z, _ in mols])
        c = config(rng, allz)
        c["r4r2"] = c["rvdw"] = c["q"] = None
        mols = [(z, offboundary(z, x, c)) for z, x in mols]
        nums, pos = pad(mols)
        charge = T([gen.charge(rng) for _ in mols])
        refs = [reference(z, x, dict(c, charge=float(charge[k])))
                for k, (z, x) in enumerate(mols)]
        want = np.zeros(nums.shape)
        scale = np.zeros(nums.shape)
        for k, r in enumerate(refs):
            want[k, :len(r["e"])] = r["e"]
            scale[k, :len(r["e"])] = r["scale"]
        amb = any(r["ambiguous"] for r in refs)
        tol = max(rt(r) for r in refs)
    else:
        nums, pos, _ = gen.molecule(rng, nmax=8)
        c = config(rng, nums)
        pos = offboundary(nums, pos, c)
        charge = c["charge"]
        ref = reference(nums, pos, c)
        want, scale, amb, tol = (ref["e"], ref["scale"], ref["ambiguous"],
                                 rt(ref))
    if amb:
        mon.event("skipped_ambiguous_underflow")
        return
    nb, x = N(nums), T(pos)
    p = dict(c["p"])
    kw = kwargs(nb, c)
    kw.pop("model")
    damp = kw.pop("damping_function")
    kd = c["kind"]
    key = str(rng.choice([kd, kd.upper(), kd.capitalize()]))
    inst = model(nb, kd, **c["model"])
    dd = {"dtype": torch.float64}
    first = None

    def route(label, fn):
        nonlocal first
        e = mon.call("route:" + label, fn)
        mon.event("route:" + label)
        mon.close("route", e, want, rtol=tol, scale=scale, atol=1e-19,
                  detail=label)
        if first is None:
            first = e.detach().numpy()
        else:
            mon.close("route_bits", e, first, rtol=1e-11, scale=scale,
                      atol=1e-16, detail=label)
        return e

    def manual(disp, order=0):
        ts = [TwoBodyTerm(damping_fn=damp, charge_dependent=True),
              D4ATMApprox(damping_fn=DAMP["zero"](), charge_dependent=False)]
        for t in ts[::-1] if order else ts:
            disp.register(t)
        return disp

    route("function, instance", lambda: d4.dftd4(
        nb, x, charge, p, model=inst, damping_function=damp, **kw))
    route("function, tensors", lambda: d4.dftd4(
        nb, x, charge, tparam(p), model=inst, damping_function=damp, **kw))
    if not c["model"]:
        route("function, name", lambda: d4.dftd4(
            nb, x, charge, p, model=key, damping_function=damp, **kw))
        if kd == "d4":
            route("function, default model", lambda: d4.dftd4(
                nb, x, charge, p, damping_function=damp, **kw))
    if c["damping"] == "rational":
        route("function, default damping", lambda: d4.dftd4(
            nb, x, charge, p, model=inst, **kw))
        route("DispD4, instance", lambda: DispD4(model=inst, **dd).calculate(
            nb, x, charge, p, **kw))
        route("DispD4, kwargs", lambda: DispD4(
            model=key, model_kwargs=dict(c["model"]), **dd).calculate(
                nb, x, charge, p, **kw))
        if not c["model"]:
            route("DispD4, name", lambda: DispD4(key, **dd).calculate(
                nb, x, charge, p, **kw))
            if kd == "d4":
                route("DispD4, default", lambda: DispD4(**dd).calculate(
                    nb, x, charge, p, **kw))
        route("DispD4, positional", lambda: DispD4(
            key, dict(c["model"]), cn_d4, None, **dd).calculate(
                nb, x, charge, p, **kw))
    route("manual", lambda: manual(Disp(model=inst, **dd)).calculate(
        nb, x, charge, p, **kw))
    route("manual, reversed", lambda: manual(Disp(
        model=key, model_kwargs=dict(c["model"]), **dd), 1).calculate(
            nb, x, charge, p, **kw))
    route("explicit cn", lambda: d4.dftd4(
        nb, x, charge, p, model=inst, damping_function=damp,
        cn_function=cn_d4, **kw))
    if c["cutoff"] is None:
        route("explicit cutoff", lambda: d4.dftd4(
            nb, x, charge, p, model=inst, damping_function=damp,
            **dict(kw, cutoff=d4.Cutoff(**dd))))
    # default radii and expectation values given explicitly
    disp = manual(Disp(model=inst, **dd))
    kw2 = dict(kw)
    if c["r4r2"] is None:
        kw2["r4r2"] = disp.get_r4r2(nb)
    if c["rvdw"] is None:
        kw2["rvdw"] = disp.get_rvdw(nb)
    kw2["rcov"] = disp.get_rcov(nb)
    route("explicit radii", lambda: disp.calculate(nb, x, charge, p, **kw2))
    # low level
    cn = mon.call("cn", cn_d4, nb, x)
    q = kw.get("q")
    if q is None:
        from tad_multicharge import get_eeq_charges

        ch = torch.as_tensor(charge, dtype=torch.float64)
        ch = ch.unsqueeze(-1) if batch else ch
        ce = kw["cutoff"].cn_eeq if "cutoff" in kw else T(25.0)
        q = get_eeq_charges(nb, x, ch, cutoff=ce)
        route("explicit charges", lambda: d4.dftd4(
            nb, x, charge, p, model=inst, damping_function=damp,
            **dict(kw, q=q)))
    r4r2 = kw2.get("r4r2")
    rvdw = kw2.get("rvdw")
    cut2 = kw["cutoff"].disp2 if "cutoff" in kw else None
    cut3 = kw["cutoff"].disp3 if "cutoff" in kw else T(40.0)

    def low(as_matrix):
        c6 = inst.get_atomic_c6(inst.weight_references(cn, q))
        e2 = dispersion2(nb, x, p, c6, r4r2, rvdw, damp, cut2, as_matrix)
        w0 = inst.weight_references(cn, None)
        c60 = inst.get_atomic_c6(w0)
        c9 = torch.sqrt(c60.unsqueeze(-1) * c60.unsqueeze(-2)
                        * c60.unsqueeze(-3))
        a1 = p.get("a1", 0.4)
        a2 = p.get("a2", 5.0)
        rad = a1 * torch.sqrt(3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) + a2
        e3 = get_atm_dispersion(nb, x, c9, rad, cut3, s9=p.get("s9", 1.0),
                                alp=p.get("alp", 16.0))
        return e2, e3

    e2, e3 = mon.call("lowlevel", low, False)
    route("low level", lambda: e2 + e3)
    m2, _ = mon.call("lowlevel", low, True)
    mon.close("matrix", 0.5 * m2.sum(-1), e2, rtol=1e-12, scale=scale,
              atol=1e-17)
    mon.close("matrix", m2, m2.transpose(-1, -2), rtol=1e-10, atol=1e-17,
              scale=np.abs(m2.numpy()) + 1e-12)
    mon.close("matrix", torch.diagonal(m2, dim1=-2, dim2=-1),
              np.zeros(nums.shape), atol=0.0)
    route("matrix", lambda: 0.5 * m2.sum(-2) + e3)
    if np.abs(want).max(initial=0) > 1e-12:
        mon.nontrivial("routes", nums.tolist(), want.round(10).tolist(),
                       kd, c["damping"])


def full_param(rng):
    p = gen.param(rng, "op")
    p.update({"rs6": float(rng.uniform(0.8, 1.3)),
              "rs8": float(rng.uniform(0.7, 1.1)),
              "alp": float(rng.choice([14.0, 16.0]))})
    p["bet"] = float(rng.choice([0.0, 0.05, 0.1]))
    if rng.rand() < 0.5:
        p["rs9"] = float(rng.choice([4.0 / 3.0, 0.9, 1.2]))
    return p


TERMS = [("2", d, cd) for d in ("rational", "zero", "mzero", "op")
         for cd in (True, False)] + \
        [(k, None, cd) for k in ("atm", "xatm", "d3atm")
         for cd in (False, True)]


def make_term(t):
    k, d, cd = t
    if k == "2":
        return TwoBodyTerm(damping_fn=DAMP[d](), charge_dependent=cd)
    cls = {"atm": D4ATMApprox, "xatm": D4ATMExact, "d3atm": D3ATM}[k]
    return cls(damping_fn=DAMP["zero"](), charge_dependent=cd)


def term_energy(t, nums, pos, charge, p, kind, cut, q):
    k, d, cd = t
    kw = dict(kind=kind, cutoff=cut, q=q, terms=(k,))
    if k == "2":
        kw.update(damping=d, charge_dependent=cd)
    else:
        kw.update(charge_dependent3=cd)
    return R.energy(nums, pos, charge, p, **kw)


def _history(rng, mon):
    nums, pos, _ = gen.molecule(rng, nmax=7)
    if len(nums) < 3:
        nums, pos, _ = gen.molecule(rng, n=4)
    p = full_param(rng)
    charge = gen.charge(rng)
    cut = None if rng.rand() < 0.7 else {"disp2": 12.5, "disp3": 9.0,
                                         "cn_eeq": 25.0}
    pos = offboundary(nums, pos, {"cutoff": cut})
    nb, x = N(nums), T(pos)
    live = []
    cache = {}
    predefined = {
        "Disp": (Disp, []),
        "DispD4": (DispD4, [("2", "rational", True), ("atm", None, False)]),
        "DispD4Exact": (DispD4Exact, [("2", "rational", True),
                                      ("xatm", None, False)]),
        "DispD3BJ": (DispD3BJ, [("2", "rational", False),
                                ("d3atm", None, False)]),
        "DispD3Zero": (DispD3Zero, [("2", "zero", False),
                                    ("d3atm", None, False)]),
    }

    def check(o):
        disp, active, kind = o
        q = None
        cdep = any(t[2] for t in active)
        if cdep and rng.rand() < 0.3:
            q = rng.normal(size=len(nums)) * 0.3
        e = mon.call("calculate", disp.calculate, nb, x, charge, dict(p),
                     cutoff=None if cut is None else d4.Cutoff(
                         **cut, dtype=torch.float64),
                     q=None if q is None else T(q))
        want, scale, tol = np.zeros(len(nums)), np.zeros(len(nums)), 2e-9
        for t in active:
            key = (t, kind)
            if q is not None or key not in cache:
                r = term_energy(t, nums, pos, charge, p, kind, cut, q)
                if q is None:
                    cache[key] = r
            else:
                r = cache[key]
            if r["ambiguous"]:
                mon.event("skipped_ambiguous_underflow")
                return
            want, scale = want + r["e"], scale + r["scale"]
            tol = max(tol, rt(r))
        mon.close("history", e, want, rtol=tol, scale=scale, atol=1e-19,
                  detail=str(active))
        if not active:
            mon.ok("empty", bool((e == 0).all()) and e.shape == nb.shape,
                   lambda: f"energy without terms: {e}")
            mon.ok("empty_dtype", e.dtype == torch.float64, str(e.dtype))
        mon.nontrivial("hist", nums.tolist(), sorted(map(str, active)), kind)

    for step in range(10):
        op = rng.choice(["new", "reg", "dereg", "reg"]) if live else "new"
        if op == "new" and len(live) < 3:
            name = str(rng.choice(list(predefined)))
            cls, act = predefined[name]
            kind = str(rng.choice(["d4", "d4s"]))
            m = kind if rng.rand() < 0.5 else model(nb, kind)
            disp = mon.call("new", cls, m, dtype=torch.float64)
            live.append((disp, list(act), kind))
            mon.event("new:" + name)
            o = live[-1]
        else:
            o = live[rng.randint(len(live))]
            disp, active, kind = o
            if op == "dereg" and active:
                t = active[rng.randint(len(active))]
                # an equal term or the registered object itself
                obj = make_term(t)
                if rng.rand() < 0.5:
                    obj = next((y for y in disp.terms if y == obj), obj)
                mon.call("deregister", disp.deregister, obj)
                active.remove(t)
                mon.event("deregister")
            else:
                t = TERMS[rng.randint(len(TERMS))]
                mon.call("register", disp.register, make_term(t))
                active.append(t)
                mon.event("register")
        check(o)
        if len(live) > 1:
            check(live[rng.randint(len(live))])
    # emptied objects
    disp, active, kind = live[0]
    while active:
        t = active.pop()
        mon.call("deregister", disp.deregister, make_term(t))
    check(live[0])
    # a new object of each class is not affected by the history
    name = str(rng.choice(list(predefined)))
    cls, act = predefined[name]
    check((mon.call("new", cls, "d4", dtype=torch.float64), list(act), "d4"))


def _exact(rng, mon):
    nums, pos, _ = gen.molecule(rng, nmax=8)
    if len(nums) < 3:
        nums, pos, _ = gen.molecule(rng, n=4)
    c = config(rng, nums)
    c["damping"] = "rational"
    for k, v in (("s9", 1.0), ("a1", 0.45), ("a2", 4.5)):
        c["p"].setdefault(k, v)
    pos = offboundary(nums, pos, c)
    ref = reference(nums, pos, dict(c, exact=True))
    kw = kwargs(N(nums), c)
    kw.pop("damping_function")
    m = kw.pop("model")
    e = mon.call("exact", lambda: DispD4Exact(
        model=m, dtype=torch.float64).calculate(
            N(nums), T(pos), c["charge"], dict(c["p"]), **kw))
    if ref["ambiguous"]:
        return
    mon.close("exact", e, ref["e"], rtol=rt(ref), scale=ref["scale"],
              atol=1e-19)
    if np.abs(ref["e3"]).max(initial=0) > 1e-12:
        mon.nontrivial("exact", nums.tolist(), ref["e"].round(10).tolist())


def _d3(rng, mon):
    nums, pos, _ = gen.molecule(rng, nmax=8)
    if len(nums) < 3:
        nums, pos, _ = gen.molecule(rng, n=4)
    p = full_param(rng)
    pos = offboundary(nums, pos, {"cutoff": None})
    kind = str(rng.choice(["d4", "d4s"]))
    rvdw = None
    if rng.rand() < 0.3:
        a = rng.uniform(0.8, 1.2, (len(nums),) * 2)
        rvdw = R.G["vdw"][nums[:, None], nums[None]] * (a + a.T) / 2
    for cls, damping in ((DispD3BJ, "rational"), (DispD3Zero, "zero")):
        e = mon.call("d3class", lambda: cls(
            model=kind, dtype=torch.float64).calculate(
                N(nums), T(pos), float(rng.randint(3)), dict(p),
                rvdw=None if rvdw is None else T(rvdw)))
        ref = R.energy(nums, pos, 0.0, p, kind=kind, damping=damping,
                       terms=("2", "d3atm"), charge_dependent=False,
                       rvdw=rvdw)
        if ref["ambiguous"]:
            continue
        mon.close("d3class", e, ref["e"], rtol=rt(ref), scale=ref["scale"],
                  atol=1e-19)
        mon.nontrivial("d3", nums.tolist(), ref["e"].round(10).tolist())


class Given(DispTerm):
    """User-defined term: the given atomic energies."""

    def __init__(self, e):
        super().__init__(DAMP["zero"](), False)
        self.e = e

    def calculate(self, *args, **kwargs):
        return self.e


def scaled(base):
    class Scaled(base):
        def __init__(self, f, **kw):
            super().__init__(**kw)
            self.f = f

        def calculate(self, *args, **kwargs):
            return self.f * super().calculate(*args, **kwargs)

    return Scaled


def _custom(rng, mon):
    """User-defined terms: each registered one counts, in any order."""
    batch = rng.rand() < 0.4
    if batch:
        nums, pos = pad([gen.molecule(rng, nmax=6)[:2] for _ in range(2)])
        charge = T([gen.charge(rng) for _ in range(2)])
    else:
        nums, pos, _ = gen.molecule(rng, nmax=7)
        charge = gen.charge(rng)
    p = full_param(rng)
    nb, x = N(nums), T(pos)
    kind = str(rng.choice(["d4", "d4s"]))
    S2, S3 = scaled(TwoBodyTerm), scaled(D4ATMApprox)

    def total(terms):
        d = mon.call("new", Disp, kind, dtype=torch.float64)
        for t in terms:
            mon.call("register", d.register, t)
        return d, mon.call("calculate", d.calculate, nb, x, charge, dict(p))

    e2 = total([TwoBodyTerm()])[1]
    e3 = total([D4ATMApprox()])[1]
    terms, want, scale = [], torch.zeros_like(e2), 0.0
    for _ in range(int(rng.randint(1, 6))):
        k = rng.randint(4)
        w = float(rng.uniform(-2, 3))
        if k == 0:
            v = T(rng.normal(size=nums.shape)) * 1e-4
            terms.append(Given(v))
        elif k == 1:
            v = w * e2
            terms.append(S2(w))
        elif k == 2:
            v = w * e3
            terms.append(S3(w))
        else:
            v = e2
            terms.append(TwoBodyTerm())
        want, scale = want + v, scale + float(v.abs().max())
    pi = rng.permutation(len(terms))
    d, e = total([terms[i] for i in pi])
    tag = f"{[type(t).__name__ for t in terms]} {kind} {nums.tolist()}"
    mon.close("custom", e, want, rtol=1e-12, scale=scale + 1e-30,
              atol=1e-300, detail=tag)
    # one more of its own kind, and back
    extra = scaled(D4ATMExact if rng.rand() < 0.5 else D3ATM)(2.0)
    mon.call("register", d.register, extra)
    mon.call("calculate", d.calculate, nb, x, charge, dict(p))
    mon.call("deregister", d.deregister, extra)
    e = mon.call("calculate", d.calculate, nb, x, charge, dict(p))
    mon.close("custom", e, want, rtol=1e-12, scale=scale + 1e-30,
              atol=1e-300, detail="after deregistration " + tag)
    # method classes derived from the predefined ones
    base = DispD4 if rng.rand() < 0.6 else DispD4Exact
    more = [(D4ATMExact, None), (TwoBodyTerm, {"damping_fn": RationalDamping()}),
            (S2, {"f": 0.5}), (D4ATMApprox, {"charge_dependent": False})]
    more = [more[i] for i in rng.permutation(4)[: rng.randint(0, 4)]]

    class Plain(base):
        """Nothing of its own."""

    class Extended(Plain):
        """More terms than its base."""

        TERMS = base.TERMS + more

    class Further(Extended):
        """Inherits the extended list."""

    ref = mon.call("calculate", base(kind, dtype=torch.float64).calculate, nb, x,
                   charge, dict(p))
    got = mon.call("calculate", Plain(kind, dtype=torch.float64).calculate, nb, x,
                   charge, dict(p))
    mon.close("derived", got, ref, rtol=1e-12, scale=float(ref.abs().max()) + 1e-30,
              atol=1e-300, detail=f"class derived from {base.__name__} {kind}")
    want, scale = ref.clone(), float(ref.abs().max())
    for cls, kw in more:
        v = total([cls(**(kw or {}))])[1]
        want, scale = want + v, scale + float(v.abs().max())
    for c in (Extended, Further):
        got = mon.call("calculate", c(kind, dtype=torch.float64).calculate, nb, x,
                       charge, dict(p))
        mon.close("derived", got, want, rtol=1e-12, scale=scale + 1e-30, atol=1e-300,
                  detail=f"{c.__name__} {base.__name__} + "
                         f"{[m[0].__name__ for m in more]} {kind}")
    mon.nontrivial("custom", tag)


def _signature(rng, mon):
    """Documented arguments by position and by name."""
    from tad_mctc.ncoord import erf_count, exp_count

    z, x, _ = gen.molecule(rng, nmax=7)
    p = full_param(rng)
    nb, xt = N(z), T(x)
    ch = gen.charge(rng)
    q = T(rng.normal(size=len(z)) * 0.2)
    kd = str(rng.choice(["d4", "d4s"]))
    cls = d4.D4SModel if kd == "d4s" else d4.D4Model
    ga, gc, wf = (float(v) for v in rng.uniform((1.0, 1.0, 2.0), (4.0, 3.0, 8.0)))
    rq = str(rng.choice(["eeq", "gfn2"])) if z.max() <= 86 else "eeq"
    cut = [float(v) for v in rng.uniform((4.0, 3.0, 5.0, 3.0), (30.0, 25.0, 40.0, 30.0))]

    def eq(a, b, what):
        a = a if isinstance(a, (tuple, list)) else [a]
        b = b if isinstance(b, (tuple, list)) else [b]
        for u, v in zip(a, b):
            mon.close("signature", u, v, rtol=1e-12, atol=1e-300,
                      scale=float(v.abs().max()) + 1e-30,
                      detail=f"{what} {kd} {z.tolist()}")

    c1 = mon.call("Cutoff", d4.Cutoff, *cut, None, torch.float64)
    c2 = mon.call("Cutoff", lambda: d4.Cutoff(
        cn_eeq=cut[3], cn=cut[2], disp3=cut[1], disp2=cut[0], dtype=torch.float64))
    eq([c1.disp2, c1.disp3, c1.cn, c1.cn_eeq], [T(v) for v in cut], "Cutoff")
    m1 = mon.call("model", cls, nb, ga, gc, wf, rq, None, None, torch.float64)
    m2 = mon.call("model", lambda: cls(ref_charges=rq, wf=wf, gc=gc, ga=ga, numbers=nb,
                                       dtype=torch.float64))
    e1 = mon.call("dftd4", d4.dftd4, nb, xt, ch, p, model=m1, cutoff=c1)
    e2 = mon.call("dftd4", lambda: d4.dftd4(
        cutoff=c2, model=m2, param=p, charge=ch, positions=xt, numbers=nb))
    eq(e1, e2, "dftd4")
    cn = mon.call("cn", cn_d4, nb, xt)
    for kw in ({}, {"with_dgwdq": True}):
        a = mon.call("weights", m1.weight_references, cn, q, **kw)
        b = mon.call("weights", lambda: m2.weight_references(q=q, cn=cn, **kw))
        eq(a, b, "weight_references")
    w = m1.weight_references(cn, q)
    c6 = mon.call("c6", lambda: m1.get_atomic_c6(gw=w))
    eq(c6, m2.get_atomic_c6(w), "get_atomic_c6")
    eq(mon.call("pols", lambda: m1.get_polarizabilities(weights=w)),
       m2.get_polarizabilities(w), "get_polarizabilities")
    a = mon.call("get_properties", d4.get_properties, nb, xt, ch, c1)
    b = mon.call("get_properties", lambda: d4.get_properties(
        cutoff=c2, charge=ch, positions=xt, numbers=nb))
    eq(a, b, "get_properties")
    mk = {"ga": ga, "gc": gc, "wf": wf, "ref_charges": rq}
    ck = {"counting_function": exp_count if rng.rand() < 0.5 else erf_count}
    for M in (DispD4, DispD4Exact):
        d1 = mon.call("new", M, kd, mk, cn_d4, ck, dtype=torch.float64)
        d2 = mon.call("new", lambda: M(cn_fn_kwargs=ck, cn_fn=cn_d4, model_kwargs=mk,
                                       model=kd, dtype=torch.float64))
        a = mon.call("calculate", d1.calculate, nb, xt, ch, p, cutoff=c1, q=q)
        b = mon.call("calculate", lambda: d2.calculate(
            q=q, cutoff=c2, param=p, charge=ch, positions=xt, numbers=nb))
        eq(a, b, M.__name__)
        if M is DispD4:
            e = mon.call("dftd4", d4.dftd4, nb, xt, ch, p, model=m1, q=q, cutoff=c1,
                         cn_function=cn_d4, **ck)
            eq(a, e, "DispD4 and dftd4")
    # the terms as functions
    r4r2 = d1.get_r4r2(nb)
    rvdw = d1.get_rvdw(nb)
    damp = RationalDamping()
    a = mon.call("dispersion2", dispersion2, nb, xt, p, c6, r4r2, rvdw, damp,
                 T(cut[0]), True)
    b = mon.call("dispersion2", lambda: dispersion2(
        as_matrix=True, cutoff=T(cut[0]), damping_function=damp, rvdw=rvdw, r4r2=r4r2,
        c6=c6, param=p, positions=xt, numbers=nb))
    eq(a, b, "dispersion2")
    e = mon.call("dispersion2", dispersion2, nb, xt, p, c6, r4r2, rvdw, damp, T(cut[0]))
    eq(0.5 * a.sum(-1), e, "pair matrix")
    c9 = T(rng.uniform(1.0, 50.0, (len(z),) * 3))
    alp, s9 = float(rng.uniform(8.0, 16.0)), float(rng.uniform(0.2, 2.0))
    zd = DAMP["zero"]()
    a = mon.call("atm", get_atm_dispersion, nb, xt, c9, rvdw, T(cut[1]), zd, s9, alp)
    b = mon.call("atm", lambda: get_atm_dispersion(
        alp=alp, s9=s9, damping_function=zd, cutoff=T(cut[1]), radii=rvdw, c9=c9,
        positions=xt, numbers=nb))
    eq(a, b, "get_atm_dispersion")
    mon.nontrivial("signature", kd, z.tolist(), float(e1.sum()))
