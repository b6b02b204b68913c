"""Random configurations of the energy function, shared by the checks."""
from __future__ import annotations

import contextlib

import numpy as np
import torch

from . import gen, refmodel as R
from .sut import DAMP, N, T, cutoff, d4, model, tparam


def isolate(rng, p):
    """Sometimes leave a single term, which another one would drown."""
    u = rng.rand()
    if u < 0.12:  # three-body only
        p = {k: v for k, v in p.items() if k != "s10"}
        p.update(s6=0.0, s8=0.0, s9=float(rng.choice([1.0, 1.0, 0.5, -1.0])))
    elif u < 0.16:  # dipole-quadrupole only
        p = {k: v for k, v in p.items() if k != "s10"}
        p.update(s6=0.0, s9=0.0, s8=float(rng.uniform(0.5, 2.0)))
    elif u < 0.20:  # dipole-dipole only
        p = {k: v for k, v in p.items() if k != "s10"}
        p.update(s6=1.0, s9=0.0, s8=0.0)
    return p


def strided(rng, t):
    """The same values in memory with gaps, transposed or expanded."""
    k = rng.randint(3)
    if t.ndim == 0:
        return t
    if k == 0:
        big = torch.zeros(*t.shape[:-1], 2 * t.shape[-1], dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    if k == 1 and t.ndim >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    big = torch.zeros(t.shape[0] + 3, *t.shape[1:], dtype=t.dtype)
    big[2:2 + t.shape[0]] = t
    return big[2:2 + t.shape[0]]


def mode(rng):
    """Context of an evaluation without derivatives."""
    u = rng.rand()
    if u < 0.15:
        return torch.no_grad()
    if u < 0.25:
        return torch.inference_mode()
    return contextlib.nullcontext()


def config(rng, numbers):
    c = {}
    c["kind"] = str(rng.choice(["d4", "d4s"]))
    c["damping"] = str(rng.choice(["rational", "rational", "rational", "zero",
                                   "mzero", "op"]))
    c["p"] = isolate(rng, gen.param(rng, c["damping"]))
    if c["damping"] in ("zero", "mzero") and rng.rand() < 0.25:
        # the radii of the three-body term take the documented defaults
        for k in [("a1",), ("a2",), ("a1", "a2")][rng.randint(3)]:
            c["p"].pop(k, None)
    c["charge"] = gen.charge(rng)
    c["q"] = None
    n = len(numbers)
    if rng.rand() < 0.3:
        q = rng.normal(size=n) * 0.4
        if rng.rand() < 0.3:
            q[rng.randint(n)] = rng.choice([-1.0, -1.5, 3.0, 8.0, -2.0])
        elif rng.rand() < 0.3:
            q = gen.special_charges(rng, n)
        c["q"] = q
    c["r4r2"] = R.G["r4r2"][numbers] * rng.uniform(0.7, 1.4, n) \
        if rng.rand() < 0.15 else None
    c["rvdw"] = None
    if rng.rand() < 0.15:
        a = rng.uniform(0.8, 1.2, (n, n))
        c["rvdw"] = R.G["vdw"][numbers[:, None], numbers[None]] * (a + a.T) / 2
    c["cutoff"] = None
    if rng.rand() < 0.3:
        c["cutoff"] = {
            "disp2": float(rng.choice([60, 40, 12.5, 8, 25, 95.5,
                                       rng.uniform(4, 70)])),
            "disp3": float(rng.choice([40, 25, 10, 7.25, 15, 66.5,
                                       rng.uniform(4, 50)])),
            "cn_eeq": float(rng.choice([25, 25, 6.5, 40,
                                        rng.uniform(5, 40)]))}
        if rng.rand() < 0.15:
            # switched off or without limit
            k = str(rng.choice(["disp2", "disp3", "cn_eeq"]))
            c["cutoff"][k] = float(rng.choice([0.0, 1e5, np.inf]))
    m = {}
    if rng.rand() < 0.35:
        if rng.rand() < 0.5:
            m["ga"] = float(rng.choice([3.0, 2.5, 1.0, 4.0, 0.0,
                                        rng.uniform(0.5, 5.0)]))
        if rng.rand() < 0.5:
            m["gc"] = float(rng.choice([2.0, 1.0, 3.0, 0.0,
                                        rng.uniform(0.5, 4.0)]))
        if rng.rand() < 0.5:
            m["wf"] = float(rng.choice([6.0, 4.0, 2.0, 8.5, 0.05, 0.0,
                                        rng.uniform(0.02, 12.0)]))
        if rng.rand() < 0.4 and numbers.max() <= R.MAXZ_GFN2:
            m["ref_charges"] = "gfn2"
    c["model"] = m
    return c


# entry point -> (three-body terms of the reference, charge dependent C9)
ROUTES = {"dftd4": (("atm",), False), "class": (("atm",), False),
          "manual": (("atm",), False), "two": ((), False),
          "exact": (("xatm",), False), "d3atm": (("d3atm",), False),
          "qatm": (("atm",), True), "qexact": (("xatm",), True),
          "qd3atm": (("d3atm",), True)}
RARE = ["d3atm", "qatm", "qexact", "qd3atm"]


def pick_api(rng, usual=("dftd4", "dftd4", "dftd4", "class", "exact")):
    """One of the usual entry points or, at times, composed terms."""
    if rng.rand() < 0.2:
        return str(rng.choice(RARE))
    return str(rng.choice(list(usual)))


def reference(numbers, pos, c):
    m = dict(c["model"])
    ref = m.pop("ref_charges", "eeq")
    three, cd3 = ROUTES[c.get("api", "exact" if c.get("exact") else "dftd4")]
    return R.energy(numbers, pos, c["charge"], c["p"], kind=c["kind"],
                    q=c["q"], damping=c["damping"], cutoff=c["cutoff"],
                    r4r2=c["r4r2"], rvdw=c["rvdw"], ref=ref,
                    terms=("2",) + three, charge_dependent3=cd3, **m)


def run_sut(mon, rng, numbers, pos, c, dtype=torch.float64):
    kw = {}
    nb = N(numbers)
    style = rng.randint(3)
    if c["model"]:
        kw["model"] = model(nb, c["kind"], dtype, **c["model"])
    elif style == 0:
        kw["model"] = model(nb, c["kind"], dtype)
    else:
        kw["model"] = c["kind"]
    if c["q"] is not None:
        kw["q"] = T(c["q"], dtype)
    if c["r4r2"] is not None:
        kw["r4r2"] = T(c["r4r2"], dtype)
    if c["rvdw"] is not None:
        kw["rvdw"] = T(c["rvdw"], dtype)
    if c["cutoff"] is not None:
        kw["cutoff"] = cutoff(c["cutoff"], dtype)
    if c["damping"] != "rational" or rng.rand() < 0.5:
        kw["damping_function"] = DAMP[c["damping"]]()
    p = tparam(c["p"], dtype) if rng.rand() < 0.6 else dict(c["p"])
    ch = T(c["charge"], dtype) if rng.rand() < 0.5 else c["charge"]
    x = T(pos, dtype)
    u = rng.rand()
    if u < 0.1:
        nb, x = strided(rng, nb), strided(rng, x)
        mon.event("strided")
    elif u < 0.2:
        x.requires_grad_(True)
    elif u < 0.25:
        nb = nb.int()
    with mode(rng):
        if c.get("api", "dftd4") != "dftd4":
            return evaluate(mon, nb, x, ch, p, kw, c["api"],
                            batch=rng).detach()
        if rng.rand() < 0.3:
            # the same evaluation through a method object
            mkw = None
            if rng.rand() < 0.6:
                kw["model"] = str(rng.choice([c["kind"], c["kind"].upper()]))
                mkw = dict(c["model"])
                if "wf" in mkw and rng.rand() < 0.5:
                    mkw["wf"] = T(mkw["wf"], dtype)
                if not mkw and rng.rand() < 0.5:
                    mkw = None
            return evaluate(mon, nb, x, ch, p, kw, str(rng.choice(
                ["class", "manual"])), model_kwargs=mkw, batch=rng).detach()
        return evaluate(mon, nb, x, ch, p, kw, batch=rng).detach()


def offboundary(numbers, pos, c):
    cuts = [R.CN_CUT] + list((c["cutoff"] or R.DEFAULT_CUTOFF).values())
    for _ in range(10):
        if R.boundary_distance(pos, cuts) > 1e-6:
            return pos
        pos = pos * 1.0007
    return pos


def plain(kind="d4", damping="rational", p=None, charge=0.0, **kw):
    c = {"kind": kind, "damping": damping, "p": p, "charge": charge, "q": None,
         "r4r2": None, "rvdw": None, "cutoff": None, "model": {}}
    c.update(kw)
    return c


def kwargs(numbers, c, dtype=torch.float64, force_instance=False):
    """Keyword arguments of the energy function for a configuration."""
    kw = {"damping_function": DAMP[c["damping"]]()}
    if c["model"] or force_instance:
        kw["model"] = model(numbers, c["kind"], dtype, **c["model"])
    else:
        kw["model"] = c["kind"]
    for k in ("q", "r4r2", "rvdw"):
        if c[k] is not None:
            kw[k] = T(c[k], dtype)
    if c["cutoff"] is not None:
        kw["cutoff"] = cutoff(c["cutoff"], dtype)
    return kw


def pad(mols, extra=0):
    """Stack molecules [(numbers, pos)] with trailing padding."""
    nmax = max(len(z) for z, _ in mols) + extra
    nums = np.zeros((len(mols), nmax), int)
    pos = np.zeros((len(mols), nmax, 3))
    for k, (z, x) in enumerate(mols):
        nums[k, :len(z)] = z
        pos[k, :len(z)] = x
    return nums, pos


def embed(rng, nb, pos, charge, kw):
    """The same evaluation as a member of a batch: (numbers, positions, charge,
    keywords, function extracting the result), or None if not possible."""
    n = nb.shape[0]
    if nb.ndim != 1 or n == 0:
        return None
    dt = pos.dtype
    if isinstance(charge, torch.Tensor):
        if charge.numel() != 1:
            return None
        ch = charge.to(dt).reshape(())
    elif isinstance(charge, (int, float)):
        ch = torch.tensor(float(charge), dtype=dt)
    else:
        return None
    if any(kw.get(k) is not None and kw[k].dtype != dt
           for k in ("q", "r4r2", "rvdw")):
        return None
    shape = [(1,), (1, 1), (2,), (2,), (3,), (2, 1), (1, 2), (2, 2)][
        rng.randint(8)]
    lead, trail = int(rng.choice([0, 0, 1])), int(rng.choice([0, 0, 1, 2]))
    size = int(np.prod(shape))
    me = int(rng.randint(size))
    w = max(n, 2 if size > 1 else 1) + lead + trail
    other = [np.array([8, 1]), np.array([6, 8]), np.array([17, 1])][
        rng.randint(3)]
    sl = slice(lead, lead + n)

    def put(mine, dims, theirs):
        """Rows of the batch; `dims` atom dimensions."""
        rows = []
        for k in range(size):
            full = torch.zeros((w,) * dims + tuple(mine.shape[dims:]),
                               dtype=mine.dtype)
            if k == me:
                full[(sl,) * dims] = mine
            else:
                full[(slice(0, 2),) * dims] = theirs
            rows.append(full)
        t = torch.stack(rows)
        return t.reshape(shape + tuple(t.shape[1:]))

    xo = torch.tensor([[0.1, 0.2, -0.3], [0.4, 1.9, 1.2]], dtype=dt)
    no = torch.tensor(other, dtype=nb.dtype)
    nb2 = put(nb, 1, no)
    pos2 = put(pos, 1, xo)
    ch2 = torch.stack([ch if k == me else torch.zeros((), dtype=dt)
                       for k in range(size)]).reshape(shape)
    kw = dict(kw)
    if kw.get("q") is not None:
        kw["q"] = put(kw["q"], 1, torch.zeros(2, dtype=dt))
    if kw.get("r4r2") is not None:
        kw["r4r2"] = put(kw["r4r2"], 1, torch.tensor(
            R.G["r4r2"][other], dtype=dt))
    if kw.get("rvdw") is not None:
        kw["rvdw"] = put(kw["rvdw"], 2, torch.tensor(
            R.G["vdw"][np.ix_(other, other)], dtype=dt))
    m = kw.get("model", "d4")
    if not isinstance(m, str):
        wf = m.wf
        if wf.ndim:
            if wf.shape != (n, n):
                return None
            wf = put(wf, 2, torch.full((2, 2), 6.0, dtype=wf.dtype))
        kw["model"] = type(m)(nb2, ga=m.ga, gc=m.gc, wf=wf,
                              ref_charges=m.ref_charges, dtype=m.dtype)
    return nb2, pos2, ch2, kw, lambda e: e.reshape(size, w)[me, sl]


def dress(rng, mon, nb, pos, kw):
    """The same values in another integer type and memory layout."""
    u = rng.rand()
    if u < 0.5:
        nb = nb.to(torch.int32)
        mon.event("layout:int32")
    if u > 0.3:
        def strided(t):
            big = torch.stack([t, t * 3 + 1, t * 0], dim=-1)
            return big[..., 0]

        pos = strided(pos)
        kw = {k: strided(v) if k in ("q", "r4r2", "rvdw") and v is not None
              else v for k, v in kw.items()}
        mon.event("layout:strided")
    return nb, pos, kw


def evaluate(mon, nb, pos, charge, p, kw, api="dftd4", model_kwargs=None,
             cn_kwargs=None, batch=None):
    """Energy through one of the equivalent entry points. `kw` from kwargs().
    With `batch` (a random state), often as a member of a batch."""
    kw = dict(kw)
    if batch is not None and batch.rand() < 0.15:
        nb, pos, kw = dress(batch, mon, nb, pos, kw)
    if batch is not None and cn_kwargs is None and batch.rand() < 0.4 and not (
            model_kwargs and getattr(model_kwargs.get("wf"), "ndim", 0)):
        got = embed(batch, nb, pos, charge, kw)
        if got is not None:
            nb2, pos2, ch2, kw2, pick = got
            mon.event("as_member_of_batch")
            return pick(evaluate(mon, nb2, pos2, ch2, p, kw2, api,
                                 model_kwargs))
    if api == "dftd4":
        return mon.call("dftd4", d4.dftd4, nb, pos, charge, p, **kw)
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d4 import (D4ATMApprox, D4ATMExact, DispD4,
                                         DispD4Exact)
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    m = kw.pop("model", "d4")
    damp = kw.pop("damping_function", DAMP["rational"]())
    dd = {"dtype": pos.dtype, "device": pos.device}
    if model_kwargs is not None:
        dd["model_kwargs"] = model_kwargs
    if cn_kwargs is not None:
        dd.update(cn_kwargs)
    rational = isinstance(damp, DAMP["rational"])
    if api == "two":
        disp = Disp(model=m, **dd)
        disp.register(TwoBodyTerm(damping_fn=damp, charge_dependent=True))
    elif rational and api == "class":
        disp = DispD4(model=m, **dd)
    elif rational and api == "exact":
        disp = DispD4Exact(model=m, **dd)
    else:
        disp = Disp(model=m, **dd)
        disp.register(TwoBodyTerm(damping_fn=damp, charge_dependent=True))
        three, cd3 = ROUTES[api]
        disp.register({"atm": D4ATMApprox, "xatm": D4ATMExact,
                       "d3atm": D3ATM}[three[0]](
            damping_fn=DAMP["zero"](), charge_dependent=cd3))
    return mon.call("calculate:" + api, disp.calculate, nb, pos, charge, p,
                    **kw)


def grad_of(mon, label, e, x, **kw):
    g = mon.call("grad:" + label, torch.autograd.grad, e, x, allow_unused=True,
                 **kw)
    out = []
    for gi, xi in zip(g, x):
        out.append(torch.zeros_like(xi) if gi is None else gi)
    return out


def gscale(g):
    """Largest gradient component, as scale for comparisons."""
    return float(g.detach().abs().max()) if g.numel() else 0.0
