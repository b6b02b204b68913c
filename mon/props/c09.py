"""C09: partial charges: conservation, precedence and scope."""
from __future__ import annotations

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import evaluate, pad
from ..sut import DAMP, DT, N, T, cutoff, d4, model, tparam

RULE = (
    "Random molecules, padded batches and nested batches over all elements x "
    "total charge (integer, fractional, both signs, different per molecule) in "
    "every accepted form (int, float, list, scalar tensor, tensors of dtype "
    "int/f32/f64, (1,), (b,), (b, 1)) x model x damping x entry point x "
    "precision. Observed: reported charges (sum, equilibration equations, sum "
    "of their derivatives by the total charge), energies for equivalent forms, "
    "with user-given charges under changed total charges, three-body-only and "
    "two-body-only energies under changed charges, terms with explicit charge "
    "dependence flags. Non-trivial: the charge changes the observed two-body "
    "energy by more than 1e-6 relative; distinct by system and charge."
)
ASSUME = [
    "the equilibration equations are those of the published EEQ model with the "
    "golden element data; atoms whose EEQ coordination number is below 1e-6 are "
    "compared to 1e-6 e (square root of a vanishing number)",
    "a scalar total charge for a batch of several molecules is rejected by the "
    "charge model dependency and not required to work",
]
MIN = {"sum": 200, "eeq": 200, "forms": 300, "default_charge": 60,
       "q_precedence": 60, "q_explicit_eeq": 60, "atm_independent": 60,
       "two_body_sensitive": 40, "flags": 60, "dq_dcharge": 30, "#Z": 90,
       "batched": 60, "gfn2": 100, "fractional": 30, "form:list": 10, "form:int": 10,
       "form:float": 10, "form:t0": 10, "form:t1": 10, "form:int64": 10,
       "f32": 15, "large_charge": 40, "as_member_of_batch": 60}


def cases(tier, seed):
    n = {"quick": 3600, "thorough": 24000}[tier]
    return [{"kind": ("props", "forms", "scope", "flags")[i % 4], "i": i,
             "seed": seed} for i in range(n)]


def run(case, mon):
    rng = gen.rs("c09", case["i"], case["seed"])
    {"props": _props, "forms": _forms, "scope": _scope,
     "flags": _flags}[case["kind"]](rng, mon, case["i"])


def spy(mon, kind, nb, x, tc, p, cut, dtype):
    """Charges which the energy function hands to a registered term; None if it
    does not do so in a form known here."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    seen = []

    class Spy(TwoBodyTerm):
        def calculate(self, *args, **kw):
            q = kw.get("q")
            if isinstance(q, torch.Tensor):
                seen.append(q.detach().clone())
            return super().calculate(*args, **kw)

    d = Disp(model=kind, dtype=dtype)
    d.register(Spy())
    mon.call("calculate", d.calculate, nb, x, tc, p, cutoff=cut)
    return seen[0] if seen else None


CHARGES = [0, 1, -1, 2, -2, 3, 0.5, -0.25, 0.1, 1.3, -0.77]


def _charge(rng, mon):
    c = float(CHARGES[rng.randint(len(CHARGES))])
    if rng.rand() < 0.12:
        c = float(rng.choice([5, -5, 8, -7, 12.5, 20, 40]))
        mon.event("large_charge")
    if c != int(c):
        mon.event("fractional")
    return c


def _mol(rng, mon, i, nmin=1, nmax=9):
    while True:
        z, x, _ = gen.molecule(rng, nmax=nmax)
        if len(z) >= nmin:
            break
    z = np.array(z)
    if rng.rand() < 0.7:
        z[0] = 1 + i % R.MAXZ
        z, x, _ = gen.molecule(rng, numbers=z)
    for a in z:
        mon.event(f"Z{a}")
    return z, x


def _props(rng, mon, i):
    b = int(rng.choice([1, 1, 2, 3, 4]))
    mols = [_mol(rng, mon, i + k) for k in range(b)]
    ch = [_charge(rng, mon) for _ in range(b)]
    dt = "f32" if rng.rand() < 0.2 else "f64"
    mon.event(dt)
    dtype = DT[dt]
    cut = None
    if rng.rand() < 0.3:
        cut = {"cn_eeq": float(rng.choice([6.5, 40.0, 12.0]))}
    single = b == 1 and rng.rand() < 0.7
    if single:
        nums, pos = mols[0]
        tc = T(ch[0], dtype)
    else:
        nums, pos = pad(mols, int(rng.randint(0, 3)))
        tc = T(ch, dtype)
        mon.event("batched")
        if b == 4 and rng.rand() < 0.7:  # nested
            nums = nums.reshape(2, 2, -1)
            pos = pos.reshape(2, 2, -1, 3)
            tc = tc.reshape(2, 2)
        if rng.rand() < 0.4:
            tc = tc.unsqueeze(-1)
    tc = tc.requires_grad_(True)
    cut_t = cutoff(cut, dtype)
    cn, q, c6, al = mon.call("get_properties", d4.get_properties, N(nums),
                             T(pos, dtype), tc, cut_t)
    if not mon.ok("shape", q.shape == nums.shape, f"{tuple(q.shape)}"):
        return
    qn = q.detach().numpy().astype(float)
    tol = 1e-10 if dt == "f64" else 2e-4
    tag = f"{[z.tolist() for z, _ in mols]} charge {ch} {dt} {cut}"
    mon.close("sum", qn.sum(-1).reshape(-1), np.array(ch), rtol=0,
              atol=tol * (1 + nums.shape[-1]), detail=tag)
    mon.ok("padding", (qn[nums == 0] == 0).all(), tag)
    fq = qn.reshape(b, -1)
    for k, (z, x) in enumerate(mols):
        ref, cne = R.eeq_charges(z, x, ch[k], (cut or {}).get("cn_eeq", 25.0))
        if R.boundary_distance(x, [(cut or {}).get("cn_eeq", 25.0)]) < 1e-5:
            continue
        at = 1e-8 if dt == "f64" else 5e-3
        if (cne < 1e-6).any():
            at = max(at, 1e-6)
        mon.close("eeq", fq[k][:len(z)], ref, rtol=1e-8, atol=at,
                  scale=np.abs(ref).max() + 1, detail=tag)
        mon.nontrivial(tag, k)
    if dt == "f64":
        g = mon.call("grad", torch.autograd.grad, q.sum(), tc)[0]
        mon.close("dq_dcharge", g, np.ones(tuple(tc.shape)), rtol=0, atol=1e-8,
                  detail=tag)
    # the energy function works with the same charges
    used = spy(mon, str(rng.choice(["d4", "d4s"])), N(nums), T(pos, dtype),
               tc.detach(), tparam(gen.param(rng), dtype), cut_t, dtype)
    if used is not None and used.shape == q.shape:
        mon.close("used", used, q.detach(), rtol=0, atol=tol *
                  (1 + float(q.detach().abs().max())), detail=tag)
    # default: neutral
    if rng.rand() < 0.6:
        shp = nums.shape[:-1]
        a = mon.call("props:none", d4.get_properties, N(nums), T(pos, dtype),
                     cutoff=cut_t)
        z0 = mon.call("props:zero", d4.get_properties, N(nums), T(pos, dtype),
                      torch.zeros(shp, dtype=dtype), cut_t)
        n0 = mon.call("props:None", d4.get_properties, N(nums), T(pos, dtype),
                      None, cut_t)
        for x, y, w in zip(a, z0, n0):
            sc = float(y.abs().max()) + 1e-30
            rt = 1e-12 if dt == "f64" else 1e-5
            mon.close("default_charge", x, y, rtol=rt, scale=sc, detail=tag)
            mon.close("default_charge", w, y, rtol=rt, scale=sc, detail=tag)
        mon.close("default_charge", a[1].sum(-1), np.zeros(shp), rtol=0,
                  atol=tol * 10, detail="neutral " + tag)
    mon.sample({"molecules": [z.tolist() for z, _ in mols], "charge": ch,
                "charges": fq[0].tolist()})


def _forms(rng, mon, i):
    """The same total charge, given in different ways."""
    b = int(rng.choice([1, 1, 2, 3]))
    mols = [_mol(rng, mon, i + k, nmax=7) for k in range(b)]
    dt = "f32" if rng.rand() < 0.2 else "f64"
    mon.event(dt)
    dtype = DT[dt]
    integer = rng.rand() < 0.6
    if integer:
        ch = [int(rng.choice([0, 1, -1, 2, -2])) for _ in range(b)]
    else:
        ch = [float(rng.choice([0.5, -0.25, 0.75, 1.5, 0.125]))
              for _ in range(b)]
    p = tparam(gen.param(rng), dtype)
    kind = str(rng.choice(["d4", "d4s"]))
    forms = {}
    if b == 1 and rng.rand() < 0.7:
        nums, pos = mols[0]
        c = ch[0]
        forms = {"float": float(c), "t0": torch.tensor(float(c), dtype=dtype),
                 "t1": torch.tensor([float(c)], dtype=dtype),
                 "f32": torch.tensor(float(c), dtype=torch.float32),
                 "f64": torch.tensor(float(c), dtype=torch.float64),
                 "list": [float(c)]}
        if integer:
            forms["int"] = c
            forms["int64"] = torch.tensor(c)
            forms["listint"] = [c]
    else:
        nums, pos = pad(mols, int(rng.randint(0, 2)))
        mon.event("batched")
        f = [float(c) for c in ch]
        forms = {"t0": torch.tensor(f, dtype=dtype),
                 "t1": torch.tensor(f, dtype=dtype).unsqueeze(-1),
                 "f32": torch.tensor(f, dtype=torch.float32),
                 "f64": torch.tensor(f, dtype=torch.float64), "list": f}
        if integer:
            forms["int64"] = torch.tensor(ch)
            forms["listint"] = ch
    x = T(pos, dtype)
    api = str(rng.choice(["dftd4", "class", "exact"]))
    tag = f"{nums.tolist()} charge {ch} {dt} {kind} {api}"
    base = evaluate(mon, N(nums), x, forms["t0"], p, {"model": kind}, api)
    pb = mon.call("get_properties", d4.get_properties, N(nums), x, forms["t0"])
    sc = float(base.abs().max()) + 1e-30
    rt = 1e-12 if dt == "f64" else 1e-5
    for name, f in forms.items():
        mon.event("form:" + name)
        e = evaluate(mon, N(nums), x, f, p, {"model": kind}, api)
        mon.close("forms", e, base, rtol=rt, scale=sc,
                  detail=f"{name} {f!r} {tag}")
        pr = mon.call("get_properties", d4.get_properties, N(nums), x, f)
        for k, (u, v) in enumerate(zip(pr, pb)):
            mon.close("forms", u, v, rtol=rt,
                      scale=float(v.abs().max()) + 1e-30,
                      detail=f"property {k} {name} {tag}")
    if b > 1:
        # one number for several molecules: rejected, or the charge of each
        c = ch[0]
        for f in (float(c), torch.tensor(float(c), dtype=dtype),
                  torch.tensor([float(c)], dtype=dtype), [float(c)]):
            try:
                pr = d4.get_properties(N(nums), x, f)
                e = d4.dftd4(N(nums), x, f, p, model=kind)
            except Exception:
                mon.event("scalar_rejected")
                continue
            mon.event("scalar_accepted")
            full = torch.full((b,), float(c), dtype=dtype)
            mon.close("one_charge", pr[1].sum(-1), full, rtol=0,
                      atol=1e-9 if dt == "f64" else 2e-3,
                      detail=f"{f!r} {tag}")
            e1 = d4.dftd4(N(nums), x, full, p, model=kind)
            mon.close("one_charge", e, e1, rtol=rt,
                      scale=float(e1.abs().max()) + 1e-30,
                      detail=f"energy {f!r} {tag}")
    # and the charge is the one asked for
    mon.close("sum", pb[1].sum(-1).reshape(-1), np.array(ch, float), rtol=0,
              atol=1e-9 if dt == "f64" else 2e-3, detail=tag)
    mon.nontrivial(tag)


def _scope(rng, mon, i):
    z, x = _mol(rng, mon, i, nmin=3, nmax=8)
    dname = str(rng.choice(["rational", "rational", "zero", "op", "mzero"]))
    p = gen.param(rng, dname)
    p["s9"] = 1.0
    kw = {"model": str(rng.choice(["d4", "d4s"])),
          "damping_function": DAMP[dname]()}
    api = str(rng.choice(["dftd4", "class", "exact"]))
    nb, xt = N(z), T(x)
    name = kw["model"]
    if rng.rand() < 0.5:
        m = {"ga": float(rng.choice([3.0, 2.0, 3.7])),
             "gc": float(rng.choice([2.0, 1.5]))}
        if z.max() <= R.MAXZ_GFN2 and rng.rand() < 0.6:
            m["ref_charges"] = "gfn2"
            mon.event("gfn2")
        kw["model"] = model(nb, name, **m)
        name += f" {m}"
    c1, c2 = _charge(rng, mon), _charge(rng, mon)
    if c1 == c2:
        c2 = c1 + 1.0
    def ev(c, p, kw):
        return evaluate(mon, nb, xt, c, p, kw, api, batch=gen.rs(
            x.tobytes(), z.tobytes()))

    tag = f"{z.tolist()} {api} {name} {dname} {c1}/{c2}"
    only3 = {**p, "s6": 0.0, "s8": 0.0, "s9": 1.0}
    only3.pop("s10", None)
    only2 = {**p, "s9": 0.0}
    q1 = rng.normal(size=len(z)) * 0.4
    if rng.rand() < 0.3:
        q1 = gen.special_charges(rng, len(z))
        mon.event("special_q")
    e3 = [ev(c, only3, {**kw, **qk})
          for c, qk in ((c1, {}), (c2, {}), (0.0, {"q": T(q1)}))]
    sc = float(e3[0].abs().max()) + 1e-30
    mon.close("atm_independent", e3[1], e3[0], rtol=1e-12, scale=sc,
              detail=tag)
    mon.close("atm_independent", e3[2], e3[0], rtol=1e-12, scale=sc,
              detail="given charges " + tag)
    a = ev(c1, only2, kw)
    b = ev(c2, only2, kw)
    ref = float(a.abs().max()) + 1e-30
    if float((a - b).abs().max()) > 1e-6 * ref:
        mon.event("two_body_sensitive")
        mon.nontrivial(tag)
    # given charges take precedence over the total charge
    u = ev(c1, p, {**kw, "q": T(q1)})
    v = ev(c2, p, {**kw, "q": T(q1)})
    mon.close("q_precedence", v, u, rtol=1e-12,
              scale=float(u.abs().max()) + 1e-30, detail=tag)
    q2 = q1 + 0.3
    w = ev(c1, p, {**kw, "q": T(q2)})
    mon.ok("q_used", float((w - u).abs().max()) >
           1e-7 * float(u.abs().max()) or dname in ("zero", "mzero"),
           "given charges have no effect " + tag)
    # ... whatever values they have: no charges at all are charges, too
    q0 = np.zeros(len(z))
    u0 = ev(c1, p, {**kw, "q": T(q0)})
    v0 = ev(c2, p, {**kw, "q": T(q0)})
    t0 = ev(c1, p, {**kw, "q": T(q0 + 1e-11)})
    mon.close("q_precedence", v0, u0, rtol=1e-12,
              scale=float(u0.abs().max()) + 1e-30, detail="zero charges " + tag)
    mon.close("q_precedence", u0, t0, rtol=1e-8,
              scale=float(u0.abs().max()) + 1e-30,
              detail="zero and vanishing charges " + tag)
    # the default charges given explicitly
    q = mon.call("get_properties", d4.get_properties, nb, xt, c1)[1]
    full = ev(c1, p, kw)
    expl = ev(17.0, p, {**kw, "q": q})
    mon.close("q_explicit_eeq", expl, full, rtol=1e-10,
              scale=float(full.abs().max()) + 1e-30, detail=tag)


def _flags(rng, mon, i):
    """Terms use the charges if and only if they are charge dependent."""
    from tad_dftd4.dispersion import Disp
    from tad_dftd4.dispersion.d3 import D3ATM
    from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact
    from tad_dftd4.dispersion.twobody import TwoBodyTerm

    z, x = _mol(rng, mon, i, nmin=3, nmax=7)
    x = x * 1.0000003
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    p["s9"] = float(rng.choice([1.0, 0.5, 2.0]))
    which = str(rng.choice(["atm", "xatm", "d3atm"]))
    cls = {"atm": D4ATMApprox, "xatm": D4ATMExact, "d3atm": D3ATM}[which]
    d2, d3 = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
    terms = [("2", d2), (which, d3)]
    if rng.rand() < 0.3:
        terms = [terms[rng.randint(2)]]
    m = {}
    if rng.rand() < 0.5:
        m = {"ga": float(rng.choice([3.0, 2.0, 3.7])),
             "gc": float(rng.choice([2.0, 1.5]))}
        if z.max() <= R.MAXZ_GFN2 and rng.rand() < 0.6:
            m["ref_charges"] = "gfn2"
            mon.event("gfn2")
    mod, mkw = kind, dict(m)
    if rng.rand() < 0.5:
        mod, mkw = model(N(z), kind, **m), {}
    disp = mon.call("Disp", Disp, model=mod, model_kwargs=mkw,
                    dtype=torch.float64)
    for t, dep in terms[::-1] if rng.rand() < 0.5 else terms:
        if t == "2":
            disp.register(TwoBodyTerm(charge_dependent=dep))
        else:
            disp.register(cls(charge_dependent=dep))
    dep = any(f for _, f in terms)
    ch = _charge(rng, mon)
    q = rng.normal(size=len(z)) * 0.3 if dep and rng.rand() < 0.5 else None
    kw = {"q": T(q)} if q is not None else {}
    if which == "d3atm" and rng.rand() < 0.5:
        p["rs9"] = float(rng.choice([1.0, 4 / 3, 0.8]))
    e = mon.call("calculate", disp.calculate, N(z), T(x), ch, p, **kw)
    names = [t for t, _ in terms]
    ref = R.energy(z, x, ch, p, kind=kind, q=q, terms=tuple(names),
                   charge_dependent=d2, charge_dependent3=d3,
                   ref=m.pop("ref_charges", "eeq"), **m)
    if ref["ambiguous"]:
        mon.event("ambiguous")
        return
    tag = f"{z.tolist()} {kind} {terms} q={q is not None} charge {ch}"
    mon.close("flags", e, ref["e"], scale=ref["scale"] + 1e-30, rtol=1e-6
              if ref["tiny_cn"] else 1e-8, atol=1e-19, detail=tag)
    mon.nontrivial(tag)
