"""C06: real-space cutoffs decide exactly which interactions count."""
from __future__ import annotations

import itertools

import numpy as np
import torch

from .. import gen, refmodel as R
from ..common import ROUTES, config, evaluate, kwargs, pick_api
from ..sut import DAMP, DT, N, T, cutoff, d4, model, tparam

RULE = (
    "Monitor with an explicit list of pairs and triples: cutoffs are placed "
    "between consecutive interatomic distances of the molecule (so that every "
    "membership decision is observed), exactly on a representable distance and "
    "just below it, at their defaults, and at values that differ between the "
    "terms; two-body, three-body and charge contributions are observed "
    "separately. Fragments beyond all cutoffs must be exactly additive for given "
    "charges. Non-trivial: the cutoff excludes at least one and includes at "
    "least one interaction, or a boundary decision; distinct by content."
)
ASSUME = [
    "boundary decisions use distances that are exactly representable and "
    "coordinates for which the dependency's distance formula is exact",
]
MIN = {"two_body": 300, "three_body": 300, "boundary2": 200, "boundary3": 200,
       "default2": 30, "default3": 30, "independent": 300, "additive": 100,
       "charge_cutoff": 60, "boundary_eeq": 30, "special": 300}


def cases(tier, seed):
    f = {"quick": 4, "thorough": 60}[tier]
    out = []
    for k, n in (("enum", 170), ("boundary", 60), ("default", 40),
                 ("independent", 80), ("additive", 140), ("eeq", 70),
                 ("cn", 4), ("batch", 40), ("lowlevel", 30),
                 ("special", 40)):
        out += [{"kind": k, "i": i, "seed": seed} for i in range(n * f)]
    return out


def run(case, mon):
    rng = gen.rs("c06", case["kind"], case["i"], case["seed"])
    globals()["_" + case["kind"]](rng, mon)


def energy(mon, nums, pos, p, c, q=None, dtype=torch.float64, kind="d4",
           damping="rational", charge=0.0, api="dftd4"):
    kw = {"model": kind, "damping_function": DAMP[damping]()}
    if q is not None:
        kw["q"] = T(q, dtype)
    if c is not None:
        kw["cutoff"] = c if isinstance(c, d4.Cutoff) else cutoff(c, dtype)
    return evaluate(mon, N(nums), T(pos, dtype), T(charge, dtype),
                    tparam(p, dtype), kw, api, batch=gen.rs(
                        np.asarray(pos).tobytes(), np.asarray(nums).tobytes()))


def two(p):
    return {**p, "s9": 0.0}


def three(p):
    p = {k: v for k, v in p.items() if k != "s10"}
    return {**p, "s6": 0.0, "s8": 0.0, "s9": 1.0}


def mid_cutoff(rng, pos):
    """A cutoff between two consecutive distances, with a clear gap."""
    r = R.distances(pos)
    d = np.sort(r[np.triu_indices(len(r), 1)])
    gaps = [(a, b) for a, b in zip(d[:-1], d[1:]) if b - a > 1e-4]
    if not gaps:
        return None
    a, b = gaps[rng.randint(len(gaps))]
    f = rng.choice([0.5, 0.1, 0.9])
    return float(a + f * (b - a))


def scene(rng, n=None, spread=None):
    if n is None:
        n = int(rng.randint(3, 9))
        u = rng.rand()  # size-dependent paths
        if u < 0.03:
            n = int(rng.randint(15, 42))
        elif u > 0.995:
            n = int(rng.randint(42, 111))
    nums = gen.elements(rng, n)
    s = rng.choice([1.0, 1.3, 2.0]) if spread is None else spread
    for _ in range(30):
        pos = gen.grow(rng, nums) * s
        if gen.ok_distances(nums, pos, 0.55):
            break
    q = rng.normal(size=n) * 0.3
    return nums, pos, q


def ref2(nums, pos, q, p, kind, damping, cut, cn=None):
    r = R.energy(nums, pos, 0.0, two(p), kind=kind, q=q, damping=damping,
                 cutoff={"disp2": cut}, terms=("2",), cn=cn)
    return r


def ref3(nums, pos, p, kind, cut, api="dftd4", q=None):
    return R.energy(nums, pos, 0.0, {**p, "s9": 1.0}, kind=kind,
                    q=np.zeros(len(nums)) if q is None else q,
                    cutoff={"disp3": cut}, terms=ROUTES[api][0],
                    charge_dependent3=ROUTES[api][1])


def _enum(rng, mon):
    nums, pos, q = scene(rng)
    damping = str(rng.choice(["rational", "rational", "zero", "mzero", "op"]))
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng, damping)
    api = pick_api(rng, ("dftd4", "dftd4", "class", "exact"))
    for rep in range(2):
        c2, c3 = mid_cutoff(rng, pos), mid_cutoff(rng, pos)
        if c2 is None:
            return
        if rng.rand() < 0.3:
            c3 = c2
        dist = R.distances(pos)
        c = {"disp2": c2, "disp3": c3}
        tag = f"{kind} {damping} {api} disp2={c2:.3f} disp3={c3:.3f}"
        r2 = ref2(nums, pos, q, p, kind, damping, c2)
        r3 = ref3(nums, pos, p, kind, c3, api, q)
        if r2["ambiguous"] or r3["ambiguous"]:
            return
        full = ref2(nums, pos, q, p, kind, damping, 1e3)
        e = energy(mon, nums, pos, two(p), c, q, kind=kind, damping=damping,
                   api=api)
        mon.close("two_body", e, r2["e"], scale=full["scale"], rtol=1e-10,
                  atol=1e-16, detail=tag)
        e = energy(mon, nums, pos, three(p), c, q, kind=kind, damping=damping,
                   api=api)
        mon.close("three_body", e, r3["e"], rtol=1e-9, atol=1e-17,
                  scale=ref3(nums, pos, p, kind, 1e3, api, q)["scale"], detail=tag)
        npair = int((dist[np.triu_indices(len(nums), 1)] <= c2).sum())
        ntri = sum(max(dist[i, j], dist[i, k], dist[j, k]) <= c3
                   for i, j, k in itertools.combinations(range(len(nums)), 3))
        mon.event("pairs_in", npair)
        mon.event("pairs_out", len(nums) * (len(nums) - 1) // 2 - npair)
        mon.event("triples_in", ntri)
        mon.nontrivial(tag, nums.tolist(), npair, ntri)
    mon.sample({"numbers": nums.tolist(), "cutoffs": [c2, c3],
                "pairs_in": npair, "triples_in": ntri})


GEOM = [  # (positions in units, list of distances): exact arithmetic
    np.array([[0, 0, 0], [3, 0, 0], [0, 4, 0]], float),
    np.array([[0, 0, 0], [4, 0, 0], [9, 0, 0]], float),
    np.array([[0, 0, 0], [5, 0, 0], [0, 12, 0]], float),
    np.array([[0, 0, 0], [6, 0, 0], [0, 8, 0], [0, 0, 8]], float),
]


def _boundary(rng, mon):
    g = GEOM[rng.randint(len(GEOM))]
    s = float(rng.choice([1.0, 2.0, 4.0, 1.5]))
    pos = g * s
    n = len(pos)
    nums = rng.choice([1, 2, 6, 7, 8, 9, 10, 17, 18], n)
    if not gen.ok_distances(nums, pos, 0.5):
        nums[:] = 1
    pi = rng.permutation(n)
    nums, pos = nums[pi], pos[pi][:, rng.permutation(3)]
    q = rng.normal(size=n) * 0.2
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    dist = np.rint(R.distances(pos) * 64) / 64
    ds = sorted({float(d) for d in dist[np.triu_indices(n, 1)]
                 if abs(d - round(d * 2) / 2) < 1e-12
                 and abs(d ** 2 - round(d ** 2 * 4) / 4) < 1e-12})
    exact = R.distances(pos)
    ds = [d for d in ds if np.abs(exact - d).min() == 0]
    for dt in ("f64", "f32"):
        rt = 1e-9 if dt == "f64" else 2e-4
        for d in ds:
            up = {"disp2": d * (1 + 1e-3), "disp3": d * (1 + 1e-3)}
            at = {"disp2": d, "disp3": d}
            dn = {"disp2": d * (1 - 2e-6), "disp3": d * (1 - 2e-6)}
            for lab, pp in (("boundary2", two(p)), ("boundary3", three(p))):
                eu, ea, ed = (energy(mon, nums, pos, pp, c, q, DT[dt], kind)
                              for c in (up, at, dn))
                sc = max(float(eu.abs().max()), 1e-13)
                mon.close(lab, ea, eu, scale=sc, rtol=rt, atol=1e-16,
                          detail=f"distance equal to the cutoff {d} counts "
                                 f"({dt} {kind})")
                f = (lambda cc: ref2(nums, pos, q, p, kind, "rational", cc)
                     ["e"]) if lab == "boundary2" else (
                         lambda cc: ref3(nums, pos, p, kind, cc)["e"])
                mon.close(lab, ed, f(d * (1 - 2e-6)), scale=sc, rtol=rt,
                          atol=1e-16,
                          detail=f"distance above the cutoff {d} ({dt})")
                mon.nontrivial(lab, dt, d, nums.tolist(), kind)


def _default(rng, mon):
    """Default cutoffs: 60 (two-body), 40 (three-body)."""
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    nums = rng.choice([6, 8, 18, 55, 79, 36], 3)
    q = rng.normal(size=3) * 0.2
    u, v = gen._unit(rng), gen._unit(rng)
    args = [None, d4.Cutoff(), d4.Cutoff(dtype=torch.float64)]
    for d in (59.5, 59.999, 60.001, 61.0, 40.5):
        pos = np.array([[0, 0, 0], u * 5.0, u * d * (1 if rng.rand() < .5
                                                     else -1)])
        c = args[rng.randint(3)]
        r = ref2(nums, pos, q, p, kind, "rational", 60.0)
        if R.boundary_distance(pos, [60.0]) < 1e-6 or r["ambiguous"]:
            continue
        e = energy(mon, nums, pos, two(p), c, q, kind=kind)
        mon.close("default2", e, r["e"], rtol=1e-9, atol=1e-18,
                  detail=f"distance {d} {kind}")
        # observed for the outer atom alone: only far pairs
        mon.nontrivial("default2", d, nums.tolist(), kind)
    for d in (39.5, 39.999, 40.001, 41.0, 30.5):
        pos = np.array([[0, 0, 0], u * d, v * 8.0])
        if R.boundary_distance(pos, [40.0]) < 1e-6:
            continue
        c = args[rng.randint(3)]
        r = ref3(nums, pos, p, kind, 40.0)
        e = energy(mon, nums, pos, three(p), c, q, kind=kind)
        mon.close("default3", e, r["e"], rtol=1e-8, atol=1e-18,
                  scale=r["scale"], detail=f"distance {d} {kind}")
        mon.nontrivial("default3", d, nums.tolist(), kind)


def _independent(rng, mon):
    nums, pos, q = scene(rng)
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    base = {"disp2": 60.0, "disp3": 40.0, "cn_eeq": 25.0}
    small = mid_cutoff(rng, pos) or 5.0
    for name in ("disp2", "disp3", "cn_eeq"):
        alt = {**base, name: small}
        for lab, pp, qq, own in (
                ("two-body", two(p), q, {"disp2"}),
                ("two-body with model charges", two(p), None,
                 {"disp2", "cn_eeq"}),
                ("three-body", three(p), None, {"disp3"})):
            if name in own:
                continue
            a = energy(mon, nums, pos, pp, base, qq, kind=kind)
            b = energy(mon, nums, pos, pp, alt, qq, kind=kind)
            mon.close("independent", b, a, rtol=1e-12, atol=1e-18,
                      scale=float(a.abs().max()),
                      detail=f"{name} must not affect the {lab} term")
            mon.nontrivial(name, lab, nums.tolist(), small)
    # properties: only the charge cutoff matters, and not for the CN
    r0 = mon.call("get_properties", d4.get_properties, N(nums), T(pos),
                  cutoff=cutoff(base))
    rd = mon.call("get_properties", d4.get_properties, N(nums), T(pos))
    r1 = mon.call("get_properties", d4.get_properties, N(nums), T(pos),
                  cutoff=cutoff({**base, "disp2": small, "disp3": small}))
    r2 = mon.call("get_properties", d4.get_properties, N(nums), T(pos),
                  cutoff=cutoff({**base, "cn_eeq": small}))
    for lab, a, b, c, d in zip(("cn", "q", "c6", "alpha"), r0, r1, rd, r2):
        mon.close("independent", b, a, rtol=1e-12, atol=1e-14,
                  detail=f"disp2/disp3 must not affect {lab}")
        mon.close("independent", c, a, rtol=1e-12, atol=1e-14,
                  detail=f"default cutoffs: {lab}")
        if lab == "cn":
            mon.close("independent", d, a, rtol=1e-12, atol=1e-14,
                      detail="cn_eeq must not affect the D4 CN")


def _additive(rng, mon):
    kind = str(rng.choice(["d4", "d4s"]))
    damping = str(rng.choice(["rational", "rational", "zero", "op"]))
    p = gen.param(rng, damping)
    k = int(rng.choice([2, 2, 3]))
    frs = [scene(rng, n=int(rng.randint(1, 6)), spread=1.0) for _ in range(k)]
    style = str(rng.choice(["default", "small", "large"]))
    if style == "default":
        c, lim = None, 60.0
    elif style == "small":
        c = {"disp2": float(rng.choice([9.0, 15.0, 25.0])),
             "disp3": float(rng.choice([8.0, 12.0, 25.0]))}
        lim = 30.0
    else:
        c = {"disp2": 95.0, "disp3": 50.0}
        lim = 95.0
    for _ in range(20):
        parts, off = [], np.zeros(3)
        u = gen._unit(rng)
        for z, x, q in frs:
            parts.append(x + off)
            off = off + u * (lim + 12.0 + 2 * max(
                np.abs(f[1]).max(initial=0) for f in frs))
            u = gen._unit(rng) if rng.rand() < 0.5 else u
        ok = all(np.sqrt(((a[:, None] - b[None]) ** 2).sum(-1)).min() > lim + 1
                 for a, b in itertools.combinations(parts, 2))
        if ok:
            break
    else:
        return
    nums = np.concatenate([f[0] for f in frs])
    pos = np.concatenate(parts)
    q = np.concatenate([f[2] for f in frs])
    pi = rng.permutation(len(nums))
    e = energy(mon, nums[pi], pos[pi], p, c, q[pi], kind=kind,
               damping=damping, api=str(rng.choice(["dftd4", "class"])))
    e = e.numpy()[np.argsort(pi)]
    o = 0
    for (z, x, qq), xs in zip(frs, parts):
        a = energy(mon, z, x, p, c, qq, kind=kind, damping=damping).numpy()
        got = e[o:o + len(z)]
        o += len(z)
        mon.close("additive", got, a, scale=max(np.abs(a).max(), 1e-12),
                  rtol=1e-8, atol=1e-15,
                  detail=f"{kind} {damping} {style} fragments beyond {lim}")
        if np.abs(a).max() > 0:
            mon.nontrivial("additive", kind, damping, z.tolist(), style)


def _eeq(rng, mon):
    """Neighbours enter the charge model up to cn_eeq, inclusive."""
    nums, pos, _ = scene(rng, spread=1.0)
    ch = gen.charge(rng)
    c = mid_cutoff(rng, pos)
    if c is None:
        return
    for cut in (c, None):
        q, cn = R.eeq_charges(nums, pos, ch, 25.0 if cut is None else cut)
        if (cn < 1e-6).any() and cut is None:
            continue
        rt = 1e-6 if (cn < 1e-6).any() else 1e-9
        co = None if cut is None else cutoff({"cn_eeq": cut})
        r = mon.call("get_properties", d4.get_properties, N(nums), T(pos),
                     T(ch), cutoff=co)
        mon.close("charge_cutoff", r[1], q, rtol=rt, atol=rt,
                  detail=f"partial charges, cn_eeq={cut}")
        # the energy function uses the same charges
        p = gen.param(rng)
        for kind in ("d4", "d4s"):
            for c2 in (60.0, mid_cutoff(rng, pos)):
                cc = {} if cut is None else {"cn_eeq": cut}
                if c2 != 60.0:  # below, between and above the other cutoffs
                    cc["disp2"] = c2
                    cc["disp3"] = mid_cutoff(rng, pos)
                e = energy(mon, nums, pos, two(p), cc or None, None, kind=kind,
                           charge=ch, api=str(rng.choice(["dftd4", "class"])))
                ref = ref2(nums, pos, q, p, kind, "rational", c2)
                if ref["ambiguous"]:
                    continue
                full = ref2(nums, pos, q, p, kind, "rational", 60.0)
                mon.close("charge_cutoff", e, ref["e"], rtol=100 * rt,
                          scale=full["scale"],
                          detail=f"energy, cn_eeq={cut} disp2={c2}")
        mon.nontrivial("eeq", nums.tolist(), cut)
    # boundary: exactly representable distance 3-4-5
    z = rng.choice([3, 6, 11, 14, 19], 3)
    x = GEOM[0] * 1.0
    for d in (3.0, 4.0, 5.0):
        qs = {}
        for lab, cc in (("at", d), ("up", d * 1.001), ("dn", d * (1 - 1e-7))):
            qs[lab] = mon.call("get_properties", d4.get_properties, N(z), T(x),
                               cutoff=cutoff({"cn_eeq": cc}))[1]
        mon.close("boundary_eeq", qs["at"], qs["up"], rtol=1e-10, atol=1e-10,
                  detail=f"neighbour at the cutoff {d} counts")
        q0, _ = R.eeq_charges(z, x, 0.0, d * (1 - 1e-7))
        mon.close("boundary_eeq", qs["dn"], q0, rtol=1e-6, atol=1e-6,
                  detail=f"neighbour beyond the cutoff {d} does not count")


def _cn(rng, mon):
    """Cutoff.cn: documented as the cutoff of the D4 coordination number."""
    nums = np.array([6, 1, 1, 1, 1])
    pos = np.array([[0, 0, 0], [1.2, 1.2, 1.2], [-1.2, -1.2, 1.2],
                    [-1.2, 1.2, -1.2], [1.2, -1.2, -1.2]])
    q = np.zeros(5)
    p = gen.param(rng)
    e0 = energy(mon, nums, pos, two(p), d4.Cutoff(dtype=torch.float64), q)
    e1 = energy(mon, nums, pos, two(p), d4.Cutoff(cn=1.0, dtype=torch.float64),
                q)
    want = ref2(nums, pos, q, p, "d4", "rational", 60.0, cn=np.zeros(5))["e"]
    ignored = float((e1 - e0).abs().max()) < 1e-12 * float(e0.abs().max())
    mon.close("cn_cutoff", e1, want, rtol=1e-8,
              detail="CN cutoff of 1 Bohr: no neighbour counts",
              key="cutoff-cn-ignored" if ignored else None)


def _batch(rng, mon):
    from .c03 import layout

    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng)
    mols = [scene(rng, n=int(rng.randint(2, 6))) for _ in range(3)]
    c2 = mid_cutoff(rng, mols[0][1]) or 7.3
    c3 = mid_cutoff(rng, mols[1][1]) or 6.1
    if any(R.boundary_distance(m[1], [c2, c3, 30.0, 25.0]) < 1e-6
           for m in mols):
        return
    nums, pos, idx = layout(rng, [m[:2] for m in mols], "scattered", 1,
                            "random")
    q = np.zeros(nums.shape)
    for k, m in enumerate(mols):
        q[k, idx[k]] = m[2]
    for lab, pp in (("two_body", two(p)), ("three_body", three(p))):
        e = energy(mon, nums, pos, pp, {"disp2": c2, "disp3": c3}, q,
                   kind=kind, charge=np.zeros(3))
        for k, (z, x, qq) in enumerate(mols):
            r = ref2(z, x, qq, p, kind, "rational", c2) if lab == "two_body" \
                else ref3(z, x, p, kind, c3)
            if r["ambiguous"]:
                continue
            sc = (ref2(z, x, qq, p, kind, "rational", 1e3)
                  if lab == "two_body" else ref3(z, x, p, kind, 1e3))["scale"]
            mon.close(lab, e[k, idx[k]], r["e"], scale=sc, rtol=1e-9,
                      atol=1e-16, detail=f"batch {kind}")
            mon.nontrivial("batch", lab, z.tolist(), c2, c3)


def _lowlevel(rng, mon):
    """Pair matrix: entry by entry membership."""
    from tad_dftd4.dispersion.twobody import dispersion2

    nums, pos, q = scene(rng)
    p = gen.param(rng)
    m = R.Model(nums)
    if rng.rand() < 0.4:  # beyond the default
        pos = pos + np.linspace(0, 1, len(nums))[:, None] * np.array(
            [[30.0, 0.0, 90.0]]) * rng.uniform(0.5, 1.5)
    c6 = m.c6(m.weights(R.coordination(nums, pos), q))
    c2 = mid_cutoff(rng, pos)
    if c2 is None:
        return
    for cut in (c2, None, float(rng.choice([60.0, 61.0, 75.0, 100.0, 1e4]))):
        if R.boundary_distance(pos, [cut or 60.0, R.CN_CUT]) < 1e-6:
            continue
        got = mon.call("dispersion2", dispersion2, N(nums), T(pos), tparam(p),
                       T(c6), T(R.G["r4r2"][nums]),
                       cutoff=None if cut is None else T(cut), as_matrix=True)
        want = -R.two_body_matrix(nums, pos, c6, p,
                                  cutoff=60.0 if cut is None else cut)
        mon.close("pair_matrix", got, want, rtol=1e-10, atol=1e-18,
                  detail=f"cutoff={cut}")
        inside = want != 0
        mon.ok("pair_membership", bool(((got.numpy() != 0) == inside).all()),
               "pairs inside the cutoff")
        mon.nontrivial("pairs", nums.tolist(), cut)


def _special(rng, mon):
    """Cutoffs that switch a term off or do not limit it, in every form."""
    nums, pos, q = scene(rng)
    damping = str(rng.choice(["rational", "rational", "zero", "mzero", "op"]))
    kind = str(rng.choice(["d4", "d4s"]))
    p = gen.param(rng, damping)
    api = pick_api(rng, ("dftd4", "class", "manual", "exact"))
    far = rng.rand() < 0.4
    if far:  # beyond all defaults
        pos = pos + np.linspace(0, 1, len(nums))[:, None] * np.array(
            [[30.0, 0.0, 90.0]]) * rng.uniform(0.5, 1.5)
    for val in (0.0, float(np.inf), float(rng.choice([1e4, 1e6, 150])),
                float(rng.choice([0.5, 1e-6])), float(rng.randint(3, 12))):
        if R.boundary_distance(pos, [val, 25.0, R.CN_CUT]) < 1e-6:
            continue
        form = str(rng.choice(["float", "tensor", "f32"]))
        if val == int(val) if np.isfinite(val) else False:
            form = str(rng.choice(["float", "tensor", "int", "itensor", "f32"]))
        v = {"float": val, "tensor": T(val), "f32": T(val, torch.float32),
             "int": int(val) if np.isfinite(val) else val,
             "itensor": torch.tensor(int(val)) if np.isfinite(val) else val
             }[form]
        tag = f"{kind} {damping} {api} {form} {val} {nums.tolist()}"
        r2 = ref2(nums, pos, q, p, kind, damping, val)
        r3 = ref3(nums, pos, p, kind, val, api, q)
        if r2["ambiguous"] or r3["ambiguous"]:
            continue
        e = energy(mon, nums, pos, two(p), d4.Cutoff(
            disp2=v, dtype=torch.float64), q, kind=kind, damping=damping,
            api=api)
        full = ref2(nums, pos, q, p, kind, damping, 1e9)["scale"]
        mon.close("special", e, r2["e"], scale=full, rtol=1e-10, atol=1e-18,
                  detail="two-body cutoff " + tag)
        e = energy(mon, nums, pos, three(p), d4.Cutoff(
            disp3=v, dtype=torch.float64), q, kind=kind, damping=damping,
            api=api)
        full = ref3(nums, pos, p, kind, 1e9, api, q)["scale"]
        mon.close("special", e, r3["e"], scale=full, rtol=1e-9, atol=1e-20,
                  detail="three-body cutoff " + tag)
        want, cn = R.eeq_charges(nums, pos, 0.0, val)
        got = mon.call("get_properties", d4.get_properties, N(nums), T(pos),
                       0.0, d4.Cutoff(cn_eeq=v, dtype=torch.float64))[1]
        rt = 1e-6 if (cn < 1e-6).any() else 1e-9
        mon.close("special", got, want, rtol=rt, atol=rt,
                  detail="charge cutoff " + tag)
        mon.nontrivial("special", tag)
