"""C11: functional parameters are looked up faithfully."""
from __future__ import annotations

import copy
import threading

import numpy as np
import torch

from .. import gen, refmodel as R
from ..sut import N, T, d4

RULE = (
    "Every (method, functional, variant) of the shipped database, several letter "
    "cases each, with and without naming the variant and asking for the "
    "reference; random histories of lookups in which the caller mutates, empties "
    "or feeds the returned dictionaries into energy evaluations between lookups; "
    "near-miss names, variants of other functionals and methods; concurrent "
    "lookups. Observed: every returned dictionary against the golden copy of "
    "the database, its identity, the outcome of invalid lookups, energies from "
    "looked-up parameters, the values held by the parameter classes and their "
    "refusal of missing ones. Non-trivial: each distinct (method, functional, "
    "variant, spelling) and each history step after a mutation."
)
ASSUME = [
    "method and variant names are lower-case identifiers; letter case is free "
    "for functional names only (documented)",
    "the published database is the golden snapshot of d3.toml / d4.toml",
]
MIN = {"near": 100, "entry": 400, "default_variant": 250, "keep_doi": 300, "no_doi": 400,
       "fresh": 400, "history": 2000, "mutations": 800, "unknown": 600,
       "energy": 30, "threads": 8, "enum": 100, "default_entry": 8,
       "class_values": 100, "class_required": 100}


def cases(tier, seed):
    out = []
    for m in sorted(gen.PARAMS):
        names = sorted(gen.PARAMS[m]["parameter"])
        for i in range(0, len(names), 12):
            out.append({"kind": "entries", "m": m, "lo": i, "seed": seed})
            out.append({"kind": "near", "m": m, "lo": i, "seed": seed})
    k = {"quick": 12, "thorough": 100}[tier]
    out += [{"kind": "history", "i": i, "seed": seed} for i in range(40 * k)]
    out += [{"kind": "unknown", "i": i, "seed": seed} for i in range(16 * k)]
    out += [{"kind": "energy", "i": i, "seed": seed} for i in range(40 * k)]
    out += [{"kind": "threads", "i": i, "seed": seed} for i in range(8 * k)]
    out += [{"kind": "classes", "i": i, "seed": seed} for i in range(2 * k)]
    return out


def run(case, mon):
    rng = gen.rs("c11", *[case[k] for k in sorted(case)])
    {"entries": _entries, "near": _near, "history": _history, "unknown": _unknown,
     "energy": _energy, "threads": _threads, "classes": _classes}[case["kind"]](rng, mon, case)


def expected(m, f, v, doi):
    """None: must raise."""
    tab = gen.PARAMS[m]
    dv = tab["default"][m][0]
    if f in (None, "default"):
        sec = tab["default"]["parameter"][m]
        if v is not None and v not in tab["default"][m]:
            return None
    else:
        if f.casefold() not in tab["parameter"]:
            return None
        sec = tab["parameter"][f.casefold()].get(m, {})
    blk = sec.get(dv if v is None else v)
    if blk is None:
        return None
    return {k: x for k, x in blk.items() if doi or k != "doi"}


def spell(rng, f, k):
    if k == 0:
        return f
    if k == 1:
        return f.upper()
    if k == 2:
        return f.title()
    return "".join(c.upper() if rng.rand() < 0.5 else c for c in f)


def lookup(mon, m, f, v, doi, named=True):
    kw = {"method": m, "functional": f}
    if named or v is not None:
        kw["variant"] = v
    if doi is not None:
        kw["keep_doi"] = doi
    return mon.call("get_params", d4.get_params, **kw)


def same(mon, kind, got, want, tag):
    g = dict(got)
    ok = set(g) == set(want) and all(
        type(g[k]) in (float, int, str) and g[k] == want[k] for k in want)
    return mon.ok(kind, ok, lambda: f"{tag}: got {g} want {want}")


def _entries(rng, mon, case):
    from tad_dftd4.damping.parameters.base import DispersionMethod

    m = case["m"]
    names = sorted(gen.PARAMS[m]["parameter"])[case["lo"]:case["lo"] + 12]
    for f in names:
        variants = gen.PARAMS[m]["parameter"][f].get(m, {})
        dv = gen.PARAMS[m]["default"][m][0]
        for v in variants:
            for k in range(4):
                s = spell(rng, f, k)
                tag = f"{m}/{s}/{v}"
                mon.nontrivial(tag)
                a = lookup(mon, m, s, v, None)
                same(mon, "entry", a, expected(m, f, v, False), tag)
                mon.ok("no_doi", "doi" not in a, tag)
                b = lookup(mon, m, s, v, True)
                same(mon, "keep_doi", b, expected(m, f, v, True), tag)
                c = lookup(mon, m, s, v, False)
                mon.ok("fresh", a is not b and a is not c and b is not c, tag)
                same(mon, "entry", c, expected(m, f, v, False), tag)
                if k == 0:
                    mon.event("enum")
                    e = mon.call("get_params", d4.get_params,
                                 method=DispersionMethod(m), functional=s,
                                 variant=v)
                    same(mon, "entry", e, expected(m, f, v, False),
                         "enum " + tag)
        if dv in variants:
            for named in (True, False):
                got = lookup(mon, m, spell(rng, f, 3), None, None, named)
                same(mon, "default_variant", got, expected(m, f, dv, False),
                     f"{m}/{f}/default")
        else:
            _must_raise(mon, m, f, None, "no default variant")
    if case["lo"] == 0:
        for f in (None, "default"):
            for v in [None] + list(gen.PARAMS[m]["default"][m]):
                for doi in (True, False):
                    want = expected(m, f, v, doi)
                    if want is not None:
                        same(mon, "default_entry", lookup(mon, m, f, v, doi),
                             want, f"{m}/{f}/{v}")
    mon.sample({"method": m, "functionals": names[:3]})


def _must_raise(mon, m, f, v, why):
    mon.checks["unknown"] += 1
    try:
        got = d4.get_params(method=m, functional=f, variant=v)
    except Exception:  # noqa: BLE001
        return
    mon.fail("unknown", f"{why}: get_params({m!r}, {f!r}, {v!r}) returned "
                        f"{dict(got)}")


def _any(rng, m=None):
    m = m or str(rng.choice(sorted(gen.PARAMS)))
    tab = gen.PARAMS[m]["parameter"]
    f = sorted(tab)[rng.randint(len(tab))]
    vs = sorted(tab[f].get(m, {}))
    return m, f, vs[rng.randint(len(vs))]


def _history(rng, mon, case):
    """Lookups and mutations of earlier results, checked at every step."""
    pool = [_any(rng) for _ in range(5)]
    held = []
    dirty = 0
    for step in range(60):
        m, f, v = pool[rng.randint(len(pool))]
        doi = bool(rng.rand() < 0.4)
        got = lookup(mon, m, spell(rng, f, int(rng.randint(4))), v, doi)
        same(mon, "history", got, expected(m, f, v, doi),
             f"step {step} after {dirty} mutations {m}/{f}/{v}")
        if dirty:
            mon.nontrivial(case["i"], case["seed"], step)
        if any(got is h for h, _ in held):
            mon.fail("fresh", f"step {step}: a dictionary handed out before "
                              f"is returned again ({m}/{f}/{v})")
        held.append((got, copy.deepcopy(dict(got))))
        # earlier results do not change under the caller's feet
        k = rng.randint(len(held))
        h, snap = held[k]
        mon.ok("stable", dict(h) == snap, f"step {step}: result {k} changed")
        k = rng.randint(len(held))
        h = held[k][0]
        what = rng.randint(6)
        if what == 0:
            h.clear()
        elif what == 1:
            h["s8"] = -99.0
            h["s9"] = 0.0
        elif what == 2 and h:
            h.pop(sorted(h)[0])
        elif what == 3:
            for key in list(h):
                if not isinstance(h[key], str):
                    h[key] = torch.tensor(3.0, requires_grad=True)
        elif what == 4:
            try:
                d4.get_params(method=m, functional=f + "~", variant=v)
            except Exception:  # noqa: BLE001
                pass
            continue
        else:
            continue
        held[k] = (h, dict(h))
        dirty += 1
        mon.event("mutations")


def _unknown(rng, mon, case):
    for m in sorted(gen.PARAMS):
        tab = gen.PARAMS[m]["parameter"]
        for _ in range(12):
            _, f, v = _any(rng, m)
            cand = [f + "x", "x" + f, f[:-1], f[1:], f + " ", " " + f, f + "-",
                    f + "-d4", f.replace("b", "d"), "", "no-such", f + f,
                    f + "_"]
            s = cand[rng.randint(len(cand))]
            if expected(m, s, v, False) is None:
                _must_raise(mon, m, s, v, "unknown functional")
                if rng.rand() < 0.5 and expected(m, s, None, False) is None:
                    _must_raise(mon, m, s, None, "unknown functional")
            allv = sorted({w for b in tab.values() for w in b.get(m, {})})
            o = "d4" if m == "d3" else "d3"
            allv += sorted({w for b in gen.PARAMS[o]["parameter"].values()
                            for w in b.get(o, {})})
            allv += [v + "x", v[:-1], "", v + " ", "reference", "doi", "bj-eeq"]
            w = allv[rng.randint(len(allv))]
            if expected(m, f, w, False) is None:
                _must_raise(mon, m, f, w, "variant this functional lacks")
            if expected(m, None, w, False) is None:
                _must_raise(mon, m, None, w, "default variant unknown")
            bad = ["d2", "d5", "d4s", "", "xdm", None][rng.randint(6)]
            _must_raise(mon, bad, f, v, "unknown method")
            # functionals of the other method
            _, g, u = _any(rng, o)
            if expected(m, g, u, False) is None:
                _must_raise(mon, m, g, u, "entry of the other method")


def _near(rng, mon, case):
    """All abbreviations and close misspellings of some names."""
    m = case["m"]
    names = sorted(gen.PARAMS[m]["parameter"])[case["lo"]:case["lo"] + 12]
    for f in names:
        cand = {f[:i] for i in range(len(f))} | {f[i:] for i in range(len(f))}
        cand |= {f[:i] + f[i + 1:] for i in range(len(f))}
        cand |= {f[:i] + c + f[i:] for i in range(len(f) + 1) for c in "-_ 0"}
        cand |= {f.replace("-", c) for c in " _"} | {f.replace("0", "o")}
        cand |= {"d4-" + f, f + "-d3", f + "/def2", f + "\n", "\t" + f, f"'{f}'"}
        for s in sorted(cand):
            if expected(m, s, None, False) is None:
                _must_raise(mon, m, s, None, "unknown functional")
        mon.event("near")


def _energy(rng, mon, case):
    """Looked-up parameters go straight into the energy function."""
    z, x, _ = gen.molecule(rng, nmax=6, pool="organic")
    for _ in range(3):
        m, f, v = _any(rng, "d4")
        x = x * 1.0000001
        p = lookup(mon, m, spell(rng, f, 3), v, False)
        want = R.energy(z, x, 0.0, expected(m, f, v, False))
        e = mon.call("dftd4", d4.dftd4, N(z), T(x), 0, p)
        mon.close("energy", e, want["e"], scale=want["scale"] + 1e-30,
                  rtol=1e-6 if want["tiny_cn"] else 1e-8, atol=1e-14,
                  detail=f"{f}/{v}")
        p2 = lookup(mon, m, f, v, True)
        keep = dict(p2)
        e2 = mon.call("dftd4:doi", d4.dftd4, N(z), T(x), 0, p2)
        mon.close("energy", e2, e, rtol=1e-12, atol=1e-300,
                  detail=f"with reference {f}/{v}")
        mon.ok("unchanged", dict(p2) == keep and dict(p) == expected(
            m, f, v, False), f"{f}/{v} changed by the evaluation")
        mon.nontrivial(f, v, z.tolist())


def _threads(rng, mon, case):
    jobs = [[_any(rng) for _ in range(60)] for _ in range(6)]
    out = [[] for _ in jobs]
    bar = threading.Barrier(len(jobs))

    def work(k):
        bar.wait()
        for m, f, v in jobs[k]:
            try:
                p = d4.get_params(method=m, functional=f.upper(), variant=v,
                                  keep_doi=bool(len(out[k]) % 2))
                snap = dict(p)
                p.clear()
                out[k].append(snap)
            except Exception as e:  # noqa: BLE001
                out[k].append(e)

    import sys

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(k,))
              for k in range(len(jobs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.checks["threads"] += 1
    for js, rs in zip(jobs, out):
        for n, ((m, f, v), got) in enumerate(zip(js, rs)):
            want = expected(m, f, v, bool(n % 2))
            if isinstance(got, Exception) or got != want:
                mon.fail("threads", f"{m}/{f}/{v}: {got!r} want {want}")
                return
    mon.nontrivial("threads", case["i"], case["seed"])


CLASSES = {
    "bj": (("a1", "a2"), ()),
    "bj-eeq-atm": (("a1", "a2"), ()),
    "zero": (("alp", "rs6", "rs8"), ("rs9", "bet")),
    "mzero": (("alp", "rs6", "rs8", "bet"), ("rs9",)),
    "optimizedpower": (("a1", "a2", "bet"), ()),
}


def _classes(rng, mon, case):
    """Parameter classes: values given are kept, required ones cannot be omitted."""
    from tad_dftd4.damping import PARAM_MODELS, Variant

    for v, (req, opt) in CLASSES.items():
        cls = PARAM_MODELS[Variant(v)]
        full = {k: float(rng.randn()) for k in req + opt + ("s6", "s8", "s10")}
        keep = {k: x for k, x in full.items() if k in req or rng.rand() < 0.6}
        mon.event("class")
        obj = cls(**keep)
        want = {"s6": 1.0, "s8": 1.0, "s10": 0.0, **keep}
        for k, x in want.items():
            mon.ok("class_values", getattr(obj, k) == x,
                      f"{cls.__name__}({keep}).{k} is {getattr(obj, k)}, expected {x}")
        mon.nontrivial("class", v, sorted(keep.items()))
        for k in req:
            part = {n: x for n, x in keep.items() if n != k}
            try:
                cls(**part)
                ok = False
            except Exception:
                ok = True
            mon.ok("class_required", ok,
                      f"{cls.__name__} was built without the required {k}")
