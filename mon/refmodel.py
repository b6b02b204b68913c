"""Independent executable specification of DFT-D4 / DFT-D4S.

Plain numpy (float64), one molecule at a time, written from the published
equations, and deliberately not sharing structure with the code under test:
distances by direct differences, loops over reference systems, the charge model
through the bordered linear system, the Gaussian weights in log space, the
three-body angle term through explicit cosines and an explicit list of triples.

All element data come from the committed golden snapshot (mon/golden.npz).
"""
from __future__ import annotations

import itertools
import math
import os

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
G = dict(np.load(os.path.join(HERE, "golden.npz")))

MAXZ = 103
MAXZ_GFN2 = 86

K4, K5, K6 = 4.10451, 19.08857, 2.0 * 11.28174**2
KCN = 7.5
CN_CUT = 30.0
EEQ_CN_MAX = 8.0

DEFAULT_CUTOFF = {"disp2": 60.0, "disp3": 40.0, "cn_eeq": 25.0}

# frequency grid weights of the Casimir-Polder quadrature (trapezoidal rule on
# the 23 point grid of the D4 reference polarizabilities)
FREQ = np.array([
    0.000001, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.2, 1.4,
    1.6, 1.8, 2.0, 2.5, 3.0, 4.0, 5.0, 7.5, 10.0,
])


def trapezoid_weights():
    d = np.diff(FREQ)
    w = np.zeros(23)
    w[:-1] += 0.5 * d
    w[1:] += 0.5 * d
    return w


CPW = trapezoid_weights()

_erf = np.vectorize(math.erf, otypes=[float])


def distances(pos):
    pos = np.asarray(pos, dtype=float)
    d = pos[:, None, :] - pos[None, :, :]
    return np.sqrt((d * d).sum(-1))


def count_erf(r, r0, k=KCN):
    return 0.5 * (1.0 + _erf(-k * (r / r0 - 1.0)))


def coordination(numbers, pos, en_weight=True, cutoff=CN_CUT, cn_max=None):
    numbers = np.asarray(numbers)
    n = len(numbers)
    r = distances(pos)
    cn = np.zeros(n)
    for i in range(n):
        for j in range(n):
            if i == j or r[i, j] > cutoff:
                continue
            r0 = G["rcov"][numbers[i]] + G["rcov"][numbers[j]]
            c = 0.5 * (1.0 + math.erf(-KCN * (r[i, j] / r0 - 1.0)))
            if en_weight:
                de = abs(G["en"][numbers[i]] - G["en"][numbers[j]])
                c *= K4 * math.exp(-((de + K5) ** 2) / K6)
            cn[i] += c
    if cn_max is not None:
        cn = np.log1p(math.exp(cn_max)) - np.log1p(np.exp(cn_max - cn))
    return cn


def eeq_charges(numbers, pos, charge, cutoff=25.0, eps=np.finfo(float).eps):
    numbers = np.asarray(numbers)
    n = len(numbers)
    cn = coordination(numbers, pos, en_weight=False, cutoff=cutoff,
                      cn_max=EEQ_CN_MAX)
    r = distances(pos)
    rad = G["eeq_rad"][numbers]
    a = np.zeros((n + 1, n + 1))
    b = np.zeros(n + 1)
    for i in range(n):
        a[i, i] = G["eeq_eta"][numbers[i]] + math.sqrt(2.0 / math.pi) / rad[i]
        for j in range(n):
            if i != j:
                g = 1.0 / math.sqrt(rad[i] ** 2 + rad[j] ** 2)
                a[i, j] = math.erf(g * r[i, j]) / r[i, j]
        a[i, n] = a[n, i] = 1.0
        b[i] = (-G["eeq_chi"][numbers[i]]
                + G["eeq_kcn"][numbers[i]] * math.sqrt(max(cn[i], eps)))
    b[n] = float(charge)
    q = np.linalg.solve(a, b)[:n]
    return q, cn


def eeq_ok(numbers, pos, margin=1e-3):
    """The charge equilibration matrix is positive definite (the dependency
    uses a Cholesky factorisation)."""
    numbers = np.asarray(numbers)
    n = len(numbers)
    r = distances(pos)
    rad = G["eeq_rad"][numbers]
    g = 1 / np.sqrt(rad[:, None] ** 2 + rad[None] ** 2)
    r[np.arange(n), np.arange(n)] = 1.0
    if (r <= 0).any():
        return False
    a = _erf(g * r) / r
    a[np.arange(n), np.arange(n)] = (
        G["eeq_eta"][numbers] + math.sqrt(2 / math.pi) / rad - margin)
    try:
        np.linalg.cholesky(a)
    except np.linalg.LinAlgError:
        return False
    return True


def zeta(ga, gam, qref, qmod):
    """Charge scaling function; arrays allowed."""
    qref, qmod, gam = np.broadcast_arrays(
        np.asarray(qref, float), np.asarray(qmod, float), np.asarray(gam, float))
    out = np.full(qmod.shape, math.exp(ga))
    m = qmod > 0
    with np.errstate(over="ignore", under="ignore"):
        out[m] = np.exp(ga * (1.0 - np.exp(gam[m] * (1.0 - qref[m] / qmod[m]))))
    return out


_ALPHA = {}


def ref_alpha(z, ga=3.0, gc=2.0, ref="eeq"):
    """Reference polarizabilities alpha_r(iw) of element z: (7, 23)."""
    key = (int(z), float(ga), float(gc), ref)
    if key in _ALPHA:
        return _ALPHA[key]
    refsq = G["clsh" if ref == "eeq" else "refh_gfn2"]
    out = np.zeros((7, 23))
    for r in range(7):
        s = int(G["refsys"][z, r])
        a = G["refalpha"][z, r].copy()
        if s > 0:
            zt = zeta(ga, G["gam"][s] * gc, G["zeff"][s],
                      refsq[z, r] + G["zeff"][s])
            a = a - G["refscount"][z, r] * G["secscale"][s, 0] * \
                G["secalpha"][s] * float(zt)
        out[r] = np.maximum(G["refascale"][z, r] * a, 0.0)
    if len(_ALPHA) > 4000:
        _ALPHA.clear()
    _ALPHA[key] = out
    return out


def nref(z):
    return G["refc"][z] > 0


def gaussian_weights(z, cn, wf):
    """Normalised Gaussian weights of the references of element z at cn.

    Evaluated in log space. Returns (weights(7), lognorm): lognorm is the log of
    the raw normalisation constant; the code under test evaluates it in double
    precision and falls back to the references of largest CN when it underflows.
    """
    have = nref(z)
    w = np.zeros(7)
    logs = []
    for r in range(7):
        if not have[r]:
            continue
        d2 = (float(cn) - G["refcovcn"][z, r]) ** 2
        for i in range(1, int(G["refc"][z, r]) + 1):
            logs.append((r, -i * wf * d2))
    if not logs:
        return w, -np.inf
    m = max(v for _, v in logs)
    s = 0.0
    for r, v in logs:
        w[r] += math.exp(v - m)
        s += math.exp(v - m)
    w /= s
    return w, m + math.log(s)


UNDERFLOW_LO = math.log(1e-300) - 8.0  # certainly below: fallback
UNDERFLOW_HI = math.log(1e-300) + 8.0  # certainly above: normal path


def fallback_weights(z):
    have = nref(z)
    cnmax = G["refcovcn"][z].max()
    return np.where(have & (G["refcovcn"][z] == cnmax), 1.0, 0.0)


def atom_weights(z, cn, q, wf, ga=3.0, gc=2.0, ref="eeq"):
    """zeta * gw for one atom. Also returns whether the underflow regime makes
    the value ambiguous (fallback vs. normal differ)."""
    gw, ln = gaussian_weights(z, cn, wf)
    amb = False
    if ln < UNDERFLOW_HI:
        fb = fallback_weights(z)
        if ln < -760.0:  # certain: below the smallest denormal
            gw = fb
        else:
            amb = bool(np.abs(fb - gw).max() > 1e-12)
            if ln < UNDERFLOW_LO:
                gw = fb
    refq = G["clsq" if ref == "eeq" else "refq_gfn2"][z]
    ze = G["zeff"][z]
    zt = zeta(ga, G["gam"][z] * gc, refq + ze, float(q) + ze)
    return np.where(nref(z), zt * gw, 0.0), amb


class Model:
    """D4 or D4S model of one molecule."""

    def __init__(self, numbers, kind="d4", ga=3.0, gc=2.0, wf=None, ref="eeq"):
        self.numbers = np.asarray(numbers)
        self.kind = kind
        self.ga, self.gc, self.ref = ga, gc, ref
        n = len(self.numbers)
        if kind == "d4":
            self.wf = np.full((n, n), 6.0 if wf is None else float(wf))
        elif wf is None:
            self.wf = G["wfpair"][self.numbers[:, None], self.numbers[None, :]]
        else:
            self.wf = np.broadcast_to(np.asarray(wf, float), (n, n))
        self.alpha = np.stack(
            [ref_alpha(z, ga, gc, ref) for z in self.numbers]) if n else \
            np.zeros((0, 7, 23))
        self.ambiguous = False

    def weights(self, cn, q):
        """d4: (n, 7); d4s: (n_partner, n, 7)."""
        n = len(self.numbers)
        q = np.zeros(n) if q is None else q
        cn = np.zeros(n) if cn is None else cn
        if self.kind == "d4":
            out = np.zeros((n, 7))
            for i, z in enumerate(self.numbers):
                out[i], amb = atom_weights(z, cn[i], q[i], self.wf[i, i],
                                           self.ga, self.gc, self.ref)
                self.ambiguous |= amb
            return out
        out = np.zeros((n, n, 7))
        memo = {}
        for j in range(n):
            for i, z in enumerate(self.numbers):
                k = (i, float(self.wf[i, j]))
                if k not in memo:
                    memo[k] = atom_weights(z, cn[i], q[i], self.wf[i, j],
                                           self.ga, self.gc, self.ref)
                out[j, i], amb = memo[k]
                self.ambiguous |= amb
        return out

    def c6(self, w):
        if self.kind == "d4":
            a = np.einsum("ir,irw->iw", w, self.alpha)
            return 3.0 / math.pi * np.einsum("iw,jw,w->ij", a, a, CPW)
        # a[i, j] polarizability of i as seen by partner j
        a = np.einsum("jir,irw->ijw", w, self.alpha)
        return 3.0 / math.pi * np.einsum("ijw,jiw,w->ij", a, a, CPW)

    def pols(self, w):
        """(n, 23)"""
        if self.kind == "d4":
            return np.einsum("ir,irw->iw", w, self.alpha)
        return np.einsum("jir,irw->iw", w, self.alpha) / len(self.numbers)


# damping functions f_n(R) / R^n -------------------------------------------------


def damp(name, order, r, qq, rvdw, p):
    """t_n = f_n / R^n for one pair (scalars or arrays)."""
    if name == "rational":
        r0 = p["a1"] * np.sqrt(qq) + p["a2"]
        return 1.0 / (r**order + r0**order)
    if name == "zero":
        if order == 6:
            rs, al = p.get("rs6"), p["alp"]
        else:
            rs, al = p.get("rs8"), p["alp"] + 2.0
        return 1.0 / (1.0 + 6.0 * (rs * rvdw / r) ** al) / r**order
    if name == "mzero":
        if order == 6:
            rs, al = p.get("rs6"), p["alp"]
        else:
            rs, al = p.get("rs8"), p["alp"] + 2.0
        t = (r / (rs * rvdw) + p["bet"] * rvdw) ** (-al)
        return 1.0 / (1.0 + 6.0 * t) / r**order
    if name == "op":
        r0 = p["a1"] * np.sqrt(qq) + p["a2"]
        b = p["bet"]
        return r**b / (r ** (b + order) + r0 ** (b + order))
    raise ValueError(name)


def two_body_matrix(numbers, pos, c6, p, damping="rational", cutoff=60.0,
                    r4r2=None, rvdw=None):
    """Pair matrix of (positive) -E_ij; the energy of atom i is -1/2 sum_j."""
    numbers = np.asarray(numbers)
    n = len(numbers)
    r = distances(pos)
    r4 = G["r4r2"][numbers] if r4r2 is None else np.asarray(r4r2)
    if rvdw is None:
        rvdw = G["vdw"][numbers[:, None], numbers[None, :]]
    out = np.zeros((n, n))
    s6 = p.get("s6", 1.0)
    s8 = p.get("s8", 1.0)
    keep = r <= cutoff
    np.fill_diagonal(keep, False)
    i, j = np.nonzero(keep)
    if len(i) == 0:
        return out
    rr, rv, cc = r[i, j], np.asarray(rvdw)[i, j], c6[i, j]
    qq = 3.0 * r4[i] * r4[j]
    e = s6 * cc * damp(damping, 6, rr, qq, rv, p)
    e += s8 * cc * qq * damp(damping, 8, rr, qq, rv, p)
    if "s10" in p:
        e += p["s10"] * cc * qq * qq * 49.0 / 40.0 * damp(
            damping, 10, rr, qq, rv, p)
    out[i, j] = e
    return out


def atm(numbers, pos, c9, radii, p, cutoff=40.0):
    """Atom-resolved ATM energy: every triple contributes a third to each of its
    atoms. c9: callable (i, j, k) or (n,n,n) array. Also returns the sum of the
    absolute contributions per atom."""
    n = len(numbers)
    r = distances(pos)
    e = np.zeros(n)
    ab = np.zeros(n)
    s9 = p.get("s9", 1.0)
    alp = p.get("alp", 16.0)
    if n < 3:
        return e, ab
    idx = np.array(list(itertools.combinations(range(n), 3)))
    i, j, k = idx.T
    a, b, c = r[i, j], r[i, k], r[j, k]
    keep = (a <= cutoff) & (b <= cutoff) & (c <= cutoff)
    i, j, k, a, b, c = i[keep], j[keep], k[keep], a[keep], b[keep], c[keep]
    if len(i) == 0:
        return e, ab
    ca = (a * a + b * b - c * c) / (2 * a * b)
    cb = (a * a + c * c - b * b) / (2 * a * c)
    cc = (b * b + c * c - a * a) / (2 * b * c)
    ang = (3.0 * ca * cb * cc + 1.0) / (a * b * c) ** 3
    r0 = radii[i, j] * radii[i, k] * radii[j, k]
    f = 1.0 / (1.0 + 6.0 * (r0 / (a * b * c)) ** (alp / 3.0))
    v = s9 * c9[i, j, k] * ang * f / 3.0
    # magnitude of the two terms that may cancel
    m = np.abs(s9 * c9[i, j, k] * f / 3.0) * (
        3.0 * np.abs(ca * cb * cc) + 1.0) / (a * b * c) ** 3
    for t in (i, j, k):
        np.add.at(e, t, v)
        np.add.at(ab, t, m)
    return e, ab


def c9_approx(c6):
    return np.sqrt(np.abs(
        c6[:, :, None] * c6[:, None, :] * c6[None, :, :]))


def c9_exact(pols):
    return 3.0 / math.pi * np.einsum("iw,jw,kw,w->ijk", pols, pols, pols, CPW)


def bj_radii(numbers, p, r4r2=None):
    r4 = G["r4r2"][np.asarray(numbers)] if r4r2 is None else np.asarray(r4r2)
    return p.get("a1", 0.4) * np.sqrt(3.0 * np.outer(r4, r4)) + p.get("a2", 5.0)


def energy(numbers, pos, charge, p, *, kind="d4", q=None, damping="rational",
           cutoff=None, r4r2=None, rvdw=None, ga=3.0, gc=2.0, wf=None,
           ref="eeq", cn=None, parts=False, terms=("2", "atm"),
           charge_dependent=True, charge_dependent3=False):
    """Atom-resolved dispersion energy of one molecule and its scale.

    Returns dict(e, scale, cn, q, c6, ...).
    terms: "2" two-body, "atm" approximate C9 + BJ radii, "xatm" exact C9,
    "d3atm" approximate C9 + rs9 * van der Waals radii
    """
    numbers = np.asarray(numbers)
    n = len(numbers)
    cut = dict(DEFAULT_CUTOFF)
    cut.update(cutoff or {})
    if cn is None:
        cn = coordination(numbers, pos)
    cn_eeq = None
    need_q = ("2" in terms and charge_dependent) or charge_dependent3
    if q is None and need_q:
        q, cn_eeq = eeq_charges(numbers, pos, charge, cut["cn_eeq"])
    m = Model(numbers, kind, ga, gc, wf, ref)
    e = np.zeros(n)
    sc = np.zeros(n)
    out = {"cn": cn, "q": q}
    if "2" in terms:
        w = m.weights(cn, q if charge_dependent else None)
        c6 = m.c6(w)
        e2 = two_body_matrix(numbers, pos, c6, p, damping, cut["disp2"], r4r2,
                             rvdw)
        e = e - 0.5 * e2.sum(-1)
        sc = sc + 0.5 * np.abs(e2).sum(-1)
        out.update(c6=c6, e2=e2)
    for t in terms:
        if t == "2":
            continue
        w0 = m.weights(cn, q if charge_dependent3 else None)
        if t == "xatm":
            c9 = c9_exact(m.pols(w0))
        else:
            c9 = c9_approx(m.c6(w0))
        if t == "d3atm":
            rv = G["vdw"][numbers[:, None], numbers[None, :]] \
                if rvdw is None else np.asarray(rvdw)
            rad = p.get("rs9", 1.0) * rv
        else:
            rad = bj_radii(numbers, p, r4r2)
        e3, ab = atm(numbers, pos, c9, rad, p, cut["disp3"])
        if (c9 < 1e-6).any():
            # square roots of (almost) vanishing coefficients carry an error of
            # sqrt(eps)
            ab = atm(numbers, pos, np.where(c9 < 1e-6, 200.0, c9), rad, p,
                     cut["disp3"])[1]
        e = e + e3
        sc = sc + ab
        out["e3"] = e3
    out.update(e=e, scale=sc, ambiguous=m.ambiguous,
               tiny_cn=bool(cn_eeq is not None and (cn_eeq < 1e-6).any()),
               model=m)
    return out


def boundary_distance(pos, cuts):
    """Smallest distance of any interatomic distance to any of the cutoffs."""
    r = distances(pos)
    iu = np.triu_indices(len(r), 1)
    d = r[iu]
    if d.size == 0:
        return np.inf
    return min(np.abs(d - c).min() for c in cuts)
