"""Workload generators (numpy only, every choice from the given RandomState)."""
from __future__ import annotations

import json
import os

import numpy as np

from .refmodel import G, MAXZ, distances, eeq_ok

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "golden_params.json")) as fp:
    PARAMS = json.load(fp)

ORGANIC = [1, 1, 1, 6, 6, 7, 8, 9, 14, 15, 16, 17]
D4_FUNCTIONALS = sorted(PARAMS["d4"]["parameter"])


def rs(*key):
    """Random state from a tuple of ints / strings (stable across runs)."""
    import hashlib

    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def elements(rng, n, pool=None):
    if pool is None:
        pool = rng.choice(["organic", "all", "mixed", "heavy", "light"],
                          p=[0.3, 0.3, 0.2, 0.1, 0.1])
    if isinstance(pool, str):
        if pool == "organic":
            return rng.choice(ORGANIC, n)
        if pool == "all":
            return rng.randint(1, MAXZ + 1, n)
        if pool == "heavy":
            return rng.randint(55, MAXZ + 1, n)
        if pool == "light":
            return rng.randint(1, 19, n)
        if pool == "mixed":
            z = rng.choice(ORGANIC, n)
            m = rng.rand(n) < 0.4
            z[m] = rng.randint(1, MAXZ + 1, m.sum())
            return z
    return rng.choice(np.asarray(pool), n)


def min_sep(z1, z2, f=0.6):
    return f * (G["rcov"][z1] + G["rcov"][z2])


def ok_distances(numbers, pos, f=0.6):
    r = distances(pos)
    for i in range(len(numbers)):
        for j in range(i):
            if r[i, j] < min_sep(numbers[i], numbers[j], f):
                return False
    return eeq_ok(numbers, pos, 5e-3)


def settle(numbers, pos):
    """Widen an arrangement until the charge model has a solution."""
    for _ in range(60):
        if eeq_ok(numbers, pos, 5e-3):
            break
        pos = pos * 1.03
    return pos


def _unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def grow(rng, numbers, lo=0.68, hi=0.95, loose=0.15):
    """Bonded cluster: every atom is attached to a random earlier one."""
    n = len(numbers)
    pos = np.zeros((n, 3))
    for i in range(1, n):
        for attempt in range(400):
            j = rng.randint(0, i)
            f = rng.uniform(lo, hi)
            if rng.rand() < loose:
                f = rng.uniform(1.0, 2.2)
            f *= 1.0 + attempt / 200.0
            p = pos[j] + _unit(rng) * f * (
                G["rcov"][numbers[i]] + G["rcov"][numbers[j]])
            d = np.sqrt(((pos[:i] - p) ** 2).sum(-1))
            if all(d[k] >= min_sep(numbers[i], numbers[k])
                   for k in range(i)):
                pos[i] = p
                break
        else:
            pos[i] = pos[:i].max(0) + 4.0 + 2 * G["rcov"][numbers[i]]
    return settle(numbers, pos - pos.mean(0))


def lattice(rng, numbers, jitter=0.05):
    n = len(numbers)
    m = int(np.ceil(n ** (1 / 3)))
    grid = np.array([(i, j, k) for i in range(m) for j in range(m)
                     for k in range(m)], float)[:n]
    a = rng.uniform(0.75, 1.1) * 2 * max(G["rcov"][z] for z in numbers)
    pos = grid * a + rng.normal(size=(n, 3)) * jitter * a
    return settle(numbers, pos - pos.mean(0))


def linear(rng, numbers):
    pos = np.zeros((len(numbers), 3))
    u = _unit(rng)
    x = 0.0
    for i in range(1, len(numbers)):
        x += rng.uniform(0.75, 1.3) * (
            G["rcov"][numbers[i]] + G["rcov"][numbers[i - 1]])
        pos[i] = u * x
    return settle(numbers, pos - pos.mean(0))


def fragments(rng, numbers, sep=None):
    n = len(numbers)
    k = rng.randint(1, n) if n > 1 else 1
    a = grow(rng, numbers[:k])
    b = grow(rng, numbers[k:]) if k < n else np.zeros((0, 3))
    if sep is None:
        sep = rng.choice([8.0, 15.0, 28.0, 33.0, 45.0, 58.0, 70.0])
        sep += rng.uniform(-2, 2)
    off = np.abs(a).max(initial=0) + np.abs(b).max(initial=0)
    pos = np.concatenate([a, b + _unit(rng) * (sep + off * 0.5)])
    return settle(numbers, pos - pos.mean(0))


def planar(rng, numbers):
    n = len(numbers)
    r = max(4.0, 0.45 * sum(G["rcov"][z] for z in numbers))
    ang = np.sort(rng.uniform(0, 2 * np.pi, n)) if rng.rand() < 0.3 else \
        np.arange(n) * 2 * np.pi / n
    pos = np.stack([r * np.cos(ang), r * np.sin(ang), np.zeros(n)], -1)
    return settle(numbers, pos)


SHAPES = ("grow", "grow", "grow", "lattice", "linear", "fragments", "planar")


def molecule(rng, n=None, pool=None, shape=None, nmax=14, numbers=None):
    """Random valid molecule: (numbers, positions, shape)."""
    if numbers is None:
        if n is None:
            n = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, nmax],
                               p=[.03, .1, .12, .15, .15, .15, .1, .1, .05,
                                  .05]))
            n = min(n, nmax)
            if nmax >= 6:  # size-dependent paths
                u = rng.rand()
                if u < 0.025:
                    n = int(rng.randint(15, 42))
                elif u > 0.997:
                    n = int(rng.randint(42, 111))
        numbers = elements(rng, n, pool)
    numbers = np.asarray(numbers)
    shape = shape or rng.choice(SHAPES)
    for _ in range(20):
        pos = {"grow": grow, "lattice": lattice, "linear": linear,
               "fragments": fragments, "planar": planar}[shape](rng, numbers)
        if ok_distances(numbers, pos, 0.55):
            return numbers, pos, str(shape)
        shape = "grow"
    pos = grow(rng, numbers)
    return numbers, pos, "grow"


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
    ])


def charge(rng):
    return float(rng.choice([0, 0, 0, 1, -1, 2, -2, 0.5, -0.3]))


def param(rng, damping="rational"):
    """Parameter dictionary (plain floats) complete for the damping function."""
    f = D4_FUNCTIONALS[rng.randint(len(D4_FUNCTIONALS))]
    blk = PARAMS["d4"]["parameter"][f]["d4"]
    p = {k: float(v) for k, v in blk["bj-eeq-atm"].items()
         if isinstance(v, (int, float))}
    if rng.rand() < 0.6:
        p["s6"] = float(rng.choice([1.0, 1.0, 0.64, 0.8205, 1.3]))
    if rng.rand() < 0.6:
        p["s9"] = float(rng.choice([1.0, 1.0, 0.0, 0.5, 2.0, -1.0]))
    if rng.rand() < 0.4:
        p["alp"] = float(rng.choice([14.0, 16.0, 12.0, 9.0, 14.5,
                                     rng.uniform(8, 18)]))
    if rng.rand() < 0.3:
        p["s8"] = float(rng.uniform(0.0, 3.0))
        p["a1"] = float(rng.uniform(0.0, 0.7))
        p["a2"] = float(rng.uniform(2.5, 6.5))
    if damping == "rational" and rng.rand() < 0.3:
        p["s10"] = float(rng.choice([0.0, 0.5, 1.0, 0.3]))
    if damping in ("zero", "mzero"):
        p["alp"] = float(rng.choice([14.0, 16.0, 12.0,
                                     rng.uniform(10, 18)]))
        p["rs6"] = float(rng.uniform(0.8, 1.4))
        p["rs8"] = float(rng.uniform(0.7, 1.1))
    if damping in ("mzero", "op"):
        p["bet"] = float(rng.choice([0.0, 0.02, 0.1, 0.4]) if damping == "mzero"
                         else rng.choice([0.0, 1.0, 2.0, 6.0, 1.5,
                                          rng.uniform(0, 6)]))
    if rng.rand() < 0.15:
        # parameters of other damping functions do not matter
        other = {"rs6": 1.27, "rs8": 0.83, "rs9": 4.0 / 3.0, "bet": 0.7}
        for k in rng.choice(sorted(other), rng.randint(1, 4), replace=False):
            p.setdefault(str(k), other[str(k)])
    return p


def special_charges(rng, n):
    """Partial charges with a special structure."""
    k = rng.randint(6)
    if k == 0:
        return np.zeros(n)
    if k == 1:  # all the same
        return np.full(n, float(rng.choice([0.25, -0.3, 1.0])))
    if k == 2:  # a single charged atom
        q = np.zeros(n)
        q[rng.randint(n)] = float(rng.choice([1.0, -0.7, 0.1]))
        return q
    if k == 3:  # whole numbers
        return rng.choice([-1.0, 0.0, 1.0, 2.0], n)
    if k == 4:  # neutral
        q = rng.normal(size=n) * 0.3
        return q - q.mean()
    return rng.normal(size=n) * 1e-9
