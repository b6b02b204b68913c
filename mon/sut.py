"""Thin helpers around the public API of the code under test."""
from __future__ import annotations

import numpy as np
import torch

import tad_dftd4 as d4
from tad_dftd4.damping import (MZeroDamping, OptimisedPowerDamping,
                               RationalDamping, ZeroDamping)

DT = {"f32": torch.float32, "f64": torch.float64}
EPS = {torch.float32: 1.2e-7, torch.float64: 2.2e-16}
DAMP = {"rational": RationalDamping, "zero": ZeroDamping,
        "mzero": MZeroDamping, "op": OptimisedPowerDamping}


def T(x, dtype=torch.float64, grad=False):
    t = torch.tensor(np.asarray(x), dtype=dtype)
    return t.requires_grad_(True) if grad else t


def N(x):
    return torch.tensor(np.asarray(x), dtype=torch.long)


def tparam(p, dtype=torch.float64, grad=False):
    return {k: T(v, dtype, grad) for k, v in p.items()}


def cutoff(c, dtype=torch.float64):
    return None if c is None else d4.Cutoff(**c, dtype=dtype)


def model(numbers, kind="d4", dtype=torch.float64, **kw):
    cls = {"d4": d4.D4Model, "d4s": d4.D4SModel}[kind]
    kw = {k: v for k, v in kw.items() if v is not None}
    return cls(numbers, dtype=dtype, **kw)
