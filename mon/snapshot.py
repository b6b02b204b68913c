"""One-off tool: take the golden snapshot of the element data and the parameter
database (mon/golden.npz, mon/golden_params.json).

It was run once on the tree the properties were written against (after the fix
commits, none of which touches data) and its output is committed. Checks never
run it.
"""
import json
import os
import sys

import numpy as np
import torch

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    import tad_dftd4.reference.d4 as ref
    from tad_dftd4 import data
    from tad_dftd4.data.wfpair import WFPAIR
    from tad_dftd4.reference.d4 import charge_eeq, charge_gfn2
    from tad_mctc.data import en as eneg, radii
    from tad_multicharge.param import eeq2019
    from tad_dftd4.damping.parameters import loader  # noqa
    import tomli

    dd = {"dtype": torch.float64}
    out = {}
    for k in ("refcovcn", "refalpha", "refascale", "refscount", "refsys",
              "refc", "secscale", "secalpha"):
        out[k] = getattr(ref, k).double().numpy()
    out["clsq"] = charge_eeq.clsq.double().numpy()
    out["clsh"] = charge_eeq.clsh.double().numpy()
    out["refq_gfn2"] = charge_gfn2.refq.double().numpy()
    out["refh_gfn2"] = charge_gfn2.refh.double().numpy()
    out["r4r2"] = data.R4R2(**dd).numpy()
    out["zeff"] = data.ZEFF().double().numpy()
    out["gam"] = data.GAM(**dd).numpy()
    out["wfpair"] = WFPAIR(**dd).numpy()
    out["vdw"] = radii.VDW_PAIRWISE(**dd).numpy()
    out["rcov"] = radii.COV_D3(**dd).numpy()
    out["en"] = eneg.PAULING(**dd).numpy()
    for k in ("chi", "eta", "kcn", "rad"):
        out["eeq_" + k] = getattr(eeq2019, k).double().numpy()
    np.savez_compressed(os.path.join(HERE, "golden.npz"), **out)

    base = os.path.dirname(loader.__file__)
    db = {}
    for m in ("d3", "d4"):
        with open(os.path.join(base, m + ".toml"), "rb") as fp:
            db[m] = tomli.load(fp)
    with open(os.path.join(HERE, "golden_params.json"), "w") as fp:
        json.dump(db, fp, indent=0, sort_keys=True, default=str)
    print({k: v.shape for k, v in out.items()})


if __name__ == "__main__":
    sys.exit(main())
