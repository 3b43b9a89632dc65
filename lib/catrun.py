"""Runs the categorize generator on a scene and collects what was measured and what came out."""
import netCDF4
import numpy as np
from numpy import ma

import scene
from vlib import outcome


def generate(c, s, name="cat", **kw):
    """-> (status, exception or None, dict of output arrays)"""
    from cloudnetpy.categorize import generate_categorize

    files = scene.write(s, c.scratch, **kw)
    out = c.scratch / f"{name}.nc"
    out.unlink(missing_ok=True)
    st, err = outcome(generate_categorize, files, str(out))
    got = {}
    if st == "ok":
        with netCDF4.Dataset(out) as nc:
            got = {k: v[:] for k, v in nc.variables.items()}
            got["_attrs"] = {k: nc.getncattr(k) for k in nc.ncattrs()}
    return st, err, got


def bit(a, k):
    return ((ma.filled(a, 0).astype(np.int64) >> k) & 1).astype(bool)


def raw_index(s, hours):
    """Index of the raw radar profile of each output time (one raw profile per bin)."""
    return np.array([int(np.argmin(np.abs(s.rtime - t))) for t in np.asarray(hours)])
