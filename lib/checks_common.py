"""Encodings shared by the checks."""
import numpy as np
from numpy import ma

from vlib import enc


def log10(a, scale=1e5):
    """log10 of positive values; anything else that is not missing shows up as an impossible number."""
    a = ma.array(a, dtype=float)
    x = a.filled(1.0)
    with np.errstate(all="ignore"):
        r = np.where((x > 0) & np.isfinite(x), np.log10(np.where(x > 0, x, 1)), 99.0)
    return enc(ma.array(r, mask=ma.getmaskarray(a)), scale)


def ratio(a, b, scale=1e4):
    """a / b; missing where a is missing, impossible where b is."""
    a, b = ma.array(a, dtype=float), ma.array(b, dtype=float)
    with np.errstate(all="ignore"):
        r = np.where(ma.getmaskarray(b) | (b.filled(0) == 0), 999.0, a.filled(0) / np.where(b.filled(0) == 0, 1, b.filled(1)))
    return enc(ma.array(r, mask=ma.getmaskarray(a)), scale)


def rain_variables(nprng, name, rain, fill):
    """Keyword arguments for catfile.write: `rain` under `name`, sometimes beside variables of lower precedence
    (rain_detected, then rainfall_rate, then rain_rate) that tell otherwise."""
    order = ["rain_detected", "rainfall_rate", "rain_rate"]
    kw = {name: ma.array(rain, mask=np.asarray(rain) == fill)}
    if name != "rain_detected":
        kw["rain_detected"] = None
    for lower in order[order.index(name) + 1:]:
        if nprng.random() < 0.5:
            kw[lower] = ma.array(nprng.choice([0.0, 0.0, 2e-7, 1e-6], len(rain)), mask=nprng.random(len(rain)) < 0.2)
    return kw
