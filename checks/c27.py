"""C27: cloud fraction of the model without the cirrus that the radar can not see."""
import math

import numpy as np
from numpy import ma

import evalfile
from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product
from vlib import enc, outcome, where

FILL = -999999
RS = 287.058
# Hogan et al. 2006: log10 iwc (g m-3) = ZT Z T + T T + Z Z + c
COEFFICIENTS = {"Ka": (0.000242, -0.0186, 0.0699, -1.63), "W": (0.00058, -0.00706, 0.0923, -0.992)}
FREQUENCY = {"Ka": (35.5, 33.0), "W": (94.0, 95.0), "X": (9.4,)}


def sensitivity(lim, t, radar):
    """dBZ of an ice water content (ug m-3) at a temperature (C)."""
    zt, tt, z, c = COEFFICIENTS[radar]
    return (math.log10(max(lim, 1e-6) * 1e-6) - c - tt * t) / (z + zt * t)


def scenario(rng):
    n, m = rng.randint(2, 5), rng.randint(2, 7)
    radar = rng.choice(["Ka", "Ka", "W", "W", "W", "X", "none"])
    steady = rng.random() < 0.6
    low = sorted(rng.sample(range(5, 180), m))
    mh = [[500 * x for x in low]] * n if steady else [[500 * x + d for x in low] for d in (rng.choice([0, 20, 50, 1500, 6000]) for _ in range(n))]
    site = rng.choice([0, 0, 200, 5000, 20000])
    sfc = [] if rng.random() < 0.6 else [rng.choice([0, 1000, 9000])] * n
    ground = sfc[0] if sfc else site
    h = [x + ground for x in mh[0]]
    dz = rng.choice([300, 1000, 2500])
    oh = [site + 100 + dz * k for k in range(rng.randint(3, (h[-1] + 20000) // dz + 3))]
    limits = [rng.choice([0, 0, 3, 10, 40, 120, 400, 1500, 20000]) for _ in range(m)]
    # sensitivity changes at some of the heights, mostly halfway between the levels of the first profile
    edges = sorted(x + rng.choice([0, 0, 0, 700, 3000]) for x in ((a + b) / 2 for a, b in zip(h, h[1:])) if rng.random() < 0.7)
    lim = [limits[sum(z >= x for x in edges)] for z in oh]
    if rng.random() < 0.4:  # sensitivity not known everywhere
        lim = [FILL if rng.random() < 0.4 else x for x in lim]
    cf, ice, liq = [], [], []
    dry = rng.random() < 0.08
    for i in range(n):
        cf.append([rng.choice([FILL, 0, 2, 4, 6, 10, 50, 100, rng.randint(6, 100), rng.randint(6, 100)]) for _ in range(m)])
        ice.append([rng.choice([0, 5, 60, 300, rng.randint(1, 1000), rng.randint(1, 20000)]) if not dry else 0 for _ in range(m)])
        liq.append([rng.choice([0, 0, 0, x // 20, x // 5, 3 * x, 100]) for x in ice[-1]])
        liq[-1] = [y + 1 if 10 * y == x and x else y for x, y in zip(ice[-1], liq[-1])]
    return {"mh": mh, "site": site, "sfc": sfc, "oh": oh, "lim": lim, "cf": cf, "ice": ice, "liquid": liq, "radar": radar, "table": rng.random() < 0.7}


def l3(c, s, rng, i):
    n, m = len(s["cf"]), len(s["cf"][0])
    shape = (n, m)
    band = s["radar"] if s["radar"] in COEFFICIENTS else "Ka"
    # the smallest detectable amount depends on temperature: one for all
    t = rng.choice([0.0, -12.5, -40.0])
    cfm = ma.array(np.array(s["cf"]) / 100, mask=np.array(s["cf"]) == FILL)
    ice, liq = np.array(s["ice"]) * 1e-9, np.array(s["liquid"]) * 1e-9
    hours = np.arange(n) * rng.choice([1.0, 3.0])
    # wind changes with time, hardly with height
    wind = np.array([[rng.uniform(2, 40)] * m for _ in range(n)])
    if rng.random() < 0.5:
        wind = wind + 0.5 * np.arange(m)
    z = np.array([np.nan if x == FILL else sensitivity(x, t, band) for x in s["lim"]])
    if FILL in s["lim"] and rng.random() < 0.5:
        z = ma.masked_invalid(z)
    nobs = 6
    kw, okw = {}, {"Z_sensitivity": z, "radar_frequency": rng.choice(FREQUENCY[s["radar"]]) if s["radar"] != "none" else None}
    if s["radar"] == "none" and rng.random() < 0.5:
        okw.update(radar_frequency=35.5, Z_sensitivity=None)
    if s["sfc"]:
        kw["sfc_height"] = np.array(s["sfc"]) / 10
    model, obs, out = c.scratch / f"{i}_ecmwf.nc", c.scratch / f"{i}_cat.nc", c.scratch / f"{i}_l3.nc"
    temperature = 273.15 + t
    if rng.random() < 0.5:   # ice of several kinds
        a = rng.random()
        kw.update(qi=ice * a, qs=ice * (1 - a))
    else:
        kw["qi"] = ice
    evalfile.write_model(model, hours=hours, height=np.array(s["mh"]) / 10, kind="f8", resolution=10**0.1 if s["table"] else rng.choice([0.5, 2.5, 9.0, 25.0]), cloud_fraction=cfm, ql=liq,
                         temperature=np.full(shape, temperature), pressure=np.full(shape, RS * temperature), uwind=0.6 * wind, vwind=-0.8 * wind, **kw)
    evalfile.write_obs(obs, "cf", hours=np.arange(nobs) * 1.0, height=np.array(s["oh"]) / 10, altitude=s["site"] / 10, kind="f8",
                       category_bits=np.zeros((nobs, len(s["oh"])), int), **okw)
    status, err = outcome(process_L3_day_product, "ecmwf", "cf", str(model), str(obs), str(out))
    e = {"ev": "cirrus", "status": status, **s, "cfout": [], "out": []}
    if status == "ok":
        r = evalfile.read(out)
        e["cfout"] = enc(r["model_cf"], 1e4)
        e["out"] = enc(r["model_cf_cirrus"], 1e4) if "model_cf_cirrus" in r else []
    for p in (model, obs, out):
        p.unlink(missing_ok=True)
    return e, "" if status == "ok" else where(err)


def run(c):
    rng = c.rng
    c.model_check("MCCirrus", "MCCirrus.cfg")
    events, meta = [], []
    for i in range(c.n(220, 3000)):
        e, err = l3(c, scenario(rng), rng, i)
        events.append(e)
        meta.append({"error": err})
    c.validate("CirrusTrace", events, meta=meta)
    for e in events[:2]:
        c.sample(e)
    c.extra["L3 files"] = len(events)
    c.assumptions.append("boxes whose radar sensitivity is unknown or varies inside the box are only bounded; wind shear is weak")
