"""C19: observations averaged onto the grid of a model."""
import numpy as np
from numpy import ma

import evalfile
from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product
from vlib import enc, outcome, where

FILL = -999999
TICK = 1 / 64
G = 9.80665
SPEED = {1: (1, 0), 5: (3, 4), 10: (6, -8), 20: (-12, 16), 40: (-24, -32), 13: (5, 12), 25: (-7, 24), 50: (30, 40), 3: (0, -3), 65: (16, 63)}
ANY = {0: (0, 0)}


def l3(c, g, product, rng, i, *, f8=True, geo=False, above=None):
    """One L3 run; g: grid record with px."""
    n, m = len(g["mt"]), len(g["mh"][0])
    wind = np.array([[SPEED.get(w, ANY.get(w)) for w in row] for row in g["wind"]], dtype=float)
    kw = {}
    mh = np.array(g["mh"]) / 10
    hi = g.get("top") or 0       # levels above the limit that are never used
    ext = lambda a, fill: np.hstack([a, np.full((n, hi), fill)]) if hi else a
    if hi:
        mh = np.hstack([mh, np.tile(22000 + 1000.0 * np.arange(hi), (n, 1)) + np.array([0] * n)[:, None]])
    if g["sfc"]:
        if geo:
            kw["sfc_geopotential"] = np.array(g["sfc"]) / 10 * G
        else:
            kw["sfc_height"] = np.array(g["sfc"]) / 10
    model, obs, out = c.scratch / f"{i}_ecmwf.nc", c.scratch / f"{i}_obs.nc", c.scratch / f"{i}_l3.nc"
    evalfile.write_model(model, hours=np.array(g["mt"]) * TICK, height=mh, resolution=g["res"] / 1000, kind="f8" if f8 else "f4",
                         uwind=ext(wind[..., 0], 7.0), vwind=ext(wind[..., 1], 7.0), **kw)
    px = np.array(g["px"])
    data = {}
    if product == "cf":
        data["category_bits"] = px
    else:
        a = ma.array(np.where(px < 0, 0, px) * 1e-6, mask=px == FILL)
        a[px == -888888] = np.nan
        data[product] = a
        if product == "iwc":
            data["iwc_retrieval_status"] = np.array(g["st"])
    evalfile.write_obs(obs, product, hours=np.array(g["ot"]) * TICK, height=np.array(g["oh"]) / 10, altitude=g["site"] / 10 if g["site"] else 0.0, kind="f8", **data)
    status, err = outcome(process_L3_day_product, "ecmwf", product, str(model), str(obs), str(out))
    e = {"ev": "grid", "status": status, "product": product, **{k: g[k] for k in ("mt", "mh", "sfc", "site", "wind", "res", "ot", "oh", "px")}, "st": g.get("st", []),
         "box": [], "area": [], "adv": [], "advarea": []}
    if status == "ok":
        keys = {"box": "cf_V", "area": "cf_A", "adv": "cf_V_adv", "advarea": "cf_A_adv"} if product == "cf" else {"box": product, "adv": f"{product}_adv"}
        r = evalfile.read(out, *keys.values())
        scale = 1e5 if product == "cf" else 1e8
        for k, name in keys.items():
            e[k] = enc(r[name], scale) if name in r else []
    for p in (model, obs, out):
        p.unlink(missing_ok=True)
    return e, "" if status == "ok" else where(err)


CLOUD = [1, 3, 5, 6, 7, 9, 14]
CLEAR = [0, 2, 4, 8, 16, 17, 22, 33, 38, 48, 51, 10, 12, 63]


def decorate(rng, px, product):
    """A field of the specification as pixels of a file."""
    if product == "cf":
        return [[rng.choice(CLOUD) if x > 0 else rng.choice(CLEAR) for x in row] for row in px], []
    if product == "iwc":
        st = [[rng.choice([1, 3]) if x >= 0 and rng.random() < 0.8 else rng.choice([0, 2, 4, 5, 6, 7]) if rng.random() < 0.7 else rng.choice([1, 3]) for x in row] for row in px]
        return [[x if x < 0 else x * rng.randint(1, 150) for x in row] for row in px], st
    return [[x if x < 0 else x * rng.randint(1, 150) for x in row] for row in px], []


def tie(g):
    """Are there observations at the edge of an advection window?"""
    return any(225 * abs(t - m) * w == 2 * g["res"] for m, row in zip(g["mt"], g["wind"]) for w in set(row) for t in g["ot"])


def random_grid(rng):
    n = rng.randint(2, 6)
    m = rng.randint(2, 5)
    step = rng.choice([64, 64, 192, 32])
    first = rng.choice([0, 0, 64, 128, 32])
    mt = [first + step * k for k in range(n)]
    base = sorted(rng.sample(range(1, 60), m))
    mh = []
    for _ in range(n):
        row = [100 * b + rng.choice([0, 0, 10, 20, 30]) for b in base]
        mh.append(row)
    speeds = rng.choice([[1, 3, 5], [5, 10, 13, 20], [20, 25, 40, 50, 65], list(SPEED), list(SPEED), list(SPEED)])
    if rng.random() < 0.2:
        speeds = [0, *speeds]
    wind = [[rng.choice(speeds) for _ in range(m)] for _ in range(n)]
    res = rng.choice([1000, 2500, 9000, 11250, 18000, 22500, 28125, 45000])
    dt = rng.choice([2, 4, 5, 7, 8, 16])
    lo, hi = max(0, mt[0] - step), min(24 * 64 - 1, mt[-1] + step)
    ot = [t for t in range(lo + rng.randint(0, dt), hi, dt)]
    if rng.random() < 0.4:  # gaps in the measurements
        a = rng.choice(ot)
        ot = [t for t in ot if not a <= t < a + rng.choice([10, 60, 150])] or ot
    if len(ot) > 60:
        a = rng.randint(0, len(ot) - 60)
        ot = ot[a:a + 60]
    site = rng.choice([0, 0, 150, 1040, 4800, 20000, 8])
    sfc = [] if rng.random() < 0.6 else [rng.choice([0, 90, 500, 5000])] * n
    ground = sfc[0] if sfc else site
    dz = rng.choice([50, 95, 200, 300, 500])
    bottom = site + rng.choice([0, 100, dz, 1500])
    oh = [bottom + dz * k for k in range(rng.randint(2, 20))]
    if rng.random() < 0.3:   # site and model far apart
        oh = [x + ground - site for x in oh]
    return {"mt": mt, "mh": mh, "sfc": sfc, "site": site, "wind": wind, "res": res, "ot": ot, "oh": oh, "top": rng.choice([0, 0, 1, 3])}


def random_field(rng, n, m):
    p = rng.choice([0.02, 0.3, 0.9])
    miss = rng.choice([0.0, 0.2, 0.97])
    px = [[FILL if rng.random() < miss else -888888 if miss and rng.random() < 0.05 else 1 if rng.random() < p else 0 for _ in range(m)] for _ in range(n)]
    return px


def run(c):
    rng = c.rng
    res = c.model_check("MCDownsample", "MCDownsample.cfg")
    cases = c.cases(res)
    rng.shuffle(cases)
    events, meta = [], []

    def add(g, product, info, **kw):
        e, err = l3(c, g, product, rng, len(events), **kw)
        events.append(e)
        meta.append({**info, "product": product, "error": err})

    for case in cases[:c.n(150, 900)]:
        g = dict(case["g"], sfc=[], site=0, top=rng.choice([0, 0, 2]))
        product = rng.choice(["cf", "cf", "iwc", "lwc"])
        shift = rng.choice([0, 0, 30, 2310])
        if shift:   # the same on a hill, of the site or of the model
            g["oh"] = [x + shift for x in g["oh"]]
            if rng.random() < 0.5:
                g["site"] = shift
            else:
                g["sfc"], g["site"] = [shift] * len(g["mt"]), rng.choice([0, 100, 5000])
        g["px"], g["st"] = decorate(rng, case["px"], product)
        add(g, product, {"case": "specification"}, f8=not tie(g) and rng.random() < 0.5 or tie(g))
    for _ in range(c.n(160, 1500)):
        g = random_grid(rng)
        product = rng.choice(["cf", "cf", "iwc", "lwc"])
        g["px"], g["st"] = decorate(rng, random_field(rng, len(g["ot"]), len(g["oh"])), product)
        geo = bool(g["sfc"]) and rng.random() < 0.5
        if geo:
            g["oh"] = [x + 3 for x in g["oh"]]
            if any((2 * x) % 10 == 0 for x in g["oh"]):
                geo = False
        add(g, product, {"case": "random"}, f8=tie(g) or rng.random() < 0.5, geo=geo)
    c.validate("GridTrace", events, meta=meta)
    for e in events[:2]:
        c.sample(e)
    c.extra["L3 files"] = len(events)
    c.assumptions.append("model times are regular, heights increase with the level; advection windows of calm air are not judged")
