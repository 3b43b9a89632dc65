"""C20: what of the model and of the observations the evaluation uses, and its file."""
import hashlib
import uuid as uuidlib

import netCDF4
import numpy as np
from numpy import ma

import c19
import evalfile
from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product
from vlib import enc, outcome, where

FILL = -999999
RS = 287.058


def field(rng, n, m, low, high, missing=0.05, values=()):
    """Random integers, log-uniform."""
    def one():
        if rng.random() < missing:
            return FILL
        if values and rng.random() < 0.25:
            return rng.choice(values)
        return int(round(np.exp(rng.uniform(np.log(low), np.log(high)))))
    return [[one() for _ in range(m)] for _ in range(n)]


def masked(x, unit):
    a = np.array(x, dtype=float)
    return ma.array(np.where(a == FILL, 0, a) * unit, mask=a == FILL)


def heights(rng, n, m):
    """Levels around the limit of 22 km."""
    crossing = rng.random() < 0.5
    nlow = rng.randint(2, m)
    low = sorted(rng.sample(range(1, 215), nlow))
    rows = []
    for _ in range(n):
        row = [1000 * x + rng.choice([0, 130, 270]) for x in low] + [220000 + rng.choice([0, 10, 5000]) + 20000 * k for k in range(m - nlow)]
        rows.append(row)
    if crossing and nlow < m:   # below the limit some of the time
        rows[rng.randrange(n)][nlow] = 219990
    return rows


def model_event(c, rng, i):
    n, m = rng.randint(2, 5), rng.randint(2, 7)
    product = rng.choice(["cf", "iwc", "iwc", "lwc"])
    mh = heights(rng, n, m)
    kind = rng.choice(["f4", "f8"])
    hours = [rng.choice([0, 1, 3]) + k * 1.5 for k in range(n)]
    shape = (n, m)
    kw = {}
    gk, gm = [[1] * m] * n, [[1] * m] * n
    if product == "cf":
        q = [field(rng, n, m, 1, 10000, values=(0, 499, 500, 501, 10000, 490, 510))]
        kw["cloud_fraction"] = masked(q[0], 1e-4)
        if rng.random() < 0.3:
            kw["qi"] = np.zeros(shape)
    else:
        gm = [[rng.randint(20, 31) for _ in range(m)] for _ in range(n)]
        gk = field(rng, n, m, 2, 35, missing=0.03)
        limit = 100 if product == "iwc" else 10000
        q = [field(rng, n, m, limit // 20, limit * 50, values=(0, -5, limit, 2 * limit, limit // 2))]
        kw["qi" if product == "iwc" else "ql"] = masked(q[0], 1e-9)
        for name in ("qs", "qg"):
            if rng.random() < 0.5:
                x = field(rng, n, m, limit // 20, limit * 50, missing=0.0, values=(0, 0, 0))
                kw[name] = masked(x, 1e-9)
                if product == "iwc":
                    q.append(x)
        kw["pressure"] = masked([[FILL if k == FILL else k for k in row] for row in gk], 10 * RS)
        kw["temperature"] = np.array(gm) * 10.0
    levels = list(range(137, 137 - m, -1)) if rng.random() < 0.5 else list(range(m))
    fc = [x + 12 for x in hours]
    model, obs, out = (c.scratch / f"{k}{i}_ecmwf.nc" for k in ("m", "o", "l3"))
    evalfile.write_model(model, hours=hours, height=np.array(mh) / 10, kind=kind, level=np.array(levels), **kw)
    observation(rng, obs, product)
    status, err = outcome(process_L3_day_product, "ecmwf", product, str(model), str(obs), str(out))
    e = {"ev": "model", "status": status, "product": product, "mh": mh, "q": q, "gk": gk, "gm": gm, "levin": levels, "levout": [], "fcin": enc(fc, 64), "fcout": [],
         "hin": enc(hours, 64), "hout": [], "out": [], "outh": []}
    if status == "ok":
        r = evalfile.read(out)
        e["out"] = enc(r[f"model_{product}"], 1e4 if product == "cf" else 1e10)
        e["outh"] = enc(r["model_height"], 10)
        e["levout"], e["fcout"], e["hout"] = enc(r["level"]), enc(r["model_forecast_time"], 64), enc(r["time"], 64)
    return e, "" if status == "ok" else where(err)


def observation(rng, path, product, drop=(), **kw):
    n, m = 12, 5
    data = {"cf": {"category_bits": np.array([[rng.randrange(64) for _ in range(m)] for _ in range(n)])},
            "iwc": {"iwc": np.full((n, m), 1e-5), "iwc_retrieval_status": np.array([[rng.randrange(8) for _ in range(m)] for _ in range(n)])},
            "lwc": {"lwc": np.full((n, m), 1e-4)}}[product]
    evalfile.write_obs(path, product, hours=np.arange(n) * 0.5, height=np.arange(1, m + 1) * 500.0, drop=drop, **data, **kw)


NEEDS = {"cf": ["cloud_fraction"], "iwc": ["qi", "pressure", "temperature"], "lwc": ["ql", "pressure", "temperature"]}


def faults(rng):
    """Inputs that can not be used, and the error they cause."""
    for product, names in NEEDS.items():
        for name in [*names, "height", "horizontal_resolution"]:
            yield product, {"drop": (name,)}, "ModelDataError"
        yield product, {"level_dim": "lev"}, "ModelDataError"
        for bad in (0.0, -9.0, np.nan, ma.masked, ma.array([9.0, 9.0, 10.0]), ma.array([9.0, 0.0, 9.0])):
            yield product, {"resolution": ma.masked_all(()) if bad is ma.masked else bad}, "ModelDataError"


def fine(rng):
    """The same, but usable."""
    for product in NEEDS:
        yield product, {"resolution": ma.array([9.0, 9.0, 9.0])}
        yield product, {"resolution": ma.array([9.0, np.nan, 9.0])}
        for name in {"cloud_fraction", "qi", "ql"} - set(NEEDS[product]):
            if product != "cf":
                yield product, {"drop": (name,)}
        yield product, {"drop": ("level",)}
        yield product, {"drop": ("forecast_time",)}


def file_id(path, ids):
    if not path.exists():
        return 0
    if path.stat().st_size == 0:
        return -1
    try:
        with netCDF4.Dataset(str(path)) as nc:
            return ids.setdefault(nc.file_uuid, len(ids) + 1)
    except (OSError, AttributeError):
        return 99999


def digest(path):
    return hashlib.sha256(path.read_bytes()).hexdigest() if path.exists() else ""


def sequence(c, rng, case, i, add):
    """Runs of the specification over one file."""
    ids = {}
    product = rng.choice(["cf", "iwc", "lwc"])
    d = c.scratch / f"seq{i}"
    d.mkdir()
    out = d / "l3.nc"
    good_m, good_o, bad_m, bad_o = d / "m_ecmwf.nc", d / "o.nc", d / "bad_ecmwf.nc", d / "bado.nc"
    hours, h = np.arange(3) * 2.0, np.tile([100.0, 900.0, 2500.0], (3, 1))
    evalfile.write_model(good_m, hours=hours, height=h)
    observation(rng, good_o, product)
    need = {"cf": "category_bits", "iwc": "iwc", "lwc": "lwc"}[product]
    observation(rng, bad_o, product, drop=(rng.choice([need, "height"]),))
    evalfile.write_model(bad_m, hours=hours, height=h, drop=(rng.choice([*NEEDS[product], "height", "horizontal_resolution"]),))
    start = case[0]["file"]
    if start == -1:
        out.write_bytes(b"")
    elif start > 0:
        outcome(process_L3_day_product, "ecmwf", product, str(good_m), str(good_o), str(out))
    for step in case[1:]:
        before, old = file_id(out, ids), digest(out)
        me = uuidlib.UUID(int=rng.getrandbits(128), version=4)
        m = bad_m if step["fault"] == "model" else good_m
        o = bad_o if step["fault"] == "obs" else good_o
        kw = {"overwrite": step["overwrite"]} if step["overwrite"] or rng.random() < 0.5 else {}
        status, ret = outcome(process_L3_day_product, "ecmwf", product, str(m), str(o), str(out), uuid=rng.choice([me, str(me)]), **kw)
        after = file_id(out, ids)
        add({"ev": "run", "status": status, "overwrite": step["overwrite"], "fault": step["fault"], "before": before, "after": after, "same": digest(out) == old,
             "me": ids.setdefault(str(me), len(ids) + 1), "returned": ids.get(str(ret), 0) if status == "ok" else 0}, {"sequence": i, "error": where(ret) if status != "ok" else ""})


def run(c):
    rng = c.rng
    res = c.model_check("MCEvalRun", "MCEvalRun.cfg")
    cases = c.cases(res)
    rng.shuffle(cases)
    events, meta = [], []

    def add(e, info):
        events.append(e)
        meta.append(info)

    for i, case in enumerate(cases[:c.n(40, 648)]):
        sequence(c, rng, case, i, add)
    for i in range(c.n(150, 2000)):
        e, err = model_event(c, rng, i)
        add(e, {"error": err})
    hours, h = np.arange(3) * 2.0, np.tile([100.0, 900.0, 2500.0], (3, 1))
    model, obs, out = c.scratch / "f_ecmwf.nc", c.scratch / "fobs.nc", c.scratch / "fout.nc"

    def once(product, kw):
        evalfile.write_model(model, hours=hours, height=h, **kw)
        observation(rng, obs, product)
        out.unlink(missing_ok=True)
        return outcome(process_L3_day_product, "ecmwf", product, str(model), str(obs), str(out))

    for product, kw, want in faults(rng):
        status, err = once(product, kw)
        add({"ev": "fault", "status": status, "want": want, "after": file_id(out, {})}, {"product": product, "what": str(kw), "error": where(err) if status != "ok" else ""})
    for product, kw in fine(rng):
        status, err = once(product, kw)
        add({"ev": "fault", "status": status, "want": "ok", "after": 0 if status == "ok" and file_id(out, {}) > 0 else 1}, {"product": product, "what": str(kw), "error": where(err) if status != "ok" else ""})
    c.validate("EvalTrace", events, meta=meta)
    for e in events[:2]:
        c.sample(e)
    # which pixels count: every combination of the classification bits, every status
    grid, gmeta = [], []
    bits = list(range(64)) * 2
    for i in range(c.n(36, 300)):
        product = ["cf", "cf", "iwc", "lwc"][i % 4]
        g = c19.random_grid(rng)
        n, m = len(g["ot"]), len(g["oh"])
        if product == "cf":
            rng.shuffle(bits)
            g["px"] = [[bits[(t * m + z) % 128] for z in range(m)] for t in range(n)]
        else:
            g["px"] = [[FILL if rng.random() < 0.1 else rng.randint(0, 150) for _ in range(m)] for _ in range(n)]
            g["st"] = [[rng.randrange(8) for _ in range(m)] for _ in range(n)]
        e, err = c19.l3(c, g, product, rng, f"g{i}")
        grid.append(e)
        gmeta.append({"product": product, "error": err})
    c.validate("GridTrace", grid, meta=gmeta)
    c.extra["runs over one file"] = sum(e["ev"] == "run" for e in events)
    c.extra["unusable inputs"] = sum(e["ev"] == "fault" for e in events)
    c.extra["model files"] = sum(e["ev"] == "model" for e in events)
    c.assumptions.append("cloud fraction or water content within rounding of the threshold may be kept or dropped")
