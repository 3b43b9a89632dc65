"""C22: accumulated precipitation."""
import datetime

import netCDF4
import numpy as np
from numpy import ma

import rawgen
from vlib import FILL, enc, outcome

META = {"name": "X", "latitude": 52.0, "longitude": 14.0, "altitude": 100.0}
DATE = datetime.date(2021, 3, 5)


def counter_rows(rng, n, missing=True, big=False):
    """Readings of a gauge with resets, missing values, in hundredths of mm."""
    ts = sorted(rng.sample(range(1440), n))
    c = rng.choice([0, 0, 7, 500, 9990])
    rows = []
    for t in ts:
        u = rng.random()
        if u < 0.12:
            c = rng.choice([0, 0, 1, c // 2, 3])
        elif u < 0.7:
            c += rng.choice([0, 1, 2, 5, 40])
        v = None if missing and rng.random() < 0.15 else c
        rows.append({"t": datetime.datetime(2021, 3, 5) + datetime.timedelta(minutes=t), "c": v, "m": t})
    if rng.random() < 0.2 and missing:
        rows[0]["c"] = None
    return rows


def shuffle(rng, rows):
    u = rng.random()
    rows = list(rows)
    if u < 0.3:
        rng.shuffle(rows)
    elif u < 0.5 and len(rows) > 1:
        i = rng.randrange(len(rows) - 1)
        rows[i], rows[i + 1] = rows[i + 1], rows[i]
    if rng.random() < 0.3:
        rows.insert(rng.randrange(len(rows) + 1), dict(rng.choice(rows)))
    return rows


def read(path, key, scale):
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_mask(True)
        return enc(ma.atleast_1d(nc[key][:].astype(float)), scale)


def event(rows, val, status, out, ev="counter", **kw):
    return {"ev": ev, "rows": [{"t": r["m"], "v": FILL if val(r) is None else val(r), "keep": r.get("keep", True)} for r in rows],
            "status": status, "out": out, **kw}


def run(c):
    from cloudnetpy.cloudnetarray import CloudnetArray
    from cloudnetpy.instruments import fd12p2nc, rain_e_h32nc, ws2nc
    from cloudnetpy.instruments.cloudnet_instrument import CSVFile

    rng = c.rng
    res = c.model_check("MCAccum", "MCAccum.cfg")
    cases = c.cases(res)
    pick = cases if c.thorough else rng.sample(cases, min(len(cases), 1500))
    events = []

    def direct(r):
        arr = ma.masked_invalid([np.nan if x == FILL else float(x) for x in r])
        obj = CSVFile(dict(META))
        obj.data["rainfall_amount"] = CloudnetArray(arr, "rainfall_amount")
        status, _ = outcome(obj.normalize_cumulative_amount, "rainfall_amount")
        events.append({"ev": "counter", "rows": [{"t": i, "v": x, "keep": True} for i, x in enumerate(r)],
                       "status": status, "out": enc(obj.data["rainfall_amount"][:]) if status == "ok" else []})

    for b in pick:
        direct(b["r"])
    n_spec = len(events)
    c.validate("AccumTrace", events)
    events.clear()
    src, dst = str(c.scratch / "raw"), str(c.scratch / "out.nc")
    for i in range(c.n(24, 400)):  # fd12p: two counters and rows without any value
        rows = counter_rows(rng, rng.choice([1, 2, 5, 20, 60]))
        snow = counter_rows(rng, len(rows))
        for r, s in zip(rows, snow):
            r["s"] = s["c"]
            r["vis"] = 1000
            if rng.random() < 0.06 and len(rows) > 2:
                r.update(c=None, s=None, vis=None, keep=False)
        if not any(r.get("keep", True) for r in rows):
            rows[0].update(vis=100, keep=True)
        frows = shuffle(rng, rows)
        rawgen.fd12p(src, [{"t": r["t"], "vis": r["vis"], "wawa": 52 if r.get("keep", True) else None,
                            "rate": 0.1 if r.get("keep", True) else None,
                            "amount": None if r["c"] is None else r["c"] / 100, "snow": r["s"]} for r in frows])
        status, e = outcome(fd12p2nc, src, dst, dict(META), date=DATE)
        for key, val, sc in (("precipitation_amount", lambda r: r["c"], 1e5), ("snowfall_amount", lambda r: r["s"], 1e3)):
            events.append(event(frows, val, status, read(dst, key, sc) if status == "ok" else []))
    for i in range(c.n(24, 400)):
        rows = counter_rows(rng, rng.choice([1, 2, 5, 20, 60]), missing=False)
        frows = shuffle(rng, rows)
        # a chunk of the day appended after the rest, as when files are concatenated
        rawgen.rain_e_h3(src, [{"t": r["t"], "amount": r["c"] / 100} for r in frows], rng.choice([16, 22]))
        status, _ = outcome(rain_e_h32nc, src, dst, dict(META), date=DATE)
        events.append(event(frows, lambda r: r["c"], status, read(dst, "rainfall_amount", 1e5) if status == "ok" else []))
    for site, (writer, kind) in rawgen.WS_SITES.items():
        if kind is None:
            continue
        for i in range(c.n(6, 120)):
            n = rng.choice([1, 2, 5, 20, 60])
            meta = {**META, "name": site}
            if kind == "counter":
                rows = counter_rows(rng, n)
                frows = shuffle(rng, rows)
                writer(src, [{"t": r["t"], "amount": None if r["c"] is None else r["c"] / 100} for r in frows])
                status, _ = outcome(ws2nc, src, dst, meta, date=DATE)
                events.append(event(frows, lambda r: r["c"], status, read(dst, "rainfall_amount", 1e5) if status == "ok" else []))
            else:
                step = rng.choice([1, 10])
                k0 = rng.randrange(1440 - 130 * step) if step == 1 else rng.randrange(100)
                ks = sorted(rng.sample(range(n * 2), n)) if rng.random() < 0.4 else list(range(n))
                rows = [{"m": k0 + step * k, "c": None if rng.random() < 0.15 else rng.choice([0, 0, 1, 5, 30, 200])} for k in ks]
                for r in rows:
                    r["t"] = datetime.datetime(2021, 3, 5) + datetime.timedelta(minutes=r["m"])
                frows = shuffle(rng, rows)
                writer(src, [{"t": r["t"], "rate": None if r["c"] is None else r["c"] / 100} for r in frows])
                status, _ = outcome(ws2nc, src, dst, meta, date=DATE)
                # out in 1e-7 m; a reading of r (0.01 mm) means r*1e-5 m per `kind` seconds
                out = read(dst, "rainfall_amount", 1e7) if status == "ok" else []
                ev = event(frows, lambda r: None if r["c"] is None else r["c"] * 100, status, out, ev="rate", per=kind // 60)
                events.append(ev)
    c.sample({k: events[0][k] for k in ("ev", "rows", "out")})
    c.validate("AccumTrace", events)
    c.extra["behaviours_replayed_from_spec"] = n_spec
    c.assumptions += ["a counter reset is visible as a reading below the previous valid one",
                      "duplicated time stamps carry identical rows"]
