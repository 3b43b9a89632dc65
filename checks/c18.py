"""C18: latitude, longitude, altitude and heights of instrument products."""
import os

import netCDF4
import numpy as np
from numpy import ma

import adapters
from cloudnetpy import instruments, utils
from cloudnetpy.cloudnetarray import CloudnetArray
from vlib import outcome, where

F = -999999999


def arr(seq, unit):
    """Values of the specification as an array of the raw file."""
    return ma.array([0.0 if x == F else x * unit for x in seq], mask=[x == F for x in seq])


def seq(x, unit):
    x = ma.masked_invalid(ma.atleast_1d(ma.array(x, dtype=float)))
    return [F if m else int(round(float(v) / unit)) for v, m in zip(x.data, ma.getmaskarray(x))]


def attr_text(rng, value, key, unit):
    """How people write a number into an attribute."""
    v = value * unit
    if key == "altitude":
        return rng.choice([f"{v:.0f}m", f"{v:.0f} m", f"{v:.1f}", f"{v:.0f}"])
    t = f"{abs(v):.5f}".rstrip("0")
    if t.endswith("."):
        t += "0"
    neg, pos = ("S", "N") if key == "latitude" else ("W", "E")
    if v < 0:
        return rng.choice([f"{t} {neg}", f"{t}{neg}", f"-{t}", f"{t}{neg} ".strip() + " ", f"{t} {neg.lower()}"])
    return rng.choice([f"{t} {pos}", f"{t}{pos}", f"{t}"])


KEYS = ("lat", "lon", "alt")
NAMES = {"lat": "latitude", "lon": "longitude", "alt": "altitude"}
UNIT = {"lat": 1e-5, "lon": 1e-5, "alt": 1.0}


def source_attrs(nc_or_data, product):
    out = []
    for k in KEYS:
        if product:
            v = nc_or_data.variables.get(NAMES[k])
            out.append("" if v is None else getattr(v, "source", ""))
        else:
            v = nc_or_data.get(NAMES[k])
            out.append("" if v is None else (v.source or ""))
    return out


def blank():
    return {"product": False, "gps": False, "status": "ok", "n": 0, "src": [], "alongtime": True, **{f"{a}{k}": [] for a in ("var", "data", "site", "attr") for k in KEYS}}


def fill_dataset(nc, sc, rng, dtype):
    if "time" not in nc.dimensions:
        nc.createDimension("time", sc["n"])
    for k in KEYS:
        s = sc[f"var{k}"]
        if s:
            dims = ("time",) if sc["alongtime"] and len(s) == len(nc.dimensions["time"]) else ()
            v = nc.createVariable(NAMES[k], dtype, dims, fill_value=-9999.0)
            v.units = "m" if k == "alt" else "degrees"
            a = arr(s, UNIT[k])
            v[:] = a[0] if dims == () else a
        if sc[f"attr{k}"]:
            nc.setncattr(NAMES[k].capitalize(), attr_text(rng, sc[f"attr{k}"][0], NAMES[k], UNIT[k]))
        elif sc.get("unknown"):
            nc.setncattr(NAMES[k].capitalize(), "Unknown")


def site_of(sc, rng):
    site = {"name": "Somewhere"}
    for k in KEYS:
        if sc[f"site{k}"]:
            v = round(sc[f"site{k}"][0] * UNIT[k], 5)
            site[NAMES[k]] = rng.choice([v, str(v), np.float32(v)]) if k == "alt" else rng.choice([v, str(v)])
    return site


def unit_event(c, sc, rng, label):
    ev = blank()
    sc = {**ev, **sc}
    ev.update({k: v for k, v in sc.items() if k in ev})
    ev["n"] = sc["n"] = 3
    site = site_of(sc, rng)
    if not any(sc[f"site{k}"] for k in KEYS) and rng.random() < 0.3:
        site = None
    data = {}
    for k in ("lat", "lon"):
        if sc[f"data{k}"]:
            data[NAMES[k]] = CloudnetArray(arr(sc[f"data{k}"], UNIT[k]), NAMES[k])
    hasds = any(sc[f"{a}{k}"] for a in ("var", "attr") for k in KEYS) or rng.random() < 0.5
    nc = None
    try:
        if hasds:
            nc = netCDF4.Dataset("x.nc", "w", diskless=True)
            nc.createDimension("time", 3)
            fill_dataset(nc, sc, rng, rng.choice(["f4", "f8"]))
        had = set(data)
        ev["status"], val = outcome(utils.add_site_geolocation, data, gps=sc["gps"], site_meta=site, dataset=nc)
        if ev["status"] != "ok":
            label += f" {where(val)}"
        for k in KEYS:
            x = data.get(NAMES[k])
            # what the instrument had in its data already stays if nothing else is known
            if ev["status"] == "ok" and x is not None and not (NAMES[k] in had and x.source is None):
                ev[k] = seq(x.data, UNIT[k])
                ev[k + "dim"] = 0 if np.ndim(x.data) == 0 and not x.dimensions else 1 if x.dimensions == ("time",) and len(ev[k]) == 3 else -1
            else:
                ev[k], ev[k + "dim"] = [], 0
        ev["src"] = source_attrs(data, False) if ev["status"] == "ok" else []
    finally:
        if nc is not None:
            nc.close()
    return {"ev": "resolve", **ev}, label


# ---- conversions ------------------------------------------------------------
GPS = {"basta"}
RAW = {"basta", "mrr", "copernicus", "galileo", "mira", "fake"}
CALLS = ["mira2nc", "mrr2nc", "basta2nc", "copernicus2nc", "galileo2nc", "ceilo2nc", "pollyxt2nc"]
TILT = {"mira": 1, "copernicus": 1, "galileo": 1, "mrr": 20, "basta": 20, "chm15k": 20, "pollyxt": 20, "cl61d": 20, "da10": 20}
STRETCH = {"mira": 40, "basta": 30, "mrr": 30, "chm15k": 30, "pollyxt": 40, "cl61d": 30, "da10": 30}  # range gates up to the stratosphere


def files_in(a):
    if isinstance(a, (list, tuple)):
        return [str(x) for x in a]
    a = str(a)
    return [os.path.join(a, f) for f in sorted(os.listdir(a))] if os.path.isdir(a) else [a]


def tilt_file(nc, name, zen, sign, rng, how, shift=0):
    if name == "mira":
        if how == "missing":
            # a radar without angle information points to the zenith
            nc["elv"][:] = ma.masked_all(nc["elv"].shape)
        else:
            nc["elv"][:] = 90 - sign * zen + shift
    elif name in ("copernicus", "galileo"):
        nc["elevation"][:] = 90 - sign * zen
    elif name == "mrr":
        e = np.full(nc["elevation"].shape, 90.0 - zen)
        if len(e) >= 3 and rng.random() < 0.5:
            e[rng.randrange(len(e))] = 45.0  # one odd profile does not count
        nc["elevation"][:] = e
    elif name == "basta":
        nc["elevation"][:] = 90 - zen
    elif name == "chm15k":
        nc["zenith"][:] = zen
    elif name in ("cl61d", "da10") and how != "missing":
        if rng.random() < 0.5:
            nc.createVariable("tilt_angle", "f4", ())[:] = zen
        else:
            t = np.full(len(nc["time"]), float(zen))
            if len(t) >= 3 and rng.random() < 0.5:
                t[rng.randrange(len(t))] += 30
            nc.createVariable("tilt_angle", "f4", ("time",))[:] = t
    if name in STRETCH:
        axis = nc["range" if "range" in nc.variables else "height"]
        axis[:] = axis[:] * STRETCH[name]


def product_events(c, a, sc, rng, label, tilt):
    """One conversion with all that the raw files and the user state."""
    n = sc["n"]
    nfiles = 1 if not a.multi or rng.random() < 0.5 else 2
    if a.name == "weather_radar":
        nfiles = n
    rows = [{"t": 3600 + 600 * i, "k": 20 + i, "keep": True} for i in range(n)]
    cut = [rows] if nfiles == 1 else [rows[: n // 2], rows[n // 2:]] if nfiles == 2 else [[r] for r in rows]
    zen = rng.choice([0, tilt, rng.randint(0, tilt)]) if tilt else 0
    how = "missing" if a.name == "mira" and tilt and rng.random() < 0.2 else ""
    if how:
        zen = 0
    if a.name in ("cl61d", "da10") and rng.random() < 0.3:
        zen, how = 3, "missing"  # the usual tilt of these lidars
    a.site = site_of(sc, rng)
    for k in KEYS:  # only some converters take texts
        if NAMES[k] in a.site:
            a.site[NAMES[k]] = float(a.site[NAMES[k]])
    if a.name == "mira" and rng.random() < 0.4 and not how:
        # the user knows by how much the angle in the file is off
        shift = rng.choice([-3, -1, 0, 1, 2])
        a.site["zenith_offset"] = shift if rng.random() < 0.5 else float(shift)
    else:
        shift = 0
    if a.name == "pollyxt":
        if rng.random() < 0.3:
            zen = 5
        else:
            a.site["zenith_angle"] = zen
    sign = rng.choice([1, -1])
    originals = {f: getattr(instruments, f) for f in CALLS}

    def patched(orig):
        def call(inp, *args, **kw):
            fs = files_in(inp)
            i0 = 0
            for p in fs:
                with netCDF4.Dataset(p, "a") as nc:
                    if tilt:
                        tilt_file(nc, a.name, zen, sign, rng, how, shift)
                    if a.name in RAW:
                        nc["range"].units = "m"
                        m = len(nc["time"])
                        part = dict(sc)
                        for k in KEYS:
                            if len(sc[f"var{k}"]) == n and n > 1:
                                part[f"var{k}"] = sc[f"var{k}"][i0:i0 + m]
                        fill_dataset(nc, part, rng, sc["dtype"])
                        if a.name in ("copernicus", "galileo"):
                            nc["height"][:] = sc["rawalt"][0]
                        i0 += m
            return orig(inp, *args, **kw)
        return call

    for f, o in originals.items():
        setattr(instruments, f, patched(o))
    folder, out = str(c.scratch / "raw"), str(c.scratch / "p.nc")
    if os.path.exists(out):
        os.unlink(out)
    try:
        status, val = outcome(a.convert, cut, folder, out, adapters.DATE, rng)
    finally:
        for f, o in originals.items():
            setattr(instruments, f, o)
        a.site = adapters.META
    ev = blank()
    ev.update({k: v for k, v in sc.items() if k in ev})
    ev["gps"], ev["product"] = a.name in GPS, True
    if a.name not in RAW:
        for k in KEYS:
            ev[f"var{k}"], ev[f"attr{k}"] = [], []
    if a.name in ("copernicus", "galileo") and not ev["varalt"]:
        ev["varalt"] = sc["rawalt"]
    ev["status"], ev["n"] = status, n
    evs = []
    if status != "ok":
        label += f" {where(val)}"
    for k in KEYS:
        ev[k], ev[k + "dim"] = [], 0
    if status == "ok":
        with netCDF4.Dataset(out) as nc:
            for k in KEYS:
                v = nc.variables.get(NAMES[k])
                if v is not None:
                    ev[k] = seq(v[:], UNIT[k])
                    ev[k + "dim"] = 0 if v.dimensions == () else 1 if v.dimensions == ("time",) and len(ev[k]) == n else -1
            if "height" in nc.variables and len(set(ev["alt"])) == 1:
                r = nc["range"][:].astype(float)
                evs.append(({"ev": "height", "status": "ok", "range": [int(round(x)) for x in r], "zenith": zen, "alt": int(round(10 * float(ma.mean(nc["altitude"][:])))),
                             "height": [int(round(10 * (h - (x - round(x))))) for h, x in zip(nc["height"][:].astype(float), r)]},
                            label + f" zenith {zen}{how}"))
    evs.append(({"ev": "resolve", **ev}, label + f" site {sc['site']}"))
    return evs


def random_scenario(rng, n):
    """Any coordinates: both hemispheres, both sides of the meridians."""
    sc = {**blank(), "n": n, "gps": rng.random() < 0.5, "unknown": rng.random() < 0.3, "dtype": rng.choice(["f4", "f8"])}

    def point():
        return rng.choice([rng.randint(-8000000, 8000000), rng.randint(-99999, 99999) or 7]), rng.choice(
            [rng.randint(-17800000, 17800000), rng.randint(18200000, 35900000), rng.randint(-99999, 99999) or 7])

    def series(kind, length):
        la, lo = point()
        if kind == "none":
            return [], []
        if kind == "masked":
            return [F] * length, [F] * length
        if kind == "zero":
            return [0] * length, [0] * length
        if kind == "fixed":
            j = lambda v: [v + rng.randint(-150, 150) for _ in range(length)]
        else:
            d = rng.choice([2500, 100000, -30000])
            la = max(-6000000, min(6000000, la))
            e = 10000 if d > 0 else -10000
            f = rng.choice([0, e, 3 * e])
            lo = lo if lo < 0 or lo > 18000000 else min(lo, 17000000)
            lo = max(-17000000, min(35500000, lo)) if lo < 18000000 else max(18900000, min(35000000, lo))
            a, b = [la + d * i for i in range(length)], [lo + f * i for i in range(length)]
            for i in range(length):
                r = rng.random()
                if r < 0.1 and length > 2 and 0 < i < length - 1:
                    a[i] = b[i] = F
            return a, b
        a, b = j(la), j(lo)
        a, b = [x or 1 for x in a], [x or 1 for x in b]
        if length > 2 and rng.random() < 0.3:
            i = rng.randrange(length)
            a[i] = b[i] = F
        return a, b

    kind = rng.choice(["none", "masked", "zero", "fixed", "moving", "moving"])
    sc["varlat"], sc["varlon"] = series(kind, n)
    dk = rng.choice(["none", "none", "fixed", "moving", "zero"])
    if dk != "none":
        sc["datalat"], sc["datalon"] = series(dk, n)
    s = rng.choice(["none", "all", "all", "position", "altitude"])
    sc["site"] = s
    if s in ("all", "position"):
        la, lo = point()
        sc["sitelat"], sc["sitelon"] = [la], [lo]
    if s in ("all", "altitude"):
        sc["sitealt"] = [rng.choice([0, -3, rng.randint(1, 5000)])]
    if rng.random() < 0.5:
        la, lo = point()
        sc["attrlat"], sc["attrlon"] = [la], [lo]
        sc["attralt"] = [rng.randint(0, 4000)]
    k = rng.random()
    base = rng.randint(0, 3000)
    sc["varalt"] = [] if k < 0.4 else [base] if k < 0.6 else [base + rng.randint(0, 80) for _ in range(n)]
    return sc


def run(c):
    rng = c.rng
    cases = c.cases(c.model_check("MCGeolocation", "MCGeolocation.cfg"))
    events, meta = [], []

    def add(pair):
        events.append(pair[0])
        meta.append(pair[1])

    for cs in cases:
        sc = cs["sc"] | {"unknown": rng.random() < 0.5}
        add(unit_event(c, sc, rng, f"case gps={sc['gps']} file={sc['var']} data={sc['data']} site={sc['site']} attr={sc['attr']} alt={sc['height']}"))
    nunit = len(events)
    for i in range(c.n(300, 6000)):
        add(unit_event(c, random_scenario(rng, 3), rng, f"random {i}"))
    c.sample({k: v for k, v in events[-1].items() if v != []})

    ads = [a for a in adapters.all_adapters()]
    conv = 0
    for a in ads:
        times = c.n(8 if a.name in RAW else 4 if a.name in TILT else 2, 60 if a.name in TILT else 20)
        for i in range(times):
            n = rng.randint(2, 5)
            if a.name == "weather_radar":
                n = 2
            sc = random_scenario(rng, n)
            sc["gps"] = a.name in GPS
            sc["datalat"] = sc["datalon"] = []
            sc["rawalt"] = [rng.randint(1, 900)]
            if a.name in ("copernicus", "galileo"):
                sc["attralt"] = []
            if a.name in RAW and a.name != "basta":
                sc["alongtime"] = False
                # these have a fixed position, if any, in the raw file
                for k in KEYS:
                    sc[f"var{k}"] = [x for x in sc[f"var{k}"] if x != F][:1] if rng.random() < 0.8 else [F] if a.name == "mrr" else []
                if not (sc["varlat"] and sc["varlon"]):
                    sc["varlat"] = sc["varlon"] = []
                if sc["varlat"] == [F] or sc["varlon"] == [F]:
                    sc["varlat"] = sc["varlon"] = [F]
                if a.name == "mira" and rng.random() < 0.7:
                    sc["varlat"], sc["varlon"], sc["varalt"] = [], [], []
            alt_known = sc["sitealt"] or [x for x in sc["varalt"] if x != F] or sc["attralt"]
            site_only = a.name not in RAW
            if site_only or not alt_known:
                sc["sitealt"] = [rng.randint(1, 900)]
                sc["site"] = "all" if sc["sitelat"] else "altitude"
            if site_only and not sc["sitelat"]:
                if a.domain in ("weather-radar", "disdrometer", "mwr") or rng.random() < 0.5:
                    sc["sitelat"], sc["sitelon"], sc["site"] = [rng.randint(-8000000, 8000000)], [rng.randint(-17900000, 17900000)], "all"
            if site_only and sc["sitelon"] and sc["sitelon"][0] > 18000000:
                sc["sitelon"] = [sc["sitelon"][0] - 36000000]
            for pair in product_events(c, a, sc, rng, a.name, TILT.get(a.name, 0) or (1 if a.domain in ("lidar", "radar", "weather-radar", "rain-radar") else 0) * 0):
                add(pair)
            conv += 1
    c.extra["conversions"] = conv
    c.extra["cases"] = nunit
    c.assumptions += [
        "a site counts as stationary below 0.005 degrees of spread and as moving above 0.02/0.08 degrees; in between either is accepted",
        "moving platforms do not cross the date line or the Greenwich meridian in the generated series",
        "the altitude is known from some source (heights cannot be given otherwise)",
        "latitude and longitude come together; longitudes of the user's site metadata lie between -180 and 180 for the converters that only use it",
    ]
    return c.validate("GeoTrace", events, meta=meta)
