"""C23: screening of lidar backscatter, its calibration and depolarisation."""
import datetime
import shutil
import types

import netCDF4
import numpy as np
from numpy import ma

from cloudnetpy.instruments import ceilo2nc, pollyxt2nc
from cloudnetpy.instruments import vaisala
from vlib import enc, outcome, where

FILL, NAN = -999999, -888888
META = {"name": "Somewhere", "latitude": 52.0, "longitude": 14.0, "altitude": 100.0}
DAY = datetime.datetime(2021, 3, 5)
UNIT = 1e-11
KINDS = ["chm15k", "chm15k", "cl61d", "cl61d", "cl61d", "da10", "cl31", "cs135", "chm-old"]


def screening(rng, tall=False):
    kind = rng.choice(KINDS)
    d = rng.choice([100, 100, 100, 50])
    st = rng.choice([1, 5, 10, 20])
    sg = 1
    if not tall and kind in ("cl61d", "chm15k", "da10") and rng.random() < 0.3:
        d, sg = rng.choice([(20, 5), (10, 10), (5, 20)])
    n_gates = rng.choice([100 + (20 * k * d) // d + rng.choice([0, 0, 3, 19]) for k in (1, 1, 2)]) if tall else rng.randint(28, 64)
    if tall:
        d = 100
    # wide enough that neighbours hardly matter
    sg = {100: 1, 50: 1 if False else None}.get(d, sg) if sg == 1 else sg
    if sg is None:
        d, sg = 100, 1
    n = rng.randint(2, 4) if st == 1 else rng.randint(3, 9)
    half = kind in ("cl31", "cs135")
    pos = [2 * g - 1 for g in range(1, n_gates + 1)] if half else list(range(1, n_gates + 1))
    unit = d / 2 if half else d
    fac = round(1e4 / (unit / 10) ** 2 )
    rc = kind == "chm-old" or rng.random() < 0.75
    smoothed = rc and kind != "cs135"
    nmin, nsm = (3100, 1100) if kind == "cl31" else (100, 400)
    nneg = 20 if kind in ("cl31", "chm-old") else 5
    last = n_gates if rc or kind != "cl31" else sum(p * unit < 2400 for p in pos)
    low = sum(p * unit <= 10000 for p in pos)
    return {"kind": kind, "st": st, "sg": sg, "d": d, "pos": pos, "fac": fac * 1, "rc": rc, "smoothed": smoothed, "nmin": nmin, "nsm": nsm, "nneg": nneg,
            "last": last, "low": low, "n": n, "N": n_gates, "unit": unit, "half": half}


def field(rng, nprng, s, tall):
    """Backscatter with the correction for range undone, and then applied."""
    n, m = s["n"], s["N"]
    r2 = np.array([(p * s["unit"] / 1000) ** 2 for p in s["pos"]])
    base = rng.choice([15, 60, 120, 120, 300, 700])
    u = nprng.normal(0, base, (n, m))
    top = m - max(1, m // 10) - 2
    a = rng.randint(0, m // 2)
    layer = slice(a, a + rng.randint(2, m // 3))
    u[:, layer] += 5 * max(base, s["nmin"]) * rng.choice([0.2, 0.7, 1.5, 4, 20])
    clear = False
    for t in range(n):
        x = rng.random()
        g = rng.randint(0, top - 4)
        if x < 0.25:   # a cloud
            u[t, g:g + rng.randint(1, 4)] = rng.choice([3e5, 9e5, 4e6, 2e7])
        elif x < 0.5:  # a run of negative values, about as long as is tolerated
            k = s["nneg"] + rng.choice([-1, 0, 1, 1, 2, 4])
            g = rng.choice([0, rng.randint(0, 8), rng.randint(0, max(0, top - k)), rng.randint(0, max(0, top - k))])
            u[t, g:g + k] = -nprng.uniform(60, 3000, len(u[t, g:g + k]))
            if rng.random() < 0.6:
                h = rng.randint(0, m - 1)
                u[t, h:h + 3] = rng.choice([3e5, 7e5, 9e5, 4e6])
        elif x < 0.65:  # fog
            fog = nprng.uniform(0.3, 1.7, 20) * rng.choice([0.8, 1.2, 2, 4]) * 5e6
            u[t, :20] = fog / r2[:20]
            if rng.random() < 0.6:
                h = rng.randint(12, top)
                u[t, h:h + 4] = [1e5, 1.5e5, 2.5e5, 1.6e5]
        elif x < 0.75:  # a dead receiver
            u[t, top:] = rng.choice([0, 1, 50])
        elif x < 0.8:
            u[t] *= rng.choice([0.1, 3])
        clear = clear or x >= 0.8
        if rng.random() < 0.2:
            u[t, :rng.randint(1, 6)] = -nprng.uniform(60, 500)
    if tall:
        for t in range(n):
            if rng.random() < 0.6:   # sunlight at many heights
                k = rng.choice([12, 14, 15, 16, 20])
                b = (m - s["low"]) // 20
                for layer in rng.sample(range(20), k):
                    u[t, s["low"] + layer * b + rng.randrange(b)] = 2500
                u[t, top:] *= 1
    u[:, top:] = np.clip(u[:, top:], -2900, 2900)
    r = np.rint(u * np.where(np.arange(m) < s["last"], r2, 1)).clip(-1e5, 9e7).astype(int)
    if rng.random() < 0.35 and not s["half"]:
        if rng.random() < 0.7:
            r = np.where(nprng.random((n, m)) < 0.02, FILL, r)
        if rng.random() < 0.3:
            r[rng.randrange(n), :] = FILL
        if np.all(r == FILL):
            r[0] = 5
    return r


def depolarisation(rng, nprng, n, m):
    d = nprng.choice([-500, 0, 1, 300, 4000, 10000, 10200, 30000], (n, m))
    if rng.random() < 0.6:
        d = np.where(nprng.random((n, m)) < 0.1, nprng.choice([FILL, NAN]), d)
    return d


def nc_file(path, s, r, rng, nprng, site, d):
    n, m = r.shape
    missing = r == FILL
    beta = np.where(missing, 0, r) * UNIT
    x = np.array(s["pos"]) * float(s["d"])
    x = x + s["d"] / 2 if s["kind"].startswith("chm") else x - s["d"] / 2
    epoch = datetime.datetime(1904, 1, 1) if s["kind"].startswith("chm") else datetime.datetime(1970, 1, 1)
    cal = site.get("calibration_factor", 3e-12 if s["kind"].startswith("chm") else 1.0)
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", n)
        nc.createDimension("range", m)
        t = nc.createVariable("time", "f8", ("time",))
        t.units = f"seconds since {epoch:%Y-%m-%d} 00:00:00.000 00:00" if epoch.year == 1904 else "seconds since 1970-01-01 00:00:00.000"
        t[:] = (DAY - epoch).total_seconds() + s["t0"] + s["dt"] * np.arange(n)
        nc.createVariable("range", rng.choice(["f4", "f8"]), ("range",))[:] = x
        raw = beta / cal
        if s["kind"].startswith("chm"):
            nc.title, nc.device_name = "CHM15k Nimbus", rng.choice(["CHM170137", "CHX190001"])
            nc.software_version = "12.12.1 2.13 1.040 0"
            nc.createVariable("zenith", "f4", ())[:] = rng.choice([0, 2])
            name = rng.choice(["beta_raw", "beta_att"])
            if s["kind"] == "chm-old":
                nc.software_version = np.int32(7) if rng.random() < 0.5 else "1 2 0.559 0"
                std = nprng.choice([1.0, 2.0, 0.25], n)
                apd = nprng.choice([3685, 3680, 3690], n) if rng.random() < 0.5 else nprng.choice([140, 145, 135], n)
                step, ref, scale = (1.24, 140, 5) if apd[0] < 1000 else (1.035, 3685, 1)
                nc.createVariable("stddev", "f8", ("time",))[:] = std
                nc.createVariable(rng.choice(["nn1", "NN1"]), "f8", ("time",))[:] = apd
                raw = raw / (std * step ** ((apd - ref) / scale))[:, np.newaxis] / (np.array(s["pos"]) * float(s["d"])) ** 2
        else:
            nc.title = "CL61-D, Profiling Ceilometer, rev A" if s["kind"] == "cl61d" else "Vaisala DIAL Atmospheric Profiler DA10"
            name = "beta_att"
            if rng.random() < 0.5:
                nc.createVariable("tilt_angle", "f4", ("time",))[:] = 0.5
            if s["kind"] == "cl61d":
                p = nprng.choice([1.0, 2.0, 0.5], (n, m))
                cross = np.where(d < -5000, 0.3, d * 1e-4) * p
                p = np.where(d == NAN, 0, p)
                gone = d == FILL
                which = nprng.random((n, m)) < 0.5
                for v, a, k in (("p_pol", p, gone & which), ("x_pol", cross, gone & ~which)):
                    nc.createVariable(v, "f8", ("time", "range"))[:] = ma.array(a, mask=k)
        v = nc.createVariable(name, "f8" if s["kind"] == "chm-old" else rng.choice(["f4", "f8"]), ("time", "range"))
        nan = missing & (rng.random() < 0.4) & ~np.all(missing, axis=1)[:, np.newaxis]
        s["nan"] = bool(nan.any())
        v[:] = ma.array(np.where(nan, np.nan, raw), mask=missing & ~nan)


def messages(s, r, cal):
    """What the reader of the text files of Vaisala and Campbell returns."""
    times = [DAY + datetime.timedelta(seconds=s["t0"] + s["dt"] * t) for t in range(len(r))]
    data = [types.SimpleNamespace(range_resolution=s["d"], beta=x * UNIT / cal, tilt_angle=1.0) for x in r]
    return times, data


def convert(c, s, r, rng, nprng, i):
    n, m = r.shape
    s["t0"], s["dt"] = rng.choice([0, 3600, 40000]), {1: 600, 5: 120, 10: 60, 20: 30}[s["st"]]
    site = dict(META)
    if not s["rc"]:
        site["range_corrected"] = False
    if s["kind"] == "da10" or (s["kind"] == "cl61d" and rng.random() < 0.3):
        site["model"] = s["kind"]
    if rng.random() < 0.8:
        site["calibration_factor"] = rng.choice([1.0, 2.5, 1.4]) if not s["kind"].startswith("chm") else rng.choice([3e-12, 5.2e-12, 1e-11])
    d = depolarisation(rng, nprng, n, m) if s["kind"] == "cl61d" else np.zeros((0, m))
    raw, out = c.scratch / f"{i}.nc", c.scratch / f"{i}_out.nc"
    # a set of values that the file can hold
    old = None
    if s["half"]:
        name = "read_cl_file" if s["kind"] == "cl31" else "read_cs_file"
        cal = site.get("calibration_factor", 1.0)
        site["model"] = s["kind"]
        raw.write_text("-")
        old = getattr(vaisala, name, None)
        setattr(vaisala, name, lambda *_a, **_k: messages(s, r, cal))
    else:
        nc_file(raw, s, r, rng, nprng, site, d)
    try:
        status, err = outcome(ceilo2nc, str(raw), str(out), site, date="2021-03-05")
    finally:
        if old is not None:
            setattr(vaisala, name, old)
    e = {"ev": "screen", "status": status, "R": r.tolist(), "D": d.astype(int).tolist(), "rows": [], "braw": [], "beta": [], "bsm": [], "draw": [], "dep": [],
         "physical": True, "factor": True, **{k: s[k] for k in ("kind", "st", "sg", "pos", "fac", "rc", "smoothed", "nmin", "nsm", "nneg", "last", "low")}}
    if status == "ok":
        with netCDF4.Dataset(out) as nc:
            t = np.array(nc["time"][:]).astype(float) * 3600
            e["rows"] = [int(round((x - s["t0"]) / s["dt"])) + 1 for x in t]
            v = {k: nc[k][:] for k in ("beta_raw", "beta", "beta_smooth")}
            want = site.get("calibration_factor", 3e-12 if s["kind"].startswith("chm") else 1.0)
            e["factor"] = bool(np.isclose(float(nc["calibration_factor"][:]), want, rtol=1e-6))
            if s["kind"] == "cl61d":
                v.update({k: nc[k][:] for k in ("depolarisation", "depolarisation_raw")})
        e["braw"], e["beta"], e["bsm"] = (enc(np.ma.clip(v[k], -2e-3, 2e-3), 1 / UNIT) for k in ("beta_raw", "beta", "beta_smooth"))
        for k in ("beta", "beta_smooth"):
            x = v[k].compressed() if ma.isMaskedArray(v[k]) else v[k].ravel()
            e["physical"] &= bool(np.all(np.isfinite(x)) and np.all(x > 0))
        if "depolarisation" in v:
            e["dep"], e["draw"] = enc(v["depolarisation"], 1e4), enc(ma.clip(v["depolarisation_raw"], -100, 100), 1e4)
    for p in (raw, out):
        p.unlink(missing_ok=True)
    return e, "" if status == "ok" else where(err)


def polly(c, rng, nprng, i):
    """PollyXT files; some pairs have nothing at 1064 nm."""
    m = rng.randint(3, 8)
    folder = c.scratch / f"polly{i}"
    folder.mkdir()
    site = dict(META)
    limit = 2.0
    if rng.random() < 0.5:
        site["snr_limit"] = limit = rng.choice([1.0, 5.0, 3.5])
    channel = rng.choice(["1064", "1064", "532", "355"])
    e = {"ev": "polly", "R": [], "D": [], "snr": [], "factors": [], "channel": int(channel), "wavelength": 0, "limit": round(limit * 10), "rows": [], "physical": True, "cal": [],
         **{k: [] for k in ("braw", "beta", "draw", "dep")}}
    t0, dt = rng.choice([0, 36000]), 30
    for f in range(rng.randint(1, 3)):
        n = rng.randint(1, 5)
        r = nprng.choice([-500, 0, 3, 1000, 54321, 9000000, 45], (n, m))
        d = nprng.choice([-300, 0, 10, 5000, 10000, 10300], (n, m))
        snr = nprng.choice([-20, 0, 9, 11, 19, 21, 34, 36, 49, 51, 300], (n, m))
        if rng.random() < 0.6:
            r = np.where(nprng.random((n, m)) < 0.2, FILL, r)
            d = np.where(nprng.random((n, m)) < 0.2, FILL, d)
        if rng.random() < 0.4:
            r[rng.randrange(n), :] = FILL
        nan = (nprng.random((n, m)) < 0.5) & (rng.random() < 0.3)
        gone = np.all(r == FILL, axis=1)[:, np.newaxis]
        t = t0 + dt * np.arange(len(e["R"]), len(e["R"]) + n)
        factor = 1000 + f
        for kind in ("att_bsc", "vol_depol"):
            with netCDF4.Dataset(folder / f"2021_03_05_{f:02d}_00_{f}{f}_{kind}.nc", "w") as nc:
                nc.source = "arielle"
                nc.createDimension("time", n)
                nc.createDimension("height", m)
                v = nc.createVariable("time", "f8", ("time",))
                v.unit = v.units = "seconds since 1970-01-01 00:00:00 UTC"
                v[:] = (DAY - datetime.datetime(1970, 1, 1)).total_seconds() + t
                nc.createVariable("height", "f4", ("height",))[:] = 7.5 * np.arange(1, m + 1)
                if kind == "att_bsc":
                    for ch in ("1064", "532", "355"):
                        v = nc.createVariable(f"attenuated_backscatter_{ch}nm", "f8", ("time", "height"))
                        v.Lidar_calibration_constant_used = factor if ch == channel else 5
                        better = int(ch) > int(channel)
                        miss = r == FILL
                        if better:
                            x = ma.array(np.zeros((n, m)), mask=rng.random() < 0.5)
                        elif ch == channel:
                            x = ma.array(np.where(miss & nan & ~gone, np.nan, np.where(miss, 0, r) * UNIT), mask=miss & ~(nan & ~gone))
                        else:
                            x = 7e-6 * np.ones((n, m))
                        v[:] = x
                        nc.createVariable(f"SNR_{ch}nm", "f8", ("time", "height"))[:] = snr / 10 if ch == channel else 100 - snr
                else:
                    v = nc.createVariable("volume_depolarization_ratio_532nm", "f8", ("time", "height"))
                    v[:] = ma.array(np.where(d == FILL, np.nan if rng.random() < 0.3 else 0, d / 1e4), mask=(d == FILL) & True)
        e["R"] += r.tolist()
        e["D"] += d.tolist()
        e["snr"] += snr.tolist()
        e["factors"] += [factor] * n
    if not np.any((np.array(e["R"]) != FILL) & (np.array(e["R"]) != 0)) or sum(x for row in e["R"] for x in row if x != FILL) == 0:
        e["R"] = None
        return e, ""
    out = c.scratch / f"polly{i}.nc"
    e["status"], err = outcome(pollyxt2nc, str(folder), str(out), site, date="2021-03-05")
    if e["status"] == "ok":
        with netCDF4.Dataset(out) as nc:
            t = np.array(nc["time"][:]).astype(float) * 3600
            e["rows"] = [int(round((x - t0) / dt)) + 1 for x in t]
            v = {k: nc[k][:] for k in ("beta_raw", "beta", "depolarisation_raw", "depolarisation")}
            e["wavelength"] = enc(nc["wavelength"][:])
            e["cal"] = enc(nc["calibration_factor"][:])
        e["braw"], e["beta"] = (enc(v[k], 1 / UNIT) for k in ("beta_raw", "beta"))
        e["draw"], e["dep"] = (enc(v[k], 1e4) for k in ("depolarisation_raw", "depolarisation"))
        x = v["beta"].compressed() if ma.isMaskedArray(v["beta"]) else v["beta"].ravel()
        e["physical"] = bool(np.all(np.isfinite(x)))
    shutil.rmtree(folder)
    out.unlink(missing_ok=True)
    return e, "" if e["status"] == "ok" else where(err)


def run(c):
    rng = c.rng
    c.model_check("MCNoise", "MCNoiseBig.cfg" if c.thorough else "MCNoise.cfg")
    nprng = c.nprng("noise")
    events, meta = [], []
    for i in range(c.n(160, 2500)):
        tall = rng.random() < 0.2
        s = screening(rng, tall)
        r = field(rng, nprng, s, tall)
        e, err = convert(c, s, r, rng, nprng, i)
        events.append(e)
        meta.append({"error": err, "kind": s["kind"], "nan": s.get("nan")})
    for i in range(c.n(80, 1000)):
        e, err = polly(c, rng, nprng, i)
        if e["R"] is not None:
            events.append(e)
            meta.append({"error": err, "kind": "polly"})
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("NoiseTrace", events, meta=meta, chunk=10)
    c.extra["days"] = len(events)
    c.assumptions.append("values within about 2 % of a threshold, and profiles whose fog or negative runs depend on such, may go either way; "
                         "messages of Vaisala and Campbell text files come from a stand-in for their reader")
