"""C30: which profiles and pixels of a cloud radar get into its product."""
import datetime

import netCDF4
import numpy as np
from numpy import ma

from cloudnetpy import instruments
from vlib import FILL, enc, outcome, where

DAY = datetime.date(2023, 5, 14)
EPOCH = int(datetime.datetime(2023, 5, 14, tzinfo=datetime.timezone.utc).timestamp())
ELS = [9000, 9000, 9000, 9005, 9030, 8960, 9062, 9105, 8895, 9118, 8500, 4500]
AZS = [0, 0, 0, 3, 6, 20, 18000, 35997, 9000]


def masked(x, scale=0.01):
    x = np.array(x, float)
    return ma.masked_where(x == FILL, x * scale)


def write(path, e, rng, old):
    radar, n, m = e["radar"], len(e["time"]), len(e["rng"])
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", None)
        nc.createDimension("range", m)

        def put(name, value, dims, typ="f4"):
            nc.createVariable(name, typ, dims)[:] = value
            return nc[name]

        tr = ("time", "range")
        if radar == "mira":
            nc.hrd = old["hrd"]
            for k, x in (("nfft", 256), ("prf", 5000), ("nave", 200), ("rg0", 3), ("NyquistVelocity", 10.0)):
                put(k, x, ())
            put("time", [EPOCH + t for t in e["time"]], ("time",), "i4")
            put("range", e["rng"], ("range",))
            if e["tpow"]:
                put("tpow", masked(e["tpow"]), ("time",))
            if not old["angles"]:
                put("elv", masked(e["el"]), ("time",))
                put("azi", masked(e["az"]), ("time",))
            for k, name in (("z", "Zg"), ("ldr", "LDRg"), ("snr", "SNRg")):
                put(name, 10 ** (masked(e[k]) / 10), tr)
            put("VELg", masked(e["v"]), tr)
            put("RMSg", masked(e["w"]), tr)
        elif radar == "basta":
            nc.setncatts({"year": str(DAY.year), "month": f"{DAY.month:02}", "day": f"{DAY.day:02}"})
            put("time", e["time"], ("time",), "f8").units = f"seconds since {DAY} 00:00:00"
            put("range", e["rng"], ("range",), "f8")
            put("elevation", 90, ())
            put("ambiguous_velocity", 9.9, ())
            for k in ("radar_pitch", "radar_yaw", "radar_roll"):
                put(k, 0.1, ("time",))
            put("reflectivity", masked(e["z"]), tr)
            put("velocity", masked(e["v"]), tr)
            put("background_mask", e["valid"], tr, "i1")
        else:
            put("time", e["time"], ("time",)).units = f"seconds since {DAY} 00:00:00 +00:00"
            r = put("range", e["rng"], ("range",))
            r.units = "m"
            for k, x in (("antenna_diameter", 2.4), ("beamwidthV", 0.28), ("beamwidthH", 0.28), ("height", 90.0), ("prf", 5000)):
                put(k, x, ())
            nc["height"].units = "m"
            put("elevation", masked(e["el"]), ("time",))
            put("azimuth", masked(e["az"]), ("time",))
            z = put("ZED_HC", masked(e["z"]), tr)
            if radar == "copernicus":
                if old["zapplied"] is not None:
                    z.applied_calibration_offset = old["zapplied"]
                if old["rapplied"] is not None:
                    r.range_offset = old["rapplied"]
            put("VEL_HC", masked(e["v"]), tr).folding_velocity = 11.0
            put("SPW_HC", masked(e["w"]), tr)
            put("LDR_C" if radar == "copernicus" else "LDR_HC", masked(e["ldr"]), tr)
            put("SNR_HC", masked(e["snr"]), tr)


def run(c):
    rng, nr = c.rng, c.nprng("c30")
    cases = c.cases(c.model_check("MCPointing", "MCPointing.cfg"))
    if c.thorough:
        c.model_check("MCPointing", "MCPointingBig.cfg")
    events, meta = [], []
    counts = {}

    def holes(x, p):
        x = np.array(x)
        x[nr.random(x.shape) < p] = FILL
        return x.tolist()

    def one(radar, el, az, plain):
        n = len(el)
        m = {"mira": 5, "copernicus": 56, "galileo": 19, "basta": 6}[radar]
        site = {"name": "Test", "altitude": 100, "latitude": 50.0, "longitude": 10.0}
        step = rng.choice([10, 30, 600])
        e = {"radar": radar, "time": [rng.choice([3600, 7200])] * n, "el": el, "az": az, "offel": 0, "offaz": 0, "tpow": [], "low": 0, "times": 1,
             "lim": 0, "zoff": 0, "pol": True, "roff": 0, "valid": [], "snr": [], "w": [], "ldr": [],
             "otime": [], "ozen": [], "oaz": [], "orng": [], "oz": [], "ov": [], "ow": [], "oldr": [], "osnr": []}
        e["time"] = [e["time"][0] + step * t for t in range(n)]
        old = {"hrd": "", "angles": False, "zapplied": None, "rapplied": None}
        shape = (n, m)
        p = rng.choice([0, 0.1, 0.4])
        pickv = lambda values: nr.choice(values, shape).tolist()
        e["rng"] = [30 * (g + 1) for g in range(m)]
        if radar == "mira":
            model = rng.choice(["", "mira-35", "mira-35s", "mira-35c", "mira-10"])
            if model:
                site["model"] = model
            e["lim"] = -3000 if model == "mira-10" else -1700
            if rng.random() < 0.3:
                site["snr_limit"] = rng.choice([-25, 0.0, 3, None])
                e["lim"] = e["lim"] if site["snr_limit"] is None else int(site["snr_limit"] * 100)
            near = [e["lim"] + d for d in (-1500, -200, -10, 10, 300, 2000)]
            e["snr"] = pickv(near)
            e["low"] = 50 if model == "mira-35c" else 500
            sn, fzk = rng.choice(["abc", "abc", "fzk"]), rng.random() < 0.5
            e["times"] = 100 if sn == "fzk" and not fzk else 1
            pol = rng.choice([1, 1, 1, 0])
            e["pol"] = pol == 1
            old["hrd"] = f"XMT: 35.1E9\nSN: {sn}\nPOL: {pol}\n" + ("FZK100:      1.00000\n" if fzk else "")
            if rng.random() < 0.8:
                f = e["low"] / e["times"]
                e["tpow"] = [int(round(f * rng.choice([4, 4, 4, 1.2, 1.2, 0.8, 0.2]))) if not plain else int(4 * f) for _ in range(n)]
            if rng.random() < 0.3:
                site["zenith_offset"] = rng.choice([0.5, -0.5])
                e["offel"] = int(site["zenith_offset"] * 100)
            if rng.random() < 0.3:
                site["azimuth_offset"] = rng.choice([2.5, -30])
                e["offaz"] = int(site["azimuth_offset"] * 100)
            if not plain and rng.random() < 0.1:
                old["angles"] = True
                e["el"], e["az"] = [FILL] * n, [FILL] * n
            e["z"], e["v"] = holes(pickv(range(-5000, 2000, 10)), p), holes(pickv(range(-1000, 500)), p)
            e["w"] = holes(pickv(range(5, 300)), p)
            kind = rng.random()
            e["ldr"] = holes(pickv(range(-3000, -900, 10) if kind < 0.5 else range(300, 2000, 10) if kind < 0.7 else [*range(-3000, -2000, 10), *range(200, 1000, 40)] if kind < 0.85 else [-500, -100, 2000]), p)
        elif radar == "basta":
            e["z"], e["v"] = holes(pickv(range(-5000, 2000, 10)), 0), holes(pickv(range(-900, 500)), 0)
            e["valid"] = pickv([0, 1, 1])
        else:
            e["z"], e["v"] = holes(pickv(range(-5000, 2000, 10)), p), holes(pickv([*range(-890, 890)] + 300 * [905, -905, 960, -1200]), p)
            e["w"] = holes(pickv([*range(5, 290)] + 60 * [305, 400]), p)
            e["ldr"] = holes(pickv([*range(-3000, -600, 10), *range(-490, 300, 5)]), p)
            if radar == "copernicus":
                e["snr"] = [pickv(range(-1000, -500)), pickv([-500, -300, 0, 400])][rng.random() < 0.5]
                top = rng.choice([50, 30])
                s = np.array(e["snr"])
                s[:, :m - top] = nr.choice([-900, -400, -100, 100, 300, 2000], (n, m - top))
                e["snr"] = s.tolist()
                r0 = rng.choice([600, 660, 60])
                e["rng"] = [r0 + 30 * g for g in range(m)]
                old["rapplied"] = rng.choice([None, 0, -720, -700])
                if rng.random() < 0.3:
                    site["range_offset"] = rng.choice([-600, -30])
                e["roff"] = site.get("range_offset", -720) - (old["rapplied"] or 0)
                old["zapplied"] = rng.choice([None, 0, -146.5])
                if rng.random() < 0.3:
                    site["Zh_offset"] = rng.choice([-147.5, 3.25])
                e["zoff"] = int(round(100 * (site.get("Zh_offset", -149.5) - (old["zapplied"] or 0))))
                if e["rng"][-1] + e["roff"] < 300:
                    e["rng"] = [600 + r for r in e["rng"]]
            else:
                e["lim"] = 300
                if rng.random() < 0.3:
                    site["snr_limit"] = rng.choice([-5, 6])
                    e["lim"] = 100 * site["snr_limit"]
                e["snr"] = pickv([e["lim"] + d for d in (-600, -100, -10, 10, 200, 2000, 2000)])
                z = np.array(e["z"])
                k = (nr.random(shape) < 0.3) & (z != FILL)
                z[k] = nr.choice([-1510, -1490], k.sum())
                e["z"] = z.tolist()
                r0 = rng.choice([-90, -30, 0, 30])
                e["rng"] = [r0 + 30 * g for g in range(m)]
        raw, out = c.scratch / ("raw.mmclx" if radar == "mira" else "raw.nc"), c.scratch / "out.nc"
        raw.unlink(missing_ok=True)
        out.unlink(missing_ok=True)
        write(raw, e, rng, old)
        st, err = outcome(getattr(instruments, radar + "2nc"), str(raw), str(out), site, date=str(DAY))
        e["status"] = st
        if st == "ok":
            with netCDF4.Dataset(out) as nc:
                e["otime"] = enc(nc["time"][:], 3600)
                e["orng"] = enc(nc["range"][:])
                if radar != "basta":
                    e["ozen"], e["oaz"] = enc(nc["zenith_angle"][:], 100), enc(nc["azimuth_angle"][:], 100)
                for k, name in (("oz", "Zh"), ("ov", "v"), ("ow", "width"), ("oldr", "ldr"), ("osnr", "SNR")):
                    if name in nc.variables:
                        e[k] = enc(nc[name][:], 100)
        counts[radar] = counts.get(radar, 0) + 1
        counts["not converted"] = counts.get("not converted", 0) + (st != "ok")
        events.append(e)
        meta.append({"radar": radar, "error": where(err) if st != "ok" else "", "site": site})

    for p in rng.sample(cases, min(len(cases), c.n(220, 4000))):
        # the behaviour of the model, framed by an antenna that stands still so that enough is left
        radar = rng.choice(["mira", "copernicus", "galileo"])
        pad = rng.choice([0, 0, 3])
        one(radar, p["el"] + [9000] * pad, p["az"] + [0] * pad, True)
    for _ in range(c.n(260, 4000)):
        radar = rng.choice(["mira", "mira", "copernicus", "galileo", "galileo", "basta"])
        n = rng.choice([1, 2, 3, 5, 8, 12]) if radar != "basta" else rng.choice([1, 3, 8])
        busy = rng.choice([0, 0.1, 0.3, 1])
        bad = [9000 + 9950, -950, 99900] if radar == "mira" else [20000]
        el = [9000 if rng.random() >= busy else rng.choice(ELS + [FILL] * 2 + bad) for _ in range(n)]
        az = [0 if rng.random() >= busy else rng.choice(AZS + [FILL] * 2 + ([100000, -50000] if radar == "mira" else [])) for _ in range(n)]
        if rng.random() < 0.1:
            az = [FILL] * n
        one(radar, el, az, rng.random() < 0.4)
    c.extra.update(counts)
    c.sample({k: events[0][k] for k in ("radar", "el", "az", "status", "otime")})
    c.validate("PointingTrace", events, meta=meta, chunk=max(8, len(events) // 4), parallel=4)
