"""C08: time steps, alignment and closed files of the categorize generator."""
import contextlib

import netCDF4
import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, outcome, where

M = 6  # gates
DIMS = {"time": "nt", "height": "nh", "model_time": "mt", "model_height": "mh"}
EXPECT = {  # documented dimensions
    **dict.fromkeys("Z v v_sigma width ldr Z_error radar_gas_atten radar_liquid_atten radar_rain_atten radar_melting_atten quality_bits insect_prob category_bits beta Tw".split(), ("time", "height")),
    **dict.fromkeys("rain_detected lwp lwp_error rainfall_rate synop_WaWa time latitude longitude altitude".split(), ("time",)),
    **dict.fromkeys("height Z_sensitivity".split(), ("height",)),
    **dict.fromkeys("temperature pressure q uwind vwind".split(), ("model_time", "model_height")),
    "model_time": ("model_time",), "model_height": ("model_height",),
}


def blank(n=2880, start=0):
    s = scene.base(n=n, m=M, start=start, dz=100.0, first=300.0, lapse=30.0, t0=283.0)
    # temperature rises linearly in time: what a step has tells where in the day it is from
    s.temperature = ma.array(s.temperature[0] + 0.25 * s.mtime[:, None])
    s.q = ma.array(np.full(s.temperature.shape, 1e-4))
    code(s)
    return s


def code(s):
    """Every value of a profile names the bin it was measured in."""
    b = np.floor(s.rtime * 120).astype(int)[:, None]
    ones = np.ones((1, M))
    s.Z, s.v, s.width = ma.array(-40 + 0.01 * b * ones), ma.array(-(1 + 0.001 * b) * ones), ma.array((0.1 + 1e-4 * b) * ones)
    s.ldr = ma.array(np.full(s.Z.shape, -27.0))
    s.lat, s.lon = 60 + 1e-3 * b[:, 0], 20 + 1e-3 * b[:, 0]
    b = np.floor(s.ltime * 120).astype(int)[:, None]
    s.beta = ma.array((1 + b) * 1e-10 * ones)


def take_radar(s, keep):
    for k in ("rtime", "Z", "v", "width", "ldr", "lat", "lon"):
        setattr(s, k, getattr(s, k)[keep])


def take_lidar(s, keep):
    s.ltime, s.beta = s.ltime[keep], s.beta[keep]


def run(c):
    rng, nr = c.rng, c.nprng("c08")
    cases = c.cases(c.model_check("MCGapScreen", "MCGapScreen.cfg"))
    events, meta = [], []
    runs = 0

    # what the model gives at the lowest gate at each bin when nothing is missing
    tt, ww = [], []
    for start in (0, 720, 1440, 2160, 2860):
        st, err, g = catrun.generate(c, blank(n=20, start=start))
        if st == "ok":
            tt += [float(x) for x in g["time"]]
            ww += [float(x) for x in g["Tw"][:, 0]]
    fit = np.polyfit(np.array(tt) * 120 - 0.5, ww, 4) if tt else [1, 0]
    table = np.polyval(fit, np.arange(2880))

    def sec(t):
        return [int(round(x * 3600)) for x in np.asarray(t)]

    def record(s, label, whole=None):
        nonlocal runs
        runs += 1
        st, err, g = catrun.generate(c, s)
        radar = [[t, int(b)] for t, b in zip(sec(s.rtime), np.rint((s.lat - 60) * 1000).astype(int))]
        full = [i for i in range(len(s.ltime)) if not ma.getmaskarray(s.beta[i]).all()]
        lidar = [[t, int(np.floor(t / 30))] for t in np.array(sec(s.ltime))[full]] if full else []
        lidar = [[int(a), b] for a, b in lidar]
        model = [[t, int(not ma.getmaskarray(s.temperature[i]).all())] for i, t in enumerate(sec(s.mtime))]
        have = lambda t, x: [a for a, m in zip(sec(t), ma.getmaskarray(x)) if not m]
        mwr = [] if s.wtime is None else have(s.wtime, s.lwp)
        dis = [] if s.dtime is None else have(s.dtime, s.rate)
        bins, ongrid, dims = [], True, []
        if st == "ok":
            x = np.asarray(g["time"], float) * 120 - 0.5
            bins = [int(b) for b in np.rint(x)]
            ongrid = bool(np.all(np.abs(x - np.rint(x)) < 0.01))
            with netCDF4.Dataset(c.scratch / "cat.nc") as nc:
                for name, var in nc.variables.items():
                    want = EXPECT.get(name)
                    if want is not None:
                        dims.append([name, int(var.dimensions == want)])
        dec = lambda v, f: [FILL if ma.is_masked(y) else int(round(float(f(float(y))))) for y in v]
        if bins:
            col = {
                "v": dec(g["v"][:, 2], lambda y: (-y - 1) * 1000), "width": dec(g["width"][:, 2], lambda y: (y - 0.1) * 1e4),
                "z": dec(g["Z"][:, 0] - g["radar_gas_atten"][:, 0], lambda y: (y + 40) * 100), "beta": dec(g["beta"][:, 2], lambda y: y * 1e10 - 1),
                "lat": dec(g["latitude"], lambda y: (y - 60) * 1000) if np.ndim(g["latitude"]) else [FILL], "lon": dec(g["longitude"], lambda y: (y - 20) * 1000) if np.ndim(g["longitude"]) else [FILL],
                "lwp": dec(g["lwp"], lambda y: y * 1e6) if "lwp" in g else [], "rate": dec(g["rainfall_rate"], lambda y: y * 1e10) if "rainfall_rate" in g else [],
                "tw": dec(g["Tw"][:, 0], lambda y: np.interp(y, table, np.arange(2880))),
            }
        else:
            col = dict.fromkeys(("v", "width", "z", "beta", "lat", "lon", "lwp", "rate", "tw"), [])
        size = 48
        for a in range(0, 2880, size):
            b = a + size - 1
            lo, hi = 30 * a, 30 * (b + 1)
            r = [x for x in radar if lo <= x[0] < hi]
            k = [i for i, x in enumerate(bins) if a <= x <= b]
            if not r and not k and rng.random() < 0.9:
                continue
            pick = lambda v: [v[i] for i in k] if v else []
            events.append({
                "ev": "window", "status": st, "source": label, "a": a, "b": b, "radar": r, "lidar": [x for x in lidar if lo - 120 <= x[0] < hi + 120], "model": model,
                "mwr": [x for x in mwr if lo - 200 <= x < hi + 200], "dis": [x for x in dis if lo - 200 <= x < hi + 200], "mext": [mwr[0], mwr[-1]] if mwr else ([] if s.wtime is None else [0, -1]),
                "dext": [dis[0], dis[-1]] if dis else ([] if s.dtime is None else [0, -1]),
                "bins": pick(bins), "ongrid": ongrid, "dims": dims if a == 0 or k else [], "whole": all(lo <= x[0] < hi for x in radar), **{key: pick(v) for key, v in col.items()},
            })
            meta.append(where(err) if st != "ok" else {"bins": f"{a}..{b}"})

    def extras(s, p=0.7):
        """Optional instruments with gaps of their own."""
        n = len(s.idx)
        t = scene.bins(s.idx)
        if rng.random() < p:
            keep = np.ones(n, bool)
            for _ in range(rng.randint(0, 3)):
                a = rng.randrange(n)
                keep[a:a + rng.choice([3, 8, 60])] = False
            if keep.sum() > 1:
                scene.add_mwr(s, (s.idx * 1e-6)[keep], t[keep])
                if rng.random() < 0.3:
                    a = rng.randrange(len(s.wtime))
                    s.lwp[a:a + 9] = ma.masked
        if rng.random() < p:
            keep = np.ones(n, bool)
            for _ in range(rng.randint(0, 3)):
                a = rng.randrange(n)
                keep[a:a + rng.choice([3, 8, 60])] = False
            if keep.sum() > 1:
                scene.add_disdrometer(s, (s.idx * 1e-10)[keep], np.full(keep.sum(), 5), np.full(keep.sum(), 61), t[keep])

    # patterns of the specification, twelve bins apart
    pat = rng.sample(cases, len(cases))
    per = 2880 // 12
    for i in range(c.n(2, 1 + len(pat) // per)):
        chosen = pat[i * per:(i + 1) * per]
        s = blank()
        s.ltime = s.ltime + rng.choice([-2, 2]) / 3600
        r, l = np.zeros(2880, bool), np.zeros(2880, bool)
        for k, p in enumerate(chosen):
            r[12 * k + 3:12 * k + 9], l[12 * k + 3:12 * k + 9] = p["radar"], p["lidar"]
        if i % 2:
            s.beta[~l] = ma.masked  # profiles without data
        else:
            take_lidar(s, l)
        take_radar(s, r)
        extras(s)
        record(s, "patterns")
    # hardly anything in common
    for k in range(c.n(12, 60)):
        start = 48 * rng.randrange(59)
        s = blank(n=40, start=start)
        r, l = np.zeros(40, bool), np.zeros(40, bool)
        common = k % 4
        pos = sorted(rng.sample(range(1, 39, 6), 6))
        r[pos[:common]] = l[pos[:common]] = True
        r[pos[3:5]] = True  # radar alone
        l[0] = l[39] = not r[:6].any() and not r[34:].any()
        if l.sum() == 0:
            l[pos[5]] = True
        if k % 8 < 4:
            s.beta[~l] = ma.masked
        else:
            take_lidar(s, l)
        take_radar(s, r)
        extras(s)
        record(s, f"{common} in common")
    # random gaps
    for i in range(c.n(50, 500)):
        n = rng.choice([40, 40, 100, 300])
        start = rng.choice([0, 2880 - n, 48 * rng.randrange((2880 - n) // 48 + 1), rng.randrange(2880 - n)])
        if n == 40:
            start -= start % 48
            start = min(start, 2832)
        s = blank(n=n, start=start)
        jit = nr.integers(-8, 9, n) / 3600
        s.rtime = s.rtime + jit
        s.ltime = s.ltime + nr.integers(-3, 4, n) * 2 / 3600
        code(s)
        keep = np.ones(n, bool)
        for _ in range(rng.randint(0, 4)):
            a = rng.randrange(n)
            keep[a:a + rng.choice([1, 2, 5, 9, n])] = False
        if rng.random() < 0.2:
            keep[:] = False
        for _ in range(2):
            keep[rng.randrange(n)] = True
        if keep.sum() < 2:
            keep[:2] = True
        take_radar(s, keep)
        if rng.random() < 0.3:  # radar sees nothing for a while
            a = rng.randrange(len(s.rtime))
            s.ldr[a:a + 6] = ma.masked
        keep = np.ones(n, bool)
        for _ in range(rng.randint(0, 4)):
            a = rng.randrange(n)
            keep[a:a + rng.choice([1, 4, 5, 6, 12, n])] = False
        if keep.sum() < 2:
            keep[rng.sample(range(n), 2)] = True
        if rng.random() < 0.5:
            s.beta[~keep] = ma.masked
        else:
            take_lidar(s, keep)
        if rng.random() < 0.05:
            s.beta[:] = ma.masked
        extras(s)
        what = rng.choice(["all", "all", "ends", "starts", "hole", "dense"])
        names = ("mtime", "temperature", "pressure", "rh", "q", "uwind", "vwind", "mheight")
        mid = s.idx[n // 2] / 120
        if what == "dense" or what in ("ends", "starts", "hole"):
            mt = np.unique(np.clip(np.array([0, mid - 0.31, mid - 0.1, mid + 0.05, mid + 0.17, 24]), 0, 24)) if what != "ends" else np.unique(np.clip([0, mid / 2, mid + 0.02], 0, 24))
            if what == "starts":
                mt = np.array([min(mid, 23.0), 23.5, 24])
            k = len(mt)
            s.mtime = mt
            for name in names[2:]:
                setattr(s, name, ma.array(np.repeat(ma.getdata(getattr(s, name))[:1], k, axis=0)))
            s.mheight = np.asarray(s.mheight)
            s.temperature = ma.array(s.temperature.data[0] + 0.25 * mt[:, None])
            if what == "hole":
                for name in names[1:-1]:
                    a = getattr(s, name)
                    a[k // 2] = ma.masked
                    setattr(s, name, a)
        record(s, f"gaps {what}")

    # files are closed whatever happens
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

    class Recorder(metaclass=Meta):
        """Remembers every file that is opened; strong references keep garbage collection from closing it."""

        def __new__(cls, *a, **k):
            d = real(*a, **k)
            opened.append((str(a[0]) if a else str(k.get("filename")), d))
            return d

    opened = []
    real = netCDF4.Dataset

    def close_run(s, fault, breaker, fails, exclude=None, drop=None):
        nonlocal runs
        runs += 1
        from cloudnetpy.categorize import generate_categorize

        files = scene.write(s, c.scratch, tag=f"x{runs}")
        if breaker:
            breaker(files)
        if drop:
            files.pop(drop)
        opened.clear()
        netCDF4.Dataset = Recorder
        try:
            st, err = outcome(generate_categorize, files, str(c.scratch / "out.nc"))
        finally:
            netCDF4.Dataset = real
        left = sorted(p.rsplit("/", 1)[-1] for p, d in opened if d.isopen() and p != files.get(exclude))
        for _, d in opened:
            with contextlib.suppress(RuntimeError):
                d.close()
        events.append({"ev": "close", "fault": fault, "status": st, "left": left, "fails": fails, "opened": len(opened)})
        meta.append(where(err) if st != "ok" else {"fault": fault})

    def scene_for_close():
        s = blank(n=40, start=rng.randrange(2000))
        scene.add_mwr(s, s.idx * 1e-6)
        scene.add_disdrometer(s, s.idx * 1e-10)
        return s

    def overwrite(key, text=b"no netCDF at all"):
        def f(files):
            from pathlib import Path
            Path(files[key]).write_bytes(text)
        return f

    def rename(key, var):
        def f(files):
            with real(files[key], "r+") as nc:
                nc.renameVariable(var, "gone")
        return f

    def setvar(key, var, fn):
        def f(files):
            with real(files[key], "r+") as nc:
                nc[var][:] = fn(nc[var][:])
        return f

    def remove(key):
        def f(files):
            files[key] = files[key] + ".missing"
        return f

    close_run(scene_for_close(), "nothing", None, False)
    close_run(scene_for_close(), "no radiometer", None, False, drop="mwr")
    close_run(scene_for_close(), "no disdrometer", None, False, drop="disdrometer")
    for key in ("radar", "lidar", "model", "mwr", "disdrometer"):
        close_run(scene_for_close(), f"{key}: not netCDF", overwrite(key), True, key)
        close_run(scene_for_close(), f"{key}: missing", remove(key), True, key)
    for key in ("radar", "lidar", "model"):
        close_run(scene_for_close(), f"{key}: not given", None, True, drop=key)
    for key, var in (("radar", "Zh"), ("radar", "v"), ("lidar", "beta"), ("model", "height"), ("mwr", "lwp")):
        close_run(scene_for_close(), f"{key}: no {var}", rename(key, var), True, key)
    close_run(scene_for_close(), "disdrometer: no rainfall_rate", rename("disdrometer", "rainfall_rate"), False, "disdrometer")
    for var in ("temperature", "pressure", "q", "uwind"):
        close_run(scene_for_close(), f"model: no {var}", rename("model", var), True)
    close_run(scene_for_close(), "radar: no latitude", rename("radar", "latitude"), True)
    close_run(scene_for_close(), "no overlap", setvar("lidar", "time", lambda t: (t + 12) % 24 * 0 + np.linspace(23.5, 23.9, len(t)) * (t[0] < 12) + np.linspace(0.1, 0.4, len(t)) * (t[0] >= 12)), True)
    close_run(scene_for_close(), "nothing in the model", setvar("model", "temperature", lambda t: ma.masked_all(t.shape)), True)

    c.extra["runs"] = runs
    c.extra["kept steps"] = sum(len(e["bins"]) for e in events if e["ev"] == "window")
    c.extra["dropped radar bins"] = sum(len({x[0] // 30 for x in e["radar"]}) - len(e["bins"]) for e in events if e["ev"] == "window" and e["status"] == "ok")
    c.sample({k: events[0][k] for k in ("a", "b", "bins", "radar")})
    c.validate("GapTrace", events, meta=meta, traces=runs)
    c.assumptions.append("The file whose own opening fails is not required to be closed explicitly (it is closed when its object is collected)")
