"""Synthetic level 1b scenes (radar, lidar, model, radiometer, disdrometer) for the categorize generator.

A scene is a plain namespace of arrays that a check may alter before writing it;
what the generator makes of the written files is judged by the specification.
"""
from __future__ import annotations

import pathlib
from types import SimpleNamespace as NS

import netCDF4
import numpy as np
from numpy import ma

STEP = 30 / 3600.0
DATE = ("2023", "06", "15")


def bins(i):
    """Centre (decimal hours) of bins of the regular grid of the day."""
    return (np.asarray(i) + 0.5) * STEP


def base(n=120, m=24, *, altitude=50.0, dz=150.0, first=150.0, start=600, t0=288.0, lapse=6.5, kind="MIRA-35", freq=35.15, model_step=6.0,
         model="ecmwf", t_end=None, humid=0.95):
    """A dry, cloud-free scene of n bins starting at bin `start` of the day; time of the model covers the whole day."""
    s = NS(n=n, m=m, altitude=altitude, freq=freq, kind=kind, model=model, start=start)
    s.idx = np.arange(start, start + n)
    s.rtime = bins(s.idx)
    s.range = first + dz * np.arange(m)
    s.height = s.range + altitude
    s.Z = ma.masked_all((n, m))
    s.v = ma.masked_all((n, m))
    s.width = ma.masked_all((n, m))
    s.ldr = ma.masked_all((n, m))
    s.sldr = None
    s.rradar = None
    s.nyquist = 10.0
    s.ltime = bins(s.idx)
    s.lheight = s.height.copy()
    s.beta = ma.masked_all((n, m))
    s.beta[:, -1] = 1e-9  # every lidar profile has something in it, so that no time step is lost for it
    s.mtime = np.arange(0, 24.01, model_step)
    k = 40
    top = s.range[-1] + 3000.0
    lev = np.linspace(0.0, top, k)
    s.mheight = np.tile(lev, (len(s.mtime), 1))
    tt = np.linspace(t0, t_end if t_end is not None else t0, len(s.mtime))[:, None]
    s.temperature = ma.array(np.maximum(tt - lapse * 1e-3 * s.mheight, 195.0))
    s.pressure = ma.array(101325.0 * np.exp(-(s.mheight + altitude) / 8000.0))
    s.rh = ma.array(np.full(s.mheight.shape, humid))
    es = 611.2 * np.exp(17.62 * (s.temperature - 273.15) / (s.temperature - 30.03))
    s.q = ma.array(np.maximum(humid * 0.622 * es / s.pressure, 1e-9))
    s.uwind = ma.array(np.full(s.mheight.shape, 3.0))
    s.vwind = ma.array(np.full(s.mheight.shape, -2.0))
    s.wtime, s.lwp, s.lwp_flag = None, None, None      # microwave radiometer
    s.dtime, s.rate, s.npart, s.wawa = None, None, None, None  # disdrometer
    return s


def add_mwr(s, lwp, time=None):
    s.wtime = np.asarray(time if time is not None else bins(s.idx), float)
    s.lwp = ma.array(lwp)


def add_disdrometer(s, rate, npart=None, wawa=None, time=None):
    """rate in m s-1"""
    s.dtime = np.asarray(time if time is not None else bins(s.idx), float)
    s.rate = ma.array(rate)
    s.npart = ma.array(npart) if npart is not None else ma.array(np.full(len(s.dtime), 100))
    s.wawa = None if wawa is None else ma.array(wawa)


def _new(path, kind, source, uuid, history, location):
    pathlib.Path(path).unlink(missing_ok=True)
    nc = netCDF4.Dataset(str(path), "w", format="NETCDF4_CLASSIC")
    nc.year, nc.month, nc.day = DATE
    nc.location, nc.source = location, source
    nc.cloudnet_file_type = kind
    if uuid:
        nc.file_uuid = uuid
    if history:
        nc.history = history
    return nc


def _var(nc, name, dims, val, units, dtype="f8"):
    v = nc.createVariable(name, dtype, dims, fill_value=netCDF4.default_fillvals[dtype] if dims else None)
    v.units = units
    v[:] = val
    return v


HIST = "2023-06-15 {h:02d}:00:00 +00:00 - {k} file created"


def write(s, folder, *, tag="", location="Nowhere", only=None):
    """Write the files of the scene; returns the input dictionary of generate_categorize."""
    d = pathlib.Path(folder)
    files = {}
    want = only or ("radar", "lidar", "model", "mwr", "disdrometer")
    if "radar" in want:
        p = d / f"radar{tag}.nc"
        nc = _new(p, "radar", s.kind, f"{1:032x}", HIST.format(h=12, k="radar"), location)
        nc.createDimension("time", len(s.rtime))
        nc.createDimension("range", s.m)
        _var(nc, "time", ("time",), s.rtime, "hours since 2023-06-15 00:00:00 +00:00")
        _var(nc, "height", ("range",), s.height, "m")
        _var(nc, "range", ("range",), s.range, "m")
        moving = getattr(s, "lat", None)
        if moving is not None:
            _var(nc, "latitude", ("time",), s.lat, "degree_north")
            _var(nc, "longitude", ("time",), s.lon, "degree_east")
        else:
            _var(nc, "latitude", (), 60.5, "degree_north")
            _var(nc, "longitude", (), 25.25, "degree_east")
        for k, x, u in (("altitude", s.altitude, "m"), ("radar_frequency", s.freq, "GHz"), ("nyquist_velocity", s.nyquist, "m s-1")):
            _var(nc, k, (), x, u)
        for k, x, u in (("Zh", s.Z, "dBZ"), ("v", s.v, "m s-1"), ("width", s.width, "m s-1"), ("ldr", s.ldr, "dB"), ("sldr", s.sldr, "dB")):
            if x is not None:
                _var(nc, k, ("time", "range"), x, u)
        if s.rradar is not None:
            _var(nc, "rainfall_rate", ("time",), s.rradar, "m s-1")
        nc.close()
        files["radar"] = str(p)
    if "lidar" in want:
        p = d / f"lidar{tag}.nc"
        nc = _new(p, "lidar", "CHM 15k", f"{2:032x}", HIST.format(h=13, k="lidar"), location)
        nc.createDimension("time", len(s.ltime))
        nc.createDimension("range", len(s.lheight))
        _var(nc, "time", ("time",), s.ltime, "hours since 2023-06-15 00:00:00 +00:00")
        _var(nc, "height", ("range",), s.lheight, "m")
        _var(nc, "altitude", (), s.altitude, "m")
        _var(nc, "wavelength", (), 1064.0, "nm")
        _var(nc, "beta", ("time", "range"), s.beta, "sr-1 m-1")
        nc.close()
        files["lidar"] = str(p)
    if "model" in want:
        p = d / f"{s.model}{tag}.nc"
        nc = _new(p, "model", s.model, f"{3:032x}", "first line of the model\n" + HIST.format(h=9, k="model"), location)
        nc.createDimension("time", len(s.mtime))
        nc.createDimension("level", s.mheight.shape[1])
        _var(nc, "time", ("time",), s.mtime, "hours since 2023-06-15 00:00:00 +00:00")
        for k, u in (("mheight", "m"), ("temperature", "K"), ("pressure", "Pa"), ("q", "1"), ("rh", "1"), ("uwind", "m s-1"), ("vwind", "m s-1")):
            _var(nc, k.replace("mheight", "height"), ("time", "level"), getattr(s, k), u)
        nc.close()
        files["model"] = str(p)
    if "mwr" in want and s.wtime is not None:
        p = d / f"mwr{tag}.nc"
        nc = _new(p, "mwr", "HATPRO", f"{4:032x}", HIST.format(h=14, k="mwr"), location)
        nc.createDimension("time", len(s.wtime))
        _var(nc, "time", ("time",), s.wtime, "hours since 2023-06-15 00:00:00 +00:00")
        _var(nc, "lwp", ("time",), s.lwp, "kg m-2")
        if s.lwp_flag is not None:
            _var(nc, "lwp_quality_flag", ("time",), s.lwp_flag, "1", "i4")
        nc.close()
        files["mwr"] = str(p)
    if "disdrometer" in want and s.dtime is not None:
        p = d / f"disdrometer{tag}.nc"
        nc = _new(p, "disdrometer", "Parsivel", f"{5:032x}", HIST.format(h=15, k="disdrometer"), location)
        nc.createDimension("time", len(s.dtime))
        _var(nc, "time", ("time",), s.dtime, "hours since 2023-06-15 00:00:00 +00:00")
        if s.rate is not None:
            _var(nc, "rainfall_rate", ("time",), s.rate, "m s-1")
        if s.npart is not None:
            _var(nc, "n_particles", ("time",), s.npart, "1")
        if s.wawa is not None:
            _var(nc, "synop_WaWa", ("time",), s.wawa, "1", "i4")
        nc.close()
        files["disdrometer"] = str(p)
    return files


# ---- ingredients of random scenes: the generator only has to be varied, it decides nothing ----

def fill_echo(s, t, g, z, v, width=0.3, ldr=-28.0):
    """Radar echo in raw profiles t and gates g (index arrays or slices)."""
    s.Z[t, g], s.v[t, g] = z, v
    if s.width is not None:
        s.width[t, g] = width
    if s.ldr is not None and ldr is not None:
        s.ldr[t, g] = ldr


def liquid_layer(s, t, g, peak=1e-4):
    """A lidar peak with a sharp top at gate g, as seen at a liquid cloud base (needs gates of 60 m or less)."""
    for k, f in ((g - 1, 0.05), (g, 1.0), (g + 1, 0.1)):
        if 0 <= k < s.beta.shape[1]:
            s.beta[t, k] = peak * f
    for k in (g + 2, g + 3):
        if 0 <= k < s.beta.shape[1]:
            s.beta[t, k] = ma.masked


def random_scene(r, nr, *, n=None, m=None, rich=True, **kw):
    """r: random.Random, nr: numpy Generator"""
    n = n or r.choice([40, 80, 120])
    dz = r.choice([50.0, 100.0, 150.0])
    m = m or r.choice([24, 36, 48])
    t0 = r.choice([300.0, 288.0, 283.0, 279.0, 276.0, 271.0, 262.0])
    # the column usually reaches below freezing level, sometimes below -38 degC
    lapse = r.choice([6.5, 9.0, 20.0, 40.0])
    if r.random() < 0.9:
        lapse = max(lapse, (t0 - 268.0) / (dz * m * 1e-3))
    kind, freq = r.choice([("METEK MIRA-35", 35.15), ("RPG-FMCW-94", 94.0), ("BASTA", 95.0), ("Copernicus", 34.96), ("RPG-FMCW-35", 35.0)])
    s = base(n=n, m=m, dz=dz, first=r.choice([dz, 2 * dz]), altitude=r.choice([0.0, 15.0, 800.0]), start=r.randrange(0, 2880 - n), t0=t0,
             t_end=t0 + r.choice([0, 0, -6, 5]), lapse=lapse, kind=kind, freq=freq, humid=r.choice([0.05, 0.6, 0.95]), model=r.choice(["ecmwf", "gdas1", "icon"]), **kw)
    has = r.choice(["ldr", "ldr", "sldr", "none"])
    if has != "ldr":
        s.ldr = None
    if has == "sldr":
        s.sldr = ma.masked_all((n, m))
    if r.random() < 0.2:
        s.width = None
    cross = s.ldr if s.ldr is not None else s.sldr
    T = np.interp(s.range, s.mheight[0], s.temperature[0])
    for _ in range(r.randint(2, 7)):
        a, b = sorted(r.sample(range(n + 1), 2))
        g0, g1 = sorted(r.sample(range(m + 1), 2))
        what = r.choice(["cloud", "rain", "insects", "clutter", "noise"])
        t, g = slice(a, b), slice(g0, g1)
        if what == "cloud":
            z, v, w, l = r.uniform(-35, 5), r.uniform(-1.5, 0.3), 0.2, -28.0
        elif what == "rain":
            t, g = slice(a, b), slice(0, g1)
            z, v, w, l = r.uniform(5, 25), -5.0, 0.8, -27.0
        elif what == "insects":
            t, g = slice(a, b), slice(0, min(g1, 14))
            z, v, w, l = r.uniform(-35, -5), r.uniform(-0.5, 0.5), 0.15, r.uniform(-18, -8)
        elif what == "clutter":
            t, g = slice(a, b), slice(0, r.randint(1, 6))
            z, v, w, l = r.uniform(-30, 10), 0.0, 0.1, -20.0
        else:
            z, v, w, l = -30.0, -0.5, 0.3, -25.0
        shp = s.Z[t, g].shape
        keep = nr.random(shp) < (0.04 if what == "noise" else r.choice([1.0, 0.95, 0.7]))
        def put(arr, val, sd):
            if arr is None:
                return
            x = arr[t, g]
            x[keep] = (val + sd * nr.standard_normal(shp))[keep]
            arr[t, g] = x
        put(s.Z, z, 2.0)
        put(s.v, v, 0.0 if what == "clutter" else 0.15)
        put(s.width, w, 0.02)
        put(cross, l, 1.0)
        if what == "rain" and r.random() < 0.7:  # melting signature at 0 degC
            below = T[g] > 273.5
            fz = T[g] <= 273.5
            vv = s.v[t, g]
            vv[:, fz] = -1.0
            s.v[t, g] = vv
            if cross is not None:
                k = g.start + int(np.argmin(np.abs(T[g] - 274.0)))
                cross[t, k] = ma.where(s.Z[t, k].mask, ma.masked, -14.0)
    for _ in range(r.randint(1, 6)):
        a, b = sorted(r.sample(range(n + 1), 2))
        what = r.choice(["aerosol", "liquid", "liquid", "ice", "speckle"])
        if what == "aerosol":
            s.beta[a:b, :r.randint(1, m - 1)] = 1e-7
        elif what == "ice":
            g0, g1 = sorted(r.sample(range(m + 1), 2))
            s.beta[a:b, g0:g1] = 5e-7
        elif what == "liquid":
            g = r.randint(2, m - 6)
            for t in range(a, b):
                liquid_layer(s, t, min(max(g + r.choice([0, 0, 0, 1]), 1), m - 5), peak=r.choice([1e-4, 1e-5]))
            if r.random() < 0.5:  # echo in and above the layer, with a top
                k = r.randint(1, 5)
                fill_echo(s, slice(a, b), slice(max(g - 2, 0), min(g + k, m)), r.uniform(-35, -15), -0.4)
                if s.sldr is not None:
                    s.sldr[a:b, max(g - 2, 0):min(g + k, m)] = -27.0
        else:
            keep = nr.random((b - a, m)) < 0.05
            x = s.beta[a:b]
            x[keep] = 3e-7
            s.beta[a:b] = x
    if cross is not None:  # noise in the cross channel only
        cross[s.Z.mask] = ma.masked
        if r.random() < 0.4:
            cross[nr.random(cross.shape) < 0.3] = ma.masked
    if rich and r.random() < 0.75:
        lwp = ma.array(np.full(n, r.choice([0.0, 0.003, 0.05, 0.2, -0.01])) + 0.01 * nr.random(n))
        if r.random() < 0.5:
            a, b = sorted(r.sample(range(n + 1), 2))
            lwp[a:b] = ma.masked
        add_mwr(s, lwp)
        if r.random() < 0.3:
            s.lwp_flag = (nr.random(n) < 0.2).astype(int) * nr.integers(1, 4, n)
    if rich and r.random() < 0.7:
        rate = ma.array(np.zeros(n))
        for _ in range(r.randint(0, 3)):
            a, b = sorted(r.sample(range(n + 1), 2))
            rate[a:b] = r.choice([0.1, 0.3, 2.0, 10.0]) / 3.6e6
        if r.random() < 0.4:
            a, b = sorted(r.sample(range(n + 1), 2))
            rate[a:b] = ma.masked
        npart = ma.array(np.full(n, 100))
        if r.random() < 0.3:
            npart[nr.random(n) < 0.2] = 5
        wawa = None
        if r.random() < 0.5:
            wawa = ma.array(np.full(n, 61))
            a, b = sorted(r.sample(range(n + 1), 2))
            wawa[a:b] = r.choice([0, 56, 57, 68, 69, 71])
            if r.random() < 0.3:
                a, b = sorted(r.sample(range(n + 1), 2))
                wawa[a:b] = ma.masked
        keep = np.ones(n, bool)
        if r.random() < 0.3:
            a, b = sorted(r.sample(range(n + 1), 2))
            keep[a:b] = False
        if keep.sum() > 1:
            add_disdrometer(s, rate[keep], npart[keep], None if wawa is None else wawa[keep], bins(s.idx)[keep])
    return s
