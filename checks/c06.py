"""C06: interpolation onto the common grid, and its gap limits."""
import netCDF4
import numpy as np
from numpy import ma

from vlib import FILL, enc, outcome

H = 1 / 64


def series_event(name, series, targets, limit, method, st, out, *, exact=True, tol=2):
    return {"kind": "series", "ev": name, "series": series, "targets": targets, "limit": limit, "exact": exact, "method": method, "tol": tol,
            "status": st, "out": enc(out, 1000) if st == "ok" else []}


def common(nc, n, m, times, heights):
    nc.createDimension("time", n)
    nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type = "2021", "03", "05", "X", "x"
    nc.createVariable("time", "f8", ("time",))[:] = times
    if m:
        nc.createDimension("range", m)
        v = nc.createVariable("height", "f8", ("range",))
        v[:] = heights
        v.units = "m"
    nc.createVariable("altitude", "f4", ())[:] = 0
    nc["altitude"].units = "m"


def run(c):
    from cloudnetpy import utils
    from cloudnetpy.categorize.disdrometer import Disdrometer
    from cloudnetpy.categorize.lidar import Lidar
    from cloudnetpy.categorize.mwr import Mwr

    rng = c.rng
    res = c.model_check("MCInterp", "MCInterp.cfg")
    cases = c.cases(res)
    events = []

    # ---- one-dimensional -----------------------------------------------------
    def oned(series, targets, limit, method):
        t = np.array([s["t"] for s in series]) * H
        bad = np.array([not s["ok"] for s in series])
        hidden = rng.choice([7.0, -1e20, np.nan])
        y = ma.array([s["v"] if s["ok"] else hidden for s in series], mask=bad, dtype=float)
        if not bad.any() and rng.random() < 0.5:
            y = ma.array(y.data)
        st, o = outcome(utils.interpolate_1d, t, y.copy(), np.array(targets) * H, limit * 60 / 64, method)
        events.append(series_event("interpolate_1d", series, targets, limit, method, st, o))

    pick = rng.sample(cases, min(len(cases), c.n(900, 5000)))
    for b in pick:
        s = sorted(b["series"], key=lambda x: x["t"])
        oned(s, list(range(0, 11)), rng.choice([0, 1, 2, 3]), rng.choice(["linear", "linear", "nearest"]))
    c.extra["behaviours_replayed_from_spec"] = len(pick)
    for _ in range(c.n(300, 5000)):
        hi = rng.choice([40, 200, 1536])
        n = rng.randrange(1, 25)
        pm = rng.choice([0, 0.2, 0.7, 1])
        s = [{"t": rng.randrange(0, hi + 1), "v": rng.randrange(-40, 40), "ok": rng.random() >= pm} for _ in range(n)]
        if rng.random() < 0.8:
            s.sort(key=lambda x: x["t"])
        tg = sorted(rng.randrange(0, hi + 1) for _ in range(rng.randrange(1, 30)))
        oned(s, tg, rng.choice([0, 1, 3, 10, 50]), rng.choice(["linear", "nearest"]))

    # ---- radiometer and disdrometer files --------------------------------------
    path = str(c.scratch / "f.nc")
    grid = utils.time_grid()
    gsec = [15 + 30 * i for i in range(2880)]
    for k in range(c.n(20, 250)):
        is_mwr = k % 2 == 0
        start = rng.randrange(0, 86400 - 3000)
        secs, t = [], start
        while t < start + 2500:
            t += rng.choice([20, 30, 60, 60]) if rng.random() < 0.9 else rng.choice([110, 119, 121, 125, 245, 300])
            secs.append(t)
        n = len(secs)
        pm = rng.choice([0, 0.1, 0.6])
        vals = {k2: [rng.randrange(0, 30) for _ in secs] for k2 in ("lwp", "rainfall_rate", "n_particles", "synop_WaWa")}
        ok = [rng.random() >= pm for _ in secs]
        flag = [rng.choice([0, 0, 0, 0, 1, 2, 3]) for _ in secs] if rng.random() < 0.5 else None
        with netCDF4.Dataset(path, "w") as nc:
            common(nc, n, 0, np.array(secs) / 3600, None)
            for key, v in vals.items():
                if key == "lwp" and not is_mwr or key != "lwp" and is_mwr:
                    continue
                x = nc.createVariable(key, "f8", ("time",))
                x.units = "kg m-2"
                x[:] = ma.array(v, mask=[not o for o in ok])
            if flag and is_mwr:
                nc.createVariable("lwp_quality_flag", "i4", ("time",))[:] = flag
        i0 = max(0, start // 30 - 12)
        sl = slice(i0, min(2880, i0 + 120))
        if is_mwr:
            lim = rng.choice([1, 2, 5])
            with Mwr(path) as m:
                st, _ = outcome(m.interpolate_to_grid, grid, lim)
                good = [o and not (flag and f) for o, f in zip(ok, flag or ok)]
                s = [{"t": a, "v": v, "ok": g} for a, v, g in zip(secs, vals["lwp"], good)]
                events.append(series_event("mwr", s, gsec[sl], lim * 60, "linear", st, m.data["lwp"].data[sl] if st == "ok" else [], exact=False, tol=6))
        else:
            with Disdrometer(path) as m:
                st, _ = outcome(m.interpolate_to_grid, grid)
                for key in ("rainfall_rate", "n_particles", "synop_WaWa"):
                    s = [{"t": a, "v": v, "ok": g} for a, v, g in zip(secs, vals[key], ok)]
                    events.append(series_event("disdrometer " + key, s, gsec[sl], 60, "nearest" if key == "synop_WaWa" else "linear",
                                               st, m.data[key].data[sl] if st == "ok" else [], exact=False, tol=6))

    # ---- lidar -----------------------------------------------------------------
    for _ in range(c.n(120, 1500)):
        n, m = rng.randrange(2, 14), rng.randrange(2, 12)
        secs, t = [], rng.choice([0, 15, 3600, 86400 - 400])
        for _i in range(n):
            t += rng.choice([5, 12, 15, 30, 30, 61, 76, 130, 200])
            secs.append(t)
        secs = [s + (s % 30 == 15) for s in secs if s < 86399]
        n = len(secs)
        if n < 2:
            continue
        hts, h = [], rng.choice([0, 60, 300])
        for _i in range(m):
            h += rng.choice([10, 30, 50, 90]) if rng.random() < 0.9 else rng.choice([210, 260, 500])
            hts.append(h)
        pm = rng.choice([0.0, 0.3, 0.8])
        z = [[FILL if rng.random() < pm else rng.randrange(1, 1000) for _ in hts] for _ in secs]
        for i in range(n):
            if rng.random() < 0.2:
                z[i] = [FILL] * m
        if all(v == FILL for r in z for v in r) and rng.random() < 0.9:
            z[0][0] = 5
        gx = [15 + 30 * i for i in range(max(0, secs[0] // 30 - 4), min(2880, secs[-1] // 30 + 4))]
        gy = sorted(rng.sample(range(max(0, hts[0] - 200), hts[-1] + 250), rng.randrange(2, 14)))
        with netCDF4.Dataset(path, "w") as nc:
            common(nc, n, m, np.array(secs) / 3600, hts)
            x = nc.createVariable("beta", "f8", ("time", "range"))
            x[:] = ma.masked_equal(np.array(z, dtype=float), FILL)
            nc.createVariable("wavelength", "f4", ())[:] = 1064
        with Lidar(path) as lid:
            st, gaps = outcome(lid.interpolate_to_grid, np.array(gx) / 3600, np.array(gy, dtype=float))
            out = enc(lid.data["beta"].data) if st == "ok" else []
        events.append({"kind": "lidar", "ev": "lidar", "x": secs, "y": hts, "z": z, "gx": gx, "gy": gy, "xlim": 60, "ylim": 100, "status": st,
                       "out": out, "gaps": [int(g) for g in gaps] if st == "ok" else []})

    # ---- masked fields -----------------------------------------------------------
    for _ in range(c.n(250, 4000)):
        nx, ny = rng.randrange(2, 7), rng.randrange(2, 7)
        scale = rng.choice([1, 1, 500])
        x = sorted(rng.sample(range(0, 25), nx))
        y = [scale * v for v in sorted(rng.sample(range(0, 25), ny))]
        if rng.random() < 0.6:
            x, y = [4 * i for i in range(nx)], [4 * scale * i for i in range(ny)]
        affine = [rng.randrange(-9, 9), rng.randrange(-5, 6), rng.randrange(-5, 6)] if rng.random() < 0.6 else []
        if scale > 1 and affine:
            affine[2] = rng.choice([0, 0, 1, -1])
        z = [[affine[0] + affine[1] * a + affine[2] * b if affine else rng.randrange(-50, 50) for b in y] for a in x]
        u = rng.random()
        for i in range(nx):
            for j in range(ny):
                if u < 0.5 and rng.random() < (0.1 if u < 0.25 else 0.4):
                    z[i][j] = FILL
            if 0.5 < u < 0.8 and rng.random() < 0.3:
                z[i] = [FILL] * ny  # a missing profile
        nv = [(x[i], y[j]) for i in range(nx) for j in range(ny) if z[i][j] != FILL]
        if len({a for a, _ in nv}) < 2 or len({b for _, b in nv}) < 2 or len(nv) < 4:
            continue
        ext = rng.random() < 0.5
        gx = sorted({*rng.sample(x, rng.randrange(1, nx + 1)), *(rng.randrange(x[0] - 2, x[-1] + 3) for _ in range(5))})
        lo, hi = y[0] - 3 * scale, y[-1] + 3 * scale
        gy = sorted({*rng.sample(y, rng.randrange(1, ny + 1)), *(rng.randrange(lo, hi + 1) for _ in range(6))})
        arr = ma.masked_equal(np.array(z, dtype=float), FILL)
        v = rng.random()
        if v < 0.3:  # missing values as NaN
            arr = ma.array(arr.filled(np.nan))
        elif v < 0.6:
            arr = ma.array(np.where(arr.mask, rng.choice([np.nan, 1e30, 0]), arr.data), mask=ma.getmaskarray(arr))
        st, o = outcome(utils.interpolate_2d_mask, np.array(x, dtype=float), np.array(y, dtype=float), arr, np.array(gx, dtype=float), np.array(gy, dtype=float), extrapolate=ext)
        events.append({"kind": "mask2d", "ev": "mask2d", "x": x, "y": y, "z": z, "gx": gx, "gy": gy, "extrap": ext, "affine": affine, "tol": 4 * scale,
                       "status": st, "out": enc(o, 1000) if st == "ok" else []})

    # ---- along one axis ----------------------------------------------------------
    for _ in range(c.n(120, 1500)):
        ny, n = rng.randrange(1, 9), rng.randrange(1, 5)
        y = sorted(rng.sample(range(0, 40), ny))
        z = [[FILL if rng.random() < 0.2 else rng.randrange(100) for _ in y] for _ in range(n)]
        gy = sorted(rng.randrange(-3, 44) for _ in range(rng.randrange(1, 15)))
        arr = ma.masked_equal(np.array(z), FILL)
        st, o = outcome(utils.interpolate_2D_along_y, np.array(y, dtype=float), arr, np.array(gy, dtype=float))
        events.append({"kind": "along", "ev": "along", "y": y, "z": z, "gy": gy, "status": st, "out": enc(o) if st == "ok" else []})
        st, o = outcome(utils.interpolate_2d_nearest, np.arange(n + 1.0), np.array([*y, 60.0]),
                        ma.masked_equal(np.array([[*r, 1] for r in [*z, z[0]]], dtype=float), FILL), np.arange(n + 1.0), np.array(gy, dtype=float))
        events.append({"kind": "along", "ev": "nearest", "y": [*y, 60], "z": [[*r, 1] for r in [*z, z[0]]], "gy": gy, "status": st, "out": enc(o) if st == "ok" else []})
    for k in ("series", "lidar", "mask2d", "along"):
        c.extra["events_" + k] = sum(e["kind"] == k for e in events)
        c.sample(next(e for e in events if e["kind"] == k))
    c.validate("InterpTrace", events)
    c.assumptions += ["fields given to the two-dimensional linear interpolation have at least two valid rows and columns",
                      "at exactly the stated limit the files of instruments may go either way"]
