"""C05: averaging onto a regular time grid."""
import netCDF4
import numpy as np
from numpy import ma

from vlib import enc, outcome

BAD = -555555


def col_event(ev, series, first, width, nbins, out, *, stat="mean", nmin=1, dims=1, lastclosed=False, zeromask=False, empty=(-1,)):
    return {"ev": ev, "series": series, "first": first, "width": width, "nbins": nbins, "out": out, "stat": stat, "nmin": nmin,
            "dims": dims, "lastclosed": lastclosed, "zeromask": zeromask, "empty": [int(x) for x in empty]}


def arrays(series, hour, unmask_value=7.0, nan=False):
    """time (h) and values; what is hidden under the mask is arbitrary."""
    t = np.array([s["t"] for s in series], dtype=float) * hour
    v = np.array([s["v"] if s["ok"] else unmask_value for s in series], dtype=float)
    bad = np.array([not s["ok"] for s in series], dtype=bool)
    if nan:
        v[bad] = np.nan
        return t, ma.array(v)
    return t, ma.array(v, mask=bad)


def square(out):
    return ma.array(out, dtype=float) ** 2


def run(c):
    from cloudnetpy import utils
    from cloudnetpy.categorize.radar import Radar
    from cloudnetpy.cloudnetarray import CloudnetArray

    rng = c.rng
    res = c.model_check("MCRebin", "MCRebin.cfg")
    cases = c.cases(res)
    events = []

    def call_all(series, first, width, nbins, hour, others=None):
        """All averaging functions on one series (and on fields with it as a column)."""
        centres = (first + width * (np.arange(nbins) + 0.5)) * hour
        t, v = arrays(series, hour, rng.choice([7.0, -1e20, np.nan, np.inf, 0.0]))
        masked = any(not s["ok"] for s in series)
        # 1-D
        for fn, stat in ((lambda: utils.rebin_1d(t, v.copy(), centres), "mean"),
                         (lambda: utils.rebin_1d(t, v.copy(), centres, "std"), "std"),
                         (lambda: CloudnetArray(v.copy(), "x"), "arr")):
            if stat == "std" and (rng.random() < 0.5 or len(series) > 8):
                continue
            empty = (-1,)
            st, o = outcome(fn)
            if st == "ok" and stat == "arr":
                a = o
                st, empty = outcome(a.rebin_data, t, centres)
                o = a.data
            out = [BAD] * nbins if st != "ok" else enc(square(o) if stat == "std" else o, 1e4)
            events.append(col_event("1d " + stat, series, first, width, nbins, out, stat="std" if stat == "std" else "mean",
                                    lastclosed=True, empty=empty if st == "ok" else (-2,)))
        if masked:
            t2, v2 = arrays(series, hour, nan=True)
            st, o = outcome(utils.rebin_1d, t2, v2, centres)
            events.append(col_event("1d nan", series, first, width, nbins, enc(o, 1e4) if st == "ok" else [BAD] * nbins, lastclosed=True))
            st, o = outcome(utils.rebin_1d, t2, np.array(v2), centres)
            events.append(col_event("1d nan array", series, first, width, nbins, enc(o, 1e4) if st == "ok" else [BAD] * nbins, lastclosed=True))
        # 2-D: the series is one column among others
        ncol = rng.randrange(1, 4)
        col = rng.randrange(ncol)
        field = ma.masked_all((len(series), ncol))
        for j in range(ncol):
            field[:, j] = ma.array([rng.randrange(50) for _ in series], mask=[rng.random() < 0.4 for _ in series], dtype=float)
        field[:, col] = v
        stat = rng.choice(["mean", "mean", "max", "std"]) if len(series) <= 8 else rng.choice(["mean", "max"])
        nmin = rng.choice([1, 1, 2, 3])
        zm = rng.random() < 0.3
        st, o = outcome(utils.rebin_2d, t, field.copy(), centres, stat, nmin, mask_zeros=zm)
        out, empty = ([BAD] * nbins, (-2,)) if st != "ok" else (enc(square(o[0][:, col]) if stat == "std" else o[0][:, col], 1e4), o[1])
        if stat == "max" and zm:
            zm = False
            st, o = outcome(utils.rebin_2d, t, field.copy(), centres, stat, nmin)
            out, empty = ([BAD] * nbins, (-2,)) if st != "ok" else (enc(o[0][:, col], 1e4), o[1])
        events.append(col_event("2d", series, first, width, nbins, out, stat=stat, nmin=nmin, dims=2, zeromask=zm, empty=empty))
        a = CloudnetArray(field.copy(), "x")
        st, empty = outcome(a.rebin_data, t, centres)
        events.append(col_event("2d arr", series, first, width, nbins, enc(a.data[:, col], 1e4) if st == "ok" else [BAD] * nbins, dims=2,
                                empty=empty if st == "ok" else (-2,)))
        # repeated onto the samples: a sample gets the value of its bin
        st, o = outcome(utils.rebin_2d, t, field.copy(), centres, "max", keepdim=True)
        if st == "ok":
            full = enc(o[0][:, col], 1e4)
            for i in range(nbins):
                own = [full[j] for j, s in enumerate(series) if first + i * width <= s["t"] < first + (i + 1) * width]
                if own:
                    val = own[0] if all(x == own[0] for x in own) else BAD
                    events.append(col_event("2d keepdim", series, first + i * width, width, 1, [val], stat="max", dims=2))

    # behaviours of the specification: ticks of 1/64 h, exactly representable
    for b in rng.sample(cases, min(len(cases), c.n(900, 9000))):
        call_all(b["series"], 0, 4, 2, 1 / 64)
    c.extra["behaviours_replayed_from_spec"] = min(len(cases), c.n(900, 9000))

    # longer series: random grids, gaps, unsorted and repeated times
    for _ in range(c.n(400, 6000)):
        w = rng.choice([1, 2, 4, 5, 8])
        nb = rng.randrange(2, 12)
        f0 = rng.choice([0, 0, 3, 64])
        n = rng.randrange(1, 40)
        lim = rng.choice([1, 2, 90])
        lo, hi = f0 - w, f0 + (nb + 1) * w
        gap = (rng.randrange(lo, hi), rng.randrange(1, 3 * w + 1))
        series = []
        pm = rng.choice([0, 0.2, 0.8, 1])
        for _ in range(n):
            t = rng.randrange(lo, hi + 1)
            if gap[0] <= t < gap[0] + gap[1]:
                continue
            series.append({"t": t, "v": rng.randrange(-lim, lim) if rng.random() < 0.9 else 0, "ok": rng.random() >= pm})
        if not series:
            continue
        if rng.random() < 0.15:
            for s in series:
                s["v"] = 0
        if rng.random() < 0.7:
            series.sort(key=lambda s: s["t"])
        call_all(series, f0, w, nb, 1 / 64)
    n_fn = len(events)

    # a radar file on the 30 s grid of the processing
    grid = utils.time_grid()
    path = str(c.scratch / "radar.nc")
    for _ in range(c.n(12, 120)):
        start = 30 * rng.randrange(0, 2870)
        nb = 8
        secs, t = [], start - 45
        while t < start + 30 * nb + 30:
            t += rng.choice([1, 3, 7, 12, 29, 31]) if rng.random() < 0.93 else rng.choice([61, 95])
            if 0 < t < 86400 and t % 30 not in (0,):
                secs.append(t)
        n, m = len(secs), 3
        if n < 2:
            continue
        vals = {k: np.array([[rng.randrange(0, 6) for _ in range(m)] for _ in range(n)]) for k in ("Z", "v", "width", "ldr")}
        mask = np.array([[rng.random() < 0.3 for _ in range(m)] for _ in range(n)])
        zero_rain = rng.random() < 0.3
        rain = np.array([0 if zero_rain else rng.randrange(0, 6) for _ in range(n)])
        rmask = np.array([rng.random() < 0.2 for _ in range(n)])
        nyq = np.array([rng.choice([4, 6]) for _ in range(n)])
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("time", n)
            nc.createDimension("range", m)
            nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type = "2021", "03", "05", "X", "radar"
            nc.createVariable("time", "f8", ("time",))[:] = np.array(secs) / 3600
            for k, u in (("range", "m"), ("height", "m")):
                nc.createVariable(k, "f4", ("range",))[:] = 100 * np.arange(1, m + 1)
                nc[k].units = u
            nc.createVariable("altitude", "f4", ())[:] = 0
            nc["altitude"].units = "m"
            nc.createVariable("radar_frequency", "f4", ())[:] = 35
            nc.createVariable("nyquist_velocity", "f4", ("time", "range"))[:] = np.repeat(nyq[:, None], m, axis=1)
            for k, kk, x in (("Zh", "Z", 10 * np.log10(vals["Z"] + 1)), ("ldr", "ldr", 10 * np.log10(vals["ldr"] + 1)),
                             ("v", "v", (vals["v"] - 2) / 2), ("width", "width", vals["width"])):
                var = nc.createVariable(k, "f4", ("time", "range"))
                var[:] = ma.array(x, mask=mask)
                var.units = {"Zh": "dBZ", "ldr": "dB"}.get(k, "m s-1")
            nc.createVariable("rainfall_rate", "f4", ("time",))[:] = ma.array(rain, mask=rmask)
        with Radar(path) as r:
            st, bad = outcome(r.rebin_to_grid, grid)
            data = {k: v.data for k, v in r.data.items()} if st == "ok" else {}
        b0 = start // 30
        nb = min(nb, len(grid) - b0)
        sl = slice(b0, b0 + nb)
        col = rng.randrange(m)
        for key, vv, conv, stat, zm in (("Z", vals["Z"] + 1, lambda x: 10 ** (x / 10), "mean", False),
                                        ("ldr", vals["ldr"] + 1, lambda x: 10 ** (x / 10), "mean", False),
                                        ("width", vals["width"], lambda x: x, "mean", False),
                                        ("v_sigma", vals["v"], lambda x: (2 * x) ** 2, "std", True)):
            series = [{"t": s, "v": int(vv[j, col]), "ok": not bool(mask[j, col])} for j, s in enumerate(secs)]
            out = enc(conv(ma.array(data[key][sl, col], dtype=float)), 1e4) if st == "ok" else [BAD] * nb
            events.append(col_event("radar " + key, series, start, 30, nb, out, stat=stat, zeromask=zm, dims=2,
                                    empty=[x - b0 for x in bad if b0 <= x < b0 + nb] if st == "ok" and key == "Z" else (-1,)))
        series = [{"t": s, "v": int(rain[j]), "ok": not bool(rmask[j])} for j, s in enumerate(secs)]
        events.append(col_event("radar rain", series, start, 30, nb, enc(data["rainfall_rate"][sl], 1e4) if st == "ok" else [BAD] * nb))
        series = [{"t": s, "v": int(nyq[j]), "ok": True} for j, s in enumerate(secs)]
        events.append(col_event("radar nyquist", series, start, 30, nb,
                                enc(data["nyquist_velocity"][sl, col], 1e4) if st == "ok" else [BAD] * nb, stat="max"))
    c.extra["events_functions"], c.extra["events_radar_files"] = n_fn, len(events) - n_fn
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("RebinTrace", events)

    # mean direction of folded velocities
    vel = []
    for _ in range(c.n(150, 3000)):
        n, nb, w = rng.randrange(2, 14), 3, 4
        series = sorted(({"t": rng.randrange(0, 12), "q": rng.randrange(0, 4), "ok": rng.random() < 0.85} for _ in range(n)), key=lambda s: s["t"])
        vn = rng.choice([5.0, 8.0])
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("time", n)
            nc.createDimension("range", 2)
            nc.year, nc.month, nc.day, nc.location, nc.cloudnet_file_type = "2021", "03", "05", "X", "radar"
            nc.createVariable("time", "f8", ("time",))[:] = np.array([s["t"] for s in series]) / 64
            for k in ("range", "height"):
                nc.createVariable(k, "f4", ("range",))[:] = [100, 200]
                nc[k].units = "m"
            nc.createVariable("altitude", "f4", ())[:] = 0
            nc["altitude"].units = "m"
            nc.createVariable("radar_frequency", "f4", ())[:] = 35
            nc.createVariable("nyquist_velocity", "f4", ())[:] = vn
            v = np.array([{0: 0, 1: vn / 2, 2: vn, 3: -vn / 2}[s["q"]] for s in series])
            mk = np.array([[not s["ok"]] * 2 for s in series])
            for k in ("Zh", "v"):
                x = nc.createVariable(k, "f4", ("time", "range"))
                x[:] = ma.array(np.repeat(v[:, None], 2, axis=1), mask=mk)
                x.units = "dBZ" if k == "Zh" else "m s-1"
        with Radar(path) as r:
            st, _ = outcome(r.rebin_to_grid, (np.arange(nb) + 0.5) * w / 64)
            o = ma.array(r.data["v"].data[:, 0], dtype=float) if st == "ok" else ma.masked_all(nb)
        ang = o * np.pi / vn
        vel.append({"series": series, "status": st, "nbins": nb, "width": w, "c": enc(ma.cos(ang), 1e4), "s": enc(ma.sin(ang), 1e4)})
    c.sample(vel[0])
    c.validate("RebinVelTrace", vel)
    c.assumptions += ["two-dimensional fields carry missing values as masks, not NaN",
                      "samples on the last edge of the last bin of a series may be counted in it"]
