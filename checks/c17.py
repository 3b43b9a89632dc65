"""C17: drizzle product."""
import netCDF4
import numpy as np
from numpy import ma

import catfile
import mielut
from checks_common import log10, rain_variables
from vlib import FILL, enc, outcome

VALUES = {"dol": "Do", "s": "S", "n": "drizzle_N", "lwc": "drizzle_lwc", "lwf": "drizzle_lwf"}
ERRORS = ("Do_error", "drizzle_N_error", "drizzle_lwc_error", "drizzle_lwf_error", "S_error", "v_drizzle_error")


def run(c):
    from cloudnetpy.products import generate_drizzle

    rng, nprng = c.rng, c.nprng("c17")
    c.model_check("MCPixels", "MCPixels.cfg")
    c.model_check("MCLog10", "MCLog10.cfg")
    events = []

    def make_lut(band):
        """A look-up table in the form of the one that belongs to the package (not present here)."""
        nmu, ndo = rng.choice([1, 3, 5]), rng.choice([1, 2, 6])
        mu = sorted(rng.sample(range(0, 11), nmu))
        mu[0] = rng.choice([0, mu[0]])
        do = np.sort(nprng.choice(np.arange(-540000, -290000, 5000), ndo, replace=False))
        width = np.sort(nprng.choice(np.arange(100, 900, 40), nmu, replace=False))[::-1]
        s = nprng.integers(5, 40, (nmu, ndo)) if rng.random() < 0.5 else np.full((nmu, ndo), 17)
        lwf, termv = nprng.integers(300, 2000, (nmu, ndo)), nprng.integers(10, 500, ndo)
        v = -nprng.integers(50, 5000, (nmu, ndo))
        ray = rng.choice([1.0, 0.8])
        path = c.scratch / f"mie{len(events)}_{rng.random()}.nc"
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("mu", nmu)
            nc.createDimension("do", ndo)
            def put(name, dims, value):
                nc.createVariable(name, "f8", dims)[:] = value
            put("lu_medianD", "do", 10 ** (do / 1e5))
            put("lu_u", "mu", mu)
            put("lu_k", ("mu", "do"), s)
            put("lu_LWF", ("mu", "do"), lwf / 1e3)
            put("lu_termv", "do", termv / 1e2)
            for b in ("35", "94"):
                # the table of the other band holds other numbers
                other = 0 if b == band else 1
                put(f"lu_width_{b}", ("mu", "do"), np.repeat(width[:, None] / 1e3, ndo, 1) * (1 + 0.7 * other))
                put(f"lu_mie_ray_{b}", ("mu", "do"), ray + 3 * other)
                put(f"lu_v_{b}", ("mu", "do"), v / 1e3 + other)
        lut = {"mu": mu, "do": do.tolist(), "s": s.tolist(), "width": width.tolist(), "lwf": lwf.tolist(), "termv": termv.tolist(),
               "v": v.tolist(), "ray": round(np.log10(ray) * 1e5)}
        return path, lut

    def scene(source, cat, qua, rain, vs, rainvar="rain_detected", freq=None):
        n, m = cat.shape
        freq = freq or rng.choice([35.5, 94.0])
        path, lut = make_lut("35" if freq < 80 else "94")
        alt = rng.choice([0.0, 300.0])
        dz = nprng.choice([30, 60, 100], m) if rng.random() < 0.6 else np.full(m, 50)
        height = alt + np.cumsum(dz).astype(float)
        z = nprng.integers(rng.choice([-90, -40]), 10, (n, m)) * 1000
        b = nprng.integers(1, 200, (n, m))
        w = nprng.integers(50, 1100, (n, m))
        sig = np.full((n, m), 0) if rng.random() < 0.4 else nprng.integers(1, 500, (n, m))
        v = nprng.integers(-4000, 2000, (n, m))
        if rng.random() < 0.2:
            v[:] = -np.array(lut["v"]).ravel()[0]  # air at rest
        radar, lidar = qua & 1 == 1, qua & 2 == 2
        wind = rng.choice([(0.0, 6.0), (8.0, 6.0), (3.0, 4.0), (-20.0, 15.0), (0.0, 1.0)])
        kw = rain_variables(nprng, rainvar, rain, FILL)
        shape = (2, 2)
        zerr = nprng.integers(1, 30, (n, m)) / 10 if rng.random() < 0.7 else 1.5
        lin = lambda x: 10 ** (ma.array(x) / 10) - 1
        width = ma.array(w / 1e3, mask=~radar)
        if rng.random() < 0.15:
            width, w = None, np.zeros((n, m), int)
        cat_file = catfile.write(c.scratch / "cat.nc", cat, qua, height=height, altitude=alt, radar_frequency=freq, width=width,
                                 Z=ma.array(z / 1e3, mask=~radar), v=ma.array(v / 1e3, mask=~radar), beta=ma.array(b * 1e-7, mask=~lidar),
                                 v_sigma=ma.array(sig / 1e3 + 1e-9, mask=(vs == 0)), Z_error=zerr, Z_bias=2.0, beta_error=0.5, beta_bias=1.0,
                                 uwind=np.full(shape, wind[0]), vwind=np.full(shape, wind[1]), **kw)
        out = c.scratch / "out.nc"
        out.unlink(missing_ok=True)
        with mielut.table(path):
            st, _ = outcome(generate_drizzle, cat_file, str(out))
        path.unlink()
        if freq < 20:
            events.append({"kind": "band", "status": st, "exists": out.exists(), "freq": freq})
            return
        g = catfile.read(out, *VALUES.values(), *ERRORS, "mu", "beta_corr", "v_drizzle", "v_air", "drizzle_retrieval_status") if st == "ok" else None
        for t in range(n):
            e = {"kind": "profile", "source": source, "outcome": st, "c": cat[t].tolist(), "q": qua[t].tolist(), "rain": int(rain[t]), "rainvar": rainvar,
                 "vs": vs[t].tolist(), "z": z[t].tolist(), "b": b[t].tolist(), "dz": dz.tolist(), "v": v[t].tolist(), "w": w[t].tolist(), "sig": sig[t].tolist(), "wind": round(1e3 * float(np.hypot(*wind))),
                 "lut": lut, "status": [], "corr": [], "mu": [], "vd": [], "va": [], "errs": [], "elin": [],
                 "ez": enc(np.broadcast_to(lin(zerr), (n, m))[t], 1e3), "eb": enc(lin(0.5), 1e3), **{k: [] for k in VALUES}}
            if g is not None:
                e.update({k: log10(g[x][t]) for k, x in VALUES.items()})
                e.update(corr=log10(g["beta_corr"][t]), mu=enc(g["mu"][t], 1e3), vd=enc(g["v_drizzle"][t], 1e3), va=enc(g["v_air"][t], 1e3),
                         elin=[enc(lin(g[x][t]), 1e3) for x in ERRORS if "_N_" not in x], errs=[enc(g[x][t], 1e3) for x in ERRORS], status=[int(x) for x in g["drizzle_retrieval_status"][t].filled(-1)])
            events.append(e)

    # drizzle-like pixels with every combination of quality bits
    for rain in (0, 1):
        pix = np.array([(a, q, s) for a in ([2, 3] if c.thorough else [2]) for q in range(1024) for s in (0, 1, 1)])
        p = nprng.permutation(pix).reshape(-1, 64, 3)
        scene("all quality bits", p[:, :, 0], p[:, :, 1], np.full(len(p), rain), p[:, :, 2])
    # every combination of category bits
    pix = np.array([(a, q, s) for a in range(64) for q in (0, 1, 2, 3, 19, 35, 67, 131, 259, 7, 11) for s in (0, 1)])
    for k in range(c.n(1, 4)):
        p = nprng.permutation(pix).reshape(-1, 16, 3)
        scene("all category bits", p[:, :, 0], p[:, :, 1], nprng.choice([0, 0, 0, 1, FILL], len(p)), p[:, :, 2])
    # drizzle below clouds: profiles with mostly retrievable pixels
    for _ in range(c.n(90, 900)):
        n, m = rng.choice([(2, 2), (2, 14), (5, 6), (rng.randrange(2, 8), rng.randrange(2, 16))])
        cat = nprng.choice([2] * 8 + ([0, 1, 3, 6, 34, 18] if rng.random() < 0.6 else [0]) + rng.choice([[], [], [10], [8], [9, 8]]), (n, m))
        qua = nprng.choice([3, 3, 3, 3, 1, 2, 131, 35] if rng.random() < 0.6 else [3], (n, m))
        vs = (nprng.random((n, m)) > rng.choice([0, 0.2])).astype(int)
        rain = nprng.choice(rng.choice([[0], [1], [0, 0, 1], [0, 0, FILL]]), n)
        scene("scene", cat, qua, rain, vs, rng.choice(["rain_detected", "rain_detected", "rainfall_rate", "rain_rate"]), rng.choice([None] * 9 + [9.4]))
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("DrizzleTrace", events)
    c.assumptions += ["the look-up table of the package is absent from the repository; tables of the same form are generated, so the retrieval is judged relative to its table",
                      "a pixel with the radar (lidar) bit has Z, v and width (beta), as the categorize file guarantees",
                      "single precision of stored values: log10 is compared to 1e-3 at worst"]
