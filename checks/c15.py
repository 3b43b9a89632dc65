"""C15: liquid water content adds up to the measured path."""
import atmoslib
import numpy as np
from numpy import ma

import catfile
from checks_common import rain_variables
from vlib import FILL, enc, outcome


def run(c):
    from cloudnetpy.products import generate_lwc

    rng, nprng = c.rng, c.nprng("c15")
    res = c.model_check("MCLiquid", "MCLiquid.cfg")
    cases = c.cases(res)
    events = []

    def scene(source, liquid, echo, lwp, rain, path, temp, pres, alt=0, extra=0, rainvar="rain_detected"):
        """liquid, echo time x height; lwp g m-2 (FILL missing); path of gates in m; temp, pres on the grid."""
        n, m = liquid.shape
        height = alt + np.cumsum(path).astype(float)
        hours = np.arange(n) * (23.0 / n)
        mh = np.concatenate([[height[0] - 10], height, [height[-1] + 10]])
        mt = np.concatenate([[-1.0], hours, [25.0]])
        pad = lambda a: np.pad(a, 1, mode="edge")
        cat = liquid | nprng.choice([0, 4] if extra == 0 else [0, 2, 4, 6, 8], (n, m))
        qua = np.where((echo & 1) > 0, 2, 0) | np.where((echo & 2) > 0, 1, 0)
        kw = rain_variables(nprng, rainvar, rain, FILL)
        perr = nprng.choice([20, 5, 60], n)
        p = catfile.write(c.scratch / "cat.nc", cat, qua, height=height, altitude=float(alt), hours=hours, model_height=mh, model_time=mt,
                          temperature=pad(temp), pressure=pad(pres), lwp=ma.array(lwp / 1000.0, mask=lwp == FILL),
                          lwp_error=ma.array(perr / 1000.0, mask=lwp == FILL), **kw)
        out = c.scratch / "out.nc"
        st, _ = outcome(generate_lwc, p, str(out))
        g = catfile.read(out, "lwc", "lwc_retrieval_status", "lwc_error") if st == "ok" else None
        grad = np.rint(atmoslib.adiabatic_lwc_gradient(temp, pres) * 1e8).astype(int)
        for t in range(n):
            e = {"source": source, "outcome": st, "liquid": liquid[t].tolist(), "echo": echo[t].tolist(), "path": path.tolist(), "grad": grad[t].tolist(),
                 "uniform": bool((path == path[0]).all()), "rain": bool(rain[t] != 0), "lwp": int(lwp[t]), "lwc": [], "pos": [], "status": [], "err": [],
                 "perr": int(perr[t]), "edge": t in (0, n - 1), "around": [], "ev": []}
            if g is not None:
                x = ma.array(g["lwc"][t], dtype=float)
                e["lwc"] = enc(x, 1e7)
                e["pos"] = [bool(v) for v in (x.filled(0) > 0)]
                e["status"] = [int(v) for v in g["lwc_retrieval_status"][t].filled(-1)]
                e["around"] = [enc(ma.array(g["lwc"][k], dtype=float).filled(0), 1e7) for k in (max(t - 1, 0), min(t + 1, n - 1))]
                e["ev"] = enc(ma.array(g["lwc_error"][t], dtype=float), 1e3)
                e["err"] = [not bool(v) for v in ma.getmaskarray(g["lwc_error"][t])]
            events.append(e)

    # behaviours of the specification: six gates of 100 m with one gradient; paths are half multiples of the unit
    part = rng.sample(cases, min(len(cases), c.n(1200, 4000)))
    for lo in range(0, len(part), 200):
        bs = part[lo:lo + 200]
        liquid = np.array([b["liquid"] for b in bs]).astype(int)
        echo = np.array([b["echo"] for b in bs]) * liquid
        temp, pres = np.full(liquid.shape, rng.choice([263.0, 275.0, 283.0])), np.full(liquid.shape, rng.choice([7e4, 9e4]))
        unit = float(atmoslib.adiabatic_lwc_gradient(temp[:1, 0], pres[:1, 0])[0]) * 100 * 100 * 1000  # g m-2
        lwp = np.rint(np.array([b["lwp"] for b in bs]) / 2 * unit).astype(int)
        scene("behaviour", liquid, echo, lwp, np.zeros(len(bs), int), np.full(6, 100), temp, pres)
    c.extra["behaviours_replayed_from_spec"] = len(part)

    for _ in range(c.n(120, 1500)):
        n, m = rng.randrange(2, 8), rng.choice([2, 3, 8, 15, 25])
        liquid = np.zeros((n, m), int)
        for t in range(n):
            for _k in range(rng.choice([0, 1, 1, 2, 3])):
                z = rng.choice([0, m - 1, rng.randrange(m)])
                liquid[t, z:z + rng.randrange(1, 6)] = 1
        if rng.random() < 0.05:
            liquid[:] = 1
        echo = nprng.choice(rng.choice([[1], [1, 0], [1, 3], [2], [0], [0, 1, 2, 3]]), (n, m))
        lwp = nprng.choice(rng.choice([[FILL, 50, 300], [0, -15, 5, 20, 80], [100, 400, 1500], [10, 30]]), n)
        rain = nprng.choice(rng.choice([[0], [0], [0, 1], [0, 1, FILL]]), n)
        path = np.full(m, rng.choice([25, 31, 50, 100]))
        if rng.random() < 0.25:
            path = nprng.integers(20, 90, m)
        elif rng.random() < 0.4:
            path[0] = rng.choice([110, 300])
        temp = 285.0 - np.cumsum(path) / 200.0 + nprng.integers(-3, 3, (n, 1)) + np.zeros((n, m))
        pres = 95000.0 - 8 * np.cumsum(path) + np.zeros((n, m))
        scene("scene", liquid, echo, lwp, rain, path, temp, pres, alt=rng.choice([0, 104]), extra=rng.choice([0, 1]),
              rainvar=rng.choice(["rain_detected", "rain_detected", "rainfall_rate"]))
    # no path in the file at all: no product
    p = catfile.write(c.scratch / "nolwp.nc", np.ones((2, 3), int), np.full((2, 3), 2))
    st, _ = outcome(generate_lwc, p, str(c.scratch / "no.nc"))
    c.extra["without_path"] = st
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("LiquidTrace", events)
    c.assumptions += ["the adiabatic gradient of a base (atmoslib, not part of the repository) is taken as given, to 0.5 %",
                      "decisions within 1 % of a tie between adiabatic and measured path may go either way",
                      "where gates differ in thickness the shape of an extended layer is not prescribed, only its sum and extent"]
