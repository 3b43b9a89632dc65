"""C14: ice water content and ice effective radius."""
import numpy as np
from numpy import ma

import catfile
from checks_common import log10, rain_variables
from vlib import FILL, enc, outcome


def run(c):
    from cloudnetpy.products import generate_ier, generate_iwc

    rng, nprng = c.rng, c.nprng("c14")
    c.model_check("MCPixels", "MCPixels.cfg")
    events = []

    def scene(source, cat, qua, z, zerr, temp, rain, freq, rainvar="rain_detected", products=("iwc", "ier"), zsens=None):
        """z integer mdBZ (FILL missing), zerr in 0.1 dB, temp integer degC, rain integers (FILL missing)."""
        n, m = cat.shape
        band = "Ka" if freq < 80 else "W"
        alt = rng.choice([0.0, 120.0])
        height = alt + 100.0 * np.arange(1, m + 1)
        hours = np.arange(n) * (24.0 / n)
        pad = lambda a, k: np.concatenate([a[:1], a, a[-1:]]) if k else a
        # the model grid contains the points of the target grid
        mh = np.concatenate([[height[0] - 50], height, [height[-1] + 50]])
        mt = np.concatenate([[-1.0], hours, [25.0]])
        tm = pad(pad(temp, 1).T, 1).T + 273.15
        zsens = nprng.integers(-60, 0, m) if zsens is None else zsens
        zbias = rng.choice([0, 1, 2, 5])
        kw = rain_variables(nprng, rainvar, rain, FILL)
        path = catfile.write(c.scratch / "cat.nc", cat, qua, height=height, altitude=alt, hours=hours, radar_frequency=freq,
                             Z=ma.array(z / 1000.0, mask=z == FILL), Z_error=ma.array(zerr / 10.0, mask=z == FILL),
                             Z_bias=float(zbias), Z_sensitivity=zsens.astype(float), model_height=mh, model_time=mt, temperature=tm,
                             pressure=np.full(tm.shape, 8e4), **kw)
        for product in products:
            out = c.scratch / "out.nc"
            st, _ = outcome(generate_iwc if product == "iwc" else generate_ier, path, str(out))
            if freq < 20:
                events.append({"kind": "band", "product": product, "status": st, "freq": freq})
                continue
            g = catfile.read(out, product, f"{product}_retrieval_status", f"{product}_error", "iwc_sensitivity", "iwc_bias") if st == "ok" else None
            for t in range(n):
                e = {"kind": "profile", "source": source, "outcome": st, "product": product, "band": band, "c": cat[t].tolist(), "q": qua[t].tolist(),
                     "z": z[t].tolist(), "zerr": zerr[t].tolist(), "temp": temp[t].tolist(), "rain": int(rain[t]), "rainvar": rainvar,
                     "val": [], "status": [], "err": []}
                if g is not None:
                    e["val"] = log10(g[product][t])
                    e["status"] = [int(x) for x in g[f"{product}_retrieval_status"][t].filled(-1)]
                    e["err"] = log10(g[f"{product}_error"][t]) if product == "ier" else enc(g["iwc_error"][t], 1e3)
                events.append(e)
            if g is not None and product == "iwc":
                events.append({"kind": "bias", "product": product, "band": band, "zbias": zbias, "out": enc(ma.array([g["iwc_bias"]]).ravel(), 1e3)[0]})
                s = log10(g["iwc_sensitivity"])
                for j in rng.sample(range(m), min(m, 3)):
                    events.append({"kind": "sens", "product": product, "band": band, "z": int(zsens[j]) * 1000, "temps": temp[:, j].tolist(), "out": s[j]})

    def fields(n, m, pz):
        z = nprng.integers(-60, 30, (n, m)) * 1000
        z[nprng.random((n, m)) < pz] = FILL
        return z, nprng.integers(0, 40, (n, m)), nprng.integers(-70, 30, (n, m))

    # ice and near-ice pixels with every combination of quality bits, with and without rain and reflectivity
    ice = [6, 7, 2, 4, 14, 38, 10, 22, 0, 12]
    pix = np.array([(a, q, zz) for a in (ice if c.thorough else [6] + rng.sample(ice[1:], 1)) for q in range(1024) for zz in (0, 1)])
    for rain in (0, 1):
        p = nprng.permutation(pix).reshape(-1, 64, 3)
        z, zerr, temp = fields(*p.shape[:2], 0)
        z[p[:, :, 2] == 0] = FILL
        scene("all quality bits", p[:, :, 0], p[:, :, 1], z, zerr, temp, np.full(len(p), rain), 35.5 if rain else 94.0, products=(rng.choice(["iwc", "ier"]),))
    # every combination of category bits
    pix = np.array([(a, q, zz) for a in range(64) for q in (0, 1, 3, 17, 49, 5, 9, 113, 769, 257, 32, 545) for zz in (0, 1)])
    for rain in (0, 1):
        p = nprng.permutation(pix).reshape(-1, 48, 3)
        z, zerr, temp = fields(*p.shape[:2], 0)
        z[p[:, :, 2] == 0] = FILL
        scene("all category bits", p[:, :, 0], p[:, :, 1], z, zerr, temp, np.full(len(p), rain), 94.0 if rain else 35.5, products=("iwc", "ier"))
    # scenes of any shape and rain flags per profile, from any of the rain variables
    for _ in range(c.n(30, 400)):
        n, m = rng.choice([(2, 2), (2, 12), (7, 2), (rng.randrange(2, 10), rng.randrange(2, 20))])
        cat = nprng.choice([6, 6, 7, 0, 2, 4, 14, 38, 1] if rng.random() < 0.7 else np.arange(64), (n, m))
        qua = nprng.choice([1, 3, 17, 49, 0, 2, 113] if rng.random() < 0.6 else np.arange(1024), (n, m))
        if rng.random() < 0.2:
            cat[:], qua[:] = 6, 1
        z, zerr, temp = fields(n, m, rng.choice([0, 0.3, 1]))
        rain = nprng.choice(rng.choice([[0], [1], [0, 1], [0, 1, FILL], [FILL]]), n)
        scene("scene", cat, qua, z, zerr, temp, rain, rng.choice([35.5, 33.4, 94.0, 95.0, 9.4]), rng.choice(["rain_detected", "rain_detected", "rainfall_rate", "rain_rate"]))
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("IceTrace", events)
    c.assumptions += ["single precision of stored values: log10 of a value is compared to 4e-5 absolute",
                      "the model grid contains the points of the target grid, so that the temperature of a pixel is known exactly (interpolation itself is C06)"]
