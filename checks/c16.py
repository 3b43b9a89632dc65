"""C16: droplet effective radius."""
import math

import numpy as np
from numpy import ma

import catfile
from vlib import FILL, outcome
from checks_common import log10, ratio, rain_variables


def run(c):
    from cloudnetpy.products import generate_der
    from cloudnetpy.products.der import Parameters

    rng, nprng = c.rng, c.nprng("c16")
    c.model_check("MCPixels", "MCPixels.cfg")
    c.model_check("MCLog10", "MCLog10.cfg")
    events = []
    NAMES = ("der", "der_error", "der_scaled", "der_scaled_error", "N_scaled", "der_retrieval_status")

    def scene(source, cat, z, lwp, rain, rainvar="rain_detected", par=None, dz=None):
        """z in mdBZ, lwp in g m-2, rain integers; FILL is missing."""
        n, m = cat.shape
        alt = rng.choice([0.0, 120.0, 1000.0])
        dz = np.full(m, 100) if dz is None else dz
        height = alt + np.cumsum(dz).astype(float)
        kw = rain_variables(nprng, rainvar, rain, FILL)
        path = catfile.write(c.scratch / "cat.nc", cat, np.zeros_like(cat), height=height, altitude=alt, radar_frequency=rng.choice([35.5, 94.0]),
                             Z=ma.array(z / 1000.0, mask=z == FILL), lwp=ma.array(lwp / 1000.0, mask=lwp == FILL), **kw)
        out = c.scratch / "out.nc"
        st, _ = outcome(generate_der, path, str(out), parameters=None if par is None else Parameters(*par))
        p = par or (2.0, 200e6, 200e6, 0.35, 0.1, 5e-3)
        spec = {"lnn": round(math.log10(p[1]) * 1e5), "sig": round(p[3] * 1000), "dsig": round(p[4] * 1000), "dn": round(p[2] / p[1] * 1000),
                "cz": round(10 ** (p[0] / 10) / 6 * 1e4), "dq": round(p[5] * 1e4)}
        g = catfile.read(out, *NAMES) if st == "ok" else None
        for t in range(n):
            e = {"kind": "profile", "source": source, "outcome": st, "c": cat[t].tolist(), "z": z[t].tolist(), "dz": dz.tolist(), "lwp": int(lwp[t]), "rain": int(rain[t]),
                 "rainvar": rainvar, "par": spec, "der": [], "ders": [], "n": [], "derr": [], "derserr": [], "status": []}
            if g is not None:
                e.update(der=log10(g["der"][t]), ders=log10(g["der_scaled"][t]), n=log10(g["N_scaled"][t]),
                         derr=ratio(g["der_error"][t], g["der"][t]), derserr=ratio(g["der_scaled_error"][t], g["der_scaled"][t]),
                         status=[int(x) for x in g["der_retrieval_status"][t].filled(-1)])
            events.append(e)

    def water(n):
        lwp = nprng.choice(rng.choice([[50, 120, 300], [0, 1, 10, 700, -20, FILL], [FILL, 200, 2]]), n)
        return lwp

    # every combination of category bits, rain and echo, in any neighbourhood
    pix = np.array([(a, zz) for a in range(64) for zz in (0, 1)] * c.n(6, 30))
    for rain in (0, 1):
        p = nprng.permutation(pix).reshape(-1, 16, 2)
        z = nprng.integers(-60, 20, p.shape[:2]) * 1000
        z[p[:, :, 1] == 0] = FILL
        scene("all category bits", p[:, :, 0], z, water(len(p)), np.full(len(p), rain))
    # layers: runs of droplets of any length and spacing, gates of unequal thickness, custom parameters
    for _ in range(c.n(40, 600)):
        n, m = rng.choice([(2, 2), (3, 14), (2, 20), (6, 8)])
        liquid = nprng.random((n, m)) < rng.choice([0.2, 0.5, 0.8, 1])
        cat = np.where(liquid, nprng.choice([1, 3, 5, 7], (n, m)), nprng.choice([0, 2, 6, 4, 14, 38, 16], (n, m)))
        if rng.random() < 0.5:
            z = nprng.choice([-60000, -40000, -20000, 0], (n, m))
        else:
            z = nprng.integers(-60, 25, (n, m)) * 1000
        z[nprng.random((n, m)) < rng.choice([0, 0, 0.3, 0.7])] = FILL
        dz = nprng.choice([20, 30, 100, 250], m) if rng.random() < 0.7 else None
        par = None if rng.random() < 0.6 else (rng.choice([1.0, 2.0, 3.0]), rng.choice([1e8, 2e8, 3e8]), rng.choice([5e7, 1e8]), rng.choice([0.25, 0.35, 0.5]), rng.choice([0.05, 0.1]), rng.choice([5e-3, 2e-2]))
        rain = nprng.choice(rng.choice([[0], [1], [0, 1], [0, 1, FILL]]), n)
        scene("layers", cat, z, water(n), rain, rng.choice(["rain_detected", "rain_detected", "rainfall_rate", "rain_rate"]), par, dz)
    # without a liquid water path there is no product
    path = catfile.write(c.scratch / "nolwp.nc", np.ones((2, 3), int), np.zeros((2, 3), int), Z=np.zeros((2, 3)))
    out = c.scratch / "nolwp_out.nc"
    st, _ = outcome(generate_der, path, str(out))
    events.append({"kind": "nolwp", "status": st, "exists": out.exists()})
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("DerTrace", events)
    c.assumptions += ["single precision of stored values: log10 of a radius is compared to 2e-4 absolute, of a scaled radius to 3e-4"]
