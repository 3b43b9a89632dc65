"""C09: category bits of whole scenes."""
import copy
import random

import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, enc, where


def run(c):
    rng, nr = c.rng, c.nprng("c09")
    c.model_check("MCClassify", "MCClassify.cfg")
    events, meta = [], []
    scenes = 0

    def record(s, label, again=False, other=None, apart=()):
        nonlocal scenes
        scenes += 1
        st, err, g = catrun.generate(c, s)
        if st != "ok":
            events.append({"h": [], "tw": [], "z": [], "b": [], "bits": [], "clut": [], "again": [], "far": [], "ins": [], "lwp": False, "peaks": [], "dz": 0, "alt": 0, "lo": 0, "hi": 0, "melt": False, "mlo": 0, "mhi": 0, "steady": False, "status": st, "source": label})
            meta.append(where(err))
            return
        g2 = None
        if again:  # the same measurements once more, the files named otherwise and given in another order
            _, _, g2 = catrun.generate(c, s, name="again", tag="_b")
        far = {}
        if other is not None:  # the same scene without what was measured long before
            _, _, g3 = catrun.generate(c, other, name="other", tag="_o")
            near = {round(float(x), 5): i for i, x in enumerate(g3.get("time", []))}
            far = {t: enc(g3["category_bits"][near[round(float(x), 5)]]) for t, x in enumerate(g["time"]) if t in apart and round(float(x), 5) in near}
        bits = g["category_bits"]
        melt = catrun.bit(bits, 3)
        h = enc(g["height"])
        span = [h[k] for k in np.nonzero(melt.any(axis=0))[0]]
        hi, lo = (6000, -8000) if s.model == "gdas1" else (3000, -4000)
        steady = bool(s.temperature[0, 0] == s.temperature[-1, 0])
        n = len(g["time"])
        for t in range(n):
            beta = g["beta"][t]
            e = {
                "source": label, "status": st, "h": h, "tw": enc(g["Tw"][t], 1000), "z": (~ma.getmaskarray(g["Z"][t])).astype(int).tolist(),
                "b": (~ma.getmaskarray(beta)).astype(int).tolist(), "bits": enc(bits[t]), "clut": catrun.bit(g["quality_bits"][t], 2).astype(int).tolist(),
                "peaks": [int(k) + 1 for k in np.nonzero(beta.filled(0) > 0.99e-6)[0]], "dz": int(round(float(h[1] - h[0]))), "alt": int(s.altitude), "lo": lo, "hi": hi,
                "melt": bool(melt.any()), "mlo": min(span, default=0), "mhi": max(span, default=0), "steady": steady,
                "far": far.get(t, []),
                "ins": (g["insect_prob"][t].filled(0) > 0.75).astype(int).tolist(), "lwp": bool("lwp" not in g or ma.getmaskarray(g["lwp"])[t] or g["lwp"][t] > 0.00501),
                "again": enc(g2["category_bits"][t]) if g2 and len(g2.get("category_bits", [])) == n else ([-1] if again else []),
            }
            events.append(e)
            meta.append({"profile": t})

    for i in range(c.n(40, 400)):
        seed = rng.randrange(1 << 30)
        s = scene.random_scene(random.Random(seed), np.random.default_rng(seed))
        record(s, f"random scene {seed}", again=i % 8 == 0)
    # cold cirrus and low ice clouds seen by the lidar alone
    for _ in range(c.n(4, 30)):
        s = scene.base(n=40, m=60, dz=100.0, first=100.0, t0=rng.choice([255.0, 262.0, 283.0]), lapse=rng.choice([6.5, 12.0]), start=rng.randrange(0, 2800))
        for _ in range(3):
            a, b = sorted(rng.sample(range(41), 2))
            g0, g1 = sorted(rng.sample(range(61), 2))
            s.beta[a:b, g0:g1] = 4e-7
            if rng.random() < 0.5:
                s.beta[a:b, g0:g1][nr.random((b - a, g1 - g0)) < 0.6] = ma.masked
        record(s, "lidar only")
    for t0 in (280.0, 285.0):
        s = scene.base(n=12, m=60, dz=100.0, first=100.0, t0=t0, start=rng.randrange(0, 2800))
        s.beta[:, rng.randint(20, 40):] = 4e-7
        record(s, "deep lidar echo")
    # insects beside a melting layer at the edges of the scene
    for _ in range(c.n(4, 30)):
        s = scene.base(n=40, m=30, dz=100.0, first=100.0, t0=rng.choice([279.0, 281.0, 283.0]), start=rng.randrange(0, 2800))
        z0 = int(np.argmin(np.abs(np.interp(s.range, s.mheight[0], s.temperature[0]) - 273.4)))
        where = rng.choice([(0, 4), (36, 40), (15, 25), (0, 40)])
        scene.fill_echo(s, slice(*where), slice(0, 30), 10.0, -4.0, 0.8, -27.0)
        s.v[where[0]:where[1], z0 + 1:] = -1.0
        s.ldr[where[0]:where[1], max(z0 - 1, 0):z0 + 1] = -12.0
        rest = [t for t in range(40) if not where[0] <= t < where[1]]
        for t in rest:
            for k in range(max(z0 - 3, 0), z0 + 4):
                if rng.random() < 0.7:
                    scene.fill_echo(s, t, k, -25.0, -0.2, 0.1, -10.0)
        for t in rest[::3]:
            scene.fill_echo(s, t, slice(24, 30), -25.0, -0.2, 0.1, -10.0)
        record(s, "insects beside melting")
    # what is seen at one end of the scene does not change the other
    for end in (0, 1):
        for _ in range(c.n(1, 10)):
            s = scene.base(n=40, m=30, dz=100.0, first=100.0, t0=rng.choice([280.0, 281.0, 282.0]), start=rng.randrange(0, 2800))
            z0 = int(np.argmin(np.abs(np.interp(s.range, s.mheight[0], s.temperature[0]) - 273.4)))
            tail = range(25, 40) if end == 0 else range(0, 15)
            for t in tail:
                for k in range(max(z0 - 4, 0), z0 + 5):
                    if rng.random() < 0.7:
                        scene.fill_echo(s, t, k, -25.0, -0.2, 0.1, -10.0)
                scene.fill_echo(s, t, slice(0, 2), -25.0, -1.0, 0.3, -30.0)
                if rng.random() < 0.5:
                    scene.fill_echo(s, t, slice(25, 30), -25.0, -0.2, 0.1, -10.0)
            other = copy.deepcopy(s)
            a = slice(0, 5) if end == 0 else slice(35, 40)
            scene.fill_echo(s, a, slice(0, 30), 10.0, -4.0, 0.8, -27.0)
            s.v[a, z0 + 1:] = -1.0
            s.ldr[a, max(z0 - 1, 0):z0 + 1] = -12.0
            record(s, "rain at the other end", other=other, apart=tail)
    # supercooled layers down to below -38 degC
    for _ in range(c.n(4, 30)):
        s = scene.base(n=40, m=100, dz=50.0, first=100.0, t0=rng.choice([240.0, 250.0, 270.0, 285.0]), lapse=rng.choice([6.5, 10.0]), start=rng.randrange(0, 2800))
        for _ in range(rng.randint(1, 3)):
            g = rng.choice([1, 2, 3, rng.randint(4, 90)])
            if rng.random() < 0.5:  # about -38 degC
                g = min(max(int(np.argmin(np.abs(np.interp(s.range, s.mheight[0], s.temperature[0]) - rng.uniform(231.5, 236.5)))), 3), 90)
            a, b = sorted(rng.sample(range(41), 2))
            for t in range(a, b):
                scene.liquid_layer(s, t, g)
            if rng.random() < 0.6:
                scene.fill_echo(s, slice(a, b), slice(max(g - rng.randint(0, 12), 0), g + rng.randint(1, 9)), rng.uniform(-30, 0), -0.3)
        record(s, "supercooled layers")
    c.extra["scenes"] = scenes
    c.extra["pixels"] = sum(len(e["bits"]) for e in events)
    for k, name in enumerate(("droplet", "falling", "freezing", "melting", "aerosol", "insect")):
        c.extra[f"pixels with {name}"] = sum((x >> k) & 1 for e in events for x in e["bits"])
    c.sample({k: events[0][k] for k in ("tw", "z", "b", "bits")})
    c.validate("CategoryTrace", events, meta=meta, traces=scenes)
    c.assumptions.append("Temperatures, reflectivities and lidar signals of the scenes are synthetic; VoodooNet (not installed) is not used")
