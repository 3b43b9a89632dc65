"""C10: quality bits and attenuation of whole scenes."""
import random

import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, enc, where


def run(c):
    import atmoslib

    rng, nr = c.rng, c.nprng("c10")
    c.model_check("MCAttenuation", "MCAttenuation.cfg")
    events, meta = [], []
    scenes = 0

    def record(s, label):
        nonlocal scenes
        scenes += 1
        st, err, g = catrun.generate(c, s)
        if st != "ok":
            e = dict.fromkeys(("q", "zin", "z", "zerr", "beta", "drop", "frz", "melt", "fall", "slow", "gas", "liq", "rat", "mel", "agl"), [])
            events.append({**e, "rain": False, "dis": False, "rate": FILL, "gam": FILL, "wband": False, "lwp": FILL, "kmin": 0, "kmax": 0, "status": st, "source": label})
            meta.append(where(err))
            return
        idx = catrun.raw_index(s, g["time"])
        cat = g["category_bits"]
        wband = s.freq > 60
        h = np.asarray(g["height"])
        dz = float(h[1] - h[0])
        for t in range(len(g["time"])):
            rate = ma.masked
            if s.dtime is not None and "rainfall_rate" in g:
                rate = g["rainfall_rate"][t]
            known = rate is not ma.masked and not ma.is_masked(rate)
            gam = FILL if not known or rate <= 0 else enc(float(atmoslib.rain_specific_attenuation(np.array([float(rate) * 3.6e6]), s.freq)[0]), 1000)
            drop = catrun.bit(cat[t], 0)
            kk = []
            for k in np.nonzero(drop)[0]:
                for d in (-1.6 * dz, -0.5 * dz, 0.0, dz):
                    for m in (0, -1):
                        temp = np.interp(h[k] + d - s.altitude, s.mheight[m], s.temperature[m])
                        kk.append(float(atmoslib.liquid_water_specific_attenuation(np.array([temp]), s.freq)[0]))
            v = np.abs(g["v"][t].filled(9))
            e = {
                "status": st, "source": label, "q": enc(g["quality_bits"][t]), "zin": enc(s.Z[idx[t]], 1000), "z": enc(g["Z"][t], 1000), "zerr": enc(g["Z_error"][t], 1000),
                "beta": (~ma.getmaskarray(g["beta"][t])).astype(int).tolist(), "drop": drop.astype(int).tolist(), "fall": catrun.bit(cat[t], 1).astype(int).tolist(),
                "frz": catrun.bit(cat[t], 2).astype(int).tolist(), "melt": catrun.bit(cat[t], 3).astype(int).tolist(),
                "slow": ((v < 0.0501).astype(int) + (v < 0.0499)).tolist(),
                "gas": enc(g["radar_gas_atten"][t], 1000), "liq": enc(g["radar_liquid_atten"][t], 1000), "rat": enc(g["radar_rain_atten"][t], 1000),
                "mel": enc(g["radar_melting_atten"][t], 1000), "agl": enc(h - s.altitude), "rain": bool(ma.filled(g["rain_detected"][t], 0) == 1), "dis": s.dtime is not None,
                "rate": enc(rate, 3.6e9), "gam": gam, "wband": wband, "lwp": FILL if s.wtime is None else enc(g["lwp"][t], 1e5),
                "kmin": int(min(kk, default=0) * 1000), "kmax": int(max(kk, default=0) * 1000) + 1,
            }
            events.append(e)
            meta.append({"profile": t})

    for _ in range(c.n(26, 300)):
        seed = rng.randrange(1 << 30)
        record(scene.random_scene(random.Random(seed), np.random.default_rng(seed)), f"random scene {seed}")
    # rain and liquid layers: what is measured at the ground decides on the corrections
    for i in range(c.n(10, 80)):
        n = 30
        s = scene.base(n=n, m=rng.choice([40, 60]), dz=50.0, first=rng.choice([50.0, 150.0]), t0=rng.choice([280.0, 283.0, 290.0, 300.0, 276.0]), lapse=rng.choice([9.0, 14.0]), start=rng.randrange(0, 2800),
                       kind=rng.choice(["METEK MIRA-35", "RPG-FMCW-94"]), freq=rng.choice([35.15, 94.0]), altitude=rng.choice([0.0, 300.0]))
        s.temperature[:] = np.maximum(s.temperature, 195.0)
        if s.temperature.min() > 265:
            s.temperature -= 30
        for g in rng.sample(range(4, s.m - 6, 6), 3):
            a, b = sorted(rng.sample(range(n + 1), 2))
            for t in range(a, b):
                scene.liquid_layer(s, t, g)
        a, b = sorted(rng.sample(range(n + 1), 2))
        top = rng.randint(5, s.m)
        scene.fill_echo(s, slice(a, b), slice(0, top), rng.uniform(6, 20), -5.0)
        s.Z += 0.3 * nr.standard_normal(s.Z.shape)
        a, b = sorted(rng.sample(range(n + 1), 2))
        s.v[a:b, :3] = ma.where(s.v[a:b, :3].mask, ma.masked, 0.01)
        if rng.random() < 0.8:
            lwp = ma.array(rng.choice([0.02, 0.3, 1.0]) * nr.random(n))
            lwp[nr.random(n) < 0.1] *= -1
            a, b = sorted(rng.sample(range(n + 1), 2))
            if rng.random() < 0.6:
                lwp[a:b] = ma.masked
            scene.add_mwr(s, lwp)
        if rng.random() < 0.8:
            rate = ma.array(nr.choice([0.0, 0.1, 0.5, 3.0, 20.0], n) / 3.6e6)
            if rng.random() < 0.7:
                a, b = sorted(rng.sample(range(n + 1), 2))
                rate[a:b] = ma.masked
            wawa = None
            if rng.random() < 0.5:
                wawa = ma.array(np.full(n, 61))
                wawa[nr.random(n) < 0.3] = rng.choice([0, 71])
                wawa[nr.random(n) < 0.2] = ma.masked
            scene.add_disdrometer(s, rate, wawa=wawa)
        record(s, "rain and liquid")
    c.extra["scenes"] = scenes
    c.extra["pixels"] = sum(len(e["q"]) for e in events)
    for k, name in ((2, "clutter"), (4, "attenuated_liquid"), (5, "corrected_liquid"), (6, "attenuated_rain"), (7, "corrected_rain"), (8, "attenuated_melting"), (9, "corrected_melting")):
        c.extra[f"pixels with {name}"] = sum((x >> k) & 1 for e in events for x in e["q"])
    c.sample({k: events[0][k] for k in ("q", "zin", "z", "gas")})
    c.validate("AttenTrace", events, meta=meta, traces=scenes)
    c.assumptions.append("Specific attenuations of rain and liquid water (ITU-R P.838/P.840, library atmoslib) are taken as given")
