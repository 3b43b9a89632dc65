"""C26: liquid layers of whole scenes."""
import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, enc, where

UNIT = 2.0 ** -30


def run(c):
    rng, nr = c.rng, c.nprng("c26")
    cases = c.cases(c.model_check("MCLiquidLayers", "MCLiquidLayers5.cfg" if c.thorough else "MCLiquidLayers.cfg"))
    events, meta = [], []
    scenes = 0

    def record(s, label, dz):
        nonlocal scenes
        scenes += 1
        st, err, g = catrun.generate(c, s)
        none = {k: [] for k in ("k", "z", "frz", "drop", "tw")} | {"dz": dz, "wa": FILL, "wb": FILL, "ta": 0, "tb": 0}
        if st != "ok":
            events.append({**none, "status": st, "source": label})
            meta.append(where(err))
            return
        idx = catrun.raw_index(s, g["time"])
        wi = np.array([])
        if s.wtime is not None:
            w = g["lwp"]
            wi = np.nonzero(~ma.getmaskarray(w) & (ma.filled(w, 0) != 0))[0]
        for t, i in enumerate(idx):
            beta = ma.array(s.beta[i], mask=ma.getmaskarray(g["beta"][t]) | s.beta[i].mask)  # how it came to the grid is C06
            e = {**none, "status": st, "source": label, "k": np.rint(beta.filled(0) / UNIT).astype(int).tolist(), "z": (~ma.getmaskarray(g["Z"][t])).astype(int).tolist(),
                 "frz": catrun.bit(g["category_bits"][t], 2).astype(int).tolist(), "drop": catrun.bit(g["category_bits"][t], 0).astype(int).tolist(), "tw": enc(g["Tw"][t], 1000)}
            if len(wi):
                before, after = wi[wi <= t], wi[wi >= t]
                if len(before):
                    e["wa"], e["ta"] = enc(w[before[-1]], 1e5), int(idx[t] - idx[before[-1]])
                if len(after):
                    e["wb"], e["tb"] = enc(w[after[0]], 1e5), int(idx[after[0]] - idx[t])
            events.append(e)
            meta.append({"profile": t})

    def blank(n, m, dz):
        s = scene.base(n=n, m=m, dz=dz, first=rng.choice([dz, 3 * dz]), t0=rng.choice([295.0, 283.0, 276.0, 265.0, 240.0]), lapse=rng.choice([6.5, 10.0, 30.0]), start=rng.randrange(0, 2880 - n + 1),
                       altitude=rng.choice([0.0, 500.0]), t_end=rng.choice([None, 280.0, 262.0]))
        s.beta[:, -1] = UNIT
        return s

    # shapes of the specification, somewhere in the column
    n = 800
    for ks in [rng.sample(cases, min(n, len(cases))) for _ in range(c.n(2, 7))]:
        dz = 50.0
        s = blank(len(ks), 24, dz)
        for t, k in enumerate(ks):
            at = rng.choice([0, 1, 2, 3, 9, 17, 18])
            v = np.array(k, float)
            v[v > 0] += nr.integers(-40, 40, (v > 0).sum())
            v[v > 2000] *= rng.choice([1, 1, 4])
            s.beta[t, at:at + len(k)] = ma.masked_equal(v[:24 - at], 0) * UNIT
            z = at + rng.randint(0, 8)
            if rng.random() < 0.5 and z < 24:
                top = rng.randint(z + 1, 24)
                scene.fill_echo(s, t, slice(z if rng.random() < 0.3 else max(0, at - 2), top), -20.0, -0.5)
        record(s, "shapes", int(dz))
    # any profiles
    for _ in range(c.n(10, 80)):
        dz = rng.choice([25.0, 30.0, 45.0, 50.0, 65.0, 75.0, 80.0, 110.0, 140.0])
        n, m = 120, rng.choice([24, 40])
        s = blank(n, m, dz)
        for t in range(n):
            for _l in range(rng.choice([1, 2, 2, 4])):
                p, amp = rng.randrange(m - 1), rng.choice([1000, 3000, 20000, 200000])
                up, down = rng.choice([0.02, 0.2, 0.5, 0.8]), rng.choice([0.02, 0.2, 0.5, 0.8])
                for i in range(max(0, p - rng.randint(0, 9)), min(m - 1, p + rng.randint(1, 9))):
                    v = amp * (up ** (i - p) if i > p else down ** (p - i)) * (1 + 0.2 * nr.random())
                    if v >= 1:
                        s.beta[t, i] = int(v) * UNIT
            if rng.random() < 0.3:
                s.beta[t, nr.random(m) < 0.15] = ma.masked
                s.beta[t, -1] = UNIT
            if rng.random() < 0.7:
                b = rng.randrange(m)
                scene.fill_echo(s, t, slice(b, rng.randint(b + 1, m)), -20.0, -0.5)
        if rng.random() < 0.7:
            lwp = ma.array(nr.choice([-0.03, -0.001, 0.001, 0.1], n, p=[0.2, 0.2, 0.3, 0.3]) * (0.5 + nr.random(n)))
            for _m in range(rng.choice([0, 0, 2, 4])):
                a = rng.randrange(n)
                lwp[a:a + rng.choice([5, 12, 40])] = ma.masked
            scene.add_mwr(s, lwp)
        record(s, "profiles", int(dz))
    c.extra["scenes"] = scenes
    c.extra["profiles with droplets"] = sum(1 in e["drop"] for e in events)
    c.sample({k: events[0][k] for k in ("k", "z", "drop")})
    c.validate("LayerTrace", events, meta=meta, traces=scenes)
    c.assumptions.append("Without radar-based liquid detection (the external library voodoonet is not installed)")
    c.assumptions.append("Profiles within rounding of a limit of the criteria are not judged")
