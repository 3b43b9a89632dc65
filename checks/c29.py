"""C29: what is left of the radar data after the removal of artefacts, and the sensitivity of the radar."""
import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, where

VARS = ("z", "v", "width", "ldr", "sigma")


def run(c):
    rng, nr = c.rng, c.nprng("c29")
    cases = c.cases(c.model_check("MCCleanup", "MCCleanup.cfg"))
    if c.thorough:
        c.model_check("MCCleanup", "MCCleanupBig.cfg")
    events, meta = [], []
    removed = dict.fromkeys(VARS, 0)
    stats = {"scenes": 0, "long scenes": 0, "cluttered gates": 0}

    def record(s, label):
        stats["scenes"] += 1
        st, err, g = catrun.generate(c, s)
        none = {**dict.fromkeys(VARS, []), **dict.fromkeys(("o" + k for k in VARS), []), "fast": [], "noisy": False, "same": True, "sens": [], "clut": [], "weak": [0, 0], "npix": 0}
        if st != "ok":
            events.append({**none, "status": st, "source": label})
            meta.append(where(err))
            return
        bins = np.rint(np.asarray(g["time"], float) * 120 - 0.5).astype(int)
        raw = np.floor(s.rtime * 120 + 1e-6).astype(int)
        rows = [np.nonzero(raw == b)[0] for b in bins]
        grid = lambda x: [ma.mean(x[i], axis=0) for i in rows]
        inp = {"z": ma.array(grid(s.Z)), "v": ma.array(grid(s.v))}
        inp["width"] = ma.array(grid(s.width)) if s.width is not None else None
        inp["ldr"] = ma.array(grid(s.ldr)) if s.ldr is not None else None
        sd = ma.array([ma.std(s.v[i], axis=0) for i in rows])
        inp["sigma"] = ma.masked_where(ma.filled(sd, 0) < 1e-9, sd)
        att = sum(ma.filled(g[k], 0) for k in ("radar_gas_atten", "radar_liquid_atten", "radar_rain_atten", "radar_melting_atten"))
        out = {"z": g["Z"] - att, "v": g["v"], "width": g.get("width"), "ldr": g.get("ldr"), "sigma": g["v_sigma"]}
        e = {**none, "status": st, "source": label, "noisy": any(k in s.kind.lower() for k in ("rpg", "basta"))}
        for k in VARS:
            if inp[k] is None:
                continue
            e[k] = (~ma.getmaskarray(inp[k])).astype(int).tolist()
            e["o" + k] = [] if out[k] is None else (~ma.getmaskarray(out[k])).astype(int).tolist()
            if out[k] is not None and out[k].shape == inp[k].shape:
                both = ~ma.getmaskarray(out[k]) & ~ma.getmaskarray(inp[k])
                e["same"] = e["same"] and bool(np.all(np.abs(ma.getdata(out[k])[both] - ma.getdata(inp[k])[both]) < 0.02))
                removed[k] += int((ma.getmaskarray(out[k]) & ~ma.getmaskarray(inp[k])).sum())
        e["fast"] = (ma.filled(inp["v"][:, 0], 0) > 4).astype(int).tolist()
        logr = 20 * np.log10(s.range)
        lim = np.asarray(g["Z_sensitivity"], float) - logr - np.asarray(ma.mean(g["radar_gas_atten"], axis=0), float)
        e["sens"] = np.rint(lim * 1000).astype(int).tolist()
        cl = catrun.bit(g["quality_bits"], 2) & ~ma.getmaskarray(g["Z"])
        zz = ma.filled(g["Z"], 0)
        for k in range(s.m):
            x = zz[cl[:, k], k]
            lv = float(g["Z_sensitivity"][k])
            e["clut"].append([len(x), int((x < lv - 0.01).sum()), int((x > lv + 0.01).sum())])
            stats["cluttered gates"] += len(x) > 0
        free = [k for k in range(s.m) if not e["clut"][k][0]]
        if free:
            p = (g["Z"] - logr).compressed()
            e["npix"] = len(p)
            e["weak"] = [int((p < lim[free[0]] - 0.02).sum()), int((p < lim[free[0]] + 0.02).sum())]
        events.append(e)
        meta.append({"bins": f"{bins[0]}..{bins[-1]}", "radar": s.kind})

    def blank(n, m, kind):
        s = scene.base(n=n, m=m, dz=rng.choice([40.0, 90.0]), first=rng.choice([100.0, 250.0]), t0=rng.choice([268.0, 283.0, 293.0]), lapse=9.0, start=rng.randrange(0, 2880 - n + 1),
                       kind=kind, freq=rng.choice([35.15, 94.0]), altitude=rng.choice([0.0, 120.0]))
        return s

    def values(s, has, twice=False, low=0.0):
        """Measurements where has[...] is set; each bin holds one profile or two that differ in velocity."""
        n, m = s.Z.shape
        ph = {k: has[k] for k in ("z", "v", "width", "ldr")}
        s.Z = ma.array(np.round(-30 + 25 * nr.random((n, m)), 2), mask=~ph["z"])
        vel = np.round(-0.3 - 2 * nr.random((n, m)), 2)
        if low:
            k = nr.random((n, 8)) < low
            vel[:, :8][k] = 0.02
        s.v = ma.array(vel, mask=~ph["v"])
        s.width = ma.array(0.1 + 0.3 * nr.random((n, m)), mask=~ph["width"])
        s.ldr = ma.array(-29 + 3 * nr.random((n, m)), mask=~ph["ldr"])
        fast = nr.random(n) < rng.choice([0.15, 0.4])
        s.v[fast, 0] = ma.where(s.v[fast, 0].mask, ma.masked, nr.choice([3.5, 3.85, 4.15, 4.5, 6.0], fast.sum()))
        if rng.random() < 0.15:
            s.width = None
        if rng.random() < 0.2:
            s.ldr = None
        if twice:
            two = lambda x: None if x is None else ma.concatenate([x, x], axis=1).reshape(2 * n, m)
            base = s.v
            s.Z, s.v, s.width, s.ldr = two(s.Z), two(s.v), two(s.width), two(s.ldr)
            second = base + 0.2
            second[~has["sigma"]] = ma.masked  # one value only: no standard deviation
            s.v[1::2] = second
            s.rtime = np.sort(np.concatenate([s.rtime - 5 / 3600, s.rtime + 5 / 3600]))

    # shapes of the specification, apart from each other
    pick = rng.sample(cases, min(len(cases), c.n(700, 6000)))
    per = 70
    for i in range(0, len(pick), per):
        kind = rng.choice(["RPG-FMCW-94", "RPG-Radiometer Physics RPG-FMCW-35", "BASTA", "Mini-BASTA", "METEK MIRA-35", "Copernicus"])
        part = pick[i:i + per]
        n, m = 6 * ((len(part) + 2) // 3) + 2, 24
        has = {k: np.zeros((n, m), bool) for k in VARS}
        for j, p in enumerate(part):
            t, g = 1 + 6 * (j // 3), (0, 8, 16)[j % 3]
            has["z"][t:t + 4, g:g + 2] = p["z"]
            has["v"][t:t + 4, g:g + 2] = p["v"]
            for k in ("width", "ldr"):
                has[k][t:t + 4, g:g + 2] = (np.array(p["z"]) > 0) & (nr.random((4, 2)) < 0.9)
        s = blank(n, m, kind)
        values(s, has)
        record(s, "patterns")
    # long scenes with stripes
    for i in range(c.n(16, 120)):
        stats["long scenes"] += 1
        n, m = rng.choice([298, 299, 300, 301, 310, 330]), rng.choice([26, 30, 34])
        s = blank(n, m, rng.choice(["RPG-FMCW-94", "BASTA", "METEK MIRA-35", "METEK MIRA-35"]))
        cloud = np.zeros((n, m), bool)
        for _ in range(rng.randint(0, 4)):
            a, b = sorted(rng.sample(range(n + 1), 2))
            k, h = rng.choice([0, rng.randrange(m), rng.randrange(m)]), rng.choice([1, 3, 6, 12])
            cloud[a:b, k:k + h] = True
        if rng.random() < 0.7:
            cloud |= nr.random((n, m)) < rng.choice([0.004, 0.02, 0.1])
        if rng.random() < 0.35:  # thick even cloud: a few values more make a stripe
            k = rng.choice([17, 19, 20, 22])
            cloud[:, 1:k] = True
            cloud[nr.random(n) < rng.choice([0.2, 0.3, 0.7, 0.8]), 1] = False
            for t in rng.sample(range(n), 40):
                cloud[t, k + 1:k + 2 * rng.randint(1, 5):2] = True
        at = rng.choice([0, rng.randrange(m), rng.randrange(m)])
        cloud[:, at] |= nr.random(n) < rng.choice([0.0, 1.0, 1.0])  # nearly every profile has something
        has = {k: cloud & (nr.random((n, m)) < rng.choice([1.0, 0.98, 0.6])) for k in VARS}
        if rng.random() < 0.4:
            has["ldr"] = cloud & (nr.random((n, m)) < 0.1)
            has["ldr"][:, at] |= rng.random() < 0.7
        if rng.random() < 0.4:
            has["sigma"] = cloud & (nr.random((n, m)) < 0.1)
            has["sigma"][:, at] |= rng.random() < 0.7
        for _ in range(rng.randint(1, 6)):
            a, w = rng.randrange(n), rng.choice([1, 1, 2, 3, 6])
            x = nr.random((min(a + w, n) - a, m)) < rng.choice([0.75, 0.9, 1.0])
            names = rng.choice([VARS, VARS, VARS, ("ldr",), ("sigma", "v"), ("z", "v"), ("v",)])
            for k in names:
                has[k][a:a + w] |= x
        for _ in range(rng.randint(1, 4)):
            a, w = rng.randrange(m), rng.choice([1, 1, 2])
            x = nr.random((n, min(a + w, m) - a)) < rng.choice([0.07, 0.1, 0.5, 1.0])
            names = rng.choice([VARS, VARS, VARS, ("ldr",), ("sigma", "v"), ("z", "v"), ("v",)])
            for k in names:
                has[k][:, a:a + w] |= x
        has["sigma"] &= has["v"]
        if rng.random() < 0.3:  # fewer profiles with data than profiles
            for _ in range(rng.choice([1, 2, 12])):
                t = rng.randrange(n)
                for k in VARS:
                    has[k][t] = False
        values(s, has, twice=rng.random() < 0.6, low=rng.choice([0.0, 0.05, 0.3]))
        if rng.random() < 0.3:  # no measurement at all
            keep = np.ones(len(s.rtime), bool)
            a = rng.randrange(0, len(keep) - 8)
            keep[a:a + rng.choice([2, 4, 8])] = False
            for k in ("rtime", "Z", "v", "width", "ldr"):
                if getattr(s, k) is not None:
                    setattr(s, k, getattr(s, k)[keep])
        record(s, "stripes")
    # nothing but clutter, nothing at all
    for i in range(c.n(4, 20)):
        n, m = 20, 20
        s = blank(n, m, rng.choice(["RPG-FMCW-94", "METEK MIRA-35"]))
        has = {k: np.zeros((n, m), bool) for k in VARS}
        if i % 2:
            for k in VARS:
                has[k][:, :rng.choice([3, 12])] = True
        values(s, has, low=0.5)
        record(s, "clutter" if i % 2 else "no echo")
    c.extra.update(stats)
    c.extra["values removed"] = removed
    c.sample({k: events[0][k] for k in ("sens", "clut", "weak", "noisy")})
    c.validate("CleanupTrace", events, meta=meta, traces=stats["scenes"], chunk=max(8, len(events) // 4), parallel=4)
    c.assumptions.append("How several profiles within one bin are averaged is judged by C05; here they are the same or differ in velocity only")
