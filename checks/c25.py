"""C25: rain flag of whole scenes."""
import random

import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, enc, where


def run(c):
    rng, nr = c.rng, c.nprng("c25")
    cases = c.cases(c.model_check("MCRain", "MCRain.cfg"))
    events, meta = [], []
    scenes = 0

    def record(s, label, want=None):
        nonlocal scenes
        scenes += 1
        st, err, g = catrun.generate(c, s)
        none = {"gates": [], "z": [], "v": [], "x": [], "dis": False, "rate": FILL, "np": FILL, "wawa": -1, "tw": 0, "rain": 0, "want": -1}
        if st != "ok":
            events.append({**none, "status": st, "source": label})
            meta.append(where(err))
            return
        idx = catrun.raw_index(s, g["time"])
        seen = (~ma.getmaskarray(g["Z"]).all(axis=0)).astype(int).tolist()
        x = g.get("ldr", g.get("sldr"))
        for t in range(len(g["time"])):
            i = idx[t]
            z = ma.array(s.Z[i], mask=ma.getmaskarray(g["Z"][t]))
            e = {**none, "status": st, "source": label, "gates": seen, "z": enc(z, 1000), "v": enc(g["v"][t], 1000), "x": [] if x is None else enc(x[t], 1000),
                 "dis": s.dtime is not None, "tw": enc(g["Tw"][t, 0], 1000), "rain": int(ma.filled(g["rain_detected"][t], -1))}
            if want is not None:
                e["want"] = want[i]
            if s.dtime is not None:
                e["rate"] = enc(g["rainfall_rate"][t], 3.6e9)
                near = np.abs(s.dtime - s.rtime[i])
                j = np.argmin(near)
                vals = {}
                for key, arr in (("rate", s.rate), ("np", s.npart), ("wawa", s.wawa)):
                    if arr is None:
                        continue
                    have = (near < 1.2 / 60) & ~ma.getmaskarray(arr)
                    vals[key] = enc(arr[j]) if near[j] < 1e-6 and have[j] else FILL if not have.any() else None
                if None in vals.values():  # between measurements: how they are continued is C06
                    continue
                if vals["rate"] == FILL:
                    e["rate"] = FILL
                e["np"] = vals["np"]
                e["wawa"] = vals.get("wawa", -1)
            events.append(e)
            meta.append({"profile": t})

    for _ in range(c.n(20, 300)):
        seed = rng.randrange(1 << 30)
        record(scene.random_scene(random.Random(seed), np.random.default_rng(seed)), f"random scene {seed}")
    # the decisions of the specification, one profile each
    groups = {}
    free = {(k["disdrometer"], k["weather"], k["warm"], k["echo"]) for k in cases if k["rain"] == "yes"} & {(k["disdrometer"], k["weather"], k["warm"], k["echo"]) for k in cases if k["rain"] == "no"}
    cases = [k for k in cases if k["rain"] == "no" or (k["disdrometer"], k["weather"], k["warm"], k["echo"]) not in free]
    for k in cases:
        polarised = "u" if k["echo"] == "unpolarised" else "p" if k["echo"] in ("depolarised", "depolarisation unknown", "rain") else rng.choice("up")
        groups.setdefault((k["disdrometer"] == "absent", k["weather"] == "absent", k["warm"], polarised), []).append(k)
    for (no_dis, no_weather, warm, polarised), ks in sorted(groups.items()):
        ks = rng.sample(ks, len(ks)) * (1 if len(ks) > 30 else 4)
        ks.sort(key=lambda k: (k["disdrometer"] == "missing", k["weather"] == "missing"))  # only long gaps stay missing
        ks = [k for i, k in enumerate(ks) for _ in range(4 if any(k["weather"] != x["weather"] and "missing" in (k["weather"], x["weather"]) or k["disdrometer"] != x["disdrometer"] and "missing" in (k["disdrometer"], x["disdrometer"]) for x in ks[max(i - 1, 0):i + 2]) else 1)]
        n = len(ks)
        s = scene.base(n=n, m=24, dz=100.0, t0=284.0 if warm == "warm" else 276.0, lapse=20.0, start=rng.randrange(0, 2880 - n))
        s.Z[:, 2:10], s.v[:, 2:10], s.width[:, 2:10], s.ldr[:, 2:10] = 10.0, -4.0, 0.3, -27.0
        for t, k in enumerate(ks):
            if k["echo"] == "none":
                s.Z[t, 2:10] = ma.masked
            elif k["echo"] == "weak":
                s.Z[t, 2:10] = -5.0
            elif k["echo"] == "rising":
                s.v[t, 2:10] = 0.5
            elif k["echo"] == "depolarised":
                s.ldr[t, 2:10] = -12.0
            elif k["echo"] == "depolarisation unknown":
                s.ldr[t, 2:10] = ma.masked
        for a in (s.v, s.width, s.ldr):
            a[s.Z.mask] = ma.masked
        if polarised == "u":
            s.ldr = None
        if not no_dis:
            rate = ma.array([{"missing": -1, "dry": 0.0, "drizzle": 0.2, "few": 5.0, "rain": 5.0}[k["disdrometer"]] / 3.6e6 for k in ks])
            rate[rate < 0] = ma.masked
            npart = ma.array([{"missing": 0, "dry": 0, "drizzle": 90, "few": 10, "rain": 200}[k["disdrometer"]] for k in ks])
            wawa = None if no_weather else ma.array([{"missing": -1, "dry": 0, "solid": 71, "liquid": 61}[k["weather"]] for k in ks])
            if wawa is not None:
                wawa[wawa < 0] = ma.masked
            scene.add_disdrometer(s, rate, npart, wawa)
        record(s, "decisions", [-1 if (k["disdrometer"], k["weather"], k["warm"], k["echo"]) in free else int(k["rain"] == "yes") for k in ks])
    pick = lambda vals, n, p=None: ma.array(nr.choice(vals, n, p=p))
    for i in range(c.n(60, 500)):
        # values on both sides of every threshold, profile by profile
        n, m = 60, rng.choice([5, 12, 24])
        s = scene.base(n=n, m=m, dz=rng.choice([100.0, 200.0]), t0=rng.choice([279.0, 283.0, 290.0]), lapse=rng.choice([20.0, 60.0]), start=rng.randrange(0, 2800),
                       kind=rng.choice(["METEK MIRA-35", "RPG-FMCW-94"]), freq=rng.choice([35.15, 94.0]), altitude=rng.choice([0.0, 300.0]), t_end=rng.choice([None, 276.0, 285.0]),
                       humid=rng.choice([0.3, 0.95]))
        if rng.random() < 0.7:  # strongly varying temperature next to the limit of liquid rain
            k = int(s.rtime[0] // 6)
            s.mtime = np.array([0.0, s.rtime[0] - 0.05, s.rtime[-1] + 0.05, 24.0])
            s.mtime = s.mtime[[0, 1, 2, 3]] if s.mtime[1] > 0 and s.mtime[2] < 24 else np.linspace(0, 24, 4)
            for name in ("temperature", "pressure", "rh", "q", "uwind", "vwind", "mheight"):
                setattr(s, name, getattr(s, name)[:4])
            s.temperature = s.temperature + np.array([0, -4, 4, 0])[:, None]
        if s.temperature.max(axis=1).max() > 0 and s.temperature[:, -1].min() > 260:
            s.temperature -= np.linspace(0, 30, s.temperature.shape[1])
        has = rng.choice(["ldr", "sldr", "none"])
        if has != "ldr":
            s.ldr = None
        first = rng.choice([0, 0, 1, 2, m - 4, m - 3, m - 1]) if m > 3 else 0
        first = max(first, 0)
        for g in range(first, min(first + 6, m)):
            s.Z[:, g] = pick([2.9, 3.05, 10.0, 25.0], n)
            s.v[:, g] = pick([-6.0, -0.2, 0.2, -0.06], n)
            s.width[:, g] = 0.3
            if has == "ldr":
                s.ldr[:, g] = pick([-27.0, -15.1, -14.9, -10.0], n, [0.4, 0.3, 0.2, 0.1])
                if rng.random() < 0.5:
                    s.ldr[nr.random(n) < 0.2, g] = ma.masked
        if has == "sldr":
            s.sldr = ma.array(nr.choice([-27.0, -15.1, -14.9, -10.0], (n, m), p=[0.4, 0.3, 0.2, 0.1]), mask=s.Z.mask.copy())
        # holes in the echo, several profiles long so that they are not speckle
        for _k in range(rng.randint(0, 3)):
            a = rng.randrange(n)
            s.Z[a:a + 5, first:first + rng.randint(1, 6)] = ma.masked
            mk = s.Z.mask
            for arr in (s.v, s.width, s.ldr, s.sldr):
                if arr is not None:
                    arr[mk] = ma.masked
        if rng.random() < 0.7:
            rate = pick(np.array([0.0, 0.24, 0.26, 1.0, 30.0]) / 3.6e6, n)
            npart = pick([0, 29, 30, 31, 500], n, [0.1, 0.1, 0.2, 0.3, 0.3])
            for arr in (rate, npart):
                if rng.random() < 0.4:
                    a, b = sorted(rng.sample(range(n + 1), 2))
                    arr[a:b] = ma.masked
            if rng.random() < 0.15:
                rate[:] = ma.masked
            wawa = None
            if rng.random() < 0.5:
                wawa = pick([0, 56, 57, 61, 68, 69, 71], n, [0.1, 0.1, 0.2, 0.2, 0.2, 0.1, 0.1])
                wawa[nr.random(n) < rng.choice([0, 0.3, 1])] = ma.masked
            scene.add_disdrometer(s, rate, npart, wawa)
        record(s, "thresholds")
    c.extra["scenes"] = scenes
    c.extra["rainy profiles"] = sum(e["rain"] == 1 for e in events)
    c.extra["dry profiles"] = sum(e["rain"] == 0 for e in events)
    c.sample({k: events[0][k] for k in ("gates", "dis", "rate", "tw", "rain")})
    c.validate("RainTrace", events, meta=meta, traces=scenes)
    c.assumptions.append("Wet-bulb temperature stored in the product is taken as given; values between disdrometer measurements are judged by C06")
