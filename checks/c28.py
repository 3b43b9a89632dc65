"""C28: every category bit of small scenes follows from the measurements step by step."""
import random

import numpy as np
from numpy import ma

import catrun
import scene
from vlib import FILL, MachineryError, enc, where


def tidy(s):
    """Values that are not at a threshold: thousandths plus a little."""
    for k in ("Z", "v", "width", "ldr", "sldr"):
        a = getattr(s, k)
        if a is not None:
            setattr(s, k, ma.array(np.floor(a.filled(0) * 1000) / 1000 + 0.0003, mask=ma.getmaskarray(a)))
    b = ma.array(s.beta)
    s.beta = ma.array(np.maximum(np.round(b.filled(0) * 2.0**30), 1) / 2.0**30, mask=ma.getmaskarray(b))
    if s.lwp is not None:
        s.lwp = ma.array(np.round(s.lwp.filled(0), 5), mask=ma.getmaskarray(s.lwp))


def low(a, n, m):
    if a is None:
        return [[FILL] * m] * n
    a = ma.array(a)
    return enc(ma.array(np.floor(a.filled(0) * 1000 + 0.1), mask=ma.getmaskarray(a)))


def event(c, s, label):
    st, err, g = catrun.generate(c, s)
    e = {"source": label, "status": st}
    if st != "ok":
        return e, where(err)
    n, m = g["category_bits"].shape
    raw = catrun.raw_index(s, g["time"])
    bins = np.round(np.asarray(g["time"]) * 120 - 0.5).astype(int)
    zmask = ma.getmaskarray(g["Z"])
    e["z"] = low(ma.array(s.Z.filled(0)[raw], mask=zmask), n, m)
    e["v"], e["w"] = low(g["v"], n, m), low(g.get("width"), n, m)
    e["cross"] = "ldr" if s.ldr is not None else "sldr" if s.sldr is not None else "none"
    e["x"] = low(g.get(e["cross"]), n, m)
    e["s"] = enc(g["v_sigma"], 1000) if "v_sigma" in g else [[FILL] * m] * n
    e["hasw"] = s.width is not None
    h = enc(g["height"])
    lo, hi = (-80000, 60000) if s.model == "gdas1" else (-40000, 30000)
    e |= {"t": bins.tolist(), "h": h, "alt": int(s.altitude), "dz": h[1] - h[0], "lo": lo, "hi": hi, "mira": "mira" in s.kind.lower()}
    e["tw"] = enc(g["Tw"], 1e4)
    e["k"] = [[0 if x == FILL else x for x in row] for row in enc(g["beta"], 2.0**30)]
    e["ip"] = [[0 if x == FILL else x for x in row] for row in enc(g["insect_prob"], 1e6)]
    e["rain"] = [int(x) for x in g["rain_detected"]]
    lwp = ma.array(g["lwp"]) if "lwp" in g else ma.masked_all(n)
    e["lw"] = enc(lwp, 1e6)
    w = lwp.filled(0)
    near = [i for i in range(n) if w[i] != 0]
    for k in ("wa", "ta", "wb", "tb"):
        e[k] = []
    for t in range(n):
        a, b = [i for i in near if i <= t], [i for i in near if i >= t]
        e["wa"].append(enc(w[a[-1]], 1e5) if a else FILL)
        e["ta"].append(int(bins[t] - bins[a[-1]]) if a else 0)
        e["wb"].append(enc(w[b[0]], 1e5) if b else FILL)
        e["tb"].append(int(bins[b[0]] - bins[t]) if b else 0)
    e["bits"] = enc(g["category_bits"])
    e["clut"] = catrun.bit(g["quality_bits"], 2).astype(int).tolist()
    return e, None


def level_of(s, kelvin):
    """Gate nearest to a temperature."""
    return int(np.argmin(np.abs(np.interp(s.range, s.mheight[0], s.temperature[0]) - kelvin)))


def column(rng, n=None, m=None, **kw):
    """A scene with the freezing level inside."""
    dz = rng.choice([50.0, 100.0])
    m = m or rng.randint(24, 40)
    kw.setdefault("t0", 273.0 + 0.0065 * dz * rng.randint(6, m - 10))
    s = scene.base(n=n or rng.randint(16, 30), m=m, dz=dz, first=rng.choice([dz, 2 * dz]), altitude=rng.choice([0.0, 15.0, 800.0]), start=rng.randrange(0, 2800),
                   kind=rng.choice(["METEK MIRA-35", "Copernicus"]), model=rng.choice(["ecmwf", "gdas1", "icon"]), **kw)
    if rng.random() < 0.3:
        s.ldr, s.sldr = None, s.ldr
    if rng.random() < 0.3:
        s.width = None
    return s


def noisy(s, nr, sd=0.1):
    for a, f in ((s.Z, 1.0), (s.v, 1.0), (s.width, 0.2), (s.ldr, 1.0), (s.sldr, 1.0)):
        if a is not None:
            a[:] = a + sd * f * nr.standard_normal(a.shape)
    return s


def bright_band(rng, nr):
    """A peak of depolarization of any shape in rain."""
    s = column(rng, **rng.choice([{}, {}, {}, {"t0": 272.5}]))
    if s.ldr is None:
        s.ldr, s.sldr = s.sldr, None
    a, b = sorted(rng.sample(range(s.n + 1), 2))
    k = level_of(s, 273.2 + rng.uniform(-3, 3))
    jumps = rng.choice([(0, 0, 0, 1, -1), (0, 0, 5), (0, 3, 4)])
    tail = rng.choice([6, 6, 13])
    peaks = rng.choice([(-15.0, -20.0, -23.0, -25.0), (-22.5, -27.0, -26.0)])
    scene.fill_echo(s, slice(a, b), slice(rng.choice([0, 0, max(k - 6, 0)]), rng.randint(min(k + 1, s.m - 1), s.m)), rng.choice([5.0, -20.0, -25.0, -26.0]), rng.choice([-4.0, -1.7, -1.4]), 0.6, -28.0)
    s.v[a:b, k:] += rng.choice([0.0, 1.0, 2.5])
    for t in range(a, b):
        kk = min(max(k + rng.choice(jumps), 0), s.m - 1)
        if rng.random() < 0.8:
            s.ldr[t, kk] = rng.choice(peaks)
            for d in range(1, rng.randint(1, tail)):
                for q in (kk - d, kk + d):
                    if 0 <= q < s.m and rng.random() < 0.8:
                        s.ldr[t, q] = s.ldr[t, kk] - (d * rng.choice([1.0, 2.0, 4.0]) if tail == 6 else 0.1 * d if d < tail // 2 else 5.0)
    noisy(s, nr, rng.choice([0.02, 0.2]))
    s.ldr[s.Z.mask] = ma.masked
    return s


def falling_speed(rng, nr):
    """Particles speeding up as they melt, no depolarization."""
    s = column(rng)
    if rng.random() < 0.8:
        s.ldr = s.sldr = None
    a, b = sorted(rng.sample(range(s.n + 1), 2))
    k = level_of(s, 273.2 + rng.uniform(-2, 2))
    scene.fill_echo(s, slice(a, b), slice(0, s.m), 5.0, -5.0, rng.choice([0.6, 0.35]), None)
    d = rng.randint(1, 6)
    slow = rng.choice([-1.0, -2.5, -4.4])
    for q in range(s.m):
        s.v[a:b, q] = -5.0 if q < k - d else slow if q > k + d else -5.0 + (slow + 5.0) * (q - k + d + 1) / (2 * d + 2)
    if s.width is not None:
        s.width[a:b, k:] = rng.choice([0.1, 0.3])
    return noisy(s, nr, rng.choice([0.005, 0.05, 0.3]))


def warm_insects(rng, nr):
    """Insects about the melting level, rain of varied depth."""
    s = column(rng)
    k = level_of(s, 273.4)
    often, dense, weak, clear = rng.choice([0.1, 0.4]), rng.choice([0.35, 0.35, 0.8]), rng.choice([-25.0, -34.0]), rng.choice([1.0, 1.0, 0.3])
    cross = s.ldr if s.ldr is not None else s.sldr
    for t in range(s.n):
        if rng.random() < 0.5:
            scene.fill_echo(s, t, slice(0, rng.randint(1, 9)), -20.0, -1.0, 0.4, -30.0)
            if cross is not None:
                cross[t, :9] = ma.where(s.Z.mask[t, :9], ma.masked, -30.0)
        if rng.random() < often:
            scene.fill_echo(s, t, slice(k, min(k + rng.randint(1, 8), s.m)), 0.0, -0.8, 0.3, -28.0)
            scene.fill_echo(s, t, slice(max(k - rng.randint(1, 9), 0), k), 2.0, rng.choice([-1.0, -4.0]), 0.6, -27.0)
        for q in range(max(k - 8, 0), min(k + 5, s.m)):
            if rng.random() < dense:
                scene.fill_echo(s, t, q, weak, -0.2, 0.1, -10.0)
                if cross is not None:
                    cross[t, q] = -10.0 if rng.random() < clear else ma.masked
    if rng.random() < 0.5:
        scene.add_mwr(s, ma.array(np.full(s.n, rng.choice([0.0, 0.002, 0.05])) + 0.001 * nr.random(s.n)))
    return noisy(s, nr, 0.05)


def cold_insects(rng, nr):
    """Strange depolarization in ice clouds of about 100 pixels, with specks around."""
    s = column(rng, t0=rng.choice([262.0, 268.0, 274.0, 282.0]))
    cross = s.ldr if s.ldr is not None else s.sldr
    for _ in range(rng.randint(1, 3)):
        w, hgt = rng.choice([(10, 10), (11, 9), (5, 20), (3, 4), (2, 5), (1, 11), (11, 1), (9, 12), (10, 1)])
        a, g = rng.randint(0, s.n - 4), rng.randint(0, s.m - 4)
        scene.fill_echo(s, slice(a, a + w), slice(g, g + hgt), rng.choice([-25.0, -10.0]), -0.6, 0.2, -25.0)
    for _ in range(rng.randint(5, 60)):
        t, q = rng.randrange(s.n), rng.randrange(s.m)
        scene.fill_echo(s, t, q, -28.0, -0.3, 0.1, rng.choice([-10.0, -12.9, -13.1, -20.0]))
        if rng.random() < 0.4:
            s.beta[t, q] = 3e-7
    if s.sldr is not None:
        s.sldr[:] = ma.array(np.where(nr.random(s.Z.shape) < 0.2, -12.0, -26.0), mask=s.Z.mask)
    for _ in range(rng.randint(0, 10)):  # still echoes
        t, q = rng.randrange(s.n), rng.randrange(12)
        s.Z[t, q], s.v[t, q] = -20.0, rng.choice([0.0, 0.049, -0.0495, 0.052])
        if s.width is not None:
            s.width[t, q] = 0.1
    return noisy(s, nr, 0.002)


def exact_regions(rng, nr):
    """Regions about the sizes that matter, in cold air without anything else than specks nearby."""
    s = scene.base(n=30, m=30, dz=50.0, first=100.0, t0=rng.choice([269.0, 269.0, 282.0]), start=rng.randrange(0, 2800), kind="Copernicus")
    w, hgt, more = rng.choice([(10, 10, 0), (9, 11, 0), (9, 11, 1), (10, 10, 1), (5, 2, 0), (3, 3, 0), (3, 3, 1), (5, 2, 1), (1, 10, 0), (1, 11, 0)])
    a, g = rng.randint(4, 25 - w), rng.randint(4, 25 - hgt)
    scene.fill_echo(s, slice(a, a + w), slice(g, g + hgt), -10.0, -0.6, 0.8, -25.0)
    if more:
        scene.fill_echo(s, a + w, g, -10.0, -0.6, 0.8, -25.0)
    for _ in range(rng.choice([0, 10, 30])):
        t, q = rng.randrange(30), rng.randrange(30)
        if s.Z.mask[t, q]:
            scene.fill_echo(s, t, q, -10.0, -0.6, 0.8, -10.0)
            if rng.random() < 0.5:
                s.beta[t, q] = 3e-7
    return noisy(s, nr, 0.02)


def twice(s, nr):
    """Two profiles in each bin, the velocity varying between them."""
    for k in ("Z", "v", "width", "ldr", "sldr"):
        a = getattr(s, k)
        if a is not None:
            setattr(s, k, ma.repeat(a, 2, axis=0))
    d = nr.choice([0.0, 0.1, 0.2, 0.5], (s.n, s.m)) * nr.choice([0.0, 1.0]) + 0.05 * nr.random((s.n, s.m))
    s.v[0::2] += d
    s.v[1::2] -= d
    s.rtime = np.repeat(s.rtime, 2) + np.tile([-5.0, 5.0], s.n) / 3600


def lidar_ice(rng, nr):
    """Lidar echoes of any depth about 2 and 4 km in cold air."""
    s = scene.base(n=rng.randint(16, 24), m=50, dz=100.0, first=rng.choice([100.0, 150.0, 1000.0, 1500.0]), t0=rng.choice([255.0, 262.0, 272.0]), lapse=rng.choice([6.5, 10.0]), altitude=rng.choice([0.0, 800.0]),
                   start=rng.randrange(0, 2800))
    for t in range(s.n):
        for _ in range(rng.randint(1, 6)):
            g = rng.randrange(48)
            s.beta[t, g:g + rng.randint(1, 4)] = 4e-7
    for _ in range(2):
        a, g = rng.randint(0, s.n - 6), rng.randint(0, 40)
        s.beta[a:a + 6, g:g + 8:rng.choice([1, 2, 3])] = 4e-7
        s.beta[a:a + 6, g] = 5e-7
    s.beta[:, rng.randint(42, 48):] = 4e-7
    if rng.random() < 0.5:
        for t in range(0, s.n, 2):
            scene.liquid_layer(s, t, rng.randint(4, 40))
    return s


def topped_layers(rng, nr):
    """Liquid layers with echoes growing or fading upwards, up to the uppermost gate."""
    s = column(rng, t0=rng.choice([265.0, 275.0, 285.0]))
    for t in range(s.n):
        g = rng.choice([rng.randint(2, s.m - 4), s.m - 4, s.m - 3, s.m - 2])
        scene.liquid_layer(s, t, g)
        lo, hi = max(g - rng.randint(0, 3), 0), min(g + rng.randint(0, 4), s.m)
        up = rng.choice([1.0, -1.0])
        for q in range(lo, hi):
            if rng.random() < 0.9:
                scene.fill_echo(s, t, q, -25.0 + up * (q - g), -0.3)
    if s.sldr is not None:
        s.sldr[:] = ma.array(np.full(s.Z.shape, -28.0), mask=s.Z.mask)
    if rng.random() < 0.6:
        lwp = ma.array(rng.choice([0.02, -0.01]) + 0.02 * nr.random(s.n))
        lwp[nr.random(s.n) < 0.4] = ma.masked
        scene.add_mwr(s, lwp)
    return noisy(s, nr, 0.05)


def capped_drizzle(rng, nr):
    """Drizzle below supercooled liquid that the radar may not see."""
    s = column(rng)
    k = level_of(s, 273.1)
    for t in range(s.n):
        scene.fill_echo(s, t, slice(max(k - rng.randint(2, 14), 0), min(k + rng.randint(-1, 4), s.m)), -15.0, -1.0, 0.4, -30.0)
        if rng.random() < 0.7:
            scene.liquid_layer(s, t, min(max(k + rng.choice([0, 0, 1, 1, 2]), 1), s.m - 5))
        if rng.random() < 0.3:
            scene.fill_echo(s, t, min(k + 1, s.m - 1), -25.0, -0.2, 0.1, -10.0)
    if s.sldr is not None:
        s.sldr[:] = ma.array(np.full(s.Z.shape, -28.0), mask=s.Z.mask)
    if rng.random() < 0.6:
        lwp = ma.array(nr.choice([0.001, 0.0049, 0.0052, 0.05], s.n))
        lwp[nr.random(s.n) < 0.3] = ma.masked
        scene.add_mwr(s, lwp)
    return noisy(s, nr, 0.05)


def long_day(rng):
    """Hours without melting between two periods with it, temperature changing."""
    n = rng.choice([520, 560, 600])
    s = scene.base(n=n, m=14, dz=100.0, first=100.0, t0=277.0, t_end=280.0, lapse=6.5, start=rng.randrange(0, 2880 - n), model_step=1.0, model="gdas1")
    i, j = rng.choice([(0, n), (3, n - 2), (15, n - 20), (30, n), (0, n - 40)])
    for t in [*range(max(i - 3, 0), i), *range(j, min(j + 3, n))]:
        k = rng.choice([4, 5, 10])
        scene.fill_echo(s, t, slice(0, 14), 10.0, -4.0, 0.6, -28.0)
        s.ldr[t, k] = -15.0
    return s


def run(c):
    rng = c.rng
    c.model_check("MCCascade", "MCCascade.cfg", coverage=False)
    if c.thorough:
        c.model_check("MCCascade", "MCCascadeBig.cfg", coverage=False, timeout=1500)
        c.model_check("MCCascade", "MCCascadeWide.cfg", coverage=False, timeout=1500)
    events, meta = [], []

    def record(s, label):
        tidy(s)
        if s.n < 100 and rng.random() < 0.3:
            twice(s, c.nprng(f"twice{len(events)}"))
        e, why = event(c, s, label)
        events.append(e)
        meta.append(why)

    for i in range(c.n(60, 700)):
        seed = rng.randrange(1 << 30)
        r = random.Random(seed)
        s = scene.random_scene(r, np.random.default_rng(seed), n=r.randint(16, 30), m=r.randint(20, 40))
        record(s, f"random scene {seed}")
    for kind, times in ((bright_band, 3), (falling_speed, 3), (warm_insects, 3), (cold_insects, 1), (lidar_ice, 1), (topped_layers, 1), (capped_drizzle, 1), (exact_regions, 2)):
        for _ in range(times * c.n(10, 80)):
            s = kind(rng, c.nprng(f"{kind.__name__}{len(events)}"))
            record(s, kind.__name__.replace("_", " "))
    for _ in range(c.n(3, 12)):
        record(long_day(rng), "long day")
    c.sample({k: events[0].get(k) for k in ("tw", "z", "bits")})
    c.validate("CascadeTrace", events, meta=meta, chunk=max(10, -(-len(events) // 6)), parallel=6)
    c.extra["scenes_judged"], c.extra["scenes_too_close_to_a_threshold"] = c.clauses.get("JUDGED", 0), {k: v for k, v in c.clauses.items() if k.startswith("UNCLEAR")}
    if c.clauses.get("JUDGED", 0) < len(events) / 3 and not c.bad:
        raise MachineryError("most scenes could not be judged")
    c.assumptions.append("Scenes with a value at a threshold, or with gaps in the velocity where melting is sought in it, are left out")
