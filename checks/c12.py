"""C12: statuses of the classification product."""
import numpy as np
from numpy import ma

import catfile
from vlib import FILL, outcome

NAMES = ("detection_status", "signal_source_status", "radar_attenuation_status")
AMOUNTS = ("radar_liquid_atten", "radar_rain_atten", "radar_melting_atten")


def run(c):
    from cloudnetpy.products import generate_classification

    rng, nprng = c.rng, c.nprng("c12")
    c.model_check("MCPixels", "MCPixels.cfg")
    res = c.model_check("MCProfileScan", "MCProfileScan.cfg")
    cases = c.cases(res)
    events = []

    def scene(source, qua, amounts, lwp, rate, freq, drop=(), cat=None):
        """amounts: three integer arrays (mdB, FILL missing); lwp g m-2, rate um h-1 (None: variable absent)."""
        n, m = qua.shape
        kw = {}
        for name, a in zip(AMOUNTS, amounts):
            kw[name] = None if name in drop else ma.array(a / 1000.0, mask=a == FILL)
        kw["lwp"] = None if lwp is None else ma.array(lwp / 1000.0, mask=lwp == FILL)
        kw["rainfall_rate"] = None if rate is None else ma.array(rate / 3.6e9, mask=rate == FILL)
        path = catfile.write(c.scratch / "cat.nc", cat if cat is not None else np.zeros_like(qua), qua, radar_frequency=freq, **kw)
        out = c.scratch / "class.nc"
        st, _ = outcome(generate_classification, path, str(out))
        got = catfile.read(out, *NAMES) if st == "ok" else {}
        for t in range(n):
            e = {"source": source, "status": st, "q": qua[t].tolist(), "wband": bool(freq >= 90)}
            for key, name in zip(("det", "src", "att"), NAMES):
                e[key] = [] if st != "ok" or got[name] is None else [int(x) for x in got[name][t].filled(-1)]
            for key, name, a in zip(("liq", "rain", "melt"), AMOUNTS, amounts):
                e[key] = [0] * m if name in drop else a[t].tolist()
            e["lwp"] = 0 if lwp is None else int(lwp[t])
            e["rate"] = 0 if rate is None else int(rate[t])
            events.append(e)

    # all quality bits, in profiles of 64 pixels of each kind
    qua = np.arange(1024).reshape(-1, 64)
    zero = np.zeros_like(qua)
    scene("all quality bits", qua, (zero, zero, zero), None, None, 35.5)
    qua = nprng.permutation(1024).reshape(-1, 32)
    zero = np.zeros_like(qua)
    scene("all quality bits", qua, (zero, zero, zero), None, None, 94.0)

    # behaviours of the specification: every profile of four gates
    split = [lambda a: (a, 0, 0), lambda a: (0, a, 0), lambda a: (0, 0, a), lambda a: (FILL, a // 2, a - a // 2), lambda a: (a // 2, FILL, a - a // 2)]
    some = rng.sample(cases, min(len(cases), c.n(2500, 15000)))
    for lo in range(0, len(some), 500):
        part = some[lo:lo + 500]
        q = np.array([[g["q"] for g in b["gates"]] for b in part])
        am = [np.zeros(q.shape, int) for _ in range(3)]
        for i, b in enumerate(part):
            for j, g in enumerate(b["gates"]):
                for k, a in enumerate(rng.choice(split)(g["att"])):
                    am[k][i, j] = a
        heavy = [rng.choice([(1001, 0), (0, 3100), (2500, 40000), (1002, FILL)]) if b["heavy"] else rng.choice([(0, 0), (999, 2900), (FILL, FILL), (400, 100)])
                 for b in part]
        scene("behaviour", q, am, np.array([h[0] for h in heavy]), np.array([h[1] for h in heavy]), 94.0)
    c.extra["behaviours_replayed_from_spec"] = len(some)

    # random scenes: any amounts, any frequency, missing variables
    for _ in range(c.n(40, 500)):
        n, m = rng.choice([(1, 1), (1, 12), (6, 1), (rng.randrange(2, 10), rng.randrange(2, 40))])
        pool = rng.sample(range(1024), rng.randrange(1, 10)) if rng.random() < 0.6 else range(1024)
        qua = nprng.choice(list(pool), (n, m))
        am = []
        for _k in range(3):
            a = nprng.choice([0, 0, 1, 250, 3000, 5000, 7500, 10000, 14750, 15000, 15250, 40000], (n, m))
            a[nprng.random((n, m)) < rng.choice([0, 0.3, 1])] = FILL
            am.append(a)
        lwp = None if rng.random() < 0.2 else nprng.choice([FILL, -20, 0, 300, 999, 1001, 5000], n)
        rate = None if rng.random() < 0.2 else nprng.choice([FILL, 0, 100, 2900, 3100, 90000], n)
        drop = tuple(k for k in AMOUNTS if rng.random() < 0.15)
        scene("scene", qua, am, lwp, rate, rng.choice([9.4, 35.5, 35.5, 89.0, 94.0, 94.0]), drop, nprng.integers(0, 64, (n, m)))
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("StatusTrace", events)
    c.assumptions += ["amounts of attenuation are multiples of 1/4 dB or 1 mdB and profile limits are not met exactly"]
