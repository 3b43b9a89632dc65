"""C13: cloud base and top heights."""
import numpy as np
from numpy import ma

import catfile
from vlib import enc, outcome

# category bits of each target class
BITS = {0: 0, 1: 1, 2: 2, 3: 3, 4: 6, 5: 7, 6: 10, 7: 11, 8: 16, 9: 32, 10: 48}


def blobs(rng, n, m):
    """A scene of rectangles, lines and speckle of any class."""
    f = np.zeros((n, m), int)
    for _ in range(rng.randrange(0, 6)):
        k = rng.choice([1, 3, 4, 5, 1, 4, 2, 6, 8])
        t, z = rng.randrange(n), rng.randrange(m)
        u = rng.random()
        if u < 0.6:
            f[t:t + rng.randrange(1, 9), z:z + rng.randrange(1, 9)] = k
        elif u < 0.8:
            f[t, z:z + rng.randrange(1, 30)] = k
        else:
            f[t:t + rng.randrange(1, 30), z] = k
    for _ in range(rng.choice([0, 0, 3, 20])):
        f[rng.randrange(n), rng.randrange(m)] = rng.choice([0, 0, 1, 2, 4, 7])
    return f


def exact(rng, n, m):
    """A feature of 18..23 pixels and one touching it only at a corner."""
    f = np.zeros((n, m), int)
    size = rng.randrange(18, 24)
    h = rng.choice([2, 3, 4, 5])
    t0, z0 = rng.randrange(0, max(1, n - size // h - 2)), rng.randrange(0, max(1, m - h - 3))
    for i in range(size):
        t, z = t0 + i // h, z0 + i % h
        if t < n and z < m:
            f[t, z] = rng.choice([1, 3, 4, 5])
    if rng.random() < 0.5 and t0 + size // h < n and z0 + h < m:
        f[t0 + size // h, z0 + h] = 1
        if size % h:
            f[t0 + size // h, z0 + h] = 0
    return f


def run(c):
    from cloudnetpy import utils
    from cloudnetpy.products import generate_classification

    rng, nprng = c.rng, c.nprng("c13")
    res = c.model_check("MCCloudLayers", "MCCloudLayers.cfg")
    cases = c.cases(res)
    events = []
    for b in rng.sample(cases, min(len(cases), c.n(1000, 4096))):
        mask = np.array(b["mask"], dtype=bool)
        st, o = outcome(utils.remove_small_objects, mask.copy(), max_size=b["size"], connectivity=1)
        events.append({"kind": "mask", "status": st, "cells": b["mask"], "size": b["size"],
                       "out": np.asarray(o).astype(int).tolist() if st == "ok" else (mask * 0 - 1).tolist()})
    c.extra["behaviours_replayed_from_spec"] = len(events)

    def scene(source, cls, qua, height, alt, amounts, attrs=None):
        cat = np.vectorize(BITS.get)(cls)
        path = catfile.write(c.scratch / "cat.nc", cat, qua, height=height, altitude=alt, radar_liquid_atten=amounts)
        out = c.scratch / "class.nc"
        st, _ = outcome(generate_classification, path, str(out))
        g = catfile.read(out, "cloud_base_height_amsl", "cloud_top_height_amsl", "cloud_base_height_agl", "cloud_top_height_agl",
                         "cloud_top_height_status", "radar_attenuation_status") if st == "ok" else {}
        e = {"kind": "scene", "source": source, "status_of_call": st, "cls": cls.tolist(), "height": enc(np.float32(height), 1), "alt": int(alt)}
        for key, name in (("base", "cloud_base_height_amsl"), ("top", "cloud_top_height_amsl"), ("base_agl", "cloud_base_height_agl"),
                          ("top_agl", "cloud_top_height_agl"), ("status", "cloud_top_height_status")):
            e[key] = [] if st != "ok" else enc(g[name], 1)
        e["att"] = g["radar_attenuation_status"].filled(-1).tolist() if st == "ok" else []
        events.append(e)

    for k in range(c.n(160, 2000)):
        n, m = rng.choice([(1, 40), (40, 1), (1, 1), (rng.randrange(2, 14), rng.randrange(3, 25)), (rng.randrange(2, 14), rng.randrange(3, 25))])
        f = rng.choice([blobs, blobs, exact])(rng, n, m) if n * m > 1 else np.array([[1]])
        if k % 20 == 0:
            f[:] = 0
        if k % 20 == 1:
            f[:] = rng.choice([1, 4, 2])
        qua = nprng.choice(rng.choice([[3], [1, 2, 3, 0], [49, 17, 1, 0], [17], [49]]), (n, m))
        am = ma.array(nprng.choice([0.0, 3.0, 12.0, 20.0], (n, m)))
        alt = rng.choice([0, 5, 104, 2500])
        step = rng.choice([7, 30, 100])
        height = alt + rng.choice([0, 1, 60]) + step * np.arange(1, m + 1)
        if rng.random() < 0.3:
            height = alt + np.cumsum(nprng.integers(10, 90, m))
        if rng.random() < 0.15:  # a site below the sea level: a gate at height 0
            z = rng.randrange(m)
            height = step * (np.arange(m) - z)
            alt = int(height[0]) - step
            if rng.random() < 0.6 and n * m > 30:  # cloud with its base or top there
                f[rng.randrange(n):, :] = 0
                f[:, z:] = rng.choice([0, 4]) if rng.random() < 0.5 else f[:, z:]
                f[: rng.randrange(1, n + 1), (z if rng.random() < 0.5 else 0):(z + 1 if rng.random() < 0.5 else m)] = 4
        scene("scene", f, qua, height, alt, am)
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("CloudTopTrace", events, chunk=400)
    c.assumptions += ["at most 1 m is lost by the single precision of stored heights"]
