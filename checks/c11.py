"""C11: target classification of every pixel from its own bits."""
import numpy as np

import catfile
from vlib import outcome


def run(c):
    from cloudnetpy.products import generate_classification

    rng, nprng = c.rng, c.nprng("c11")
    res = c.model_check("MCPixels", "MCPixels.cfg")
    c.extra["pixels_of_the_specification"] = res.distinct if hasattr(res, "distinct") else None
    events = []

    def scene(cat, qua, source, **kw):
        path = catfile.write(c.scratch / "cat.nc", cat, qua, **kw)
        out = c.scratch / "class.nc"
        st, _ = outcome(generate_classification, path, str(out))
        got = catfile.read(out, "target_classification")["target_classification"] if st == "ok" else None
        for t in range(cat.shape[0]):
            row = [] if got is None else [int(x) for x in got[t].filled(-1)]
            events.append({"source": source, "status": st, "c": cat[t].tolist(), "q": qua[t].tolist(), "out": row})

    # every combination of category and quality bits, once
    allp = np.arange(64 * 1024)
    perm = nprng.permutation(allp) if c.thorough else allp
    cat, qua = (perm % 64).reshape(-1, 256), (perm // 64).reshape(-1, 256)
    if not c.thorough:  # clutter is the only quality bit that matters for the class: all patterns, sampled quality bits
        keep = nprng.permutation(256)[:96]
        cat, qua = cat[keep], qua[keep]
    scene(cat, qua, "all combinations")
    # arrangements: single profile, single gate, random shapes and densities
    for _ in range(c.n(25, 300)):
        n, m = rng.choice([(1, 1), (1, 9), (7, 1), (rng.randrange(2, 12), rng.randrange(2, 30))])
        pool = rng.sample(range(64), rng.randrange(1, 8)) if rng.random() < 0.5 else list(range(64))
        qpool = rng.sample(range(1024), rng.randrange(1, 8)) if rng.random() < 0.5 else [0, 4, 3, 7]
        cat, qua = nprng.choice(pool, (n, m)), nprng.choice(qpool, (n, m))
        kw = {"liquid_prob": np.full((n, m), 0.5)} if rng.random() < 0.3 else {}
        if n > 1 and rng.random() < 0.3:
            cat[1:] = cat[0]
        scene(cat, qua, "scene", altitude=rng.choice([0.0, 104.0]), **kw)
    c.sample(events[0])
    c.sample(events[-1])
    c.validate("TargetTrace", events)
