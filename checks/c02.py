"""C02: incremental append (update_nc) over histories of arrivals."""
import netCDF4
import numpy as np
from numpy import ma

from vlib import FILL, MachineryError, enc, outcome

MAGIC = 123456.789
NR = 3


def dims(kind, tdim):
    return {"t": (tdim,), "tr": (tdim, "range"), "rt": ("range", tdim), "fixed": ("range",)}[kind]


def write(path, content, tdim, broken=None, classic=False):
    with netCDF4.Dataset(path, "w", format="NETCDF4_CLASSIC" if classic else "NETCDF4") as nc:
        nc.createDimension(tdim, None)
        nc.createDimension("range", NR)
        order = content["order"]
        for k in order:
            if k == "time":
                v = nc.createVariable("time", "f8", (tdim,))
                v[:] = content["time"]
                continue
            kind, rows = content["vars"][k]["kind"], content["vars"][k]["rows"]
            v = nc.createVariable(k, "f8" if k == broken else content["dtypes"][k], dims(kind, tdim),
                                  fletcher32=k == broken)
            if k == broken:
                v.set_auto_maskandscale(False)
                v[:] = np.full((len(content["time"]),) if kind == "t" else
                               ((len(content["time"]), NR) if kind == "tr" else (NR, len(content["time"]))), MAGIC)
                continue
            a = np.array(rows, dtype=float)
            if kind == "t":
                a = a[:, 0]
            if kind == "rt":
                a = a.T
            if kind == "fixed":
                a = a[0]
            v[:] = ma.masked_equal(a, FILL)
    if broken:
        raw = path.read_bytes()
        pat = np.float64(MAGIC).tobytes()
        if pat not in raw:
            raise MachineryError("cannot break file")
        path.write_bytes(raw.replace(pat, b"\x01" * 8))


def read(path, tdim):
    out = {"time": [], "vars": {}}
    with netCDF4.Dataset(path) as nc:
        out["time"] = enc(nc["time"][:])
        for k, v in nc.variables.items():
            if k == "time":
                continue
            a = ma.masked_array(v[:])
            if v.dimensions == (tdim,):
                out["vars"][k] = {"kind": "t", "rows": enc(a[:, None])}
            elif v.dimensions == ("range", tdim):
                out["vars"][k] = {"kind": "rt", "rows": enc(a.T)}
            elif v.dimensions == (tdim, "range"):
                out["vars"][k] = {"kind": "tr", "rows": enc(a)}
            else:
                out["vars"][k] = {"kind": "fixed", "rows": [enc(a)]}
    return out


POOL = {"a": "t", "b": "tr", "c": "rt", "d": "t", "e": "tr", "g": "fixed"}


def content(rng, times, names, base, dtypes):
    vs = {}
    for j, k in enumerate(names):
        kind = POOL.get(k, "t")
        n = 1 if kind == "fixed" else len(times)
        w = 1 if kind == "t" else NR
        rows = [[FILL if rng.random() < 0.08 else base * 100 + 10 * i + j + (x if w > 1 else 0) for x in range(w)] for i in range(n)]
        vs[k] = {"kind": kind, "rows": rows}
    order = ["time", *names]
    if rng.random() < 0.5:
        rng.shuffle(order)
    return {"time": list(times), "vars": vs, "order": order, "dtypes": dtypes}


def strip(ct):
    return {"time": ct["time"], "vars": ct["vars"]}


def history(c, update_nc, rng, first, arrivals, rich):
    tdim = rng.choice(["time", "time", "profile"]) if rich else "time"
    old, new = c.scratch / "old.nc", c.scratch / "new.nc"
    for p in (old, new):
        p.unlink(missing_ok=True)
    dtypes = {k: rng.choice(["f8", "f4", "i4"]) for k in [*POOL, "x", "y"]}
    base_names = [k for k in POOL if not rich or rng.random() < 0.8]
    rng.shuffle(base_names)
    ct = content(rng, first, base_names, 1, dtypes)
    write(old, ct, tdim)
    events = [{"ev": "start", "after": read(old, tdim)}]
    for i, arr in enumerate(arrivals):
        ev = {"ev": "update", "readable": arr["ok"], "new": {"time": [], "vars": {}}}
        path = new
        new.unlink(missing_ok=True)
        if arr["ok"]:
            # (netCDF-C misreads a lagging variable whose unlimited dimension is not first)
            names = [k for k in base_names if not rich or POOL[k] == "rt" or rng.random() < 0.85]
            if rich and rng.random() < 0.3:
                names.append("x")
            rng.shuffle(names)
            nct = content(rng, arr["times"], names, i + 2, dtypes)
            write(new, nct, tdim, classic=rich and rng.random() < 0.2)
            ev["new"] = strip(nct)
        else:
            how = rng.choice(["missing", "garbage", "truncated", "corrupt"])
            if how == "garbage":
                new.write_bytes(bytes(rng.randrange(256) for _ in range(500)))
            elif how in ("truncated", "corrupt"):
                last = events[-1]["after"]["time"][-1]
                times = [last + 1, last + 2]
                timed = [k for k in base_names if POOL[k] != "fixed"]
                if not timed and how == "corrupt":
                    how = "truncated"
                nct = content(rng, times, base_names, i + 2, dtypes)
                write(new, nct, tdim, broken=rng.choice(timed) if how == "corrupt" else None)
                if how == "truncated":
                    new.write_bytes(new.read_bytes()[: rng.randrange(1, 200)])
        status, ret = outcome(update_nc, str(old), str(path))
        ev["status"] = status
        ev["returned"] = int(ret) if status == "ok" else -1
        s2, after = outcome(read, old, tdim)
        if s2 != "ok":
            ev["status"] = "old_file_unreadable"
            after = {"time": [], "vars": {}}
        ev["after"] = after
        events.append(ev)
        if s2 != "ok":
            break
    return events


def run(c):
    from cloudnetpy.concat_lib import update_nc

    rng = c.rng
    res = c.model_check("MCAppend", "MCAppend.cfg")
    cases = c.cases(res)
    if c.thorough:
        c.model_check("MCAppend", "MCAppend3.cfg")
    pick = cases if c.thorough else rng.sample(cases, min(len(cases), 220))
    events, ntr = [], 0
    for b in pick:
        first = [r["t"] for r in b["hist"][0]["new"]]
        arr = [{"ok": h["ok"], "times": [r["t"] for r in h["new"]]} for h in b["hist"][1:]]
        events += history(c, update_nc, rng, first, arr, False)
        ntr += 1
    for _ in range(c.n(200, 2500)):
        t0 = rng.randrange(0, 50)
        first = sorted(rng.sample(range(t0, t0 + 20), rng.choice([1, 2, 5, 9])))
        arr, hi = [], max(first)
        prev = first
        for _s in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.1:
                arr.append({"ok": False})
                continue
            if r < 0.25:
                ts = prev  # the same file arrives again
            elif r < 0.35:
                ts = sorted(rng.sample(range(0, 60), rng.randrange(1, 6)))
            else:
                ts = sorted(rng.sample(range(max(0, hi - 8), hi + 12), rng.randrange(1, 10)))
            if rng.random() < 0.15:
                ts = rng.sample(ts, len(ts))  # a file that is not in time order
            arr.append({"ok": True, "times": ts})
            prev, hi = ts, max(hi, *ts)
        events += history(c, update_nc, rng, first, arr, True)
        ntr += 1
    c.sample([{"ev": e["ev"], "t": e["after"]["time"], "new": e.get("new", {}).get("time")} for e in events[-6:]])
    # chunks must start at a "start" event: one TLC run for all
    c.validate("AppendTrace", events, traces=ntr, chunk=10**9)
    c.extra["behaviours_replayed_from_spec"] = len(pick)
    c.assumptions += ["variables have at most two dimensions"]
