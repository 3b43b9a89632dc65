"""C01: concatenation of netCDF files (concatenate_files)."""
import shutil

import netCDF4
import numpy as np
from numpy import ma

from vlib import FILL, MachineryError, enc, outcome

MAGIC = 123456.789  # payload of an array to be corrupted on disk

DIMS = {
    "s": (), "t": ("time",), "r": ("range",), "tr": ("time", "range"),
    "tc": ("time", "chirp"), "c": ("chirp",), "axis": ("range",),
}


def write_file(path, f, dtypes, tdim="time", rdim="range", fmt="NETCDF4"):
    with netCDF4.Dataset(path, "w", format=fmt) as nc:
        nc.createDimension(tdim, None)
        nc.createDimension(rdim, len(f["grid"]))
        nc.createDimension("chirp", 2)
        ren = {"time": tdim, "range": rdim}
        for k, v in f["vars"].items():
            dims = tuple(ren.get(d, d) for d in DIMS[v["kind"]])
            name = ren.get(k, k)
            dt = dtypes.get(k, "f8")
            if f.get("broken") == k:
                dt = "f8"
            var = nc.createVariable(name, dt, dims, fill_value=netCDF4.default_fillvals[dt],
                                    fletcher32=f.get("broken") == k)
            if v.get("unit"):
                var.units = v["unit"]
            if v.get("scale"):
                var.scale_factor = 0.5
            data = np.array(v["data"], dtype="f8")
            if data.size == 0:
                continue
            arr = ma.masked_equal(data, FILL)
            var[:] = arr
            if f.get("broken") == k:
                var.set_auto_maskandscale(False)
                var[:] = MAGIC
        for a, val in f.get("attrs", {}).items():
            setattr(nc, a, val)
    if f.get("broken"):
        # flip the stored bytes of that variable: its checksum then fails on reading
        raw = path.read_bytes()
        pat = np.float64(MAGIC).tobytes()
        if pat not in raw:
            raise MachineryError("cannot break the file")
        path.write_bytes(raw.replace(pat, b"\x01" * 8))


def read_file(path, tdim="time", rdim="range"):
    out = {"vars": {}, "grid": [], "attrs": {}}
    inv = {tdim: "time", rdim: "range"}
    with netCDF4.Dataset(path) as nc:
        out["ntime"] = nc.dimensions[tdim].size
        for name, var in nc.variables.items():
            k = inv.get(name, name)
            dims = tuple(inv.get(d, d) for d in var.dimensions)
            kind = {v: a for a, v in DIMS.items() if a != "axis"}.get(dims, "?")
            a = enc(ma.masked_array(var[:]))
            if k == "range":
                kind = "axis" if dims == ("range",) else kind
                out["grid"] = a
                rows = []
            elif dims and dims[0] == "time":
                rows = [x if isinstance(x, list) else [x] for x in a]
            else:
                rows = []
            out["vars"][k] = {"kind": kind, "rows": rows, "unit": getattr(var, "units", "")}
        for a in nc.ncattrs():
            out["attrs"][a] = str(nc.getncattr(a))
    return out


def execute(c, concat, case, d, rng):
    """Writes the input files of a case, concatenates them, records the event."""
    tdim, rdim, fmt = case.get("tdim", "time"), case.get("rdim", "range"), case.get("fmt", "NETCDF4")
    paths, names = [], {}
    for i, f in enumerate(case["files"]):
        # sort order is by base name; folders are named in another order
        sub = d / f"{'zyxwvut'[i % 7]}{rng.randrange(3)}"
        sub.mkdir(parents=True, exist_ok=True)
        p = sub / f"f_{f['name']:04d}.nc"
        write_file(p, f | {"broken": f["broken"] and case["breakvar"]}, case.get("dtypes", {}), tdim, rdim, fmt)
        paths.append(p if rng.random() < 0.5 else str(p))
        names[p.name] = f["name"]
    kw = {}
    if tdim != "time":
        kw["concat_dimension"] = tdim
    if rdim != "range":
        kw["interp_dimension"] = rdim
    ren = {"time": tdim, "range": rdim}
    if not case["keep"]["all"]:
        kw["variables"] = [ren.get(n, n) for n in case["keep"]["names"]]
    if case["ignore"]:
        kw["ignore"] = case["ignore"]
    if case["newattrs"]:
        kw["new_attributes"] = dict(case["newattrs"])
    o = d / "out.nc"
    status, ret = outcome(concat.concatenate_files, paths, o, **kw)
    ev = {k: case[k] for k in ("files", "keep", "ignore", "newattrs")}
    ev["status"] = status
    ev["returned"] = []
    ev["out"] = {"ntime": 0, "grid": [], "vars": {}, "attrs": {}}
    if status == "ok":
        from pathlib import Path
        ev["returned"] = [names.get(Path(r).name, -1) for r in ret]
        s2, val = outcome(read_file, o, tdim, rdim)
        if s2 == "ok":
            ev["out"] = val
        else:
            ev["status"] = "unreadable_output_" + s2
    shutil.rmtree(d, ignore_errors=True)
    return ev


def complete(f):
    """Adds attributes the specification's small universe leaves out."""
    for k, v in f["vars"].items():
        v.setdefault("unit", "m" if k == "range" else "")
    f.setdefault("broken", False)
    f.setdefault("attrs", {"source": f"file {f['name']}"})
    return f


def random_case(rng, i):
    nfiles = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    names = rng.sample(range(1, 40), nfiles)
    first = min(names)
    pool = {"v": "t", "w": "tr", "p": "r", "s": "s", "q": "tc", "u": "c", "z": "tr", "y": "t"}
    used = {k: kd for k, kd in pool.items() if rng.random() < 0.75}
    gs = [list(range(100, 100 + 10 * n, 10)) for n in (3, 4, 6)] + [[50, 81, 103, 117, 142], [101, 108, 133], [500, 600]]
    same_grid = rng.random() < 0.35
    g0 = rng.choice(gs)
    dtypes = {k: rng.choice(["f8", "f4", "i4", "f4", "i2"]) for k in used}
    dtypes["range"] = rng.choice(["f4", "f8", "i4"])
    dtypes["time"] = rng.choice(["f8", "i4", "f4"])
    scaled = {k for k in used if dtypes[k] in ("i2", "f4") and rng.random() < 0.15}
    # time stamps run through the profiles of each file from a random start:
    files = []
    big = i % 11 == 5
    for n in names:
        nt = rng.choice([0, 1, 1, 2, 3, 4, 7]) if not big else rng.choice([60, 90, 130])
        g = g0 if same_grid else rng.choice(gs)
        t0 = rng.randrange(0, 5000)
        vs = {"time": {"kind": "t", "data": [t0 + 3 * x for x in range(nt)], "unit": "seconds"},
              "range": {"kind": "axis", "data": g, "unit": "m"}}
        for k, kd in used.items():
            if n != first and rng.random() < 0.15:
                continue
            val = lambda: FILL if rng.random() < 0.1 else rng.randrange(-300, 300)
            shape = {"s": 0, "t": nt, "r": len(g), "tr": (nt, len(g)), "tc": (nt, 2), "c": 2}[kd]
            if shape == 0 and kd == "s":
                data = val()
            elif isinstance(shape, tuple):
                data = [[val() for _ in range(shape[1])] for _ in range(shape[0])]
            else:
                data = [val() for _ in range(shape)]
            vs[k] = {"kind": kd, "data": data, "unit": rng.choice(["", "K", "m s-1"])}
            if k in scaled:
                vs[k]["scale"] = True
        if rng.random() < 0.3:
            vs["extra%d" % n] = {"kind": "t", "data": [1] * nt, "unit": ""}
        broken = nt > 0 and rng.random() < 0.06
        files.append({"name": n, "broken": broken, "times": vs["time"]["data"], "grid": g, "vars": vs,
                      "attrs": {a: f"{a} of {n}" for a in ("source", "title", "x") if rng.random() < 0.7}})
    keep = {"all": True, "names": []}
    if rng.random() < 0.4:
        keep = {"all": False, "names": [k for k in pool if rng.random() < 0.5]}
    ignore = [k for k in pool if rng.random() < 0.3] if rng.random() < 0.3 else []
    newattrs = {a: f"new {a}" for a in ("title", "cloudnet_type") if rng.random() < 0.4}
    outvars = {"time"}
    valid = sorted((f for f in files if f["times"]), key=lambda f: f["name"])
    if valid:
        outvars |= {k for k in used if k not in ignore and (keep["all"] or k in keep["names"])}
        outvars &= set(valid[0]["vars"])
    for f in files:
        outvars &= {k for k in f["vars"] if f["vars"][k]["kind"] in ("t", "tr", "tc")} | (set() if f["broken"] else outvars)
    breakvar = rng.choice(sorted(outvars))
    case = {"files": files, "breakvar": breakvar, "keep": keep, "ignore": ignore, "newattrs": newattrs, "dtypes": dtypes}
    if rng.random() < 0.2:
        case["tdim"] = "profile"
    if rng.random() < 0.15:
        case["rdim"] = "gate"
    if rng.random() < 0.2:
        case["fmt"] = "NETCDF4_CLASSIC"
    return case


def run(c):
    from cloudnetpy import concat_lib as concat

    rng = c.rng
    res = c.model_check("MCConcat", "MCConcat.cfg")
    behaviours = c.cases(res)
    if not c.thorough:
        behaviours = rng.sample(behaviours, 160)
    events = []
    d = c.scratch / "w"
    for b in behaviours:
        keep = {"all": True, "names": []}
        if rng.random() < 0.25:
            keep = {"all": False, "names": ["w"]}
        case = {"breakvar": "w", "files": [complete(f) for f in b["files"]], "keep": keep, "ignore": [], "newattrs": {}}
        events.append(execute(c, concat, case, d, rng))
    n_spec = len(events)
    for i in range(c.n(350, 4000)):
        events.append(execute(c, concat, random_case(rng, i), d, rng))
    # a file with an absurd range axis is not used (large memory usage)
    big = random_case(rng, 1)
    for nbig in (9999, 10000):
        fs = []
        for n, ng in ((3, 4), (1, nbig), (2, 5)):
            g = list(range(ng))
            fs.append({"name": n, "broken": False, "times": [1, 2], "grid": g, "attrs": {"source": str(n)},
                       "vars": {"time": {"kind": "t", "data": [1, 2], "unit": "s"},
                                "range": {"kind": "axis", "data": g, "unit": "m"},
                                "v": {"kind": "t", "data": [n, n + 10], "unit": ""}}})
        events.append(execute(c, concat, {"breakvar": "v", "files": fs, "keep": big["keep"] | {"all": True}, "ignore": [], "newattrs": {}}, d, rng))
    c.sample({k: events[n_spec][k] for k in ("files", "status", "returned")})
    c.sample(events[0])
    c.validate("ConcatTrace", events)
    c.extra["behaviours_replayed_from_spec"] = n_spec
    c.assumptions += [
        "small-scope model: two files, three range axes, 0-2 profiles each; larger inputs are sampled",
        "input files are well-formed netCDF or have one checksum-protected variable corrupted on disk",
    ]
