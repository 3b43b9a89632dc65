"""C03: daily bundling, text concatenation, truncation."""
import datetime
import shutil

import netCDF4
import numpy as np
from numpy import ma

import c01
from vlib import enc, outcome

BOOK = ["minimum", "maximum", "number_integrated_samples", "Min_LWP", "Max_LWP"]


def bundle_event(c, lib, rng, case, d):
    date = case["date"]
    tdim = case.get("tdim", "time")
    paths, names = [], {}
    for f in case["files"]:
        sub = d / f"d{rng.randrange(4)}"
        sub.mkdir(parents=True, exist_ok=True)
        p = sub / f"f_{f['name']:04d}.nc"
        if not f["readable"]:
            p.write_bytes(b"not netcdf" * 10)
        else:
            ep = date + datetime.timedelta(days=f["epochday"])
            c01.write_file(p, f | {"broken": False}, case.get("dtypes", {}), tdim)
            with netCDF4.Dataset(p, "a") as nc:
                v = nc[tdim]
                v.units = case["fmt"].format(d=ep)
                if tdim != "time":
                    t = nc.createVariable("time", "f8", (tdim,))
                    t.units = v.units
                    t[:] = v[:]
                f["vars"]["time"]["unit"] = v.units
                if tdim != "time":
                    f["vars"]["tcopy"] = {"kind": "t", "data": f["vars"]["time"]["data"], "unit": v.units}
        paths.append(str(p))
        names[str(p)] = f["name"]
    kw = {}
    if not case["keep"]["all"]:
        kw["variables"] = case["keep"]["names"]
    o = d / "out.nc"
    status, ret = outcome(lib.bundle_netcdf_files, paths, date, str(o), **kw)
    ev = {"ev": "bundle", "files": case["files"], "keep": case["keep"], "status": status,
          "returned": [names.get(str(r), -1) for r in ret] if status == "ok" else [],
          "identical": False, "out": {"ntime": 0, "grid": [], "vars": {}, "attrs": {}}}
    if tdim != "time":
        # the extra time variable is an ordinary one for the specification
        ev["keep"] = case["keep"]
    if status == "ok":
        s2, val = outcome(read_bundle, o, tdim)
        if s2 == "ok":
            ev["out"] = val
        else:
            ev["status"] = "unreadable_" + s2
        if len(paths) == 1:
            ev["identical"] = o.read_bytes() == open(paths[0], "rb").read()
    shutil.rmtree(d, ignore_errors=True)
    return ev


def read_bundle(o, tdim):
    if tdim == "time":
        return c01.read_file(o)
    out = {"vars": {}, "grid": [], "attrs": {}}
    with netCDF4.Dataset(o) as nc:
        out["ntime"] = nc.dimensions[tdim].size
        for name, var in nc.variables.items():
            k = {"time": "tcopy", tdim: "time"}.get(name, name)
            a = enc(ma.masked_array(var[:]))
            kind = {("range",): "axis", (tdim,): "t", (tdim, "range"): "tr"}.get(var.dimensions, "?")
            if kind == "axis":
                out["grid"] = a
            rows = [] if kind in ("axis", "?") else [x if isinstance(x, list) else [x] for x in a]
            out["vars"][k] = {"kind": kind, "rows": rows, "unit": getattr(var, "units", "")}
        for a in nc.ncattrs():
            out["attrs"][a] = str(nc.getncattr(a))
    return out


def fill_file(f, rng, grid, i, vset):
    nt = len(f["times"])
    vs = {"time": {"kind": "t", "data": f["times"], "unit": ""},
          "range": {"kind": "axis", "data": grid, "unit": "m"}}
    for k, kd in vset.items():
        if kd == "t":
            data = [100 * i + x for x in range(nt)]
        elif kd == "tr":
            data = [[1000 * i + 10 * x + y for y in range(len(grid))] for x in range(nt)]
        else:
            data = i
        vs[k] = {"kind": kd, "data": data, "unit": "x"}
    f.update(vars=vs, grid=grid, attrs={"source": str(i)}, broken=False)


def text_events(c, lib, rng):
    out = []
    d = c.scratch / "txt"
    d.mkdir()
    for i in range(c.n(60, 400)):
        parts = []
        paths = []
        for j in range(rng.randrange(1, 6)):
            n = rng.choice([0, 1, 5, 40, 200])
            b = bytes(rng.choice([0, 10, 13, 65, 255, 128, 44]) for _ in range(n))
            p = d / f"{9 - j}.txt"
            p.write_bytes(b)
            paths.append(str(p) if rng.random() < 0.5 else p)
            parts.append(list(b))
        o = d / "o"
        status, _ = outcome(lib.concatenate_text_files, paths, o)
        out.append({"ev": "text", "parts": parts, "status": status,
                    "out": list(o.read_bytes()) if status == "ok" else []})
        shutil.rmtree(d)
        d.mkdir()
    # bigger than any copy buffer: two equal halves logged as digests
    import hashlib
    for _ in range(2):
        bs = [bytes(rng.getrandbits(8) for _ in range(5)) * rng.choice([70_000, 130_001]) for _ in range(3)]
        paths = []
        for j, b in enumerate(bs):
            (d / f"b{j}").write_bytes(b)
            paths.append(d / f"b{j}")
        o = d / "o"
        status, _ = outcome(lib.concatenate_text_files, paths, o)
        dig = lambda x: list(hashlib.md5(x).digest())
        out.append({"ev": "text", "parts": [dig(b"".join(bs))], "status": status,
                    "out": dig(o.read_bytes()) if status == "ok" else []})
    return out


def snap(path, dim):
    res = {"vars": {}, "attrs": {}}
    with netCDF4.Dataset(path) as nc:
        for k, v in nc.variables.items():
            a = enc(ma.masked_array(v[:]))
            timed = bool(v.dimensions) and v.dimensions[0] == dim
            res["vars"][k] = {
                "timed": timed, "rows": a if isinstance(a, list) else [a],
                "dims": list(v.dimensions), "dtype": str(v.dtype),
                "att": {x: str(v.getncattr(x)) for x in v.ncattrs()},
            }
        for a in nc.ncattrs():
            res["attrs"][a] = str(nc.getncattr(a))
    return res


def truncate_events(c, lib, rng):
    out = []
    src, o = c.scratch / "src.nc", c.scratch / "trunc.nc"
    for _ in range(c.n(80, 600)):
        dim = rng.choice(["time", "time", "profile"])
        nt = rng.randrange(1, 12)
        with netCDF4.Dataset(src, "w", format=rng.choice(["NETCDF4", "NETCDF4_CLASSIC"])) as nc:
            nc.createDimension(dim, rng.choice([None, nt]))
            nc.createDimension("range", rng.choice([1, 3, 14]))
            nr = nc.dimensions["range"].size
            for i in range(rng.randrange(1, 7)):
                ds = rng.choice([(dim,), (dim, "range"), ("range",), ()])
                dt = rng.choice(["f4", "f8", "i4", "i2"])
                v = nc.createVariable(f"v{i}", dt, ds, fill_value=rng.choice([None, -99]))
                shape = tuple({dim: nt, "range": nr}[x] for x in ds)
                data = np.array([rng.randrange(-50, 50) for _ in range(int(np.prod(shape)))]).reshape(shape)
                if ds and rng.random() < 0.5:
                    data = ma.masked_where(data > 30, data)
                v[:] = data
                v.units = rng.choice(["m", "s"])
            nc.title = "abc"
            nc.number = np.int32(5)
        n = rng.choice([1, 2, nt, max(1, nt - 1), nt + 3])
        kw = {} if dim == "time" else {"dim_name": dim}
        status, _ = outcome(lib.truncate_netcdf_file, str(src), str(o), n, **kw)
        ev = {"ev": "truncate", "n": n, "status": status, "before": snap(src, dim)}
        ev["after"] = snap(o, dim) if status == "ok" else ev["before"]
        out.append(ev)
    return out


def run(c):
    from cloudnetpy import concat_lib as lib

    rng = c.rng
    res = c.model_check("MCBundle", "MCBundle.cfg")
    cases = c.cases(res)
    pick = rng.sample(cases, min(len(cases), c.n(130, 1500)))
    events = []
    d = c.scratch / "w"
    fmts = ["seconds since {d:%Y-%m-%d} 00:00:00", "seconds since {d:%Y-%m-%dT%H:%M:%S}Z",
            "seconds since {d:%Y-%m-%d}, 00:00:00", "seconds since {d:%Y.%m.%d}, 00:00:00",
            "seconds since {d:%Y-%m-%d}"]
    for b in pick:
        fs = b["files"]
        for f in fs:
            fill_file(f, rng, [10, 20, 30], f["name"], {"v": "t", "w": "tr"})
        date = datetime.date(2022, 3, 1)
        events.append(bundle_event(c, lib, rng, {"files": fs, "date": date, "fmt": rng.choice(fmts),
                                                 "keep": {"all": True, "names": []}}, d))
    n_spec = len(events)
    for i in range(c.n(150, 1500)):
        date = datetime.date(rng.choice([2004, 2012, 2020, 2021, 2024]), rng.choice([1, 2, 3, 12]), rng.choice([1, 28, 15]))
        nf = rng.choice([1, 2, 2, 3, 4, 5])
        tdim = rng.choice(["time", "time", "profile"])
        kinds = {"v": "t", "w": "tr", "s": "s", "minimum": "t", "Max_LWP": "t", "Min_LWP": "t", "maximum": "tr",
                 "number_integrated_samples": "t"}
        if tdim != "time":
            kinds.pop("s")
        vset = {k: kd for k, kd in kinds.items() if rng.random() < 0.7}
        same = rng.random() < 0.6
        eds = [rng.choice([0, -1, -2, -30, -400])] * nf if same else [rng.choice([0, -1, -2, -30]) for _ in range(nf)]
        files = []
        for n, ed in zip(rng.sample(range(1, 30), nf), eds):
            base = -ed * 86400
            nt = rng.choice([1, 2, 3, 5])
            start = base + rng.choice([0, 1, 86399, 86400, -1, -5, 43200, 86395, -86400, -1000])
            times = [max(0, start + k * rng.choice([1, 3, 600])) for k in range(nt)]
            if rng.random() < 0.15:
                times = [base + 90000 + k for k in range(3)] + [base + 100]  # date seen late
            f = {"name": n, "readable": rng.random() > 0.08, "epochday": ed, "times": times}
            fill_file(f, rng, rng.choice([[10, 20, 30], [10, 22], [9, 19, 33, 50]]), n, vset)
            files.append(f)
        keep = {"all": True, "names": []} if rng.random() < 0.7 else {"all": False, "names": ["v", "minimum"]}
        if tdim != "time" and not keep["all"]:
            keep["names"] = ["v", "time"]
        case = {"files": files, "date": date, "fmt": rng.choice(fmts), "keep": keep, "tdim": tdim}
        if nf == 1:
            files[0]["readable"] = True
        if tdim != "time" and not keep["all"]:
            case["keep"] = {"all": True, "names": []}
        events.append(bundle_event(c, lib, rng, case, d))
    events += text_events(c, lib, rng)
    events += truncate_events(c, lib, rng)
    c.sample({k: events[n_spec][k] for k in ("files", "returned", "status")})
    c.validate("BundleTrace", events)
    c.extra["behaviours_replayed_from_spec"] = n_spec
    c.assumptions += ["time units are whole seconds since an epoch date", "truncation: the dimension is the first one of at most two"]
