"""C24: the format of product files and what they read back."""
import datetime
import re
import tempfile
import uuid as uuidlib
import warnings

import netCDF4
import numpy as np
from numpy import ma

import adapters
import c07
import catfile
import mielut
import scene
from cloudnetpy import output, version
from cloudnetpy.cloudnetarray import CloudnetArray
from cloudnetpy.datasource import DataSource
from cloudnetpy.metadata import MetaData
from vlib import REPO, outcome, where

NAMES = {"f4": "f4", "f8": "f8", "i4": "i4", "i2": "i2", "float32": "f4", "float64": "f8", "int32": "i4", "int16": "i2"}


def text(x, kind):
    """Cells as texts, exactly, in the type of the file."""
    x = ma.atleast_1d(ma.array(x)).ravel()
    mask = ma.getmaskarray(x)
    vals = np.asarray(x.data)
    out = []
    for v, m in zip(vals, mask):
        if m:
            out.append("MISSING")
        elif kind in ("f4", "f8"):
            f = np.dtype(kind).type(v)
            out.append(float(f).hex() if np.isfinite(f) else str(float(f)))
        elif float(v) != int(v):
            out.append(str(v))
        else:
            out.append(str(int(v)))
    return out


def stored(nc, arr, want, wantdims, attrs, rng, cap=None, bad=False):
    """One computed array and what a reader finds of it."""
    data = ma.array(arr)
    e = {"name": "", "bad": bad, "scalar": data.size == 1, "size": 1, "cells": [], "present": False, "type": "", "want": NAMES.get(want, want), "dims": [], "wantdims": wantdims, "declared": False,
         "back": [], "attrs": [], "wantattrs": sorted([k, str(v)] for k, v in attrs.items())}
    return e, data


def reading(e, data, name, nc, rng, cap=None):
    e["name"] = name
    if nc is None:
        e["cells"] = text(data, e["want"])[:2000]
        return e
    if name not in nc.variables:
        return e
    v = nc[name]
    e["present"] = True
    e["type"] = NAMES.get(str(v.dtype), str(v.dtype))
    e["dims"] = list(v.dimensions)
    e["declared"] = "_FillValue" in v.ncattrs()
    e["attrs"] = sorted([k, str(v.getncattr(k))] for k in v.ncattrs() if k != "_FillValue")
    back = ma.array(v[:])
    e["size"] = max(back.size, 1)
    if data.size > 1 and data.shape != back.shape:
        try:  # the same numbers for every profile or every gate
            data = ma.array(np.broadcast_to(data.data, back.shape), mask=np.broadcast_to(ma.getmaskarray(data), back.shape))
        except ValueError:
            pass
    if data.size != 1 and data.size != back.size:
        e["cells"], e["back"] = ["shape " + str(data.shape)], ["shape " + str(back.shape)]
        return e
    data, back = ma.atleast_1d(data).ravel(), ma.atleast_1d(back).ravel()
    if cap and back.size > cap:
        ind = np.array(sorted(rng.sample(range(back.size), cap)))
        back = back[ind]
        data = data if data.size == 1 else data[ind]
        e["size"] = cap
    e["cells"], e["back"] = text(data, e["type"]), text(back, e["type"])
    return e


def definition(v):
    """Kind and codes of a definition text."""
    t = getattr(v, "definition", "")
    found = re.findall(r"^\s*(Value|Bit) (-?\d+):\s*\S", t, re.M)
    kinds = {k.lower() for k, _ in found}
    return (kinds.pop() if len(kinds) == 1 else "mixed" if kinds else ""), sorted({int(n) for _, n in found})


def is_flag(name):
    return bool(re.search(r"_(status|bits|flag)$|classification$", name)) and not name.startswith("status_")


def format_event(status, ret, path, level, ftype, date, location, kind):
    e = {"ev": "format", "kind": kind, "status": status, "level": level, "type": ftype, "date": date, "location": location, "uuid": str(ret), "version": version.__version__,
         "model": "", "titlehas": False, "attrs": {}, "dims": {"none": 0}, "vars": []}
    if status != "ok":
        return e
    with netCDF4.Dataset(str(path)) as nc:
        at = lambda k: str(nc.getncattr(k)) if k in nc.ncattrs() else ""
        e["model"] = nc.data_model
        e["attrs"] = {"conventions": at("Conventions"), "version": at("cloudnetpy_version"), "uuid": at("file_uuid"), "type": at("cloudnet_file_type"), "year": at("year"),
                      "month": at("month"), "day": at("day"), "location": at("location"), "history": at("history"), "source": at("source"), "title": at("title"),
                      "references": at("references")}
        e["titlehas"] = bool(location) and location in at("title")
        e["dims"].update({k: len(d) for k, d in nc.dimensions.items()})
        for name, v in nc.variables.items():
            x = ma.array(v[:])
            good = ma.compressed(x)
            dkind, codes = definition(v)
            wantkind = "bit" if name.endswith(("_bits", "_flag")) else "value"
            flag = is_flag(name)
            occurring = []
            if flag and np.issubdtype(x.dtype, np.integer):
                u = np.unique(good)
                occurring = [int(b) for b in range(31) if np.any((u >> b) & 1)] if wantkind == "bit" else [int(k) for k in u]
            g = lambda k: str(getattr(v, k, ""))
            e["vars"].append({"name": name, "dims": list(v.dimensions), "shape": [int(k) for k in v.shape], "type": NAMES.get(str(v.dtype), str(v.dtype)), "units": g("units"),
                              "long_name": g("long_name"), "standard_name": g("standard_name"), "axis": g("axis"), "calendar": g("calendar"),
                              "nonfinite": int((~np.isfinite(good)).sum()) if np.issubdtype(x.dtype, np.floating) else 0, "flag": flag, "kind": dkind, "wantkind": wantkind,
                              "codes": codes, "occurring": occurring, "ancillary": g("ancillary_variables").replace(",", " ").split()})
    return e


class Spy:
    """Notes the computed arrays that go into a file."""

    def __init__(self):
        self.arrays = None

    def __enter__(self):
        self.real = output.init_file

        def init_file(file_name, dimensions, cloudnet_arrays, uuid):
            self.arrays = [(k, a.name, ma.array(a.data, copy=True), a.data_type, list(a.dimensions or ()), {x: getattr(a, x) for x in a.fetch_attributes()})
                           for k, a in cloudnet_arrays.items()]
            return self.real(file_name, dimensions, cloudnet_arrays, uuid)

        output.init_file = init_file
        return self

    def __exit__(self, *_):
        output.init_file = self.real


def run(c):
    rng, nprng = c.rng, c.nprng("c24")
    res = c.model_check("MCProductFile", "MCProductFile.cfg")
    cases = c.cases(res)
    events, meta = [], []

    def put(ev, info):
        events.append(ev)
        meta.append(info)

    def nums(kind):
        """Two different numbers of a type."""
        if kind == "f":
            return [float(np.float32(x)) for x in rng.sample([0.0, -0.0, 1.5, -273.15, 1e-7, 3.4e9, 1e-30, -999.0, 1e20], 2)]
        return rng.sample([0, 1, -1, 7, -999, 32000, -32000], 2)

    def make(kind, shape, missing, maskable):
        v0, v1 = nums(kind)
        dt = rng.choice([np.float32, np.float64]) if kind == "f" else np.int16 if kind == "h" else rng.choice([np.int32, np.int64])
        x = np.where(nprng.random(shape) < 0.5, v0, v1).astype(dt)
        if kind == "f" and x.size > 1:
            x = x * nprng.choice([1.0, 0.1, 7.3], shape).astype(dt)
        if maskable:
            x = ma.array(x, mask=nprng.random(shape) < missing)
            if kind == "f" and x.size > 1 and rng.random() < 0.3 and x.mask.any():
                x.data[x.mask] = np.nan  # what lies under the mask is of no interest
        return x

    # ---- behaviours of the specification ----
    chosen = rng.sample(cases, min(len(cases), c.n(350, 3000)))
    for b in chosen:
        n = b["n"]
        arrays, own = {}, []
        for name, a in dict(b["own"] or {}).items():
            kind = rng.choice("fih")
            lut = dict(zip((0, 1), nums(kind)))
            lut[-1] = rng.choice([0, 5])
            dt = {"f": np.float32, "i": np.int32, "h": np.int16}[kind]
            x = np.array([lut[v] for v in a["cells"]], dtype=dt)
            if a["maskable"]:
                x = ma.array(x, mask=[v == -1 for v in a["cells"]])
            if a["scalar"]:
                x = ma.array(x.data[0], mask=x.mask[0]) if a["maskable"] else np.array(x[0])
            ca = CloudnetArray(x, name, units_from_user="1", dimensions=("time",))
            arrays[name] = ca
            e, data = stored(None, x, {"f": "f4", "i": "i4", "h": "i2"}[kind], ["time"], {"units": "1"}, rng, bad=a["bad"])
            own.append((name, e, data))
        src = c.scratch / "src.nc"
        with netCDF4.Dataset(str(src), "w") as nc:
            nc.createDimension("time", n)
            for name in b["source"]:
                v = nc.createVariable(name, "f8", ("time",), fill_value=rng.choice([None, -9.0]))
                v[:] = ma.array(np.arange(n) + 777.5, mask=[rng.random() < 0.3 for _ in range(n)]) if v.ncattrs() else np.arange(n) + 777.5
                v.comment = "of the source"
        out = c.scratch / f"out{len(events)}.nc"

        def build():
            with netCDF4.Dataset(str(src)) as s, output.init_file(str(out), {"time": n}, arrays, uuidlib.uuid4()) as nc:
                output.copy_variables(s, nc, tuple(b["keys"]))

        status, _ = outcome(build)
        ev = {"ev": "store", "status": status, "own": [], "other": [], "source": b["source"], "keys": b["keys"]}
        with (netCDF4.Dataset(str(out)) if status == "ok" else netCDF4.Dataset(str(src))) as nc, netCDF4.Dataset(str(src)) as s:
            for name, e, data in own:
                ev["own"].append(reading(e, data, name, nc if status == "ok" else None, rng))
            if status == "ok":
                ev["other"] = [carried(x, nc, s) for x in ("altitude", "extra")]
        out.unlink(missing_ok=True)
        put(ev, {"case": b})
    c.extra["behaviours_replayed_from_spec"] = len(chosen)

    # ---- arbitrary arrays through the two ways a product is saved ----
    for i in range(c.n(60, 800)):
        n, m = rng.randrange(1, 7), rng.randrange(1, 6)
        l1b = rng.random() < 0.5
        gate = "range" if l1b else "height"
        arrays, own = {}, []

        def add(name, x, want, dims, dtype=None, bad=False):
            md = MetaData(long_name=rng.choice(["Some thing", "Ängström x"]), units=rng.choice(["1", "m s-1", "degC"]), dimensions=tuple(dims) or None,
                          comment=rng.choice([None, "line\nline"]), standard_name=rng.choice([None, "air_temperature"]))
            a = CloudnetArray(x, name, data_type=dtype, units_from_user="overwritten", dimensions=rng.choice([None, ("time",)]))
            a.set_attributes(md)
            arrays[name] = a
            at = {k: v for k, v in md._asdict().items() if v and k != "dimensions"}
            e, data = stored(None, x, want, list(dims), at, rng, bad=bad)
            own.append((name, e, data))

        if l1b:
            add("time", np.linspace(0, 23, n), "f4", ["time"])
            add(gate, np.arange(m) * 31.0, "f4", [gate])
        bad = rng.random() < 0.15
        for k in range(rng.randrange(1, 5)):
            kind, how = rng.choice("fffih"), rng.choice(["2d", "2d", "1d", "1g", "0d", "0t"])
            dims = {"2d": ["time", gate], "1d": ["time"], "1g": [gate], "0d": [], "0t": ["time"]}[how]
            shape = tuple({"time": n, gate: m}[d] for d in dims) if how != "0t" else ()
            dtype = rng.choice([None, None, "f8"]) if kind == "f" else None
            mk = rng.random() < 0.6
            wrong = bad and k == 0 and shape
            if wrong:
                shape = tuple(s + rng.randrange(1, 3) for s in shape)
            x = make(kind, shape, rng.choice([0, 0.3, 1.0]), mk)
            if kind in "ih" and rng.random() < 0.2:
                x = ma.array(np.asarray(x.data) == x.data, mask=ma.getmaskarray(x)) if mk else np.asarray(x == x)  # booleans are stored as integers
                kind, dtype = "i", None
            add(f"x{k}", x, dtype or {"f": "f4", "i": "i4", "h": "i2"}[kind], dims, dtype, bad=bool(wrong))
        out = c.scratch / f"out{len(events)}.nc"
        uid = uuidlib.uuid4()
        ev = {"ev": "store", "own": [], "other": [], "source": [], "keys": []}
        if l1b:
            from types import SimpleNamespace

            from cloudnetpy.instruments import instruments

            obj = SimpleNamespace(data=arrays, instrument=instruments.CL51, site_meta={"name": "Somewhere"}, date=datetime.date(2020, 2, 3))
            status, err = outcome(output.save_level1b, obj, str(out), uid)
            s = None
        else:
            have = [x for x in ("altitude", "latitude", "longitude", "Z", "lwp") if rng.random() < 0.7]
            keys = [x for x in ("Z", "lwp", "nonsense") if rng.random() < 0.6]
            src = catfile.write(c.scratch / "cat.nc", np.zeros((n, m), int), np.zeros((n, m), int), hours=np.linspace(0, 23, n), drop=[x for x in ("altitude", "latitude", "longitude") if x not in have],
                                Z=make("f", (n, m), 0.3, True) if "Z" in have else None, lwp=make("f", (n,), 0.3, True) if "lwp" in have else None)
            if rng.random() < 0.4:
                add("altitude", make("f", (), 0, False), "f4", rng.choice([[], ["time"]]))
            with DataSource(src) as ds:
                ds.data = arrays
                status, err = outcome(output.save_product_file, "iwc", ds, str(out), uid, tuple(keys))
            ev["source"] = [*have, "time", "height"]
            ev["keys"] = ["altitude", "latitude", "longitude", "time", "height", *keys]
            s = netCDF4.Dataset(src)
        ev["status"] = status
        if status == "ok":
            with netCDF4.Dataset(str(out)) as nc:
                for name, e, data in own:
                    ev["own"].append(reading(e, data, name, nc, rng))
                if s is not None:
                    ev["other"] = [carried(x, nc, s) for x in ("altitude", "latitude", "longitude", "time", "height", "Z", "lwp", "nonsense")]
        else:
            ev["own"] = [reading(e, data, name, None, rng) for name, e, data in own]
        if s is not None:
            s.close()
        out.unlink(missing_ok=True)
        put(ev, {"way": "level 1b" if l1b else "product", "error": str(err) if status != "ok" else ""})

    # ---- products of every kind ----
    def product(kind, call, path, level, ftype, date, location):
        with Spy() as spy, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            status, ret = outcome(call)
        ret = ret[0] if isinstance(ret, tuple) else ret
        info = {"product": kind, "error": f"{ret} {where(ret)}" if status != "ok" else ""}
        put(format_event(status, ret, path, level, ftype, date, location, kind), info)
        if status == "ok" and spy.arrays is not None:
            ev = {"ev": "store", "status": "ok", "own": [], "other": [], "source": [], "keys": []}
            with netCDF4.Dataset(str(path)) as nc:
                for _key, name, data, want, dims, attrs in spy.arrays:
                    e, d = stored(None, data, want, dims, attrs, rng)
                    e = reading(e, d, name, nc, rng, cap=60)
                    if name == "time":  # completed after writing in some products
                        e["attrs"] = [a for a in e["attrs"] if a[0] in attrs and a[0] != "units"]
                        e["wantattrs"] = [a for a in e["wantattrs"] if a[0] != "units"]
                    ev["own"].append(e)
            put(ev, {**info, "what": "values"})
        return status == "ok"

    for _ in range(c.n(1, 10)):
        for a in adapters.all_adapters():
            n = rng.randrange(3, 6)
            rows = [{"t": rng.choice([3600, 60]) * (i + 1), "k": 20 + i} for i in range(n)]
            files = [[r] for r in rows] if a.name == "weather_radar" else [rows]
            out = str(c.scratch / "l1b.nc")
            a.uuid = str(uuidlib.UUID(int=rng.getrandbits(128), version=4))
            old, site = a.site, {**a.site}
            if not a.name.startswith("ws ") and site.get("name") == "Somewhere":
                site["name"] = rng.choice(["Somewhere", "Jülich", "Ny-Ålesund", "L'Aquila"])
                a.site = site
            d = adapters.DATE.isoformat().split("-")
            product(a.name, lambda a=a, files=files, out=out: a.convert(files, str(c.scratch / "raw"), out, adapters.DATE, rng), out, "L1b", a.domain, d, a.name[3:] if a.name.startswith("ws ") else a.site["name"])
            a.site = old
            a.uuid = None
    samples(c, product)

    rec = c07.Recorder(c)
    for _ in range(c.n(2, 12)):
        w = c07.Workshop(c, rec)
        w.location = rng.choice(["Nowhere", "Ny-Ålesund"])
        w.date = [str(rng.choice([1999, 2024])), f"{rng.randint(1, 12):02d}", f"{rng.randint(1, 28):02d}"]
        fs = {k: w.raw(k, [f"2023-06-15 11:00:00 +00:00 - {k} file created"], uuid=str(uuidlib.uuid4())) for k in ("radar", "lidar", "model", "mwr", "disdrometer")}
        chain(c, w, fs, product)
    many(c, product)
    c.sample(events[0])
    c.sample({k: events[-1][k] for k in ("ev",)})
    c.extra["products"] = sorted({e["kind"] for e in events if e["ev"] == "format"})
    c.assumptions += [
        "every product is written in NETCDF4_CLASSIC; level 3 files carry no references and no time axis attribute",
        "housekeeping flags of instruments (status_*) are copied from the instrument without a list of their values",
        "values read back are compared exactly in the type the variable is stored in; of large variables 60 random cells are compared",
    ]
    c.validate("ProductTrace", events, meta=meta, traces=len(events))


def carried(name, nc, s):
    e = {"name": name, "present": name in nc.variables, "same": False}
    if e["present"] and name in s.variables:
        x, y = nc[name], s[name]
        same = x.dtype == y.dtype and x.dimensions == y.dimensions and text(x[:], NAMES[str(x.dtype)]) == text(y[:], NAMES[str(y.dtype)])
        e["same"] = bool(same and {k: str(x.getncattr(k)) for k in x.ncattrs()} == {k: str(y.getncattr(k)) for k in y.ncattrs()})
    return e


SAMPLES = [("rpg-fmcw-94", "rpg2nc", "dir", {}), ("bowtie", "bowtie2nc", "file", {}), ("cs135", "ceilo2nc", "file", {}), ("vaisala", "ceilo2nc", "each", {}),
           ("epsilon", None, "", {})]


def samples(c, product):
    """Instruments whose raw format is only known from sample files."""
    from cloudnetpy import instruments

    base = REPO / "tests/unit/data"
    for folder, fn, how, kw in SAMPLES:
        d = base / folder
        if fn is None or not d.is_dir():
            continue
        files = [d] if how == "dir" else sorted(x for x in d.iterdir() if x.is_file())
        for f in files if how != "file" else files[:1]:
            site = {"name": "Somewhere", "latitude": 52.0, "longitude": 14.0, "altitude": 100}
            out = c.scratch / "sample.nc"
            out.unlink(missing_ok=True)
            st, _ = outcome(getattr(instruments, fn), str(f), str(out), site, **kw)
            if st != "ok":
                continue  # not every sample is a valid measurement
            with netCDF4.Dataset(str(out)) as nc:
                date, ftype = [nc.year, nc.month, nc.day], nc.cloudnet_file_type
            product(f"{fn} {f.name}", lambda fn=fn, f=f, out=out: getattr(instruments, fn)(str(f), str(out), site, **kw), out, "L1b", ftype, date, "Somewhere")


def chain(c, w, fs, product):
    from cloudnetpy import products
    from cloudnetpy.categorize import generate_categorize
    from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

    cat = w.path("categorize")
    if not product("categorize", lambda: generate_categorize(fs, cat), cat, "L2", "categorize", w.date, w.location):
        return
    made = {"cf": cat}
    for k in c07.PRODUCTS:
        out = w.path(k)
        product(k, lambda: getattr(products, "generate_" + k)(cat, out), out, "L2", k, w.date, w.location)
        made[k] = out
    out = w.path("eps")
    product("epsilon-radar", lambda: products.generate_epsilon_from_radar(fs["radar"], fs["model"], out), out, "L2", "epsilon-radar", w.date, w.location)
    for k in ("cf", "iwc", "lwc"):
        out = w.path("l3")
        site = c.rng.choice([None, "Elsewhere"])
        product("l3-" + k, lambda: process_L3_day_product("ecmwf", k, fs["model"], made[k], out, site_name=site), out, "L3", "l3-" + k, w.date, site or w.location)
    lut = mie(c)
    out = w.path("drizzle")
    with mielut.table(lut):
        product("drizzle", lambda: products.generate_drizzle(cat, out), out, "L2", "drizzle", w.date, w.location)


def mie(c):
    p = str(c.scratch / "mie.nc")
    with netCDF4.Dataset(p, "w") as nc:
        nc.createDimension("mu", 1)
        nc.createDimension("do", 3)
        for k, d, x in (("lu_medianD", "do", [1e-5, 1e-4, 5e-4]), ("lu_u", "mu", 0), ("lu_k", "mudo", 17), ("lu_LWF", "mudo", 1), ("lu_termv", "do", 1)):
            nc.createVariable(k, "f8", ("mu", "do") if d == "mudo" else (d,))[:] = x
        for b in ("35", "94"):
            for k in ("width", "mie_ray", "v"):
                nc.createVariable(f"lu_{k}_{b}", "f8", ("mu", "do"))[:] = 1 if k == "mie_ray" else -1 if k == "v" else 0.2
    return p


def many(c, product):
    """Products of categorize files with any combination of bits, for every value a flag may take."""
    from cloudnetpy import products

    rng, nprng = c.rng, c.nprng("many")
    lut = mie(c)
    with mielut.table(lut):
        for _ in range(c.n(4, 40)):
            n, m = rng.randrange(2, 30), rng.randrange(2, 25)
            cat = nprng.integers(0, 64, (n, m)) * (nprng.random((n, m)) < rng.choice([0.3, 0.9]))
            qua = nprng.integers(0, 512, (n, m)) if rng.random() < 0.7 else np.full((n, m), 3)
            hole = lambda x, p=0.1: ma.array(x, mask=nprng.random(np.shape(x)) < p)
            src = catfile.write(c.scratch / "cat.nc", cat, qua, hours=np.linspace(0, 23.9, n), height=np.arange(1, m + 1) * rng.choice([30.0, 300.0]),
                                Z=hole(nprng.uniform(-60, 30, (n, m))), v=hole(nprng.uniform(-6, 1, (n, m))), width=hole(nprng.uniform(0.01, 1, (n, m))),
                                v_sigma=hole(nprng.uniform(0.01, 1, (n, m))), beta=hole(10 ** nprng.uniform(-7, -4, (n, m))), ldr=hole(nprng.uniform(-30, 0, (n, m))),
                                Z_error=np.full((n, m), 1.0), Z_bias=1.0, Z_sensitivity=np.full(m, -50.0), beta_bias=0.5, beta_error=0.5, lidar_wavelength=1064.0,
                                lwp=hole(nprng.uniform(-0.05, 1, n)), lwp_error=np.full(n, 0.02), rain_detected=nprng.integers(0, 2, n),
                                radar_liquid_atten=hole(nprng.uniform(0, 5, (n, m)), 0.3), radar_gas_atten=np.full((n, m), 0.2),
                                radar_melting_atten=hole(nprng.uniform(0, 5, (n, m)), 0.3), radar_rain_atten=hole(nprng.uniform(0, 5, (n, m)), 0.3), uwind=np.full((2, 2), 3.0), vwind=np.full((2, 2), 4.0),
                                insect_prob=nprng.uniform(0, 1, (n, m)), radar_frequency=rng.choice([35.5, 94.0]),
                                temperature=np.array([[rng.choice([260.0, 285.0]), 240.0]] * 2))
            with netCDF4.Dataset(src, "a") as nc:
                for k, v in nc.variables.items():
                    v.long_name = k.capitalize()
                    v.setncatts({"units": getattr(v, "units", "1")})
                    if k in ("time", "altitude", "latitude", "longitude", "height"):
                        v.standard_name = "height_above_mean_sea_level" if k == "height" else k
                nc["time"].setncatts({"axis": "T", "calendar": "standard"})
            for k in (*c07.PRODUCTS, "drizzle"):
                out = c.scratch / f"{k}.nc"
                out.unlink(missing_ok=True)
                product("random " + k, lambda k=k, out=out: getattr(products, "generate_" + k)(src, str(out)), out, "L2", k, ["2022", "05", "07"], "Kumpula")
