"""C07: provenance along processing chains."""
import datetime
import itertools
import re
import shutil
import uuid as uuidlib

import netCDF4
import numpy as np
from numpy import ma

import adapters
import mielut
import scene
from vlib import REPO, MachineryError, outcome

RECORD = re.compile(r"^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d\d:\d\d) - (.*)$")
FORMAT = "%Y-%m-%d %H:%M:%S %z"
EPOCH = datetime.datetime(2023, 1, 1, tzinfo=datetime.timezone.utc)


def utc():
    return datetime.datetime.now(datetime.timezone.utc)


def when(line):
    try:
        t = datetime.datetime.strptime(line.split(" - ", 1)[0].strip(), FORMAT)
        return int((t - EPOCH).total_seconds() // 60)
    except ValueError:
        return -1


def attr(nc, name, default=""):
    return str(nc.getncattr(name)) if name in nc.ncattrs() else default


def split(text, sep="\n"):
    return [x for x in text.split(sep) if x]


class Ids:
    """Small integers for texts."""

    def __init__(self):
        self.of = {}

    def __call__(self, text):
        return self.of.setdefault(text, len(self.of) + 1) if text else 0


class Recorder:
    def __init__(self, c):
        self.c, self.events, self.meta = c, [], []
        self.rec, self.uid = Ids(), Ids()

    def history(self, text):
        return [[self.rec(x.strip()), when(x)] for x in split(text) if x.strip()]

    def describe(self, path):
        with netCDF4.Dataset(path) as nc:
            return {"uuid": self.uid(attr(nc, "file_uuid")), "model": attr(nc, "cloudnet_file_type") == "model", "history": self.history(attr(nc, "history")),
                    "sources": split(attr(nc, "source")), "pids": split(attr(nc, "instrument_pid")) + split(attr(nc, "source_instrument_pids"))}

    def step(self, inputs, out, call, rtype, filetype, location, date, *, ask=None, sources="lines", sep="\n", names=(), pids=True, raw=False, info=None):
        """call(uuid) makes the file `out` of the files `inputs`."""
        rng = self.c.rng
        ask = ask or rng.choice(["", "uuid", "text"])
        u = uuidlib.UUID(int=rng.getrandbits(128), version=4) if ask in ("uuid", "text") else None
        req = str(u) if ask == "text" else u
        src = [self.describe(p) for p in dict.fromkeys(inputs)]
        out_path = str(out)
        seen = list(range(1, len(self.uid.of) + 1))
        t0 = utc().replace(microsecond=0)
        status, ret = outcome(call, req)
        t1 = utc()
        ev = {"ev": "made", "status": status, "inputs": src, "raw": raw, "names": list(names), "want": {
            "type": rtype, "filetype": filetype, "location": location, "date": date, "uuid": 0 if u is None else self.uid(str(u)), "sources": sources, "pids": pids},
            "own": {"type": "", "ontime": False}, "rest": [], "listed": [], "uuid": {"file": 0, "returned": 0, "seen": seen}, "filetype": "", "location": "",
            "date": [], "sources": [], "pids": []}
        if status == "ok":
            ret = ret[0] if isinstance(ret, tuple) else ret
            with netCDF4.Dataset(out_path) as nc:
                lines = attr(nc, "history").split("\n")
                m = RECORD.match(lines[0].strip())
                if m:
                    t = datetime.datetime.strptime(m[1], FORMAT)
                    ev["own"] = {"type": m[2].split(" file created")[0], "ontime": bool(t0 <= t <= t1)}
                ev["rest"] = self.history("\n".join(lines[1:]))
                # every line counts here, blank ones do not
                ev["uuid"] = {"file": self.uid(valid_uuid(attr(nc, "file_uuid"))), "returned": self.uid(str(ret)), "seen": seen}
                ev["listed"] = [self.uid(x) for x in split(attr(nc, "source_file_uuids"), ", ")]
                ev["filetype"], ev["location"] = attr(nc, "cloudnet_file_type"), attr(nc, "location")
                ev["date"] = [attr(nc, k) for k in ("year", "month", "day")]
                ev["sources"] = split(attr(nc, "source"), sep)
                ev["pids"] = split(attr(nc, "instrument_pid")) + split(attr(nc, "source_instrument_pids"))
        self.events.append(ev)
        self.meta.append(info or {"step": rtype, "error": str(ret) if status != "ok" else ""})
        return status == "ok"


def valid_uuid(text):
    try:
        return text if str(uuidlib.UUID(text)) == text else ""  # in its canonical form, as in the lists of sources
    except ValueError:
        return ""


def set_attr(path, **kw):
    with netCDF4.Dataset(path, "a") as nc:
        for k, v in kw.items():
            if v is None:
                if k in nc.ncattrs():
                    nc.delncattr(k)
            else:
                nc.setncattr(k, v)


def stamp(t, off=0):
    """Symbolic minute of 2023-06-15 as a record time in a time zone."""
    tz = datetime.timezone(datetime.timedelta(hours=off))
    text = (datetime.datetime(2023, 6, 15, tzinfo=datetime.timezone.utc) + datetime.timedelta(minutes=t)).astimezone(tz).strftime(FORMAT)
    return text[:-2] + ":" + text[-2:]


def redate(path, t):
    """Moves the creation of a file to a time of our choosing."""
    with netCDF4.Dataset(path, "a") as nc:
        lines = nc.history.split("\n")
        nc.history = "\n".join([stamp(t) + " - " + lines[0].split(" - ", 1)[1], *lines[1:]])


PRODUCTS = {"classification": "classification", "iwc": "ice water content", "lwc": "liquid water content", "ier": "ice effective radius",
            "der": "droplet effective radius"}


COUNT = itertools.count()


class Workshop:
    """The processing steps, on small files."""

    def __init__(self, c, rec):
        self.c, self.rec, self.n = c, rec, COUNT
        self.location, self.date = "Nowhere", list(scene.DATE)
        s = scene.base(n=24, m=10, first=200.0)
        s.ldr[:] = -28.0
        scene.fill_echo(s, slice(0, None), slice(2, 7), -20.0, -0.5)
        scene.add_mwr(s, np.full(24, 0.1))
        scene.add_disdrometer(s, np.full(24, 1e-7))
        self.s = s

    def path(self, kind):
        name = "ecmwf" if kind == "model" else kind
        return str(self.c.scratch / f"{name}{next(self.n)}.nc")

    def raw(self, kind, lines, uuid=None, source=None, pid=None, unusable=False, rrate=False):
        s = self.s
        s.rradar = ma.array(np.full(24, 2e-7)) if rrate else None
        keep = s.npart
        if unusable:
            s.npart = None
        f = scene.write(s, self.c.scratch, only=(kind,), location=self.location)[kind]
        s.npart = keep
        p = self.path(kind)
        shutil.move(f, p)
        set_attr(p, history="\n".join(lines) if lines is not None else None, file_uuid=uuid, source=source or kind + " instrument", instrument_pid=pid,
                 year=self.date[0], month=self.date[1], day=self.date[2])
        with netCDF4.Dataset(p, "a") as nc:
            nc["time"].units = "hours since {}-{}-{} 00:00:00 +00:00".format(*self.date)
            if kind == "radar":
                v = nc.createVariable("lwp", "f8", ("time",))
                v.units = "kg m-2"
                v[:] = 0.1
            if kind == "model":
                nc.createVariable("horizontal_resolution", "f8")[:] = 9.0
                for k, x in (("cloud_fraction", 0.5), ("qi", 1e-5), ("ql", 1e-5)):
                    nc.createVariable(k, "f8", ("time", "level"))[:] = x
        return p

    def categorize(self, files, usable=True):
        from cloudnetpy.categorize import generate_categorize

        out = self.path("categorize")
        made_of = [files[k] for k in files if k != "disdrometer" or usable]
        ok = self.rec.step(made_of, out, lambda u: generate_categorize(files, out, uuid=u), "categorize", "categorize", self.location, self.date)
        if ok:
            srcs = {k: {"source": "", "pid": ""} for k in ("radar", "lidar", "model", "mwr", "disdrometer")}
            for k, p in files.items():
                with netCDF4.Dataset(p) as nc:
                    srcs[k] = {"source": attr(nc, "source"), "pid": attr(nc, "instrument_pid")}
            with netCDF4.Dataset(out) as nc:
                var = [{"name": k, "source": attr(v, "source"), "pid": attr(v, "source_instrument_pid")} for k, v in nc.variables.items()]
            self.rec.events.append({"ev": "attrs", "srcs": srcs, "disdrometer": "disdrometer" in files and usable, "vars": var})
            self.rec.meta.append({"step": "attributes of categorize", "files": sorted(files)})
        return out if ok else None

    def product(self, cat, which=None, voodoo=False):
        from cloudnetpy import products

        which = which or self.c.rng.choice(list(PRODUCTS))
        out = self.path(which)
        fn = getattr(products, "generate_" + which)
        ftype, rtype = which, PRODUCTS[which]
        if voodoo and which == "classification":
            ftype = rtype = "classification-voodoo"
        ok = self.rec.step([cat], out, lambda u: fn(cat, out, uuid=u), rtype, ftype, self.location, self.date)
        return (out, which) if ok else (None, which)

    def drizzle(self, cat):
        from cloudnetpy.products import generate_drizzle

        lut = self.path("mie")
        with netCDF4.Dataset(lut, "w") as nc:
            nc.createDimension("mu", 1)
            nc.createDimension("do", 1)
            for k, d, x in (("lu_medianD", "do", 1e-4), ("lu_u", "mu", 0), ("lu_k", "mudo", 17), ("lu_LWF", "mudo", 1), ("lu_termv", "do", 1)):
                nc.createVariable(k, "f8", ("mu", "do") if d == "mudo" else (d,))[:] = x
            for b in ("35", "94"):
                for k in ("width", "mie_ray", "v"):
                    nc.createVariable(f"lu_{k}_{b}", "f8", ("mu", "do"))[:] = 1
        out = self.path("drizzle")
        with mielut.table(lut):
            self.rec.step([cat], out, lambda u: generate_drizzle(cat, out, uuid=u), "drizzle", "drizzle", self.location, self.date)

    def epsilon(self, radar, model):
        from cloudnetpy.products import generate_epsilon_from_radar

        out = self.path("epsilon")
        ok = self.rec.step([radar, model], out, lambda u: generate_epsilon_from_radar(radar, model, out, uuid=u),
                           "dissipation rate of turbulent kinetic energy", "epsilon-radar", self.location, self.date)
        return out if ok else None

    def compare(self, obs, model, product, pids=True):
        from cloudnetpy.model_evaluation.products.product_resampling import process_L3_day_product

        out = self.path("l3")
        name = {"cf": "cloud fraction", "iwc": "ice water content", "lwc": "liquid water content"}[product]
        site = self.c.rng.choice([None, "Somewhere"])
        ok = self.rec.step([obs, model], out, lambda u: process_L3_day_product("ecmwf", product, model, obs, out, uuid=u, site_name=site), f"L3 {name}",
                           f"l3-{product}", site or self.location, self.date, sources="names", names=[x.rsplit("/", 1)[1] for x in (obs, model)], pids=pids)
        return out if ok else None


def workflows(c, rec, cases):
    """Behaviours of the specification, step by step in the real code."""
    rng = c.rng
    chosen = rng.sample(cases, min(len(cases), c.n(45, 1200)))
    for b in chosen:
        w = Workshop(c, rec)
        w.location = rng.choice(["Nowhere", "Jülich", "Ny-Ålesund"])
        w.date = [str(rng.choice([1999, 2023, 2024])), f"{rng.randint(1, 12):02d}", f"{rng.randint(1, 28):02d}"]
        base = rng.choice([0, 0, 60 * 24 * 365 * 50])  # also records from the future
        t = {1: base + 100, 2: base + 200}
        made = []
        for i, f in enumerate(b):
            kind, src = f["kind"], [j - 1 for j in f["src"]]
            by = {b[j]["kind"]: made[j] for j in src}
            if kind in ("radar", "lidar", "mwr", "model"):
                lines = [f"{stamp(t[f['t']])} - {kind} file created"]
                if kind == "model":
                    lines = ["retrieved from archive", *lines]
                made.append((w.raw(kind, lines, uuid=str(uuidlib.UUID(int=rng.getrandbits(128), version=4)), pid=None if kind == "model" else rng.choice([None, "https://pid/" + kind])), None))
                continue
            if any(x[0] is None for x in by.values()):
                break
            if kind == "categorize":
                files = {k: by[k][0] for k in ("radar", "lidar", "model")}
                if "mwr" in by:
                    files["mwr"] = by["mwr"][0]
                out = (w.categorize(files), "cf")
            elif kind == "product" and "categorize" in by:
                out = w.product(by["categorize"][0], None if "mwr" in {b[j]["kind"] for j in _ancestors(b, i)} else rng.choice(["classification", "iwc", "ier"]))
            elif kind == "product":
                out = (w.epsilon(by["radar"][0], by["model"][0]), "epsilon")
            else:
                obs, what = by.get("categorize") or by.get("product")
                synthetic = what == "epsilon"  # no product that is compared in practice
                if what not in ("cf", "iwc", "lwc"):
                    # cloud fraction is compared with categorize files, water contents with their products
                    obs, what = _stand_in(w, obs, rng)
                    if obs is None:
                        break
                out = (w.compare(obs, by["model"][0], what, pids=not synthetic), "l3")
            made.append(out)
            if out[0]:
                redate(out[0], t[f["t"]])
    return len(chosen)


def _ancestors(b, i):
    out = set()
    for j in b[i]["src"]:
        out |= {j - 1} | _ancestors(b, j - 1)
    return out


def _stand_in(w, obs, rng):
    """Other products hold no variable to compare: give the file an ice water content."""
    with netCDF4.Dataset(obs, "a") as nc:
        if "iwc" not in nc.variables:
            nc.createVariable("iwc", "f8", ("time", "height"))[:] = 1e-6
            nc.createVariable("iwc_retrieval_status", "i4", ("time", "height"))[:] = 1
    return obs, "iwc"


def random_history(rng, own, pool, tidy=False):
    lines = []
    for _ in range(rng.randrange(4)):
        lines.append(rng.choice(pool))
    if tidy:
        lines = sorted(lines, key=when, reverse=True)
    lines.append(own)
    if not tidy:
        rng.shuffle(lines)
    lines = list(dict.fromkeys(lines))
    return lines


def merges(c, rec):
    """Single steps of any kind over files with any histories."""
    rng = c.rng
    for _ in range(c.n(36, 600)):
        w = Workshop(c, rec)
        pool = [f"{stamp(rng.randrange(-3000, 3000), rng.choice([0, 0, 2, -5, 9]))} - {rng.choice(['radar', 'lidar', 'x - y'])} file {rng.choice(['created', 'edited - twice'])} {k}"
                for k in range(4)]
        pool += [pool[0].replace(":00 ", ":01 ", 1) if rng.random() < 0.5 else pool[0]]
        pool += rng.sample(["some note", "2023-06-15 - radar file created", "2023-13-15 11:00:00 +00:00 - impossible", "2023-06-15 12:00:00 - no zone",
                            "- ", "2023-06-15 11:00:00 +00:00", "Model: 2023-06-15 11:00:00 +00:00 - late"], 3)
        files = {}
        uuids = [str(uuidlib.UUID(int=rng.getrandbits(128), version=4)) for _ in range(5)]
        if rng.random() < 0.3:
            uuids[1] = uuids[0]
        usable = rng.random() < 0.7
        kinds = ["radar", "lidar", "model"] + rng.sample(["mwr", "disdrometer"], rng.choice([0, 1, 2]))
        same = [None, "Instrument X", "Instrument X\nInstrument Y", "Instrument Y"]
        for k, u in zip(kinds, uuids):
            lines = random_history(rng, f"{stamp(rng.randrange(-3000, 3000))} - {k} file created", pool) if rng.random() < 0.9 else None
            if lines and k != "model" and rng.random() < 0.2:
                lines.insert(rng.randrange(len(lines)), "")
            files[k] = w.raw(k, lines, uuid=u if rng.random() < 0.85 else None, source=rng.choice(same if k != "model" else same[:2]),
                             pid=None if k == "model" else rng.choice([None, "https://pid/1", "https://pid/" + k]), unusable=not usable, rrate=rng.random() < 0.5)
        if "mwr" not in files and rng.random() < 0.5:
            files["mwr"] = files["radar"]
        cat = w.categorize(files, usable)
        if cat is None:
            continue
        if rng.random() < 0.5:
            set_attr(cat, file_uuid=None)
        if rng.random() < 0.5:
            redate(cat, rng.randrange(-4000, 4000))
        voodoo = rng.random() < 0.4
        with netCDF4.Dataset(cat, "a") as nc:
            if voodoo:
                nc.createVariable("liquid_prob", "f4", ("time", "height"))[:] = 0
            have = set(nc.variables)
        for k in rng.sample(["classification", "iwc", "ier"] + (["lwc", "der"] if "lwp" in have else []), 2):
            w.product(cat, k, voodoo)
        w.compare(cat, files["model"], "cf")
        w.epsilon(files["radar"], files["model"])
        if {"v", "ldr", "width"} <= have and rng.random() < 0.5:
            w.drizzle(cat)


def radiometer(c, rec):
    """Products of the microwave radiometer."""
    from cloudnetpy.products import mwr_tools

    rng = c.rng
    for _ in range(c.n(8, 100)):
        pool = [f"{stamp(rng.randrange(-3000, 3000))} - step {k}" for k in range(4)]
        l1c, l2 = (str(c.scratch / x) for x in ("l1c.nc", "l2.nc"))
        lines = [f"{stamp(5000)} - mwr-l1c file created", *sorted(rng.sample(pool, rng.randrange(4)), key=when, reverse=True)]
        location = rng.choice(["Nowhere", "Jülich"])
        date = ["2023", f"{rng.randint(1, 12):02d}", f"{rng.randint(1, 28):02d}"]
        for p in (l1c, l2):
            with netCDF4.Dataset(p, "w", format="NETCDF4_CLASSIC") as nc:
                nc.createDimension("time", 3)
                nc.createVariable("time", "f8", ("time",))[:] = [1, 2, 3]
                if p == l2:
                    nc.createVariable("lwp", "f4", ("time",))[:] = 0.1
                    nc.history, nc.source, nc.title, nc.cloudnet_file_type = "mwrpy history", "mwrpy", "mwrpy", "x"
                else:
                    nc.year, nc.month, nc.day = date
                    nc.location, nc.source, nc.instrument_pid, nc.cloudnet_file_type = location, rng.choice(["RPG HATPRO", "RPG HATPRO\nCHM15k"]), "https://pid/mwr", "mwr-l1c"
                    nc.history = "\n".join(lines)
                    nc.file_uuid = str(uuidlib.UUID(int=rng.getrandbits(128), version=4))
        kind = rng.choice(["single", "multi"])

        def call(u):
            from cloudnetpy.utils import get_uuid

            with netCDF4.Dataset(l1c) as a, netCDF4.Dataset(l2, "r+") as b:
                return mwr_tools.Mwr(a, b, get_uuid(u)).harmonize(kind)

        rec.step([l1c], l2, call, "MWR " + {"single": "single-pointing", "multi": "multiple-pointing"}[kind], f"mwr-{kind}", location, date)


def level1c(c, rec):
    """Calibrated radiometer data; what mwrpy reads from the raw files is a stand-in."""
    from types import SimpleNamespace

    from cloudnetpy.cloudnetarray import CloudnetArray
    from cloudnetpy.instruments import hatpro

    rng = c.rng
    out, lidar = str(c.scratch / "l1c_out.nc"), str(c.scratch / "l1c_lidar.nc")
    for ask in ("none", "uuid", "text") * c.n(2, 10):
        day = datetime.date(2023, rng.randint(1, 12), rng.randint(1, 28))
        n = 4
        start = int(datetime.datetime(day.year, day.month, day.day, tzinfo=datetime.timezone.utc).timestamp())
        values = {"time": start + 600.0 * np.arange(1, n + 1), "time_bnds": np.zeros((n, 2)), "t_amb": np.full((n, 2), 280.0), "quality_flag": np.zeros((n, 2), "i4"),
                  "elevation_angle": np.full(n, 90.0), "tb": np.full((n, 2), 100.0), "receiver_nb": np.array([1, 2])}
        raw = SimpleNamespace(raw_data={}, date=day, data={k: CloudnetArray(v, k) for k, v in values.items()})
        raw.data["tb"].dimensions = raw.data["quality_flag"].dimensions = ("time", "frequency")
        raw.data["receiver_nb"].dimensions = ("receiver_nb",)
        site = rng.choice(["Nowhere", "Jülich"])
        inputs = []
        if rng.random() < 0.6:
            pool = [f"{stamp(rng.randrange(-3000, 3000))} - step {k}" for k in range(4)]
            with netCDF4.Dataset(lidar, "w") as nc:
                nc.history = "\n".join(sorted(rng.sample(pool, rng.randint(1, 4)), key=when, reverse=True))
                nc.source, nc.cloudnet_file_type = "CHM15k", "lidar"
            inputs = [lidar]
        meta = {"name": site, "latitude": 50.0, "longitude": 6.0, "altitude": 100, "coefficientFiles": [], "coefficientLinks": ["https://x/y.ret"]}
        old = hatpro.lev1_to_nc
        hatpro.lev1_to_nc = lambda *_a, raw=raw, **_k: raw
        try:
            rec.step(inputs, out, lambda u: hatpro.hatpro2l1c("/nonexistent", out, meta, lidar_file=lidar if inputs else None, uuid=u, date=day.isoformat()),
                     "mwr-l1c", "mwr-l1c", site, [f"{day.year}", f"{day.month:02d}", f"{day.day:02d}"], ask=ask, sources="none", pids=False, raw=True)
        finally:
            hatpro.lev1_to_nc = old


def turbulence(c, rec):
    """Product of the Doppler lidar, from the sample files of the repository."""
    from cloudnetpy.products import generate_epsilon_from_lidar

    rng = c.rng
    folder = REPO / "tests/unit/data/epsilon"
    if not (folder / "doppler-lidar.nc").exists():
        return
    for _ in range(c.n(2, 12)):
        pool = [f"{stamp(rng.randrange(-3000, 3000))} - step {k}" for k in range(4)] + ["some note"]
        files = []
        for name in ("doppler-lidar", "doppler-lidar-wind"):
            p = str(c.scratch / f"{name}.nc")
            shutil.copy(folder / f"{name}.nc", p)
            set_attr(p, history="\n".join(random_history(rng, f"{stamp(rng.randrange(-3000, 3000))} - {name} file created", pool)),
                     file_uuid=str(uuidlib.UUID(int=rng.getrandbits(128), version=4)), source=rng.choice(["HALO", "HALO", "WLS200s"]))
            files.append(p)
        out = str(c.scratch / "epsilon-lidar.nc")
        rec.step(files, out, lambda u: generate_epsilon_from_lidar(*files, out, u), "epsilon-lidar", "epsilon-lidar", "Jülich", ["2024", "04", "13"], sep=", ", pids=False)


def level1b(c, rec):
    """Files of the instruments: made from raw data, with a history of their own."""
    rng = c.rng
    out, folder = str(c.scratch / "l1b.nc"), str(c.scratch / "raw")
    for a in adapters.all_adapters():
        for ask in ("none", "uuid", "text") * c.n(1, 4):
            n = rng.randint(max(a.minprof, 3), 6)
            rows = [{"t": a.step * 60 * (1 + i), "k": 1 + i} for i in range(n)]
            site = rng.choice(["Nowhere", "Jülich", "Ny-Ålesund"])
            old_site = a.site
            a.site = {**old_site, "name": site}
            location = getattr(a, "station", None) or site

            def call(u, a=a, rows=rows):
                a.uuid = u
                return a.convert(a.files_of(rows) if hasattr(a, "files_of") else [rows], folder, out, adapters.DATE, rng)

            try:
                rec.step([], out, call, a.domain, a.domain, location, adapters.DATE.split("-") if isinstance(adapters.DATE, str) else
                         [f"{adapters.DATE.year}", f"{adapters.DATE.month:02d}", f"{adapters.DATE.day:02d}"], ask=ask, sources="none", pids=False, raw=True,
                         info={"step": "level 1b", "instrument": a.name})
            finally:
                a.uuid, a.site = None, old_site


def run(c):
    cases = c.cases(c.model_check("MCProvenance", "MCProvenance7.cfg" if c.thorough else "MCProvenance.cfg"))
    if len(cases) < 100:
        raise MachineryError("too few workflows")
    rec = Recorder(c)
    n = workflows(c, rec, cases)
    merges(c, rec)
    radiometer(c, rec)
    level1c(c, rec)
    turbulence(c, rec)
    level1b(c, rec)
    c.sample({k: rec.events[0][k] for k in ("inputs", "own", "rest", "listed")})
    c.validate("ProvTrace", rec.events, meta=rec.meta, chunk=400)
    c.extra["behaviours_replayed_from_spec"] = n
    c.extra["steps"] = sorted({e["want"]["type"] for e in rec.events if e["ev"] == "made"})
    c.assumptions += ["the history of a model file does not end in an empty line", "order among records without a readable time is not defined"]
