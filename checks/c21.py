"""C21: what the command line makes of a request and of what the data portal has."""
import argparse
import builtins
import datetime
import gzip
import json
import logging
import os
import shutil
import sys
import uuid
from pathlib import Path
from unittest import mock

import cloudnet_api_client
import requests
from cloudnet_api_client import CloudnetAPIError
from cloudnet_api_client import containers as box

import cloudnetpy.cli as cli
import cloudnetpy.instruments
import cloudnetpy.model_evaluation.plotting.plotting as l3plot
import cloudnetpy.model_evaluation.products.product_resampling as l3
import cloudnetpy.products
from cloudnetpy import concat_lib, plotting
from cloudnetpy.categorize import categorize
from cloudnetpy.exceptions import ModelDataError, PlottingError
from vlib import outcome, where

NOW = datetime.datetime(2024, 1, 1, tzinfo=datetime.timezone.utc)
READERS = ["mira2nc", "rpg2nc", "basta2nc", "copernicus2nc", "galileo2nc", "parsivel2nc", "thies2nc", "pollyxt2nc", "ceilo2nc",
           "hatpro2nc", "hatpro2l1c", "mrr2nc", "ws2nc"]
L2 = ["classification", "der", "drizzle", "ier", "iwc", "lwc"]
MWR = ["mwr_single", "mwr_multi", "mwr_lhumpro"]
CATALOG = {
    "radar": (["mira-35", "rpg-fmcw-94", "rpg-fmcw-35", "basta", "copernicus", "galileo"], []),
    "lidar": (["chm15k", "cl61d", "cl31", "pollyxt"], []),
    "doppler-lidar": (["halo-doppler-lidar"], []),
    "mwr": (["hatpro"], []),
    "mwr-l1c": (["hatpro"], []),
    "disdrometer": (["parsivel", "thies-lnm"], []),
    "mrr": (["mrr-pro"], []),
    "weather-station": (["weather-station"], []),
    "model": ([], []),
    "categorize": ([], ["radar", "lidar", "mwr", "disdrometer", "model"]),
    **{p: ([], ["categorize"]) for p in L2},
    **{p.replace("_", "-"): ([], ["mwr-l1c"]) for p in MWR},
    "epsilon-radar": ([], ["radar", "model"]),
    "l3-cf": ([], []), "l3-iwc": ([], []), "l3-lwc": ([], []),
}
LINKS = ["https://example.invalid/coef/TPB_a.RET", "https://example.invalid/coef/LWP_b.RET"]
MODELS = [("ecmwf", "ECMWF IFS"), ("icon-iglo-12-23", "ICON 12"), ("harmonie-fmi-6-11", "HARMONIE")]


def content(text, gz):
    data = (text + "\n").encode()
    return gzip.compress(data, compresslevel=0, mtime=0) if gz else data


def read(path):
    data = Path(path).read_bytes()
    if str(path).endswith(".gz"):
        data = gzip.decompress(data)
    return data.decode().split("\n")[:-1]


class Portal:
    """Answers like the client of the data portal; its files are lines of text."""

    def __init__(self, w, site_obj, insts):
        self.w, self.site_obj, self.insts = w, site_obj, insts

    def __call__(self, *_a, **_k):
        return self

    def _listed(self, x):
        return None if x is None else [x] if isinstance(x, str) else list(x)

    def sites(self, type=None):
        return [box.Site(**{**{f: getattr(self.site_obj, f) for f in self.site_obj.__slots__}, "id": i, "human_readable_name": n})
                for i, n in (("other", "Other"), (self.site_obj.id, self.site_obj.human_readable_name))]

    def site(self, site_id):
        return next(s for s in self.sites() if s.id == site_id)

    def products(self, type=None):
        return [self.product(c["p"]) for c in self.w["catalog"]]

    def product(self, product_id):
        for c in self.w["catalog"]:
            if c["p"] == product_id:
                derived = [x["p"] for x in self.w["catalog"] if product_id in x["sources"]]
                return box.ExtendedProduct(product_id, product_id, frozenset(["geophysical" if c["sources"] else "instrument"]), False,
                                           frozenset(c["ids"]), frozenset(c["sources"]), frozenset(derived))
        raise CloudnetAPIError("no such product")

    def models(self):
        return [box.Model(i, n, 1, "icon-iglo" if i.startswith("icon") else i, None, None) for i, n in MODELS]

    def _date(self, d):
        return d.isoformat() if isinstance(d, datetime.date) else d

    def raw_files(self, site_id=None, date=None, instrument_id=None, instrument_pid=None, filename_prefix=None, filename_suffix=None, status=None, **_k):
        out = []
        ids, pids, st = self._listed(instrument_id), self._listed(instrument_pid), self._listed(status)
        for r in self.w["rawfiles"]:
            i = self.insts[r["pid"]]
            if (site_id in (None, r["site"]) and self._date(date) in (None, r["date"]) and (ids is None or i.instrument_id in ids)
                    and (pids is None or i.pid in pids) and (st is None or r["status"] in st)
                    and (filename_suffix is None or r["file"].endswith(filename_suffix)) and (filename_prefix is None or r["file"].startswith(filename_prefix))):
                size = len(content("new " + r["file"], r["file"].endswith(".gz")))
                out.append(box.RawMetadata(uuid.uuid5(uuid.NAMESPACE_URL, r["file"]), "x", size, r["file"], "https://example.invalid/api/download/raw/1/" + r["file"],
                                           datetime.date.fromisoformat(r["date"]), NOW, NOW, self.site(r["site"]), r["status"], i, frozenset()))
        return out

    def files(self, site_id=None, date=None, instrument_id=None, instrument_pid=None, model_id=None, product_id=None, show_legacy=False, **_k):
        out = []
        prods, ids, pids, models = (self._listed(x) for x in (product_id, instrument_id, instrument_pid, model_id))
        for f in self.w["portal"]:
            i = self.insts[f["pid"]] if f["pid"] else None
            if (site_id not in (None, f["site"]) or self._date(date) not in (None, f["date"]) or (prods is not None and f["p"] not in prods)
                    or (ids is not None and (i is None or i.instrument_id not in ids)) or (pids is not None and (i is None or i.pid not in pids))):
                continue
            if f["p"] == "model":
                if (prods is None and model_id is None) or (models is not None and f["model"] not in models):
                    continue
                if models is None and any(x.model is not None for x in out):
                    continue  # only the best model
            model = next((m for m in self.models() if m.id == f["model"]), None)
            name = f["file"]
            out.append(box.ProductMetadata(uuid.uuid5(uuid.NAMESPACE_URL, name), "x", len(content("new " + name, False)), name, "https://example.invalid/api/download/product/1/" + name,
                                           datetime.date.fromisoformat(f["date"]), NOW, NOW, self.site(f["site"]),
                                           box.Product(f["p"], f["p"], frozenset(["geophysical" if f["geo"] else "model" if f["p"] == "model" else "instrument"]), False),
                                           i, model, False, False, "pid", None, None, 100.0, "scheduled", "nc", None, None, None))
        return out

    def download(self, metadata, output_directory=".", concurrency_limit=5, progress=None, validate_checksum=False):
        out = []
        folder = Path(output_directory).resolve()
        folder.mkdir(parents=True, exist_ok=True)
        for m in [metadata] if isinstance(metadata, box.Metadata) else list(metadata):
            path = folder / m.download_url.split("/")[-1]
            if not (path.exists() and path.stat().st_size == m.size):
                path.write_bytes(content("new " + path.name, path.name.endswith(".gz")))
            out.append(path)
        return out

    def calibration(self, instrument_pid=None, date=None):
        for x in self.w["caldata"]:
            if x[0] == instrument_pid and self._date(date) == self.w["date"]:
                return {"data": x[1]}
        raise CloudnetAPIError("no calibration")


def everywhere(stack, original, stand_in):
    """The stand-in takes the place of the original wherever the package names it."""
    for name, module in list(sys.modules.items()):
        if name == "cloudnetpy" or name.startswith("cloudnetpy."):
            for key, value in list(vars(module).items()):
                if value is original:
                    stack.append(mock.patch.object(module, key, stand_in))


class Run:
    def __init__(self, c, w, argv, root):
        self.w, self.argv, self.root = w, argv, root
        self.calls, self.plots = [], []
        insts = {x["pid"]: box.Instrument(x["id"], x["id"], "t", x["name"], uuid.uuid5(uuid.NAMESPACE_URL, x["pid"]), x["pid"], (), None) for x in w["insts"]}
        s = dict((k, v) for k, v in w["sitedata"].items())
        site = box.Site(w["site"], s["name"], None, s["latitude"], s["longitude"], s["altitude"], None, None, "Finland", "FI", None, frozenset(["cloudnet"]), None)
        self.client = Portal(w, site, insts)

    def rel(self, path):
        return os.path.relpath(Path(path).resolve(), (self.root / self.w["outdir"]).resolve())

    def make(self, tool, inputs, out, **extra):
        out = Path(out)
        call = {"tool": tool, "inputs": inputs, "out": self.rel(out), "meta": [], "date": "", "shape": "", "options": "", "coefs": [], "links": [], **extra}
        if not out.parent.is_dir():
            raise FileNotFoundError(out)
        out.write_bytes(content(f"made {tool} {call['out']}", False))
        self.calls.append(call)
        return "uuid"

    def reader(self, tool):
        def stand_in(files, output_file, site_meta, uuid=None, date=None, **_k):
            if isinstance(files, (list, tuple)):
                shape, got = "list", [x for f in files for x in read(f)]
            elif Path(files).is_dir():
                shape, got = "folder", [x for f in sorted(Path(files).iterdir()) for x in read(f)]
            else:
                shape, got = "file", read(files)
            meta = [[k, str(v)] for k, v in site_meta.items() if k not in ("coefficientFiles", "coefficientLinks")]
            coefs = [Path(f).read_bytes().decode() for f in site_meta.get("coefficientFiles") or []]
            return self.make(tool, {"raw": got}, output_file, meta=meta, date=self.client._date(date) or "", shape=shape,
                             coefs=coefs, links=list(site_meta.get("coefficientLinks") or []))
        return stand_in

    def patches(self):
        ps = []
        for tool in READERS:
            everywhere(ps, getattr(cloudnetpy.instruments, tool), self.reader(tool))
        w = self.w

        def cat(input_files, output_file, uuid=None, options=None):
            if w["nocat"]:
                raise NameError("no data")
            inputs = {k: read(v) for k, v in input_files.items() if isinstance(v, (str, Path))}
            return self.make("generate_categorize", inputs, output_file, options=json.dumps(options) if options else "")
        everywhere(ps, categorize.generate_categorize, cat)

        def one(tool, role):
            def stand_in(source, output_file, *a, **k):
                return self.make(tool, {role: read(source)}, output_file)
            return stand_in
        for p in L2:
            everywhere(ps, getattr(cloudnetpy.products, f"generate_{p}"), one(f"generate_{p}", "categorize"))
        for p in MWR:
            everywhere(ps, getattr(cloudnetpy.products, f"generate_{p}"), one(f"generate_{p}", "mwr-l1c"))

        def eps(radar_file, model_file, output_file, uuid=None):
            return self.make("generate_epsilon_from_radar", {"radar": read(radar_file), "model": read(model_file)}, output_file)
        everywhere(ps, cloudnetpy.products.generate_epsilon_from_radar, eps)

        def day(model, obs, model_file, product_file, output_file, uuid=None, *, model_name=None, site_name=None, overwrite=False, **k):
            if "l3-" + obs in w["nol3"]:
                raise ModelDataError("no model data")
            if isinstance(model_file, (list, tuple)):
                model_file, = model_file
            if Path(output_file).exists() and not overwrite:
                raise FileExistsError(output_file)
            return self.make("process_L3_day_product", {"product": read(product_file), "model": read(model_file)}, output_file,
                             meta=[["obs", obs], ["model", model], ["model_name", str(model_name)], ["site_name", str(site_name)]])
        everywhere(ps, l3.process_L3_day_product, day)

        def bundle(files, date, concat_file, variables=None, *a, **k):
            lines = [x for f in files for x in read(f)]
            Path(concat_file).write_bytes(("\n".join(lines) + "\n").encode())
            return [Path(f) for f in files]
        everywhere(ps, concat_lib.bundle_netcdf_files, bundle)

        def figure(filepath, variables, *, show=False, output_filename=None, options=None, **k):
            self.drawn(filepath)
            if w["noplot"]:
                raise PlottingError("nothing to plot")
        everywhere(ps, plotting.generate_figure, figure)

        def figures(nc_file, product, *a, **k):
            self.drawn(nc_file)
            if w["noplot"]:
                raise PlottingError("nothing to plot")
        everywhere(ps, l3plot.generate_L3_day_plots, figures)

        def get(url, *a, **k):
            if "products/variables" in url:
                body = [{"id": c["p"], "variables": [{"id": f"{c['p']}-v", "humanReadableName": "V"}]} for c in w["catalog"]]
                return mock.Mock(raise_for_status=lambda: None, json=lambda: body, content=b"", status_code=200)
            return mock.Mock(raise_for_status=lambda: None, content=url.encode(), status_code=200)
        ps.append(mock.patch.object(requests, "get", get))
        ps.append(mock.patch.object(cli, "APIClient", self.client))
        ps.append(mock.patch.object(cloudnet_api_client, "APIClient", self.client))

        def ask(*a):
            if w["answer"] == 0:
                raise EOFError
            return str(w["answer"])
        ps.append(mock.patch.object(builtins, "input", ask))
        ps.append(mock.patch.object(sys, "argv", ["cloudnetpy", *self.argv]))
        return ps

    def drawn(self, filepath):
        name = next((p for p in self.w["names"] if Path(filepath).name.endswith("_" + p + ".nc")), None)
        text = read(filepath)[0]
        self.plots.append([name or next((TOOLS[t] for t in TOOLS if f" {t} " in text), ""), text])

    def __call__(self):
        old = os.getcwd()
        log = logging.getLogger()
        handlers, level = log.handlers, log.level
        ps = self.patches()
        err = open(os.devnull, "w")
        try:
            os.chdir(self.root)
            for p in ps:
                p.start()
            with mock.patch.object(sys, "stderr", err), mock.patch.object(sys, "stdout", err):
                return outcome(command)
        finally:
            for p in reversed(ps):
                p.stop()
            os.chdir(old)
            log.handlers, log.level = handlers, level
            err.close()


TOOLS = {"hatpro2nc": "mwr", "hatpro2l1c": "mwr-l1c", "mrr2nc": "mrr", "ws2nc": "weather-station", "parsivel2nc": "disdrometer", "thies2nc": "disdrometer",
         "pollyxt2nc": "lidar", "ceilo2nc": "lidar", **{t: "radar" for t in READERS[:5]}}


class Refused(Exception):
    """The command line gave up with a message."""


def command():
    try:
        cli.main()
    except SystemExit as err:
        if err.code not in (0, None):
            raise Refused(err.code) from err


def listing(folder):
    return [[os.path.relpath(p, folder), " | ".join(read(p))] for p in sorted(folder.rglob("*")) if p.is_file()]


def world(c):
    r = c.rng
    site = r.choice(["munich", "kenttarova", "new-york"])
    date = f"{r.randint(2015, 2025)}-{r.randint(1, 12):02d}-{r.randint(1, 28):02d}"
    ymd = date.replace("-", "")
    insts = []

    def inst(iid):
        pid = f"https://hdl.handle.net/21.12132/3.{r.getrandbits(64):016x}"
        name = f"{r.choice('ABCDEFG')}{len(insts)} {iid}"
        insts.append({"pid": pid, "short": pid.rsplit(".", 1)[-1][:8], "id": iid, "name": name, "rank": 0})
        return pid
    pool = {}
    # a cloud radar that also measures liquid water path, on a site without a radiometer
    alone = r.random() < 0.12
    for p, ids in [("radar", r.sample(CATALOG["radar"][0], r.choice([1, 1, 2, 3]))), ("lidar", r.sample(CATALOG["lidar"][0], r.choice([1, 1, 2]))),
                   ("doppler-lidar", ["halo-doppler-lidar"]), ("mwr", ["hatpro"] * r.choice([1, 1, 2])),
                   ("disdrometer", r.sample(CATALOG["disdrometer"][0], r.choice([1, 2]))), ("mrr", ["mrr-pro"]), ("weather-station", ["weather-station"])]:
        if p == "radar" and alone:
            ids = [r.choice(["rpg-fmcw-94", "rpg-fmcw-35"])] + r.choice([[], ["mira-35"]])
        if p in ("radar", "lidar") and r.random() < 0.2:
            ids = ids + [ids[0]]
        pool[p] = [inst(i) for i in ids]
    pool["mwr-l1c"] = pool["mwr"]
    for k, x in enumerate(sorted(insts, key=lambda x: x["name"])):
        x["rank"] = k + 1
    by = {x["pid"]: x for x in insts}
    # raw files
    raw = []
    for x in insts:
        if r.random() < 0.25:
            continue
        ends = {"rpg-fmcw-94": [".LV1", ".LV0", ".lv1"], "rpg-fmcw-35": [".LV1", ".LV0"], "hatpro": [".LWP", ".IWV", ".BRT", ".nc", ".lwp.nc"], "chm15k": [".nc"], "mira-35": [".nc.gz", ".nc"]}.get(x["id"], [".dat", ".nc"])
        for k in range(1 if x["id"] == "basta" else r.choice([1, 1, 2, 3])):
            end = r.choice(ends)
            if x["id"] not in ("hatpro", "rpg-fmcw-94", "rpg-fmcw-35") and r.random() < 0.25 and not end.endswith(".gz"):
                end += ".gz"
            name = f"{ymd}_{x['short']}_{k}{end}"
            raw.append({"file": name, "pid": x["pid"], "site": site, "date": date, "status": r.choice(["uploaded", "processed"]), "lv0": end.lower() == ".lv0", "lwp": end.lower()[:4] in (".lwp", ".iwv"), "nc": end.lower().endswith(".nc")})
    for _ in range(r.choice([0, 1, 2])):
        x = r.choice(insts)
        if x["id"] != "basta":
            raw.append({"file": f"wrong_{len(raw)}.dat", "pid": x["pid"], "lv0": False, "lwp": True, "nc": False,
                        **r.choice([{"site": "other", "date": date, "status": "uploaded"}, {"site": site, "date": "2014-01-01", "status": "uploaded"},
                                    {"site": site, "date": date, "status": "created"}, {"site": site, "date": date, "status": "invalid"}])})
    r.shuffle(raw)
    # products of the portal
    portal = []
    lean = r.random() < 0.3
    for p, pids in pool.items():
        for pid in pids:
            if r.random() < (0.5 if lean else 0.75):
                end = "_l1c" if p == "mwr-l1c" else ""
                portal.append({"p": p, "pid": pid, "model": "", "site": site, "date": date, "file": f"{ymd}_{site}_{by[pid]['id']}_{by[pid]['short']}{end}.nc", "geo": False})
    for p in ["categorize", *L2, "mwr-single"]:
        if r.random() < (0.3 if lean else 0.6):
            portal.append({"p": p, "pid": "", "model": "", "site": site, "date": date, "file": f"{ymd}_{site}_{p}.nc", "geo": True})
    for m, _ in r.sample(MODELS, r.choice([0, 1, 1, 2, 3])):
        portal.append({"p": "model", "pid": "", "model": m, "site": site, "date": date, "file": f"{ymd}_{site}_{m}.nc", "geo": False})
    if r.random() < 0.3:
        portal.append({"p": r.choice(["radar", "model", "categorize"]), "pid": "", "model": "ecmwf", "site": "other", "date": date, "file": f"{ymd}_other_x.nc", "geo": False})
        if portal[-1]["p"] != "model":
            portal[-1]["model"] = ""
    if alone:
        portal = [f for f in portal if f["p"] not in ("mwr", "mwr-single", "model")]
        portal.append({"p": "model", "pid": "", "model": "ecmwf", "site": site, "date": date, "file": f"{ymd}_{site}_ecmwf.nc", "geo": False})
    r.shuffle(portal)
    # the request
    menu = r.choice([["radar", "lidar", "mwr", "categorize", "classification", "iwc", "l3-iwc"], ["categorize", *L2], ["mwr-l1c", "mwr-single", "mwr-multi", "mwr", "mwr-lhumpro"],
                     ["radar", "epsilon-radar", "l3-cf", "l3-lwc", "lwc"], ["radar", "categorize", "mwr"], list(CATALOG)])
    menu = [p for p in menu if p not in ("doppler-lidar", "model")]
    want = r.sample(menu, r.randint(1, min(len(menu), 7)))
    if alone:
        want = list(dict.fromkeys(["radar", "categorize", *want[:3]]))
        r.shuffle(want)
    products = []
    for p in want:
        ids = CATALOG[p][0]
        b = r.choice([by[x]["id"] for x in pool[p]] + [r.choice(ids)]) if ids and r.random() < 0.2 else ""
        products.append({"p": p, "bracket": b})
    if r.random() < 0.1:
        products.insert(r.randint(0, len(products)), {"p": r.choice(["nonsense", "Radar", "iwcc"]), "bracket": ""})
    prefs = []
    for p in ["radar", "lidar", "mwr", "disdrometer"]:
        if r.random() < 0.35:
            for _ in range(r.choice([1, 1, 2])):
                pids = pool[p] + (pool["doppler-lidar"] if p == "lidar" else [])
                vals = [r.choice([x, by[x]["id"], r.choice(CATALOG[p][0])]) for x in (r.choice(pids) for _ in range(r.choice([1, 1, 2, 3])))]
                prefs.append({"p": p, "values": vals})
    r.shuffle(prefs)
    cal, caldata = [], []
    for x in insts:
        data = {}
        if x["id"] == "hatpro":
            data = {"retrieval_coefficients": [{"links": LINKS}], "tilt": r.choice([0, 1.5])}
        elif r.random() < 0.5:
            data = {k: v for k, v in {"range_correction_factor": 0.5, "snr_limit": r.choice([2, 30]), "calibration_factor": r.choice([2e-12, 1.5])}.items() if r.random() < 0.8}
        elif r.random() < 0.5:
            continue
        cal.append({"pid": x["pid"], "data": [[k, str(v)] for k, v in data.items()]})
        caldata.append([x["pid"], data])
    sitedata = {"name": "Site of " + site, "latitude": r.choice([48.1, -12.5]), "longitude": r.choice([11.6, 200.25]), "altitude": r.choice([0, 538])}
    model = r.choice(["", "ecmwf"]) if alone else r.choice(["", "", "ecmwf", "icon-iglo-12-23", "harmonie-fmi-6-11"])
    w = {"site": site, "date": date, "ymd": ymd, "insts": insts, "pids": [x["pid"] for x in insts], "rawfiles": raw, "portal": portal, "products": products, "prefs": prefs,
         "catalog": [{"p": p, "ids": v[0], "sources": v[1]} for p, v in CATALOG.items()], "cal": cal, "caldata": caldata, "sitedata": sitedata,
         "siteinfo": [[k, str(v)] for k, v in sitedata.items()], "model": model, "models": [list(m) for m in MODELS], "answer": r.choice([0, 1, 1, 2, 3, 9]),
         "force": r.random() < (0.7 if alone else 0.35), "dl": r.random() < 0.12, "plot": r.random() < 0.25, "noplot": r.random() < 0.3, "nocat": r.random() < 0.12,
         "nol3": [p for p in ("l3-cf", "l3-iwc", "l3-lwc") if r.random() < 0.15], "options": r.choice(["", "", '{"temperature_offset": 3}']), "links": LINKS,
         "old": [], "oldraw": [], "outdir": r.choice(["output", "output", "categorize-test", "out/deep"]), "indir": r.choice(["input", "in put"]),
         "names": [p for p in CATALOG if "l1c" not in p and not CATALOG[p][0]]}
    return w


def old_files(c, w, root):
    """Files of an earlier run."""
    r = c.rng
    by = {x["pid"]: x for x in w["insts"]}
    out, inp = root / w["outdir"] / w["site"] / w["date"], root / w["indir"] / w["site"] / w["date"]
    if r.random() < 0.6:
        for f in w["portal"]:
            if f["site"] == w["site"] and r.random() < 0.35:
                path = out / ("geophysical" if f["geo"] else "instrument") / f["file"]
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_bytes(content("old " + f["file"], False))
                w["old"].append([os.path.relpath(path, root / w["outdir"]), "old " + f["file"]])
        for f in w["rawfiles"]:
            if f["site"] == w["site"] and f["date"] == w["date"] and f["status"] in ("uploaded", "processed") and r.random() < 0.3:
                i = by[f["pid"]]
                path = inp / f"{i['id']}_{i['short']}" / f["file"]
                path.parent.mkdir(parents=True, exist_ok=True)
                kind = r.choice(["old", "old", "partial"])
                text = "old " + f["file"] if kind == "old" else "partial"
                path.write_bytes(content(text, f["file"].endswith(".gz")))
                w["oldraw"].append([f["file"], text])
                if f["file"].endswith(".gz"):
                    path.with_suffix("").write_bytes(content("stale", False))


def arguments(c, w):
    r = c.rng
    argv = [r.choice(["-s", "--site"]), w["site"], "-d", w["date"], "-p", ",".join(p["p"] + (f"[{p['bracket']}]" if p["bracket"] else "") for p in w["products"])]
    for p in w["prefs"]:
        argv += [r.choice(["-i", "--instrument"]), p["p"] + ":" + r.choice([",", ", "]).join(p["values"])]
    if w["model"]:
        argv += ["--model", w["model"]]
    argv += ["--output", w["outdir"] + r.choice(["", "/"]), "--input", w["indir"]]
    for flag, key in (("--force-download", "force"), ("--dl", "dl"), ("--plot", "plot")):
        if w[key]:
            argv.append(flag)
    if w["plot"] and r.random() < 0.5:
        argv += ["--variables", "a,b"]
    if w["options"]:
        argv += ["--options", w["options"]]
    return argv


def run(c):
    c.model_check("MCCli", "MCCliBig.cfg" if c.thorough else "MCCli.cfg", coverage=False, timeout=850)
    events, metas = [], []
    for n in range(c.n(420, 4000)):
        w = world(c)
        root = Path(c.scratch) / f"r{n}"
        root.mkdir()
        old_files(c, w, root)
        argv = arguments(c, w)
        bad = c.rng.random() < 0.04
        if bad:
            argv += c.rng.choice([["-i", "radar"], ["-i", "radar:mira-35,lidar:cl61d"], ["--model", "icon-iglo"], ["--model", "nope"], ["--options", "{x"], ["-s", "nowhere"]])
        job = Run(c, w, argv, root)
        status, val = job()
        e = {"ev": "run", "w": {k: v for k, v in w.items() if k not in ("caldata", "sitedata")}, "bad": bad, "status": status, "calls": job.calls, "plots": job.plots, "disk": [], "raw": []}
        if status != "ok":
            e["err"] = where(val)
        e["disk"] = listing(root / w["outdir"]) if (root / w["outdir"]).exists() else []
        raws = listing(root / w["indir"]) if (root / w["indir"]).exists() else []
        e["raw"] = [[os.path.basename(p), t] for p, t in raws]
        events.append(e)
        metas.append({"argv": argv})
        shutil.rmtree(root)
        if n < 2:
            c.sample({"argv": argv, "calls": [[x["tool"], x["out"]] for x in job.calls]})
    c.validate("CliTrace", events, meta=metas)
    c.extra["calls"] = sum(len(e["calls"]) for e in events)
    c.extra["steps"] = sorted({x["tool"] for e in events for x in e["calls"]})
    c.assumptions += ["The data portal, readers and generators of products are stand-ins; what they get and where they write is recorded.",
                      "Not judged: instruments of products without a reader in the command line, duplicate requests of one product, errors raised by a reader."]
