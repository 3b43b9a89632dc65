"""One adapter per instrument: writes raw files holding profiles that carry an
integer marker in every variable, runs the real converter and decodes the
markers from the product.  A row is a dict t (seconds relative to the midnight
of DATE), k (marker 1..200) and optional keep."""
from __future__ import annotations

import datetime
import os
import struct

import netCDF4
import numpy as np
from numpy import ma

import rawgen
from vlib import enc, outcome

DATE = datetime.date(2021, 3, 5)
MIDNIGHT = datetime.datetime(2021, 3, 5)
META = {"name": "Somewhere", "latitude": 52.0, "longitude": 14.0, "altitude": 100.0}


def stamp(t):
    return MIDNIGHT + datetime.timedelta(seconds=t)


def epoch_seconds(t, epoch=datetime.datetime(1970, 1, 1)):
    return (stamp(t) - epoch).total_seconds()


class Adapter:
    name = ""
    multi = False  # several input files
    minprof = 1
    errs = ("ValidTimeStampError",)
    step = 1  # time resolution of the raw format in seconds
    single_day = False  # the raw format cannot hold other days than its own
    max_files = 4
    gates = 12
    fine = False  # fractions of a second in the raw format
    keepable = False
    meta: dict = {}
    site: dict = META  # what the user states about the site
    uuid = None  # requested identifier
    domain = ""

    def times(self, symbolic):
        """Concrete stamps of the symbolic times of the specification."""
        return {-1: -self.step, 0: 0, 1: self.step, 43200: 43200, 86399: 86400 - self.step, 86400: 86400}[symbolic]

    def paths(self, folder, n, suffix):
        os.makedirs(folder, exist_ok=True)
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        return [os.path.join(folder, f"f{i}{suffix}") for i in range(n)]

    def convert(self, files, folder, out, date=DATE, rng=None):
        raise NotImplementedError

    def decode(self, nc):
        """-> {variable: list of markers per profile}"""
        raise NotImplementedError

    axes_in: dict = {}

    def axes_out(self, nc):
        return {k: enc(nc[k][:], 100) for k in self.axes_in}

    def event(self, files, folder, out, rng=None, date=DATE):
        """files: list of lists of rows."""
        if os.path.exists(out):
            os.unlink(out)
        status, val = outcome(self.convert, files, folder, out, date, rng)
        q = 1 if all(float(r["t"]).is_integer() for f in files for r in f) else 4
        rows = [{"t": int(q * r["t"]), "k": r["k"], "keep": r.get("keep", True)} for f in files for r in f]
        ev = {"ins": self.name, "ticks": q, "rows": rows, "minprof": self.minprof, "errs": list(self.errs), "status": status,
              "exists": os.path.exists(out), "time": [], "vars": {"none": []}, "axes_in": {}, "axes_out": {}}
        if status == "ok":
            with netCDF4.Dataset(out) as nc:
                ev["time"] = enc(ma.atleast_1d(nc["time"][:].astype(float)), 3600 * q)
                ev["vars"] = self.decode(nc)
                ev["axes_in"] = {k: v if isinstance(v, list) else enc(v, 100) for k, v in self.axes_in.items()}
                ev["axes_out"] = self.axes_out(nc)
        return ev


def flat(nc, key, scale=1.0, offset=0.0, col=None):
    """Markers of a variable: all columns of a profile must agree."""
    arr = ma.masked_invalid(ma.array(nc[key][:], dtype=float))
    if arr.ndim == 1:
        return enc((arr + offset) * scale)
    if arr.ndim != 2:
        return []
    if col is not None:
        return enc((arr[:, col] + offset) * scale)
    vals = enc((arr + offset) * scale)
    return [r[0] if all(x == r[0] for x in r) else -555555 for r in vals]


# ---- lidars -----------------------------------------------------------------
class NcLidar(Adapter):
    domain = "lidar"
    fine = True
    minprof = 2
    epoch = datetime.datetime(1970, 1, 1)
    attrs: dict = {}

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import ceilo2nc

        (path,) = self.paths(folder, 1, ".nc")
        rows = files[0]
        n, m = len(rows), self.gates
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("time", n)
            nc.createDimension("range", m)
            nc.setncatts(self.attrs)
            t = nc.createVariable("time", "f8", ("time",))
            t.units = self.units
            t[:] = [epoch_seconds(r["t"], self.epoch) for r in rows]
            r = nc.createVariable("range", "f4", ("range",))
            r[:] = 30.0 * np.arange(1, m + 1)
            k = np.array([r["k"] for r in rows], dtype=float)[:, np.newaxis] * np.ones((n, m))
            # the profile is a ramp, so that its top gates have some variance
            self.fill(nc, k * (1 + 0.001 * np.arange(m)))
        half = 15.0 if self.upper else -15.0
        self.axes_in = {"range": 30.0 * np.arange(1, m + 1) - half}
        return ceilo2nc(path, out, {**self.site, **self.meta}, date=date, uuid=self.uuid)

    def decode(self, nc):
        return {k: flat(nc, k, s, col=0) for k, s in self.outs.items()}


class Chm15k(NcLidar):
    name, upper = "chm15k", True
    attrs = {"title": "CHM15k Nimbus", "software_version": "12.12.1 2.13 1.040 0", "device_name": "CHM170137"}
    epoch, units = datetime.datetime(1904, 1, 1), "seconds since 1904-01-01 00:00:00.000 00:00"
    outs = {"beta_raw": 1e7}
    meta = {"calibration_factor": 1e-10}

    def fill(self, nc, k):
        nc.createVariable("beta_raw", "f4", ("time", "range"))[:] = k * 1e3
        nc.createVariable("zenith", "f4", ())[:] = 0


class Cl61(NcLidar):
    name, upper = "cl61d", False
    attrs = {"title": "CL61-D, Profiling Ceilometer, rev A"}
    units = "seconds since 1970-01-01 00:00:00.000"
    outs = {"beta_raw": 1e7, "depolarisation_raw": 1e3}

    def fill(self, nc, k):
        for v, a in (("beta_att", k * 1e-7), ("p_pol", np.ones(k.shape)), ("x_pol", k * 1e-3)):
            nc.createVariable(v, "f4", ("time", "range"))[:] = a


class Da10(NcLidar):
    name, upper = "da10", False
    attrs = {"title": "Vaisala DIAL Atmospheric Profiler DA10"}
    units = "seconds since 1970-01-01 00:00:00.000"
    outs = {"beta_raw": 1e7}
    meta = {"model": "da10"}

    def fill(self, nc, k):
        nc.createVariable("beta_att", "f4", ("time", "range"))[:] = k * 1e-7


class PollyXt(Adapter):
    domain = "lidar"
    name, multi, keepable = "pollyxt", True, True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import pollyxt2nc

        os.makedirs(folder, exist_ok=True)
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        m = self.gates
        for i, rows in enumerate(files):
            for kind in ("att_bsc", "vol_depol"):
                p = os.path.join(folder, f"2021_03_05_{i:02d}_00_{i}{i}_{kind}.nc")
                n = len(rows)
                with netCDF4.Dataset(p, "w") as nc:
                    nc.createDimension("time", n)
                    nc.createDimension("height", m)
                    t = nc.createVariable("time", "f8", ("time",))
                    t.unit = t.units = "seconds since 1970-01-01 00:00:00 UTC"
                    t[:] = [epoch_seconds(r["t"]) for r in rows]
                    nc.createVariable("height", "f4", ("height",))[:] = 7.5 * np.arange(1, m + 1)
                    k = np.array([r["k"] for r in rows], dtype=float)[:, np.newaxis] * np.ones((n, m))
                    if kind == "att_bsc":
                        v = nc.createVariable("attenuated_backscatter_1064nm", "f4", ("time", "height"))
                        v[:] = ma.array(k * 1e-7, mask=np.array([not r.get("keep", True) for r in rows])[:, np.newaxis] & np.ones((n, m), bool))
                        v.Lidar_calibration_constant_used = 1e14 + i
                        nc.createVariable("SNR_1064nm", "f4", ("time", "height"))[:] = 10
                    else:
                        nc.createVariable("volume_depolarization_ratio_532nm", "f4", ("time", "height"))[:] = k * 1e-3
        self.axes_in = {"range": 7.5 * np.arange(1, m + 1)}
        return pollyxt2nc(folder, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"beta_raw": flat(nc, "beta_raw", 1e7), "beta": flat(nc, "beta", 1e7),
                "depolarisation": flat(nc, "depolarisation", 1e3), "depolarisation_raw": flat(nc, "depolarisation_raw", 1e3)}


# ---- radars -----------------------------------------------------------------
class Mira(Adapter):
    domain = "radar"
    name, multi, minprof, keepable = "mira", True, 2, True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import mira2nc

        m = self.gates
        for p, rows in zip(self.paths(folder, len(files), ".mmclx"), files):
            n = len(rows)
            with netCDF4.Dataset(p, "w") as nc:
                nc.createDimension("time", None)
                nc.createDimension("range", m)
                nc.hrd = "XMT: 35.1E9\nSN: abc\nPOL: 1\n"
                for v, x in (("nfft", 256), ("prf", 5000), ("nave", 200), ("rg0", 3), ("NyquistVelocity", 10.0)):
                    nc.createVariable(v, "f4", ())[:] = x
                nc.createVariable("time", "i4", ("time",))[:] = [int(epoch_seconds(r["t"])) for r in rows]
                nc.createVariable("range", "f4", ("range",))[:] = 30.0 * np.arange(1, m + 1)
                k1 = np.array([r["k"] for r in rows], dtype=float)
                nc.createVariable("tpow", "f4", ("time",))[:] = [10 + r["k"] if r.get("keep", True) else 1 for r in rows]
                nc.createVariable("elv", "f4", ("time",))[:] = 90.0
                nc.createVariable("azi", "f4", ("time",))[:] = 0.0
                k = k1[:, np.newaxis] * np.ones((n, m))
                for v, a in (("Zg", 10 ** (k / 100)), ("VELg", k * 0.01), ("RMSg", k * 0.01),
                             ("LDRg", 10 ** (-k / 100)), ("SNRg", 10 ** (k / 100))):
                    nc.createVariable(v, "f4", ("time", "range"))[:] = a
        ps = sorted(os.path.join(folder, f) for f in os.listdir(folder))
        self.axes_in = {"range": 30.0 * np.arange(1, m + 1), "height": 100 + 30.0 * np.arange(1, m + 1)}
        arg = ps[0] if len(ps) == 1 and rng.random() < 0.5 else ps if rng.random() < 0.5 else folder
        return mira2nc(arg, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"Zh": flat(nc, "Zh", 10), "v": flat(nc, "v", 100), "width": flat(nc, "width", 100),
                "ldr": flat(nc, "ldr", -10), "SNR": flat(nc, "SNR", 10), "tpow": flat(nc, "tpow", 1, -10)}


class MrrPro(Adapter):
    domain = "rain-radar"
    fine = True
    name, multi = "mrr", True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import mrr2nc

        m = self.gates
        for p, rows in zip(self.paths(folder, len(files), ".nc"), files):
            n = len(rows)
            with netCDF4.Dataset(p, "w") as nc:
                nc.createDimension("time", None)
                nc.createDimension("range", m)
                nc.instrument_name = "METEK MRR Pro 1.1.23, METEK Serial Number: 05"
                t = nc.createVariable("time", "f8", ("time",))
                t.units = "seconds since 1970-01-01T00:00:00Z"
                t[:] = [epoch_seconds(r["t"]) for r in rows]
                nc.createVariable("range", "f4", ("range",))[:] = 150 + 30.0 * np.arange(m)
                k1 = np.array([r["k"] for r in rows], dtype=float)
                nc.createVariable("elevation", "f4", ("time",))[:] = 90 - k1 * 0.01
                k = k1[:, np.newaxis] * np.ones((n, m))
                for v, a in (("RR", k * 0.1), ("WIDTH", k * 0.01), ("VEL", k * 0.01), ("LWC", k * 0.01), ("Ze", k * 0.1), ("PIA", k * 0.1)):
                    nc.createVariable(v, "f8", ("time", "range"))[:] = a
        ps = sorted(os.path.join(folder, f) for f in os.listdir(folder))
        self.axes_in = {"range": 30.0 * np.arange(m)}
        arg = ps[0] if len(ps) == 1 and rng.random() < 0.5 else ps if rng.random() < 0.5 else folder
        return mrr2nc(arg, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"Zh": flat(nc, "Zh", 10), "v": flat(nc, "v", -100), "width": flat(nc, "width", 100),
                "rainfall_rate": flat(nc, "rainfall_rate", 3.6e7), "lwc": flat(nc, "lwc", 1e5), "pia": flat(nc, "pia", 10),
                "zenith_angle": flat(nc, "zenith_angle", 100)}


class Basta(Adapter):
    domain = "radar"
    fine = True
    name, single_day = "basta", True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import basta2nc

        m, rows = self.gates, files[0]
        (p,) = self.paths(folder, 1, ".nc")
        n, d = len(rows), self.day(rows)
        with netCDF4.Dataset(p, "w") as nc:
            nc.createDimension("time", n)
            nc.createDimension("range", m)
            day = DATE + datetime.timedelta(days=d)
            nc.setncatts({"year": str(day.year), "month": str(day.month), "day": str(day.day)})
            t = nc.createVariable("time", "f8", ("time",))
            t.units = f"seconds since {day} 00:00:00"
            t[:] = [r["t"] - d * 86400 for r in rows]
            nc.createVariable("range", "f8", ("range",))[:] = 25.0 * np.arange(1, m + 1)
            nc.createVariable("elevation", "f4", ())[:] = 90
            nc.createVariable("ambiguous_velocity", "f4", ())[:] = 9.9
            k1 = np.array([r["k"] for r in rows], dtype=float)
            for v in ("radar_pitch", "radar_yaw", "radar_roll"):
                nc.createVariable(v, "f4", ("time",))[:] = k1 * 0.1
            k = k1[:, np.newaxis] * np.ones((n, m))
            nc.createVariable("reflectivity", "f4", ("time", "range"))[:] = k * 0.1
            nc.createVariable("velocity", "f4", ("time", "range"))[:] = k * 0.01
            nc.createVariable("background_mask", "i1", ("time", "range"))[:] = 1
        self.axes_in = {"range": 25.0 * np.arange(1, m + 1), "height": 100 + 25.0 * np.arange(1, m + 1)}
        return basta2nc(p, out, dict(self.site), date=date, uuid=self.uuid)

    @staticmethod
    def day(rows):
        return rows[0]["t"] // 86400

    def decode(self, nc):
        return {"Zh": flat(nc, "Zh", 10), "v": flat(nc, "v", 100), "radar_pitch": flat(nc, "radar_pitch", 10),
                "radar_yaw": flat(nc, "radar_yaw", 10), "radar_roll": flat(nc, "radar_roll", 10)}


class Chilbolton(Adapter):
    domain = "radar"
    multi, minprof, single_day = True, 2, True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy import instruments

        m = self.gates
        d = Basta.day(files[0])
        day = DATE + datetime.timedelta(days=d)
        for p, rows in zip(self.paths(folder, len(files), ".nc"), files):
            n = len(rows)
            with netCDF4.Dataset(p, "w") as nc:
                nc.createDimension("time", None)
                nc.createDimension("range", m)
                t = nc.createVariable("time", "f4", ("time",))
                t.units = f"seconds since {day} 00:00:00 +00:00"
                t[:] = [r["t"] - d * 86400 for r in rows]
                rv = nc.createVariable("range", "f4", ("range",))
                rv.units = "m"
                rv[:] = self.r0 + 30.0 * np.arange(m)
                k1 = np.array([r["k"] for r in rows], dtype=float)
                for v, x in (("antenna_diameter", 2.4), ("beamwidthV", 0.28), ("beamwidthH", 0.28), ("height", 90.0), ("prf", 5000)):
                    nc.createVariable(v, "f4", ())[:] = x
                nc["height"].units = "m"
                nc.createVariable("elevation", "f4", ("time",))[:] = 90
                nc.createVariable("azimuth", "f4", ("time",))[:] = 0
                k = k1[:, np.newaxis] * np.ones((n, m))
                snr = 100 + k * 0.1
                if self.name == "copernicus":
                    snr[:, -40:] = -100.0  # the top gates hold no signal
                ldr = self.ldr
                for v, a in (("ZED_HC", 160 + k * 0.1), ("VEL_HC", k * 0.01), ("SPW_HC", k * 0.01), (ldr, -10 - k * 0.1), ("SNR_HC", snr)):
                    nc.createVariable(v, "f4", ("time", "range"))[:] = a
                nc["VEL_HC"].folding_velocity = 11.0
        ps = sorted(os.path.join(folder, f) for f in os.listdir(folder))
        arg = ps[0] if len(ps) == 1 and rng.random() < 0.5 else folder
        good = self.good_range()
        self.axes_in = {"range": good, "height": 100 + good}
        return getattr(instruments, f"{self.name}2nc")(arg, out, dict(self.site), date=date, uuid=self.uuid)


class Copernicus(Chilbolton):
    name, ldr, gates, r0 = "copernicus", "LDR_C", 60, 600.0

    def good_range(self):
        r = self.r0 - 720 + 30.0 * np.arange(self.gates)
        return r[r >= 0]

    def decode(self, nc):
        c = 3
        return {"Zh": flat(nc, "Zh", 10, -10.5, col=c), "v": flat(nc, "v", 100, col=c), "width": flat(nc, "width", 100, col=c),
                "ldr": flat(nc, "ldr", -10, 10, col=c), "SNR": flat(nc, "SNR", 10, -100, col=c)}


class Galileo(Chilbolton):
    name, ldr, gates, r0 = "galileo", "LDR_HC", 20, -90.0

    def good_range(self):
        r = self.r0 + 30.0 * np.arange(self.gates)
        return r[r > 0]

    def decode(self, nc):
        return {"Zh": flat(nc, "Zh", 10, -160), "v": flat(nc, "v", 100), "width": flat(nc, "width", 100),
                "ldr": flat(nc, "ldr", -10, 10), "SNR": flat(nc, "SNR", 10, -100)}


class WeatherRadar(Adapter):
    domain = "weather-radar"
    name, multi, max_files = "weather_radar", True, 200

    def files_of(self, rows):
        return [[r] for r in rows]

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import wr2nc

        m = self.gates
        ps = self.paths(folder, len(files), ".h5")
        for p, (r,) in zip(ps, files):
            with netCDF4.Dataset(p, "w") as nc:
                what = nc.createGroup("what")
                what.date, what.time = f"{stamp(r['t']):%Y%m%d}", f"{stamp(r['t']):%H%M%S}"
                nc.createGroup("how").wavelength = 5.3
                ds = nc.createGroup("dataset1")
                w = ds.createGroup("where")
                w.nbins, w.rstart, w.rscale = m, 0.0, 100.0
                h = ds.createGroup("how")
                h.NEZH, h.NI = -40.0, 7.5
                for i, (q, v) in enumerate((("SNR", 100 + r["k"]), ("VRADH", 1000 - r["k"]), ("WRADH", r["k"]),
                                            ("ZDR", r["k"]), ("RHOHV", r["k"]), ("TH", 1)), 1):
                    g = ds.createGroup(f"data{i}")
                    gw = g.createGroup("what")
                    gw.quantity, gw.offset, gw.gain, gw.nodata, gw.undetect = q, 0.0 if q != "VRADH" else -13.0, 0.01, 65535, 0
                    g.createDimension("ray", 3)
                    g.createDimension("bin", m)
                    g.createVariable("data", "u2", ("ray", "bin"))[:] = v
        self.axes_in = {"range": 50 + 100.0 * np.arange(m)}
        return wr2nc(ps, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"SNR": flat(nc, "SNR", 100, -1), "v": flat(nc, "v", -100, 3), "width": flat(nc, "width", 100),
                "zdr": flat(nc, "zdr", 100), "rho_hv": flat(nc, "rho_hv", 100)}


# ---- microwave radiometers ----------------------------------------------------
class Hatpro(Adapter):
    domain = "mwr"
    name, multi = "hatpro", True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import hatpro2nc

        ps = self.paths(folder, len(files), ".LWP")
        iwv = rng.random() < 0.7
        epoch = datetime.datetime(2001, 1, 1)
        for p, rows in zip(ps, files):
            for key, code, suffix in (("lwp", 934501978, ".LWP"), ("iwv", 594811068, ".IWV")):
                if key == "iwv" and not iwv:
                    continue
                with open(p[:-4] + suffix, "wb") as f:
                    f.write(struct.pack("<iiffii", code, len(rows), 0.0, 1.0, 1, 1))
                    for r in rows:
                        v = r["k"] * 10.0 if key == "lwp" else r["k"] * 0.1
                        f.write(struct.pack("<ibff", int(epoch_seconds(r["t"], epoch)), 0, v, 90.0))
        self.axes_in = {}
        uuid, used = hatpro2nc(folder, out, dict(self.site), date=date, uuid=self.uuid)
        return uuid

    def decode(self, nc):
        out = {"lwp": flat(nc, "lwp", 100)}
        if "iwv" in nc.variables:
            out["iwv"] = flat(nc, "iwv", 10)
        return out


class RadiometricsWvr(Adapter):
    domain = "mwr"
    name, multi, keepable = "radiometrics_wvr", True, True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import radiometrics2nc

        ps = self.paths(folder, len(files), ".los")
        for p, rows in zip(ps, files):
            with open(p, "w") as f:
                f.write(" RETRIEVAL COEFFICIENTS:\nVapor  c0 =    .005\n\n")
                f.write("   date     time    ELact  TbSky23  TbSky31  VapCM  LiqCM\n")
                for r in rows:
                    el = 90.0 if r.get("keep", True) else 45.0
                    f.write(f" {stamp(r['t']):%m/%d/%y} {stamp(r['t']):%H:%M:%S} {el:6.2f} 20.1 15.2 {r['k'] * 0.01:.4f} {r['k'] * 0.001:.4f}\n")
        self.axes_in = {}
        return radiometrics2nc(folder if len(ps) > 1 or rng.random() < 0.5 else ps[0], out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"lwp": flat(nc, "lwp", 100), "iwv": flat(nc, "iwv", 10)}


class RadiometricsMp(Adapter):
    domain = "mwr"
    name, multi = "radiometrics_mp", True
    gates = 6

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import radiometrics2nc

        ps = self.paths(folder, len(files), ".csv")
        zs = [f"{0.1 * i:.2f}" for i in range(self.gates)]
        for p, rows in zip(ps, files):
            with open(p, "w") as f:
                f.write("Record,Date/Time,10,Tamb(K),Rh(%),Pres(mb),Tir(K),Rain,Vint(cm),Lqint(mm)," + ",".join(zs) + "\n")
                i = 0
                for r in rows:
                    for sub, val in ((11, 200 + r["k"] * 0.1), (12, r["k"] * 0.1), (13, r["k"] * 0.1)):
                        i += 1
                        f.write(f"{i},{stamp(r['t']):%m/%d/%y %H:%M:%S},{sub},290.0,60.0,1000.0,{200 + r['k'] * 0.1:.1f},N,"
                                f"{r['k'] * 0.01:.2f},{r['k'] * 0.01:.2f}," + ",".join([f"{val:.1f}"] * self.gates) + "\n")
        self.axes_in = {"range": 100.0 * np.arange(self.gates)}
        return radiometrics2nc(folder if len(ps) > 1 or rng.random() < 0.5 else ps[0], out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"lwp": flat(nc, "lwp", 100), "iwv": flat(nc, "iwv", 10), "temperature": flat(nc, "temperature", 10, -200),
                "irt": flat(nc, "irt", 10, -200), "relative_humidity": flat(nc, "relative_humidity", 1000),
                "absolute_humidity": flat(nc, "absolute_humidity", 1e4)}


# ---- disdrometers -------------------------------------------------------------
RD80_MID = [359, 455, 551, 656, 771, 913, 1116, 1331, 1506, 1665, 1912, 2259, 2584, 2869, 3198, 3544, 3916, 4350, 4859, 5373]  # um


class Rd80(Adapter):
    domain = "disdrometer"
    name, multi = "rd80", True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import rd802nc

        ps = self.paths(folder, len(files), ".txt")
        for p, rows in zip(ps, files):
            with open(p, "w") as f:
                f.write("\t".join(["YYYY-MM-DD", "hh:mm:ss", "Status", "Interval [s]"] + [f"n{i}" for i in range(1, 21)]
                                  + ["RI [mm/h]", "RA [mm]", "RAT [mm]"]) + "\n")
                for r in rows:
                    ri = f"{r['k'] * 0.1:.4f}".replace(".", ",")
                    f.write("\t".join([f"{stamp(r['t']):%Y-%m-%d}", f"{stamp(r['t']):%H:%M:%S}", "", str(100 + r["k"])]
                                      + [str(r["k"])] + ["0"] * 19 + [ri, "0,0", "0,0"]) + "\n")
        self.axes_in = {"diameter": RD80_MID, "nbnds": [20, 20]}
        return rd802nc(ps if len(ps) > 1 or rng.random() < 0.5 else ps[0], out, dict(self.site), date=date, uuid=self.uuid)

    def axes_out(self, nc):
        return {"diameter": enc(nc["diameter"][:].astype(float), 1e6), "nbnds": [len(nc["diameter_bnds"][:]), len(nc["diameter_spread"][:])]}

    def decode(self, nc):
        dt = ma.array(nc["interval"][:], dtype=float)
        num = ma.array(nc["number_concentration"][:], dtype=float)
        # n = N * A * dt * v * dD of the first class
        n1 = num[:, 0] * 0.005 * dt * 1.435 * 0.092
        return {"interval": flat(nc, "interval", 1, -100), "rainfall_rate": flat(nc, "rainfall_rate", 3.6e7),
                "n_particles": flat(nc, "n_particles"), "number_concentration": enc(n1)}


def class_axes(mult, *specs):
    """Bin centres x 1e5 (m or m/s) from (start, [(n, width)])."""
    out = {}
    for key, start, parts, scale in specs:
        mids = []
        x = start
        for n, w in parts:
            for _ in range(n):
                mids.append(int(round((x + w / 2) * scale)))
                x += w
        out[key] = mids
    return out


PARSIVEL_AXES = class_axes(1, ("velocity", 0, [(10, .1), (5, .2), (5, .4), (5, .8), (5, 1.6), (2, 3.2)], 1e5),
                           ("diameter", 0, [(10, .125), (5, .25), (5, .5), (5, 1), (5, 2), (2, 3)], 1e2 * 1e3))
THIES_AXES = class_axes(1, ("velocity", 0, [(5, .2), (6, .4), (7, .8), (1, 1), (1, 10)], 1e5),
                        ("diameter", .125, [(3, .125), (6, .25), (13, .5)], 1e5))


class Disdro(Adapter):
    domain = "disdrometer"
    errs = ("DisdrometerDataError", "ValidTimeStampError")

    def axes_out(self, nc):
        return {"velocity": enc(nc["velocity"][:].astype(float), 1e5), "diameter": enc(nc["diameter"][:].astype(float), 1e8),
                "nbnds": [len(nc["velocity_bnds"][:]), len(nc["diameter_bnds"][:]), len(nc["velocity_spread"][:]),
                          len(nc["diameter_spread"][:])]}


class Parsivel(Disdro):
    name, multi, minprof = "parsivel", True, 2
    TELEGRAM = (21, 20, 1, 2, 7, 8, 9, 10, 11, 90, 91, 93)

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import parsivel2nc

        ps = self.paths(folder, len(files), ".txt")
        for p, rows in zip(ps, files):
            with open(p, "w") as f:
                for r in rows:
                    k = r["k"]
                    cells = [f"{stamp(r['t']):%d.%m.%Y}", f"{stamp(r['t']):%H:%M:%S}", f"{k * 0.1:.3f}", f"{k * 0.01:.2f}",
                             f"{k * 0.1:.3f}", str(k), str(k), str(k), str(k)]
                    cells += ["1.000"] * 32 + [f"{k * 0.01:.3f}"] * 32 + [str(k)] * 1024
                    f.write(";".join(cells) + "\n")
        self.axes_in = {**PARSIVEL_AXES, "nbnds": [32, 32, 32, 32]}
        return parsivel2nc(ps, out, dict(self.site), date=date, uuid=self.uuid, telegram=self.TELEGRAM)

    def decode(self, nc):
        raw = ma.array(nc["data_raw"][:], dtype=float)
        raw = raw.reshape(raw.shape[0], -1)
        dr = enc(raw)
        return {"rainfall_rate": flat(nc, "rainfall_rate", 3.6e7), "radar_reflectivity": flat(nc, "radar_reflectivity", 10),
                "visibility": flat(nc, "visibility"), "interval": flat(nc, "interval"), "sig_laser": flat(nc, "sig_laser"),
                "n_particles": flat(nc, "n_particles"), "fall_velocity": flat(nc, "fall_velocity", 100),
                "data_raw": [r[0] if all(x == r[0] for x in r) else -555555 for r in dr]}


class Thies(Disdro):
    name = "thies"

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import thies2nc

        (p,) = self.paths(folder, 1, ".txt")
        with open(p, "w") as f:
            for r in files[0]:
                k = r["k"]
                t = stamp(r["t"])
                cells = ["00", "1025", "2.52", f"{t:%d.%m.%y}", f"{t:%H:%M:%S}", "00", "00", "NP", "000.000", f"{k}", f"{k}", "NP",
                         f"{k * .1:.3f}", f"{k * .1:.3f}", f"{k * .1:.3f}", "0140.83", f"{k}", f"{k * .1:.1f}", f"{k}", "0.0"]
                cells += ["0"] * 16 + [f"{k}", f"{k}", f"{k}", "4011", "1740", f"{k}", "0", "0", f"{k}", "999", "9999", "9999", "9999", f"{k}"]
                cells += ["0.000"] * (79 - len(cells)) + [str(k)] * 440
                cells += ["0"] * (520 - len(cells))
                f.write(";".join(cells[:520]) + ";\n")
        self.axes_in = {**THIES_AXES, "nbnds": [20, 22, 20, 22]}
        return thies2nc(p, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        raw = ma.array(nc["data_raw"][:], dtype=float)
        dr = enc(raw.reshape(raw.shape[0], -1))
        return {"rainfall_rate": flat(nc, "rainfall_rate", 3.6e7), "rainfall_rate_1min_total": flat(nc, "rainfall_rate_1min_total", 3.6e7),
                "radar_reflectivity": flat(nc, "radar_reflectivity", 10), "visibility": flat(nc, "visibility"),
                "synop_WaWa": flat(nc, "synop_WaWa"), "n_particles": flat(nc, "n_particles"), "T_interior": flat(nc, "T_interior", 1, -273.15),
                "data_raw": [r[0] if all(x == r[0] for x in r) else -555555 for r in dr]}


# ---- rain gauges and weather stations -----------------------------------------
class Fd12p(Adapter):
    domain = "weather-station"
    name, keepable = "fd12p", True

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import fd12p2nc

        (p,) = self.paths(folder, 1, ".dat")
        rawgen.fd12p(p, [{"t": stamp(r["t"]), "vis": r["k"], "rate": r["k"] * 0.1, "wawa": r["k"], "amount": 1.0, "snow": 0}
                         if r.get("keep", True) else
                         {"t": stamp(r["t"]), "vis": None, "rate": None, "wawa": None, "amount": None, "snow": None}
                         for r in files[0]])
        return fd12p2nc(p, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"visibility": flat(nc, "visibility"), "precipitation_rate": flat(nc, "precipitation_rate", 3.6e7), "synop_WaWa": flat(nc, "synop_WaWa")}


class RainE(Adapter):
    domain = "rain-gauge"
    name = "rain_e_h3"

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import rain_e_h32nc

        (p,) = self.paths(folder, 1, ".csv")
        rawgen.rain_e_h3(p, [{"t": stamp(r["t"]), "rate": r["k"] * 0.1, "amount": 1.0} for r in files[0]], rng.choice([16, 22]))
        return rain_e_h32nc(p, out, dict(self.site), date=date, uuid=self.uuid)

    def decode(self, nc):
        return {"rainfall_rate": flat(nc, "rainfall_rate", 3.6e7)}


class WeatherStation(Adapter):
    domain = "weather-station"
    def __init__(self, site):
        self.multi = site in ("Palaiseau", "Bucharest", "Maïdo Observatory", "Kenttärova", "L'Aquila", "Limassol")
        self.station = site
        self.name = "ws " + site
        self.step = 60 if site == "Hyytiälä" else 1
        self.writer = rawgen.WS_SITES[site][0]
        # pressure units of the raw file differ; all are markers around a base
        self.has_wd = site not in ("Limassol", "Galați")
        self.has_ws = site != "Galați"

    def convert(self, files, folder, out, date, rng):
        from cloudnetpy.instruments import ws2nc

        ps = self.paths(folder, len(files), ".txt")
        for p, rows in zip(ps, files):
            self.writer(p, [{"t": stamp(r["t"]), "ta": r["k"] * 0.1, "ws": r["k"] * 0.1, "wd": float(r["k"]), "rh": r["k"] * 0.1,
                             "rate": 0.0, "amount": 1.0} for r in rows])
        return ws2nc(ps if len(ps) > 1 else ps[0], out, {**self.site, "name": self.station}, date=date, uuid=self.uuid)

    def decode(self, nc):
        out = {"air_temperature": flat(nc, "air_temperature", 10, -273.15), "relative_humidity": flat(nc, "relative_humidity", 1000)}
        if self.has_ws:
            out["wind_speed"] = flat(nc, "wind_speed", 10)
        if self.has_wd:
            out["wind_direction"] = flat(nc, "wind_direction")
        return out


def all_adapters():
    return [Chm15k(), Cl61(), Da10(), PollyXt(), Mira(), MrrPro(), Basta(), Copernicus(), Galileo(), WeatherRadar(), Hatpro(),
            RadiometricsWvr(), RadiometricsMp(), Rd80(), Parsivel(), Thies(), Fd12p(), RainE()] + [
            WeatherStation(s) for s in rawgen.WS_SITES]
