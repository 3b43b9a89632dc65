"""Writes synthetic inputs of the model evaluation and reads its output."""
from __future__ import annotations

import pathlib

import netCDF4
import numpy as np
from numpy import ma

FILLS = {"f4": netCDF4.default_fillvals["f4"], "f8": netCDF4.default_fillvals["f8"], "i4": netCDF4.default_fillvals["i4"]}


def _globals(nc, date, location, kind, attrs):
    nc.year, nc.month, nc.day = date
    nc.location = location
    nc.cloudnet_file_type = kind
    nc.file_uuid = "11111111-2222-4333-8444-555555555555" if kind == "model" else "99999999-2222-4333-8444-555555555555"
    nc.history = f"{'-'.join(date)} 01:02:03 +00:00 - {kind} file created"
    nc.source = "Some source"
    for k, v in (attrs or {}).items():
        nc.setncattr(k, v)


def write_model(path, *, hours, height, resolution=9.0, kind="f4", date=("2022", "05", "07"), location="Kumpula", drop=(), level_dim="level", attrs=None, units="m", **data):
    """height: time x level above ground.  Further variables by keyword (time x level, time or single numbers)."""
    height = np.asarray(height, dtype=float)
    n, m = height.shape
    shape = (n, m)
    var = {"time": np.asarray(hours, float), "level": np.arange(m), "latitude": 60.5, "longitude": 25.25, "horizontal_resolution": resolution, "height": height,
           "forecast_time": np.asarray(hours, float) + 12, "cloud_fraction": np.full(shape, 0.5), "qi": np.full(shape, 1e-5), "ql": np.full(shape, 1e-5),
           "temperature": np.full(shape, 270.0), "pressure": np.full(shape, 80000.0), "uwind": np.full(shape, 3.0), "vwind": np.full(shape, 4.0)}
    var.update(data)
    pathlib.Path(path).unlink(missing_ok=True)
    with netCDF4.Dataset(str(path), "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", n)
        nc.createDimension(level_dim, m)
        for key, value in var.items():
            if key in drop or value is None:
                continue
            value = ma.array(value)
            if value.ndim == 1:
                dims = (level_dim,) if key == "level" else ("time",)
            else:
                dims = () if value.ndim == 0 else ("time", level_dim)
            typ = "f8" if key in ("time", "forecast_time") else kind
            v = nc.createVariable(key, typ, dims, fill_value=FILLS[typ])
            v[:] = value
            if key in ("height", "sfc_height"):
                v.units = units
        _globals(nc, date, location, "model", attrs)


def write_obs(path, product, *, hours, height, date=("2022", "05", "07"), location="Kumpula", altitude=0.0, drop=(), attrs=None, kind="f4", **data):
    """height above mean sea level.  cf: category_bits; iwc: iwc, iwc_retrieval_status; lwc: lwc."""
    n, m = len(hours), len(height)
    var = {"time": np.asarray(hours, float), "height": np.asarray(height, float), "altitude": altitude, "latitude": 60.5, "longitude": 25.25}
    if product == "cf":
        var["quality_bits"] = np.zeros((n, m), int)
        var["radar_frequency"] = 35.5
        var["Z_sensitivity"] = np.full(m, -40.0)
    var.update(data)
    pathlib.Path(path).unlink(missing_ok=True)
    with netCDF4.Dataset(str(path), "w", format="NETCDF4_CLASSIC") as nc:
        nc.createDimension("time", n)
        nc.createDimension("height", m)
        for key, value in var.items():
            if key in drop or value is None:
                continue
            value = ma.array(value)
            dims = ("time", "height") if value.ndim == 2 else () if value.ndim == 0 else ("height",) if key in ("height", "Z_sensitivity") else ("time",)
            typ = "i4" if key in ("category_bits", "quality_bits", "iwc_retrieval_status") else "f8" if key == "time" else kind
            v = nc.createVariable(key, typ, dims, fill_value=FILLS[typ])
            v[:] = value
            if key in ("height", "altitude"):
                v.units = "m"
        _globals(nc, date, location, "categorize" if product == "cf" else product, attrs)


def read(path, *names):
    with netCDF4.Dataset(str(path)) as nc:
        return {k: ma.array(nc[k][:]) for k in (names or nc.variables) if k in nc.variables}
