"""Writes synthetic categorize files for the product generators.

Every array is given by the caller; what is not given gets a plain default, so
that a check states only what its property talks about.
"""
from __future__ import annotations

import pathlib

import netCDF4
import numpy as np
from numpy import ma

T, TH, MT = ("time",), ("time", "height"), ("model_time", "model_height")
UNITS = {"height": "m", "altitude": "m", "latitude": "degree_north", "longitude": "degree_east", "Z": "dBZ", "lwp": "kg m-2",
         "rainfall_rate": "m s-1", "radar_frequency": "GHz", "temperature": "K", "pressure": "Pa", "model_height": "m",
         "time": "hours since 2022-05-07 00:00:00 +00:00"}
DIMS = {"time": T, "height": ("height",), "model_time": ("model_time",), "model_height": ("model_height",), "temperature": MT, "pressure": MT,
        "uwind": MT, "vwind": MT, "lwp": T, "lwp_error": T, "rain_detected": T, "rainfall_rate": T, "Z_sensitivity": ("height",)}
SCALAR = ("altitude", "latitude", "longitude", "radar_frequency", "Z_bias", "beta_error", "beta_bias", "Z_error_scalar", "lidar_wavelength")
INT = {"category_bits": "i4", "quality_bits": "i4", "rain_detected": "i4"}


def write(path, cat, qua, *, height=None, altitude=0.0, hours=None, attrs=None, drop=(), **data):
    """cat, qua: integer arrays time x height; other variables by keyword."""
    cat = np.asarray(cat)
    n, m = cat.shape
    height = np.asarray(height if height is not None else altitude + 100.0 * np.arange(1, m + 1), dtype=float)
    hours = np.asarray(hours if hours is not None else np.arange(n) * (23.9 / max(n, 1)), dtype=float)
    mh = data.pop("model_height", np.array([height.min() - 500.0, height.max() + 500.0]))
    mt = data.pop("model_time", np.array([0.0, 24.0]))
    shape = (len(mt), len(mh))
    var = {
        "time": hours, "height": height, "altitude": altitude, "latitude": 60.5, "longitude": 25.25, "radar_frequency": 35.5,
        "category_bits": cat, "quality_bits": np.asarray(qua), "rain_detected": np.zeros(n, int),
        "model_time": mt, "model_height": mh, "temperature": np.full(shape, 270.0), "pressure": np.full(shape, 80000.0),
    }
    var.update(data)
    pathlib.Path(path).unlink(missing_ok=True)  # a failed call may still hold the previous one open
    with netCDF4.Dataset(str(path), "w", format="NETCDF4_CLASSIC") as nc:
        for name, size in (("time", n), ("height", m), ("model_time", len(mt)), ("model_height", len(mh))):
            nc.createDimension(name, size)
        for key, value in var.items():
            if key in drop or value is None:
                continue
            value = ma.array(value)
            dims = () if value.ndim == 0 else DIMS.get(key, TH if value.ndim == 2 else T)
            kind = INT.get(key, "f8" if key in ("time", "model_time") else "f4")
            v = nc.createVariable(key, kind, dims, fill_value=netCDF4.default_fillvals[kind])
            v[:] = value
            if key in UNITS:
                v.units = UNITS[key]
        nc.cloudnet_file_type = "categorize"
        nc.location = "Kumpula"
        nc.year, nc.month, nc.day = "2022", "05", "07"
        nc.file_uuid = "11111111-2222-4333-8444-555555555555"
        nc.history = "2022-05-08 01:02:03 +00:00 - categorize file created"
        nc.source = "RPG-Radiometer Physics RPG-FMCW-94"
        for k, v in (attrs or {}).items():
            nc.setncattr(k, v)
    return str(path)


def read(path, *names):
    """{name: array} of a product file; absent variables are None."""
    with netCDF4.Dataset(str(path)) as nc:
        return {k: (ma.array(nc[k][:]) if k in nc.variables else None) for k in names}
