"""The look-up table of the drizzle retrieval is not part of the checkout: within `table(path)`, code that looks for
mie_lu_tables.nc finds `path`, however it gets there."""

import os
from contextlib import ExitStack, contextmanager
from unittest import mock

import netCDF4

REAL = netCDF4.Dataset
NOW = []


class Any(type(REAL)):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL)


class Redirected(REAL, metaclass=Any):
    def __init__(self, filename, *a, **kw):
        if NOW and os.path.basename(os.fspath(filename)) == "mie_lu_tables.nc":
            filename = NOW[-1]
        super().__init__(filename, *a, **kw)


@contextmanager
def table(path):
    from cloudnetpy.products import drizzle_tools

    NOW.append(str(path))
    try:
        with ExitStack() as stack:
            stack.enter_context(mock.patch.object(netCDF4, "Dataset", Redirected))
            if getattr(drizzle_tools, "Dataset", None) is REAL:
                stack.enter_context(mock.patch.object(drizzle_tools, "Dataset", Redirected))
            yield
    finally:
        NOW.pop()
