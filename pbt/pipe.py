"""Driving the package through its public tasks on generated inputs."""
import contextlib
import os
import shutil

import numpy as np

from . import env, payload as P
from .core import check, quiet, sut


@contextlib.contextmanager
def folder():
    """an empty folder, the same one for every case of a process: nothing may
    be remembered of what its files once held"""
    _depth.append(0)
    d = os.path.join(env.scratch(), "case%d_%d" % (os.getpid(), len(_depth)))
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        yield d
    finally:
        _depth.pop()
        shutil.rmtree(d, ignore_errors=True)


_depth = []


def tasks():
    import exorad.tasks as T

    return T


def prepare(path, output=None):
    T = tasks()
    return sut(
        "preparing the payload",
        lambda: T.PreparePayload()(payload_file=path, output=output),
    )


def build(spec, d, output=None, **kw):
    """write the payload files and build it"""
    return prepare(P.write(spec, d, **kw), output)


def load_targets(path):
    T = tasks()
    return sut(
        "loading the target list", lambda: T.LoadTargetList()(target_list=path)
    )


def make_targets(tgts, d, coords=True, name="targets.csv"):
    return load_targets(P.write_targets(tgts, d, name=name, coords=coords)).target


def observe(target, built):
    T = tasks()
    payload, channels, wl_range = built
    return sut(
        "observing the target",
        lambda: T.ObserveTarget()(
            target=target, payload=payload, channels=channels, wl_range=wl_range
        ),
    )


def rows(table, ch):
    """table rows of one channel, in order"""
    return table[np.array([str(c) == ch for c in table["chName"]])]


def val(col, unit):
    """plain array of a column in the given unit ('' for dimensionless)"""
    import astropy.units as u

    un = getattr(col, "unit", None)
    if un is None:
        check(unit in ("", None), "column without unit, expected %s", unit)
        return np.array(col, float)
    try:
        return u.Quantity(col).to(u.Unit(unit)).value.astype(float)
    except u.UnitConversionError:
        check(False, "column in %s, expected %s", un, unit)


def column(table, name, unit):
    check(name in table.colnames, "no column %r in %s", name, table.colnames)
    try:
        return val(table[name], unit)
    except Exception as e:
        if type(e).__name__ == "Violation":
            check(False, "column %r: %s", name, e)
        raise


CT = "count/s"


def tables_equal(a, b, what, rtol=0.0):
    """same columns, units and values (nan = nan)"""
    check(
        list(a.colnames) == list(b.colnames),
        "%s: columns %s instead of %s", what, list(b.colnames), list(a.colnames),
    )
    check(len(a) == len(b), "%s: %d rows instead of %d", what, len(b), len(a))
    for c in a.colnames:
        x, y = a[c], b[c]
        if x.dtype.kind in "SUO":
            check([str(v) for v in x] == [str(v) for v in y], "%s: column %r differs", what, c)
            continue
        ux, uy = getattr(x, "unit", None), getattr(y, "unit", None)
        check(str(ux) == str(uy) or ux == uy, "%s: column %r in %s instead of %s", what, c, uy, ux)
        x, y = np.asarray(x, float), np.asarray(y, float)
        if rtol == 0.0:
            same = np.array_equal(x, y, equal_nan=True)
        else:
            with np.errstate(invalid="ignore"):
                top = np.nanmax(np.abs(x)) if np.any(np.isfinite(x)) else 0.0
                same = np.all(
                    (np.isnan(x) & np.isnan(y))
                    | (np.abs(x - y) <= rtol * np.abs(x) + 1e-13 * top)
                    | (x == y)
                )
        check(bool(same), "%s: column %r is %s instead of %s", what, c, y[:6].tolist(), x[:6].tolist())
