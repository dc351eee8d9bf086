import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import ref
from ..core import Sub, check, quiet, sut

RULE = (
    "valid signals are non-trivial when some unit has to be converted; invalid "
    "ones always are; shapes, units and values of what is built are compared "
    "with what was asked for"
)

CLASSES = {
    "Signal": ("", ["", "", "percent", None]),
    "Sed": ("W/(m2 um)", ["W/(m2 um)", "W/(m2 nm)", "erg/(s cm2 AA)", "kW/(m2 um)", None]),
    "Radiance": ("W/(m2 um sr)", ["W/(m2 um sr)", "W/(m2 nm sr)", "erg/(s cm2 AA arcsec2)", None]),
    "CountsPerSeconds": ("ct/s", ["ct/s", "ct/h", "kct/s", None]),
    "CustomSignal": (None, ["K", "J", "kJ", "erg", None]),
}
WL = ["um", "um", "nm", "m", "AA", None]
TIME = ["h", "s", "day", "min", None]
BAD = {"wl": ["s", "K", "W/m2"], "data": ["s", "kg", "m"], "time": ["um", "K"]}


@st.composite
def case(draw, tier):
    k = draw(st.sampled_from(sorted(CLASSES)))
    n = draw(st.integers(1, 8))
    c = {
        "class": k,
        "wl": sorted(draw(st.lists(P.fl(0.1, 20.0, 6), min_size=n, max_size=n, unique=True))),
        "wl_unit": draw(st.sampled_from(WL)),
        "as": draw(st.sampled_from(["array", "array", "list", "column"])),
        "unit": draw(st.sampled_from(CLASSES[k][1])),
        "target": draw(st.sampled_from(["J", "K"])) if k == "CustomSignal" else None,
        "time": None,
        "bad": draw(st.sampled_from([None, None, None, "wl", "data", "time", "rows", "columns", "times", "axes", "wl axes", "time axes", "conflict"])),
    }
    t = draw(st.integers(0, 3))
    if t:
        c["time"] = [float(i) for i in range(1, t + 1)] if draw(st.booleans()) else [0.0] * t
        c["time_unit"] = draw(st.sampled_from(TIME))
        shape = (n, t)
    else:
        shape = (n,)
    c["shape"] = list(shape)
    size = int(np.prod(shape))
    c["data"] = draw(st.lists(P.fl(-10.0, 1e4, 6), min_size=size, max_size=size))
    if k == "CustomSignal" and c["unit"] not in ({"J": ["J", "kJ", "erg"], "K": ["K"]}[c["target"]] + [None]):
        c["unit"] = c["target"]
    return c


def wrap(v, unit, how):
    import astropy.units as u
    from astropy.table import Column

    if unit is None:
        return v.tolist() if how == "list" else v
    if how == "column" and v.ndim == 1:
        return Column(v, unit=unit)
    return v * u.Unit(unit)


def built(c):
    """-> callable building it, expected (wl, data, time) or None if refused"""
    import astropy.units as u
    from exorad.models import signal as S

    kls = getattr(S, c["class"])
    target = u.Unit(c["target"] if c["target"] else CLASSES[c["class"]][0])
    wl, data = np.array(c["wl"]), np.array(c["data"]).reshape(c["shape"])
    wu, du, tu = c["wl_unit"], c["unit"], c.get("time_unit")
    t = None if c["time"] is None else np.array(c["time"])
    bad = c["bad"]
    err = None
    if bad == "wl":
        wu, err = "s", "unit"
    elif bad == "data":
        du, err = "kg", "unit"
    elif bad == "time":
        if t is None:
            t, data = np.array([0.0]), data.reshape(-1, 1)
        tu, err = "K", "unit"
    elif bad == "rows":
        data = np.concatenate([data, data[:1]])
        err = "size"
    elif bad == "columns":
        t = np.arange(1.0, (data.shape[1] if data.ndim == 2 else 1) + 2)
        if data.ndim == 1:
            data = data.reshape(-1, 1)
        err = "size"
    elif bad == "times":
        # one value per wavelength for a grid of more than one time
        data, t = data.reshape(len(wl), -1)[:, 0], np.arange(1.0, 3.0 + len(wl) % 2)
        err = "size"
    elif bad == "axes":
        data = np.stack([data.reshape(len(wl), -1)] * 2, axis=2)
        err = "size"
    elif bad == "wl axes":
        wl = wl[:, None]
        err = "size"
    elif bad == "time axes":
        t = (np.array([0.0]) if t is None else t)[:, None]
        if data.ndim == 1:
            data = data.reshape(-1, 1)
        err = "size"
    if c["class"] == "Signal" and du is None and c["as"] == "list":
        pass
    W, D = wrap(wl, wu, c["as"]), wrap(data, du, c["as"])
    kw = {}
    if t is not None:
        kw["time_grid"] = wrap(t, tu, c["as"])
    args = (W, D) + ((target,) if c["target"] else ())
    f = lambda: kls(*args, **kw)
    conv = lambda v, unit, to: v if unit is None else (v * u.Unit(unit)).to(u.Unit(to)).value
    exp = None
    if err is None:
        exp = (
            conv(wl, wu, "um"), conv(data, du, target),
            conv(np.array([0.0]) if t is None else t, tu, "hr"),
        )
    return f, exp, err, target


def run(c):
    import astropy.units as u

    f, exp, err, target = built(c)
    if err:
        try:
            with quiet():
                f()
        except (u.UnitConversionError, u.UnitTypeError) as e:
            check(err == "unit", "%s refused with %s", c["bad"], type(e).__name__)
        except ValueError:
            check(err == "size", "%s refused as a mismatch of sizes", c["bad"])
        else:
            check(False, "a %s with wrong %s is accepted", c["class"], c["bad"])
        return {"nontrivial": True, "labels": ["wrong " + c["bad"]]}
    s = sut("building a %s" % c["class"], f)
    for name, got, want, un in (
        ("wavelength grid", s.wl_grid, exp[0], u.um),
        ("data", s.data, exp[1], target), ("time grid", s.time_grid, exp[2], u.hr),
    ):
        check(getattr(got, "unit", None) == un, "%s in %s instead of %s", name, getattr(got, "unit", None), un)
        check(got.shape == want.shape, "%s of shape %s instead of %s", name, got.shape, want.shape)
        check(np.allclose(got.value, want, rtol=1e-12, atol=0), "%s is %s instead of %s", name, got.value, want)
    if np.all(exp[2] == 0):
        check(sut("asking for the time dependence", lambda: s.time_dependent) is False, "a signal without times depends on time")
    else:
        try:
            r = s.time_dependent
        except NotImplementedError:
            r = True
        check(r, "a signal over %s h does not depend on time", exp[2])
    # as a dictionary
    d = sut("a signal as a dictionary", s.to_dict)
    for k, v in (("wl_grid", s.wl_grid), ("data", s.data), ("time_grid", s.time_grid)):
        check(k in d, "no %s in the dictionary", k)
        check(np.array_equal(d[k]["value"], v.value), "%s changes as a dictionary", k)
        check(u.Unit(d[k]["unit"]) == v.unit, "unit of %s is %r as a dictionary", k, d[k]["unit"])
    conv = c["wl_unit"] not in (None, "um") or c["unit"] not in (None, str(target))
    return {"nontrivial": conv, "labels": [c["class"]]}


SUBS = [Sub("signals", lambda tier: case(tier), run, 5000, 50000)]
