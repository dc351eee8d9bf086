import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import ref
from ..core import Reject, Sub, check, sut

RULE = (
    "a resampling is non-trivial when some value of the new grid is not zero; "
    "model cases are compared with the reference, sample by sample; the other "
    "cases check relations (order of samples, linearity, units, inputs kept)"
)
ASSUMPTIONS = [
    "the new grid is increasing and without duplicates",
    "cases where averaging or interpolating is a matter of rounding are left out",
]


@st.composite
def grid(draw, lo, hi, n):
    kind = draw(st.sampled_from(["lin", "log", "random"]))
    if n == 1:
        return [P.sig(draw(P.fl(lo, hi, 6)), 8)]
    if kind == "random":
        w = draw(st.lists(st.integers(1, 30), min_size=n - 1, max_size=n - 1))
        t = np.concatenate([[0], np.cumsum(w)]) / float(sum(w))
        x = lo + (hi - lo) * t
    elif kind == "lin":
        x = np.linspace(lo, hi, n)
    else:
        x = np.logspace(np.log10(lo), np.log10(hi), n)
    x = [P.sig(v, 9) for v in x]
    if len(set(x)) < n:
        x = [P.sig(lo + (hi - lo) * i / (n - 1), 12) for i in range(n)]
    return x


@st.composite
def case(draw, tier):
    lo = draw(P.fl(0.3, 8.0, 5))
    hi = P.sig(lo * draw(P.fl(1.02, 6.0, 4)))
    regime = draw(st.sampled_from(["up", "down", "any"]))
    big = draw(st.integers(60, 400))
    n, m = {"down": (draw(st.integers(2, 20)), big),
            "up": (draw(st.integers(1, 150)), draw(st.integers(2, 12))),
            "any": (draw(st.integers(1, 60)), draw(st.integers(2, 120)))}[regime]
    x = draw(grid(lo, hi, n))
    a, b = lo * draw(P.fl(0.5, 1.3, 4)), hi * draw(P.fl(0.8, 1.6, 4))
    if b <= a:
        b = a * 1.5
    xp = draw(grid(a, b, m))
    fam = draw(st.sampled_from(["random", "wave", "step"]))
    if fam == "random" and m <= 40:
        fp = draw(st.lists(P.fl(-5.0, 50.0, 5), min_size=m, max_size=m))
    else:
        k, ph = draw(P.fl(0.5, 20.0, 3)), draw(P.fl(0.0, 6.0, 3))
        s = np.sin(k * (np.array(xp) - a) / (b - a) * 6 + ph)
        fp = [P.sig(3 + 2 * v, 8) if fam == "wave" else float(v > 0) + 0.5 for v in s]
    # shuffled, duplicated, undefined samples
    order = draw(st.sampled_from(["up", "up", "down", "mixed"]))
    idx = list(range(m))
    if order == "down":
        idx = idx[::-1]
    elif order == "mixed":
        idx = idx[::3] + idx[2::3] + idx[1::3]
    xp, fp = [xp[i] for i in idx], [fp[i] for i in idx]
    same = draw(st.integers(0, 3)) == 3
    if same:
        # the same sample twice, with the same value
        j = draw(st.integers(0, m - 1))
        k = draw(st.integers(0, m))
        xp.insert(k, xp[j]); fp.insert(k, fp[j if k > j else j])
    nan = draw(st.integers(0, 4)) == 4
    return {
        # what is undefined in the new grid is left out
        "xnan": draw(st.sampled_from([None, None, None, 0, 1, -1, 5])),
        "x": x, "xp": xp, "fp": fp,
        "nan": draw(st.integers(0, len(xp))) if nan else None,
        "unit": draw(st.sampled_from(["um", "um", "nm", "m"])),
        "funit": draw(st.sampled_from(["", "W/(m2 um)", "ct/s", "W/(m2 um sr)"])),
    }


def fix_dup(xp, fp):
    """a duplicated sample carries one value: keep it consistent"""
    d = {}
    for a, b in zip(xp, fp):
        d.setdefault(a, b)
    return [d[a] for a in xp]


def arrays(c):
    import astropy.units as u

    xp, fp = list(c["xp"]), fix_dup(c["xp"], c["fp"])
    if c["nan"] is not None:
        xp.insert(c["nan"], float("nan"))
        fp.insert(c["nan"], 77.0)
    U, F = u.Unit(c["unit"]), u.Unit(c["funit"])
    return np.array(c["x"]) * U, np.array(xp) * U, np.array(fp) * F


def call(what, x, xp, fp, xnan=None):
    from exorad.utils.exolib import rebin

    keep = [v.copy() for v in (x, xp, fp)]
    if xnan is not None:
        k = min(max(xnan, 0), x.size) if xnan >= 0 else x.size
        y = np.insert(x.value, k, np.nan) * x.unit
        out = sut(what, lambda: rebin(y, xp, fp))
        check(np.isnan(y.value[k]) and y.size == x.size + 1, "%s changes the new grid it is given", what)
    else:
        out = sut(what, lambda: rebin(x, xp, fp))
    for a, b, n in zip(keep, (x, xp, fp), ("new grid", "grid", "function")):
        check(
            np.array_equal(a.value, b.value, equal_nan=True) and a.unit == b.unit,
            "%s changes the %s it is given", what, n,
        )
    gx, gy = out
    check(np.array_equal(gx.value, x.value) and gx.unit == x.unit, "%s returns another grid", what)
    check(gy.unit == fp.unit, "%s gives %s instead of %s", what, gy.unit, fp.unit)
    check(gy.shape == x.shape, "%s gives %s values instead of %s", what, gy.shape, x.shape)
    return np.where(np.isnan(gy.value), 0.0, gy.value)


def model_run(c):
    x, xp, fp = arrays(c)
    want, binned = ref.rebin(x.value, xp.value, fp.value, mode=True)
    got = call("resampling", x, xp, fp, c["xnan"])
    top = np.abs(fp.value).max()
    ref.compare("resampled function", got, want, 1e-7, scale=top)
    return {"nontrivial": bool((want != 0).any()),
            "labels": ["averaged" if binned else "interpolated",
                       "with undefined samples" if c["nan"] is not None else "defined"]}


def relations_run(c):
    import astropy.units as u
    from exorad.models.signal import CustomSignal

    x, xp, fp = arrays(c)
    want, binned = ref.rebin(x.value, xp.value, fp.value, mode=True)
    a = call("resampling", x, xp, fp)
    top = np.abs(fp.value).max()
    i = np.argsort(np.arange(xp.size) * 7919 % (xp.size * 31 + 1), kind="stable")
    b = call("resampling shuffled samples", x, xp[i], fp[i])
    ref.compare("shuffled samples", b, a, 1e-9, scale=top)
    d = call("resampling a linear function of the samples", x, xp, fp * 3)
    ref.compare("three times the function", d, 3 * a, 1e-9, scale=top)
    # never outside the range of what it averages or interpolates
    check(a.max() <= max(fp.value.max(), 0) + 1e-9 * top and a.min() >= min(fp.value.min(), 0) - 1e-9 * top,
          "values between %r and %r from samples between %r and %r", a.min(), a.max(), fp.value.min(), fp.value.max())
    # the same through a Signal, whatever the unit of the wavelengths is
    ok = ~np.isnan(xp.value)
    s = sut("building a signal", lambda: CustomSignal(xp[ok], fp[ok], fp.unit))
    g = x.to(u.um)
    sut("resampling a signal", lambda: s.spectral_rebin(g))
    check(np.array_equal(s.wl_grid.to(u.um).value, g.value), "the signal is on another grid")
    check(s.data.unit == fp.unit, "signal in %s instead of %s", s.data.unit, fp.unit)
    check(not np.isnan(s.data.value).any(), "undefined values in a resampled signal")
    ref.compare("resampled signal", s.data.value, np.where(np.isnan(a), 0, a), 1e-7, scale=top)
    return {"nontrivial": bool((want != 0).any()), "labels": ["averaged" if binned else "interpolated"]}


def units_run(c):
    """grids in different units are refused rather than mixed"""
    import astropy.units as u
    from exorad.utils.exolib import rebin

    x, xp, fp = arrays(c)
    other = [v for v in ("um", "nm", "m") if v != c["unit"]][0]
    try:
        from ..core import quiet

        with quiet():
            gx, gy = rebin(x, xp.to(u.Unit(other)), fp)
    except Exception:
        return {"nontrivial": True, "labels": ["refused"]}
    a = call("resampling", x, xp, fp)
    ref.compare("grids in different units", np.nan_to_num(gy.value), a, 1e-6, scale=np.abs(fp.value).max())
    return {"nontrivial": True, "labels": ["converted"]}


SUBS = [
    Sub("model", lambda tier: case(tier), model_run, 3000, 30000),
    Sub("relations", lambda tier: case(tier), relations_run, 1600, 15000),
    Sub("units", lambda tier: case(tier), units_run, 160, 2000),
]
