"""Reference of the detector timing and of the noise budget of one channel."""
import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, check
from .common import CT

RT = "count hour(1/2) / s"


def timing(det, max_signal):
    """saturation time per bin, frame time"""
    with np.errstate(divide="ignore"):
        sat = det["well_depth"] / max_signal
    ft = det["frame_time"] if "frame_time" in det else det["f_well_depth"] * sat.min()
    return sat, ft


def reads(det, ft):
    n = ft * det["freqNDR"]
    if not np.isfinite(n):
        raise Reject("no light at all on the channel")
    d = abs(n - round(n)) / max(1, n)
    if d <= 1e-13:
        # a whole number of reads
        return [max(2.0, float(round(n)))]
    if n > 1.5 and d <= 1e-9:
        return sorted({max(2.0, float(round(n))), max(2.0, float(round(n)) - 1)})
    return [max(2.0, float(np.floor(n)))]


def gains(det, n):
    m = det.get("multiaccumM", 1)
    return 12 * (n - 1) / (n * n + n) / m, 6 * (n * n + 1) / (5 * (n * n + n))


def custom(n, wl):
    """relative noise in h^1/2 of one customNoise"""
    if "data" in n:
        d = n["data"]
        k = [c for c in d if c.lower() != "wavelength"][0]
        w = np.array(ref.col(d, "Wavelength"))
        for lim in (w.min(), w.max()):
            if np.any(ref.undecided(wl, lim)):
                raise Reject("bin centre on the edge of a table")
        return k, ref.rebin(wl, w, np.array(d[k]))
    return n["name"], n["ppm"] * 1e-6 * np.ones(wl.size)


def budget(det, noisex, customs, wl, window, signals, star, ft, n):
    """column -> values"""
    rg, sg = gains(det, n)
    out, var = {}, np.zeros(wl.size)
    for k, s in signals.items():
        v = sg * s / 3600
        out[k + "_noise"] = np.sqrt(v)
        var = var + v
    dark = sg * window * det["dark_current"] / 3600
    read = rg * det["read_noise"] ** 2 * window / ft / 3600
    out["darkcurrent_noise"] = np.sqrt(dark)
    out["read_noise"] = np.sqrt(read)
    with np.errstate(divide="ignore", invalid="ignore"):
        tot = (dark + (1 + noisex) * var + read) / star**2
    tot = np.where(star == 0, np.nan, tot)
    for c in customs:
        k, v = custom(c, wl)
        # those with the same name are reported together
        out[k + "_noise"] = np.hypot(out.get(k + "_noise", 0.0), v)
        tot = tot + v**2
    out["total_noise"] = np.sqrt(tot)
    return out


def is_signal(column):
    """is it the light of a source, whatever the name of the source is?"""
    return column.endswith(("signal", "signal_inAperture"))


UNITS = {"total_noise": "hour(1/2)"}


def judge(table, det, noisex, customs, name):
    """table: rows of one channel, with the inputs and the noise columns"""
    import astropy.units as u

    wl = pipe.column(table, "Wavelength", "um")
    window = pipe.val(u.Quantity(table["WindowSize"]).value, "")
    sig = [c for c in table.colnames if is_signal(c)]
    signals = {c: pipe.column(table, c, CT) for c in sig}
    ft = pipe.column(table, "frameTime", "s")
    check(np.all(ft == ft[0]), "%s: several frame times", name)
    cust = {custom(c, wl)[0] + "_noise" for c in customs}
    wants = [
        budget(det, noisex, customs, wl, window, signals,
               signals["star_signal_inAperture"], ft[0], n)
        for n in reads(det, ft[0])
    ]
    for k in wants[0]:
        unit = "hour(1/2)" if k in cust else UNITS.get(k, RT)
        got = pipe.column(table, k, unit)
        if k in cust:
            got = np.abs(got)
        ref.compare(
            "%s in %s" % (k, name), got,
            [ref.Either(w[k][i] for w in wants) for i in range(wl.size)],
            1e-7,
        )
    return wants[0], cust


@st.composite
def custom_noises(draw, prefix, lo, hi, maxn=3):
    out = []
    for i in range(draw(st.integers(0, maxn))):
        nm = "%s%d" % (prefix, i)
        if draw(st.integers(0, 3)) == 3:
            # as other noises of the section, or of another one
            nm = draw(st.sampled_from(["jitter", "gain"]))
        if draw(st.integers(0, 2)) == 2:
            t = draw(P.wl_table(lo * 0.9, hi * 1.1, {nm: (0.0, 1e-3)}))
            out.append({"name": "%s%d tab" % (prefix, i), "data": t,
                        "lower": draw(st.booleans()), "first": draw(st.booleans())})
        else:
            # the same amount may come twice
            out.append({"name": nm, "ppm": draw(st.sampled_from([0.0, 20.0, 20.0, 35.5]) | P.fl(0.0, 500.0, 4))})
    return out
