"""Payload descriptions: generators of plain-JSON specifications and the writer
that renders one as the XML + ECSV files the package documents as its input.

Canonical units inside a specification: um for wavelengths and detector
lengths, K, m2, sr, count, s, Hz; Radiance in W/(m2 um sr)."""
import os
from xml.sax.saxutils import escape

from hypothesis import strategies as st


def sig(v, n=6):
    return float("%.*g" % (n, v))


def fl(lo, hi, n=6):
    return st.floats(
        lo, hi, allow_nan=False, allow_infinity=False, width=64
    ).map(lambda v: 0.0 if abs(v) < 1e-12 * max(abs(lo), abs(hi)) else sig(v, n))


def maybe(s, p=0.5):
    """None or s, None being the simpler one."""
    k = max(1, round(p * 10))
    return st.integers(0, 9).flatmap(
        lambda i: s if i >= 10 - k else st.none()
    )


@st.composite
def wl_table(draw, lo, hi, cols, npts=(3, 9), shuffle=True):
    """Columns tabulated over roughly [lo, hi]; the support may stop short of
    the range on either side, and rows come in any order."""
    n = draw(st.integers(*npts))
    a = lo * draw(fl(0.6, 1.1, 4))
    b = hi * draw(fl(0.9, 1.5, 4))
    a, b = min(a, b), max(a, b, 1.001 * a)
    ws = draw(
        st.lists(st.integers(1, 40), min_size=n - 1, max_size=n - 1)
    )
    tot = float(sum(ws))
    wl, acc = [sig(a, 7)], 0
    for w in ws:
        acc += w
        wl.append(sig(a + (b - a) * acc / tot, 7))
    out = {"Wavelength": wl}
    for c, (l, h) in cols.items():
        out[c] = draw(st.lists(fl(l, h, 4), min_size=n, max_size=n))
    if shuffle:
        order = draw(st.sampled_from(["up", "up", "down", "mixed"]))
        idx = list(range(n))
        if order == "down":
            idx = idx[::-1]
        elif order == "mixed":
            idx = idx[::2] + idx[1::2]
        out = {k: [v[i] for i in idx] for k, v in out.items()}
    return out


# ------------------------------------------------------------------ elements


@st.composite
def element(draw, name, lo, hi, kinds=None, angle=True, tables=True):
    el = draw(element_(name, lo, hi, kinds, angle, tables))
    if draw(st.integers(0, 15)) == 15:
        # nothing at all is not the same as nothing said
        for k in draw(st.lists(st.sampled_from(["tr", "refl", "em", "T", "solid_angle", "data"]), min_size=1, max_size=3)):
            if k == "data" and k in el:
                for col, v in el["data"].items():
                    if col.lower() != "wavelength":
                        v[len(v) // 2] = 0.0
            elif k in el:
                el[k] = 0.0
    if draw(st.integers(0, 3)) == 3:
        # numbers without unit: kelvin, steradian, and micron in tables
        bare = [k for k in ("T", "solid_angle", "data") if k in el]
        if bare:
            el["bare"] = draw(st.lists(st.sampled_from(bare), min_size=1, max_size=2, unique=True))
    return el


@st.composite
def element_(draw, name, lo, hi, kinds=None, angle=True, tables=True):
    kind = draw(
        st.sampled_from(
            kinds
            or ["surface", "surface", "filter", "optics box", "detector box"]
        )
    )
    el = {"name": name, "type": kind}
    T = draw(maybe(fl(60.0, 420.0, 5), 0.8))
    if T is not None:
        el["T"] = T
    if kind == "slit":
        el.pop("T", None)
        return el
    if kind in ("optics box", "detector box"):
        em = draw(maybe(fl(0.0, 1.0, 4), 0.7))
        if em is not None:
            el["em"] = em
        if angle:
            om = draw(maybe(fl(0.001, 3.0, 4), 0.2))
            if om is not None:
                el["solid_angle"] = om
        tr = draw(maybe(fl(0.05, 1.0, 4), 0.3))
        if tr is not None:
            el[draw(st.sampled_from(["tr", "tr", "refl"]))] = tr
        if draw(st.integers(0, 7)) == 7:
            el["wl_max"] = draw(fl(lo + 0.5 * (hi - lo), hi * 1.2))
        return el
    mode = draw(
        st.sampled_from(
            ["tr", "tr", "refl", "both", "none"] + (["data"] if tables else [])
        )
    )
    if mode == "data":
        cols = {"Emissivity": (0.0, 1.0)}
        which = draw(st.sampled_from(["T", "R", "TR", "TR-use"]))
        if "T" in which.replace("-use", ""):
            cols["Transmission"] = (0.05, 1.0)
        if "R" in which:
            cols["Reflectivity"] = (0.05, 1.0)
        el["data"] = draw(wl_table(lo, hi, cols))
        if which == "TR-use":
            el["use"] = draw(st.sampled_from(["Transmission", "Reflectivity"]))
        if draw(st.integers(0, 3)) == 3:
            d = el["data"]
            el["data"] = {
                ("wavelength" if k == "Wavelength" else
                 "emissivity" if k == "Emissivity" else k): v
                for k, v in d.items()
            }
        # the keyword for the column of the wavelengths, with or without
        # another column that has the default name
        col = draw(st.sampled_from([None, None, None, "lambda", "W um"]))
        if col:
            el["wl_col"] = [col, draw(st.booleans())]
    else:
        if mode in ("tr", "both"):
            el["tr"] = draw(fl(0.05, 1.0, 4))
            if draw(st.integers(0, 29)) == 29:
                el["tr"] = 0.0
        if mode in ("refl", "both"):
            el["refl"] = draw(fl(0.05, 1.0, 4))
        if mode == "both":
            el["use"] = draw(st.sampled_from(["transmission", "reflectivity"]))
        em = draw(maybe(fl(0.0, 1.0, 4), 0.8))
        if em is not None:
            el["em"] = em
    w1 = draw(maybe(fl(lo * 0.8, lo + 0.5 * (hi - lo)), 0.25))
    w2 = draw(maybe(fl(lo + 0.5 * (hi - lo), hi * 1.2), 0.25))
    if w1 is not None:
        el["wl_min"] = w1
    if w2 is not None:
        el["wl_max"] = w2
    if angle:
        om = draw(maybe(fl(0.001, 3.0, 4), 0.2))
        if om is not None:
            el["solid_angle"] = om
    return el


@st.composite
def whole_reads(draw):
    """a frequency (Hz) and a time (s) in which it fits a whole number of times"""
    f = draw(st.sampled_from([0.5, 1.0, 2.0, 4.0, 5.0, 8.0, 10.0, 20.0, 25.0, 50.0, 100.0]))
    return f, sig(draw(st.integers(1, 400)) / f, 8)


@st.composite
def edge(draw, a, b):
    """how far a range goes beyond another one: at times not at all"""
    return 1.0 if draw(st.integers(0, 7)) == 7 else draw(fl(a, b, 4))


@st.composite
def detector(draw, lo, hi, name, delta, tables=True):
    det = {
        "delta_pix": delta,
        "read_noise": draw(fl(0.0, 60.0, 4)),
        "dark_current": draw(fl(0.0, 50.0, 4)),
        "well_depth": draw(fl(5e3, 5e6, 5)),
        "f_well_depth": draw(fl(0.1, 1.0, 3)),
        "freqNDR": draw(st.sampled_from([0.0, 0.0]) | fl(0.01, 30.0, 4)),
        "wl_min": sig(lo * draw(edge(0.6, 0.98)), 12),
        "cut_off": sig(hi * draw(edge(1.02, 1.5)), 12),
    }
    # at times only part of the channel is on the detector
    cut = draw(st.integers(0, 9))
    if cut == 9:
        det["cut_off"] = sig(hi - draw(fl(0.01, 0.4, 3)) * (hi - lo))
    elif cut == 8:
        det["wl_min"] = sig(lo + draw(fl(0.01, 0.4, 3)) * (hi - lo))
    if tables and draw(st.booleans()):
        det["qe"] = draw(
            wl_table(det["wl_min"], det["cut_off"], {name: (0.05, 1.0)})
        )
        if draw(st.integers(0, 3)) == 3:
            det["qe_lower"] = True
    else:
        det["qe"] = draw(fl(0.05, 1.0, 4))
        if draw(st.integers(0, 39)) == 39:
            det["qe"] = 0.0
    m = draw(maybe(st.integers(1, 8), 0.2))
    if m is not None:
        det["multiaccumM"] = m
    ft = draw(maybe(fl(0.05, 500.0, 4), 0.25))
    if ft is not None:
        det["frame_time"] = ft
        if draw(st.booleans()):
            det["freqNDR"], det["frame_time"] = draw(whole_reads())
    return det


def noises(prefix, maxn=2):
    return st.lists(fl(0.5, 400.0, 4) | fl(0.5, 400.0, 4) | fl(0.5, 400.0, 4) | st.just(0.0), max_size=maxn).map(
        lambda l: [
            {"name": "%s%d" % (prefix, i), "ppm": p} for i, p in enumerate(l)
        ]
    )


@st.composite
def photometer(draw, name, opts):
    lo = draw(fl(0.5, 5.0, 5))
    hi = sig(lo * draw(fl(1.03, 1.8, 4)))
    lam = 0.5 * (lo + hi)
    delta = draw(fl(5.0, 30.0, 4))
    ch = {
        "name": name,
        "class": "photometer",
        "wl_min": lo,
        "wl_max": hi,
        "Fx": sig(delta / (draw(fl(*opts.get("psf", (0.08, 0.8)), 4)) * lam)),
        "Fy": sig(delta / (draw(fl(*opts.get("psf", (0.08, 0.8)), 4)) * lam)),
    }
    ap = {"radius": draw(fl(0.5, 20.0, 4))}
    ac = draw(maybe(fl(0.1, 1.0, 4), 0.6))
    if ac is not None:
        ap["apertureCorrection"] = ac
    ch["aperture"] = ap
    ch["detector"] = draw(detector(lo, hi, name, delta, opts.get("tables", True)))
    _common_channel(draw, ch, lo, hi, name, opts, [])
    return ch


@st.composite
def spectrometer(draw, name, opts):
    lo = draw(fl(0.6, 4.0, 5))
    delta = draw(fl(5.0, 30.0, 4))
    nb = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 7]))
    R = draw(fl(4.0, 30.0, 4) | st.integers(4, 30).map(float))
    f = draw(fl(0.35, 0.95, 3))
    ppb = draw(fl(4.0, 7.0, 3))
    # the channel ends with a bin, or within one
    exact = draw(st.integers(0, 7)) == 7
    if exact:
        lo, R, f = round(lo, 1), float(round(R)), 1.0
    hi = sig(lo * (1 + 1 / R) ** (nb - 1 + f), 14 if exact else 6)
    L = ppb * (nb - 1 + f) * delta
    # monotonic wavelength solution, either direction along the detector
    n = draw(st.integers(4, 10))
    a = draw(fl(-0.3, 0.3, 3))
    sign = draw(st.sampled_from([-1.0, 1.0]))
    off = draw(fl(-500.0, 500.0, 4))
    t0, t1 = -0.3, 1.3
    ts = [t0 + (t1 - t0) * i / (n - 1) for i in range(n)]
    wl = [sig(lo + (hi - lo) * t, 8) for t in ts]
    if draw(st.integers(0, 3)) == 3:
        # a whole number of pixels across the channel
        ts = sorted(set(ts) | {0.0, 1.0})
        wl = [lo if t == 0 else hi if t == 1 else sig(lo + (hi - lo) * t, 8) for t in ts]
        L = delta * max(2, round(L / delta))
        off = sig(delta * round(off / delta), 8)
    x = [sig(off + sign * L * (t + a * t * (t - 1)), 8) for t in ts]
    if draw(st.booleans()):
        wl, x = wl[::-1], x[::-1]
    ch = {
        "name": name,
        "class": "spectrometer",
        "wl_min": lo,
        "wl_max": hi,
        "Fx": sig(delta / (draw(fl(*opts.get("psf", (0.08, 0.8)), 4)) * hi)),
        "Fy": sig(delta / (draw(fl(*opts.get("psf", (0.08, 0.8)), 4)) * hi)),
        "wlsol": {"Wavelength": wl, "x": x},
    }
    mode = draw(
        st.sampled_from(
            ["fixed", "fixed", "fixed", "native", "missing"]
            + (["file"] if opts.get("rfile", True) else [])
        )
    )
    if mode == "fixed":
        ch["targetR"] = R
    elif mode == "native":
        ch["targetR"] = "native"
    elif mode == "file":
        k = draw(st.integers(2, 4))
        ch["targetR"] = {
            "W": [sig(lo * 0.8 + (hi * 1.3 - lo * 0.8) * i / (k - 1)) for i in range(k)],
            "R": [sig(R * draw(fl(0.8, 1.25, 3))) for _ in range(k)],
        }
        if exact:
            ch["targetR"]["R"] = [R] * k
            hi = lo
            for _ in range(nb):
                hi = round(hi + hi / R, 4)
            ch["wl_max"] = hi
    else:
        ch["targetR"] = None
    w = draw(maybe(fl(0.02, 0.4, 3), 0.3))
    if w is not None:
        ch["WFErms"] = w
    s = draw(maybe(fl(0.5, 3.0, 3), 0.3))
    if s is not None:
        ch["window_spatial_scale"] = s
    s = draw(maybe(fl(1.0, 20.0, 3), 0.15))
    if s is not None:
        ch["window_spatial_pixel"] = s
    s = draw(maybe(fl(1.0, 20.0, 3), 0.15))
    if s is not None:
        ch["window_spectral_pixel"] = s
    if opts.get("tables", True) and draw(st.integers(0, 4)) == 4:
        ch["EncE"] = draw(
            wl_table(lo, hi, {"EE": (0.5, 4.0)}, npts=(2, 6))
        )
    ch["detector"] = draw(detector(lo, hi, name, delta, opts.get("tables", True)))
    extra = []
    if opts.get("slit", True) and draw(st.booleans()):
        npix = draw(st.integers(1, 6))
        if draw(st.integers(0, 7)) == 7:
            # as wide as the channel, or more
            npix = draw(st.integers(7, 200))
        extra = [
            {
                "name": name + "slit",
                "type": "slit",
                "width": sig(delta * (npix + draw(st.just(0.0) | fl(0.1, 0.9, 3)))),
            }
        ]
    _common_channel(draw, ch, lo, hi, name, opts, extra)
    return ch


def _common_channel(draw, ch, lo, hi, name, opts, extra):
    nx = draw(maybe(fl(0.0, 1.5, 3), 0.5))
    if nx is not None:
        ch["NoiseX"] = nx
    n = draw(st.integers(0, opts.get("max_el", 4)))
    if opts.get("max_el", 4) and draw(st.integers(0, 19)) == 19:
        n = draw(st.integers(5, 10))
    # elements of different channels may share their names
    pool = draw(st.permutations(ELEMENTS)) if draw(st.booleans()) else ELEMENTS
    els = [
        draw(
            element(
                pool[i], lo, hi,
                tables=opts.get("tables", True),
            )
        )
        for i in range(n)
    ]
    if extra:
        p = draw(st.integers(0, len(els)))
        els = els[:p] + extra + els[p:]
    ch["optics"] = els
    if opts.get("noise", True):
        ch["customNoise"] = draw(noises(name + "cn", 2))
    else:
        ch["customNoise"] = []


NAMES = ["Phot", "Spec", "VIS", "ch A", "IR2", "w1", "VISPhot", "IR20", "spec"]
ELEMENTS = [
    "E0", "E1", "E10", "e1", "filter", "E1 cold", "detector box", "wall-2",
    "QE", "Fen\u00eatre",
]
COMMON = ["M0", "M1", "M10", "M1 hot"]


@st.composite
def payload(draw, opts=None, **kw):
    """opts: n_ch=(lo,hi), classes, foregrounds, slit, tables, noise, R"""
    opts = dict(opts or {}, **kw)
    classes = opts.get("classes", ["photometer", "spectrometer"])
    nch = draw(st.integers(*opts.get("n_ch", (1, 2))))
    if opts.get("n_ch", (1, 2))[1] > 1 and draw(st.integers(0, 24)) == 24:
        nch = draw(st.integers(4, 7))
    names = draw(st.permutations(NAMES))[:nch]
    chs = []
    for nm in names:
        c = draw(st.sampled_from(classes))
        chs.append(
            draw(photometer(nm, opts) if c == "photometer" else spectrometer(nm, opts))
        )
    lo = min(c["wl_min"] for c in chs)
    hi = max(c["wl_max"] for c in chs)
    spec = {
        "R": draw(st.integers(*opts.get("R", (40, 140)))),
        "wl_min": sig(lo * draw(edge(0.6, 0.97)), 12),
        "wl_max": sig(hi * draw(edge(1.03, 1.4)), 12),
        "source": draw(st.sampled_from(["planck", "Planck"])),
        "force": draw(st.sampled_from([True, False, None])),
        "Atel": draw(fl(0.05, 5.0, 4)),
        "channels": chs,
    }
    # at times the range of the payload is only part of the channels
    cut = draw(st.integers(0, 9))
    if cut == 9:
        spec["wl_max"] = sig(hi - draw(fl(0.01, 0.4, 3)) * (hi - lo))
    elif cut == 8:
        spec["wl_min"] = sig(lo + draw(fl(0.01, 0.4, 3)) * (hi - lo))
    n = draw(st.integers(0, 4))
    pool = draw(st.permutations(COMMON)) if draw(st.booleans()) else COMMON
    if draw(st.integers(0, 5)) == 5:
        # channels may use the names of the common section for their own elements
        pool = draw(st.permutations(ELEMENTS[:4]))
    spec["optics"] = [
        draw(
            element(
                pool[i], lo, hi,
                kinds=opts.get("common_kinds", ["surface", "surface", "filter", "optics box"]),
                tables=opts.get("tables", True),
            )
        )
        for i in range(n)
    ]
    # what a custom solid angle means in front of a slit is not specified
    for c in chs:
        for i, e in enumerate(c["optics"]):
            if e["type"] == "slit":
                for o in spec["optics"] + c["optics"][:i]:
                    o.pop("solid_angle", None)
    spec["customNoise"] = draw(noises("cn", 2)) if opts.get("noise", True) else []
    if opts.get("foregrounds", True):
        spec["foregrounds"] = draw(foregrounds(spec["wl_min"], spec["wl_max"], opts))
    else:
        spec["foregrounds"] = []
    if draw(st.integers(0, 3)) == 3:
        in_whole_numbers(spec)
    return spec


def in_whole_numbers(spec):
    """round what can be without changing the kind of the payload, and ask for
    whole numbers to be written without a decimal point"""

    def snap(d, keys, lo=1.0):
        for k in keys:
            if isinstance(d.get(k), list):
                d[k] = [float(round(v)) for v in d[k]]
            elif isinstance(d.get(k), float) and round(d[k]) >= lo:
                d[k] = float(round(d[k]))

    spec["whole"] = True
    snap(spec, ["Atel"])
    for ns in [spec["customNoise"]] + [c.get("customNoise", []) for c in spec["channels"]]:
        for n in ns:
            snap(n, ["ppm"])
            if "data" in n:
                snap(n["data"], [k for k in n["data"] if k.lower() != "wavelength"])
    for f in spec["foregrounds"]:
        snap(f, ["factor"])
    for o in [spec] + spec["channels"]:
        for e in o["optics"]:
            snap(e, ["T", "em", "tr", "refl", "solid_angle"])
            if len(e["name"]) % 2 and "data" in e:
                snap(e["data"], [k for k in e["data"] if k.lower() != "wavelength"])
    for c in spec["channels"]:
        snap(c, ["window_spatial_scale", "window_spatial_pixel", "window_spectral_pixel", "NoiseX"])
        if "EncE" in c:
            c["EncE"]["EE"] = [max(1.0, float(round(v))) for v in c["EncE"]["EE"]]
        if "aperture" in c:
            snap(c["aperture"], ["radius", "EnE", "apertureCorrection"])
        snap(c["detector"], ["read_noise", "dark_current", "well_depth", "f_well_depth", "freqNDR", "frame_time", "qe"])


def whole_text(v):
    """1 for 1.0; the other numbers as they are"""
    return repr(int(v)) if isinstance(v, float) and v == int(v) and abs(v) < 1e15 else repr(v)


@st.composite
def foregrounds(draw, lo, hi, opts, maxn=3):
    n = draw(st.integers(0, maxn))
    names = draw(st.permutations(["skyFilter", "atmo", "cloud", "Veil", "atmo 2", "Cloud", "Max sky", "signal box", "custom", "noise"]))
    zpos = draw(maybe(st.integers(0, max(0, n - 1)), 0.6))
    out = []
    for i in range(n):
        if zpos == i:
            out.append({"name": "zodiacal", "factor": draw(fl(0.2, 20.0, 4)) if draw(st.integers(0, 11)) < 11 else 0.0})
        else:
            out.append(
                {
                    "name": names[i],
                    "data": draw(
                        wl_table(
                            lo, hi,
                            {"Transmission": (0.05, 1.0), "Radiance": (1e-10, 1e-3)},
                        )
                    ),
                }
            )
            if draw(st.integers(0, 11)) == 11:
                # opaque, or dark, somewhere or everywhere
                v = out[-1]["data"][draw(st.sampled_from(["Transmission", "Radiance"]))]
                for j in range(0, len(v), draw(st.integers(1, 3))):
                    v[j] = 0.0
    return out


# ------------------------------------------------------------------ targets


@st.composite
def custom_sed(draw, lo, hi):
    """surface flux; from a few samples to a dense grid"""
    t = draw(wl_table(lo, hi, {"Sed": (0.0, 1e7)}, npts=(3, 8), shuffle=False))
    if draw(st.booleans()):
        # a dense sampling of the same function
        import numpy as np

        n = draw(st.integers(200, 900))
        w = np.linspace(t["Wavelength"][0], t["Wavelength"][-1], n)
        y = np.interp(w, t["Wavelength"], t["Sed"])
        t = {"Wavelength": [sig(v, 9) for v in w], "Sed": [sig(v, 9) for v in y]}
    return t


@st.composite
def target(draw, name="star"):
    t = draw(a_target(name))
    if draw(st.integers(0, 3)) == 3:
        for k in ("M", "Teff", "R", "D", "magk", "ra", "dec"):
            t[k] = float(round(t[k])) or t[k]
    return t


@st.composite
def a_target(draw, name):
    return {
        "name": name,
        "M": draw(fl(0.1, 3.0, 4)),
        "Teff": draw(fl(2300.0, 11000.0, 5)),
        "R": draw(fl(0.1, 5.0, 4)),
        "D": draw(fl(2.0, 200.0, 4)),
        "magk": draw(fl(0.0, 12.0, 4)),
        "ra": draw(fl(0.0, 359.9, 5)),
        "dec": draw(fl(-89.0, 89.0, 5)),
    }


def targets(minn=1, maxn=3):
    pool = ["alpha", "Beta 2", "WASP-12", "HD 209458", "t_5"]
    return st.integers(minn, maxn).flatmap(
        lambda n: st.tuples(*[target(pool[i]) for i in range(n)]).map(list)
    )


# ------------------------------------------------------------------ writers


def ecsv(path, cols, units, whole=False):
    names = list(cols)
    ints = {n for n in names if whole and all(v == int(v) for v in cols[n])}
    lines = ["# %ECSV 0.9", "# ---", "# datatype:"]
    for n in names:
        u = units.get(n)
        lines.append(
            "# - {name: %s%s, datatype: %s}"
            % (_yq(n), ", unit: '%s'" % u if u else "", "int64" if n in ints else "float64")
        )
    lines.append("# schema: astropy-2.0")
    lines.append(" ".join(_q(n) for n in names))
    for row in zip(*[cols[n] for n in names]):
        lines.append(" ".join(repr(int(v)) if n in ints else repr(float(v)) for n, v in zip(names, row)))
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")


def _q(n):
    return '"%s"' % n if " " in n else n


def _yq(n):
    return "'%s'" % n


# how a canonical value is rendered: kind -> (unit string, factor)
DEFAULT_UNITS = {
    "wl": ("micron", 1.0),
    "x": ("micron", 1.0),
    "pix": ("micron", 1.0),
    "slit": ("mm", 1e-3),
    "T": ("K", 1.0),
    "area": ("m**2", 1.0),
    "angle": ("sr", 1.0),
    "count": ("count", 1.0),
    "rate": ("count/s", 1.0),
    "freq": ("Hz", 1.0),
    "time": ("s", 1.0),
    "wfe": ("micron", 1.0),
    "radiance": ("W / (m2 um sr)", 1.0),
    "twl": ("um", 1.0),
    # numbers without dimension, as fractions
    "frac": ("", 1.0),
    "tnoise": ("", 1.0),
    "sed": ("W / (m2 um)", 1.0),
}


class XmlWriter:
    def __init__(self, spec, folder, units=None, config_path=True, extra=None):
        self.spec = spec
        self.dir = folder
        self.u = dict(DEFAULT_UNITS, **(units or {}))
        self.n = 0
        self.cp = config_path
        self.extra = extra or {}
        self.whole = bool(spec.get("whole"))
        self.num = whole_text if self.whole else repr

    def q(self, tag, kind, v):
        unit, k = self.u[kind]
        val = v if k == 1.0 else v * k
        return '<%s unit="%s">%s</%s>' % (tag, unit, self.num(val), tag)

    def frac(self, tag, v, unit=' unit=""'):
        if self.u["frac"][0]:
            return self.q(tag, "frac", v)
        return "<%s%s>%s</%s>" % (tag, unit, self.num(v), tag)

    def p(self, tag, v, kids=""):
        if isinstance(v, str):
            v = escape(v)
        return "<%s>%s%s</%s>" % (tag, v, kids, tag)

    def table(self, cols, units):
        self.n += 1
        fn = "tab%d.ecsv" % self.n
        cols = dict(cols)
        un = {}
        for c, kind in units.items():
            if c in cols:
                unit, k = self.u[kind]
                un[c] = unit
                if k != 1.0:
                    cols[c] = [v * k for v in cols[c]]
        ecsv(os.path.join(self.dir, fn), cols, un, self.whole)
        if self.cp:
            return "<datafile>__ConfigPath__/%s</datafile>" % fn
        return "<datafile>%s</datafile>" % os.path.join(self.dir, fn)

    def element(self, el):
        k = [self.p("type", el["type"])]
        bare = el.get("bare", ())

        def q(tag, kind, n):
            return self.p(tag, self.num(el[n])) if n in bare else self.q(tag, kind, el[n])

        if "T" in el:
            k.append(q("temperature", "T", "T"))
        if "em" in el:
            k.append(self.frac("emissivity", el["em"], ""))
        if "tr" in el:
            k.append(self.frac("transmission", el["tr"], ""))
        if "refl" in el:
            k.append(self.frac("reflectivity", el["refl"], ""))
        if "use" in el:
            k.append(self.p("use", el["use"]))
        if "wl_min" in el:
            k.append(self.q("wl_min", "wl", el["wl_min"]))
        if "wl_max" in el:
            k.append(self.q("wl_max", "wl", el["wl_max"]))
        if "solid_angle" in el:
            k.append(q("solid_angle", "angle", "solid_angle"))
        if "width" in el:
            k.append(self.q("width", "slit", el["width"]))
        if "data" in el:
            d = el["data"]
            units = {c: "twl" if c.lower() == "wavelength" else "frac" for c in d}
            if "wl_col" in el:
                col, decoy = el["wl_col"]
                units[col] = "twl"
                k.append(self.p("wl_col_name", col))
                d = {(col if c.lower() == "wavelength" else c): v for c, v in d.items()}
                if decoy:
                    d["Wavelength"] = [v * 1.7 for v in d[col]]
            if "data" in bare and self.u["wl"][0] == "micron":
                units = {}
            k.append(self.table(d, units))
        return "<opticalElement>%s %s</opticalElement>" % (
            escape(el["name"]), "".join(k))

    def optics(self, els, more=""):
        return "<optics>%s%s</optics>" % (
            more, "".join(self.element(e) for e in els))

    def noise(self, ns):
        out = []
        for n in ns:
            if "data" in n:
                d = n["data"]
                if n.get("lower"):
                    d = {("wavelength" if c == "Wavelength" else c): v for c, v in d.items()}
                if n.get("first"):
                    # the noise comes before the wavelengths
                    d = dict(reversed(list(d.items())))
                out.append(
                    "<customNoise>%s %s</customNoise>"
                    % (n["name"], self.table(
                        d, {c: "twl" if c.lower() == "wavelength" else "tnoise" for c in d}))
                )
            else:
                out.append(
                    "<customNoise>%s<name>%s</name></customNoise>"
                    % (self.num(n["ppm"]), n["name"])
                )
        return "".join(out)

    def foreground(self, f):
        if f["name"] == "zodiacal":
            k = ""
            if f.get("factor") is not None:
                k += self.p("zodiacFactor", self.num(f["factor"]))
            if f.get("map") is not None:
                k += self.p("zodiacalMap", str(f["map"]))
            if f.get("map_file"):
                k += self.p("custom_map_file", f["map_file"])
        else:
            k = self.table(
                f["data"], {"Wavelength": "twl", "Radiance": "radiance", "Transmission": "frac"}
            )
        return "<foreground>%s %s</foreground>" % (f["name"], k)

    def channel(self, c):
        k = [
            self.p("channelClass", {"photometer": "Photometer", "spectrometer": "Spectrometer"}[c["class"]]),
            self.q("wl_min", "wl", c["wl_min"]),
            self.q("wl_max", "wl", c["wl_max"]),
            '<Fnum_x unit="">%s</Fnum_x>' % self.num(c["Fx"]),
            '<Fnum_y unit="">%s</Fnum_y>' % self.num(c["Fy"]),
        ]
        if "NoiseX" in c:
            k.append(self.frac("NoiseX", c["NoiseX"]))
        if "aperture" in c:
            a = c["aperture"]
            s = ""
            for tag in ("radius", "EnE", "apertureCorrection"):
                if tag in a:
                    s += self.frac(tag, a[tag])
            k.append(self.p("aperture", "", s))
        if "wlsol" in c:
            k.append(
                self.p("wlSolution", "", self.table(c["wlsol"], {"Wavelength": "twl", "x": "x"}))
            )
        R = c.get("targetR")
        if isinstance(R, dict):
            self.n += 1
            fn = os.path.join(self.dir, "res%d.tsv" % self.n)
            with open(fn, "w", encoding="utf-8") as f:
                f.write("W\tR\n")
                for w, r in zip(R["W"], R["R"]):
                    f.write("%s\t%s\n" % (self.num(w), self.num(r)))
            k.append("<targetR><data>%s</data></targetR>" % fn)
        elif R == "native":
            k.append("<targetR>native</targetR>")
        elif R is not None:
            k.append('<targetR unit="">%s</targetR>' % self.num(R))
        if "WFErms" in c:
            k.append(self.q("WFErms", "wfe", c["WFErms"]))
        for t in ("window_spatial_scale", "window_spatial_pixel", "window_spectral_pixel"):
            if t in c:
                k.append(self.p(t, self.num(c[t])))
        if "EncE" in c:
            k.append(self.p("EncESolution", "", self.table(c["EncE"], {"Wavelength": "twl"})))
        if "PSF" in c:
            fmt = self.p("format", c["PSF"]["format"]) if c["PSF"].get("format") else ""
            k.append(self.p("PSF", c["PSF"]["path"], fmt))
        k.append(self.noise(c.get("customNoise", [])))
        k.append(self.optics(c["optics"]))
        d = c["detector"]
        dk = [
            self.q("delta_pix", "pix", d["delta_pix"]),
            self.q("read_noise", "count", d["read_noise"]),
            self.q("dark_current", "rate", d["dark_current"]),
            self.q("well_depth", "count", d["well_depth"]),
            self.frac("f_well_depth", d["f_well_depth"]),
            self.q("freqNDR", "freq", d["freqNDR"]),
            self.q("wl_min", "wl", d["wl_min"]),
            self.q("cut_off", "wl", d["cut_off"]),
        ]
        if isinstance(d["qe"], dict):
            qe = d["qe"]
            if d.get("qe_lower"):
                qe = {("wavelength" if c == "Wavelength" else c): v for c, v in qe.items()}
            dk.append(self.p("qe", "", self.table(
                qe, {x: "twl" if x.lower() == "wavelength" else "frac" for x in qe})))
        else:
            dk.append(self.frac("qe", d["qe"]))
        if "multiaccumM" in d:
            dk.append(self.p("multiaccumM", self.num(d["multiaccumM"])))
        if "frame_time" in d:
            dk.append(self.q("frame_time", "time", d["frame_time"]))
        k.append(self.p("detector", "", "".join(dk)))
        return "<channel>%s %s</channel>" % (c["name"], "\n  ".join(k))

    def text(self):
        s = self.spec
        src = s.get("source", "planck")
        kids = ""
        if s.get("sed"):
            fn = os.path.join(self.dir, "sed.ecsv")
            kinds = {"Wavelength": "twl", "Sed": "sed"}
            ecsv(fn, {c: [x * self.u[kinds[c]][1] for x in v] for c, v in s["sed"].items()},
                 {c: self.u[kinds[c]][0] for c in s["sed"]})
            src = {"kind": src, "CustomSed": fn}
        if isinstance(src, dict):
            for t in ("StellarModels", "CustomSed"):
                if t in src:
                    kids += self.p(t, src[t])
            src = src["kind"]
        common = [
            self.p("working_R", s["R"]) if s.get("R") else "",
            "<sourceSpectrum>%s %s</sourceSpectrum>" % (src, kids),
            self.q("wl_min", "wl", s["wl_min"]),
            self.q("wl_max", "wl", s["wl_max"]),
        ]
        common += [self.foreground(f) for f in s.get("foregrounds", [])]
        common.append(self.noise(s.get("customNoise", [])))
        more = ""
        if s["force"] is not None:
            more += self.p("ForceChannelWlEdge", str(s["force"]))
        more += self.q("Atel", "area", s["Atel"])
        return "<root>\n<ConfigPath> %s\n<comment>main dir</comment></ConfigPath>\n<common>%s</common>\n%s\n%s\n</root>\n" % (
            self.dir,
            "\n ".join(common),
            self.optics(s["optics"], more),
            "\n".join(self.channel(c) for c in s["channels"]),
        )

    def write(self, name="payload.xml"):
        path = os.path.join(self.dir, name)
        t = self.text()
        with open(path, "w", encoding="utf-8") as f:
            f.write(t)
        return path


def write(spec, folder, name="payload.xml", **kw):
    return XmlWriter(spec, folder, **kw).write(name)


def write_targets(tgts, folder, name="targets.csv", coords=True):
    cols = [
        ("star name", "name"), ("star M [M_sun]", "M"), ("star Teff [K]", "Teff"),
        ("star R [R_sun]", "R"), ("star D [pc]", "D"), ("star magk", "magk"),
    ]
    if coords:
        cols += [("star ra [deg]", "ra"), ("star dec [deg]", "dec")]
    path = os.path.join(folder, name)
    with open(path, "w", encoding="utf-8") as f:
        f.write(",".join(c for c, _ in cols) + "\n")
        for t in tgts:
            f.write(
                ",".join(
                    t[k] if isinstance(t[k], str) else whole_text(t[k]) for _, k in cols
                ) + "\n"
            )
    return path
