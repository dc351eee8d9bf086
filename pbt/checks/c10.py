import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, one_after_the_other, sut
from .common import CT, Tally, built

RULE = (
    "image cases are non-trivial when the pixel covers more than one sample of "
    "the image in some direction; aperture cases when the energy asked for is "
    "between 10% and 98%; pipeline cases when the star gives a signal"
)
ASSUMPTIONS = [
    "PSF images are square and sampled with the same step in both directions",
    "the exact overlap of ellipses and image samples is that of photutils",
    "a radius interpolated between whole radii counts as right",
]


def kernel(kx, ky):
    for k in (kx, ky):
        if abs(k - round(k)) < 1e-9:
            raise Reject("pixel is a whole number of PSF samples")
    wx, wy = ref.pixel_kernel(kx), ref.pixel_kernel(ky)
    return wx, wy


def convolved(im, wx, wy):
    return ref.same_matrix(wy, im.shape[0]) @ im @ ref.same_matrix(wx, im.shape[1]).T


def judge_prf(out, want, wx, wy, ext=None):
    prf, pix, extent = out
    prf, pix = np.asarray(prf, float), np.asarray(pix, float)
    check(prf.shape == want.shape, "image of %s samples instead of %s", prf.shape, want.shape)
    top = np.abs(want).max()
    d = np.abs(prf - want).max()
    check(d <= 1e-9 * top, "pixel image differs by %r of its maximum", d / top)
    k = np.outer(wy, wx)
    check(
        pix.shape == k.shape and np.abs(pix - k).max() < 1e-9,
        "pixel response %s instead of %s", pix.tolist(), k.tolist(),
    )
    if ext is not None:
        got = np.array([np.ravel(pipe.val(e, "um"))[0] for e in extent])
        check(np.allclose(got, ext, rtol=1e-9), "image spans %s instead of %s", got.tolist(), ext)


# -------------------------------------------------------------------- Airy


@st.composite
def optics(draw):
    wl = draw(P.fl(0.4, 12.0, 5))
    delta = draw(P.fl(4.0, 40.0, 4))
    r = st.just(None)
    return {
        "wl": wl,
        "delta": delta,
        "Fx": P.sig(delta / (draw(P.fl(0.05, 0.9, 4)) * wl)),
        "Fy": P.sig(delta / (draw(P.fl(0.05, 0.9, 4)) * wl)),
    }


@st.composite
def airy_case(draw, tier):
    c = draw(optics())
    c["nm"] = draw(st.booleans())
    c["array"] = draw(st.booleans())
    return c


def airy_run(c):
    import astropy.units as u
    from exorad.utils.exolib import binnedPSF

    im, wx, wy = ref.prf_airy(c["Fx"], c["Fy"], c["wl"], c["delta"])
    wl = ([c["wl"]] if c["array"] else c["wl"]) * u.um
    delta = c["delta"] * u.um
    if c["nm"]:
        delta = delta.to(u.mm)
        wl = wl.to(u.mm)
    out = sut("the PSF", lambda: binnedPSF(c["Fx"], c["Fy"], wl, delta))
    sx, sy = (128 * c[k] * c["wl"] * ref.STEP for k in ("Fx", "Fy"))
    judge_prf(out, im, wx, wy, [-sx, sx, -sy, sy])
    # fractions of the energy of the source
    p = np.asarray(out[0], float)
    check(p.min() >= -1e-12 and p.max() <= 1 + 1e-9, "a pixel collects %r of the light", p.max())
    return {"nontrivial": max(wx.size, wy.size) > 3, "labels": ["Airy"]}


# ------------------------------------------------------------------- files


@st.composite
def image(draw, n):
    k = draw(st.integers(1, 4))
    spots = [
        [draw(P.fl(0.2, 0.8, 3)), draw(P.fl(0.2, 0.8, 3)),
         draw(P.fl(0.03, 0.2, 3)), draw(P.fl(0.03, 0.2, 3)), draw(P.fl(0.1, 1.0, 3))]
        for _ in range(k)
    ]
    return {"n": n, "spots": spots}


def render(d):
    n, m = d["n"], d.get("m") or d["n"]
    y, x = np.mgrid[0:m, 0:n]
    y, x = y / float(m), x / float(n)
    im = np.zeros((m, n))
    for cx, cy, sx, sy, a in d["spots"]:
        im += a * np.exp(-0.5 * (((x - cx) / sx) ** 2 + ((y - cy) / sy) ** 2))
    return im / im.sum()


@st.composite
def psf_files(draw, kinds=("file", "folder", "pixel", "pixel folder", "paos")):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(5, 24))
    m = 1 if kind in ("file", "pixel") else draw(st.integers(2 if kind == "paos" else 1, 4))
    # the rows, when they are not as many as the columns
    rows = draw(st.none() | st.integers(5, 24))
    # descending on disk is as good as ascending
    return {
        "kind": kind,
        "n": n,
        "step": draw(P.fl(0.05, 0.4, 4)),
        "step2": draw(st.none() | P.fl(0.05, 0.4, 4)),
        "rows": rows,
        "images": [dict(draw(image(n)), m=rows) for _ in range(m)],
        "rel": draw(st.lists(P.fl(0.4, 1.9, 4), min_size=m, max_size=m, unique=True)),
        "stages": draw(st.integers(1, 3)),
        "slash": draw(st.booleans()),
        "home": draw(st.integers(0, 3)) == 3,
    }


def write_psf(p, d, wl0):
    """-> value and format of the PSF keyword; p["wls"] is set"""
    from astropy.io import fits

    wls = [P.sig(wl0 * r, 6) for r in p["rel"]]
    if len(set(wls)) < len(wls):
        raise Reject("equal wavelengths")
    if p["kind"] == "paos":
        import h5py

        path = os.path.join(d, "psf.h5")
        with h5py.File(path, "w") as f:
            f.create_group("info").create_dataset("x", data=1.0)
            for w, im in zip(wls, p["images"]):
                g = f.create_group(str(float(w)))
                for s in range(p["stages"]):
                    q = g.create_group("S%02d" % (s + 1))
                    a = render(im) ** 0.5
                    if s < p["stages"] - 1:
                        a = a[::-1] * 0.3
                    dx = 1e-6 * p["step"] * 10 * w
                    q.create_dataset("amplitude", data=a)
                    q.create_dataset("dx", data=dx)
                    q.create_dataset("dy", data=dx * 1.5)
                    h, v = 0.5 * p["n"] * dx, 0.75 * (p["rows"] or p["n"]) * dx
                    q.create_dataset("extent", data=[-h, h, -v, v])
                    q.create_dataset("fratio", data=20.0)
        return path, "paos", wls
    names = []
    for i, (w, im) in enumerate(zip(wls, p["images"])):
        h = fits.PrimaryHDU(render(im))
        n, m = p["n"], p["rows"] or p["n"]
        for k, v in (("CRPIX1", n // 2 + 1.0), ("CRPIX2", m // 2 + 1.0),
                     ("CDELT1", p["step"]), ("CDELT2", p["step2"] or p["step"]), ("WAVELEN", w)):
            h.header[k] = v
        names.append(os.path.join(d, "psf_%d.fits" % i))
        h.writeto(names[-1])
    fmt = "pixel_based" if "pixel" in p["kind"] else None
    path = d + os.sep * p["slash"] if "folder" in p["kind"] else names[0]
    return ("~" + path[len(d):] if p["home"] else path), fmt, wls


@contextlib.contextmanager
def home(d):
    """the folder is the user's home meanwhile"""
    old = os.environ.get("HOME")
    os.environ["HOME"] = d
    try:
        yield
    finally:
        os.environ.pop("HOME") if old is None else os.environ.update(HOME=old)


def expected(p, wls, Fx, Fy, wl, delta):
    ims = [render(i) for i in p["images"]]
    if p["kind"] == "paos":
        w = np.array(wls)
        same = [i for i, v in enumerate(wls) if str(float(v)) == str(float(wl))]
        if same:
            im, dx = ims[same[0]], p["step"] * 10 * w[same[0]]
        else:
            o = np.argsort(w)
            d = np.sort(np.abs(w - wl))
            k = int(np.clip(np.searchsorted(w[o], wl), 1, w.size - 1))
            a, b = o[k - 1], o[k]
            t = (wl - w[a]) / (w[b] - w[a])
            im = ims[a] + t * (ims[b] - ims[a])
            dx = p["step"] * 10 * (w[a] + t * (w[b] - w[a]))
            if dx <= 0:
                raise Reject("extrapolated to nothing")
        wx, wy = kernel(delta / dx, delta / (1.5 * dx))
        return convolved(im, wx, wy), wx, wy
    i = 0
    if "folder" in p["kind"]:
        d = np.abs(np.array(wls) - wl)
        o = np.argsort(d)
        if d.size > 1 and d[o[1]] - d[o[0]] < 1e-9 * wl:
            raise Reject("two images are equally near")
        i = o[0]
    if "pixel" in p["kind"]:
        return ims[i], None, None
    wx, wy = kernel(delta / (Fx * wl * p["step"]), delta / (Fy * wl * (p["step2"] or p["step"])))
    return convolved(ims[i], wx, wy), wx, wy


@st.composite
def file_case(draw, tier):
    c = draw(optics())
    c["psf"] = draw(psf_files())
    c["hit"] = draw(st.booleans())
    c["dunit"] = draw(st.sampled_from(["um", "um", "mm", "nm"]))
    return c


def file_run(c):
    import astropy.units as u
    from exorad.utils import exolib

    p = c["psf"]
    with pipe.folder() as d, home(d):
        path, fmt, wls = write_psf(p, d, c["wl"])
        wl = wls[0] if c["hit"] and p["kind"] == "paos" else c["wl"]
        want, wx, wy = expected(p, wls, c["Fx"], c["Fy"], wl, c["delta"])
        delta = (c["delta"] * u.um).to(u.Unit(c["dunit"]))
        if fmt == "paos":
            f = lambda: exolib.paosPSF(wl=[wl] * u.um, delta_pix=delta, filename=path)
        elif fmt == "pixel_based":
            f = lambda: exolib.pixel_based_psf([wl] * u.um, delta, path)
        else:
            f = lambda: exolib.binnedPSF(c["Fx"], c["Fy"], [wl] * u.um, delta, path)
        out = sut("the PSF from " + p["kind"], f)
    if p["kind"] != "paos":
        # where the image begins and ends on the detector
        n, m = p["n"], p["rows"] or p["n"]
        if "pixel" in p["kind"]:
            ext = np.array([-0.5 * n, 0.5 * n, -0.5 * m, 0.5 * m]) * c["delta"]
        else:
            a, b = c["Fx"] * wl * p["step"], c["Fy"] * wl * (p["step2"] or p["step"])
            ext = np.array([-(n // 2) * a, (n - n // 2) * a, -(m // 2) * b, (m - m // 2) * b])
        got = np.array([np.ravel(pipe.val(e, "um"))[0] for e in out[2]])
        check(np.allclose(got, ext, rtol=1e-9), "image spans %s instead of %s", got.tolist(), ext.tolist())
    if wx is None:
        check(np.array_equal(np.asarray(out[0], float), want), "the image is changed")
        check(np.array_equal(np.ravel(out[1]), [1.0]), "pixel response %s", out[1])
        nontrivial = len(wls) > 1
    else:
        judge_prf(out, want, wx, wy)
        nontrivial = max(wx.size, wy.size) > 3
    return {"nontrivial": nontrivial, "labels": ["PSF " + p["kind"]]}


# ---------------------------------------------------------------- apertures

def enclosed(im, a, b):
    """fraction of the energy in the ellipse centred where the package centres it"""
    from photutils.aperture import EllipticalAperture

    if a <= 0 or b <= 0:
        return 0.0
    ell = EllipticalAperture((im.shape[1] // 2, im.shape[0] // 2), a=max(a, b), b=min(a, b),
                             theta=0.0 if a >= b else np.pi / 2)
    m = ell.to_mask(method="exact")
    return float(m.multiply(im).sum() / im.sum()) if m.get_overlap_slices(im.shape)[0] else 0.0


@st.composite
def aperture_case(draw, tier):
    n = draw(st.integers(9, 40))
    return {
        "n": n,
        "m": n + draw(st.integers(0, 6)),
        "sx": draw(P.fl(0.4, 0.25 * n, 3)),
        "sy": draw(P.fl(0.4, 0.25 * n, 3)),
        "off": [draw(P.fl(-1.0, 1.0, 2)), draw(P.fl(-1.0, 1.0, 2))],
        "tail": draw(P.fl(0.0, 0.3, 2)),
        "eec": draw(P.fl(0.02, 0.999, 4)),
        "Fx": draw(P.fl(0.3, 6.0, 3)),
        "Fy": draw(P.fl(0.3, 6.0, 3)),
        "wl": draw(P.fl(0.4, 2.0, 3)),
    }


def judge_radius(im, r, eec, fx, fy):
    """the energy enclosed at the whole radii around r brackets eec"""
    lo, hi = np.floor(r + 1e-9), np.ceil(r - 1e-9)
    e = [enclosed(im, k * fx, k * fy) if k > 0 else 0.0 for k in (lo, hi)]
    check(
        e[0] - 1e-6 <= eec <= e[1] + 1e-6,
        "radius %r for %r of the energy: %r and %r are within radii %d and %d",
        r, eec, e[0], e[1], lo, hi,
    )
    if hi > lo and e[1] - e[0] > 1e-3:
        w = lo + (eec - e[0]) / (e[1] - e[0])
        # interpolated between whole radii, or exact
        if abs(r - w) > 1e-5 * hi:
            x = enclosed(im, r * fx, r * fy)
            check(abs(x - eec) < 1e-3, "radius %r encloses %r, not %r, and is not the %r interpolated between whole radii", r, x, eec, w)


def aperture_run(c):
    import astropy.units as u
    from exorad.utils.exolib import find_aperture_radius

    y, x = np.mgrid[0 : c["n"], 0 : c["m"]]
    im = np.exp(
        -0.5 * ((x - c["m"] // 2 - c["off"][0]) / c["sx"]) ** 2
        - 0.5 * ((y - c["n"] // 2 - c["off"][1]) / c["sy"]) ** 2
    )
    im = im / im.sum() + c["tail"] / im.size
    fx, fy = c["Fx"] * c["wl"], c["Fy"] * c["wl"]
    r = sut(
        "finding the aperture",
        lambda: float(find_aperture_radius(im, c["eec"], c["Fx"], c["Fy"], c["wl"] * u.um)),
    )
    judge_radius(im, r, c["eec"], fx, fy)
    return {"nontrivial": 0.1 < c["eec"] < 0.98, "labels": ["radius below 1" if r < 1 else "radius above 1"]}


# ----------------------------------------------------------------- pipeline


@st.composite
def pipe_case(draw, tier):
    spec = draw(
        P.payload(noise=False, n_ch=(1, 1), max_el=1, R=(20, 80), psf=(0.1, 0.25),
                  foregrounds=False, tables=False)
    )
    c = spec["channels"][0]
    p = draw(st.none() | psf_files())
    if c["class"] == "photometer":
        ap = draw(st.sampled_from(["radius", "EnE", "EnE"]))
        if ap == "EnE":
            c["aperture"].pop("radius")
            c["aperture"]["EnE"] = draw(P.fl(0.3, 0.97, 3))
    return [spec, draw(P.target()), p]


def pipe_run(case):
    spec, tg, p = case
    c = spec["channels"][0]
    wl0 = 0.5 * (c["wl_min"] + c["wl_max"])
    delta = c["detector"]["delta_pix"]
    with pipe.folder() as d:
        spec = dict(spec)
        wls = None
        if p is not None:
            sub = os.path.join(d, "psf")
            os.mkdir(sub)
            path, fmt, wls = write_psf(p, sub, wl0)
            c = dict(c, PSF={"path": path, "format": fmt})
            spec["channels"] = [c]
        ch = ref.Channel(spec, c)
        Fx, Fy = c["Fx"], c["Fy"]
        if p is None:
            prf = lambda w: ref.prf_airy(Fx, Fy, w, delta)
        else:
            prf = lambda w: expected(p, wls, Fx, Fy, w, delta)
        # decide whether the case can be judged before running it
        if ch.phot:
            im, _, _ = prf(ch.wl[0])
            if im.min() < 0:
                raise Reject("extrapolated to negative light")
        else:
            w10 = np.linspace(ch.wl_pix.min(), ch.wl_pix.max(), 10)
            g = []
            for w in w10:
                im, wx, wy = prf(w)
                if im.min() < 0:
                    raise Reject("extrapolated to negative light")
                v = im.sum(axis=0).max()
                if wx is not None:
                    v /= wx.max() * wy.sum()
                if "WFErms" in c:
                    v *= np.exp(-((2 * np.pi * c["WFErms"] / w) ** 2))
                g.append(v)
            ch.gain = lambda: (w10, np.array(g))
        S = ref.sky_grid(spec)
        sed, _ = ref.planck_star(spec, tg, S)
        star = ch.star(S, sed)
        if ch.phot:
            top = [prf(ch.wl[0])[0].max() * ref.trapz(ch.dens, S)]
        else:
            top = ch.star_max(S)
        with home(os.path.join(d, "psf")):
            b = built(spec, d)
            table = pipe.observe(pipe.make_targets([tg], d)[0], b).table
    ref.compare("brightest pixel", pipe.column(table, "star_MaxSignal_inPixel", CT), top)
    for n in ("starSignal", "star_signal_inAperture"):
        ref.compare(n, pipe.column(table, n, CT), star[n])
    if ch.phot and "radius" in c["aperture"]:
        w = ch.window
        if p is not None and "pixel" in p["kind"]:
            w = np.array([c["aperture"]["radius"] ** 2])
        ref.compare("window", pipe.column(table, "WindowSize", ""), w)
    lab = ["no PSF" if p is None else "PSF " + p["kind"], c["class"]]
    if ch.phot and "EnE" in c["aperture"]:
        import astropy.units as u

        eec = c["aperture"]["EnE"]
        win = float(pipe.val(u.Quantity(table["WindowSize"]).value, "")[0])
        im = prf(ch.wl[0])[0]
        if p is not None and "pixel" in p["kind"]:
            judge_radius(im, np.sqrt(win / np.pi), eec, 1.0, 1.0)
        else:
            r = np.sqrt(win / np.pi * delta**2 / (Fx * Fy)) / ch.wl[0]
            if p is None:
                sx = sy = ref.STEP
            elif p["kind"] == "paos":
                dx = np.interp(ch.wl[0], *zip(*sorted((w, p["step"] * 10 * w) for w in wls)))
                # every image spans its own n samples
                sx, sy = dx / (Fx * ch.wl[0]), 1.5 * dx / (Fy * ch.wl[0])
                if not min(wls) <= ch.wl[0] <= max(wls):
                    raise Reject("extrapolated")
            else:
                sx, sy = p["step"], p["step2"] or p["step"]
            judge_radius(im, r, eec, 1 / sx, 1 / sy)
        lab.append("aperture from the enclosed energy")
    return {"nontrivial": bool((star["starSignal"] > 0).any()), "labels": lab}


SUBS = [
    Sub("Airy", lambda tier: airy_case(tier), airy_run, 150, 2500),
    Sub("files", lambda tier: file_case(tier), file_run, 300, 5000),
    Sub("apertures", lambda tier: aperture_case(tier), aperture_run, 250, 4000),
    Sub("pipeline", lambda tier: pipe_case(tier), pipe_run, 160, 2500),
]
SUBS.append(one_after_the_other(SUBS, 60, 1000))
