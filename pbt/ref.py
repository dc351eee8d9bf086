"""Reference model: what the documented physics gives for a payload
specification (see payload.py) and a target, computed with numpy/scipy only,
without any code of the package under test.

Values are floats in um, s, count, K, W, m2, sr. Where the specification makes
a discrete decision (is this sample inside that bin?) on numbers that agree to
within rounding, the model either offers both outcomes (`Either`) or rejects
the case, so that a behaviour-preserving rewrite is never blamed."""
import numpy as np
from scipy.interpolate import CubicSpline
from scipy.special import j1

from .core import Reject

C = 299792458.0
H = 6.62607015e-34
R_SUN = 695700000.0
PC = 3.0856775814913674e16
L_SUN = 3.828e26
M_SUN = 1.988409870698051e30
G_N = 6.6743e-11
HC = H * C
EPS = 1e-10


def planck(wl, T):
    """W m-2 sr-1 um-1, wl in um"""
    with np.errstate(over="ignore"):
        return 1.191042768e8 / wl**5 / np.expm1(14387.7516 / (wl * T))


def photons(wl):
    """1/J for wl in um"""
    return wl * 1e-6 / HC


def trapz(y, x):
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * np.diff(x)))


def omega_pix(fx, fy):
    """solid angle of the cone whose base is the ellipse of semi-axes 1/2F"""
    a, b = 0.5 / fx, 0.5 / fy
    n = 512
    phi = (np.arange(n) + 0.5) * 2 * np.pi / n
    r2 = 1.0 / ((np.cos(phi) / a) ** 2 + (np.sin(phi) / b) ** 2)
    # 1 - 1/sqrt(1+r2), without cancellation
    s = np.sqrt(1 + r2)
    return float(np.sum(r2 / (s * (1 + s))) * 2 * np.pi / n)


def undecided(a, b, eps=EPS):
    return np.abs(a - b) <= eps * np.maximum(np.abs(a), np.abs(b))


def interp(x, xp, fp, out=0.0):
    """piecewise linear through the (unsorted) samples, `out` elsewhere"""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    x = np.asarray(x, float)
    i = np.argsort(xp, kind="stable")
    for lim, val in ((xp[i[0]], fp[i[0]]), (xp[i[-1]], fp[i[-1]])):
        if val != out and np.any(undecided(x, lim, 1e-12) & (x != lim)):
            raise Reject("sample on the edge of a table")
    return np.interp(x, xp[i], fp[i], left=out, right=out)


def extrap(x, xp, fp):
    """piecewise linear, the end segments prolonged"""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    i = np.argsort(xp, kind="stable")
    xp, fp = xp[i], fp[i]
    x = np.asarray(x, float)
    k = np.clip(np.searchsorted(xp, x) - 1, 0, xp.size - 2)
    return fp[k] + (fp[k + 1] - fp[k]) * (x - xp[k]) / (xp[k + 1] - xp[k])


def rebin(x, xp, fp, mode=False):
    """bin average when the samples are denser than the new grid everywhere,
    linear interpolation (0 outside) otherwise; empty bins give 0"""
    x, xp, fp = (np.asarray(v, float) for v in (x, xp, fp))
    ok = ~np.isnan(xp)
    xp, fp = xp[ok], fp[ok]
    i = np.argsort(xp, kind="stable")
    xp, fp = xp[i], fp[i]
    keep = np.append(np.diff(xp) > 0, True)  # of duplicates, the last
    xp, fp = xp[keep], fp[keep]
    lo, hi = 0.9 * x.min(), 1.1 * x.max()
    inside = (xp > lo) & (xp < hi)
    dec = False
    if x.size > 1 and inside.sum() > 1:
        dmax, dmin = np.diff(xp[inside]).max(), np.diff(x).min()
        if np.any(undecided(xp, lo)) or np.any(undecided(xp, hi)):
            # crop membership only matters through the spacing it adds
            raise Reject("sample on the crop limit of a rebinning")
        if undecided(dmax, dmin, 1e-9):
            raise Reject("rebinning or interpolating is undecided")
        dec = dmax < dmin
    if dec:
        xi, fi = xp[inside], fp[inside]
        mid = 0.5 * (x[1:] + x[:-1])
        e = np.concatenate(
            [[x[0] - (mid[0] - x[0]) / 2], mid, [x[-1] + (x[-1] - mid[-1]) / 2]]
        )
        j = np.searchsorted(e, xi, side="right") - 1
        d = np.abs(xi[:, None] - e[None, :]) if xi.size * e.size < 4e6 else None
        if d is not None:
            if np.any(d <= EPS * np.abs(e)[None, :]):
                raise Reject("sample on a bin edge of a rebinning")
        if np.any(np.abs(xi - e[-1]) <= 2e-5 * np.diff(e).min()):
            raise Reject("sample on the last edge of a rebinning")
        y = np.zeros(x.size)
        n = np.zeros(x.size)
        m = (j >= 0) & (j < x.size)
        np.add.at(y, j[m], fi[m])
        np.add.at(n, j[m], 1)
        with np.errstate(invalid="ignore", divide="ignore"):
            y = np.where(n > 0, y / np.maximum(n, 1), 0.0)
    else:
        y = interp(x, xp, fp)
        y = np.where(np.isnan(y), 0.0, y)
    return (y, dec) if mode else y


class Either:
    """acceptable outcomes of one number"""

    def __init__(self, vals):
        self.vals = list(vals)


def inside_bins(wl, left, right, lo_open, hi_open):
    """for each bin, the list of acceptable index arrays"""
    out = []
    for l, r in zip(left, right):
        amb = np.where(undecided(wl, l, 1e-9) | undecided(wl, r, 1e-9))[0]
        sure = (wl > l) & (wl < r)
        sure[amb] = False
        s = np.where(sure)[0]
        if amb.size > 4:
            raise Reject("too many samples on the edges of a bin")
        alts = []
        for k in range(2 ** amb.size):
            add = [a for n, a in enumerate(amb) if k >> n & 1]
            alts.append(np.sort(np.concatenate([s, add]).astype(int)))
        out.append(alts)
    return out


# ------------------------------------------------------------------------ PSF


def pixel_kernel(k):
    n = int(np.floor(k))
    w = np.ones(n + 2)
    w[0] = w[-1] = 0.5 * (k - n)
    return w


def same_matrix(w, n):
    """matrix of the 'same' convolution of n samples with w"""
    M = np.zeros((n, n))
    off = (w.size - 1) // 2
    for t in range(w.size):
        # out[i] = sum_t w[t] in[i + off - t]
        j = np.arange(n) + off - t
        ok = (j >= 0) & (j < n)
        M[np.arange(n)[ok], j[ok]] += w[t]
    return M


_airy = None


def airy():
    global _airy
    if _airy is None:
        x = np.linspace(-4.0, 4.0, 256)
        r = np.pi * np.hypot(*np.meshgrid(x, x)) + 1e-10
        a = (2 * j1(r) / r) ** 2
        _airy = a / a.sum()
    return _airy


STEP = 8.0 / 255.0


def prf_airy(fx, fy, wl, delta):
    """Airy image sampled every 8/255 F lambda, convolved with the pixel"""
    kx, ky = delta / (fx * wl * STEP), delta / (fy * wl * STEP)
    for k in (kx, ky):
        if abs(k - round(k)) < 1e-9:
            raise Reject("pixel is a whole number of PSF samples")
    wx, wy = pixel_kernel(kx), pixel_kernel(ky)
    a = airy()
    im = same_matrix(wy, 256) @ a @ same_matrix(wx, 256).T
    return im, wx, wy


def whole(n, what, rounded):
    """as many as the numbers say, when they say a whole number"""
    d = abs(n - round(n))
    if 1e-11 < d < 1e-8:
        raise Reject("nearly a whole number of " + what)
    return int(round(n)) if d <= 1e-11 else int(rounded(n))


# ------------------------------------------------------------------- channel


def logspace(a, b, n):
    return np.logspace(np.log10(a), np.log10(b), n)


def col(d, name):
    return d[name] if name in d else d[name.lower()]


class Element:
    def __init__(self, el, wl):
        self.name, self.type = el["name"], el["type"]
        self.T = el.get("T")
        self.angle = el.get("solid_angle")
        self.width = el.get("width")
        one = np.ones(wl.size)
        if "data" in el:
            d = el["data"]
            w = col(d, "Wavelength")
            if "use" in el:
                c = el["use"]
            else:
                c = "Transmission" if "Transmission" in d else "Reflectivity"
            self.tr = interp(wl, w, d[c])
            self.em = interp(wl, w, col(d, "Emissivity"))
        else:
            if "tr" in el and "refl" in el:
                self.tr = one * el[{"transmission": "tr", "reflectivity": "refl"}[el["use"]]]
            else:
                self.tr = one * el.get("tr", el.get("refl", 1.0))
            if "em" in el:
                self.em = one * el["em"]
            else:
                self.em = one if self.type == "detector box" else 0 * one
        for k, s in (("wl_min", -1), ("wl_max", 1)):
            if k in el:
                if np.any(undecided(wl, el[k])):
                    raise Reject("grid point on the edge of a filter")
                self.tr = np.where(s * (wl - el[k]) > 0, 0.0, self.tr)


class Channel:
    def __init__(self, spec, c, psf=True):
        self.spec, self.c = spec, c
        self.name = c["name"]
        self.det = det = c["detector"]
        self.R = spec.get("R") or 6000
        self.G = logspace(det["wl_min"], det["cut_off"], self.R)
        self.delta = det["delta_pix"]
        self.A = (self.delta * 1e-6) ** 2
        self.omega = omega_pix(c["Fx"], c["Fy"])
        self.force = bool(spec["force"])
        self.phot = c["class"] == "photometer"
        if self.phot:
            self._photometer()
        else:
            self._pixels()
            self._bins()
            self._windows()
        self._qe()
        self._optics()
        self._psf_done = False

    # -- grids
    def _photometer(self):
        c = self.c
        self.wl = np.array([0.5 * (c["wl_min"] + c["wl_max"])])
        self.bw = np.array([c["wl_max"] - c["wl_min"]])
        self.left, self.right = self.wl - self.bw / 2, self.wl + self.bw / 2
        r = c["aperture"].get("radius")
        self.window = (
            None
            if r is None
            else np.array([r**2 * c["Fx"] * c["Fy"] * self.wl[0] ** 2 / self.delta**2])
        )
        self.spatial = None

    def wl_of(self, x):
        return extrap(x, self.c["wlsol"]["x"], self.c["wlsol"]["Wavelength"])

    def x_of(self, wl):
        return extrap(wl, self.c["wlsol"]["Wavelength"], self.c["wlsol"]["x"])

    def _pixels(self):
        c = self.c
        a, b = sorted([float(self.x_of(c["wl_min"])), float(self.x_of(c["wl_max"]))])
        n = (b - a) / self.delta
        n = whole(n, "pixels across the channel", np.ceil)
        self.x_pix = (a + self.delta * np.arange(n))[::-1]
        self.wl_pix = self.wl_of(self.x_pix)
        self.bw_pix = np.abs(
            self.wl_of(self.x_pix - self.delta / 2)
            - self.wl_of(self.x_pix + self.delta / 2)
        )

    def _bins(self):
        c = self.c
        R = c.get("targetR")
        lo, hi = c["wl_min"], c["wl_max"]
        if R is None or R == "native":
            i = np.argsort(self.wl_pix)
            self.wl, self.bw = self.wl_pix[i], self.bw_pix[i]
            self.edges = np.append(
                self.wl - self.bw / 2, self.wl[-1] + self.bw[-1] / 2
            )
        else:
            if isinstance(R, dict):
                e = [lo]
                while e[-1] < hi:
                    w = e[-1] + e[-1] / float(np.interp(e[-1], R["W"], R["R"]))
                    if abs(w * 1e4 % 1 - 0.5) < 1e-6:
                        raise Reject("bin edge rounding is undecided")
                    w = np.round(w, 4)
                    if abs(w - hi) < 1e-9 and w != hi:
                        raise Reject("last bin is undecided")
                    e.append(w)
                if len(e) > 2:
                    d = (hi - e[-2]) - (e[-2] - e[-3]) / 2
                    if abs(d) < 1e-9:
                        raise Reject("last bin is undecided")
                    if d < 0:
                        e = e[:-2] + [hi]
                e = np.array(e)
            else:
                n = np.log(hi / lo) / np.log1p(1 / R)
                n = whole(n, "spectral bins", np.ceil)
                e = lo * (1 + 1 / R) ** np.arange(n + 1)
            self.edges = e
            self.wl, self.bw = 0.5 * (e[1:] + e[:-1]), np.diff(e)
        self.left, self.right = self.wl - self.bw / 2, self.wl + self.bw / 2

    def _windows(self):
        c = self.c
        spec = np.abs(np.diff(self.x_of(self.edges))) / self.delta
        r = 1.22
        if "EncE" in c:
            r = extrap(self.wl, c["EncE"]["Wavelength"], c["EncE"]["EE"])
        spat = 2 * r * c["Fy"] * self.wl / self.delta * c.get("window_spatial_scale", 1.0)
        one = np.ones(self.wl.size)
        if "window_spatial_pixel" in c:
            spat = one * c["window_spatial_pixel"]
        if "window_spectral_pixel" in c:
            spec = one * c["window_spectral_pixel"]
        self.spatial, self.spectral = spat, spec
        self.window = spat * spec

    # -- efficiency
    def _qe(self):
        q = self.det["qe"]
        if isinstance(q, dict):
            self.qe_tab = (col(q, "Wavelength"), q[self.name])
        else:
            self.qe_tab = (self.G, q * np.ones(self.G.size))
        self.QE = self._at_centres(*self.qe_tab)

    def _at_centres(self, w, y):
        v = interp(self.wl, w, y)
        # wavelengths on the very edge of the tabulated range
        for lim in (np.min(w), np.max(w)):
            if np.any(undecided(self.wl, lim)):
                raise Reject("bin centre on the edge of a table")
        return np.array(
            [
                np.mean(v[(self.wl >= l) & (self.wl < r)])
                for l, r in zip(self.left, self.right)
            ]
        )

    def out_of_channel(self, wl):
        lo, hi = self.c["wl_min"], self.c["wl_max"]
        if np.any(undecided(wl, lo)) or np.any(undecided(wl, hi)):
            raise Reject("sample on the edge of the channel")
        return (wl < lo) | (wl > hi)

    def masked(self, wl, y):
        return np.where(self.out_of_channel(wl), 0.0, y) if self.force else y

    def masked_bins(self, y):
        """per bin; a pixel sits on the channel edge by construction"""
        if not self.force:
            return list(y)
        lo, hi = self.c["wl_min"], self.c["wl_max"]
        out = []
        for w, v in zip(self.wl, y):
            if undecided(w, lo, 1e-9) or undecided(w, hi, 1e-9):
                out.append(Either([v, 0.0]))
            else:
                out.append(0.0 if w < lo or w > hi else v)
        return out

    def _optics(self):
        self.elements = [
            Element(e, self.G) for e in self.spec["optics"] + self.c["optics"]
        ]
        tot = np.ones(self.G.size)
        seen = set()
        for e in self.elements:
            n, name = 1, e.name
            while e.name in seen:
                n += 1
                e.name = "%s (%d)" % (name, n)
            seen.add(e.name)
        for e in self.elements:
            tot = tot * e.tr
        self.T_path = tot
        self.TR = self.masked_bins(self._at_centres(self.G, tot))
        self.T_inst = self.masked(self.G, tot)
        s = [e.width for e in self.elements if e.type == "slit"]
        self.slit = s[-1] if s else None

    # -- diffuse light
    def integrate(self, wl, rad_omega, qe):
        s = trapz(rad_omega * self.A * qe * photons(wl), wl)
        return s * self.window, np.full(self.wl.size, s)

    def through_slit(self, wl, rad, qe_w, qe_y):
        """dispersed on the detector: per bin acceptable (sum, max)"""
        k = self.slit / self.delta
        k = whole(k, "pixels across the slit", np.floor)
        s = rebin(self.wl_pix, wl, rad)
        s = s * self.omega * self.A * interp(self.wl_pix, qe_w, qe_y)
        s = s * photons(self.wl_pix) * self.bw_pix
        n = s.size
        off = (k - 1) // 2
        pad = np.concatenate([np.zeros(k), s, np.zeros(k)])
        # 'same' part of the full convolution
        conv = np.array([pad[k + i + off - k + 1 : k + i + off + 1].sum() for i in range(n)])
        sums, maxs = [], []
        for b, alts in enumerate(
            inside_bins(self.wl_pix, self.left, self.right, True, False)
        ):
            alts = [a for a in alts if a.size]
            if not alts:
                raise Reject("no pixel in a bin")
            sums.append(Either(conv[a].sum() * self.spatial[b] for a in alts))
            maxs.append(Either(conv[a].max() for a in alts))
        return sums, maxs

    def radiance(self, i):
        """of the i-th element, behind the last one"""
        rad = self.elements[i].em * planck(self.G, self.elements[i].T)
        for o in self.elements[i + 1 :]:
            rad = rad * o.tr
        return rad

    def radiances(self):
        return [
            (e.name, self.radiance(i))
            for i, e in enumerate(self.elements)
            if e.T is not None
        ]

    def emission(self):
        """name -> (signal, max) for each emitting element, in path order"""
        out = {}
        qe_G = rebin(self.G, *self.qe_tab)
        for i, e in enumerate(self.elements):
            if e.T is None:
                continue
            rad = self.radiance(i)
            slit = any(o.type == "slit" for o in self.elements[i + 1 :])
            if slit:
                if e.angle is not None:
                    raise Reject("custom solid angle in front of a slit")
                out[e.name] = self.through_slit(self.G, rad, self.G, qe_G)
            else:
                if e.angle is not None:
                    om = e.angle
                elif e.type == "detector box":
                    om = np.pi
                elif e.type == "optics box":
                    om = np.pi - self.omega
                else:
                    om = self.omega
                out[e.name] = self.integrate(self.G, rad * om, qe_G)
        return out

    def foregrounds(self, frg, S):
        """frg: list of (name, radiance, transmission or None), far to near,
        sampled on S; name -> (signal, max)"""
        t = rebin(S, self.G, self.T_inst)
        out = {}
        for name, rad, tr in reversed(frg):
            r = rad * t
            if tr is not None:
                t = t * tr
            if self.slit is not None:
                out[name] = self.through_slit(S, r, *self.qe_tab)
            else:
                out[name] = self.integrate(S, r * self.omega, rebin(S, *self.qe_tab))
        return out

    # -- target
    def efficiency(self, S, sky=None):
        q = rebin(S, *self.qe_tab)
        t = rebin(S, self.G, self.T_inst)
        if sky is not None:
            t = t * sky
        return q * self.masked(S, t)

    def star(self, S, sed, sky=None):
        """dict of columns; sed W/m2/um on S"""
        out = {}
        eff = self.efficiency(S, sky)
        dens = self.spec["Atel"] * eff * sed * photons(S)
        win = self.masked(S, np.ones(S.size))
        if self.phot:
            out["starFlux"] = np.array([trapz(sed * win, S)])
            s = np.array([trapz(dens, S)])
            out["starSignal"] = s
            ap = self.c["aperture"]
            k = ap.get("apertureCorrection", ap.get("EnE", 1.0))
            out["star_signal_inAperture"] = s * k
        else:
            f, s = [], []
            for l, r in zip(self.left, self.right):
                if np.any(undecided(S, l)) or np.any(undecided(S, r)):
                    raise Reject("grid point on the edge of a bin")
                m = (S >= l) & (S < r)
                f.append(trapz(sed * win * m, S))
                s.append(trapz(dens * m, S))
            out["starFlux"] = np.array(f)
            out["starSignal"] = out["star_signal_inAperture"] = np.array(s)
        if sky is not None:
            for lim in (S[0], S[-1]):
                if np.any(undecided(self.wl, lim)):
                    raise Reject("bin centre on the edge of a table")
            out["foreground_transmission"] = self.masked_bins(
                self._at_centres(S, sky)
            )
        self.dens = dens
        return out

    def gain(self):
        c = self.c
        wl = np.linspace(self.wl_pix.min(), self.wl_pix.max(), 10)
        g = []
        for w in wl:
            im, wx, wy = prf_airy(c["Fx"], c["Fy"], w, self.delta)
            v = im.sum(axis=0).max() / (wx.max() * wy.sum())
            if "WFErms" in c:
                v *= np.exp(-((2 * np.pi * c["WFErms"] / w) ** 2))
            g.append(v)
        return wl, np.array(g)

    def star_max(self, S):
        """brightest pixel; after star()"""
        if self.phot:
            im, _, _ = prf_airy(self.c["Fx"], self.c["Fy"], self.wl[0], self.delta)
            return [Either([im.max() * trapz(self.dens, S)])]
        w, g = self.gain()
        p = rebin(self.wl_pix, S, self.dens) * self.bw_pix
        p = p * CubicSpline(w, g)(self.wl_pix)
        out = []
        for alts in inside_bins(self.wl_pix, self.left, self.right, True, True):
            alts = [a for a in alts if a.size]
            if not alts:
                raise Reject("no pixel in a bin")
            out.append(Either(p[a].max() for a in alts))
        return out


def sky_grid(spec):
    return logspace(spec["wl_min"], spec["wl_max"], spec.get("R") or 6000)


def zodi_radiance(S, A):
    return A * (3.5e-14 * planck(S, 5500.0) + 3.58e-8 * planck(S, 270.0))


def sky(spec, S, zodi=None):
    """-> list of (column name, radiance, transmission), total transmission"""
    out, tot = [], None
    for f in spec["foregrounds"]:
        if f["name"] == "zodiacal":
            A = zodi if zodi is not None else f.get("factor", 0.0)
            out.append(("zodi", zodi_radiance(S, A), None))
        else:
            d = f["data"]
            w = d["Wavelength"]
            for lim in (min(w), max(w)):
                if np.any(undecided(S, lim)):
                    raise Reject("grid point on the edge of a sky table")
            t = interp(S, w, d["Transmission"], 1.0)
            out.append((f["name"], interp(S, w, d["Radiance"]), t))
            tot = t if tot is None else tot * t
    return out, tot


def planck_star(spec, t, S):
    wl = np.linspace(spec["wl_min"], spec["wl_max"], 10000)
    sed = np.pi * (t["R"] * R_SUN / (t["D"] * PC)) ** 2 * planck(wl, t["Teff"])
    lum = 4 * np.pi * (t["D"] * PC) ** 2 * trapz(sed, wl) / L_SUN
    return rebin(S, wl, sed), lum


# ---------------------------------------------------------------- comparison


def close(got, want, rtol, atol=0.0):
    if isinstance(want, Either):
        return any(close(got, w, rtol, atol) for w in want.vals)
    if np.isnan(want) or np.isnan(got):
        return bool(np.isnan(want) and np.isnan(got))
    if np.isinf(want) or np.isinf(got):
        return bool(got == want)
    return abs(got - want) <= atol + rtol * abs(want) + 1e-250


def compare(what, got, want, rtol=1e-6, scale=None):
    """elementwise; `scale`: values below 1e-9 of it are zero"""
    from .core import check

    got = np.atleast_1d(np.asarray(got, float))
    check(len(got) == len(want), "%s: %d values instead of %d", what, len(got), len(want))
    atol = 0.0 if scale is None else 1e-9 * scale
    for i, (g, w) in enumerate(zip(got, want)):
        if not close(g, w, rtol, atol):
            e = w.vals if isinstance(w, Either) else w
            check(False, "%s: value %d is %r, expected %r", what, i, float(g), e)


def names_of(e):
    return [x["name"] for x in e]
