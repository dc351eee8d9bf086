import numpy as np

from .. import payload as P
from .. import pipe, ref
from ..core import Sub, check
from .common import Tally, built, channels

RULE = (
    "every payload with a spectrometer (several bins) or a photometer counts; "
    "bins, windows and, for spectrometers, the pixel grid were compared with the "
    "model; non-trivial when a channel has at least two bins"
)


def gen(tier):
    return P.payload(
        foregrounds=False, noise=False, psf=(0.08, 0.2), n_ch=(1, 3), max_el=1, slit=False,
        classes=["photometer", "spectrometer", "spectrometer"], R=(10, 30),
    )


def run(spec):
    t = Tally()
    with pipe.folder() as d:
        b = built(spec, d)
    many = False
    for c, ch in channels(spec):
        tab = b[1][c["name"]].table
        what = "%s of " + c["name"]

        def one():
            check(
                [str(x) for x in tab["chName"]] == [c["name"]] * ch.wl.size,
                "%s: rows %s instead of %d", c["name"], list(tab["chName"]), ch.wl.size,
            )
            for n, v in (
                ("Wavelength", ch.wl), ("Bandwidth", ch.bw),
                ("LeftBinEdge", ch.left), ("RightBinEdge", ch.right),
            ):
                ref.compare(what % n, pipe.column(tab, n, "um"), v, 1e-9)
            ref.compare(what % "WindowSize", pipe.column(tab, "WindowSize", ""), ch.window, 1e-7)
            L, R = pipe.column(tab, "LeftBinEdge", "um"), pipe.column(tab, "RightBinEdge", "um")
            check(np.all(R > L), "%s: empty bins", c["name"])
            if ch.phot:
                return
            bi = b[1][c["name"]].built_instr
            for k, v, u in (
                ("pix_center", ch.x_pix, "um"), ("wl_pix_center", ch.wl_pix, "um"),
                ("pixel_bandwidth", ch.bw_pix, "um"),
                ("window_spatial_width", ch.spatial, ""),
                ("window_spectral_width", ch.spectral, ""),
            ):
                ref.compare(what % k, pipe.val(bi[k], u) if hasattr(bi[k], "unit") else bi[k], v, 1e-7, scale=ch.delta)
            if isinstance(c.get("targetR"), float):
                # what the mode is for: contiguous bins of the wanted
                # resolving power, from the lower edge to beyond the upper one
                check(np.allclose(L[1:], R[:-1], rtol=1e-9), "%s: bins not contiguous", c["name"])
                check(
                    abs(L[0] - c["wl_min"]) < 1e-9 * L[0] and R[-1] >= c["wl_max"] * (1 - 1e-9),
                    "%s: bins span %r-%r", c["name"], L[0], R[-1],
                )
                check(
                    np.allclose(L / (R - L), c["targetR"], rtol=1e-7),
                    "%s: resolving power %s", c["name"], (L / (R - L)).tolist(),
                )

        if t(one, c["class"], "targetR " + type(c.get("targetR")).__name__,
             *[k for k in ("window_spatial_scale", "window_spatial_pixel",
                           "window_spectral_pixel", "EncE") if k in c]):
            many |= ch.wl.size > 1
    return t.info(many)


SUBS = [Sub("bins", gen, run, 900, 8000)]
