import os
import random

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Reject, Sub, Violation, check, sut
from . import noise as N

RULE = (
    "a case writes the same payload and target twice, in different units; "
    "non-trivial when at least one unit differs from the usual one; every column "
    "of channels and observation has to be the same; cases whose outcome changes "
    "when the numbers of the first writing change by up to 1e-12 are set aside"
)

UNITS = {
    "wl": [("micron", 1.0), ("um", 1.0), ("nm", 1e3), ("m", 1e-6), ("Angstrom", 1e4), ("mm", 1e-3)],
    "x": [("micron", 1.0), ("mm", 1e-3), ("m", 1e-6), ("nm", 1e3)],
    "pix": [("micron", 1.0), ("mm", 1e-3), ("m", 1e-6), ("nm", 1e3)],
    "slit": [("mm", 1e-3), ("um", 1.0), ("m", 1e-6), ("cm", 1e-4)],
    "T": [("K", 1.0), ("mK", 1e3), ("kK", 1e-3)],
    "area": [("m**2", 1.0), ("cm**2", 1e4), ("m2", 1.0), ("km**2", 1e-6)],
    "angle": [("sr", 1.0), ("deg2", (180 / np.pi) ** 2), ("arcsec2", (180 * 3600 / np.pi) ** 2)],
    "count": [("count", 1.0), ("ct", 1.0), ("kct", 1e-3)],
    "rate": [("count/s", 1.0), ("ct / h", 3600.0), ("kct/s", 1e-3)],
    "freq": [("Hz", 1.0), ("kHz", 1e-3), ("1/s", 1.0), ("1/h", 3600.0), ("mHz", 1e3)],
    "time": [("s", 1.0), ("min", 1 / 60), ("h", 1 / 3600), ("ms", 1e3)],
    "wfe": [("micron", 1.0), ("nm", 1e3), ("m", 1e-6)],
    "radiance": [("W / (m2 um sr)", 1.0), ("W / (m2 nm sr)", 1e-3), ("mW / (cm2 um sr)", 0.1), ("W / (m2 m sr)", 1e6)],
    "frac": [("", 1.0), ("%", 100.0)],
    "tnoise": [("", 1.0), ("h(1/2)", 1.0), ("s(1/2)", 60.0)],
    "sed": [("W / (m2 um)", 1.0), ("W / (m2 nm)", 1e-3), ("erg / (s cm2 Angstrom)", 0.1)],
    "twl": [("um", 1.0), ("nm", 1e3), ("Angstrom", 1e4), ("m", 1e-6)],
}
# from the last digit on
STEPS = [s * k for s in (-1, 1) for k in (2.3e-16, 4.5e-16, 1e-14, 1e-12)]
STAR = {
    "M": [("M_sun", None), ("kg", None), ("M_jup", None)], "Teff": [("K", None), ("kK", None)],
    "R": [("R_sun", None), ("km", None), ("m", None), ("R_jup", None)],
    "D": [("pc", None), ("lyr", None), ("m", None), ("AU", None)],
    "ra": [("deg", None), ("hourangle", None), ("rad", None)], "dec": [("deg", None), ("rad", None), ("arcmin", None)],
}
BASE = {"M": "M_sun", "Teff": "K", "R": "R_sun", "D": "pc", "ra": "deg", "dec": "deg"}


@st.composite
def case(draw, tier):
    spec = draw(P.payload(n_ch=(1, 2), max_el=3, psf=(0.1, 0.3), R=(15, 100 if tier == "thorough" else 60)))
    lo, hi = spec["wl_min"], spec["wl_max"]
    if draw(st.booleans()):
        spec["customNoise"] = draw(N.custom_noises("cn", lo, hi))
    if draw(st.integers(0, 3)) == 3:
        spec["source"], spec["sed"] = "custom", draw(P.custom_sed(lo, hi))
    for f in spec["foregrounds"]:
        if f["name"] == "zodiacal" and draw(st.booleans()):
            f["map"] = True
    pick = {k: draw(st.sampled_from([0] + list(range(len(v))))) for k, v in UNITS.items()}
    star = {k: draw(st.sampled_from(v))[0] for k, v in STAR.items()}
    # mostly a single unit is different
    if draw(st.booleans()):
        k = draw(st.sampled_from(sorted(UNITS) + ["star"]))
        pick = {x: (max(1, v) if x == k else 0) for x, v in pick.items()}
        if k != "star":
            star = dict(BASE)
    return {"spec": spec, "target": draw(P.target()), "units": pick, "star": star}


class Jitter(P.XmlWriter):
    rng = None

    def j(self, v):
        return v * (1 + self.rng.choice(STEPS)) if self.rng else v

    def q(self, tag, kind, v):
        return super().q(tag, kind, self.j(v))

    def table(self, cols, units):
        return super().table({k: [self.j(x) for x in v] for k, v in cols.items()}, units)


def once(c, units, star, rng=None):
    import astropy.units as u

    with pipe.folder() as d:
        w = Jitter(c["spec"], d, units=units)
        w.rng = rng
        b = pipe.prepare(w.write())
        t = c["target"]
        cols = [("star name", t["name"]), ("star magk", repr(t["magk"]))]
        for k, un in star.items():
            v = t[k] if not rng else t[k] * (1 + rng.choice(STEPS))
            cols.append(("star %s [%s]" % (k, un), repr(float((v * u.Unit(BASE[k])).to(un).value))))
        p = os.path.join(d, "list.csv")
        with open(p, "w") as f:
            f.write(",".join(k for k, _ in cols) + "\n" + ",".join(v for _, v in cols) + "\n")
        tg = pipe.observe(pipe.load_targets(p).target[0], b)
        return {k: v.table for k, v in b[1].items()}, tg.table


def same(a, b, tol=1e-6):
    check(list(a[0]) == list(b[0]), "channels %s instead of %s", list(b[0]), list(a[0]))
    for k in a[0]:
        tables(a[0][k], b[0][k], "channel " + k, tol)
    tables(a[1], b[1], "observation", tol)


def tables(a, b, what, tol):
    import astropy.units as u

    check(list(a.colnames) == list(b.colnames), "%s: columns %s instead of %s", what, b.colnames, a.colnames)
    check(len(a) == len(b), "%s: %d rows instead of %d", what, len(b), len(a))
    for k in a.colnames:
        if a[k].dtype.kind in "SUO":
            check(list(a[k]) == list(b[k]), "%s: column %r", what, k)
            continue
        x = u.Quantity(a[k])
        y = sut("units of " + k, lambda: u.Quantity(b[k]).to(x.unit)).value
        x = x.value
        with np.errstate(all="ignore"):
            fin = np.abs(x[np.isfinite(x)])
            top = fin.max() if fin.size else 0.0
            ok = (np.abs(x - y) <= tol * np.abs(x) + 1e-11 * top) | (x == y) | (np.isnan(x) & np.isnan(y))
        check(bool(np.all(ok)), "%s: %r is %s with other units, instead of %s", what, k, y[:6].tolist(), x[:6].tolist())


def run(c):
    base = once(c, {}, BASE)
    units = {k: UNITS[k][i] for k, i in c["units"].items()}
    try:
        same(base, once(c, units, c["star"]))
    except Violation:
        for i in range(24):
            try:
                same(base, once(c, {}, BASE, random.Random(i)), 1e-7)
            except Violation:
                raise Reject("a matter of rounding")
        raise
    other = [k for k, i in c["units"].items() if i]
    lab = [k for k in other] + ["star " + k for k in BASE if c["star"][k] != BASE[k]]
    return {"nontrivial": bool(lab), "labels": lab}


SUBS = [Sub("units", lambda tier: case(tier), run, 420, 4000)]
