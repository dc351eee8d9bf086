import os

import numpy as np
from hypothesis import strategies as st

from .. import env, payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, one_after_the_other, sut

RULE = (
    "radiance cases are non-trivial when the expected coefficient is not zero; "
    "map cases when the entry used is decided by at least two different "
    "coefficients; the radiance is compared sample by sample with the analytic "
    "model times the expected coefficient"
)
ASSUMPTIONS = [
    "a pointing is only used when its nearest map entry is unambiguous "
    "(the second nearest is at least 1e-6 deg farther)"
]

MAP = os.path.join(env.REPO, "exorad", "data", "Zodi_map.hdf5")
_map = None


def shipped():
    global _map
    if _map is None:
        import h5py

        with h5py.File(MAP, "r") as f:
            ds = [f[k] for k in f if getattr(f[k], "dtype", None) is not None and f[k].dtype.names]
            t = [d for d in ds if "zodi_coeff" in d.dtype.names][0]
            _map = [np.array(t[c], float) for c in ("ra_icrs", "dec_icrs", "zodi_coeff")]
    return _map


def xyz(ra, dec):
    ra, dec = np.radians(ra), np.radians(dec)
    return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])


def nearest(m, ra, dec):
    d = np.degrees(
        2 * np.arcsin(np.minimum(1, 0.5 * np.linalg.norm(
            xyz(m[0], m[1]) - xyz(ra, dec)[:, None], axis=0)))
    )
    i = np.argsort(d)
    if d.size > 1 and d[i[1]] - d[i[0]] < 1e-6 and m[2][i[0]] != m[2][i[1]]:
        raise Reject("pointing half way between map entries")
    return float(m[2][i[0]])


@st.composite
def pointing(draw):
    if draw(st.booleans()):
        return [draw(P.fl(0.0, 359.999, 7)), draw(P.fl(-90.0, 90.0, 7))]
    # next to an entry of the shipped map
    m = shipped()
    i = draw(st.integers(0, m[0].size - 1))
    return [
        float(min(359.9999, max(0.0, m[0][i] + draw(P.fl(-0.3, 0.3, 3))))),
        float(min(90.0, max(-90.0, m[1][i] + draw(P.fl(-0.3, 0.3, 3))))),
    ]


@st.composite
def gen(draw, tier):
    lo = draw(P.fl(0.3, 10.0, 5))
    c = {
        "wl": [lo, P.sig(lo * draw(P.fl(1.05, 20.0, 4)))],
        "factor": draw(P.maybe(P.fl(0.0, 30.0, 5), 0.8)),
        "map": draw(st.sampled_from([None, False, True, True, True])),
        "coord": draw(P.maybe(pointing(), 0.85)),
        "only": draw(st.sampled_from([None, None, "ra", "dec"])),
        "unit": draw(st.sampled_from(["deg", "deg", "rad", "hourangle"])),
        "file": None,
        "via": draw(st.sampled_from(["zodi", "list", "single"])),
    }
    k = draw(st.integers(0, 4))
    if k >= 2:
        n = draw(st.integers(1, 12))
        c["file"] = [
            draw(st.lists(P.fl(0.0, 359.999, 6), min_size=n, max_size=n)),
            draw(st.lists(P.fl(-90.0, 90.0, 6), min_size=n, max_size=n)),
            draw(st.lists(P.fl(0.1, 9.0, 4), min_size=n, max_size=n)),
        ]
    elif k == 1:
        c["file"] = draw(st.sampled_from(["missing", "not HDF5", "no columns"]))
    return c


def expected(c):
    """the coefficients the description allows"""
    fall = c["factor"] if c["factor"] is not None else 0.0
    if c["map"] and c["coord"]:
        if c["file"] == "missing":  # nobody says: the shipped map, or the factor
            return [nearest(shipped(), *c["coord"]), fall]
        if isinstance(c["file"], str):
            return [fall]
        return [nearest(
            shipped() if c["file"] is None else [np.array(v) for v in c["file"]],
            *c["coord"],
        )]
    return [fall]


def describe(c, d):
    z = {"value": "zodiacal"}
    if c["factor"] is not None:
        z["zodiacFactor"] = {"value": c["factor"]}
    if c["map"] is not None:
        z["zodiacalMap"] = {"value": c["map"]}
    if isinstance(c["file"], str):
        p = os.path.join(d, "map.hdf5")
        z["custom_map_file"] = {"value": p}
        if c["file"] == "not HDF5":
            with open(p, "w") as f:
                f.write("ra_icrs,dec_icrs,zodi_coeff\n0,0,1\n")
        elif c["file"] == "no columns":
            from astropy.table import Table

            Table({"ra_icrs": [1.0, 2.0]}).write(p, path="zodi", format="hdf5")
    elif c["file"] is not None:
        z["custom_map_file"] = {"value": write_map(c["file"], d)}
    return z


def write_map(m, d):
    from astropy.table import Table

    p = os.path.join(d, "map.hdf5")
    t = Table({"ra_icrs": m[0], "dec_icrs": m[1], "zodi_coeff": m[2]})
    t.write(p, path="zodi", format="hdf5", overwrite=True)
    return p


def run(c):
    import astropy.units as u
    from collections import OrderedDict
    from exorad.models.target import Target

    T = pipe.tasks()
    allowed = expected(c)
    tgt = Target()
    tgt.name, tgt.star = "t", Target()
    if c["coord"]:
        tgt.star.ra = (c["coord"][0] * u.deg).to(u.Unit(c["unit"]))
        tgt.star.dec = (c["coord"][1] * u.deg).to(u.Unit(c["unit"]))
    elif c["only"]:
        # half of the coordinates does not make a pointing
        setattr(tgt.star, c["only"], 10.0 * u.deg)
    rng = (c["wl"][0] * u.um, c["wl"][1] * u.um)
    with pipe.folder() as d:
        z = describe(c, d)
        if c["via"] == "zodi":
            f = lambda: T.EstimateZodi()(zodi=z, target=tgt, wl_range=rng)
        else:
            fr = z if c["via"] == "single" else OrderedDict(zodiacal=z)
            f = lambda: T.EstimateForegrounds()(foregrounds=fr, target=tgt, wl_range=rng)
        out = sut("estimating the zodiacal foreground", f)
    check(list(out.foreground) == ["zodi"], "foregrounds: %s", list(out.foreground))
    r = out.foreground["zodi"]
    wl = pipe.val(r.wl_grid, "um")
    check(
        abs(wl[0] / c["wl"][0] - 1) < 1e-9 and abs(wl[-1] / c["wl"][1] - 1) < 1e-9
        and np.all(np.diff(wl) > 0),
        "the radiance covers %r-%r", wl[0], wl[-1],
    )
    check(not hasattr(out, "skyTransmission"), "the zodiacal light attenuates the target")
    got = pipe.val(r.data, "W/(m2 um sr)")
    for A in allowed:
        want = ref.zodi_radiance(wl, A)
        bad = np.where(~(np.abs(got - want) <= 1e-7 * want + 1e-300))[0]
        if not bad.size:
            break
    else:
        i = bad[0]
        check(False, "radiance at %r um is %r, expected %r (coefficient %r)", wl[i], got[i], want[i], A)
    many = c["file"] is None or (isinstance(c["file"], list) and len(set(c["file"][2])) > 1)
    mapped = bool(c["map"] and c["coord"] and not isinstance(c["file"], str))
    return {
        "nontrivial": A != 0 and (not mapped or many),
        "labels": [
            "coefficient from " + ("the map" if mapped else "the factor"),
            "map file " + (c["file"] if isinstance(c["file"], str) else "custom" if c["file"] else "shipped"),
        ],
    }


# the whole pipeline: a map gives what its coefficient as a factor gives
@st.composite
def gen2(draw, tier):
    spec = draw(
        P.payload(noise=False, n_ch=(1, 1), max_el=1, R=(20, 40),
                  psf=(0.08, 0.2), foregrounds=False, tables=False)
    )
    return [spec, draw(P.target()), draw(pointing()), draw(P.fl(0.1, 9.0, 4))]


def run2(case):
    spec, tg, (ra, dec), factor = case
    A = nearest(shipped(), ra, dec)
    tg = dict(tg, ra=ra, dec=dec)
    out = []
    with pipe.folder() as d:
        for z in (
            {"name": "zodiacal", "factor": factor, "map": True},
            {"name": "zodiacal", "factor": A},
        ):
            s = dict(spec, foregrounds=[z])
            b = pipe.build(s, d)
            t = pipe.observe(pipe.make_targets([tg], d)[0], b).table
            out.append(t)
    for n in ("zodi_signal", "zodi_MaxSignal_inPixel"):
        a, b = (pipe.column(t, n, "count/s") for t in out)
        check(
            np.allclose(a, b, rtol=1e-7, atol=1e-250),
            "%s with the map: %s, with its coefficient: %s", n, a.tolist(), b.tolist(),
        )
    return {"nontrivial": bool(np.any(a > 0)), "labels": ["whole pipeline"]}


SUBS = [
    Sub("radiance", lambda tier: gen(tier), run, 700, 8000),
    Sub("pipeline", lambda tier: gen2(tier), run2, 150, 1500),
]
SUBS.append(one_after_the_other(SUBS, 60, 1000))
