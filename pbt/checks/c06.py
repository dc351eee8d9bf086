import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, one_after_the_other, quiet, sut
from .common import CT

RULE = (
    "library cases are non-trivial when at least two models of the library "
    "differ; the other cases when the spectrum is not zero; sampled spectrum, "
    "luminosity, name of the model and what the target carries afterwards are "
    "compared with the reference"
)
ASSUMPTIONS = [
    "a library model is only asked for when the nearest one is unambiguous",
    "whether the last sample of a library spectrum is used is not decided",
]

SUN_LOGG = lambda M, R: float(
    np.log10(ref.G_N * M * ref.M_SUN / (R * ref.R_SUN) ** 2 * 100)
)


def star_target(tg, units=None):
    import astropy.units as u
    from exorad.models.target import Target

    t = Target()
    t.name, t.star = tg["name"], Target()
    t.star.name = tg["name"]
    base = {"M": u.M_sun, "R": u.R_sun, "D": u.pc, "Teff": u.K}
    for k, un in base.items():
        if k in tg:
            q = tg[k] * un
            if units and k in units:
                q = q.to(u.Unit(units[k]))
            setattr(t.star, k, q)
    return t


@st.composite
def span(draw):
    lo = draw(P.fl(0.3, 6.0, 5))
    return [lo, P.sig(lo * draw(P.fl(1.1, 8.0, 4)))]


@st.composite
def star(draw):
    tg = draw(P.target())
    tg["units"] = {
        k: draw(st.sampled_from(v))
        for k, v in {
            "M": ["solMass", "kg", "jupiterMass"],
            "R": ["solRad", "km", "m"],
            "D": ["pc", "lyr", "m"],
            "Teff": ["K", "kK"],
        }.items()
    }
    return tg


def load(c, tgt, source):
    import astropy.units as u
    from exorad.utils.passVal import PassVal

    T = pipe.tasks()
    PassVal.working_R = c["R"]
    lo, hi = c["wl"]
    how = c["how"]
    if how == "um":
        rng = (lo * u.um, hi * u.um)
    elif how == "nm":
        rng = ((lo * u.um).to(u.nm), (hi * u.um).to(u.nm))
    elif how == "swapped":
        rng = (hi * u.um, lo * u.um)
    else:
        rng = (lo, hi)
    return sut(
        "loading the source",
        lambda: T.LoadSource()(target=tgt, source=source, wl_range=rng),
    )


def judge(c, out, tgt, sed, lums, model):
    check(len(out) == 2, "LoadSource returns %d values", len(out))
    t, s = out
    S = ref.logspace(c["wl"][0], c["wl"][1], c["R"])
    wl = pipe.val(s.wl_grid, "um")
    ref.compare("wavelengths of the source", wl, S, 1e-9)
    ref.compare("source spectrum", pipe.val(s.data, "W/(m2 um)"), sed)
    check(t is tgt, "another target is returned")
    ref.compare(
        "spectrum of the star", pipe.val(t.star.sed.data, "W/(m2 um)"), sed
    )
    ref.compare(
        "luminosity [Lsun]", [float(pipe.val(t.star.luminosity, "solLum"))], [ref.Either(lums)]
    )
    check(t.star.model == model, "model %r instead of %r", t.star.model, model)


# ------------------------------------------------------------ black bodies


@st.composite
def planck_case(draw, tier):
    return {
        "wl": draw(span()),
        "R": draw(st.integers(5, 300)),
        "how": draw(st.sampled_from(["um", "um", "nm", "swapped", "plain"])),
        "star": draw(star()),
        "source": draw(
            st.sampled_from(["planck", "Planck", "PLANCK", "plank", "blackbody", "sun"])
        ),
        "as": draw(st.sampled_from(["dict", "dict", "str"])),
    }


def planck_run(c):
    tg = c["star"]
    tgt = star_target(tg, tg["units"])
    src = c["source"] if c["as"] == "str" else {"value": c["source"]}
    out = load(c, tgt, src)
    S = ref.logspace(c["wl"][0], c["wl"][1], c["R"])
    sed, lum = ref.planck_star({"wl_min": c["wl"][0], "wl_max": c["wl"][1]}, tg, S)
    judge(c, out, tgt, sed, [lum], "Planck")
    return {
        "nontrivial": bool((sed > 0).any()),
        "labels": ["range given as " + c["how"],
                   "planck" if c["source"].lower() == "planck" else "unknown kind"],
    }


# -------------------------------------------------------------- custom file


@st.composite
def custom_case(draw, tier):
    wl = draw(span())
    return {
        "wl": wl,
        "R": draw(st.integers(5, 200)),
        "how": draw(st.sampled_from(["um", "nm", "swapped"])),
        "star": draw(star()),
        "sed": draw(P.custom_sed(*wl)),
        "wlu": draw(st.sampled_from(["um", "um", "nm", "m"])),
        "fu": draw(st.sampled_from(["W / (m2 um)", "W / (m2 um)", "erg / (s cm2 um)", "W / (m2 nm)"])),
        "kind": draw(st.sampled_from(["custom", "Custom"])),
        "only_RD": draw(st.booleans()),
        "order": draw(st.sampled_from(["up", "up", "down", "mixed"])),
    }


def custom_run(c):
    import astropy.units as u

    tg = c["star"]
    have = {k: v for k, v in tg.items() if k in ("name", "R", "D") or not c["only_RD"]}
    tgt = star_target(have, tg["units"])
    if c["only_RD"]:
        tgt.star.M = tgt.star.Teff = None
    w = np.array(c["sed"]["Wavelength"])
    f = np.array(c["sed"]["Sed"])
    if c["order"] != "up":
        i = np.arange(w.size)[::-1]
        if c["order"] == "mixed":
            i = np.concatenate([i[::2], i[1::2]])
        w, f = w[i], f[i]
    k1 = u.um.to(c["wlu"])
    k2 = u.Unit("W/(m2 um)").to(c["fu"])
    with pipe.folder() as d:
        fn = os.path.join(d, "sed.csv")
        P.ecsv(fn, {"Wavelength": w * k1, "Sed": f * k2}, {"Wavelength": c["wlu"], "Sed": c["fu"]})
        out = load(c, tgt, {"value": c["kind"], "CustomSed": {"value": fn}})
    S = ref.logspace(c["wl"][0], c["wl"][1], c["R"])
    k = (tg["R"] * ref.R_SUN / (tg["D"] * ref.PC)) ** 2
    for lim in (w.min(), w.max()):
        if np.any(ref.undecided(S, lim)):
            raise Reject("grid point on the edge of the spectrum")
    sed = k * ref.rebin(S, w, f)
    lum = 4 * np.pi * (tg["R"] * ref.R_SUN) ** 2 * ref.trapz(f[np.argsort(w)], np.sort(w)) / ref.L_SUN
    judge(c, out, tgt, sed, [lum], "Custom")
    return {
        "nontrivial": bool((sed > 0).any()),
        "labels": ["custom " + c["fu"], "only R and D" if c["only_RD"] else "whole star"],
    }


# ------------------------------------------------------------------ library


@st.composite
def library_case(draw, tier):
    wl = draw(span())
    n = draw(st.integers(1, 5))
    Ts = sorted(draw(st.lists(st.integers(20, 110), min_size=n, max_size=n, unique=True)))
    gs = sorted(draw(st.lists(st.sampled_from([2.5, 3.0, 3.5, 4.0, 4.5, 5.0, 5.5]), min_size=1, max_size=4, unique=True)))
    zs = draw(st.sampled_from([[0.0], [0.0], [0.0, -0.5], [0.0, -1.0], [-0.5], [0.5, 0.0], [0.3, -0.5, -2.0], [0.3]]))
    models = [[t, g, z] for t in Ts for g in gs for z in zs]
    keep = draw(st.integers(0, 3))
    if keep == 3 and len(models) > 1:  # not every combination is there
        drop = draw(st.sets(st.integers(0, len(models) - 1), max_size=len(models) - 1))
        models = [m for i, m in enumerate(models) if i not in drop]
    tg = draw(star())
    if draw(st.integers(0, 3)):
        tg["Teff"] = float(
            np.clip(100 * draw(st.sampled_from(Ts)) + draw(P.fl(-260.0, 260.0, 5)), 1500, 12000)
        )
    return {
        "wl": wl,
        "R": draw(st.integers(5, 120)),
        "how": draw(st.sampled_from(["um", "nm", "swapped"])),
        "star": tg,
        "models": models,
        "npts": draw(st.integers(4, 400)),
        "dup": draw(st.lists(st.integers(0, 400), max_size=3)),
        "style": draw(st.sampled_from(["lte{:03d}-{:.1f}{}", "lte{:05.1f}-{:.1f}{}a+0.0"])),
        "units": draw(st.sampled_from([["um", "W / (m2 um)"], ["nm", "W / (m2 um)"], ["Angstrom", "erg / (s cm2 Angstrom)"]])),
        "env": draw(st.sampled_from([False, False, True])),
        "kind": draw(st.sampled_from(["phoenix", "Phoenix"])),
        "noise": draw(st.booleans()),
    }


def spectrum(c, m):
    """a recognisable surface flux for each model of the library"""
    lo, hi = c["wl"]
    w = np.linspace(lo * 0.5, hi * 1.7, c["npts"])
    f = np.pi * ref.planck(w, m[0] * 100.0) * (1 + 0.07 * m[1]) * (1 + 0.11 * m[2])
    for i in sorted(c["dup"], reverse=True):
        i = 1 + i % (w.size - 2)
        w = np.insert(w, i, w[i])
        f = np.insert(f, i, f[i])
    return w, f


def file_name(c, m):
    t = m[0] if ":03d" in c["style"] else float(m[0])
    z = "{:+.1f}".format(m[2]) if m[2] else "-0.0"
    return c["style"].format(t, m[1], z) + ".BT-Settl.spec.fits.gz"


def write_library(c, d):
    import astropy.units as u
    from astropy.io import fits

    k1 = u.um.to(c["units"][0])
    k2 = u.Unit("W/(m2 um)").to(c["units"][1])
    for m in c["models"]:
        w, f = spectrum(c, m)
        cols = [
            fits.Column(name="Wavelength", format="D", unit=c["units"][0], array=w * k1),
            fits.Column(name="Flux", format="D", unit=c["units"][1], array=f * k2),
        ]
        h = fits.BinTableHDU.from_columns(cols)
        h.header["PHXLUM"] = 1e26
        fits.HDUList([fits.PrimaryHDU(), h]).writeto(os.path.join(d, file_name(c, m)))
    if c["noise"]:
        with open(os.path.join(d, "readme.txt"), "w") as f:
            f.write("lte000-0.0-0.0\n")


def best(c, tg):
    """the model of the library, None when the star is too cold or hot"""
    m = np.array(c["models"], float)
    t = tg["Teff"] / 100
    if abs(t % 1 - 0.5) < 1e-6:
        raise Reject("temperature half way")
    t = np.round(t)
    if t < m[:, 0].min() or t > m[:, 0].max():
        return None
    g = SUN_LOGG(tg["M"], tg["R"])
    d = np.abs(m[:, 0] - t) + np.abs(m[:, 1] - g) + np.abs(m[:, 2])
    i = np.argsort(d, kind="stable")
    if d.size > 1 and d[i[1]] - d[i[0]] < 1e-4:
        raise Reject("two models are equally near")
    return c["models"][i[0]]


def library_run(c):
    tg = c["star"]
    want = best(c, tg)
    tgt = star_target(tg, tg["units"])
    S = ref.logspace(c["wl"][0], c["wl"][1], c["R"])
    with pipe.folder() as d:
        write_library(c, d)
        src = {"value": c["kind"]}
        if c["env"]:
            os.environ["PHOENIX_PATH"] = d
        else:
            src["StellarModels"] = {"value": d}
        try:
            out = load(c, tgt, src)
        finally:
            os.environ.pop("PHOENIX_PATH", None)
    if want is None:
        sed, lum = ref.planck_star({"wl_min": c["wl"][0], "wl_max": c["wl"][1]}, tg, S)
        judge(c, out, tgt, sed, [lum], "Planck")
    else:
        w, f = spectrum(c, want)
        k = (tg["R"] * ref.R_SUN / (tg["D"] * ref.PC)) ** 2
        sed = k * ref.rebin(S, w, f)
        kk = 4 * np.pi * (tg["R"] * ref.R_SUN) ** 2 / ref.L_SUN
        judge(
            c, out, tgt, sed,
            [kk * ref.trapz(f, w), kk * ref.trapz(f[:-1], w[:-1])],
            file_name(c, want),
        )
    return {
        "nontrivial": len(c["models"]) > 1,
        "labels": ["outside the library" if want is None else "library model",
                   "path from " + ("environment" if c["env"] else "payload")],
    }


# ------------------------------------------------------- incomplete sources


@st.composite
def bad_case(draw, tier):
    return {
        "wl": draw(span()),
        "R": 20,
        "how": "um",
        "star": draw(star()),
        "kind": draw(st.sampled_from(["planck", "phoenix", "custom", "other"])),
        "lack": draw(st.sampled_from(["D", "Teff", "M", "R", "path", "folder", "empty"])),
        "value": draw(st.sampled_from([None, 1.0, "x"])),
    }


def bad_run(c):
    import astropy.units as u
    from exorad.utils.passVal import PassVal

    if c["lack"] in ("path", "folder", "empty"):
        if c["kind"] != "phoenix":
            raise Reject("only the library has a folder")
    elif c["kind"] == "custom" and c["lack"] in ("Teff", "M"):
        raise Reject("not needed")
    T = pipe.tasks()
    PassVal.working_R = c["R"]
    tgt = star_target(c["star"], c["star"]["units"])
    wrong = AttributeError
    with pipe.folder() as d:
        src = {"value": c["kind"], "StellarModels": {"value": d}}
        P.ecsv(os.path.join(d, "s.csv"), {"Wavelength": [0.1, 99.0], "Sed": [1.0, 2.0]},
               {"Wavelength": "um", "Sed": "W / (m2 um)"})
        src["CustomSed"] = {"value": os.path.join(d, "s.csv")}
        if c["lack"] == "path":
            src.pop("StellarModels")
            wrong = OSError
        elif c["lack"] == "folder":
            src["StellarModels"] = {"value": os.path.join(d, "nowhere")}
            wrong = OSError
        elif c["lack"] == "empty":
            wrong = OSError
        else:
            if c["kind"] == "phoenix":
                write_library(
                    {"wl": c["wl"], "npts": 30, "dup": [], "noise": False,
                     "models": [[20, 4.5, 0.0], [110, 4.5, 0.0]],
                     "style": "lte{:03d}-{:.1f}{}", "units": ["um", "W / (m2 um)"]}, d)
            setattr(tgt.star, c["lack"], c["value"])
        before = dict(tgt.star.__dict__)
        try:
            with quiet():
                T.LoadSource()(
                    target=tgt, source=src, wl_range=(c["wl"][0] * u.um, c["wl"][1] * u.um)
                )
        except wrong:
            check(
                set(tgt.star.__dict__) == set(before),
                "a refused source leaves %s on the target",
                sorted(set(tgt.star.__dict__) - set(before)),
            )
        except Exception as e:
            check(False, "without %s: %s instead of %s", c["lack"], type(e).__name__, wrong.__name__)
        else:
            check(False, "a %s source without %s is accepted", c["kind"], c["lack"])
    return {"nontrivial": True, "labels": ["lacks " + c["lack"]]}


# ------------------------------------------------- what the table remembers


@st.composite
def meta_case(draw, tier):
    spec = draw(
        P.payload(noise=False, n_ch=(1, 2), max_el=1, R=(20, 40), psf=(0.08, 0.2),
                  foregrounds=False, tables=False)
    )
    if draw(st.booleans()):
        spec["source"] = "custom"
        spec["sed"] = draw(P.custom_sed(spec["wl_min"], spec["wl_max"]))
    tg = draw(P.target())
    # custom sources need only the radius and the distance
    lack = draw(st.sampled_from([[], ["M"], ["Teff"], ["M", "Teff"]])) if "sed" in spec else []
    return [spec, tg, lack]


def meta_run(case):
    spec, tg, lack = case
    with pipe.folder() as d:
        b = pipe.build(spec, d)
        tgt = pipe.make_targets([tg], d)[0]
        for k in lack:
            delattr(tgt.star, k)
        t = pipe.observe(tgt, b)
    m = t.table.meta
    check(m["name"] == tg["name"] and m["starName"] == tg["name"], "names %r, %r", m.get("name"), m.get("starName"))
    for k, f, un in (("starM", "M", "M_sun"), ("starTeff", "Teff", "K"), ("starR", "R", "R_sun"), ("starDistance", "D", "pc")):
        if f in lack:
            check(m.get(k) is None, "%s of a star without it: %s", k, m.get(k))
            continue
        check(k in m, "no %s", k)
        ref.compare(k, [float(pipe.val(m[k], un))], [tg[f]], 1e-9)
    check(m["starMagK"] == tg["magk"], "K magnitude %r", m.get("starMagK"))
    S = ref.sky_grid(spec)
    if "sed" in spec:
        w, f = (np.array(spec["sed"][k]) for k in ("Wavelength", "Sed"))
        lum = 4 * np.pi * (tg["R"] * ref.R_SUN) ** 2 * ref.trapz(f, w) / ref.L_SUN
        model = "Custom"
    else:
        _, lum = ref.planck_star(spec, tg, S)
        model = "Planck"
    check(m["starModel"] == model, "model %r", m["starModel"])
    ref.compare("starL", [float(pipe.val(m["starL"], "solLum"))], [lum])
    return {"nontrivial": True, "labels": ["metadata " + model] + ["no " + x for x in lack]}


SUBS = [
    Sub("black body", lambda tier: planck_case(tier), planck_run, 250, 4000),
    Sub("custom", lambda tier: custom_case(tier), custom_run, 250, 4000),
    Sub("library", lambda tier: library_case(tier), library_run, 200, 3000),
    Sub("incomplete", lambda tier: bad_case(tier), bad_run, 150, 1500),
    Sub("metadata", lambda tier: meta_case(tier), meta_run, 40, 600),
]
SUBS.append(one_after_the_other(SUBS, 60, 1000))
