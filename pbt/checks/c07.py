import numpy as np
from collections import OrderedDict
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, sut
from . import noise as N
from .common import CT, Tally

RULE = (
    "a channel is non-trivial when the star gives a signal in some bin and at "
    "least two of photon, dark current, read and custom noise are not zero; "
    "every noise column is recomputed from the signal, window and frame time "
    "columns of the same table"
)


# ------------------------------------------------ one channel, any table


@st.composite
def task_case(draw, tier):
    n = draw(st.integers(1, 6))
    lo = draw(P.fl(0.5, 5.0, 5))
    hi = P.sig(lo * draw(P.fl(1.05, 2.0, 4)))
    det = draw(P.detector(lo, hi, "ch", 10.0, tables=False))
    amount = st.sampled_from([0.0]) | P.fl(1e-4, 1e7, 5)
    names = draw(
        st.lists(
            st.sampled_from(["instrument", "zodi", "skyFilter", "M1", "D wall", "signal", "Max", "noise"]),
            max_size=4, unique=True,
        )
    )
    def column():
        return draw(st.lists(amount, min_size=n, max_size=n))
    sigs = {}
    for k in names:
        sep = " " if k in ("M1", "D wall") else "_"
        sigs[k + sep + "signal"] = column()
    # the brightest pixels, which are not a source of noise
    peaks = {k + "_MaxSignal_inPixel": column() for k in names if draw(st.booleans())}
    at = draw(st.integers(0, len(sigs)))
    items = list(sigs.items())
    items.insert(at, ("star_signal_inAperture", column()))
    return {
        "n": n,
        "before": draw(st.integers(0, 3)),
        "after": draw(st.integers(0, 3)),
        "lo": lo, "hi": hi,
        "det": det,
        "NoiseX": draw(P.maybe(P.fl(0.0, 3.0, 3), 0.6)),
        "signals": items,
        "peaks": peaks,
        "window": draw(st.lists(P.fl(0.01, 900.0, 5), min_size=n, max_size=n)),
        "max": draw(st.lists(P.fl(1e-3, 1e6, 5), min_size=n, max_size=n)),
        "common": draw(st.none() | N.custom_noises("cn", lo, hi)),
        "own": draw(N.custom_noises("own", lo, hi)),
    }


def describe_noise(ns):
    """what the payload parser gives"""
    from astropy.table import Table
    import astropy.units as u

    out = []
    for c in ns:
        if "data" in c:
            t = Table({k: v for k, v in c["data"].items()})
            for k in t.colnames:
                if k.lower() == "wavelength":
                    t[k].unit = u.um
            out.append({"value": c["name"], "data": t})
        else:
            out.append({"value": c["ppm"], "name": {"value": c["name"]}})
    if len(out) == 1:
        return out[0]
    d = OrderedDict()
    for i, o in enumerate(out):
        d[o["value"] if o["value"] not in d else "%s (%d)" % (o["value"], i)] = o
    return d


def spoiled(x, how):
    """the description of a custom noise that does not tell the noise"""
    if how == "no wavelengths":
        for k in x["data"].colnames:
            if k.lower() == "wavelength":
                x["data"].rename_column(k, "lambda")
    elif how == "only wavelengths":
        for k in list(x["data"].colnames):
            if k.lower() != "wavelength":
                x["data"].remove_column(k)
    elif how.startswith("name "):
        # the name of a part that is not a custom noise
        how = how[5:]
        if "data" in x:
            for k in x["data"].colnames:
                if k.lower() != "wavelength":
                    x["data"].rename_column(k, how)
        else:
            x["name"]["value"] = how
    elif how == "no name":
        x.pop("name")
    else:
        x.pop("value")


@st.composite
def refusal_case(draw, tier):
    c = draw(task_case(tier))
    where = draw(st.sampled_from(["own", "common"]))
    if not c[where]:
        c[where] = draw(N.custom_noises("x", c["lo"], c["hi"]).filter(len))
    i = draw(st.integers(0, len(c[where]) - 1))
    hows = ["no wavelengths", "only wavelengths"] if "data" in c[where][i] else ["no name", "no value"]
    hows += ["name total", "name read", "name darkcurrent"]
    c["spoil"] = [where, i, draw(st.sampled_from(hows))]
    return c


def task_run(c):
    import astropy.units as u
    from astropy.table import QTable
    from exorad.models.target import Target

    T = pipe.tasks()
    b, n, a = c["before"], c["n"], c["after"]
    pad = lambda v, f: [f] * b + list(v) + [f] * a
    wl = list(np.linspace(c["lo"], c["hi"], n + 2)[1:-1])
    t = QTable()
    t["chName"] = ["other"] * b + ["ch"] * n + ["ch2"] * a
    t["Wavelength"] = pad(wl, 9.0) * u.um
    t["WindowSize"] = pad(c["window"], 3e4)
    for k, v in c["signals"] + list(c["peaks"].items()):
        t[k] = pad(v, 7e8) * u.ct / u.s
    t["MaxSignal_inPixel"] = pad(c["max"], 3e9) * u.ct / u.s
    tgt = Target()
    tgt.name, tgt.table = "t", t
    un = {"read_noise": u.ct, "dark_current": u.ct / u.s, "well_depth": u.ct,
          "freqNDR": u.Hz, "frame_time": u.s}
    d = {
        k: {"value": v * un[k] if k in un else v}
        for k, v in c["det"].items()
    }
    ch = {"value": "ch", "detector": d}
    if c["NoiseX"] is not None:
        ch["NoiseX"] = {"value": c["NoiseX"]}
    if c["own"]:
        ch["customNoise"] = describe_noise(c["own"])
    payload = None
    if c["common"] is not None:
        payload = {"common": {"customNoise": describe_noise(c["common"])} if c["common"] else {}}
    if "spoil" in c:
        where, i, how = c["spoil"]
        x = ch["customNoise"] if where == "own" else payload["common"]["customNoise"]
        spoiled(list(x.values())[i] if isinstance(x, OrderedDict) else x, how)
        try:
            out = T.EstimateNoiseInChannel()(target=tgt, channel=ch, payload=payload)
        except Exception:
            return {"nontrivial": True, "labels": ["custom noise with " + how]}
        check(False, "a custom noise with %s is ignored: %s", how, out.colnames)
    out = sut(
        "estimating the noise in a channel",
        lambda: T.EstimateNoiseInChannel()(target=tgt, channel=ch, payload=payload),
    )
    check(len(out) == n, "%d rows instead of %d", len(out), n)
    m = t["chName"] == "ch"
    for k in t.colnames:
        if k not in out.colnames:
            out[k] = t[k][m]
    sat, ft = N.timing(c["det"], np.array(c["max"]))
    ref.compare("frame time", pipe.column(out, "frameTime", "s"), [ft] * n, 1e-9)
    customs = (c["common"] or []) + c["own"]
    w, cust = N.judge(out, c["det"], c["NoiseX"] or 0.0, customs, "ch")
    star = dict(c["signals"])["star_signal_inAperture"]
    parts = sum(
        bool(np.any(w[k] > 0)) for k in ("star_signal_inAperture_noise", "darkcurrent_noise", "read_noise")
    ) + bool(customs)
    named = [N.custom(x, np.array(wl))[0] for x in customs]
    return {
        "nontrivial": any(star) and parts >= 2,
        "labels": ["%d custom noises" % len(customs)]
        + (["same name"] if len(set(named)) < len(named) else [])
        + (["NoiseX"] if c["NoiseX"] else [])
        + (["tabulated noise"] if any("data" in x for x in customs) else [])
        + (["bins without target signal"] if 0.0 in star else []),
    }


# --------------------------------------------------------- whole pipeline


@st.composite
def pipe_case(draw, tier):
    spec = draw(
        P.payload(n_ch=(1, 3), max_el=2, R=(20, 80), psf=(0.08, 0.2),
                  foregrounds=False, tables=False, noise=False)
    )
    spec["foregrounds"] = draw(P.foregrounds(spec["wl_min"], spec["wl_max"], {}, 2))
    spec["customNoise"] = draw(N.custom_noises("cn", spec["wl_min"], spec["wl_max"], 2))
    for c in spec["channels"]:
        c["customNoise"] = draw(N.custom_noises(c["name"] + "cn", c["wl_min"], c["wl_max"], 2))
    return [spec, draw(P.target())]


def pipe_run(case):
    spec, tg = case
    t = Tally()
    with pipe.folder() as d:
        b = pipe.build(spec, d)
        table = pipe.observe(pipe.make_targets([tg], d)[0], b).table
    nontrivial = False
    for c in spec["channels"]:
        rows = pipe.rows(table, c["name"])

        def one():
            nonlocal nontrivial
            customs = spec["customNoise"] + c["customNoise"]
            N.judge(rows, c["detector"], c.get("NoiseX", 0.0), customs, c["name"])
            # what other channels add does not appear here
            mine = {N.custom(x, np.array([1.0]))[0] for x in customs}
            for o in spec["channels"]:
                for x in o["customNoise"]:
                    k = N.custom(x, np.array([1.0]))[0]
                    if k not in mine:
                        v = np.asarray(rows[k + "_noise"], float)
                        check(not v.any(), "%s has the custom noise %s of %s", c["name"], k, o["name"])
            nontrivial |= bool((np.asarray(rows["star_signal_inAperture"], float) > 0).any())

        t(one, "pipeline " + c["class"])
    return t.info(nontrivial)


SUBS = [
    Sub("one channel", lambda tier: task_case(tier), task_run, 600, 12000),
    Sub("refusals", lambda tier: refusal_case(tier), task_run, 80, 800),
    Sub("pipeline", lambda tier: pipe_case(tier), pipe_run, 240, 3000),
]
