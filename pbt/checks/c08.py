import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, sut
from . import noise as N
from .common import CT, Tally

RULE = (
    "gain cases are non-trivial when more than two reads fit in a frame; table "
    "cases when the bins of a channel saturate at different times"
)


# ------------------------------------------------------ timing of a channel


@st.composite
def table_case(draw, tier):
    n = draw(st.integers(1, 8))
    return {
        "det": draw(P.detector(1.0, 2.0, "ch", 10.0, tables=False)),
        "max": draw(st.lists(st.sampled_from([0.0]) | P.fl(1e-4, 1e8, 6), min_size=n, max_size=n)),
        "before": draw(st.integers(0, 3)),
        "after": draw(st.integers(0, 3)),
        "pos": draw(st.sampled_from(["count", "ct", "kct"])),
    }


def detector(det):
    import astropy.units as u

    un = {"read_noise": u.ct, "dark_current": u.ct / u.s, "well_depth": u.ct,
          "freqNDR": u.Hz, "frame_time": u.s}
    return {k: {"value": v * un[k] if k in un else v} for k, v in det.items()}


def table_run(c):
    import astropy.units as u
    from astropy.table import QTable
    from exorad.models.noise import frame_time
    from exorad.models.target import Target

    mx = np.array(c["max"])
    t = QTable()
    b, a = c["before"], c["after"]
    t["chName"] = ["chX"] * b + ["ch"] * mx.size + ["Xch"] * a
    t["MaxSignal_inPixel"] = np.concatenate([[9e9] * b, mx, [9e9] * a]) * u.ct / u.s
    tgt = Target()
    tgt.table = t
    ch = {"value": "ch", "detector": detector(c["det"])}
    out = sut("the frame time", lambda: frame_time(tgt, ch, QTable()))
    sat, ft = N.timing(c["det"], mx)
    ref.compare("saturation time", pipe.column(out, "saturation_time", "s"), sat, 1e-9)
    ref.compare("frame time", pipe.column(out, "frameTime", "s"), [ft] * mx.size, 1e-9)
    return {
        "nontrivial": len(set(c["max"])) > 1,
        "labels": ["imposed frame time" if "frame_time" in c["det"] else "frame time from the well"],
    }


# ------------------------------------------------------------------ gains


@st.composite
def gain_case(draw, tier):
    det = draw(P.detector(1.0, 2.0, "ch", 10.0, tables=False))
    det["freqNDR"] = draw(P.fl(0.0, 50.0, 6))
    t = draw(P.fl(1e-3, 1e4, 6))
    if draw(st.booleans()):
        det["freqNDR"], t = draw(P.whole_reads())
    return {
        "det": det,
        "t": t,
        "unit": draw(st.sampled_from(["s", "s", "h", "ms"])),
        "fu": draw(st.sampled_from(["Hz", "1/s", "kHz", "1/h"])),
    }


def gain_run(c):
    import astropy.units as u
    from exorad.models.noise import multiaccum

    d = detector(c["det"])
    d["freqNDR"] = {"value": (c["det"]["freqNDR"] * u.Hz).to(u.Unit(c["fu"]))}
    t = (c["t"] * u.s).to(u.Unit(c["unit"]))
    got = sut("the multiaccum gains", lambda: multiaccum({"detector": d}, t))
    wants = [N.gains(c["det"], n) for n in N.reads(c["det"], c["t"])]
    for i, w in enumerate(("read", "shot")):
        ref.compare(
            w + " noise gain",
            [float(u.Quantity(got[i]).to(u.dimensionless_unscaled).value)],
            [ref.Either(x[i] for x in wants)], 1e-9,
        )
    return {
        "nontrivial": N.reads(c["det"], c["t"])[0] > 2,
        "labels": ["CDS" if N.reads(c["det"], c["t"])[0] == 2 else "several reads"],
    }


# --------------------------------------------------------------- pipeline


@st.composite
def pipe_case(draw, tier):
    spec = draw(
        P.payload(n_ch=(1, 3), max_el=3, R=(20, 80), psf=(0.08, 0.2),
                  tables=False, noise=False)
    )
    tg = draw(P.target())
    # the same star, nearer
    return [spec, tg, draw(P.fl(1.1, 6.0, 3))]


def pipe_run(case):
    spec, tg, k = case
    out = []
    with pipe.folder() as d:
        b = pipe.build(spec, d)
        for t in (tg, dict(tg, D=P.sig(tg["D"] / k, 9))):
            out.append(pipe.observe(pipe.make_targets([t], d)[0], b).table)
    nontrivial = False
    for table in out:
        parts = [c for c in table.colnames if c.endswith("_MaxSignal_inPixel")]
        want = {"star_MaxSignal_inPixel", "instrument_MaxSignal_inPixel"}
        for f in spec["foregrounds"]:
            n = "zodi" if f["name"] == "zodiacal" else f["name"]
            want.add(n + "_MaxSignal_inPixel")
        check(set(parts) == want, "columns of brightest pixels %s instead of %s", parts, sorted(want))
        tot = sum(pipe.column(table, p, CT) for p in parts)
        ref.compare("brightest pixel", pipe.column(table, "MaxSignal_inPixel", CT), tot, 1e-9)
        for c in spec["channels"]:
            rows = pipe.rows(table, c["name"])
            mx = pipe.column(rows, "MaxSignal_inPixel", CT)
            sat, ft = N.timing(c["detector"], mx)
            ref.compare("saturation time in " + c["name"], pipe.column(rows, "saturation_time", "s"), sat, 1e-9)
            ref.compare("frame time in " + c["name"], pipe.column(rows, "frameTime", "s"), [ft] * mx.size, 1e-9)
            if "frame_time" not in c["detector"] and np.isfinite(ft):
                # nothing saturates within the frame
                acc = np.max(mx) * pipe.column(rows, "frameTime", "s")[0]
                lim = c["detector"]["well_depth"] * c["detector"]["f_well_depth"]
                check(abs(acc / lim - 1) < 1e-9, "%s collects %r of %r counts in a frame", c["name"], acc, lim)
            nontrivial |= len(set(mx)) > 1
    a, b_ = (pipe.column(t, "saturation_time", "s") for t in out)
    with np.errstate(invalid="ignore"):
        check(not np.any(b_ > a * (1 + 1e-9)), "a nearer star saturates later: %s, %s", a.tolist(), b_.tolist())
    return {"nontrivial": nontrivial, "labels": ["pipeline"] + [c["class"] for c in spec["channels"]]}


SUBS = [
    Sub("timing", lambda tier: table_case(tier), table_run, 800, 8000),
    Sub("gains", lambda tier: gain_case(tier), gain_run, 1200, 15000),
    Sub("pipeline", lambda tier: pipe_case(tier), pipe_run, 250, 2500),
]
