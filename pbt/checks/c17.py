import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Reject, Sub, check, one_after_the_other, sut
from . import noise as N
from .common import Tally

RULE = (
    "every payload counts; non-trivial with at least two channels, a slit, a "
    "foreground or a custom noise; the channel tables and the observation made "
    "with the payload read back from the output file are compared with those "
    "made with the payload just built"
)


@st.composite
def case(draw, tier):
    spec = draw(P.payload(
        n_ch=(1, 3), max_el=3, psf=(0.1, 0.3),
        R=(20, 300) if tier == "thorough" else (20, 100),
    ))
    lo, hi = spec["wl_min"], spec["wl_max"]
    if draw(st.integers(0, 2)) == 2:
        spec["customNoise"] = draw(N.custom_noises("cn", lo, hi))
    for i, c in enumerate(spec["channels"]):
        if draw(st.integers(0, 3)) == 3:
            c["customNoise"] = draw(N.custom_noises("ch%d_" % i, c["wl_min"], c["wl_max"]))
    if draw(st.integers(0, 4)) == 4:
        spec["R"] = None
        spec["channels"] = spec["channels"][:1]
    return {
        "spec": spec,
        "target": draw(P.target()),
        "via": draw(st.sampled_from(["file", "file", "file", "dictionary", "twice"])),
        "ext": draw(st.sampled_from([".h5", ".hdf5"])),
    }


def channel_tables(a, b):
    check(list(a) == list(b), "channels %s instead of %s", list(b), list(a))
    for c in a:
        pipe.tables_equal(a[c].table, b[c].table, "table of " + c, 1e-12)


def run(c):
    spec, T = c["spec"], pipe.tasks()
    with pipe.folder() as d:
        out = os.path.join(d, "out" + c["ext"])
        first = pipe.build(spec, d, output=out)
        if c["via"] == "dictionary":
            opts = sut("loading the options", lambda: T.LoadOptions()(filename=os.path.join(d, "payload.xml")))
            again = pipe.prepare(opts)
        else:
            again = pipe.prepare(out)
            if c["via"] == "twice":
                again = pipe.prepare(out)
        channel_tables(first[1], again[1])
        for k in (0, 1):
            x, y = first[2][k], again[2][k]
            check(x.unit == y.unit and x.value == y.value, "wavelength range %s instead of %s", again[2], first[2])
        t1 = pipe.make_targets([c["target"]], d)[0]
        t2 = pipe.make_targets([c["target"]], d)[0]
        import exorad.utils.passVal as pv

        a = pipe.observe(t1, first)
        # a payload that was read back does not need the one just built
        pv.PassVal.working_R = 77
        b = pipe.observe(t2, again)
    pipe.tables_equal(a.table, b.table, "observation", 1e-12)
    noisy = bool(spec["customNoise"]) or any(x["customNoise"] for x in spec["channels"])
    slit = any(e["type"] == "slit" for x in spec["channels"] for e in x["optics"])
    lab = [c["via"], "%d channels" % len(spec["channels"]), "R default" if spec["R"] is None else "R given"]
    lab += ["slit"] * slit + ["custom noise"] * noisy + ["foregrounds"] * bool(spec["foregrounds"])
    return {
        "nontrivial": len(spec["channels"]) > 1 or slit or noisy or bool(spec["foregrounds"]),
        "labels": lab,
    }


SUBS = [Sub("reloaded", lambda tier: case(tier), run, 280, 2500)]
SUBS.append(one_after_the_other(SUBS, 20, 400))
