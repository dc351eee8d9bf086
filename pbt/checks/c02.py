import numpy as np

from .. import payload as P
from .. import pipe, ref
from ..core import Sub, check
from .common import CT, Tally, built, channels, element_labels

RULE = (
    "a payload is non-trivial when at least one element has a temperature and a "
    "non-zero emissivity; each element's signal per bin and in the brightest "
    "pixel were compared with the model"
)


def gen(tier):
    return P.payload(
        foregrounds=False, noise=False, psf=(0.08, 0.2), n_ch=(1, 2), max_el=5,
        R=(20, 400) if tier == "thorough" else (20, 150),
    )


def run(spec):
    t = Tally()
    nontrivial = False
    with pipe.folder() as d:
        b = built(spec, d)
    for c, ch in channels(spec):
        inst = b[1][c["name"]]
        opt = inst.built_instr["optical_path"]

        def one():
            em = ch.emission()
            sig, mx = opt["signal_table"], opt["max_signal_per_pixel"]
            check(
                set(sig.colnames) == {n + " signal" for n in em},
                "%s: contributions of %s instead of %s",
                c["name"], sig.colnames, list(em),
            )
            for n, (s, m) in em.items():
                ref.compare(
                    "signal of %s in %s" % (n, c["name"]),
                    pipe.column(sig, n + " signal", CT), s,
                )
                ref.compare(
                    "brightest pixel of %s in %s" % (n, c["name"]),
                    pipe.column(mx, n, CT), m,
                )
            # the radiance behind the last element
            rad = opt["radiance_table"]
            for n, y in ch.radiances():
                ref.compare(
                    "radiance of %s in %s" % (n, c["name"]),
                    pipe.column(rad, n, "W m-2 sr-1 um-1"), y,
                )
            # the totals of the channel table
            for total, parts, suff in (
                ("instrument_signal", sig, " signal"),
                ("instrument_MaxSignal_inPixel", mx, ""),
            ):
                want = np.zeros(ch.wl.size)
                for n in em:
                    want = want + pipe.column(parts, n + suff, CT)
                ref.compare(
                    "%s of %s" % (total, c["name"]),
                    pipe.column(inst.table, total, CT), want, 1e-9,
                )

        els = spec["optics"] + c["optics"]
        lab = ["slit"] if ch.slit is not None else []
        if t(one, c["class"], *(lab + element_labels(els))):
            nontrivial |= any(
                e.T is not None and (e.em != 0).any() for e in ch.elements
            )
    return t.info(nontrivial)


SUBS = [Sub("emission", gen, run, 800, 6000)]
