from hypothesis import strategies as st

from .. import payload as P
from .. import pipe, ref
from ..core import Sub, one_after_the_other
from .c10 import pipe_case, pipe_run
from .common import CT, Tally, built, channels

RULE = (
    "a case is non-trivial when the target gives a non-zero signal in some bin; "
    "flux, signal, signal in the aperture and brightest pixel were compared with "
    "the model bin by bin"
)


@st.composite
def case(draw, tier):
    spec = draw(
        P.payload(
            noise=False, n_ch=(1, 2), max_el=3, foregrounds=False,
            R=(20, 400) if tier == "thorough" else (20, 150),
        )
    )
    if draw(st.integers(0, 3)) == 3:
        spec["foregrounds"] = draw(P.foregrounds(spec["wl_min"], spec["wl_max"], {}))
    if draw(st.integers(0, 2)) == 2:
        spec["source"] = "custom"
        spec["sed"] = draw(P.custom_sed(spec["wl_min"], spec["wl_max"]))
    for c in spec["channels"]:
        if "aperture" in c and draw(st.integers(0, 2)) == 2:
            # any combination of what describes an aperture
            c["aperture"]["EnE"] = draw(P.fl(0.3, 0.95, 3))
            if draw(st.booleans()):
                c["aperture"].pop("radius")
    return [spec, draw(P.target())]


def run(c_):
    spec, tg = c_
    t = Tally()
    with pipe.folder() as d:
        b = built(spec, d)
        tgt = pipe.make_targets([tg], d)[0]
        table = pipe.observe(tgt, b).table
    S = ref.sky_grid(spec)
    _, tot = ref.sky(spec, S)
    if "sed" in spec:
        k = (tg["R"] * ref.R_SUN / (tg["D"] * ref.PC)) ** 2
        sed = k * ref.rebin(S, spec["sed"]["Wavelength"], spec["sed"]["Sed"])
    else:
        sed, _ = ref.planck_star(spec, tg, S)
    nontrivial = False
    for c, ch in channels(spec):
        rows = pipe.rows(table, c["name"])

        def signal():
            s = ch.star(S, sed, tot)
            for n, u in (
                ("starFlux", "W/m2"), ("starSignal", CT),
                ("star_signal_inAperture", CT),
            ):
                ref.compare(
                    "%s in %s" % (n, c["name"]), pipe.column(rows, n, u), s[n]
                )
            nonlocal nontrivial
            nontrivial |= bool((s["starSignal"] > 0).any())

        def brightest():
            ref.compare(
                "star_MaxSignal_inPixel in " + c["name"],
                pipe.column(rows, "star_MaxSignal_inPixel", CT), ch.star_max(S),
            )

        lab = [c["class"], "force=%s" % spec["force"], "source " + spec["source"].lower()]
        if "aperture" in c:
            lab.append("aperture by " + "+".join(sorted(c["aperture"])))
        lab += ["R " + ("native" if c.get("targetR") in (None, "native") else type(c["targetR"]).__name__)] if "wlsol" in c else []
        if t(signal, *lab):
            t(brightest)
    return t.info(nontrivial)


SUBS = [
    Sub("target", lambda tier: case(tier), run, 700, 6000),
    # with any image of a point source
    Sub("images", lambda tier: pipe_case(tier), pipe_run, 240, 2000),
]
SUBS.append(one_after_the_other(SUBS, 40, 600))
