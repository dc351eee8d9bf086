from .. import payload as P
from .. import pipe, ref
from ..core import Sub, check
from .common import CT, Tally, built, channels

RULE = (
    "a case is non-trivial when the payload lists at least one foreground; the "
    "signal and brightest pixel of each foreground, the sky transmission and the "
    "attenuated target were compared with the model"
)


def gen(tier):
    from hypothesis import strategies as st

    return st.tuples(
        P.payload(
            noise=False, psf=(0.08, 0.2), n_ch=(1, 2), max_el=2,
            R=(20, 400) if tier == "thorough" else (20, 150),
        ),
        P.target(),
    ).map(list)


def run(case):
    spec, tg = case
    t = Tally()
    with pipe.folder() as d:
        b = built(spec, d)
        tgt = pipe.make_targets([tg], d)[0]
    table = pipe.observe(tgt, b).table
    S = ref.sky_grid(spec)
    frg, tot = ref.sky(spec, S)
    check(
        ("foreground_transmission" in table.colnames) == (tot is not None),
        "a sky transmission is reported: %s; foregrounds with a transmission: %s",
        "foreground_transmission" in table.colnames,
        [f["name"] for f in spec["foregrounds"] if "data" in f],
    )
    for c, ch in channels(spec):
        rows = pipe.rows(table, c["name"])

        def diffuse():
            for n, (s, m) in ch.foregrounds(frg, S).items():
                what = "%s in %s" % (n, c["name"])
                ref.compare("signal of " + what, pipe.column(rows, n + "_signal", CT), s)
                ref.compare(
                    "brightest pixel of " + what,
                    pipe.column(rows, n + "_MaxSignal_inPixel", CT), m,
                )

        def attenuation():
            sed, _ = ref.planck_star(spec, tg, S)
            s = ch.star(S, sed, tot)
            ref.compare(
                "target signal behind the foregrounds in " + c["name"],
                pipe.column(rows, "starSignal", CT), s["starSignal"],
            )
            if tot is not None:
                ref.compare(
                    "sky transmission in " + c["name"],
                    pipe.column(rows, "foreground_transmission", ""),
                    s["foreground_transmission"],
                )

        t(diffuse, c["class"], *(["slit"] if ch.slit is not None else []))
        t(attenuation)
    t.labels.append("%d foregrounds" % len(frg))
    for i, (n, _, tr) in enumerate(frg):
        if tr is not None and i > 0:
            t.labels.append("a foreground behind a filter")
            if any(x[0] == "zodi" for x in frg[:i]):
                t.labels.append("zodi behind a filter")
    return t.info(len(frg) > 0)


SUBS = [Sub("foregrounds", gen, run, 800, 6000)]
