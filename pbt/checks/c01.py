from .. import payload as P
from .. import pipe, ref
from ..core import Sub, check
from .common import Tally, built, channels, element_labels

RULE = (
    "a payload is non-trivial when at least one channel has an element whose "
    "transmission is not identically one, or a tabulated QE; the model's TR and "
    "QE of that channel were compared bin by bin with the channel table"
)


def gen(tier):
    return P.payload(
        foregrounds=False, noise=False, psf=(0.08, 0.2), n_ch=(1, 3), max_el=6,
        R=(20, 400) if tier == "thorough" else (20, 150),
    )


def run(spec):
    t = Tally()
    nontrivial = False
    with pipe.folder() as d:
        b = built(spec, d)
    for c, ch in channels(spec):
        tab = b[1][c["name"]].table

        def one():
            ref.compare("QE of " + c["name"], pipe.column(tab, "QE", ""), ch.QE)
            ref.compare(
                "transmission of " + c["name"], pipe.column(tab, "TR", ""), ch.TR
            )

            # what the path itself reports, element by element
            inst = b[1][c["name"]]
            rep = inst.built_instr["optical_path"]["transmission_table"]
            for e in ch.elements:
                check(
                    e.name in rep.colnames, "%s: no transmission reported for %s",
                    c["name"], e.name,
                )
            ref.compare("grid of " + c["name"], pipe.column(rep, "Wavelength", "um"), ch.G)
            for e in ch.elements:
                ref.compare(
                    "transmission of %s in %s" % (e.name, c["name"]),
                    pipe.column(rep, e.name, ""), e.tr,
                )
            ref.compare(
                "transmission of the path of " + c["name"],
                pipe.column(rep, "total", ""), ch.T_path,
            )
            data = inst.built_instr["transmission_data"]["data"]["value"]
            ref.compare("transmission with edges of " + c["name"], data, ch.T_inst)

        els = spec["optics"] + c["optics"]
        if t(one, c["class"], "force=%s" % spec["force"], *element_labels(els)):
            nontrivial |= isinstance(c["detector"]["qe"], dict) or any(
                (e.tr != 1).any() for e in ch.elements
            )
    return t.info(nontrivial)


SUBS = [Sub("throughput", gen, run, 900, 8000)]
