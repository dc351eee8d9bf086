import contextlib
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Reject, Sub, check, quiet, sut
from . import noise as N
from .common import CT, Tally, channels

RULE = (
    "tables are non-trivial with at least two channels or a custom noise: what "
    "each curve of the figures shows is compared with the table; selections are "
    "non-trivial when some of the targets of the file are asked for"
)


# -------------------------------------------------------------------- tables


@st.composite
def case(draw, tier):
    spec = draw(P.payload(n_ch=(1, 3), max_el=2, psf=(0.1, 0.3), R=(15, 50)))
    if draw(st.booleans()):
        spec["customNoise"] = draw(N.custom_noises("cn", spec["wl_min"], spec["wl_max"]))
    return {
        "spec": spec, "target": draw(P.target()),
        "via": draw(st.sampled_from(["observed", "stored"])),
        "scale": draw(st.sampled_from(["log", "linear"])),
        "edges": draw(st.booleans()),
        "twice": draw(st.booleans()),
    }


def figure_of(f):
    return f[0] if isinstance(f, tuple) else f


def curves(ax):
    """label -> points, of the curves that have a label"""
    out = {}
    for l in ax.get_lines():
        x, y = (np.array(getattr(v, "value", v), float) for v in (l.get_xdata(), l.get_ydata()))
        if not str(l.get_label()).startswith("_"):
            check(l.get_label() not in out, "two curves called %s", l.get_label())
            out[str(l.get_label())] = (x, y)
    return out


def bands(ax):
    out = []
    for p in ax.patches:
        e = p.get_path().transformed(p.get_patch_transform()).get_extents()
        out.append((float(e.x0), float(e.x1)))
    return sorted(out)


def equal(a, b, what):
    check(a.shape == b.shape, "%s: %s points instead of %s", what, a.shape, b.shape)
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= 1e-9 * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))
    check(bool(np.all(ok)), "%s: %s instead of %s", what, a[:6].tolist(), b[:6].tolist())


def run(c):
    import astropy.units as u
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from exorad.utils.plotter import Plotter

    spec = c["spec"]
    with pipe.folder() as d:
        b = pipe.build(spec, d)
        t = pipe.observe(pipe.make_targets([c["target"]], d)[0], b)
        table = t.table
        given = table
        if c["via"] == "stored":
            # what the plotting command works on
            import h5py
            from astropy.io.misc.hdf5 import read_table_hdf5
            from exorad.output.hdf5 import HDF5Output

            p = os.path.join(d, "o.h5")
            with quiet(), HDF5Output(p) as o:
                t.write(o)
            with h5py.File(p, "r") as f:
                given = read_table_hdf5(f["targets"][t.name]["table"], path="table")
    kept = given.copy()
    try:
        pl = Plotter(input_table=given)
        fig, axes = sut("plotting the table", lambda: pl.plot_table(scale=c["scale"], channel_edges=c["edges"]))
        check(len(axes) == 2, "%d panels", len(axes))
        wl = pipe.column(table, "Wavelength", "um")
        star = pipe.column(table, "star_signal_inAperture", CT)
        sig, noi = curves(axes[0]), curves(axes[1])
        want = [k for k in table.colnames if N.is_signal(k)]
        check(sorted(sig) == sorted(want), "signals plotted: %s instead of %s", sorted(sig), sorted(want))
        for k in want:
            equal(sig[k][0], wl, "wavelengths of " + k)
            equal(sig[k][1], pipe.column(table, k, CT), k)
        want = [k for k in table.colnames if k.endswith("_noise") or k == "total_noise"]
        check(sorted(noi) == sorted(want), "noises plotted: %s instead of %s", sorted(noi), sorted(want))
        for k in want:
            equal(noi[k][0], wl, "wavelengths of " + k)
            q = u.Quantity(table[k])
            if q.unit.is_equivalent(u.hr**0.5):
                y = q.to(u.hr**0.5).value
            else:
                with np.errstate(all="ignore"):
                    y = pipe.column(table, k, N.RT) / star
            equal(noi[k][1], y, k)
        want = []
        for ch in spec["channels"]:
            r = pipe.rows(table, ch["name"])
            want.append((pipe.column(r, "LeftBinEdge", "um").min(), pipe.column(r, "RightBinEdge", "um").max()))
        for ax in axes:
            got = bands(ax)
            check(len(got) == len(want) and np.allclose(got, sorted(want), rtol=1e-9), "channels span %s instead of %s", got, sorted(want))
            check(ax.get_xscale() == c["scale"], "wavelengths in %s scale", ax.get_xscale())
            check(ax.get_yscale() == "log", "%s scale", ax.get_yscale())
        titles = [x.get_text() for x in [fig._suptitle] if x is not None]
        check(titles == [t.name], "the figure is called %s", titles)
        pipe.tables_equal(kept, given, "the table that was plotted")
        efficiency(c, b, plt)
    finally:
        plt.close("all")
    noisy = bool(spec["customNoise"])
    return {
        "nontrivial": len(spec["channels"]) > 1 or noisy,
        "labels": [c["via"], "%d channels" % len(spec["channels"])] + ["custom noise"] * noisy,
    }


def efficiency(c, b, plt):
    """transmission, quantum efficiency and their product, of each channel"""
    from exorad.utils.plotter import Plotter

    T = pipe.tasks()
    chs = b[1]
    want = []
    for ch in chs.values():
        bi = ch.built_instr
        tr, qe = (
            tuple(np.array(bi[k][x]["value"], float) for x in ("wl_grid", "data"))
            for k in ("transmission_data", "qe_data")
        )
        want += [tr, qe, (tr[0], None)]
    merged = sut("merging channels", lambda: T.MergeChannelsOutput()(channels=chs))
    for _ in range(2 if c["twice"] else 1):
        pl = Plotter(channels=chs, input_table=merged)
        fig = sut("plotting the efficiency", lambda: pl.plot_efficiency(scale=c["scale"], channel_edges=c["edges"]))
        ax = figure_of(fig).axes[0]
        lines = [l for l in ax.get_lines() if len(l.get_xdata()) > 0]
        check(len(lines) == len(want), "%d curves for %d channels", len(lines), len(chs))
        got = []
        for l in lines:
            x, y = (np.array(getattr(v, "value", v), float).ravel() for v in (l.get_xdata(), l.get_ydata()))
            got.append((x, y))
        # of each channel in turn: transmission, quantum efficiency, product
        for i, name in enumerate(chs):
            tr, qe, pce = got[3 * i: 3 * i + 3]
            for what, a, w in (("transmission", tr, want[3 * i]), ("quantum efficiency", qe, want[3 * i + 1])):
                equal(a[0], w[0].ravel(), "%s of %s" % (what, name))
                equal(a[1], w[1].ravel(), "%s of %s" % (what, name))
            equal(pce[0], tr[0], "efficiency of " + name)
            if qe[0].shape == tr[0].shape and np.allclose(qe[0], tr[0], rtol=1e-12):
                equal(pce[1], tr[1] * qe[1], "efficiency of " + name)
            else:
                check(np.all(pce[1] <= tr[1] * (1 + 1e-9) + 1e-300), "efficiency above the transmission in " + name)
                check(np.all(pce[1][tr[1] == 0] == 0), "efficiency without transmission in " + name)
        plt.close("all")
    for k, ch in chs.items():
        a, w = ch.built_instr["transmission_data"]["data"]["value"], want[3 * list(chs).index(k)][1]
        equal(np.array(a, float), w, "transmission kept with " + k)


# ---------------------------------------------------------- a signal by itself


@st.composite
def signal_case(draw, tier):
    def one():
        n = draw(st.integers(2, 8))
        return {
            "class": draw(st.sampled_from(["Signal", "Sed", "Radiance", "CountsPerSeconds"])),
            "wl": sorted(draw(st.lists(P.fl(0.1, 20.0, 6), min_size=n, max_size=n, unique=True))),
            "nm": draw(st.booleans()),
            "data": draw(st.lists(P.fl(0.001, 1e4, 6), min_size=n, max_size=n)),
        }

    return {
        "signals": [one() for _ in range(draw(st.integers(1, 3)))],
        "x": draw(st.sampled_from([None, "log", "linear"])), "y": draw(st.sampled_from([None, "log", "linear"])),
    }


def signal_run(c):
    import astropy.units as u
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from exorad.models import signal as S

    try:
        kw, ax = {}, None
        for i, k in enumerate(c["signals"]):
            wl = np.array(k["wl"]) * u.um
            s = getattr(S, k["class"])(wl.to(u.nm) if k["nm"] else wl, np.array(k["data"]))
            before = len(plt.get_fignums())
            fig, a = sut(
                "plotting a signal",
                lambda: s.plot(label="curve %d" % i, xscale=c["x"], yscale=c["y"], **kw),
            )
            check(a is not None and (ax is None or a is ax), "not drawn on the axes given")
            check(len(plt.get_fignums()) == before + (ax is None), "%d figures opened", len(plt.get_fignums()) - before)
            check(np.allclose(s.wl_grid.value, k["wl"], rtol=1e-12) and np.array_equal(np.ravel(s.data.value), k["data"]), "the signal is changed by plotting it")
            ax = a
            kw = {"fig": fig, "ax": ax}
        got = curves(ax)
        check(len(got) == len(c["signals"]), "%d curves for %d signals", len(got), len(c["signals"]))
        for i, k in enumerate(c["signals"]):
            check("curve %d" % i in got, "curves %s", sorted(got))
            x, y = got["curve %d" % i]
            equal(x, np.array(k["wl"]), "wavelengths of curve %d" % i)
            equal(np.ravel(y), np.array(k["data"]), "curve %d" % i)
        for n, v in (("x", ax.get_xscale()), ("y", ax.get_yscale())):
            check(v == (c[n] or "linear"), "%s axis in %s scale", n, v)
    finally:
        plt.close("all")
    return {"nontrivial": len(c["signals"]) > 1, "labels": ["%d signals" % len(c["signals"])]}


# ------------------------------------------------------------- the selection

NAMES = ["alpha", "Beta 2", "WASP-12", "HD 209458", "t_5", "alpha Cen b"]


@st.composite
def sel_case(draw, tier):
    n = draw(st.integers(1, 6))
    names = draw(st.permutations(NAMES))[:n]
    k = draw(st.sampled_from(["all", "none", "numbers", "numbers", "numbers", "name", "both", "bad", "default"]))
    c = {"names": names, "kind": k, "deep": draw(st.booleans()), "other": draw(st.booleans())}
    if k in ("numbers", "both"):
        c["ranges"] = []
        for _ in range(draw(st.integers(1, 3))):
            a = draw(st.integers(0, n - 1))
            c["ranges"].append([a, draw(st.none() | st.integers(a, n - 1))])
        c["blanks"] = draw(st.booleans())
    if k in ("name", "both"):
        c["name"] = draw(st.sampled_from(names + ["alpha", "nobody", "t"]))
    if k == "bad":
        c["text"] = draw(st.sampled_from(["a", "1:x", "0-b", "first", "0-1,x"]))
    return c


def sel_text(c):
    j = ", " if c["blanks"] else ","
    # both ways of writing a range are documented
    return j.join("%d" % a if b is None else "%d%s%d" % (a, "-:"[(a + b) % 2], b) for a, b in c["ranges"])


def sel_run(c):
    import h5py
    from astropy.table import QTable
    import astropy.units as u
    from exorad.utils import plotter
    from exorad.utils.util import parse_range

    n = len(c["names"])
    order = sorted(c["names"])
    drawn = []

    class Recorder:
        """draws nothing, says what it was asked"""

        def __init__(self, input_table, channels=None, payload=None):
            self.t = input_table

        def plot_table(self, *a, **k):
            drawn.append(str(self.t.meta["name"]))

        def save_fig(self, name, efficiency=False):
            with open(name, "w") as f:
                f.write(str(self.t.meta["name"]))

    want = order
    args = []
    if c["kind"] in ("numbers", "both"):
        sel = []
        for a, b in c["ranges"]:
            sel += range(a, (a if b is None else b) + 1)
        got = sut("reading a range", lambda: parse_range(sel_text(c), n))
        check(list(got) == sel, "%r selects %s instead of %s", sel_text(c), got, sel)
        want = [order[i] for i in sel]
        args = ["-n", sel_text(c)]
    elif c["kind"] in ("all", "none"):
        got = sut("reading a range", lambda: parse_range(c["kind"] + " " * (n % 2), n))
        want = order if c["kind"] == "all" else []
        check(list(got) == list(range(len(want))), "%r selects %s of %d", c["kind"], got, n)
        args = ["-n", c["kind"]]
    if "name" in c:
        want = [x for x in want if x == c["name"]]
        args += ["-t", c["name"]]
    if c["kind"] == "bad":
        args = ["-n", c["text"]]
    real, argv = plotter.Plotter, sys.argv
    with pipe.folder() as d:
        p = os.path.join(d, "in.h5")
        with h5py.File(p, "w") as f:
            for x in c["names"]:
                t = QTable({"Wavelength": [1.0] * u.um})
                t.meta["name"] = x
                g = f.create_group("targets/%s/table" % x)
                if c["other"]:
                    f.create_group("targets/%s/star" % x)
                t.write(g, path="table", serialize_meta=True)
            f.create_group("payload/channels")
        out = os.path.join(d, "plots")
        if c["deep"]:
            out = os.path.join(out, "a b", "c")
        else:
            os.mkdir(out)
        plotter.Plotter = Recorder
        sys.argv = ["exorad-plot", "-i", p, "-o", out] + args
        try:
            if c["kind"] in ("both", "bad"):
                try:
                    with quiet():
                        plotter.main()
                except (Exception, SystemExit):
                    pass
                else:
                    check(False, "%s is accepted", args)
                check(not drawn, "plots %s with the wrong options %s", drawn, args)
                return {"nontrivial": True, "labels": [c["kind"]]}
            sut("the plotting command", plotter.main)
        finally:
            plotter.Plotter, sys.argv = real, argv
        check(set(drawn) == set(want), "plots %s instead of %s with %s", drawn, want, args)
        files = sorted(os.listdir(out))
        check(files == sorted({x + ".png" for x in want}), "writes %s with %s", files, args)
        for x in want:
            with open(os.path.join(out, x + ".png")) as f:
                got = f.read()
            check(got == x, "%s.png shows %s", x, got)
    return {"nontrivial": 0 < len(set(want)) < n, "labels": [c["kind"]]}


# -------------------------------------------------- the real plotting command


@st.composite
def real_case(draw, tier):
    spec = draw(P.payload(n_ch=(1, 1), max_el=0, psf=(0.1, 0.3), R=(15, 20), foregrounds=False, noise=False))
    return {"spec": spec, "targets": [dict(draw(P.target()), name=NAMES[i]) for i in range(2)], "pick": draw(st.integers(0, 1))}


def real_run(c):
    from exorad.exorad import standard_pipeline
    from exorad.utils import plotter

    with pipe.folder() as d:
        xml, csv = P.write(c["spec"], d), P.write_targets(c["targets"], d)
        o = os.path.join(d, "o.h5")
        sut("the pipeline", lambda: standard_pipeline(options=xml, target_list=csv, output=o))
        argv = sys.argv
        sys.argv = ["exorad-plot", "-i", o, "-o", os.path.join(d, "plots"), "-n", str(c["pick"])]
        try:
            sut("the plotting command", plotter.main)
        finally:
            sys.argv = argv
        files = os.listdir(os.path.join(d, "plots"))
        want = sorted(t["name"] for t in c["targets"])[c["pick"]] + ".png"
        check(files == [want], "writes %s instead of %s", files, want)
        with open(os.path.join(d, "plots", want), "rb") as f:
            b = f.read()
        check(b[:8] == b"\x89PNG\r\n\x1a\n" and len(b) > 2000, "%s is not an image", want)
    return {"nontrivial": True, "labels": ["real command"]}


SUBS = [
    Sub("curves", lambda tier: case(tier), run, 120, 1500),
    Sub("signals", lambda tier: signal_case(tier), signal_run, 100, 800),
    Sub("selection", lambda tier: sel_case(tier), sel_run, 300, 3000),
    Sub("command", lambda tier: real_case(tier), real_run, 16, 120),
]
