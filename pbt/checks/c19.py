import contextlib
import logging
import os
import sys

import numpy as np
from hypothesis import strategies as st

from .. import clean
from .. import payload as P
from .. import pipe
from ..core import Sub, check, quiet, sut
from .common import CT
from .noise import RT

RULE = (
    "runs of the command or of its function are non-trivial when an output file "
    "is asked for; the file, the folder and what is left alone are compared with "
    "observing each target alone, in a process that has done nothing else"
)
ASSUMPTIONS = ["an output file that already holds the same channels or targets is always replaced"]
NAMES = ["alpha", "Beta 2", "WASP-12", "HD 209458"]
MORE = NAMES + ["WASP-1", "WASP-121", "10", "9", "beta 2", "x.y", "Kepler-1 b", "zeta"]
STAR = {"M": "M_sun", "Teff": "K", "R": "R_sun", "D": "pc", "ra": "deg", "dec": "deg"}


# ------------------------------------------------------------- the reference


def alone(xml, csv, lacking):
    """what observing each target alone gives: tables of the channels and, by
    name, table, spectrum and luminosity of each target"""
    with quiet():
        import exorad.tasks as T

        payload, channels, wl = T.PreparePayload()(payload_file=xml, output=None)
        out = {k: (v.table, v.built_instr["optical_path"]["signal_table"].colnames) for k, v in channels.items()}
        tgt = {}
        for i in range(len(T.LoadTargetList()(target_list=csv).target)):
            if i in lacking:
                continue
            payload, channels, wl = T.PreparePayload()(payload_file=xml, output=None)
            t = T.LoadTargetList()(target_list=csv).target[i]
            t = T.ObserveTarget()(target=t, payload=payload, channels=channels, wl_range=wl)
            s = t.star
            tgt[t.name] = {
                "table": t.table, "sed": (s.sed.wl_grid.value, np.ravel(s.sed.data.value)),
                "luminosity": (s.luminosity.value, str(s.luminosity.unit)), "model": s.model, "id": t.id,
                "star": {k: getattr(s, k).to(u).value for k, u in STAR.items() if hasattr(s, k)},
            }
        return out, tgt


# --------------------------------------------------------------------- cases


@st.composite
def case(draw, tier):
    spec = draw(P.payload(n_ch=(1, 2), max_el=3, psf=(0.1, 0.3), R=(15, 60)))
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 3, 3, 7, 12]))
    c = {
        "spec": spec,
        "targets": [dict(draw(P.target()), name=MORE[i]) for i in range(n)],
        "lacking": draw(st.lists(st.integers(0, n - 1), max_size=1)),
        "lack": draw(st.sampled_from(["Teff", "R", "D", "M"])),
        "blank": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["magk", "ra", "dec"])).map(list), max_size=2)),
        "state": draw(st.sampled_from(
            ["new folder", "new", "new", "stale", "stale", "kept", "same folder", "none", "none",
             "payload is output", "stored payload", "same name"]
        )),
        "ext": draw(st.sampled_from([".h5", ".hdf5"])),
        "n": draw(st.sampled_from([1, 1, 1, 2, 3])),
        "full": draw(st.integers(0, 2)) == 2,
        "plot": draw(st.integers(0, 7)) == 7,
        "debug": draw(st.integers(0, 3)) == 3,
        "log": draw(st.sampled_from([False, False, False, True, "name"])),
        "cli": draw(st.booleans()),
        # the stored payload comes with the results of an earlier run
        "results": draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True)),
        # what lies in the folder of the output already
        "there": draw(st.sampled_from(["", "", "payload", "list"])),
        "relative": draw(st.booleans()),
    }
    if c["state"] == "kept" or c["log"] == "name":
        # not options of the command
        c["cli"] = False
    return c


@contextlib.contextmanager
def away(folder):
    """current folder, command line and logging put back afterwards"""
    root = logging.getLogger("exorad")
    cwd, argv, hs = os.getcwd(), sys.argv, list(root.handlers)
    level = hs[0].level if hs else None
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(cwd)
        sys.argv = argv
        for h in list(root.handlers):
            if h not in hs:
                root.removeHandler(h)
                h.close()
        if hs:
            hs[0].setLevel(level)


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def table(path, where):
    from astropy.table import QTable

    t = sut("reading %s of the output" % where, lambda: QTable.read(path, path=where))
    t.convert_bytestring_to_unicode()
    return t


def names_in(path, group):
    import h5py

    with h5py.File(path, "r") as f:
        return sorted(f[group]) if group in f else None


def run(c):
    clean.start()
    spec = c["spec"]
    from exorad.exorad import main, standard_pipeline
    from exorad.tasks import PreparePayload

    with pipe.folder() as d, away(d):
        src, out_dir, work = (os.path.join(d, x) for x in ("src", "out", "work"))
        for x in (src, work):
            os.mkdir(x)
        os.chdir(work)
        xml = P.write(spec, src)
        lists = src
        if c["there"]:
            # the target list and the payload are in different folders
            lists = os.path.join(d, "lists")
            os.mkdir(lists)
        csv = P.write_targets(c["targets"], lists)
        lack(csv, c["lacking"], c["lack"])
        for i, k in c["blank"]:
            # not needed
            lack(csv, [i], k)
        r = clean.call(alone, xml, csv, c["lacking"])
        if r[0] != "ok":
            check(False, "raises %s(%s) on a valid input", r[1], r[2])
        channels, tgts = r[1]

        opts, state, output = xml, c["state"], None
        if state in ("stale", "kept", "new"):
            os.mkdir(out_dir)
        if state == "same folder":
            out_dir = lists if c["there"] == "list" else src
        elif state == "new folder":
            out_dir = os.path.join(out_dir, "a b", "c")
        elif c["there"] and state in ("new", "stale"):
            os.rmdir(out_dir)
            out_dir = lists if c["there"] == "list" else src
        if state != "none":
            output = os.path.join(out_dir, "result" + c["ext"])
        if state in ("stored payload", "payload is output", "same name"):
            opts = os.path.join(src, "payload" + c["ext"])
            with quiet():
                PreparePayload()(payload_file=xml, output=opts)
            if c["results"]:
                earlier(opts, c["results"], d)
            if state == "same name":
                # another file, of the name of the one of the payload
                output = os.path.join(out_dir, "payload" + c["ext"])
            if state == "payload is output":
                output, out_dir = opts, src
            if state == "same name" and c["there"]:
                # which exists already, with other content
                if not os.path.isdir(out_dir):
                    os.mkdir(out_dir)
                earlier(output, ["old one"], d)
        if state in ("stale", "kept"):
            import h5py

            with h5py.File(output, "w") as f:
                f["targets/old one/table/table"] = [1.0]
                f["notes/x"] = 3.0
        before = listing(d)
        kw = dict(output=output, plot=c["plot"], full_contrib=c["full"], n_thread=c["n"], debug=c["debug"])
        a, b, o = opts, csv, output
        if c["relative"]:
            a, b = os.path.relpath(opts), os.path.relpath(csv)
            kw["output"] = o = output and os.path.relpath(output)
        if c["plot"] and output is None:
            # nothing to look at, nor to write on
            import matplotlib

            matplotlib.use("Agg")
        if c["cli"]:
            v = ["-p", a, "-t", b, "-n", str(c["n"])]
            v += ["-o", o] if o else []
            v += ["-c"] * c["full"] + ["-P"] * c["plot"] + ["-d"] * c["debug"] + ["-l"] * bool(c["log"])
            sys.argv = ["exorad"] + v
            sut("the command", main)
        else:
            kw["log"] = c["log"] if c["log"] != "name" else os.path.join(work, "mine.txt")
            if state == "kept":
                kw["replace"] = False
            sut("the pipeline", lambda: standard_pipeline(options=a, target_list=b, **kw))

        # ------------------------------------------------------- the folders
        after = listing(d)
        rel = lambda p: os.path.relpath(p, d)
        new = set(after) - set(before)
        want = set()
        if c["log"]:
            want.add("work/mine.txt" if c["log"] == "name" and not c["cli"] else "work/exorad.log")
            for w in want & new:
                check(len(after[w]) > 0, "the log file is empty")
        if output:
            if tgts or state not in ("stored payload", "same name") or rel(output) in new:
                want.add(rel(output))
            want |= {rel(os.path.join(out_dir, os.path.basename(p))) for p in (opts, csv)}
            if c["plot"]:
                want |= {rel(os.path.join(out_dir, n + ".png")) for n in list(tgts) + ["efficiency"]}
        check(new == want - set(before), "files written: %s instead of %s", sorted(new), sorted(want - set(before)))
        for f in before:
            check(f in after, "%s was removed", f)
            if output is None or f != rel(output):
                check(after[f] == before[f], "%s was changed", f)
        if output:
            for p in (opts, csv):
                q = rel(os.path.join(out_dir, os.path.basename(p)))
                if q != rel(output):
                    check(after[q] == before[rel(p)], "the copy of %s differs", os.path.basename(p))
            if os.path.exists(output):
                contents(c, output, channels, tgts)
        for w in new:
            if w.endswith(".png"):
                check(after[w][:8] == b"\x89PNG\r\n\x1a\n" and len(after[w]) > 2000, "%s is not an image", w)
    lab = [state, "command" if c["cli"] else "function"]
    lab += [k for k in ("full", "plot", "debug") if c[k]] + ["%d processes" % c["n"]] * (c["n"] > 1)
    if output and c["there"]:
        lab.append("%s already there" % c["there"] if out_dir in (src, lists) else "different folders")
    if state in ("stored payload", "payload is output", "same name") and c["results"]:
        lab.append("payload with results")
    lab += ["values missing"] * bool(c["blank"])
    lab += ["skipped target"] * len(c["lacking"]) + ["log"] * bool(c["log"])
    return {"nontrivial": output is not None, "labels": lab}


def earlier(path, names, d):
    """results of an earlier run in a file"""
    from exorad.output.hdf5 import HDF5Output

    rows = [dict({"M": 1.0, "Teff": 5000.0, "R": 1.0, "D": 9.0, "magk": 5.0, "ra": 1.0, "dec": 2.0}, name=n) for n in names]
    with quiet():
        for t in pipe.make_targets(rows, d, name="earlier.csv"):
            from astropy.table import QTable

            t.table = QTable({"chName": ["x"], "Wavelength": [1.0]})
            with HDF5Output(path, append=True) as o:
                t.write(o)


def lack(csv, which, what):
    """leave something the observation needs out of the list"""
    import csv as C

    with open(csv) as f:
        rows = list(C.reader(f.read().splitlines()))
    k = [i for i, h in enumerate(rows[0]) if (h + " ").startswith("star %s " % what)][0]
    for i in which:
        rows[i + 1][k] = ""
    with open(csv, "w", newline="") as f:
        C.writer(f, lineterminator="\n").writerows(rows)


def contents(c, output, channels, tgts):
    keep = ["old one"] if c["state"] == "kept" else []
    got = names_in(output, "targets") or []
    check(got == sorted(list(tgts) + keep), "targets %s in the output instead of %s", got, sorted(list(tgts) + keep))
    check((names_in(output, "notes") is not None) == bool(keep), "content of a previous output file %s", "lost" if keep else "kept")
    got = names_in(output, "payload/channels")
    if got is None and c["state"] == "stored payload":
        # a copy of the payload lies next to the output
        channels_stored = {}
    else:
        channels_stored = channels
        check(names_in(output, "payload/payload description") is not None, "no payload description in the output")
    check((got or []) == sorted(channels_stored), "channels %s in the output instead of %s", got, sorted(channels))
    for k, (t, _) in channels_stored.items():
        pipe.tables_equal(t, table(output, "payload/channels/%s/%s" % (k, k)), "table of channel %s in the output" % k, 1e-12)
    import h5py

    def scalar(v):
        v = v[()]
        return v.decode() if isinstance(v, bytes) else v

    for n, w in tgts.items():
        t = table(output, "targets/%s/table/table" % n)
        if c["full"]:
            full(t, w["table"], channels, n)
        else:
            pipe.tables_equal(w["table"], t, "table of %s in the output" % n, 1e-12)
        check(t.meta.get("name") == n, "table of %s named %r", n, t.meta.get("name"))
        with h5py.File(output, "r") as f:
            g = f["targets/" + n]
            for i, k in c["blank"]:
                if c["targets"][i]["name"] == n:
                    check(k not in g["star"], "%s of %s stored, but not in the list", k, n)
            for k, v in w["star"].items():
                import astropy.units as u

                q = scalar(g["star/%s/value" % k]) * u.Unit(scalar(g["star/%s/unit" % k]))
                check(abs(q.to(STAR[k]).value / v - 1) < 1e-12 or q.to(STAR[k]).value == v, "%s of %s stored as %s instead of %r", k, n, q, v)
            check(scalar(g["id"]) == w["id"], "identifier of %s is %r", n, scalar(g["id"]))
            L = scalar(g["star/luminosity/value"]), scalar(g["star/luminosity/unit"])
            check(abs(L[0] / w["luminosity"][0] - 1) < 1e-9 and L[1] == w["luminosity"][1], "luminosity of %s stored as %s", n, L)
            check(scalar(g["star/model"]) == w["model"], "model of %s stored as %r", n, scalar(g["star/model"]))
            for k, v in (("wl_grid", w["sed"][0]), ("data", w["sed"][1])):
                x = g["star/sed/" + k]
                x = np.ravel(x["value"][()] if isinstance(x, h5py.Group) else x[()])
                check(x.shape == v.shape and np.allclose(x, v, rtol=1e-9, atol=0), "spectrum of %s: %s differs", n, k)


def full(t, ref, channels, name):
    """the contributions of the elements take the place of their sum"""
    parts = []
    for _, cols in channels.values():
        parts += [k for k in cols if k not in parts and k.endswith(" signal")]
    cols = set(ref.colnames) - {"instrument_signal", "instrument_signal_noise"}
    cols |= set(parts) | {p + "_noise" for p in parts}
    check(
        cols - {"Wavelength"} == set(t.colnames) - {"Wavelength"}, "columns %s missing, %s unexpected for %s in the full output",
        sorted(cols - set(t.colnames)), sorted(set(t.colnames) - cols), name,
    )
    same = [k for k in ref.colnames if k in t.colnames]
    pipe.tables_equal(ref[same], t[same], "table of %s in the full output" % name, 1e-9)
    tot = sum(pipe.column(t, p, CT) for p in parts)
    ref_tot = pipe.column(ref, "instrument_signal", CT)
    check(np.allclose(tot, ref_tot, rtol=1e-9, atol=1e-300, equal_nan=True), "the contributions add up to %s instead of %s", tot, ref_tot)
    tot = sum(pipe.column(t, p + "_noise", RT) ** 2 for p in parts)
    ref_tot = pipe.column(ref, "instrument_signal_noise", RT) ** 2
    # a channel without any light never saturates: the gain of its noise is undefined
    tot, lit = np.broadcast_to(tot, ref_tot.shape), np.isfinite(ref_tot)
    tot, ref_tot = tot[lit], ref_tot[lit]
    check(np.allclose(tot, ref_tot, rtol=1e-9, atol=1e-300, equal_nan=True), "the noise of the contributions adds up to %s instead of %s", tot, ref_tot)
    # of each channel, only its own elements
    for k, (_, cols) in channels.items():
        rows = pipe.rows(t, k)
        for p in parts:
            if p not in cols:
                check(np.all(pipe.column(rows, p, CT) == 0), "%s appears in %s", p, k)


SUBS = [Sub("pipeline", lambda tier: case(tier), run, 160, 2500)]
