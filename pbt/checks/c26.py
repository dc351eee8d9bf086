"""What is written says which code, and which version of it, has written it."""
import contextlib
import datetime
import json
import logging
import os
import shutil
import string
import subprocess
import sys
from importlib import metadata

from hypothesis import strategies as st

from .. import clean
from .. import env
from .. import payload as P
from .. import pipe
from ..core import Sub, Violation, check, sut
from .c19 import NAMES, away

RULE = (
    "installs are non-trivial when the version or the state of the sources is "
    "not that of the tree itself; histories of a file when it is written more "
    "than once, or by something else first; results, always"
)
ASSUMPTIONS = [
    "the metadata of the installed distribution is right about its own version",
    "the commit of a checkout whose reference is not a loose file may be unknown, never another one",
]
WORDS = st.text(string.ascii_lowercase + string.digits, min_size=1, max_size=7)
HEX = st.text("0123456789abcdef", min_size=40, max_size=40)
FIELDS = {
    "program_name", "package name", "program_version", "author", "copyright", "license", "url",
    "citation", "file_name", "file_time", "creator", "HDF5_Version", "h5py_version",
}

# ------------------------------------------------------------------ installs

SCRIPT = r"""
import contextlib, io, json, os, socket, sys
def no(*a, **k):
    raise OSError("no network")
socket.socket.connect = no
where, out = sys.argv[1], {}
try:
    # the chatter of the start
    with contextlib.redirect_stdout(io.StringIO()):
        import exorad
    out["file"] = os.path.realpath(exorad.__file__)
    for k in ("commit", "branch", "url", "author", "license", "pkg_name", "summary", "title"):
        out[k] = getattr(exorad, "__%s__" % k)
    import exorad.__version__ as v
    out["version"] = v.__version__
    import h5py
    from exorad.output.hdf5 import HDF5Output
    with HDF5Output(os.path.join(where, "o.h5")) as o:
        pass
    with h5py.File(os.path.join(where, "o.h5"), "r") as f:
        out["attrs"] = {k: str(x) for k, x in f.attrs.items()}
        out["info"] = {k: x[()].decode() for k, x in f["info/ExoRad"].items()}
    from exorad.tasks import MergeChannelsOutput
    from exorad.exorad import main
    from exorad.utils.plotter import main as plot
    out["help"] = []
    for m, n in ((main, "exorad"), (plot, "exorad-plot")):
        sys.argv, b = [n, sys.argv[2] if len(sys.argv) > 2 else "-h"], io.StringIO()
        code = "none"
        with contextlib.redirect_stdout(b):
            try:
                m()
            except SystemExit as e:
                code = e.code
        sys.argv = ["x", where] + ([sys.argv[1]] if len(sys.argv) > 1 else [])
        out["help"].append([code, b.getvalue()])
except BaseException as e:
    import traceback
    out["error"] = "%s(%s) %s" % (type(e).__name__, e, traceback.format_exc()[-600:])
with open(os.path.join(where, "out.json"), "w") as f:
    json.dump(out, f)
"""


@st.composite
def version(draw):
    n = draw(st.lists(st.integers(0, 130), min_size=2, max_size=4))
    return ".".join(map(str, n)) + draw(st.sampled_from(["", "", "", "rc1", ".post2", ".dev3"]))


@st.composite
def install(draw, tier):
    branch = "/".join(draw(st.lists(WORDS, min_size=1, max_size=3)))
    state = draw(
        st.sampled_from(["none", "branch", "branch", "branch", "detached", "packed", "stale packed", "unborn", "worktree", "submodule"])
    )
    urls = draw(st.permutations(["Documentation", "Homepage", "Repository"]))
    return {
        "version": draw(version()), "urls": urls, "host": draw(WORDS), "author": draw(st.sampled_from(["A. B", "Lorenzo V. Mugnai", "Zoë"])),
        "license": draw(st.sampled_from(["BSD-3-Clause", "MIT"])), "summary": draw(st.sampled_from(["a model", "The generic point source radiometric model"])),
        "state": state, "branch": branch, "commit": draw(HEX), "other": draw(HEX), "newline": draw(st.booleans()),
        "others": draw(st.lists(WORDS, max_size=2)), "help": draw(st.sampled_from(["-h", "--help"])),
        "cwd": draw(st.sampled_from(["root", "elsewhere", "package"])),
    }


def urls(c):
    return {
        "Documentation": "https://docs.%s.org/en/latest/" % c["host"],
        "Homepage": "https://www.%s.org" % c["host"],
        "Repository": "https://git.%s.org/code, and more" % c["host"],
    }


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def checkout(c, root):
    """the sources as git leaves them -> the commits and the branch they may tell"""
    git, nl = os.path.join(root, ".git"), "\n" * c["newline"]
    state, ref = c["state"], "refs/heads/" + c["branch"]
    if state == "none":
        return [None], None
    if state in ("worktree", "submodule"):
        put(git, "gitdir: %s/%s\n" % (os.path.join(root, "main", ".git"), "worktrees/x" if state == "worktree" else "modules/x"))
        git = os.path.join(root, "main", ".git")
        d = os.path.join(git, "worktrees/x" if state == "worktree" else "modules/x")
        put(os.path.join(d, "HEAD"), "ref: %s\n" % ref)
        if state == "worktree":
            put(os.path.join(d, "commondir"), "../..\n")
            put(os.path.join(git, "HEAD"), "ref: refs/heads/main\n")
            put(os.path.join(git, "refs/heads/main"), c["other"] + "\n")
            put(os.path.join(git, ref), c["commit"] + "\n")
        else:
            put(os.path.join(d, ref), c["commit"] + "\n")
        return [None, c["commit"]], [None, c["branch"]]
    for o in c["others"]:
        # other branches of the repository
        if o != c["branch"].split("/")[0]:
            put(os.path.join(git, "refs/heads", o), c["other"] + "\n")
    if state == "detached":
        put(os.path.join(git, "HEAD"), c["commit"] + nl)
        put(os.path.join(git, ref), c["other"] + "\n")
        return [c["commit"]], None
    put(os.path.join(git, "HEAD"), "ref: " + ref + nl)
    if state == "branch":
        put(os.path.join(git, ref), c["commit"] + nl)
    packed = {"packed": c["commit"], "stale packed": c["other"]}.get(state)
    if packed:
        put(os.path.join(git, "packed-refs"), "# pack-refs with: peeled fully-peeled sorted\n%s %s\n" % (packed, ref))
    if state == "stale packed":
        put(os.path.join(git, ref), c["commit"] + nl)
    if state == "packed":
        return [None, c["commit"]], c["branch"]
    return [None if state == "unborn" else c["commit"]], c["branch"]


def run_install(c):
    with pipe.folder() as d:
        root, where = os.path.join(d, "tree"), os.path.join(d, "w")
        os.makedirs(where)
        shutil.copytree(os.path.join(env.REPO, "exorad"), os.path.join(root, "exorad"), ignore=shutil.ignore_patterns("__pycache__"))
        lines = ["Metadata-Version: 2.4", "Name: exorad", "Version: " + c["version"], "Summary: " + c["summary"],
                 "License: " + c["license"], "Author: " + c["author"]]
        lines += ["Project-URL: %s, %s" % (k, urls(c)[k]) for k in c["urls"]]
        dist = os.path.join(root, "exorad-%s.dist-info" % c["version"])
        os.makedirs(dist)
        with open(os.path.join(dist, "METADATA"), "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + "\n\nThe text.\n")
        commits, branch = checkout(c, root)
        put(os.path.join(d, "s.py"), SCRIPT)
        e = dict(os.environ, PYTHONPATH=root, PYTHONUTF8="1")
        cwd = {"root": root, "elsewhere": where, "package": os.path.join(root, "exorad")}[c["cwd"]]
        p = subprocess.run(
            [sys.executable, os.path.join(d, "s.py"), where, c["help"]], cwd=cwd, env=e,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, text=True, errors="replace",
        )
        path = os.path.join(where, "out.json")
        if not os.path.exists(path):
            raise Violation("importing the package ends the process (%s): %s" % (p.returncode, p.stdout[-400:]))
        with open(path) as f:
            out = json.load(f)
        check("error" not in out, "importing the package, or writing a file, raises %s", out.get("error"))
        if not out["file"].startswith(os.path.realpath(root)):
            raise RuntimeError("imported %s" % out["file"])
    v = c["version"]
    check(out["version"] == v, "version %s, of an install of version %s", out["version"], v)
    check(out["commit"] in commits, "commit %r instead of %r (%s)", out["commit"], commits[-1], c["state"])
    br = branch if isinstance(branch, list) else [branch]
    check(out["branch"] in br, "branch %r instead of %r (%s)", out["branch"], br[-1], c["state"])
    want = {"url": urls(c)["Repository"], "author": c["author"], "license": c["license"], "pkg_name": "exorad", "summary": c["summary"], "title": "ExoRad2"}
    for k, x in want.items():
        check(out[k] == x, "%s is %r instead of %r", k, out[k], x)
    want = {"program_version": v, "program_name": "ExoRad2", "package name": "exorad", "url": want["url"], "author": c["author"], "license": c["license"]}
    for kind in ("attrs", "info"):
        for k, x in want.items():
            check(out[kind].get(k) == x, "%s of the file: %s is %r instead of %r", kind, k, out[kind].get(k), x)
    for (code, text), name in zip(out["help"], ("exorad", "exorad-plot")):
        check(code in (0, None), "%s %s exits with %r", name, c["help"], code)
        check("ExoRad " + v in " ".join(text.split()), "the help of %s does not tell version %s: %s", name, v, text[:200])
        check("usage: " + name in text, "the help of %s starts with %r", name, text[:60])
    return {"labels": [c["state"], "cwd " + c["cwd"]], "nontrivial": True}


# -------------------------------------------------------- histories of a file


@st.composite
def history(draw, tier):
    n = draw(st.integers(1, 5))
    steps = []
    for i in range(n):
        steps.append({
            "append": draw(st.booleans()) if i else draw(st.sampled_from([False, False, True])),
            "what": draw(st.sampled_from(["nothing", "group", "info", "table", "payload"])),
            "as": draw(st.sampled_from(["same", "same", "relative", "other name"])),
            "with": draw(st.booleans()),
        })
    return {"steps": steps, "first": draw(st.sampled_from([None, None, None, "other program", "other version", "bare"])), "ext": draw(st.sampled_from([".h5", ".hdf5", ""]))}


def reader(f, k):
    x = f[k][()]
    return x.decode() if isinstance(x, bytes) else x


def run_history(c):
    import h5py
    from exorad.output.hdf5 import HDF5Output

    v = metadata.version("exorad")
    with pipe.folder() as d:
        path = os.path.join(d, "o" + c["ext"])
        info = None  # what was written at the creation of the file
        if c["first"]:
            with h5py.File(path, "w") as f:
                if c["first"] != "bare":
                    f.attrs["program_version"] = "0.0.1"
                    f.attrs["program_name"] = "Other" if c["first"] == "other program" else "ExoRad2"
                    f.attrs["file_time"] = "2001-01-01T00:00:00"
                f.attrs["mine"] = "kept"
                f["notes/x"] = 3.0
        mine = bool(c["first"])
        extra, groups = {}, {}
        old = os.getcwd()
        try:
            os.chdir(d)
            for i, s in enumerate(c["steps"]):
                if s["as"] == "other name" and os.path.exists(path):
                    new = os.path.join(d, "moved%d%s" % (i, c["ext"]))
                    os.rename(path, new)
                    path = new
                given = os.path.relpath(path, d) if s["as"] == "relative" else path
                there = os.path.exists(path)
                t0 = datetime.datetime.now()

                def write():
                    o = HDF5Output(given, append=s["append"])
                    if s["with"]:
                        with o:
                            fill(o)
                    else:
                        o.open()
                        fill(o)
                        o.close()

                def fill(o):
                    if s["what"] == "group":
                        o.create_group("g%d" % i).store_dictionary({"a": float(i), "b": {"c": "x"}}, "d")
                    elif s["what"] == "info":
                        o.add_info({"by": "me", "n": float(i)}, "more%d" % i)
                    elif s["what"] == "table":
                        from astropy.table import QTable

                        o.create_group("t%d" % i).write_table("table", QTable({"a": [1.0, 2.0]}))

                if s["what"] == "payload":
                    # the way the package itself keeps a payload
                    write = lambda: store(given, s["append"], i)
                sut("writing step %d of %d" % (i + 1, len(c["steps"])), write)
                t1 = datetime.datetime.now()
                if not s["append"]:
                    extra, groups, info, mine = {}, {}, None, False
                if s["what"] == "info":
                    extra["more%d" % i] = float(i)
                elif s["what"] == "group":
                    groups["g%d/d/a" % i] = float(i)
                elif s["what"] == "payload":
                    groups["payload%d/name/value" % i] = "p"
                with h5py.File(path, "r") as f:
                    a = {k: x for k, x in f.attrs.items()}
                    check(FIELDS <= set(a), "the file does not tell its %s", sorted(FIELDS - set(a)))
                    check(a["program_version"] == v, "written by version %r of the code, not %r", a["program_version"], v)
                    check(a["program_name"] == "ExoRad2", "written by %r", a["program_name"])
                    check(a["file_name"] == given, "the file says its name is %r, not %r", a["file_name"], given)
                    check(a["creator"] == "HDF5Output", "created by %r", a["creator"])
                    check(a["h5py_version"] == h5py.version.version, "h5py of version %r", a["h5py_version"])
                    check(a["HDF5_Version"] == h5py.version.hdf5_version, "HDF5 of version %r", a["HDF5_Version"])
                    t = datetime.datetime.fromisoformat(a["file_time"])
                    check(t0 <= t <= t1, "written at %s, not between %s and %s", t, t0, t1)
                    if mine:
                        check(a.get("mine") == "kept" and f["notes/x"][()] == 3.0, "the content of the file is lost")
                    check("info/ExoRad" in f, "the file holds no information on the code")
                    g = f["info/ExoRad"]
                    got = {k: reader(g, k) for k in g}
                    if info is None:
                        # the file is new: everything is from now
                        check({k: got.get(k) for k in FIELDS} == {k: a[k] for k in FIELDS}, "the information %s is not that of the attributes, %s", got, a)
                        info = got
                    else:
                        # still that of the one who created the file
                        check(got == info, "the information of the creation has changed from %s to %s", info, got)
                    for k, x in extra.items():
                        check("info/" + k in f, "the information %s is lost", k)
                        check(reader(f, "info/%s/by" % k) == "me" and reader(f, "info/%s/n" % k) == x, "the information %s has changed", k)
                    for k, x in groups.items():
                        check(k in f and reader(f, k) == x, "%s is lost", k)
        finally:
            os.chdir(old)
    n = len(c["steps"])
    return {"labels": ["steps %d" % n, "first " + str(c["first"])], "nontrivial": n > 1 or bool(c["first"])}


def store(path, append, i):
    from exorad.output.hdf5 import HDF5Output

    with HDF5Output(path, append=append) as o:
        o.store_dictionary({"name": {"value": "p"}}, "payload%d" % i)


# ------------------------------------------------------------------- results


@st.composite
def result(draw, tier):
    n = draw(st.integers(1, 3))
    names = draw(st.permutations(NAMES))[:n]
    return {
        "spec": draw(P.payload(n_ch=(1, 2), max_el=2, psf=(0.1, 0.2), R=(15, 40))),
        "targets": [dict(draw(P.target()), name=x) for x in names],
        "full": draw(st.booleans()), "n": draw(st.sampled_from([1, 1, 2])), "cli": draw(st.booleans()),
        # what the output file is before
        "before": draw(st.sampled_from(["nothing", "nothing", "older version", "earlier run"])),
        "efficiency": draw(st.booleans()),
    }


class Said(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


@contextlib.contextmanager
def listening():
    h, root = Said(), logging.getLogger("exorad")
    level = root.level
    root.addHandler(h)
    if root.level > logging.INFO or root.level == 0:
        root.setLevel(logging.INFO)
    try:
        yield h.lines
    finally:
        root.removeHandler(h)
        root.setLevel(level)


def run_result(c):
    clean.start()
    import h5py
    from astropy import units as u
    from astropy.table import QTable
    from exorad.exorad import main, standard_pipeline
    from exorad.utils.plotter import main as plot

    v = metadata.version("exorad")
    said = "code version " + v
    with pipe.folder() as d, away(d):
        xml = P.write(c["spec"], d)
        csv = P.write_targets(c["targets"], d)
        path = os.path.join(d, "out", "o.h5")
        os.mkdir(os.path.dirname(path))
        if c["before"] != "nothing":
            with h5py.File(path, "w") as f:
                f.attrs["program_version"] = "0.0.1"
                f.attrs["program_name"] = "ExoRad"
                if c["before"] == "earlier run":
                    f["info/ExoRad/program_version"] = "0.0.1"
                    f["targets/old one/table/table"] = [1.0]

        with listening() as lines:
            if c["cli"]:
                sys.argv = ["exorad", "-p", xml, "-t", csv, "-o", path, "-n", str(c["n"])] + ["-c"] * c["full"]
                sut("the command", main)
            else:
                sut("the pipeline", lambda: standard_pipeline(options=xml, target_list=csv, output=path, full_contrib=c["full"], n_thread=c["n"]))
        check(said in lines, "the pipeline says %s, not %r", [x for x in lines if "version" in x], said)
        with h5py.File(path, "r") as f:
            check(f.attrs["program_version"] == v, "written by version %r of the code, not %r", f.attrs["program_version"], v)
            check(f.attrs["program_name"] == "ExoRad2", "written by %r", f.attrs["program_name"])
            check(reader(f, "info/ExoRad/program_version") == v, "the information tells version %r", reader(f, "info/ExoRad/program_version"))
            names = sorted(f["targets"])
        check(names == sorted(t["name"] for t in c["targets"]), "targets %s in the output", names)
        for t in c["targets"]:
            m = QTable.read(path, path="targets/%s/table/table" % t["name"]).meta
            check(m.get("ExoRad version") == v, "the table of %s is of version %r, not %r", t["name"], m.get("ExoRad version"), v)
            check(m.get("name") == t["name"], "the table of %s is named %r", t["name"], m.get("name"))
            check(m.get("starName") == t["name"], "the star of %s is named %r", t["name"], m.get("starName"))
            for k, a, un in (("starR", "R", u.R_sun), ("starDistance", "D", u.pc)):
                check(k in m, "the table of %s does not tell %s", t["name"], k)
                got = u.Quantity(m[k]).to(un).value
                check(abs(got - t[a]) <= 1e-9 * abs(t[a]), "%s of %s is %s instead of %s", k, t["name"], got, t[a])
        if c["efficiency"]:
            folder = os.path.join(d, "plots")
            os.mkdir(folder)
            sys.argv = ["exorad-plot", "-i", path, "-o", folder]
            with listening() as lines:
                sut("the command for plots", plot)
            check(said in lines, "exorad-plot says %s, not %r", [x for x in lines if "version" in x], said)
    return {"labels": [c["before"], "command" if c["cli"] else "function"] + ["full"] * c["full"] + ["plots"] * c["efficiency"]}


SUBS = [
    Sub("installs", install, run_install, 48, 600),
    Sub("histories", history, run_history, 300, 6000),
    Sub("results", result, run_result, 48, 800),
]
