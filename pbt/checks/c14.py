import os
import pickle
from xml.sax.saxutils import escape, quoteattr

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, one_after_the_other, quiet, sut

RULE = (
    "descriptions are generated as trees whose meaning is known by construction "
    "and rendered as XML; non-trivial when a tag is repeated, a unit is given, a "
    "data file is referred to or the configuration path is used"
)
ASSUMPTIONS = [
    "repeated tags with the same string value are not generated",
    "texts that look like numbers only to Python (1_000, nan, inf) are not generated",
]

TAGS = ["alpha", "beta", "wl_min", "channelClass", "detector", "qe", "Fnum_x", "name", "type", "comment"]
WORDS = ["Photometer", "planck", "a b", "M1", "x-y", "D'Arte", "a<b", "100 nm", "v1.2", "1.2.3", "true", "none", "é", "R&D", "-", ".."]
UNITS = ["micron", "m", "K", "count", "count/s", "Hz", "m**2", "sr", "1/s", "W / (m2 um)", "electron"]


@st.composite
def leaf_value(draw, kinds=("int", "float", "bool", "word", "quantity", "bare", "path")):
    k = draw(st.sampled_from(kinds))
    if k == "int":
        v = draw(st.integers(-10**6, 10**6))
        return {"kind": k, "v": v, "text": draw(st.sampled_from(["%d", " %d ", "\n  %d\n"])) % v}
    if k == "float":
        v = draw(P.fl(-1e6, 1e6, 8))
        t = draw(st.sampled_from([repr(v), "%.9e" % v, " %r\n" % v]))
        return {"kind": k, "v": float(t), "text": t if not t.strip().lstrip("-").isdigit() else t.strip() + ".0"}
    if k == "bool":
        v = draw(st.booleans())
        return {"kind": k, "v": v, "text": str(v)}
    if k in ("quantity", "bare"):
        i = draw(st.booleans())
        v = draw(st.integers(0, 500)) if i else draw(P.fl(0.001, 1e5, 7))
        u = draw(st.sampled_from(["", "dimensionless"])) if k == "bare" else draw(st.sampled_from(UNITS))
        return {"kind": "quantity", "v": float(v), "unit": "" if k == "bare" else u, "written": u, "text": repr(v)}
    if k == "path":
        s = draw(st.sampled_from(["__ConfigPath__/x.csv", "__ConfigPath__", "a __ConfigPath__ b __ConfigPath__"]))
        return {"kind": k, "v": s, "text": s}
    w = draw(st.sampled_from(WORDS))
    t = draw(st.sampled_from(["%s", "  %s\n", "\n%s "])) % w
    return {"kind": "word", "v": w, "text": t}


@st.composite
def node(draw, tag, depth):
    n = {"tag": tag, "kids": [], "attrs": {}, "val": None}
    n["val"] = draw(P.maybe(leaf_value(), 0.85))
    if draw(st.integers(0, 4)) == 4:
        n["attrs"]["note"] = draw(st.sampled_from(WORDS))
    if draw(st.integers(0, 4)) == 4:
        n["attrs"]["id"] = str(draw(st.integers(0, 9)))
    if depth > 0:
        n["kids"] = draw(kids(depth - 1))
    n["remark"] = draw(st.booleans())
    return n


@st.composite
def kids(draw, depth):
    out = []
    for tag in draw(st.lists(st.sampled_from(TAGS), max_size=4, unique=True)):
        rep = draw(st.sampled_from([1, 1, 1, 2, 3]))
        seen = set()
        for _ in range(rep):
            k = draw(node(tag, depth))
            if rep > 1:
                if k["val"] is None:
                    k["val"] = draw(leaf_value(("int", "float", "word")))
                v = k["val"]
                if v["kind"] in ("word", "path"):
                    # names tell repeated tags apart
                    if v["v"] in seen:
                        continue
                    seen.add(v["v"])
            out.append(k)
    if len(out) > 1 and draw(st.booleans()):
        out = draw(st.permutations(out))
        # the order of the instances of a tag is the one of the file
        out = list(out)
    d = draw(st.integers(0, 9))
    if d == 9 and not any(k["tag"] == "datafile" for k in out):
        out.insert(draw(st.integers(0, len(out))), {"tag": "datafile", "table": draw(table())})
    elif d == 8:
        out.insert(draw(st.integers(0, len(out))), {
            "tag": "datadict", "fmt": draw(st.sampled_from(["pickle", "h5", "hdf5"])),
            "dict": {"a": draw(P.fl(0.0, 9.0)), "b": {"c": draw(st.sampled_from(["x", "word"])), "d": draw(st.integers(0, 9))}},
        })
    return out


@st.composite
def table(draw):
    n = draw(st.integers(1, 5))
    cols = draw(st.lists(st.sampled_from(["Wavelength", "Transmission", "ch0", "x"]), min_size=1, max_size=3, unique=True))
    return {
        "cols": {c: draw(st.lists(P.fl(-50.0, 1e4, 6), min_size=n, max_size=n)) for c in cols},
        "units": {c: draw(st.sampled_from(["um", "nm", ""])) for c in cols},
        "fmt": draw(st.sampled_from(["ecsv", "ecsv", "csv"])),
        "path": draw(st.booleans()),
        # missing entries of a plain table, which count as zero
        "holes": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2), st.sampled_from(["#N/A", "N/A", ""])), max_size=2))
        if draw(st.integers(0, 2)) == 2 and len(cols) > 1
        else [],
    }


def cells(t):
    """the text of the cells of a plain table, with its missing entries, and their values"""
    rows = [[repr(v) for v in r] for r in zip(*t["cols"].values())]
    cols = {c: list(v) for c, v in t["cols"].items()}
    names = list(cols)
    for i, j, text in t["holes"] if t["fmt"] == "csv" else []:
        i, j = i % len(rows), j % len(names)
        rows[i][j] = text
        cols[names[j]][i] = 0.0
    return rows, cols


@st.composite
def doc(draw, tier):
    ks = draw(kids(3 if tier == "thorough" else 2))
    return {
        "kids": ks,
        "own": draw(st.sampled_from(["element", "element", "parameter", "both", "decoy"])),
        "decl": draw(st.booleans()),
    }


class Render:
    def __init__(self, d, conf):
        self.d, self.conf, self.n = d, conf, 0

    def kids(self, ks):
        return "\n".join(self.node(k) for k in ks)

    def file(self, name, by_path):
        return ("__ConfigPath__/" if by_path else self.conf + "/") + name

    def node(self, k):
        if k["tag"] == "datafile":
            self.n += 1
            t = k["table"]
            name = "data%d.%s" % (self.n, t["fmt"])
            p = os.path.join(self.conf, name)
            if t["fmt"] == "ecsv":
                P.ecsv(p, t["cols"], {a: b for a, b in t["units"].items() if b})
            else:
                with open(p, "w") as f:
                    f.write(",".join(t["cols"]) + "\n")
                    for row in cells(t)[0]:
                        f.write(",".join(row) + "\n")
            return "<datafile> %s </datafile>" % self.file(name, t["path"])
        if k["tag"] in ("datadict", "config_dict"):
            self.n += 1
            name = "dict%d.%s" % (self.n, k["fmt"])
            p = os.path.join(self.conf, name)
            if k["fmt"] == "pickle":
                with open(p, "wb") as f:
                    pickle.dump(k["dict"], f)
            else:
                import h5py

                with h5py.File(p, "w") as f:
                    fill(f, k["dict"])
            k["file"] = p
            return "<%s>%s</%s>" % (k["tag"], self.file(name, True), k["tag"])
        a = "".join(" %s=%s" % (n, quoteattr(v)) for n, v in k["attrs"].items())
        text = ""
        if k["val"]:
            text = escape(k["val"]["text"])
            if k["val"]["kind"] == "quantity":
                a += " unit=%s" % quoteattr(k["val"]["written"])
        elif k["kids"]:
            text = "\n   "
        inner = text + self.kids(k["kids"]) + ("<!-- a remark: 3.14 -->" if k["remark"] else "")
        if not inner:
            return "<%s%s/>" % (k["tag"], a)
        return "<%s%s>%s</%s>" % (k["tag"], a, inner, k["tag"])


def decoy(path):
    ext = path.rsplit(".", 1)[1]
    if ext == "ecsv":
        P.ecsv(path, {"other": [1.0, 2.0]}, {})
    elif ext == "csv":
        with open(path, "w") as f:
            f.write("other,column\n1,2\n")
    elif ext == "pickle":
        with open(path, "wb") as f:
            pickle.dump({"other": 1}, f)
    else:
        import h5py

        with h5py.File(path, "w") as f:
            fill(f, {"other": 1})


def fill(g, d):
    for k, v in d.items():
        if isinstance(v, dict):
            fill(g.create_group(k), v)
        else:
            g.create_dataset(k, data=v)


def parsed(v, conf):
    import astropy.units as u

    if v["kind"] == "quantity":
        return v["v"] * u.Unit(v["unit"])
    if v["kind"] == "path":
        return v["v"].replace("__ConfigPath__", conf)
    return v["v"]


def same_value(got, v, conf, where):
    import astropy.units as u

    want = parsed(v, conf)
    if v["kind"] == "quantity":
        check(isinstance(got, u.Quantity), "%s is %r instead of %s", where, got, want)
        check(got.unit == want.unit and np.isclose(got.value, want.value, rtol=1e-15, atol=0), "%s is %s instead of %s", where, got, want)
        return
    kinds = {"int": int, "float": float, "bool": bool, "word": str, "path": str}
    check(
        type(got) is kinds[v["kind"]] and got == want,
        "%s is %r instead of %r", where, got, want,
    )


def same_dict(got, ks, conf, where, own=None):
    """ks: instances in document order"""
    tags = []
    for k in ks:
        if k["tag"] not in tags:
            tags.append(k["tag"])
    extra = set()
    for t in tags:
        inst = [k for k in ks if k["tag"] == t]
        w = "%s/%s" % (where, t)
        check(t in got, "%s is lost", w)
        if t == "datafile":
            same_table(got.get("data"), inst[0]["table"], where + "/data")
            extra.add("data")
            continue
        if t == "datadict":
            if not any(k["tag"] == "datafile" for k in ks):
                same_plain(got.get("data"), inst[0]["dict"], where + "/data")
            extra.add("data")
            continue
        if len(inst) == 1:
            same_node(got[t], inst[0], conf, w)
            continue
        check(hasattr(got[t], "values"), "%s, which is repeated, is %r", w, got[t])
        vals, keys = list(got[t].values()), list(got[t].keys())
        check(len(vals) == len(inst), "%s has %d instances instead of %d: %s", w, len(vals), len(inst), keys)
        for i, (x, k) in enumerate(zip(vals, inst)):
            same_node(x, k, conf, "%s[%d]" % (w, i))
            if k["val"]["kind"] in ("word", "path"):
                check(keys[i] == parsed(k["val"], conf), "%s[%d] is found as %r", w, i, keys[i])
    allowed = set(tags) | extra | {"value"} | set(own["attrs"] if own else ())
    if own and own["val"] and own["val"]["kind"] == "quantity":
        allowed.add("unit")
    check(set(got) <= allowed, "%s holds %s", where, sorted(set(got) - allowed))


def same_node(got, k, conf, where):
    check(isinstance(got, dict), "%s is %r", where, got)
    same_dict(got, k["kids"], conf, where, k)
    for a, v in k["attrs"].items():
        check(got.get(a) == v, "attribute %s of %s is %r instead of %r", a, where, got.get(a), v)
    if k["val"]:
        check("value" in got, "%s has no value", where)
        same_value(got["value"], k["val"], conf, where)
    else:
        check(got.get("value") in (None, ""), "%s, which is empty, is %r", where, got.get("value"))


def same_table(got, t, where):
    check(got is not None and hasattr(got, "colnames"), "%s is %r", where, type(got))
    check(list(got.colnames) == list(t["cols"]), "%s has columns %s instead of %s", where, got.colnames, list(t["cols"]))
    for c, v in cells(t)[1].items():
        check(np.asarray(got[c]).dtype.kind in "fi", "%s: %s is %s instead of %s", where, c, list(got[c]), v)
        check(np.allclose(np.array(got[c], float), v, rtol=1e-12, atol=0), "%s: %s is %s instead of %s", where, c, list(got[c]), v)
        if t["fmt"] == "ecsv" and t["units"][c]:
            check(str(got[c].unit) == t["units"][c], "%s: %s in %s", where, c, got[c].unit)


def same_plain(got, want, where):
    check(isinstance(got, dict) and set(got) == set(want), "%s is %r instead of %r", where, got, want)
    for k, v in want.items():
        if isinstance(v, dict):
            same_plain(got[k], v, where + "/" + k)
        else:
            check(got[k] == v, "%s/%s is %r instead of %r", where, k, got[k], v)


def notable(ks):
    tags = [k["tag"] for k in ks]
    if len(set(tags)) < len(tags) or "datafile" in tags or "datadict" in tags:
        return True
    return any(
        k.get("val") and k["val"]["kind"] in ("quantity", "path") or notable(k.get("kids", []))
        for k in ks
    )


def labels(ks, out):
    tags = [k["tag"] for k in ks]
    if len(set(tags)) < len(tags):
        out.add("repeated tag")
    for k in ks:
        if k["tag"] in ("datafile", "datadict"):
            out.add(k["tag"] + " " + (k.get("fmt") or k["table"]["fmt"]))
            if k["tag"] == "datafile" and k["table"]["fmt"] == "csv" and k["table"]["holes"]:
                out.add("missing entries")
            continue
        if k["val"]:
            out.add("text: " + k["val"]["kind"])
        labels(k["kids"], out)
    return out


def tree_run(c):
    T = pipe.tasks()
    with pipe.folder() as d:
        conf = os.path.join(d, "conf dir")
        os.mkdir(conf)
        body = Render(d, conf).kids(c["kids"])
        first = ""
        if c["own"] != "parameter":
            first = "<ConfigPath> %s\n <comment>where</comment></ConfigPath>\n" % (
                conf if c["own"] == "element" else os.path.join(d, "nowhere")
            )
        if c["own"] == "decoy":
            # the folder named by the file exists, and holds other files of the same names
            os.mkdir(os.path.join(d, "nowhere"))
            for n in os.listdir(conf):
                decoy(os.path.join(d, "nowhere", n))
        path = os.path.join(d, "options.xml")
        with open(path, "w", encoding="utf-8") as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n' if c["decl"] else "")
            # a first element lets a path given as parameter be known
            f.write("<root>%s<first>1</first>%s</root>" % (first, body))
        kw = {} if c["own"] == "element" else {"config_path": conf}
        got = sut("loading the options", lambda: T.LoadOptions()(filename=path, **kw))
        check(got["first"]["value"] == 1, "first is %r", got["first"])
        ks = list(c["kids"])
        rest = {k: v for k, v in got.items() if k not in ("first", "ConfigPath")}
        same_dict(rest, ks, conf, "")
        again = sut("loading the options again", lambda: T.LoadOptions()(filename=path, **kw))
        check(list(again) == list(got), "loading twice gives %s and %s", list(got), list(again))
    return {"nontrivial": notable(ks), "labels": sorted(labels(ks, {"path: " + c["own"]}))}


# ------------------------------------------------- bodies replaced by a file


@st.composite
def config_case(draw, tier):
    return {
        "fmt": draw(st.sampled_from(["pickle", "h5", "hdf5"])),
        "tag": draw(st.sampled_from(TAGS)),
        "dict": {
            "a": {"value": draw(P.fl(0.1, 9.0))},
            "b": {"value": draw(st.sampled_from(["x", "some text"])), "c": {"value": draw(st.integers(0, 9))}},
        },
        "text": draw(st.sampled_from(["name", "Ch0"])),
        "missing": draw(st.integers(0, 3)) == 3,
        "absolute": draw(st.booleans()),
        # options written next to it, before and after
        "beside": [draw(st.sampled_from(["", "", "<b>7</b>", "<other>8</other>", "<a>1<d>2</d></a>"])) for _ in range(2)],
    }


def config_run(c):
    T = pipe.tasks()
    with pipe.folder() as d:
        r = Render(d, d)
        body = r.node({"tag": "config_dict", "fmt": c["fmt"], "dict": c["dict"]})
        where = "<ConfigPath>%s</ConfigPath>" % d
        if c["absolute"]:
            body, where = body.replace("__ConfigPath__", d), ""
        if c["missing"]:
            os.remove(os.path.join(d, "dict1." + c["fmt"]))
        path = os.path.join(d, "o.xml")
        body = c["beside"][0] + body + c["beside"][1]
        with open(path, "w") as f:
            f.write("<root>%s<%s>%s %s</%s></root>" % (where, c["tag"], c["text"], body, c["tag"]))
        if c["missing"]:
            refused(lambda: T.LoadOptions()(filename=path), "options referring to a missing file")
            return {"nontrivial": True, "labels": ["missing file"]}
        got = sut("loading the options", lambda: T.LoadOptions()(filename=path))[c["tag"]]
    same_plain({k: got[k] for k in c["dict"] if k in got}, c["dict"], c["tag"])
    check(got.get("value") == c["text"], "%s is %r", c["tag"], got.get("value"))
    kept = set(got) - set(c["dict"]) - {"value", "config_dict"}
    check(not kept, "%s: options beside the file stay in a body replaced by it: %s", c["tag"], sorted(kept))
    return {"nontrivial": True, "labels": ["body from " + c["fmt"]]}


def refused(f, what):
    try:
        with quiet():
            r = f()
    except OSError:
        return
    check(False, "%s: accepted as %r", what, r)


@st.composite
def bad_case(draw, tier):
    return {
        "what": draw(st.sampled_from(["no file", "extension", "no data file", "no dict file", "dict extension"])),
        "name": draw(st.sampled_from(["payload", "a.b", "opt xml"])),
        "ext": draw(st.sampled_from([".txt", ".csv", ".h5", "", ".xml.bak"])),
    }


def bad_run(c):
    T = pipe.tasks()
    with pipe.folder() as d:
        body = {
            "no data file": "<a><datafile>%s/none.ecsv</datafile></a>" % d,
            "no dict file": "<a><datadict>%s/none.pickle</datadict></a>" % d,
            "dict extension": "<a><datadict>%s/o.txt</datadict></a>" % d,
        }.get(c["what"], "<a>1</a>")
        ext = c["ext"] if c["what"] == "extension" else ".xml"
        path = os.path.join(d, c["name"] + ext)
        open(os.path.join(d, "o.txt"), "w").close()
        if c["what"] != "no file":
            with open(path, "w") as f:
                f.write("<root>%s</root>" % body)
        refused(lambda: T.LoadOptions()(filename=path), "options with " + c["what"])
    return {"nontrivial": True, "labels": [c["what"]]}


SUBS = [
    Sub("trees", lambda tier: doc(tier), tree_run, 1500, 30000),
    Sub("bodies from files", lambda tier: config_case(tier), config_run, 120, 1500),
    Sub("refusals", lambda tier: bad_case(tier), bad_run, 60, 400),
]
SUBS.append(one_after_the_other(SUBS, 150, 3000))
