import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, one_after_the_other, quiet, sut

RULE = (
    "dictionaries are generated as nested descriptions of values and written to "
    "an HDF5 file; non-trivial when they hold at least three values or a table; "
    "what is read back is compared value by value, with units and, for ordered "
    "dictionaries, order"
)
ASSUMPTIONS = [
    "names with a slash are not generated",
    "a quantity stored under a name is read back as a pair of value and unit",
]

KEYS = ["alpha", "Beta", "wl_grid", "data", "M 1", "x_y", "20.5", "total noise", "ü", "n0", "table", "group"]
UNITS = ["um", "K", "ct / s", "W / (m2 um)", "", "hour(1/2)", "solMass", "1 / s", "pix"]


def unit(s):
    import astropy.units as u

    return u.hr**0.5 if s == "hour(1/2)" else u.Unit(s)


TEXTS = ["", "a", "planck", "W / m2", "two words", "é漢", "line\nline", "20", "dimensionless", "long " * 20]


@st.composite
def value(draw, depth):
    k = draw(st.sampled_from(
        ["float", "int", "str", "bool", "array", "intarray", "array2", "list", "quantity", "qarray",
         "texts", "pair", "table", "qtable", "signal", "mixed", "ragged"] + (["dict", "odict"] * 3 if depth else [])
    ))
    f = P.fl(-1e6, 1e6, 8)
    v = {"k": k}
    if k == "float":
        v["v"] = draw(f | st.sampled_from([0.0, 1e300, 1e-300]))
    elif k == "int":
        v["v"] = draw(st.integers(-2**60, 2**60))
    elif k == "bool":
        v["v"] = draw(st.booleans())
    elif k == "str":
        v["v"] = draw(st.sampled_from(TEXTS))
    elif k == "texts":
        v["v"] = draw(st.lists(st.sampled_from(TEXTS), min_size=1, max_size=4))
        v["as"] = draw(st.sampled_from(["list", "tuple", "array"]))
    elif k in ("array", "list"):
        v["v"] = draw(st.lists(f, min_size=1, max_size=5))
        v["tuple"] = draw(st.booleans())
    elif k == "intarray":
        v["v"] = draw(st.lists(st.integers(-1000, 1000), min_size=1, max_size=5))
    elif k == "array2":
        r, c = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        v["v"] = [[draw(f) for _ in range(c)] for _ in range(r)]
    elif k in ("quantity", "pair"):
        v["v"], v["u"] = draw(f), draw(st.sampled_from(UNITS))
        v["named"] = draw(st.booleans())
    elif k == "qarray":
        v["v"], v["u"] = draw(st.lists(f, min_size=1, max_size=5)), draw(st.sampled_from(UNITS))
    elif k in ("table", "qtable"):
        n = draw(st.integers(1, 4))
        v["cols"] = []
        for c in draw(st.lists(st.sampled_from(["chName", "Wavelength", "M1 signal", "TR", "n"]), min_size=1, max_size=4, unique=True)):
            if c == "chName":
                v["cols"].append([c, None, draw(st.lists(st.sampled_from(["Phot", "a", "IR 2", "ch"]), min_size=n, max_size=n))])
            elif c == "n":
                v["cols"].append([c, None, draw(st.lists(st.integers(0, 99), min_size=n, max_size=n))])
            else:
                v["cols"].append([c, draw(st.sampled_from(UNITS + [None])), draw(st.lists(f | st.just("nan"), min_size=n, max_size=n))])
        v["meta"] = draw(st.booleans())
        v["about"] = draw(st.lists(st.sampled_from([[n, a] for n, _, _ in v["cols"] for a in ("description", "format", "meta")]), max_size=2))
    elif k == "signal":
        n = draw(st.integers(1, 5))
        v["wl"] = [float(i + 1) for i in range(n)]
        v["v"] = draw(st.lists(f, min_size=n, max_size=n))
        v["c"] = draw(st.sampled_from(["Signal", "Sed", "Radiance", "CountsPerSeconds"]))
    elif k == "mixed":
        v["items"] = [{"k": "odict", "d": [["a", {"k": "int", "v": 1}]]}] + [draw(value(0)) for _ in range(draw(st.integers(1, 2)))]
        v["items"] = [i for i in v["items"] if i["k"] != "str"]
        v["items"] = [{"k": "dict", "d": [["z", i]]} for i in v["items"]]
    elif k == "ragged":
        v["v"] = [[draw(f) for _ in range(m)] for m in (1, 2, 3)][: draw(st.integers(2, 3))]
    elif k in ("dict", "odict"):
        v["d"] = draw(pairs(depth - 1))
    return v


@st.composite
def pairs(draw, depth, keys=KEYS):
    ks = draw(st.lists(st.sampled_from(keys), max_size=5, unique=True))
    out = []
    for k in ks:
        v = draw(value(depth))
        out.append([k, v])
    return out


@st.composite
def case(draw, tier):
    top = draw(pairs(3 if tier == "thorough" else 2))
    return {
        "top": top,
        "ordered": draw(st.booleans()),
        "into": draw(st.sampled_from(["group", "group", "root", "subgroup"])),
        "more": draw(st.none() | pairs(1)),
        "append": draw(st.booleans()),
    }


# what else a column says of itself
ABOUT = {
    "description": lambda c: "about " + c,
    "format": lambda c: {"chName": "%8s", "n": "%5d"}.get(c, "%.3e"),
    "meta": lambda c: {"origin": c, "version": 2},
}


def make(v):
    """the object to store"""
    from collections import OrderedDict

    import astropy.units as u
    from astropy.table import Column, QTable, Table
    from exorad.models import signal as S

    k = v["k"]
    if k in ("float", "int", "str", "bool"):
        return v["v"]
    if k in ("array", "intarray", "array2"):
        return np.array(v["v"])
    if k == "texts":
        return {"list": list, "tuple": tuple, "array": np.array}[v["as"]](v["v"])
    if k == "list":
        return tuple(v["v"]) if v["tuple"] else list(v["v"])
    if k == "ragged":
        return [list(x) for x in v["v"]]
    if k == "quantity":
        return v["v"] * unit(v["u"])
    if k == "pair":
        # how the payload holds a value with its unit
        return {"unit": v["u"], "value": v["v"] * unit(v["u"])}
    if k == "qarray":
        return np.array(v["v"]) * unit(v["u"])
    if k in ("table", "qtable"):
        t = (QTable if k == "qtable" else Table)()
        for c, un, x in v["cols"]:
            x = [float("nan") if y == "nan" else y for y in x]
            if un is None:
                t[c] = x
            elif k == "qtable":
                t[c] = np.array(x) * unit(un)
            else:
                t[c] = Column(x, unit=unit(un))
        if v["meta"]:
            t.meta["name"] = "a target"
        for c, a in v["about"]:
            setattr(t[c].info, a, ABOUT[a](c))
        return t
    if k == "signal":
        return getattr(S, v["c"])(np.array(v["wl"]) * u.um, np.array(v["v"]))
    if k == "mixed":
        return [make(i) for i in v["items"]]
    return (OrderedDict if k == "odict" else dict)((a, make(b)) for a, b in v["d"])


def same(got, v, where):
    import astropy.units as u

    k = v["k"]
    if k in ("float", "int", "bool"):
        check(np.ndim(got) == 0 and not isinstance(got, (str, bytes, dict)), "%s is %r", where, got)
        check(bool(got == v["v"]), "%s is %r instead of %r", where, got, v["v"])
    elif k == "str":
        check(isinstance(got, str) and got == v["v"], "%s is %r instead of %r", where, got, v["v"])
    elif k == "texts":
        check(
            np.shape(got) == (len(v["v"]),) and all(isinstance(x, str) for x in got) and list(got) == v["v"],
            "%s is %r instead of %r", where, got, v["v"],
        )
    elif k in ("array", "intarray", "array2", "list"):
        want = np.array(v["v"])
        check(isinstance(got, np.ndarray) and got.shape == want.shape, "%s is %r instead of %r", where, got, want)
        check(got.dtype.kind == want.dtype.kind and np.array_equal(got, want), "%s is %r instead of %r", where, got, want)
    elif k in ("quantity", "qarray", "pair"):
        if isinstance(got, dict):
            check(set(got) == {"value", "unit"}, "%s holds %s", where, sorted(got))
            got = got["value"]
        same_quantity(got, v["v"], unit(v["u"]), where)
    elif k in ("table", "qtable"):
        check(hasattr(got, "colnames"), "%s is %r", where, type(got))
        same_table(got, v, where)
    elif k == "signal":
        from exorad.models import signal as S

        s = make(v)
        check(isinstance(got, dict) and {"wl_grid", "data", "time_grid"} <= set(got), "%s is %r", where, got)
        for n in ("wl_grid", "data", "time_grid"):
            w = getattr(s, n)
            g = got[n]["value"] if isinstance(got[n], dict) else got[n]
            same_quantity(g, w.value, w.unit, where + "/" + n)
    else:
        check(isinstance(got, dict), "%s is %r", where, got)
        same_dict(got, v["d"], k == "odict", where)


def same_quantity(got, want, un, where):
    import astropy.units as u

    want = np.array(want)
    if un == u.dimensionless_unscaled and not isinstance(got, u.Quantity):
        got = got * u.Unit("")
    check(isinstance(got, u.Quantity), "%s is %r, not a quantity", where, got)
    check(got.unit == un, "%s is in %s instead of %s", where, got.unit, un)
    check(got.shape == want.shape and np.array_equal(got.value, want), "%s is %s instead of %s", where, got, want)


def same_table(t, v, where):
    check(list(t.colnames) == [c for c, _, _ in v["cols"]], "%s has columns %s", where, t.colnames)
    for c, un, x in v["cols"]:
        col = t[c]
        if c == "chName":
            got = [y.decode() if isinstance(y, bytes) else str(y) for y in col]
            check(got == x, "%s: %s is %s instead of %s", where, c, got, x)
            continue
        gu = getattr(col, "unit", None)
        if un is None:
            check(gu is None or gu == unit(""), "%s: %s in %s", where, c, gu)
        else:
            check((gu if gu is not None else unit("")) == unit(un), "%s: %s in %s instead of %s", where, c, gu, un)
        want = [float("nan") if y == "nan" else y for y in x]
        check(np.array_equal(np.array(col, float), np.array(want, float), equal_nan=True), "%s: %s is %s instead of %s", where, c, col, want)
    for c, a in v["about"]:
        g = getattr(t[c].info, a, None)
        g = dict(g) if a == "meta" and g is not None else g
        check(g == ABOUT[a](c), "%s: the %s of %s is %r instead of %r", where, a, c, g, ABOUT[a](c))
    if v["meta"]:
        check(t.meta.get("name") == "a target", "%s: metadata %s", where, dict(t.meta))


def flat(pairs_):
    """lists of items that do not fit an array are stored item by item"""
    out = []
    for k, v in pairs_:
        if v["k"] == "mixed":
            out += [("%s%d" % (k, i), x) for i, x in enumerate(v["items"])]
        elif v["k"] == "ragged":
            out += [("%s%d" % (k, i), {"k": "array", "v": x}) for i, x in enumerate(v["v"])]
        else:
            out.append((k, v))
    return out


def same_dict(got, ps, ordered, where):
    named = [k for k, v in ps if v["k"] not in ("mixed", "ragged")]
    ps = flat(ps)
    tables = [k for k, v in ps if v["k"] in ("table", "qtable")]
    for k, v in ps:
        check(k in got, "%s/%s is lost", where, k)
        same(got[k], v, where + "/" + k)
    own = [k for k in got if not any(k == t + "_to_group" or k.startswith(t + ".__table") for t in tables)]
    extra = set(own) - {k for k, _ in ps}
    check(not extra, "%s also holds %s", where, sorted(extra))
    if ordered:
        own = [k for k in own if k in named]
        check(own == named, "%s has keys in the order %s instead of %s", where, own, named)


def clean(ps):
    """no two stored names may coincide"""
    seen, out = set(), []
    for k, v in ps:
        names = {n for n, _ in flat([(k, v)])}
        if v["k"] in ("table", "qtable"):
            names |= {k + "_to_group"}
        if names & seen:
            continue
        seen |= names
        v = dict(v)
        if "d" in v:
            v["d"] = clean(v["d"])
        if v["k"] == "mixed":
            v["items"] = [dict(i, d=clean(i["d"])) for i in v["items"]]
        out.append([k, v])
    return out


def count(ps):
    return sum(1 + count(v.get("d", [])) + 2 * (v["k"] in ("table", "qtable")) for _, v in ps)


def has(ps, kinds):
    for k, v in ps:
        if v["k"] in kinds or has(v.get("d", []), kinds) or has([["", i] for i in v.get("items", [])], kinds):
            return True
    return False


def run(c):
    import h5py
    from collections import OrderedDict
    from exorad.output.hdf5 import HDF5Output, load

    top = clean(c["top"])
    if c["into"] == "root":
        # the file itself only holds groups
        top = [[k, v if v["k"] in ("dict", "odict", "signal") else {"k": "dict", "d": clean([[k, v]])}] for k, v in top]
    more = clean(c["more"]) if c["more"] is not None and c["into"] != "root" else None
    kind = "odict" if c["ordered"] else "dict"
    with pipe.folder() as d:
        path = os.path.join(d, "o.h5")

        def store(ps, name, append):
            with HDF5Output(path, append=append) as out:
                obj = make({"k": kind, "d": ps})
                if c["into"] == "root":
                    out.store_dictionary(obj)
                elif c["into"] == "group":
                    out.store_dictionary(obj, group_name=name)
                else:
                    g = out.create_group("results")
                    g.store_dictionary(obj, group_name=name)

        sut("storing a dictionary", lambda: store(top, "first", c["append"]))
        if more is not None:
            sut("storing another dictionary", lambda: store(more, "second", True))
        whole = sut("loading the file", lambda: load(path))
        with h5py.File(path, "r") as f:
            g = f if c["into"] == "root" else f["first"] if c["into"] == "group" else f["results/first"]
            part = sut("loading a group", lambda: load(g))
            check("info" in f, "no information on the program in the file")
            for a in ("program_name", "program_version", "creator"):
                check(a in f.attrs, "no %s among the attributes of the file", a)
        w = whole if c["into"] == "root" else whole["first"] if c["into"] == "group" else whole["results"]["first"]
        for got in (w, part):
            if c["into"] == "root":
                got = type(got)((k, v) for k, v in got.items() if k != "info")
            same_dict(got, top, c["ordered"], "")
        if more is not None:
            w2 = whole["second"] if c["into"] == "group" else whole["results"]["second"]
            same_dict(w2, more, c["ordered"], "second")
        # tables are tables for astropy as well
        from astropy.io.misc.hdf5 import read_table_hdf5

        for k, v in top:
            if v["k"] in ("table", "qtable"):
                base = "" if c["into"] == "root" else "first/" if c["into"] == "group" else "results/first/"
                t = sut("reading table %s" % k, lambda: read_table_hdf5(path, path=base + k, character_as_bytes=False))
                same_table(t, v, "table " + k)
        # a file opened without append starts afresh
        if not c["append"]:
            sut("writing the file again", lambda: store([["a", {"k": "dict", "d": [["b", {"k": "int", "v": 1}]]}]], "again", False))
            w = sut("loading the file", lambda: load(path))
            left = set(w) - {"info"} - ({"a"} if c["into"] == "root" else {"again"} if c["into"] == "group" else {"results"})
            check(not left, "written again, the file still holds %s", sorted(left))
    lab = ["into " + c["into"], kind]
    for kk in ("table", "qtable", "signal", "qarray", "mixed", "ragged", "odict", "str"):
        if has(top, (kk,)):
            lab.append("with " + kk)
    return {"nontrivial": count(top) >= 3, "labels": lab}


@st.composite
def bad_case(draw, tier):
    return {
        "what": draw(st.sampled_from(["object", "none", "set", "complex function", "text and number"])),
        "depth": draw(st.integers(0, 2)),
        "key": draw(st.sampled_from(KEYS)),
    }


def bad_run(c):
    from exorad.output.hdf5 import HDF5Output

    v = {"object": object(), "none": None, "set": {1, 2}, "complex function": len, "text and number": ["a", 1]}[c["what"]]
    d_ = {c["key"]: v}
    for _ in range(c["depth"]):
        d_ = {"in": d_}
    with pipe.folder() as d:
        with HDF5Output(os.path.join(d, "o.h5")) as out:
            try:
                with quiet():
                    out.store_dictionary(d_, group_name="g")
            except (ValueError, TypeError):
                return {"nontrivial": True, "labels": ["refused"]}
            check(False, "storing %s is not refused", c["what"])


@st.composite
def method_case(draw, tier):
    """values written one by one, by the method for their kind"""
    f = P.fl(-1e6, 1e6, 8)
    out = []
    for n in draw(st.lists(st.sampled_from(["alpha", "Beta", "M 1", "20.5", "x_y"]), min_size=1, max_size=4, unique=True)):
        how = draw(st.sampled_from(["array", "arrays", "list", "scalar", "string", "strings", "table", "quantity"]))
        if how == "array":
            v = {"k": "array", "v": draw(st.lists(f, min_size=1, max_size=4))}
        elif how == "arrays":
            v = [draw(st.lists(f, min_size=1, max_size=3)) for _ in range(draw(st.integers(1, 12)))]
        elif how == "list":
            v = draw(st.lists(f, min_size=1, max_size=4) | st.lists(st.integers(-99, 99), min_size=1, max_size=4))
        elif how == "scalar":
            v = draw(f | st.integers(-99, 99) | st.booleans())
        elif how == "string":
            v = draw(st.sampled_from(TEXTS))
        elif how == "strings":
            v = draw(st.lists(st.sampled_from(TEXTS), min_size=1, max_size=4))
        elif how == "quantity":
            v = [draw(f), draw(st.sampled_from(UNITS))]
        else:
            v = draw(value(0).filter(lambda v: v["k"] in ("table", "qtable")))
        meta = None
        if how != "quantity" and draw(st.booleans()):
            meta = draw(st.dictionaries(st.sampled_from(["origin", "unit", "when"]), st.sampled_from(["here", "um"]) | f | st.integers(-99, 99), max_size=3))
        out.append([n, how, v, meta])
    return {"values": out, "group": draw(st.sampled_from([[], ["deeper"], ["deeper", "still"]]))}


def method_run(c):
    import h5py
    from exorad.output.hdf5 import HDF5Output, load

    with pipe.folder() as d:
        path = os.path.join(d, "o.h5")

        def write():
            with HDF5Output(path) as out:
                g = out.create_group("g")
                for k in c["group"]:
                    g = g.create_group(k)
                for n, how, v, m in c["values"]:
                    if how == "array":
                        g.write_array(n, make(v), m)
                    elif how == "arrays":
                        g.write_array(n, [np.array(a) for a in v], m)
                    elif how == "list":
                        g.write_list(n, v, m)
                    elif how == "scalar":
                        g.write_scalar(n, v, m)
                    elif how == "string":
                        g.write_string(n, v, m)
                    elif how == "strings":
                        g.write_string_array(n, v, m)
                    elif how == "quantity":
                        g.write_quantity(n, v[0] * unit(v[1]))
                    else:
                        g.write_table(n, make(v), m)

        sut("writing the values", write)
        got = sut("loading the file", lambda: load(path))["g"]
        for k in c["group"]:
            got = got[k]
        with h5py.File(path, "r") as f:
            g = f["/".join(["g"] + c["group"])]
            for n, how, v, m in c["values"]:
                names = ["%s%d" % (n, i) for i in range(len(v))] if how == "arrays" else [n]
                for k in names:
                    check(k in got, "%s is not in the file: %s", k, sorted(got))
                    if m is not None:
                        # nothing else is asked of the attributes
                        for a, b in m.items():
                            check(a in g[k].attrs, "%s of the %s %s is not stored", a, how, k)
                            check(g[k].attrs[a] == b, "%s of %s is %r instead of %r", a, k, g[k].attrs[a], b)
                if how == "arrays":
                    for k, a in zip(names, v):
                        check(np.array_equal(got[k], a), "%s is %s instead of %s", k, got[k], a)
                elif how == "table":
                    same_table(got[n], v, "table " + n)
                elif how == "quantity":
                    check(getattr(got[n]["value"], "value", got[n]["value"]) == v[0] and unit(v[1]) == unit(got[n]["unit"]), "%s is %s instead of %s", n, got[n], v)
                elif how == "array":
                    check(np.array_equal(got[n], v["v"]), "%s is %s instead of %s", n, got[n], v["v"])
                elif how in ("list", "strings"):
                    check(list(got[n]) == v, "%s is %s instead of %s", n, got[n], v)
                else:
                    check(got[n] == v, "%s is %r instead of %r", n, got[n], v)
    return {"nontrivial": any(m for _, _, _, m in c["values"]), "labels": sorted({how for _, how, _, _ in c["values"]})}


SUBS = [
    Sub("round trip", lambda tier: case(tier), run, 1500, 15000),
    Sub("writing methods", lambda tier: method_case(tier), method_run, 300, 3000),
    Sub("refusals", lambda tier: bad_case(tier), bad_run, 60, 300),
]
SUBS.append(one_after_the_other(SUBS, 100, 2000))
