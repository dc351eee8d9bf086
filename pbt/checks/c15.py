import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, one_after_the_other, quiet, sut

RULE = (
    "lists are generated as values with units and written in one of the formats; "
    "non-trivial with at least two targets; names, order, identifiers, values "
    "and units of every star and planet are compared with what was written"
)
ASSUMPTIONS = ["spreadsheets are written in the xls encoding, under the .xlsx name the loader asks for"]

STAR = {
    "M": ["M_sun", "kg", "solMass"], "Teff": ["K"], "R": ["R_sun", "km", "solRad"], "D": ["pc", "lyr"],
    "magk": [None], "ra": ["deg", "hourangle", None], "dec": ["deg", "rad"], "metallicity": [None],
    "pmra": ["mas/yr", "mas / yr"], "flux": ["W / m2", "W m-2"], "type": ["text"],
}
PLANET = {
    "M": ["M_jupiter", "M_earth", "kg"], "R": ["R_jup", "R_earth"], "Teff": ["K"], "a": ["AU", "km"],
    "P": ["day", "h"], "b": [None], "mmw": [None], "T14": ["s", "h"], "i": ["deg"],
    "density": ["g/cm3", "g / cm3"], "kind": ["text"],
}
MRS_STAR = {
    "Mass": ("M", {"Ms": "M_sun", "kg": "kg"}), "Temperature": ("Teff", {"K": "K"}),
    "Radius": ("R", {"Rs": "R_sun", "km": "km"}), "Distance": ("D", {"pc": "pc"}),
    "Metallicity": ("metallicity", {None: None}), "MagK": ("magk", {None: None}),
    "Spectral Type": ("spectral type", {"text": None}), "RA": ("ra", {"deg": "deg"}),
}
MRS_PLANET = {
    "Mass": ("M", {"Mj": "M_jupiter", "Me": "M_earth"}), "Radius": ("R", {"Rj": "R_jupiter", "Re": "R_earth"}),
    "Temperature": ("Teff", {"K": "K"}), "Period": ("P", {"days": "day"}),
    "Molecular Weight": ("mmw", {None: None}), "Semi-major Axis": ("a", {"AU": "AU", "m": "m"}),
    "Impact Parameter": ("b", {None: None}), "Heat Redistribution Factor": ("Gamma", {None: None}),
    "Transit Duration": ("T14", {"s": "s"}), "Inclination": ("inclination", {"deg": "deg"}),
}
PARTS = ["HD", "WASP", "GJ", "K2", "alf", "Cen", "55", "209458", "12", "b", "Cnc", "TOI", "c", "Kepler", "BD+20", "(b)", "[C]", "eps.", "L*", "WD 1856+534"]


@st.composite
def names(draw, n):
    out = []
    for i in range(n):
        p = draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=3))
        s = p[0]
        for q in p[1:]:
            s += draw(st.sampled_from([" ", "-", ""])) + q
        if s.isdigit():
            s = "s" + s
        out.append(s)
    return out


def number(draw):
    if draw(st.integers(0, 4)) == 4:
        return float(draw(st.integers(1, 9000)))
    return draw(P.fl(0.01, 9000.0, 6))


@st.composite
def columns(draw, n, table, who):
    """list of (header, key, unit, values)"""
    ks = draw(st.permutations(sorted(table)))
    ks = ks[: draw(st.integers(1, len(ks)))]
    out = []
    for k in ks:
        u = draw(st.sampled_from(table[k]))
        if u == "text":
            out.append([k, None, draw(st.lists(st.sampled_from(["G2V", "K5", "M dwarf", "hot, dry"]), min_size=n, max_size=n))])
        else:
            out.append([k, u, [number(draw) for _ in range(n)]])
    return out


@st.composite
def case(draw, tier):
    n = draw(st.integers(1, 6))
    fmt = draw(st.sampled_from(["csv", "csv", "qtable", "mrs", "xlsx"]))
    c = {"fmt": fmt, "stars": draw(names(n)), "planets": None, "name_at": draw(st.integers(0, 3))}
    pl = fmt == "xlsx" or draw(st.booleans())
    if pl:
        c["planets"] = draw(names(n))
    if fmt == "mrs":
        c["cols"] = []
        for who, tab in (("Star", MRS_STAR),) + ((("Planet", MRS_PLANET),) if pl else ()):
            ks = draw(st.permutations(sorted(tab)))
            for k in ks[: draw(st.integers(1, len(ks)))]:
                key, units = tab[k]
                un = draw(st.sampled_from(sorted(units, key=str)))
                if un == "text":
                    v = draw(st.lists(st.sampled_from(["G2V", "K5", "M dwarf"]), min_size=n, max_size=n))
                else:
                    v = [number(draw) for _ in range(n)]
                c["cols"].append({
                    "who": who, "head": k, "key": key, "unit": units[un], "written": None if un == "text" else un,
                    "v": v, "comma": draw(st.integers(0, 2)) == 2 and un != "text",
                    "error": draw(st.integers(0, 2)) == 2 and un != "text",
                    "bare_error": draw(st.booleans()),
                })
    else:
        c["cols"] = []
        for who, tab in (("star", STAR),) + ((("planet", PLANET),) if pl else ()):
            tab = dict(tab)
            if fmt == "qtable":
                tab = {k: [x or "" for x in v] for k, v in tab.items()}
            if fmt != "csv":  # the other lists have no text
                tab = {k: v for k, v in tab.items() if v != ["text"]}
            cs = draw(columns(n, tab, who))
            if fmt == "xlsx":
                # the sheet has a fixed number of columns
                want = 5 if who == "star" else 10
                pool = sorted(tab) + ["x%d" % i for i in range(10)]
                have = [k for k, _, _ in cs][:want]
                cs = cs[:want]
                for k in pool:
                    if len(cs) < want and k not in have:
                        cs.append([k, None, [number(draw) for _ in range(n)]])
            for k, u, v in cs:
                c["cols"].append({"who": who, "key": k, "unit": u, "v": v})
        if fmt == "xlsx":
            c["nobs"] = [float(draw(st.integers(0, 20))) for _ in range(n)]
    # values that the list does not give
    for x in c["cols"]:
        x["blank"] = []
        if fmt in ("csv", "mrs") and not isinstance(x["v"][0], str) and draw(st.integers(0, 3)) == 3:
            x["blank"] = draw(st.lists(st.integers(0, n - 1), max_size=2))
    c["other"] = draw(st.booleans())
    c["brackets"] = draw(st.booleans())
    q = draw(st.lists(st.sampled_from(PARTS), min_size=1, max_size=2))
    c["query"] = draw(st.sampled_from([" ", "-", ""])).join(q)
    if draw(st.booleans()):
        c["query"] = draw(st.sampled_from(c["stars"] + (c["planets"] or [])))
    c["query"] = draw(st.sampled_from([c["query"], c["query"].upper(), c["query"].lower(), c["query"].replace(" ", "")]))
    return c


def quote(v):
    v = v if isinstance(v, str) else repr(v)
    return '"%s"' % v if "," in v else v


def blanked(x, v):
    return ["" if i in x["blank"] else y for i, y in enumerate(v)]


def columns_with_names(c, star="star name", planet="planet name"):
    """[header, values] with the names put anywhere among the columns"""
    cols = [dict(x) for x in c["cols"]]
    cols.insert(min(c["name_at"], len(cols)), {"who": "star", "names": star, "v": c["stars"]})
    if c["planets"]:
        cols.insert(min(2 * c["name_at"], len(cols)), {"who": "planet", "names": planet, "v": c["planets"]})
    return cols


def write(c, d):
    import astropy.units as u

    fmt = c["fmt"]
    if fmt == "qtable":
        from astropy.table import QTable

        t = QTable()
        for x in columns_with_names(c):
            if "names" in x:
                t[x["names"]] = x["v"]
            else:
                t["%s %s" % (x["who"], x["key"])] = x["v"] * u.Unit(x["unit"])
        return t
    if fmt == "xlsx":
        import xlwt

        wb = xlwt.Workbook()
        s = wb.add_sheet("Sheet1")
        for who, nm, at, ns in (("star", "Star", 1, c["stars"]), ("planet", "Planet", 8, c["planets"])):
            cs = [{"key": nm, "unit": None, "v": ns}] + [x for x in c["cols"] if x["who"] == who]
            for j, x in enumerate(cs):
                s.write(2, at + j, x["key"])
                s.write(3, at + j, "" if not x["unit"] else "[%s]" % x["unit"] if c["brackets"] else x["unit"])
                for i, v in enumerate(x["v"]):
                    s.write(4 + i, at + j, v)
        s.write(2, 20, "observations")
        for i, v in enumerate(c["nobs"]):
            s.write(4 + i, 20, v)
        path = os.path.join(d, "list.xlsx")
        wb.save(path)
        return path
    cols = []
    if fmt == "csv":
        for x in columns_with_names(c):
            if "names" in x:
                cols.append((x["names"], x["v"]))
            else:
                h = "%s %s" % (x["who"], x["key"])
                if x["unit"]:
                    h += " [%s]" % x["unit"] if c["brackets"] else " %s" % x["unit"]
                cols.append((h, blanked(x, x["v"])))
    else:
        for x in columns_with_names(c, "Star Name", "Planet Name"):
            if "names" in x:
                cols.append((x["names"], x["v"]))
                continue
            un = " [%s]" % x["written"] if x["written"] else ""
            h = "%s %s" % (x["who"], x["head"])
            v = [repr(y).replace(".", ",") if x["comma"] else y for y in x["v"]]
            cols.append((h + un, blanked(x, v)))
            if x["error"]:
                un = "" if x["bare_error"] else un
                cols.append((h + " Error Lower" + un, [0.1] * len(v)))
                cols.append((h + " Error Upper" + un, [0.2] * len(v)))
    if c["other"]:
        cols.insert(1, ("remarks", ["r%d" % i for i in range(len(c["stars"]))]))
    path = os.path.join(d, "list.csv")
    with open(path, "w") as f:
        f.write(",".join(quote(h) for h, _ in cols) + "\n")
        for row in zip(*[v for _, v in cols]):
            f.write(",".join(quote(v) for v in row) + "\n")
    return path


def norm(s):
    return s.replace(" ", "").replace("-", "").lower()


def stars_only(c, path):
    """the reader of the stars alone of a spreadsheet"""
    import astropy.units as u
    from exorad.models import targetlist

    reader = getattr(targetlist, "OldExcelTargetList", None)
    if reader is None:  # nothing in the package uses it
        return
    lst = sut("reading the stars", lambda: reader(path))
    check([t.star.name for t in lst.target] == c["stars"], "stars %s", [t.star.name for t in lst.target])
    for x in c["cols"]:
        for i, t in enumerate(lst.target):
            if x["who"].lower() != "star" or i in x["blank"]:
                continue
            got = getattr(t.star, x["key"], None)
            if x["unit"]:
                check(isinstance(got, u.Quantity), "%s is %r, without a unit", x["key"], got)
                got = got.to(u.Unit(x["unit"])).value
            check(got is not None and abs(got - x["v"][i]) <= 1e-12 * abs(x["v"][i]), "%s is %r instead of %r", x["key"], got, x["v"][i])
    want = [s for s in c["stars"] if norm(c["query"]) in norm(s)]
    got = [t.star.name for t in sut("searching the stars", lambda: lst.searchTarget(c["query"]))]
    check(got == want, "searching %r finds the stars %s instead of %s", c["query"], got, want)


def run(c):
    import astropy.units as u

    with pipe.folder() as d:
        where = write(c, d)
        lst = pipe.load_targets(where)
        if c["fmt"] == "xlsx":
            stars_only(c, where)
    ts = list(lst.target)
    n = len(c["stars"])
    check(len(ts) == n, "%d targets instead of %d", len(ts), n)
    for i, t in enumerate(ts):
        want = c["planets"][i] if c["planets"] else c["stars"][i]
        check(t.name == want and isinstance(t.name, str), "target %d is named %r instead of %r", i, t.name, want)
        check(t.id == i, "target %d has identifier %r", i, t.id)
        check(t.star.name == c["stars"][i], "star %d is named %r", i, t.star.name)
        check(hasattr(t, "planet") == bool(c["planets"]), "target %d has a planet: %s", i, hasattr(t, "planet"))
        if c["planets"]:
            check(t.planet.name == c["planets"][i], "planet %d is named %r", i, t.planet.name)
        for x in c["cols"]:
            o = getattr(t, x["who"].lower())
            w = "%s of the %s of %s" % (x["key"], x["who"], t.name)
            if i in x["blank"]:
                check(x["key"] not in o.__dict__, "%s is %r, not in the list", w, o.__dict__.get(x["key"]))
                continue
            check(x["key"] in o.__dict__, "no %s", w)
            got, v = o.__dict__[x["key"]], x["v"][i]
            if isinstance(v, str):
                check(str(got) == v, "%s is %r instead of %r", w, got, v)
                continue
            if x["unit"]:
                check(isinstance(got, u.Quantity), "%s is %r, without a unit", w, got)
                got = sut("converting the " + w, lambda: got.to(u.Unit(x["unit"])).value)
            elif isinstance(got, u.Quantity):
                got = got.to(u.Unit("")).value
            check(isinstance(got, (float, int, np.number)), "%s is %r, not a number", w, got)
            check(abs(got - v) <= 1e-12 * abs(v), "%s is %r instead of %r", w, got, v)
        names = {x["key"] for x in c["cols"] if x["who"].lower() == "star" and i not in x["blank"]} | {"name"}
        extra = {k for k in t.star.__dict__ if not k.startswith("_")} - names
        check(not extra, "the star of %s also has %s", t.name, sorted(extra))
        if c["fmt"] == "xlsx":
            check(t.planet.Nobs == c["nobs"][i], "%r observations instead of %r", t.planet.Nobs, c["nobs"][i])
    # targets do not share anything
    if n > 1:
        ts[0].star.name = "another"
        check(ts[1].star.name == c["stars"][1], "two targets share their star")
        ts[0].star.name = c["stars"][0]
    q = norm(c["query"])
    want = [i for i in range(n) if q in norm(c["stars"][i]) or (c["planets"] and q in norm(c["planets"][i]))]
    got = sut("searching %r" % c["query"], lambda: lst.searchTarget(c["query"]))
    check([t.id for t in got] == want, "searching %r finds %s instead of %s", c["query"], [t.name for t in got], want)
    lab = [c["fmt"] + (" with planets" if c["planets"] else "")]
    if any(x.get("comma") for x in c["cols"]):
        lab.append("comma decimals")
    if any(x["blank"] for x in c["cols"]):
        lab.append("missing values")
    lab.append("found" if want else "not found")
    return {"nontrivial": n > 1, "labels": lab}


@st.composite
def bad_case(draw, tier):
    return {
        "what": draw(st.sampled_from(["extension", "no file", "no unit"])),
        "ext": draw(st.sampled_from([".txt", ".ecsv", ".xml", "", ".CSVX"])),
        "n": draw(st.integers(1, 4)),
        "key": draw(st.sampled_from(["M", "Teff", "D"])),
        "who": draw(st.sampled_from(["star", "star", "planet"])),
    }


def bad_run(c):
    import astropy.units as u
    from astropy.table import QTable
    from exorad.tasks import LoadTargetList

    with pipe.folder() as d:
        if c["what"] == "no unit":
            if c["who"] == "planet":
                return {"nontrivial": False}
            t = QTable()
            t["star name"] = ["s%d" % i for i in range(c["n"])]
            t["star R"] = np.ones(c["n"]) * u.R_sun
            t["star " + c["key"]] = np.ones(c["n"])
            arg, err = t, TypeError
        else:
            arg, err = os.path.join(d, "list" + c["ext"]), OSError
            if c["what"] == "no file":
                arg = os.path.join(d, "none.csv")
            else:
                with open(arg, "w") as f:
                    f.write("star name,star M [kg]\na,1\n")
        try:
            with quiet():
                r = LoadTargetList()(target_list=arg)
        except err:
            return {"nontrivial": True, "labels": [c["what"]]}
        check(False, "a list with wrong %s is accepted: %s", c["what"], [t.name for t in r.target])


SUBS = [
    Sub("lists", lambda tier: case(tier), run, 2000, 20000),
    Sub("refusals", lambda tier: bad_case(tier), bad_run, 60, 400),
]
SUBS.append(one_after_the_other(SUBS, 150, 3000))
