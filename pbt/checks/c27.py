import os
import re
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, quiet
from . import noise as N

RULE = (
    "a case is a payload with a target that can be observed, spoiled in one way "
    "(a keyword or a column taken away, a quantity in units of another kind, a "
    "text for a number, a file that is not there, a channel of an unknown "
    "class); all are non-trivial: the observation of what is not spoiled has to "
    "succeed, and that of what is spoiled has to raise an error"
)
ASSUMPTIONS = ["keywords with a documented or evident default are not taken away"]

# units of other kinds than each other
KINDS = ["kg", "K", "s", "micron", "m**2", "ct", "sr", "ct / s", "A"]
CHANNEL = {"channelClass", "wl_min", "wl_max", "Fnum_x", "Fnum_y", "detector", "aperture", "wlSolution"}
DETECTOR = {
    "delta_pix", "read_noise", "dark_current", "well_depth", "freqNDR", "wl_min",
    "cut_off", "qe", "f_well_depth",
}
COMMON = {"wl_min", "wl_max", "sourceSpectrum"}
FRACTIONS = {"transmission", "reflectivity", "emissivity"}


def kind(unit):
    import astropy.units as u

    unit = u.Unit(unit)
    return [k for k in KINDS if not u.Unit(k).is_equivalent(unit)]


def has(node, tag):
    return node.find(tag) is not None


def nodes(root):
    """(path, parent, node)"""
    out = []

    def walk(n, path):
        for c in n:
            p = path + (c.tag,)
            out.append((p, n, c))
            walk(c, p)

    walk(root, ())
    return out


def unused(path, parent):
    """is the keyword one that others make useless?"""
    tag = path[-1]
    if tag == "f_well_depth":
        return has(parent, "frame_time")
    if path[-2:-1] == ("opticalElement",) and tag in FRACTIONS:
        # the columns of a file, or the other keyword, may come instead
        return has(parent, "datafile") or (
            tag != "emissivity" and has(parent, "transmission") and has(parent, "reflectivity")
        )
    if tag in ("EnE", "radius"):
        return tag == "EnE" and has(parent, "radius")
    if tag in ("window_spatial_pixel", "window_spatial_scale", "window_spectral_pixel", "zodiacFactor"):
        return True
    return False


def required(path, parent, node):
    """can nothing be observed without this keyword?"""
    tag, up = path[-1], path[-2] if len(path) > 1 else None
    if up == "channel":
        return tag in CHANNEL
    if up == "detector":
        return tag in DETECTOR and not unused(path, parent)
    if up == "common":
        return tag in COMMON
    if path == ("optics", "Atel"):
        return True
    if up == "opticalElement":
        return tag in ("type", "width")
    if up == "customNoise":
        return tag == "name"
    if up in ("qe", "EncESolution", "wlSolution", "foreground"):
        return tag == "datafile"
    if up == "targetR":
        return tag == "data"
    if up == "aperture":
        return tag in ("radius", "EnE") and not unused(path, parent)
    return False


def spoilings(root):
    """(label, thunk) of what can be done to the description"""
    out = []
    for path, parent, c in nodes(root):
        name = "/".join(path)
        if required(path, parent, c):
            out.append(("no " + name, lambda parent=parent, c=c: parent.remove(c)))
            if not len(c) and path[-1] != "sourceSpectrum":
                def empty(c=c):
                    c.text = ""
                out.append((name + " empty", empty))
        unit = c.get("unit")
        if unused(path, parent):
            continue
        if unit is not None or path[-1] in FRACTIONS:
            for k in kind(unit or ""):
                out.append((name + " in " + k, lambda c=c, k=k: c.set("unit", k)))
            if not (path[-1] == "targetR" and not unit):
                def text(c=c):
                    c.text = "much"
                out.append((name + " as text", text))
        if path[-1] in ("datafile",) or path[-2:] == ("targetR", "data"):
            def lost(c=c):
                c.text = c.text.replace(".ecsv", "_.ecsv").replace(".tsv", "_.tsv")
            out.append((name + " not there", lost))
        if path[-1] == "CustomSed":
            def lost(c=c):
                c.text = c.text.strip() + "_"
            out.append(("CustomSed not there", lost))
        if path == ("common", "sourceSpectrum"):
            def library(c=c):
                c.text = "phoenix"
                ET.SubElement(c, "StellarModels").text = "__ConfigPath__/no_models"
            out.append(("StellarModels not there", library))
        if path == ("channel",):
            for ext in (".fits", ".hdf5", "", ".png"):
                for fmt in (None, "paos", "pixel_based"):
                    def image(c=c, ext=ext, fmt=fmt):
                        for p in c.findall("PSF"):
                            c.remove(p)
                        e = ET.SubElement(c, "PSF")
                        e.text = "__ConfigPath__/no_image" + ext
                        if fmt:
                            ET.SubElement(e, "format").text = fmt
                    out.append(("image of the channel (%s) not there" % fmt, image))
        if path[-1] == "channelClass":
            for k in ("Imager", "Photometers", "spectro"):
                def other(c=c, k=k):
                    c.text = k
                out.append(("class " + k, other))
    return out


COL = re.compile(r"^# - \{name: '([^']*)'(, unit: '([^']*)')?, datatype: \w+\}$", re.M)


def tables(root, d):
    """(label, thunk) of what can be done to the data files"""
    out = []
    for path, parent, c in nodes(root):
        if path[-1] != "datafile":
            continue
        up = path[-2]
        f = os.path.join(d, os.path.basename(c.text.strip()))
        s = open(f, encoding="utf-8").read()
        cols = [(m.group(1), m.group(3)) for m in COL.finditer(s)]
        names = [n for n, _ in cols]
        wl = [n for n in names if n.lower() == "wavelength"]
        named = parent.find("wl_col_name")
        if named is not None:
            wl = [named.text.strip()]
        keep = {n for n in names if n.lower() == "wavelength"} - set(wl)
        for i, (n, unit) in enumerate(cols):
            if n in keep:
                continue
            used = True
            if up == "opticalElement" and n not in wl and n != "Emissivity" and n != "emissivity":
                use = parent.find("use")
                if use is not None:
                    used = n == use.text.strip()
                else:
                    used = n == "Transmission" or "Transmission" not in names
                if n not in ("Transmission", "Reflectivity"):
                    used = False
            if not used:
                continue
            label = "%s of %s" % ("wavelengths" if n in wl else n if up != "qe" else "values", up)

            def write(text, f=f):
                with open(f, "w", encoding="utf-8") as o:
                    o.write(text)

            # the other column may be there to be used instead
            if not (up == "opticalElement" and n == "Transmission" and "Reflectivity" in names and parent.find("use") is None) \
                    and not (up == "customNoise" and len(names) > 2):
                lines = s.split("\n")
                k = [j for j, l in enumerate(lines) if not l.startswith("#")][0]
                body = [l for l in lines[k:] if l]
                import csv
                import io

                rows = list(csv.reader(body, delimiter=" "))
                if all(len(r) == len(cols) for r in rows) and len(cols) > 1:
                    b = io.StringIO()
                    csv.writer(b, delimiter=" ", lineterminator="\n").writerows(
                        [r[:i] + r[i + 1:] for r in rows])
                    head = [l for l in lines[:k] if not l.startswith("# - {name: '%s'" % n)]
                    out.append(("no " + label, lambda w=write, t="\n".join(head) + "\n" + b.getvalue(): w(t)))
            for un in kind(unit or ""):
                if up == "customNoise" and n not in wl and un in ("s",):
                    continue
                if n in wl and unit is None and un == "micron":
                    continue  # what has no unit is in micron
                t = re.sub(
                    r"^# - \{name: '%s'(, unit: '[^']*')?," % re.escape(n),
                    lambda m: "# - {name: '%s', unit: '%s'," % (n, un), s, flags=re.M)
                out.append(("%s in %s" % (label, un), lambda w=write, t=t: w(t)))
    return out


@st.composite
def case(draw, tier):
    spoil = st.tuples(
        st.sampled_from(["keyword"] * 4 + ["table"] * 3 + ["target", "file"]),
        *[st.integers(0, 2**16 - 1)] * 4,
    ).map(list)
    spoils = draw(st.lists(spoil, min_size=2, max_size=9))
    spec = draw(P.payload(n_ch=(1, 2), max_el=3, psf=(0.05, 0.2), R=(15, 40)))
    if draw(st.booleans()):
        spec["customNoise"] = draw(N.custom_noises("cn", spec["wl_min"], spec["wl_max"], 2))
    if draw(st.integers(0, 4)) == 4:
        spec["source"], spec["sed"] = "custom", draw(P.custom_sed(spec["wl_min"], spec["wl_max"]))
    return {
        "spec": spec, "target": draw(P.target()),
        "spoils": spoils,
    }


WAYS = {"not there": 1, "as text": 2, "in": 3, "class": 1, "no": 3, "other": 1}


def way(label):
    if label.startswith("no ") or label.endswith(" empty"):
        return "no"
    for x in ("not there", "as text", "class"):
        if x in label:
            return x
    return "in" if " in " in label else "other"


def what(label):
    """the same thing, in all the units, or taken away in any way"""
    if label.endswith(" empty"):
        return "no " + label[: -len(" empty")]
    return label.split(" in ")[0] + " in" * (" in " in label)


STAR = {"M": "M_sun", "Teff": "K", "R": "R_sun", "D": "pc"}


def attempt(xml, csv):
    """the table of the observation, or the error"""
    T = pipe.tasks()
    try:
        with quiet():
            payload, channels, wl = T.PreparePayload()(payload_file=xml, output=None)
            t = T.LoadTargetList()(target_list=csv).target[0]
            return T.ObserveTarget()(target=t, payload=payload, channels=channels, wl_range=wl).table
    except Exception as e:
        return e


def run(c):
    labels = []
    with pipe.folder() as d:
        xml = P.write(c["spec"], d)
        csv = P.write_targets([c["target"]], d)
        first = attempt(xml, csv)
        check(not isinstance(first, Exception), "observing what is not spoiled raises %r", first)
    for s in c["spoils"]:
        with pipe.folder() as d:
            labels += one(c["spec"], c["target"], s[0], s[1:], d)
    return {"nontrivial": True, "labels": labels}


def one(spec, target, how, which, d):
    """spoil in one way, and observe"""
    xml = P.write(spec, d)
    csv = P.write_targets([target], d)
    tree = ET.parse(xml)
    if how == "table":
        all_ = tables(tree.getroot(), d)
        if not all_:
            how = "keyword"
    if how == "keyword":
        all_ = spoilings(tree.getroot())
    if how == "target":
        s = open(csv).read()
        all_ = []
        for k, un in STAR.items():
            if spec["source"] == "custom" and k in ("M", "Teff"):
                continue
            for other in kind(un):
                def change(k=k, un=un, other=other):
                    with open(csv, "w") as o:
                        t = s.replace("star %s [%s]" % (k, un), "star %s [%s]" % (k, other))
                        assert t != s
                        o.write(t)
                all_.append(("star %s in %s" % (k, other), change))

            def lost(k=k, un=un):
                rows = [l.split(",") for l in s.splitlines()]
                i = [j for j, x in enumerate(rows[0]) if "star %s [" % k in x]
                assert len(i) == 1, rows[0]
                with open(csv, "w") as o:
                    for r in rows:
                        o.write(",".join(r[:i[0]] + r[i[0] + 1:]) + "\n")

            def unknown(k=k, un=un):
                with open(csv, "w") as o:
                    o.write(s.replace("star %s [%s]" % (k, un), "star %s [furlongs]" % k))

            def text(k=k, un=un):
                rows = [l.split(",") for l in s.splitlines()]
                i = [j for j, x in enumerate(rows[0]) if "star %s [" % k in x][0]
                rows[1][i] = "much"
                with open(csv, "w") as o:
                    for r in rows:
                        o.write(",".join(r) + "\n")

            all_ += [("no star " + k, lost), ("star %s in furlongs" % k, unknown), ("star %s as text" % k, text)]
    if how == "file":
        all_ = []
        for new in ("payload.txt", "payload.XMLX", "other.xml"):
            def move(new=new):
                nonlocal xml
                if new != "other.xml":
                    os.rename(xml, os.path.join(d, new))
                xml = os.path.join(d, new)
            all_.append(("payload file " + new, move))

        def cut():
            text = open(xml, encoding="utf-8").read().rstrip()
            with open(xml, "w", encoding="utf-8") as o:
                o.write(text[: 1 + which[3] % (len(text) - 1)])

        def no_list():
            nonlocal csv
            csv = csv.replace(".csv", "_.csv")

        def other_list():
            nonlocal csv
            os.rename(csv, csv.replace(".csv", ".list"))
            csv = csv.replace(".csv", ".list")

        all_ += [("payload file cut", cut), ("target list not there", no_list), ("target list of unknown kind", other_list)]
    # one of the ways of spoiling, then what is spoiled, then where
    i, j, k, _ = which
    ways = sorted({way(x) for x, _ in all_})
    ways = [x for x in ways for _ in range(WAYS[x])]
    kinds = sorted({what(x) for x, _ in all_ if way(x) == ways[i % len(ways)]})
    same = [x for x in all_ if what(x[0]) == kinds[j % len(kinds)]]
    label, spoil = same[k % len(same)]
    spoil()
    if how == "keyword":
        tree.write(xml, encoding="utf-8")
    got = attempt(xml, csv)
    check(
        isinstance(got, Exception),
        "the description with %s is observed as if nothing was wrong", label,
    )
    return [how, "raises " + type(got).__name__]


SUBS = [Sub("spoiled", lambda tier: case(tier), run, 640, 8000)]
