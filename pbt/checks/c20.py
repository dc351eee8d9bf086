import os

import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, quiet, sut
from . import noise as N

RULE = (
    "payloads are non-trivial with at least two channels: the rows of each are "
    "compared with those of the payload that has only that channel; merged "
    "tables are non-trivial when some column is missing from one of them"
)
ASSUMPTIONS = []


# ------------------------------------------------------------ whole payloads


@st.composite
def case(draw, tier):
    spec = draw(P.payload(n_ch=(2, 3), max_el=3, psf=(0.1, 0.3), R=(15, 100 if tier == "thorough" else 60)))
    lo, hi = spec["wl_min"], spec["wl_max"]
    if draw(st.booleans()):
        spec["customNoise"] = draw(N.custom_noises("cn", lo, hi))
    for i, c in enumerate(spec["channels"]):
        if draw(st.booleans()):
            c["customNoise"] = draw(N.custom_noises("ch%d_" % i, c["wl_min"], c["wl_max"]))
    n = len(spec["channels"])
    return {
        "spec": spec,
        "target": draw(P.target()),
        "order": draw(st.permutations(range(n))),
        "alone": draw(st.integers(0, n - 1)),
        "via": draw(st.sampled_from(["payload", "payload", "instrument"])),
    }


def run(c):
    spec, T = c["spec"], pipe.tasks()
    chs = spec["channels"]
    names = [x["name"] for x in chs]
    one = dict(spec, channels=[chs[c["alone"]]])
    other = dict(spec, channels=[chs[i] for i in c["order"]])
    me = names[c["alone"]]
    with pipe.folder() as d:
        out = []
        for i, s in enumerate((spec, one, other)):
            f = os.path.join(d, str(i))
            os.mkdir(f)
            b = pipe.build(s, f)
            check(list(b[1]) == [x["name"] for x in s["channels"]], "channels %s instead of %s", list(b[1]), [x["name"] for x in s["channels"]])
            t = pipe.observe(pipe.make_targets([c["target"]], f)[0], b)
            out.append((b, t.table))
        (b, all_), (b1, alone), (b2, turned) = out
        pipe.tables_equal(b1[1][me].table, b[1][me].table, "channel %s among others" % me, 1e-12)
        for k in names:
            pipe.tables_equal(b[1][k].table, b2[1][k].table, "channel %s in another order" % k, 1e-12)
        if c["via"] == "instrument":
            desc = b[0]["channel"][me]
            ins = sut("building one channel", lambda: T.BuildInstrument()(
                type=chs[c["alone"]]["class"], name=me, description=desc, payload=b[0], write=False, output=None))
            pipe.tables_equal(b[1][me].table, ins.table, "channel %s built alone" % me, 1e-12)
        for cl in ("Photometer", "spectrometer"):
            got = sut("listing channels", lambda: T.GetChannelList()(options=b[0], channel_type=cl))
            want = [x["name"] for x in chs if x["class"] == cl.lower()]
            check(list(got) == want, "channels of class %s: %s instead of %s", cl, got, want)
            got = sut("listing the only channel", lambda: T.GetChannelList()(options=b1[0], channel_type=cl))
            want = [me] if chs[c["alone"]]["class"] == cl.lower() else []
            check(list(got) == want, "the only channel, of class %s: %s instead of %s", cl, got, want)

    def seq(table):
        s = [str(x) for x in table["chName"]]
        return [x for i, x in enumerate(s) if i == 0 or s[i - 1] != x]

    check(seq(all_) == names, "rows of %s instead of %s", seq(all_), names)
    check(seq(turned) == [names[i] for i in c["order"]], "rows of %s instead of %s", seq(turned), [names[i] for i in c["order"]])
    same_rows(alone, pipe.rows(all_, me), "rows of %s" % me)
    check(set(all_.colnames) == set(turned.colnames), "columns %s", sorted(set(all_.colnames) ^ set(turned.colnames)))
    for k in names:
        pipe.tables_equal(pipe.rows(all_, k), pipe.rows(turned, k)[all_.colnames], "rows of %s in another order" % k, 1e-12)
    return {"nontrivial": True, "labels": ["%d channels" % len(chs), c["via"]] + [x["class"] for x in chs]}


def same_rows(alone, rows, what):
    """what the others add is zero here"""
    check(set(alone.colnames) <= set(rows.colnames), "%s: no columns %s", what, sorted(set(alone.colnames) - set(rows.colnames)))
    pipe.tables_equal(alone, rows[alone.colnames], what, 1e-12)
    for k in set(rows.colnames) - set(alone.colnames):
        v = np.asarray(rows[k], float)
        check(np.all(v == 0), "%s: %s is %s", what, k, v)


# -------------------------------------------------------------- merged tables

COLS = {
    "Wavelength": ["um", "nm"], "star_signal": ["ct / s"], "frameTime": ["s", "h"], "TR": [None, ""],
    "a noise": ["hour(1/2)"], "b noise": ["hour(1/2)"], "M1 signal": ["ct / s"], "n": [None],
}


def unit(s):
    import astropy.units as u

    return u.hr**0.5 if s == "hour(1/2)" else u.Unit(s)


@st.composite
def merge_case(draw, tier):
    k = draw(st.integers(1, 4))
    kinds = {c: draw(st.sampled_from(["float", "int"])) if c == "n" else "float" for c in COLS}
    zero = draw(st.sampled_from(list(COLS)))
    tabs = []
    for i in range(k):
        n = draw(st.integers(1, 4))
        cs = draw(st.lists(st.sampled_from(list(COLS)), unique=True, max_size=len(COLS)))
        t = [["chName", None, draw(st.lists(st.sampled_from(["ch%d" % i, "c%d" % i]), min_size=n, max_size=n))]]
        for c in cs:
            f = P.fl(-1e5, 1e5, 6) if kinds[c] == "float" else st.integers(-99, 99)
            v = draw(st.lists(f, min_size=n, max_size=n))
            if c == zero and draw(st.booleans()):
                v[0] = draw(st.sampled_from([0.0, 0.0, float("nan"), float("inf"), -float("inf")]))
            t.append([c, draw(st.sampled_from(COLS[c])), v])
        tabs.append(t)
    # the unit is the same or none at all, in all tables that have the column
    for c in COLS:
        us = [x[1] for t in tabs for x in t if x[0] == c]
        if us and c in ("TR",):
            for t in tabs:
                for x in t:
                    if x[0] == c:
                        x[1] = us[0]
    return {"tabs": tabs, "via": draw(st.sampled_from(["function", "task"]))}


def table(t):
    from astropy.table import QTable

    q = QTable()
    for n, u_, v in t:
        q[n] = v if u_ is None else np.array(v, float) * unit(u_)
    return q


class Holder:
    def __init__(self, t):
        self.table = t


def merge_run(c):
    import astropy.units as u
    from exorad.utils.util import vstack_tables

    tabs = [table(t) for t in c["tabs"]]
    kept = [t.copy() for t in tabs]
    if c["via"] == "function":
        m = sut("merging tables", lambda: vstack_tables(tabs))
    else:
        m = sut("merging channels", lambda: pipe.tasks().MergeChannelsOutput()(
            channels={"x%d" % i: Holder(t) for i, t in enumerate(tabs)}))
    for a, b in zip(kept, tabs):
        pipe.tables_equal(a, b, "table passed in")
        check(b is not m or len(tabs) == 1, "one of the tables passed in is returned")
    n = [len(t) for t in tabs]
    check(len(m) == sum(n), "%d rows instead of %d", len(m), sum(n))
    cols = set().union(*[t.colnames for t in tabs])
    check(set(m.colnames) == cols, "columns %s instead of %s", sorted(m.colnames), sorted(cols))
    missing = False
    for k in cols:
        at = 0
        for t in tabs:
            got = m[k][at: at + len(t)]
            at += len(t)
            if k in t.colnames:
                if t[k].dtype.kind in "SUO":
                    check([str(x) for x in got] == [str(x) for x in t[k]], "%s became %s", list(t[k]), list(got))
                    continue
                w = u.Quantity(t[k])
                g = sut("units of " + k, lambda: u.Quantity(got).to(w.unit))
                check(np.allclose(g.value, w.value, rtol=1e-12, atol=0, equal_nan=True), "%s: %s became %s", k, w, g)
            else:
                missing = True
                check(np.all(np.asarray(u.Quantity(got).value, float) == 0) and not np.ma.is_masked(got), "%s, missing, became %s", k, got)
    return {"nontrivial": missing, "labels": ["%d tables" % len(tabs), c["via"]]}


@st.composite
def update_case(draw, tier):
    """a table of a target, and what comes next to it"""
    n = draw(st.integers(1, 4))
    tabs = []
    for _ in range(draw(st.integers(2, 4))):
        t = []
        for c in draw(st.lists(st.sampled_from(list(COLS)), unique=True, min_size=0 if tabs else 1, max_size=len(COLS))):
            t.append([c, draw(st.sampled_from(COLS[c])), draw(st.lists(P.fl(-1e5, 1e5, 6), min_size=n, max_size=n))])
        if draw(st.integers(0, 3)) == 3:
            t.append(["chName", None, draw(st.lists(st.sampled_from(["ch", "c"]), min_size=n, max_size=n))])
        if not t:
            t.append(["n", None, [1.0] * n])
        meta = draw(st.dictionaries(st.sampled_from(["name", "starR", "x"]), st.integers(0, 9), max_size=2))
        tabs.append([t, meta])
    return {"tabs": tabs}


def update_run(c):
    import astropy.units as u
    from exorad.models.target import Target

    t = Target()
    want, meta = {}, {}
    again = False
    for i, (cols, m) in enumerate(c["tabs"]):
        new = table(cols)
        new.meta.update(m)
        kept = new.copy()
        if i == 0:
            t.table = new
        else:
            again |= any(k in want for k in new.colnames)
            sut("updating the table", lambda: pipe.tasks().UpdateTargetTable()(target=t, table=new))
            pipe.tables_equal(kept, new, "table passed in")
        want.update({k: kept[k] for k in kept.colnames})
        meta.update(m)
        check(set(t.table.colnames) == set(want), "columns %s instead of %s", t.table.colnames, sorted(want))
        for k, w in want.items():
            g = t.table[k]
            if w.dtype.kind in "SUO":
                check([str(x) for x in g] == [str(x) for x in w], "%s is %s instead of %s", k, list(g), list(w))
            else:
                w = u.Quantity(w)
                g = sut("units of " + k, lambda: u.Quantity(g).to(w.unit))
                check(g.shape == w.shape and np.allclose(g.value, w.value, rtol=1e-12, atol=0), "%s is %s instead of %s", k, g, w)
        for k, v in meta.items():
            check(t.table.meta.get(k) == v, "%s is %r instead of %r", k, t.table.meta.get(k), v)
    return {"nontrivial": again, "labels": ["replaced columns" if again else "new columns"]}


SUBS = [
    Sub("channels", lambda tier: case(tier), run, 160, 2500),
    Sub("updating", lambda tier: update_case(tier), update_run, 300, 5000),
    Sub("merging", lambda tier: merge_case(tier), merge_run, 600, 10000),
]
