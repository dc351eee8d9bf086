import os

from hypothesis import strategies as st

from .. import clean
from .. import payload as P
from .. import pipe
from ..core import Sub, check, quiet, sut
from .c04 import write_map

RULE = (
    "histories are non-trivial when a payload or a target was used before the "
    "last observation; every observation is compared, column by column, with "
    "that of the same target alone, in a process that has done nothing else"
)

NAMES = ["alpha", "Beta 2", "WASP-12", "HD 209458", "t_5"]


# ------------------------------------------------------------- the reference


def alone(xml, csv, j, h5=None):
    """tables of the channels, and of the target observed, in a new process"""
    with quiet():
        import exorad.tasks as T

        payload, channels, wl = T.PreparePayload()(payload_file=xml, output=None)
        tabs = {k: v.table for k, v in channels.items()}
        if j is None:
            return tabs, None
        t = T.LoadTargetList()(target_list=csv).target[j]
        t = T.ObserveTarget()(target=t, payload=payload, channels=channels, wl_range=wl)
        return tabs, t.table


class Reference:
    def __init__(self, xmls, csv, at):
        self.xmls, self.csv, self.cache, self.at = xmls, csv, {}, at

    def __call__(self, i, j=None):
        if (i, j) not in self.cache:
            self.at(i)
            r = clean.call(alone, self.xmls[i], self.csv, j)
            if r[0] != "ok":
                check(False, "payload %d, target %s: raises %s(%s) on a valid input", i, j, r[1], r[2])
            self.cache[i, j] = r[1]
        return self.cache[i, j]


def same_observation(ref, table, what):
    pipe.tables_equal(ref, table, what, 1e-12)
    check(
        {k: str(v) for k, v in ref.meta.items()} == {k: str(v) for k, v in table.meta.items()},
        "%s: described as %s instead of %s", what, dict(table.meta), dict(ref.meta),
    )


def same_channels(ref, channels, what):
    check(list(ref) == list(channels), "%s: channels %s instead of %s", what, list(channels), list(ref))
    for k in ref:
        pipe.tables_equal(ref[k], channels[k].table, "%s: channel %s" % (what, k), 1e-12)


# ----------------------------------------------------------------- histories


def twin(x):
    """the same payload with the columns of its tables upside down: files of
    the same names and sizes, with other values"""
    if isinstance(x, list):
        return [twin(v) for v in x]
    if not isinstance(x, dict):
        return x
    w = [k for k in x if k.lower() == "wavelength" and isinstance(x[k], list)]
    if w and "x" not in x:
        return {k: v if k in w else v[::-1] if isinstance(v, list) else v for k, v in x.items()}
    return {k: twin(v) for k, v in x.items()}


@st.composite
def op(draw, ns, nt):
    i, j = draw(st.integers(0, ns - 1)), draw(st.integers(0, nt - 1))
    k = draw(st.sampled_from(["prepare", "reload", "observe", "observe", "observe", "list", "steps", "fail", "broken", "sed"]))
    o = {"op": k, "i": i, "j": j}
    if k == "prepare":
        o["store"] = draw(st.booleans())
    elif k == "observe":
        o["fresh"] = draw(st.booleans())
    elif k == "list":
        o["js"] = draw(st.permutations(range(nt)))[: draw(st.integers(1, nt))]
        o["bad"] = draw(st.lists(st.sampled_from(o["js"]), max_size=1))
        o["lack"] = draw(st.sampled_from(["D", "Teff", "R", "M"]))
        o["n"] = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
        o["fresh"] = draw(st.booleans())
    elif k == "steps":
        # one after the other, each once or more, then any of them again
        o["times"] = draw(st.lists(st.sampled_from([1, 1, 2, 3]), min_size=6, max_size=6))
        o["again"] = draw(st.lists(st.integers(1, 5), max_size=4))
    elif k == "fail":
        o["lack"] = draw(st.sampled_from(["D", "Teff", "R", "M"]))
    return o


@st.composite
def case(draw, tier):
    ns, nt = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    big = tier == "thorough"
    specs = [
        draw(P.payload(n_ch=(1, 2), max_el=2, psf=(0.1, 0.3), R=(15, 120 if big else 60)))
        for _ in range(ns)
    ]
    for s in specs:
        if draw(st.integers(0, 2)) == 2:
            s["sed"], s["source"] = draw(P.custom_sed(s["wl_min"], s["wl_max"])), "custom"
    if ns > 1 and draw(st.booleans()):
        specs[1] = twin(specs[0])
    for s in specs:
        if draw(st.integers(0, 9)) == 9:
            s["R"] = None
            s["channels"] = s["channels"][:1]
        # every payload with a map of the zodiacal light of its own, named alike
        if draw(st.booleans()):
            s["map"] = draw(st.lists(P.fl(0.3, 9.0, 3), min_size=3, max_size=3))
    tg = [dict(draw(P.target()), name=NAMES[k]) for k in range(nt)]
    # at least one of each, then anything
    ops = [{"op": "prepare", "i": 0, "j": 0, "store": draw(st.booleans())}]
    ops += draw(st.lists(op(ns, nt), min_size=3, max_size=12 if big else 8))
    ops.append({
        "op": "observe", "i": draw(st.integers(0, ns - 1)), "j": draw(st.integers(0, nt - 1)),
        "fresh": draw(st.booleans()),
    })
    for o in ops:
        if "lack" in o and specs[o["i"]].get("sed"):
            # a custom source needs neither mass nor temperature
            o["lack"] = {"Teff": "D", "M": "R"}.get(o["lack"], o["lack"])
    return {"specs": specs, "targets": tg, "ops": ops, "one place": draw(st.booleans())}


def run(c):
    clean.start()
    T = pipe.tasks()
    n = len(c["specs"])
    with pipe.folder() as d:
        xmls = []
        work, there = os.path.join(d, "here"), [None]

        def at(i):
            """the files of the i-th payload are in place"""
            if c["one place"] and there[0] != i:
                if there[0] is not None:
                    os.rename(work, os.path.join(d, str(there[0])))
                os.rename(os.path.join(d, str(i)), work)
                there[0] = i

        for i, s in enumerate(c["specs"]):
            place = os.path.join(d, str(i))
            if c["one place"]:
                # its files replace those of the other payloads
                if i:
                    os.rename(work, os.path.join(d, str(i - 1)))
                place, there[0] = work, i
            os.makedirs(place)
            if "map" in s:
                m = write_map(([10.0, 130.0, 250.0], [5.0, -40.0, 60.0], s["map"]), place)
                f = [dict(f, map=True, map_file=m) if f["name"] == "zodiacal" else f for f in s["foregrounds"]]
                s = dict(s, foregrounds=f)
            xmls.append(P.write(s, place))
        csv = P.write_targets(c["targets"], d)
        ref = Reference(xmls, csv, at)
        built, stored = {}, {}

        def fresh():
            return pipe.load_targets(csv).target

        kept = fresh()
        used, seen = 0, {"t": set(), "p": set()}
        labels = []
        results = {}  # what was returned so far, and has to stay as it is

        def have(i):
            if i not in built:
                built[i] = pipe.prepare(xmls[i])
            return built[i]

        def observed(t, i, j, what):
            same_observation(ref(i, j)[1], t.table, "%s, target %d with payload %d" % (what, j, i))
            # a target observed again carries its last observation
            results[id(t)] = (t, i, j, what)

        for step, o in enumerate(c["ops"]):
            i, j, k = o["i"], o["j"], o["op"]
            what = "step %d (%s)" % (step, k)
            at(i)
            if k == "prepare":
                out = os.path.join(d, "%d_%d.h5" % (i, step)) if o["store"] else None
                built[i] = pipe.prepare(xmls[i], out)
                if out:
                    stored[i] = out
            elif k == "reload":
                if i not in stored:
                    continue
                built[i] = pipe.prepare(stored[i])
            elif k == "observe":
                t = fresh()[j] if o["fresh"] else kept[j]
                t = pipe.observe(t, have(i))
                observed(t, i, j, what)
                used += i in seen["p"] or j in seen["t"] or bool(seen["p"])
                seen["p"].add(i)
                if not o["fresh"]:
                    seen["t"].add(j)
            elif k == "list":
                b = have(i)
                pool = fresh() if o["fresh"] else kept
                ts = [pool[x] for x in o["js"]]
                for t in ts:
                    results.pop(id(t), None)
                back = []
                for x in o["bad"]:
                    back.append((pool[x].star, getattr(pool[x].star, o["lack"])))
                    setattr(pool[x].star, o["lack"], None)
                got = sut(
                    "observing the list",
                    lambda: T.ObserveTargetlist()(
                        targets=ts, payload=b[0], channels=b[1], wl_range=b[2],
                        plot=False, out_dir=None, n_thread=o["n"], debug=False,
                    ),
                )
                for s, v in back:
                    setattr(s, o["lack"], v)
                want = [x for x in o["js"] if x not in o["bad"]]
                check(
                    list(got) == [c["targets"][x]["name"] for x in want],
                    "%s: observed %s instead of %s", what, list(got), [c["targets"][x]["name"] for x in want],
                )
                for x in want:
                    observed(got[c["targets"][x]["name"]], i, x, what)
                used += len(want) > 1 or bool(seen["p"])
                seen["p"].add(i)
                labels += ["list of %d" % len(ts)] + ["%d processes" % o["n"]] * (o["n"] > 1)
                labels += ["skipped target"] * len(o["bad"])
            elif k == "steps":
                t = by_steps(fresh()[j], have(i), o)
                # columns written again are the last ones
                want = ref(i, j)[1]
                check(sorted(t.table.colnames) == sorted(want.colnames), "%s: columns %s instead of %s", what, t.table.colnames, want.colnames)
                t.table = t.table[want.colnames]
                same_observation(want, t.table, "%s, target %d with payload %d" % (what, j, i))
                used += bool(seen["p"]) or bool(o["again"]) or max(o["times"]) > 1
                seen["p"].add(i)
            elif k == "fail":
                b = have(i)
                t = kept[j]
                results.pop(id(t), None)
                v = getattr(t.star, o["lack"])
                setattr(t.star, o["lack"], None)
                try:
                    with quiet():
                        T.ObserveTarget()(target=t, payload=b[0], channels=b[1], wl_range=b[2])
                except Exception:
                    pass
                else:
                    check(False, "%s: a star without %s is observed", what, o["lack"])
                setattr(t.star, o["lack"], v)
                seen["t"].add(j)
            elif k == "broken":
                bad = os.path.join(d, "bad%d.xml" % step)
                with open(xmls[i]) as f:
                    s = f.read()
                with open(bad, "w") as f:
                    f.write(s.replace("<channelClass>", "<channelClass>no such "))
                try:
                    pipe_prepare(bad)
                except Exception:
                    pass
                else:
                    check(False, "%s: a payload with unknown channels is prepared", what)
            elif k == "sed":
                b = have(i)
                results.pop(id(kept[j]), None)
                sut(
                    "loading the source",
                    lambda: T.LoadSource()(
                        target=kept[j], source=b[0]["common"]["sourceSpectrum"], wl_range=b[2]
                    ),
                )
                seen["t"].add(j)
            labels.append(k)
            for x in built:
                same_channels(ref(x)[0], built[x][1], what + ", payload %d" % x)
        for t, i, j, what in list(results.values()):
            same_observation(
                ref(i, j)[1], t.table,
                "%s, target %d with payload %d, seen at the end" % (what, j, i),
            )
    if any("map" in s and any(f["name"] == "zodiacal" for f in s["foregrounds"]) for s in c["specs"]):
        labels.append("map of its own")
    if len(built) > 1:
        labels.append("several payloads")
        if c["one place"]:
            labels.append("one place")
    return {"nontrivial": used > 0, "labels": labels}


def by_steps(t, built, o):
    """the target observed by the single tasks, some of them repeated"""
    T = pipe.tasks()
    payload, channels, wl = built
    from exorad.utils.passVal import PassVal

    PassVal.load(payload)
    frg = payload["common"].get("foreground")
    steps = [
        lambda: T.PrepareTarget()(target=t, channels=channels),
        lambda: frg is None or T.EstimateForegrounds()(foregrounds=frg, target=t, wl_range=wl),
        lambda: frg is None or T.PropagateForegroundLight()(channels=channels, target=t),
        lambda: T.LoadSource()(target=t, source=payload["common"]["sourceSpectrum"], wl_range=wl),
        lambda: T.PropagateTargetLight()(channels=channels, target=t),
        lambda: T.EstimateNoise()(target=t, channels=channels),
    ]
    for k, n in enumerate(o["times"]):
        for _ in range(n):
            sut("step %d of an observation" % k, steps[k])
    for k in o["again"]:
        sut("step %d of an observation, again" % k, steps[k])
    return t


def pipe_prepare(path):
    with quiet():
        return pipe.tasks().PreparePayload()(payload_file=path, output=None)


SUBS = [Sub("histories", lambda tier: case(tier), run, 160, 2500)]
