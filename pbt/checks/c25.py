import io
import logging
import os
import re

from hypothesis import strategies as st

from .. import payload as P
from .. import pipe
from ..core import Sub, check, quiet, sut
from .c19 import NAMES, away, lack

RULE = (
    "runs of the pipeline are non-trivial with at least two targets; what is on "
    "the screen and in the log file is compared with every message sent"
)
OWN = re.compile(r"(observing .*|target .* skipped\b.*)", re.S)


@st.composite
def case(draw, tier):
    n = draw(st.integers(1, 4))
    return {
        "spec": draw(P.payload(n_ch=(1, 1), max_el=1, R=(15, 20))),
        "targets": [dict(draw(P.target()), name=NAMES[i]) for i in range(n)],
        "lacking": draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)),
        "lack": draw(st.sampled_from(["Teff", "R", "D", "M"])),
        "debug": draw(st.booleans()),
        "log": draw(st.sampled_from([False, True, "name"])),
        "output": draw(st.booleans()),
        "plot": draw(st.integers(0, 9)) == 9,
        # what the user has asked to be shown before
        "level": draw(st.sampled_from(["INFO", "INFO", "DEBUG", "WARNING", "ERROR"])),
    }


def run(c):
    from exorad.exorad import standard_pipeline

    root = logging.getLogger("exorad")
    sent, asked = [], getattr(logging, c["level"])
    shown = lambda r: getattr(logging, r[1]) >= asked

    class H(logging.Handler):
        def emit(self, r):
            sent.append((r.name, r.levelname, r.getMessage()))

        def setLevel(self, level):
            # every message that is sent is heard, whatever is asked for
            pass

    with pipe.folder() as d, away(d):
        xml = P.write(c["spec"], d)
        csv = P.write_targets(c["targets"], d)
        lack(csv, c["lacking"], c["lack"])
        work = os.path.join(d, "work")
        os.mkdir(work)
        os.chdir(work)
        root.handlers[0].setLevel(asked)
        screen = io.StringIO()
        old = root.handlers[0].setStream(screen)
        h = H(logging.DEBUG)
        root.addHandler(h)
        log = c["log"] and (os.path.join(work, "a log.txt") if c["log"] == "name" else True)
        try:
            sut(
                "the pipeline",
                lambda: standard_pipeline(
                    options=xml, target_list=csv, output=os.path.join(d, "o", "x.h5") if c["output"] else None,
                    debug=c["debug"], log=log, plot=c["plot"] and c["output"],
                ),
            )
        finally:
            root.handlers[0].setStream(old)
            root.removeHandler(h)
        level = root.handlers[0].level
        said = screen.getvalue()
        files = os.listdir(work)
        want = {False: [], True: ["exorad.log"], "name": ["a log.txt"]}[c["log"]]
        check(files == want, "log files %s instead of %s", files, want)
        logged = None
        if files:
            with open(os.path.join(work, files[0])) as f:
                logged = f.read()

    names = [t["name"] for t in c["targets"]]
    who = [m for _, _, m in sent if m.startswith("observing ")]
    check(who == ["observing " + n for n in names], "announced %s, with targets %s", who, names)
    skips = [(l, m) for _, l, m in sent if " skipped" in m]
    bad = [names[i] for i in sorted(c["lacking"])]
    check(
        len(skips) == len(bad) and all(n in m and l in ("WARNING", "ERROR") for n, (l, m) in zip(bad, skips)),
        "told %s, with %s lacking %s", skips, bad, c["lack"],
    )

    # where the messages of an observation are
    start = [i for i, (_, _, m) in enumerate(sent) if m.startswith("observing ")]
    line = lambda r: "%s - %s - %s\n" % r
    after = sent[start[-1]:]
    if c["debug"]:
        k = [i for i, r in enumerate(sent) if "code version" in r[2]]
        k = k[0] if k else 0
        want = "".join(line(r) for i, r in enumerate(sent) if shown(r) or i > k)
        check(said == want, "debug messages of the run are missing on screen: %s", first(want, said))
    else:
        want = "".join(line(r) for i, r in enumerate(sent[: start[0]]) if shown(r))
        check(said.startswith(want), "screen before the observations: %s", first(want, said))
        rest = said[len(want):]
        pos = 0
        for i, r in enumerate(sent):
            if i >= start[0] and (OWN.fullmatch(r[2]) and shown(r) or r[1] in ("ERROR", "CRITICAL")):
                at = rest.find(line(r), pos)
                check(at >= 0, "%r is not on screen", line(r))
                if c["plot"] or not c["output"]:
                    pos = at + len(line(r))
                    continue
                check(at == pos, "messages of the observations on screen: %r", rest[pos:at][:200])
                pos = at + len(line(r))
        check("- DEBUG -" not in said or c["level"] == "DEBUG", "debug messages on screen")
        tail = rest[pos:]
        check(tail in "".join(line(r) for r in after if shown(r)), "screen ends with %r", tail[-300:])
        check(level == asked, "messages of level %s shown after the run, and of level %s before", level, asked)
    if logged is not None:
        got = re.sub(r"(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ - ", "", logged)
        k = [i for i, r in enumerate(sent) if "code version" in r[2]]
        want = "".join(line(r) for r in sent[k[0] + 1:]) if k else "".join(map(line, sent))
        check(got.endswith(want), "log file: %s", first(want, got))
        check("".join(map(line, sent)).endswith(got), "more in the log file than was sent")
    return {
        "nontrivial": len(names) > 1,
        "labels": ["debug"] * c["debug"] + ["log file"] * bool(c["log"]) + ["skipped target"] * bool(c["lacking"]) + ["level " + c["level"]],
    }


def first(a, b):
    x, y = a.splitlines(), b.splitlines()
    for i, l in enumerate(x):
        if i >= len(y) or y[i] != l:
            return "%r where %r is expected" % (y[i][:150] if i < len(y) else "", l[:150])
    return "more lines: %r" % y[len(x):][:3]


# ------------------------------------------------------------------- levels

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
WHO = ["LoadOptions", "Planet", "Spectrometer2"]


@st.composite
def level_case(draw, tier):
    ops = []
    for _ in range(draw(st.integers(2, 30 if tier == "thorough" else 14))):
        k = draw(st.sampled_from(["say", "say", "say", "level", "silence", "restore", "file"]))
        if k == "say":
            ops.append([k, draw(st.sampled_from(WHO)), draw(st.sampled_from(LEVELS)), draw(st.sampled_from(["a b", "100%", "{}", "", "two\nlines", "%s of %d"]))])
        elif k == "level":
            ops.append([k, draw(st.sampled_from(LEVELS))])
        elif k == "file":
            ops.append([k, draw(st.sampled_from(["a.log", "b c.txt", None]))])
        else:
            ops.append([k])
    return {"ops": ops}


def level_run(c):
    from exorad import log

    root = logging.getLogger("exorad")
    tellers = {n: type(n, (log.Logger,), {})() for n in WHO}
    first_level, old = root.handlers[0].level, list(root.handlers)
    now, want, files, said = logging.INFO, [], {}, 0
    screen = io.StringIO()
    with pipe.folder() as d, away(d):
        work = os.path.join(d, "work")
        os.mkdir(work)
        os.chdir(work)
        stream = root.handlers[0].setStream(screen)
        try:
            log.setLogLevel(logging.INFO)
            for o in c["ops"]:
                if o[0] == "level":
                    now = getattr(logging, o[1])
                    sut("setting the level", lambda: log.setLogLevel(now))
                elif o[0] == "silence":
                    now = logging.ERROR
                    sut("silencing the messages", log.disableLogging)
                elif o[0] == "restore":
                    now = logging.INFO
                    sut("restoring the messages", log.enableLogging)
                elif o[0] == "file":
                    name = o[1] or "exorad.log"
                    if name not in files:
                        files[name] = []
                        sut("adding a log file", lambda: log.addLogFile(*([o[1]] if o[1] else [])))
                else:
                    _, who, lev, text = o
                    args = ("one", 2) if text.startswith("%s") else ()
                    sut("a message", lambda: getattr(tellers[who], lev.lower())(text, *args))
                    line = "exorad.%s - %s - %s\n" % (who, lev, text % args if args else text)
                    if getattr(logging, lev) >= now:
                        want.append(line)
                    for f in files.values():
                        f.append(line)
                    said += 1
        finally:
            root.handlers[0].setStream(stream)
            root.handlers[0].setLevel(first_level)
            for h in list(root.handlers):
                if h not in old:
                    root.removeHandler(h)
                    h.close()
        got = screen.getvalue()
        check(got == "".join(want), "on screen: %s", first("".join(want), got))
        check(sorted(os.listdir(work)) == sorted(files), "log files %s instead of %s", os.listdir(work), sorted(files))
        for n, lines in files.items():
            with open(os.path.join(work, n)) as f:
                got = re.sub(r"(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d+ - ", "", f.read())
            check(got == "".join(lines), "in %s: %s", n, first("".join(lines), got))
    return {"nontrivial": said > 1 and any(o[0] in ("level", "silence", "restore") for o in c["ops"]),
            "labels": sorted({o[0] for o in c["ops"]})}


SUBS = [
    Sub("messages", lambda tier: case(tier), run, 150, 2000),
    Sub("levels", lambda tier: level_case(tier), level_run, 500, 8000),
]
