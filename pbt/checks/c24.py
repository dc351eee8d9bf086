import base64
import importlib.metadata as metadata
import io
import json
import logging
import socket

import requests
from hypothesis import strategies as st
from packaging.version import Version

from ..core import Sub, check, sut

RULE = (
    "change logs are generated as lists of releases; non-trivial with at least "
    "two releases; what is announced is compared with the releases listed before "
    "the one in use"
)
WORDS = ["fixed", "added", "noise", "2.1", "1.0.2", "[link]", "- plots", "## not a release", "### Added", "v3", "", "  ", "Méchain", "10 µm"]


@st.composite
def version(draw):
    v = [draw(st.integers(0, 3)) for _ in range(draw(st.integers(2, 4)))]
    s = ".".join(map(str, v))
    return s + draw(st.sampled_from(["", "", "", "-alpha", "a1", ".dev0"]))


@st.composite
def case(draw, tier):
    rel = draw(st.lists(version(), min_size=1, max_size=6, unique_by=Version))
    rel = sorted(rel, key=Version, reverse=True)
    cur = draw(st.sampled_from(rel + [rel[0]]))
    if draw(st.integers(0, 3)) == 3:
        # not published: being developed, withdrawn, older than the log
        v = draw(version())
        if Version(v) not in [Version(x) for x in rel]:
            cur = v
    return {
        "releases": [[v, draw(st.lists(st.lists(st.sampled_from(WORDS), max_size=3).map(" ".join), max_size=4))] for v in rel],
        "unreleased": draw(st.none() | st.lists(st.sampled_from(WORDS), max_size=2)),
        "current": cur,
        "dates": draw(st.booleans()),
        "force": draw(st.booleans()),
        "net": draw(st.sampled_from(["ok"] * 6 + ["down", "down", "no reply", "stalled", "not found", "forbidden"])),
        "why": draw(st.integers(0, 3)),
        "where": draw(st.sampled_from(["https://github.com/Some/Where", None, None])),
        "own": draw(st.integers(0, 3)) == 3,
    }


def text(c):
    out = ["# Changelog", "All changes", ""]
    if c["unreleased"] is not None:
        out += ["## [Unreleased]"] + c["unreleased"] + [""]
    for v, ls in c["releases"]:
        out.append("## [%s]%s" % (v, " 2024-01-01" if c["dates"] else ""))
        out += ls + [""]
    return out


def repository():
    """owner/name of the repository of the package, from what is installed"""
    for x in metadata.metadata("exorad").get_all("Project-URL"):
        if "github.com/" in x:
            return "/".join(x.split("github.com/")[1].split("/")[:2])
    raise RuntimeError("no repository in the metadata of the package")


def run(c):
    import exorad.utils.version_control as V

    lines = text(c)
    names = [v for v, _ in c["releases"]]

    current = c["current"]
    if c["own"]:
        # the version of the package itself, one of the releases or none
        current = metadata.version("exorad")
        if c["current"] in names:
            # those above are newer
            up = {v: "%d.%s" % (int(current.split(".")[0]) + 1 + len(names) - i, current) for i, v in enumerate(names) if Version(v) > Version(c["current"])}
            up[c["current"]] = current
            up.update({v: "0.%d" % (len(names) - i) for i, v in enumerate(names) if v not in up})
            lines = [next(("## [%s]" % n + x[len("## [%s]" % v):] for v, n in up.items() if x.startswith("## [%s]" % v)), x) for x in lines]
            names = [up[v] for v in names]

    asked = []

    def send(self, request, stream=False, timeout=None, **k):
        asked.append(request.url)
        E = requests.exceptions
        if c["net"] == "stalled":
            # connected, and then nothing: only a time limit ends this
            limit = timeout[-1] if isinstance(timeout, tuple) else timeout
            limit = getattr(limit, "read_timeout", limit)
            check(limit is not None and 0 < limit <= 120, "waits for ever for a reply that does not come")
            raise E.ReadTimeout("stalled")
        if c["net"] == "no reply":
            # there is a network, but not all of it
            raise [E.ConnectionError, E.Timeout, E.SSLError, E.ProxyError][c["why"]]("no reply")
        r = requests.Response()
        r.status_code = {"ok": 200, "not found": 404}.get(c["net"], 403)
        d = {"message": "sorry"}
        if r.status_code == 200:
            d = {"content": base64.b64encode("\n".join(lines).encode()).decode(), "encoding": "base64"}
        r._content, r.url, r.request, r.raw = json.dumps(d).encode(), request.url, request, io.BytesIO()
        return r

    def connect(self, where):
        if c["net"] == "down":
            raise [ConnectionRefusedError, socket.timeout, socket.gaierror, OSError][c["why"]]("no network")

    log = logging.getLogger("exorad")
    rec = []

    class H(logging.Handler):
        def emit(self, r):
            rec.append((r.levelno, r.getMessage()))

    h = H(logging.WARNING)
    timeout, adapter = socket.getdefaulttimeout(), requests.adapters.HTTPAdapter
    real = adapter.send
    log.addHandler(h)
    adapter.send = send
    socket.socket.connect = connect
    raised = False
    kw = {"force": c["force"]}
    if not c["own"]:
        kw["current_version"] = current
    if c["where"]:
        kw["package_url"] = c["where"]

    def ask():
        try:
            V.VersionControl(**kw)
        except V.VersionError:
            return True
        return False

    try:
        raised = sut("looking for a newer version", ask)
    finally:
        log.removeHandler(h)
        adapter.send = real
        del socket.socket.connect
        after = socket.getdefaulttimeout()
        socket.setdefaulttimeout(timeout)
    check(after == timeout, "leaves every other connection with a time limit of %s", after)
    new = c["net"] == "ok" and Version(names[0]) > Version(current)
    said = [m for _, m in rec]
    place = "/Some/Where/" if c["where"] else "/%s/" % repository()
    check(all(place in x and x.endswith("CHANGELOG.md") for x in asked), "asked for %s", asked)
    check(bool(asked) == (c["net"] != "down"), "asked for %s", asked)
    check(raised == (new and c["force"]), "an update is %simposed", "" if raised else "not ")
    if not new:
        check(not said, "announced %s, using %s of %s", said, current, names)
        return {"nontrivial": len(names) > 1, "labels": ["up to date" if c["net"] == "ok" else c["net"]]}
    check(any(names[0] in m and current in m for m in said), "versions %s and %s not in %s", current, names[0], said)
    at = lines.index([x for x in lines if x.startswith("## [%s]" % names[0])][0])
    end = len(lines)
    for i, x in enumerate(lines):
        v = [n for n in names if x.startswith("## [%s]" % n)]
        if v and Version(v[0]) <= Version(current):
            end = min(end, i)
    want = "".join(x + "\n" for x in lines[at:end] if x != "")
    check(any(m.endswith(want) for m in said), "announced %r instead of %r", said, want)
    return {"nontrivial": len(names) > 1, "labels": ["newer version"] + ["not in the log"] * (current not in names)}


SUBS = [Sub("announcement", lambda tier: case(tier), run, 600, 10000)]
