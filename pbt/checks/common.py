"""Shared by the checks that compare whole observations with the model."""
from .. import payload as P
from .. import pipe, ref
from ..core import Reject, check

CT = "count/s"


def built(spec, d, **kw):
    b = pipe.build(spec, d, **kw)
    check(
        list(b[1]) == [c["name"] for c in spec["channels"]],
        "channels %s instead of %s", list(b[1]), [c["name"] for c in spec["channels"]],
    )
    return b


def channels(spec):
    """reference of each channel; those with an undecidable discrete decision
    are left out (all of them: the case is rejected)"""
    out, why = [], None
    for c in spec["channels"]:
        try:
            out.append((c, ref.Channel(spec, c)))
        except Reject as e:
            why = e
    if not out:
        raise why
    return out


class Tally:
    """evaluates what it can of a case, rejects it if nothing was"""

    def __init__(self):
        self.n = 0
        self.why = None
        self.labels = []

    def __call__(self, fn, *labels):
        try:
            fn()
        except Reject as e:
            self.why = e
            return False
        self.n += 1
        self.labels += labels
        return True

    def info(self, nontrivial=True):
        if self.n == 0:
            raise self.why or Reject("nothing to evaluate")
        return {"nontrivial": nontrivial, "labels": sorted(set(self.labels))}


def element_labels(els):
    out = set()
    for e in els:
        out.add("element: " + e["type"])
        if "data" in e:
            out.add("element table")
        if "use" in e:
            out.add("element with use")
        if "wl_min" in e or "wl_max" in e:
            out.add("element with range")
        if "solid_angle" in e:
            out.add("custom solid angle")
    return sorted(out)
