import numpy as np
from hypothesis import strategies as st

from .. import payload as P
from .. import ref
from ..core import Sub, check, sut

RULE = (
    "every pair of focal ratios counts; non-trivial when the two differ; the "
    "solid angle is compared with the direct integral over the aperture"
)


@st.composite
def gen(draw, tier):
    f = draw(P.fl(0.2, 60.0, 8))
    kind = draw(st.sampled_from(["one", "equal", "near", "two", "two", "two"]))
    g = {
        "one": None,
        "equal": f,
        "near": P.sig(f * (1 + draw(P.fl(-1e-3, 1e-3, 5))), 9),
        "two": draw(P.fl(0.2, 60.0, 8)),
    }[kind]
    return {"fx": f, "fy": g}


def value(om):
    import astropy.units as u

    check(getattr(om, "unit", None) is not None, "solid angle without a unit")
    return float(om.to(u.sr).value)


def run(c):
    from exorad.utils.exolib import OmegaPix

    fx, fy = c["fx"], c["fy"]
    if fy is None:
        got = value(sut("the solid angle", lambda: OmegaPix(fx)))
        fy = fx
    else:
        got = value(sut("the solid angle", lambda: OmegaPix(fx, fy)))
        back = value(sut("the solid angle", lambda: OmegaPix(fy, fx)))
        check(abs(got - back) <= 1e-9 * back, "%r swapped: %r", got, back)
    want = exact(fx, fy)
    # the closed form is a difference of numbers near 2 pi
    tol = 1e-7 * want + 1e-13
    check(abs(got - want) <= tol, "F/%r F/%r: %r sr instead of %r", fx, fy, got, want)
    if fx == fy:
        cone = 2 * np.pi * (1 - np.cos(np.arctan(0.5 / fx)))
        check(abs(got - cone) <= 1e-7 * cone + 1e-13, "F/%r: %r sr instead of the cone's %r", fx, got, cone)
    check(0 < got < 2 * np.pi, "solid angle of %r", got)
    # a wider aperture subtends more
    wider = value(sut("the solid angle", lambda: OmegaPix(fx * 0.99, fy)))
    check(wider > got, "F/%r subtends %r, F/%r only %r", fx, got, fx * 0.99, wider)
    return {"nontrivial": fx != fy, "labels": ["x slower" if fx > fy else "y slower" if fy > fx else "circular"]}


def exact(fx, fy):
    """direct integral, subdivided until it is stable for thin ellipses"""
    a, b = 0.5 / fx, 0.5 / fy
    n, last = 512, None
    while n <= 65536:
        phi = (np.arange(n) + 0.5) * 2 * np.pi / n
        r2 = 1.0 / ((np.cos(phi) / a) ** 2 + (np.sin(phi) / b) ** 2)
        s = np.sqrt(1 + r2)
        v = float(np.sum(r2 / (s * (1 + s))) * 2 * np.pi / n)
        if last is not None and abs(v - last) <= 1e-12 * v:
            return v
        last, n = v, 2 * n
    return v


SUBS = [Sub("solid angle", gen, run, 3000, 40000)]
