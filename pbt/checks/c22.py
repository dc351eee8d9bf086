import inspect

from hypothesis import strategies as st

from .. import pipe
from ..core import Sub, check, quiet, sut

RULE = (
    "generated task classes are called in a generated order, also from within "
    "each other; non-trivial with at least two calls. Every task of the package "
    "is called with an input it does not declare"
)

KEYS = ["target", "payload", "x", "output", "wl_range", "Plot", "n_thread", "name"]
VALUES = st.none() | st.integers(-5, 5) | st.sampled_from(["", "a", 0.5, True, False]) | st.lists(st.integers(0, 3), max_size=2)


@st.composite
def case(draw, tier):
    nc = draw(st.integers(1, 3))
    classes = []
    for _ in range(nc):
        ks = draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=4))
        classes.append([[k, draw(VALUES), draw(st.booleans())] for k in ks])
    # the class each one derives from, and adds its inputs to
    base = [draw(st.none() | st.integers(0, i - 1)) if i else None for i in range(nc)]
    calls = []
    for _ in range(draw(st.integers(1, 6))):
        i = draw(st.integers(0, nc - 1))
        ks = [k for k, _, _ in inputs(classes, base, i)]
        given = {k: draw(VALUES) for k in ks if draw(st.booleans())}
        c = {"cls": i, "new": draw(st.booleans()), "given": given, "nest": draw(st.none() | st.integers(0, nc - 1)),
             "silent": draw(st.integers(0, 4)) == 4}
        if draw(st.integers(0, 3)) == 3:
            c["unknown"] = draw(st.sampled_from([k for k in KEYS + ["targets", "X"] if k not in ks]))
        calls.append(c)
    return {"classes": classes, "base": base, "calls": calls}


def inputs(classes, base, i):
    """all the inputs of a class; the last definition of each is in force"""
    d = {}
    if base[i] is not None:
        d = {p[0]: p for p in inputs(classes, base, base[i])}
    d.update({p[0]: p for p in classes[i]})
    return list(d.values())


def run(c):
    from exorad.tasks.task import Task

    done = []

    every = [inputs(c["classes"], c["base"], i) for i in range(len(c["classes"]))]
    cls = []

    def make(n, params):
        base = Task if c["base"][n] is None else cls[c["base"][n]]

        class T(base):
            def __init__(self):
                super().__init__()
                for k, v, with_default in params:
                    if with_default:
                        self.addTaskParam(k, "about " + k, v)
                    else:
                        self.addTaskParam(k, "about " + k)

            def execute(self):
                done.append(n)
                if self.inner is not None:
                    self.inner()
                if not self.silent:
                    self.set_output([n, {k: self.get_task_param(k) for k, _, _ in every[n]}])

        T.inner = None
        T.silent = False
        T.__name__ = "T%d" % n
        return T

    for i, p in enumerate(c["classes"]):
        cls.append(make(i, p))
    inst = [k() for k in cls]
    for call in c["calls"]:
        i = call["cls"]
        t = cls[i]() if call["new"] else inst[i]
        t.inner = None
        t.silent = call["silent"]
        j = call["nest"]
        params = every[i]
        if j is not None:
            t.inner = lambda: cls[j]()()
        if "unknown" in call:
            before = list(done)
            try:
                with quiet():
                    t(**dict(call["given"], **{call["unknown"]: 1}))
            except ValueError:
                pass
            else:
                check(False, "an input called %s is accepted", call["unknown"])
            check(done == before, "a task with the wrong inputs is executed")
            continue
        got = sut("calling the task", lambda: t(**call["given"]))
        want = {k: call["given"].get(k, v if d else None) if k in call["given"] else (v if d else None) for k, v, d in params}
        if call["silent"]:
            check(got is None, "a call that sets no output returns %s", got)
            check(done[-1] == i or t.inner, "another task is executed")
            continue
        check(got == [i, want], "the task works on %s instead of %s", got, [i, want])
        check(done[-1] == i or t.inner, "another task is executed")
    return {"nontrivial": len(c["calls"]) > 1, "labels": ["wrong input"] * any("unknown" in x for x in c["calls"]) + ["derived"] * any(b is not None for b in c["base"])}


def tasks():
    from exorad.tasks.task import Task
    import exorad.tasks as T

    return sorted(n for n, k in vars(T).items() if inspect.isclass(k) and issubclass(k, Task) and k is not Task)


@st.composite
def unknown_case(draw, tier):
    return {
        "task": draw(st.sampled_from(tasks())),
        "key": draw(st.sampled_from(["nothing", "Target", "targetList", "payloadfile", "xyz", "", "wl range"])),
        "others": draw(st.booleans()),
    }


def unknown_run(c):
    T = pipe.tasks()
    t = getattr(T, c["task"])()
    kw = {c["key"]: None}
    if c["others"]:
        names = sorted(t._task_params or {}) if hasattr(t, "_task_params") else []
        kw = {**{n: None for n in names}, **kw}
    try:
        with quiet():
            r = t(**kw)
    except ValueError:
        return {"nontrivial": True, "labels": [c["task"]]}
    except Exception as e:
        check(False, "%s does not refuse an input called %r: %s(%s)", c["task"], c["key"], type(e).__name__, e)
    check(False, "%s accepts an input called %r and returns %r", c["task"], c["key"], r)


SUBS = [
    Sub("generated tasks", lambda tier: case(tier), run, 400, 6000),
    Sub("unknown inputs", lambda tier: unknown_case(tier), unknown_run, 200, 2000),
]
