"""Runner: drives the sub-checks of one property with Hypothesis over several
processes, reports the shrunk failure as a replay file, writes the evidence."""
import errno
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

from . import env


class Violation(Exception):
    """The code under test broke the property on this case."""


class Reject(Exception):
    """The case is outside the domain (or a discrete decision of the
    specification is numerically undecided on it): not evaluated."""


class HarnessError(Exception):
    pass


class _Hang(BaseException):
    pass


CASE_LIMIT = 150  # seconds; a case takes less than a second


class Sub:
    """One executable check of a property.

    gen(tier) -> hypothesis strategy of JSON-able cases
    run(case) -> dict(nontrivial=bool, labels=[...]); raises Violation/Reject
    """

    def __init__(self, name, gen, run, quick, thorough=None, fixed=()):
        self.name = name
        self.gen = gen
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.fixed = list(fixed)


def one_after_the_other(subs, quick, thorough=None):
    """Cases of the given checks, one after the other in one process and, as
    `pipe.folder` gives the same folder to all, with files of the same names:
    what a case gives does not depend on those before."""
    from hypothesis import strategies as st

    subs = list(subs)
    by = {s.name: s for s in subs}

    def gen(tier):
        one = st.one_of(*[st.tuples(st.just(s.name), s.gen(tier)) for s in subs])
        return st.lists(one, min_size=2, max_size=4)

    def run(case):
        ok = 0
        for name, c in case:
            try:
                ok += bool(by[name].run(c).get("nontrivial", True))
            except Reject:
                pass
        return {"nontrivial": ok > 1, "labels": ["%d cases" % len(case)]}

    return Sub("one after the other", gen, run, quick, thorough)


def sut(what, fn, *a, **k):
    """Call the code under test on an input it has to accept."""
    try:
        with quiet():
            return fn(*a, **k)
    except (Violation, Reject):
        raise
    except SystemExit as e:
        raise Violation("%s exits (%r) on a valid input" % (what, e.code))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ""
        for fr in tb:
            if env.REPO in fr.filename:
                where = "%s:%s" % (os.path.basename(fr.filename), fr.name)
        raise Violation(
            "%s raises %s(%s) on a valid input [%s]"
            % (what, type(e).__name__, str(e)[:200], where)
        )


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def key_of(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()


# --------------------------------------------------------------------------
# known findings

KNOWN = os.path.join(env.VERIF, "known_findings.json")


def known_findings(prop):
    """Entries {"property","sub","match","what"}; `match` is a regular
    expression over the violation message, so that a different violation of
    the same property is still reported."""
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == prop]


def match_known(known, sub, msg):
    for k in known:
        if k.get("sub") in (None, sub) and re.search(k["match"], msg):
            return k
    return None


# --------------------------------------------------------------------------


def execute(sub, case):
    """Run one case; classify what comes out. Returns (status, info)."""

    def ring(*_):
        raise _Hang()

    old = signal.signal(signal.SIGALRM, ring)
    # rings again, should the code under test swallow the first one
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 5)
    try:
        return _execute(sub, case)
    except _Hang:
        return "violation", {"msg": "does not end within %d s" % CASE_LIMIT, "hang": True}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _execute(sub, case):
    try:
        info = sub.run(case) or {}
        return "ok", info
    except Reject as e:
        return "reject", {"why": str(e)}
    except Violation as e:
        return "violation", {"msg": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(
            os.path.realpath(fr.filename).startswith(
                os.path.realpath(env.REPO) + os.sep
            )
            for fr in tb
        ):
            return "violation", {
                "msg": "raises %s(%s) on a valid input"
                % (type(e).__name__, str(e)[:200])
            }
        if not isinstance(e, (MemoryError, NameError, ImportError)) and not (
            isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE)
        ):
            # what came out has not the form every result must have (an
            # attribute, a column, a unit is missing): the check could not
            # even read it
            return "violation", {
                "msg": "what comes out cannot be read: %s(%s) [%s:%d]"
                % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno)
            }
        return "error", {"msg": traceback.format_exc()}


class _Stop(Exception):
    pass


def _worker(modname, subname, n, seed, tier, prop, q):
    try:
        q.put(_work(modname, subname, n, seed, tier, prop))
    except BaseException:
        q.put({"sub": subname, "error": traceback.format_exc()})


def _work(modname, subname, n, seed, tier, prop):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 120
    mod = importlib.import_module(modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    known = known_findings(prop)
    res = {
        "sub": subname,
        "evals": 0,
        "rejected": 0,
        "keys": set(),
        "labels": {},
        "samples": [],
        "rejects": {},
        "fail": None,
        "known": {},
        "error": None,
    }
    st = {"failing": False}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        phases=(Phase.generate, Phase.target, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(sub.gen(tier))
    def test(case):
        status, info = execute(sub, case)
        if not st["failing"]:
            if status == "reject":
                res["rejected"] += 1
                w = info["why"].split(":")[0][:60]
                res["rejects"][w] = res["rejects"].get(w, 0) + 1
            else:
                res["evals"] += 1
        if status == "reject":
            hypothesis.reject()
        if status == "error":
            res["error"] = info["msg"] + "\ncase: " + json.dumps(case)[:3000]
            raise _Stop
        if status == "violation":
            k = match_known(known, sub.name, info["msg"])
            if k is not None:
                res["known"][k["what"]] = info["msg"]
                return
            st["failing"] = True
            res["fail"] = {"case": case, "msg": info["msg"]}
            if info.get("hang"):
                # no time to look for a smaller one
                raise _Stop
            raise AssertionError("violation")
        if not st["failing"]:
            for l in info.get("labels", ()):
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if info.get("nontrivial", True):
                res["keys"].add(key_of(case))
                if len(res["samples"]) < 2:
                    s = json.dumps(case, default=str)
                    res["samples"].append(
                        case if len(s) < 2500 else s[:2500] + "..."
                    )

    try:
        with quiet():
            test()
    except (AssertionError, _Stop):
        pass
    except hypothesis.errors.Flaky:
        # the case failed once and not again: outcome depends on something
        # other than the input; report it as it was seen
        pass
    except hypothesis.errors.Unsatisfiable as e:
        res["error"] = "generator produced no valid case: %s" % e
    return res


def run_property(prop, modname, tier, seed, replay=None, only=None):
    t0 = time.time()
    mod = importlib.import_module(modname)
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    known = known_findings(prop)
    rdir = os.path.join(env.VERIF, "replays")
    if replay:
        with open(replay) as f:
            r = json.load(f)
        sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
        status, info = execute(sub, r["case"])
        print("replay:", status, json.dumps(info, default=str)[:2000])
        if status == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0 if status in ("ok", "reject") else 2

    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    jobs = []
    for si, s in enumerate(subs):
        total = s.quick if tier == "quick" else s.thorough
        k = max(1, min(nproc, total // 5 or 1))
        per = -(-total // k)
        for i in range(k):
            jobs.append((s.name, per, (seed * 1000003 + si * 1009 + i) & 0x7FFFFFFF))
    # fixed regression cases first, in process
    results = []
    for s in subs:
        for case in s.fixed:
            status, info = execute(s, case)
            r = {"sub": s.name, "evals": 1, "rejected": 0, "keys": set(),
                 "labels": {"fixed regression case": 1}, "samples": [], "rejects": {}, "fail": None,
                 "known": {}, "error": None}
            if status == "violation":
                kf = match_known(known, s.name, info["msg"])
                if kf:
                    r["known"][kf["what"]] = info["msg"]
                else:
                    r["fail"] = {"case": case, "msg": info["msg"]}
            elif status == "error":
                r["error"] = info["msg"]
            elif status == "ok" and info.get("nontrivial", True):
                r["keys"].add(key_of(case))
            results.append(r)

    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pending = list(jobs)
    running = {}
    failed = any(r["fail"] for r in results)
    while (pending and not failed) or running:
        while pending and len(running) < nproc and not failed:
            name, per, sd = pending.pop(0)
            p = ctx.Process(
                target=_worker, args=(modname, name, per, sd, tier, prop, q)
            )
            p.start()
            running[p.pid] = (p, name)
        try:
            r = q.get(timeout=1.0)
            results.append(r)
            if r.get("fail"):
                failed = True
        except Exception:
            pass
        for pid in list(running):
            p, name = running[pid]
            if not p.is_alive():
                p.join()
                del running[pid]
                if p.exitcode not in (0,):
                    results.append(
                        {"sub": name, "error": "worker died, exit code %s" % p.exitcode}
                    )
    while True:
        try:
            results.append(q.get(timeout=0.2))
        except Exception:
            break

    evals = sum(r.get("evals", 0) for r in results)
    keys = set()
    per_sub, samples, knowns, errors, fails = {}, [], {}, [], []
    for r in results:
        if r.get("error"):
            errors.append((r["sub"], r["error"]))
        if r.get("fail"):
            fails.append(r)
        knowns.update(r.get("known", {}))
        d = per_sub.setdefault(
            r["sub"],
            {"evaluations": 0, "distinct_nontrivial": 0, "rejected": 0,
             "labels": {}, "reject_reasons": {}, "_k": set()},
        )
        d["evaluations"] += r.get("evals", 0)
        d["rejected"] += r.get("rejected", 0)
        d["_k"] |= r.get("keys", set())
        for k, v in r.get("labels", {}).items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for k, v in r.get("rejects", {}).items():
            d["reject_reasons"][k] = d["reject_reasons"].get(k, 0) + v
        for k in r.get("keys", set()):
            keys.add((r["sub"], k))
        for c in r.get("samples", []):
            if sum(1 for x in samples if x["sub"] == r["sub"]) < 2:
                samples.append({"sub": r["sub"], "case": c})
    for d in per_sub.values():
        d["distinct_nontrivial"] = len(d.pop("_k"))
        d["labels"] = dict(sorted(d["labels"].items(), key=lambda x: -x[1])[:40])

    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples,
            "per_subcheck": per_sub,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1, default=str)
    while len(text) > 60000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
        text = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(text)

    for what in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for name, d in per_sub.items():
        print(
            "  %-28s evaluated %5d  nontrivial %5d  rejected %4d"
            % (name, d["evaluations"], d["distinct_nontrivial"], d["rejected"])
        )
    if fails:
        fails.sort(key=lambda r: len(json.dumps(r["fail"]["case"], default=str)))
        r = fails[0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s.json" % (prop, r["sub"]))
        with open(path, "w") as f:
            json.dump(
                {"property": prop, "sub": r["sub"], "msg": r["fail"]["msg"],
                 "case": r["fail"]["case"], "seed": seed, "tier": tier},
                f, indent=1, default=str,
            )
        print("violated [%s]: %s" % (r["sub"], r["fail"]["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, env.VERIF)))
        return 1
    if errors:
        for n, e in errors[:3]:
            print("harness error in %s:\n%s" % (n, e), file=sys.stderr)
        return 2
    if evals == 0 or not keys:
        print("harness error: nothing non-trivial was evaluated", file=sys.stderr)
        return 2
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (prop, evals, len(keys), time.time() - t0))
    return 0
