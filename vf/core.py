"""Property-based testing runner (see DESIGN.md).

A property is a list of Tests. A Test couples a Hypothesis strategy, which
produces JSON-able case descriptions, with a function that builds the case,
drives the code under test and compares against an oracle. Everything random
comes out of the strategy, so a case description replays without Hypothesis.
"""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

REPO_SRC = "/repo/src"
SHRINK_SECONDS = 25.
# Multiples of the number of cases per test, for normal and for fine grids or expensive tests
QUICK_FACTOR = 4
QUICK_FACTOR_SLOW = 2
TASK_SECONDS = {"quick": 700., "thorough": 6 * 3600.}


class Violation(Exception):
    """The property does not hold for the case."""


# -- Case-side interface ------------------------------------------------------

class _Current:
    labels = ()
    nontrivial = True
    margins = {}

CUR = _Current()


def label(*names):
    """Classify the current case."""
    CUR.labels.update(str(n) for n in names if n)

def trivial(cond=True):
    """Mark the current case as not exercising the property."""
    if cond:
        CUR.nontrivial = False

def fail(msg):
    raise Violation(msg)

def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def arr(x, what="value", shape=None, kind="fiu"):
    """Turn a result of the code under test into an array, or fail."""
    import numpy as np
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation(f"{what}: {type(x).__name__} is not an array: {e}")
    if a.dtype == object and kind != "O":
        try:
            a = a.astype(float)
        except Exception:
            raise Violation(f"{what}: {type(x).__name__} result is not numeric")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if a.dtype.kind not in kind and kind != "O":
        raise Violation(f"{what}: dtype {a.dtype} not expected")
    return a


def close(got, want, tol, what, kind="fiub"):
    """Compare to a reference with an absolute tolerance (number or array)."""
    import numpy as np
    want = np.asarray(want)
    got = arr(got, what, want.shape, kind=kind)
    bad = ~np.isfinite(want.astype(complex))
    if bad.any():
        # Infinities have to coincide
        same = (got == want) | ~bad
        if not same.all():
            i = tuple(int(_) for _ in np.argwhere(~same)[0])
            raise Violation(f"{what}: {got[i]} instead of {want[i]} at {i}")
        got = np.where(bad, 0, got)
        want = np.where(bad, 0, want)
    with np.errstate(all="ignore"):
        err = np.abs(got.astype(complex) - want.astype(complex))
        # Single precision is not accurate for the smallest numbers
        ratio = err / np.where(np.asarray(tol) > 0., np.maximum(tol, 1e-30), tol)
        ratio = np.where(err == 0., 0., ratio)
    if ratio.size == 0:
        return
    worst = np.max(np.where(np.isnan(ratio), np.inf, ratio))
    if worst > 1.:
        i = np.unravel_index(np.argmax(np.where(np.isnan(ratio), np.inf, ratio)), ratio.shape)
        i = tuple(int(_) for _ in i)
        t = np.broadcast_to(np.asarray(tol), ratio.shape)[i]
        raise Violation(f"{what}: {got[i]} instead of {want[i]} at {i} (tolerance {t:.3g})")
    key = what.split(" [")[0]
    if worst > CUR.margins.get(key, 0.):
        CUR.margins[key] = float(worst)


def refused(what, func, *args, **kwargs):
    """The call has to raise an (any) exception."""
    try:
        res = func(*args, **kwargs)
    except Violation:
        raise
    except Exception:
        return
    raise Violation(f"{what}: accepted, returned {type(res).__name__}")


class Guard:
    """Detects modifications of arrays."""
    def __init__(self, *arrays, **named):
        import numpy as np
        self._items = [(f"argument {i}", a, np.array(a, copy=True)) for i, a in enumerate(arrays)]
        self._items += [(k, a, np.array(a, copy=True)) for k, a in named.items()]

    def check(self, what):
        import numpy as np
        for name, a, copy in self._items:
            same = a.shape == copy.shape and a.dtype == copy.dtype and \
                np.array_equal(a, copy, equal_nan=a.dtype.kind in "fc")
            if not same:
                raise Violation(f"{what}: modified its input ({name})")


# Spacings of 2.5 (default), 2, 1.875, 1.5, 1.25 and 1 degree, odd and even numbers of rows
FINE = (72, 90, 96, 120, 144, 180, 181)
# And of 0.75 and 0.5 degree, where no transforms are needed
FINER = FINE + (240, 360)

def refine(strategy, sizes):
    """Replace the size of the grid in case descriptions"""
    from hypothesis import strategies as st
    def replaced(x, n):
        if isinstance(x, list):
            return [replaced(y, n) for y in x]
        if not isinstance(x, dict):
            return x
        x = {k: replaced(v, n) for k, v in x.items()}
        if isinstance(x.get("g"), dict) and "n" in x["g"]:
            x["g"] = {**x["g"], "n": n}
        return x
    def put(pair):
        case, n = pair
        if isinstance(case.get("n"), int):
            return {**case, "n": n}
        return replaced(case, n)
    return st.tuples(strategy, st.sampled_from(list(sizes))).map(put)

# -- Tests --------------------------------------------------------------------

class Test:
    def __init__(self, name, strategy, func, quick, thorough=None, rule="", shards=None, slow=False):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else 30 * quick
        self.rule = rule or (func.__doc__ or "").strip()
        self.shards = shards
        self.slow = slow

    def count(self, tier):
        factor = QUICK_FACTOR_SLOW if self.slow else QUICK_FACTOR
        return factor * self.quick if tier == "quick" else self.thorough

    def nshards(self, tier):
        if self.shards is not None:
            return self.shards
        return max(1, min(8, self.count(tier) // 60))


class Suite:
    def __init__(self, prop, slow=False):
        self.prop = prop
        self.slow = slow
        self.tests = []

    def test(self, strategy, quick, thorough=None, shards=None, name=None, rule="", fine=None):
        """Register a test with the number of cases per tier. fine: (number of cases, sizes) of additional cases, where the
        grid of a generated case is replaced by one as fine as those of actual applications."""
        def deco(f):
            self.tests.append(Test(name or f.__name__, strategy, f, quick, thorough, rule, shards, slow=self.slow))
            if fine:
                count, sizes = fine
                rule_fine = f"As {name or f.__name__}, on grids with {sizes} latitude intervals."
                self.tests.append(Test((name or f.__name__) + "_fine", refine(strategy, sizes), f, count, 20 * count, rule_fine,
                    shards=max(1, min(8, count // 2)), slow=True))
            return f
        return deco

    def by_name(self, name):
        for t in self.tests:
            if t.name == name:
                return t
        raise KeyError(name)


# Exceptions a user program gets when a returned value is not what it should be
_USE_ERRORS = (TypeError, ValueError, AttributeError, LookupError, AssertionError,
        ArithmeticError, RuntimeError, NotImplementedError)


def run_case(test, case):
    """Evaluate one case. Returns (violation message | None, labels, nontrivial)."""
    import warnings
    CUR.labels = set()
    CUR.nontrivial = True
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test.func(case)
    except Violation as e:
        return str(e), CUR.labels, True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if f.filename.startswith(REPO_SRC)]
        if in_repo:
            f = in_repo[-1]
            where = f"{os.path.basename(f.filename)}:{f.name}"
            return f"unexpected {type(e).__name__} from {where}: {str(e)[:300]}", CUR.labels, True
        if isinstance(e, _USE_ERRORS):
            f = [f for f in tb][-1]
            return (f"unusable result, {type(e).__name__} in {os.path.basename(f.filename)}:"
                    f"{f.lineno}: {str(e)[:300]}"), CUR.labels, True
        raise
    return None, CUR.labels, CUR.nontrivial


def seed_for(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rarely_mutate(share=0.15):
    """Hypothesis follows every generated case with up to five variations of it that repeat some of its parts. Let only some of the
    cases have variations, there is more to see in independent ones."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        original = ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(original, "rare", False):
        return
    def generate_mutations_from(self, data):
        if self.random.random() < share:
            original(self, data)
    generate_mutations_from.rare = True
    ConjectureRunner.generate_mutations_from = generate_mutations_from


def dumps(case):
    return json.dumps(case, sort_keys=True)


def run_task(test, seed, n):
    """Generate n cases for one test. Returns a result dictionary."""
    import hypothesis
    import hypothesis.errors as he
    from hypothesis import HealthCheck, Phase, given, settings

    rarely_mutate()
    res = dict(evaluations=0, distinct=set(), labels={}, samples=[], violation=None,
            margins={}, error=None)
    CUR.margins = res["margins"]
    history = []
    failing = {}
    state = dict(deadline=None)

    class Failed(Exception):
        pass

    def body(case):
        msg = evaluate(case)
        if msg is not None:
            # Hypothesis tells failures apart by the location
            raise Failed(msg)

    def evaluate(case):
        key = dumps(case)
        if state["deadline"] is not None:
            # Only shrinking from here on
            if key in failing:
                state["last"] = key
                return failing[key]
            if time.monotonic() > state["deadline"]:
                return
        else:
            history.append(key)
        msg, labels, nontrivial = run_case(test, json.loads(key))
        if msg is not None:
            failing[key] = msg
            if state["deadline"] is None:
                state["deadline"] = time.monotonic() + SHRINK_SECONDS
            state["last"] = key
            return msg
        if state["deadline"] is None:
            res["evaluations"] += 1
            for l in labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if nontrivial:
                h = hashlib.sha1(key.encode()).digest()[:8]
                if h not in res["distinct"]:
                    res["distinct"].add(h)
                    # First ones are the simplest, sample later ones
                    if len(res["samples"]) < 3 and res["evaluations"] in (3, 11, 29, 47):
                        res["samples"].append(key)

    prop = given(test.strategy)(body)
    prop = settings(max_examples=n, database=None, deadline=None,
            phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), print_blob=False,
            verbosity=hypothesis.Verbosity.quiet)(prop)
    prop = hypothesis.seed(seed)(prop)
    try:
        prop()
    except Failed as e:
        key = state["last"]
        res["violation"] = dict(test=test.name, message=failing[key], cases=[json.loads(key)])
    except (he.Flaky, getattr(he, "FlakyFailure", he.Flaky)) as e:
        # Fails depending on what ran before
        res["violation"] = dict(test=test.name, cases=[json.loads(k) for k in history],
            message="depends on earlier calls in the process: " + next(iter(failing.values())))
    except Exception as e:
        if failing:
            key = state["last"]
            res["violation"] = dict(test=test.name, message=failing[key], cases=[json.loads(key)])
        else:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    # A shrunk case that does not fail by itself needs its history
    v = res["violation"]
    if v is not None and len(v["cases"]) == 1:
        if not fails_alone(test, v["cases"][0]):
            first = next(iter(failing))
            v["cases"] = [json.loads(k) for k in history]
            v["message"] = "depends on earlier calls in the process: " + failing[first]
    return res


def fails_alone(test, case):
    """Evaluate a case in a fresh process"""
    return _in_child(_fails_alone, test, case)

def _fails_alone(test, case):
    return run_case(test, case)[0] is not None

def _in_child(func, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            ok = func(*args)
        except BaseException:
            ok = True
        os.write(w, b"1" if ok else b"0")
        os._exit(0)
    os.close(w)
    out = os.read(r, 1)
    os.close(r)
    os.waitpid(pid, 0)
    return out != b"0"


def _child(conn, test, seed, n):
    try:
        res = run_task(test, seed, n)
    except BaseException as e:
        res = dict(error="".join(traceback.format_exception(e))[-3000:], violation=None,
                evaluations=0, distinct=set(), labels={}, samples=[], margins={})
    try:
        conn.send(res)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def run_parallel(tasks, jobs, timeout):
    """Run (test, seed, n) tasks in separate forked processes."""
    ctx = multiprocessing.get_context("fork")
    results = [None] * len(tasks)
    pending = list(range(len(tasks)))
    running = {}
    start = time.monotonic()
    stop = False
    while running or (pending and not stop):
        while pending and len(running) < jobs and not stop:
            i = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, *tasks[i]))
            p.start()
            w.close()
            running[r] = (i, p)
        for r in multiprocessing.connection.wait(list(running), timeout=1.0):
            i, p = running.pop(r)
            try:
                results[i] = r.recv()
            except EOFError:
                results[i] = dict(error=f"task process of {tasks[i][0].name} died", violation=None,
                        evaluations=0, distinct=set(), labels={}, samples=[], margins={})
            r.close()
            p.join()
            if results[i]["violation"] is not None:
                stop = True
        if stop or time.monotonic() - start > timeout:
            for r, (i, p) in running.items():
                p.kill()
                p.join()
                if not stop:
                    results[i] = dict(error=f"task {tasks[i][0].name} timed out", violation=None,
                        evaluations=0, distinct=set(), labels={}, samples=[], margins={})
            running.clear()
            break
    return results
