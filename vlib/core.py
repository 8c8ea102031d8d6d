"""Check machinery: parts, workers, counting, shrinking to replay files, evidence."""
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


class Hang(BaseException):
    """A case did not finish within CASE_SECONDS; passes through every `except Exception`."""


CASE_SECONDS = 100  # cases take milliseconds, a few seconds at most


class time_limit:
    def __enter__(self):
        def handler(signum, frame):
            raise Hang()

        signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class sut:
    """Context manager: an exception escaping the code under test is a violation."""

    def __init__(self, what, allow=()):
        self.what, self.allow = what, allow

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, (Violation, HarnessError)):
            return False
        if self.allow and issubclass(et, self.allow):
            return False
        if et.__module__.startswith("hypothesis"):
            return False
        last = traceback.extract_tb(tb)[-1]
        where = "%s:%s" % (os.path.basename(last.filename), last.name)
        raise Violation("%s raised %s: %s (at %s)" % (self.what, et.__name__, str(ev)[:300], where)) from ev


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def jdefault(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


def jdump(o):
    return json.dumps(o, default=jdefault, sort_keys=True)


class Ctx:
    """Per-part counters, available to the body of a part."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.evaluations = 0
        self.labels = {}
        self.digests = set()
        self.samples = []
        self.known = {}
        self._case = None
        self.frozen = False  # set while shrinking

    def event(self, label, n=1):
        if not self.frozen:
            self.labels[label] = self.labels.get(label, 0) + n

    def nontrivial(self, tag=None):
        """The current case is non-trivial by the part's rule."""
        if self.frozen or self._case is None:
            return
        s = jdump(self._case)
        d = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
        if d not in self.digests:
            self.digests.add(d)
            if len(self.samples) < 2 and len(self.digests) % 7 == 1:
                self.samples.append(json.loads(s) if len(s) < 6000 else s[:3000])
        if tag:
            self.event(tag)

    def known_finding(self, key, text):
        self.known[key] = text


class Part:
    """One generated-input search: `strategy` makes plain-data cases, `body(ctx, case)` judges one."""

    def __init__(self, name, strategy, body, quick, thorough, rule, shards=None):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards


def stable_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=6).digest(), "big")


def judge(part, ctx, case):
    """Run the body on plain data; an exception that escapes the code under test is a violation."""
    from .boot import REPO

    try:
        part.body(ctx, json.loads(jdump(case)))
    except (Violation, HarnessError):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        code = os.path.join(os.path.realpath(REPO), "gym_anm") + os.sep
        fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(code)]
        if not fr:
            raise
        raise Violation("%s: %s (at %s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(fr[-1].filename), fr[-1].name)) from e


def run_part(prop, part, tier, seed, shard, nshards, deadline):
    """Run one shard of one part; returns a result dict."""
    total = part.quick if tier == "quick" else part.thorough
    n = max(1, math.ceil(total / nshards))
    ctx = Ctx(tier, seed)
    unconfirmed = []
    for attempt in range(3):
        state = {"fail": None, "skipped": 0, "harness": None, "hang": None}
        err = search(prop, part, ctx, state, n, stable_seed(seed, prop, part.name, shard, *([attempt] if attempt else [])), deadline)
        if err:
            return {"error": err, "part": part.name}
        res = {
            "part": part.name, "evaluations": ctx.evaluations, "labels": ctx.labels, "digests": sorted(ctx.digests),
            "rule": part.rule, "samples": ctx.samples, "known": ctx.known, "skipped": state["skipped"], "fail": None,
        }
        fail = lambda case, msg: {"property": prop, "part": part.name, "case": case, "message": msg}
        if unconfirmed:
            res["unconfirmed"] = unconfirmed
        if state["hang"] is not None:
            case = state["hang"]
            try:
                with time_limit():
                    judge(part, Ctx(tier, seed), case)
            except Hang:
                res["fail"] = fail(case, "no answer within %d s, twice" % CASE_SECONDS)
            except Violation as e:
                res["fail"] = fail(case, str(e))
            return res
        if state["fail"] is None:
            return res
        case, msg = state["fail"]
        for _ in range(5):
            try:
                judge(part, Ctx(tier, seed), case)
            except Violation as e:
                res["fail"] = fail(case, str(e))
                return res
        # A verdict that five plain re-runs do not confirm (numerical solver noise, or state shared between cases)
        # is not reported on its own; the search goes on.
        unconfirmed.append({"message": msg[:500], "case": jdump(case)[:2000]})
        ctx.labels["unconfirmed"] = len(unconfirmed)
        ctx.frozen = False
    # Three different cases of one shard fail, none of them on its own: not noise.
    res["fail"] = fail(case, msg + " (depends on the cases run before; %d different cases of this worker failed)" % len(unconfirmed))
    return res


def search(prop, part, ctx, state, n, seed, deadline):
    """One generated-input search; fills `state`, returns the text of an error of the check itself."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    def run(case):
        if time.time() > deadline and state["fail"] is None:
            state["skipped"] += 1
            return
        ctx._case = case
        if not ctx.frozen:
            ctx.evaluations += 1
        try:
            with time_limit():
                judge(part, ctx, case)
        except Hang:
            state["hang"] = json.loads(jdump(case))
            raise
        except Violation as e:
            ctx.frozen = True
            state["fail"] = (json.loads(jdump(case)), str(e))
            raise
        except (hypothesis.errors.HypothesisException, hypothesis.errors.UnsatisfiedAssumption):
            raise
        except Exception:
            state["harness"] = traceback.format_exc() + "\ncase: " + jdump(case)[:4000]
            raise

    test = given(part.strategy)(run)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=(Phase.explicit, Phase.generate, Phase.shrink),
    )(test)
    try:
        test()
    except (Violation, Hang):
        pass
    except Exception as e:
        if state["fail"] is None:
            return state["harness"] or traceback.format_exc()
        if not type(e).__module__.startswith("hypothesis") and not isinstance(e, BaseExceptionGroup):
            return state["harness"] or traceback.format_exc()
        # Flaky: reported only when a plain replay reproduces it.
    return None
