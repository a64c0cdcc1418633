"""Parts, violations and the worker loop (one worker = one shard of one part in its own process)."""
import contextlib
import hashlib
import json
import os
import sys
import threading
import time
import traceback

from . import boot

_mono = time.monotonic


class Violation(AssertionError):
    """The property is broken on this case. `sig` identifies the failure class (matched with known findings)."""

    def __init__(self, msg, sig="", detail=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig
        self.detail = detail


class HarnessError(Exception):
    """The harness itself is wrong; never reported as a violation."""


class InjectedFault(Exception):
    """A failure the harness injects into plugins, services and values."""


class InjectedBaseFault(BaseException):
    """As InjectedFault, but not an `Exception`."""


def check(cond, msg, *args, sig=""):
    if not cond:
        raise Violation(msg % args if args else msg, sig)


def from_agent(exc):
    """True when the exception travelled through agent code."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(boot.DEEP_DIR):
            return True
        tb = tb.tb_next
    return False


def fmt_exc(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]


@contextlib.contextmanager
def agent_must_not_raise(what, sig=""):
    """Anything raised out of the agent in this block is a violation."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except BaseException as e:  # noqa: B902
        if from_agent(e):
            raise Violation("%s raised %s: %s\n%s" % (what, type(e).__name__, safe_str(e), fmt_exc(e)), sig) from None
        raise


def safe_str(o, n=300):
    try:
        return str(o)[:n]
    except BaseException as e:  # noqa: B902
        return "<unprintable %s>" % type(e).__name__


class Part:
    """One generated check of a property.

    name      unique in the property
    strategy  callable returning a hypothesis strategy of JSON-able cases (or None: only `cases`)
    run       callable(case) -> info dict; raises Violation. info may hold `nontrivial` (bool) and `labels` (list)
    quick / thorough   numbers of generated cases
    cases     fixed cases that always run first (regressions, corner cases written out)
    exhaustive_cases   callable(tier) -> iterable of cases to enumerate (no generation)
    case_timeout  seconds after which a case counts as "does not terminate"
    hang_is_violation  whether such a case is a violation (else a harness error)
    shards    how many processes share the generated cases
    """

    def __init__(self, name, run, strategy=None, quick=100, thorough=None, cases=(), rule="", exhaustive_cases=None,
                 case_timeout=120, hang_is_violation=True, shards=1, thorough_shards=None, setup=None,
                 preload_deep=True, clock=True, budget=150, thorough_budget=1500, flaky_replays=1):
        self.name = name
        self.run = run
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.cases = list(cases)
        self.rule = rule
        self.exhaustive_cases = exhaustive_cases
        self.case_timeout = case_timeout
        self.hang_is_violation = hang_is_violation
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 4)
        self.setup = setup
        self.preload_deep = preload_deep
        self.clock = clock
        self.budget = budget
        self.thorough_budget = thorough_budget
        self.flaky_replays = flaky_replays


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode("utf-8", "surrogatepass")).hexdigest()[:16]


class _Stop(KeyboardInterrupt):
    """Leaves hypothesis at once (shrinking budget used up)."""


class Worker:
    def __init__(self, prop, part, shard, nshards, tier, seed, known, out):
        self.prop, self.part, self.shard, self.nshards = prop, part, shard, nshards
        self.tier, self.seed, self.known, self.out = tier, seed, known, out
        self.evals = 0
        self.nontrivial = set()
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.fail = None  # (len, case, msg, sig)
        self.known_hits = {}
        self.first_fail_t = None
        self.current = None
        self.slowest = (0, None)
        self.deadline_hit = False
        self.lock = threading.Lock()

    # -- watchdog -----------------------------------------------------------------------------------------------
    def _watch(self):
        while True:
            time.sleep(0.5)
            with self.lock:
                cur = self.current
            if cur and _mono() - cur[0] > self.part.case_timeout:
                import faulthandler
                stacks = None
                try:
                    path = self.out + ".stacks"
                    with open(path, "w") as f:
                        faulthandler.dump_traceback(file=f, all_threads=True)
                    stacks = open(path).read()[:6000]
                except BaseException:  # noqa: B902
                    pass
                if self.fail is None or self.part.hang_is_violation:
                    if self.part.hang_is_violation:
                        self.fail = (0, cur[1], "case did not terminate within %ss\n%s" %
                                     (self.part.case_timeout, stacks), "hang")
                        self.write("violation")
                    else:
                        self.write("error", "case timed out (harness): %s" % json.dumps(cur[1])[:2000])
                else:
                    self.write("violation")
                os._exit(0)

    def run_case(self, case):
        t0 = _mono()
        with self.lock:
            self.current = (t0, case)
        if os.environ.get("VERIF_TRACE_CASES"):
            with open(os.environ["VERIF_TRACE_CASES"], "w") as f:
                json.dump({"property": self.prop, "part": self.part.name, "case": case}, f, default=str)
        try:
            info = self.part.run(case) or {}
        except Violation as v:
            if self.is_known(v):
                info = {"labels": ["known:" + v.sig]}
                self.known_hits[v.sig] = self.known_hits.get(v.sig, 0) + 1
            else:
                raise
        except (HarnessError, _Stop):
            raise
        except Exception as e:
            if from_agent(e):
                raise Violation("agent code raised %s: %s\n%s" % (type(e).__name__, safe_str(e), fmt_exc(e)),
                                "raise:" + type(e).__name__) from None
            raise HarnessError("%s on case %s\n%s" % (type(e).__name__, json.dumps(case, default=str)[:1500],
                                                      fmt_exc(e))) from None
        finally:
            with self.lock:
                self.current = None
            if _mono() - t0 > self.slowest[0]:
                self.slowest = (_mono() - t0, case)
        self.account(case, info)
        return info

    def is_known(self, v):
        return bool(v.sig) and v.sig in self.known

    def account(self, case, info):
        self.evals += 1
        k = case_key(case)
        if k not in self.seen:
            self.seen.add(k)
            if info.get("nontrivial", True):
                self.nontrivial.add(k)
                if len(self.samples) < 3 and len(json.dumps(case, default=str)) < 3000 and self.evals > 2:
                    self.samples.append({"part": self.part.name, "case": case,
                                         "observed": info.get("observed")})
        for lb in info.get("labels", ()):
            self.labels[lb] = self.labels.get(lb, 0) + 1

    def record(self, case, v):
        size = len(json.dumps(case, default=str))
        if self.first_fail_t is None:
            self.first_fail_t = _mono()
        if self.fail is None or size <= self.fail[0]:
            self.fail = (size, case, v.msg, v.sig)

    def guard(self, case):
        try:
            self.run_case(case)
        except Violation as v:
            self.record(case, v)
            raise

    def main(self):
        threading.Thread(target=self._watch, daemon=True).start()
        t0 = _mono()
        part = self.part
        budget = part.budget if self.tier == "quick" else part.thorough_budget
        if part.setup:
            part.setup()
        try:
            fixed = part.cases if self.shard == 0 else []
            for c in fixed:
                self.guard(c)
            if part.exhaustive_cases:
                for i, c in enumerate(part.exhaustive_cases(self.tier)):
                    if i % self.nshards == self.shard:
                        self.guard(c)
            if part.strategy is not None:
                self.generate(t0, budget)
        except Violation:
            pass
        except HarnessError as e:
            if self.fail is None:
                self.write("error", str(e))
                return
        except BaseException as e:  # noqa: B902
            if self.fail is None:
                self.write("error", "%s\n%s" % (type(e).__name__, fmt_exc(e)))
                return
        self.write("violation" if self.fail else "ok")

    def generate(self, t0, budget):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        n = part_n = self.part.quick if self.tier == "quick" else self.part.thorough
        n = max(1, (part_n + self.nshards - 1) // self.nshards)
        shrink_cap = 45 if self.tier == "quick" else 120

        def body(case):
            now = _mono()
            if self.first_fail_t is not None and now - self.first_fail_t > shrink_cap:
                raise _Stop()
            if self.first_fail_t is None and now - t0 > budget:
                self.deadline_hit = True
                return
            self.guard(case)

        s = int(hashlib.sha1(("%s/%s/%s/%s" % (self.seed, self.prop, self.part.name, self.shard)).encode())
                .hexdigest()[:8], 16)
        test = hypothesis.seed(s)(settings(
            max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        )(given(self.part.strategy())(body)))
        try:
            test()
        except (Violation, _Stop):
            pass
        except HarnessError:
            raise
        except BaseException:  # noqa: B902
            if self.fail is None:
                raise

    def write(self, status, error=None):
        data = {"status": status, "error": error, "evals": self.evals, "nontrivial": sorted(self.nontrivial),
                "labels": self.labels, "samples": self.samples, "known_hits": self.known_hits, "slowest": self.slowest,
                "deadline_hit": self.deadline_hit,
                "fail": None if self.fail is None else
                {"case": self.fail[1], "msg": self.fail[2], "sig": self.fail[3]}}
        tmp = self.out + ".tmp"
        with open(tmp, "w", encoding="utf-8", errors="surrogatepass") as f:
            json.dump(data, f, default=str)
        os.replace(tmp, self.out)
        sys.stdout.flush()


def pair(wanted, got, fits):
    """Match each of `wanted` with one of `got` (one to one, a maximum matching). Returns (wanted without a partner, got without one)."""
    taken = {}

    def assign(i, seen):
        for j in range(len(got)):
            if j not in seen and fits(wanted[i], got[j]):
                seen.add(j)
                if j not in taken or assign(taken[j], seen):
                    taken[j] = i
                    return True
        return False
    alone = [w for i, w in enumerate(wanted) if not assign(i, set())]
    return alone, [g for j, g in enumerate(got) if j not in taken]
