"""Runner shared by all checks: seeds, case loop, verdicts, evidence, known findings, replay."""
import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSRPMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Violation(Exception):
    """The monitored execution refutes the property. kind is a short mechanism key."""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


class Halt(BaseException):
    """Raised inside the code under test to get out of it; carries a Violation."""

    def __init__(self, violation):
        super().__init__(str(violation))
        self.violation = violation


class HarnessError(Exception):
    pass


class CpuLimit(BaseException):
    pass


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    s = s.encode("utf-8", "backslashreplace").decode("utf-8")
    return s if len(s) <= n else s[: n // 2] + " ...[%d chars]... " % (len(s) - n) + s[-n // 2:]


def in_pypsrp(exc):
    """True when the exception was raised while the code under test was running below our frames."""
    deepest = None
    for fr in traceback.extract_tb(exc.__traceback__):
        fn = os.path.abspath(fr.filename)
        if fn.startswith(SRC + os.sep):
            deepest = "repo"
        elif fn.startswith(ROOT + os.sep):
            deepest = "harness"
    return deepest == "repo"


def crosses_pypsrp(exc):
    return any(os.path.abspath(fr.filename).startswith(SRC + os.sep) for fr in traceback.extract_tb(exc.__traceback__))


class Case:
    def __init__(self, ctx, label, index, rng):
        self.ctx, self.label, self.index, self.rng = ctx, label, index, rng
        self.desc = {}
        self.events = 0

    def note(self, **kw):
        self.desc.update(kw)

    def key(self, *parts):
        """Marks the case non-trivial, and names what makes it distinct."""
        h = hashlib.sha1(repr(parts).encode("utf-8", "backslashreplace")).hexdigest()[:16]
        self.ctx.distinct.add((self.label, h))

    def check(self, cond, kind, detail=""):
        self.events += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def eq(self, got, want, kind, what=""):
        self.events += 1
        if not (type(got) == type(want) and got == want):
            raise Violation(kind, "%s: got %s, want %s" % (what, short(got), short(want)))


def outcome(case, fn):
    """None, or the violation fn(case) ends in."""
    try:
        fn(case)
        return None
    except Violation as v:
        return v
    except Halt as h:
        return h.violation
    except HarnessError:
        raise
    except Exception as e:
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        if in_pypsrp(e) or crosses_pypsrp(e) and not _raised_by_harness(e):
            return Violation("unexpected-" + type(e).__name__, tb)
        if isinstance(e, (MemoryError, OSError)):
            raise
        # the observed data is of a shape no legal behaviour produces: the oracle could not read it
        return Violation("unreadable-observation-" + type(e).__name__, tb)


class Ctx:
    CPU_PER_CASE = 60
    WALL_PER_CASE = 240

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.distinct = set()
        self.evaluations = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.labels = {}
        self.counters = {}
        self.rules = []
        self.assumptions = []
        self.required = []
        self.only = None
        self.budget = float(os.environ.get("PSRPMON_BUDGET", "150" if self.tier == "quick" else "780"))
        self.known = load_known(pid)
        self.scale = float(os.environ.get("PSRPMON_SCALE", "4" if self.tier == "quick" else "6"))
        self.share = (0, 1)       # (number of this process, processes that share the cases)
        self.lines = None         # what a process of several has to print

    @property
    def quick(self):
        return self.tier == "quick"

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, at_least=1):
        """The run is inconclusive unless this counter was reached."""
        self.required.append((name, at_least))

    def rule(self, text):
        self.rules.append(text)

    def each(self, label, quick, thorough, fn, max_violations=3):
        """Runs fn(case) for quick/thorough many seeded cases (an int, or a list of fixed items)."""
        items = None
        n = quick if self.quick else thorough
        if isinstance(n, (list, tuple)):
            items = list(n)
            n = len(items)
        else:
            n = max(1, int(n * self.scale))
        indices = range(n)
        if self.only is not None:
            if self.only[0] != label:
                return
            indices = [self.only[1]]
        elif self.share[1] > 1:
            # a few costly items are spread from a varying start, so that the first process does not get all of them
            turn = int(hashlib.sha1(label.encode()).hexdigest(), 16) if n < 4 * self.share[1] else 0
            indices = [i for i in indices if (i + turn) % self.share[1] == self.share[0]]
        bad = 0
        done = 0
        for i in indices:
            if time.time() - self.t0 > self.budget:
                self.count("stopped_on_time_budget:" + label)
                break
            rng = random.Random("%s|%s|%d|%d" % (self.pid, label, self.seed, i))
            case = Case(self, label, i, rng)
            if items is not None:
                case.item = items[i]
            v = self._run(case, fn)
            done += 1
            self.evaluations += 1
            self.events += case.events
            if case.desc and (len(self.samples) < 2 or (self.labels.get(label, 0) == 0 and len(self.samples) < 24)):
                self.samples.append({"workload": label, "index": i,
                                     **{k: short(x, 300) if not isinstance(x, (int, float, bool)) else x for k, x in case.desc.items()}})
            self.labels[label] = self.labels.get(label, 0) + 1
            if v is not None:
                if v.kind in self.known:
                    self.known_hit.setdefault(v.kind, []).append((label, i))
                    continue
                self._report(case, v)
                bad += 1
                if bad >= max_violations:
                    break

    def _run(self, case, fn):
        def on_alarm(sig, frame):
            raise CpuLimit(sig)

        old = signal.signal(signal.SIGVTALRM, on_alarm), signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU_PER_CASE)
        signal.setitimer(signal.ITIMER_REAL, self.WALL_PER_CASE)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return outcome(case, fn)
        except CpuLimit as e:
            if crosses_pypsrp(e):
                return Violation("no-termination", "one case used %d s of CPU or %d s of time" % (self.CPU_PER_CASE, self.WALL_PER_CASE))
            raise HarnessError("harness used too much CPU or time in %s[%d]" % (case.label, case.index))
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGVTALRM, old[0])
            signal.signal(signal.SIGALRM, old[1])

    def _report(self, case, v):
        d = os.path.join(ROOT, "replay")
        os.makedirs(d, exist_ok=True)
        name = "%s-%s-s%d-%d.json" % (self.pid, re.sub(r"[^A-Za-z0-9]+", "_", case.label), self.seed, case.index)
        path = os.path.join(d, name)
        with open(path, "w") as f:
            json.dump({"property": self.pid, "workload": case.label, "index": case.index, "seed": self.seed,
                       "tier": self.tier, "kind": v.kind, "detail": short(v.detail, 6000),
                       "case": {k: short(x, 2000) for k, x in case.desc.items()},
                       "replay_with": "./run.sh %s --replay %s" % (self.pid, path)}, f, indent=1)
        self.violations.append((v.kind, path))
        text = "VIOLATION property=%s replay=%s\n  kind=%s workload=%s index=%d seed=%d\n  %s" % (
            self.pid, path, v.kind, case.label, case.index, self.seed, short(v.detail, 1500).replace("\n", "\n  "))
        if self.lines is not None:
            self.lines.append((case.index, text))
        else:
            print(text, flush=True)

    def state(self):
        return {k: getattr(self, k) for k in ("distinct", "evaluations", "events", "samples", "violations", "known_hit", "labels", "counters", "rules",
                                              "assumptions", "required", "lines")}

    def merge(self, parts):
        """Takes over what the processes that shared the cases observed."""
        for p in parts:
            self.distinct |= p["distinct"]
            self.evaluations += p["evaluations"]
            self.events += p["events"]
            self.violations += p["violations"]
            for k, v in p["known_hit"].items():
                self.known_hit.setdefault(k, []).extend(v)
            for mine, theirs in ((self.labels, p["labels"]), (self.counters, p["counters"])):
                for k, v in theirs.items():
                    mine[k] = mine.get(k, 0) + v
            self.rules, self.assumptions, self.required = p["rules"], p["assumptions"], p["required"]
        per = {}
        for x in sorted((x for p in parts for x in p["samples"]), key=lambda x: x["index"]):
            per.setdefault(x["workload"], []).append(x)
        self.samples = [x for v in per.values() for x in v[:2]]
        for _, text in sorted(x for p in parts for x in p["lines"])[:6]:
            print(text, flush=True)

    def finish(self, level="exploration"):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": " ".join(self.rules) or "seeded random cases",
            "samples": self.samples or [{"note": "no case recorded"}],
            "oracle_comparisons": self.events,
            "cases_per_workload": self.labels,
            "observed": dict(sorted(self.counters.items())),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kind, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        if self.violations:
            return 1
        if self.only is None:
            for name, k in self.required:
                if self.counters.get(name, 0) < k:
                    print("INCONCLUSIVE property=%s monitor counter %r reached %d, needs %d"
                          % (self.pid, name, self.counters.get(name, 0), k))
                    return 2
            if self.evaluations == 0 or not self.distinct:
                print("INCONCLUSIVE property=%s nothing observed" % self.pid)
                return 2
        print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d comparisons=%d wall=%.1fs"
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), self.events, time.time() - self.t0))
        return 0


def _raised_by_harness(e):
    last = traceback.extract_tb(e.__traceback__)[-1]
    return os.path.abspath(last.filename).startswith(ROOT + os.sep)


def load_known(pid):
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) kind=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = "kind=%s %s" % (m.group(2), m.group(3))
    return out


def setup_paths():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pypsrp
    got = os.path.abspath(pypsrp.__file__)
    if not got.startswith(SRC + os.sep):
        raise HarnessError("pypsrp imported from %s, expected under %s" % (got, SRC))


def shared_run(ctx, mod, n):
    """Runs the check in n processes, each with its share of the cases. Returns False if one of them failed."""
    import atexit
    import pickle
    sys.stdout.flush()
    kids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for fd, _ in kids:
                    os.close(fd)
                ctx.share, ctx.lines = (k, n), []
                try:
                    mod.main(ctx)
                    code = 0
                except Exception:
                    traceback.print_exc()
                data = pickle.dumps(ctx.state())
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                atexit._run_exitfuncs()
            except BaseException:
                code = 1
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((r, pid))
    parts, good = [], True
    for r, pid in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        status = os.waitpid(pid, 0)[1]
        if status:
            print("process %d ended with status %d" % (pid, status), file=sys.stderr)
            good = False
        try:
            parts.append(pickle.loads(data))
        except Exception:
            good = False
    ctx.merge(parts)
    return good


def main(argv):
    import importlib
    import logging
    logging.disable(logging.CRITICAL)
    pid = argv[1]
    if "--thorough" in argv:
        os.environ["VERIF_TIER"] = "thorough"
        argv = [a for a in argv if a != "--thorough"]
    ctx = Ctx(pid)
    if len(argv) >= 4 and argv[2] == "--replay":
        r = json.load(open(argv[3]))
        ctx.seed, ctx.tier, ctx.only = r["seed"], r["tier"], (r["workload"], r["index"])
    sys.path.insert(0, ROOT)
    setup_paths()
    mod = importlib.import_module("checks." + pid.lower())
    n = int(os.environ.get("PSRPMON_WORKERS", "0")) or min(8, len(os.sched_getaffinity(0)))
    try:
        good = True
        if n == 1 or ctx.only is not None:
            mod.main(ctx)
        else:
            good = shared_run(ctx, mod, n)
    except Exception:
        traceback.print_exc()
        good = False
    if not good:
        if ctx.violations:
            ctx.finish()
            return 1
        print("ERROR property=%s the harness failed" % pid)
        return 3
    return ctx.finish(getattr(mod, "LEVEL", "exploration"))
