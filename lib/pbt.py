"""Property-based-testing driver.

A check module (checks/cNN.py) defines

    PID = "C01"
    def subs(tier):  -> list of Sub

Every Sub has a case source (a Hypothesis strategy of JSON-able cases, or an
explicit list of enumerated cases) and a function fn(case) which runs the real
code on the case and raises Violation if the oracle rejects what it did.  fn
returns an Info telling how many evaluations it made and how many were
non-trivial.
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.isdir(_VT) and _VT not in sys.path:
    sys.path.append(_VT)     # after the project's own environment


class Violation(Exception):
    """the oracle rejected the observed behaviour; case may replace the case
    by a smaller one that fails the same way"""

    def __init__(self, msg, case=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.case = case


class HarnessFailure(Exception):
    """a worker could not do its work (never a property violation)"""


# forked processes per generator, seconds after which no new case is started, and seconds of shrinking
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
BUDGET = {"quick": 420, "thorough": 6*3600}
SHRINK = int(os.environ.get("VERIF_SHRINK", "60"))


class Info:
    def __init__(self, nontrivial=True, evals=1, distinct=None, sample=None, labels=()):
        self.nontrivial = nontrivial
        self.evals = evals
        self.distinct = distinct     # bulk cases: distinct non-trivial inputs inside
        self.sample = sample
        self.labels = labels


class Sub:
    def __init__(self, name, fn, strategy=None, cases=None, quick=100, thorough=None,
                 rule="", exhaustive=False, serial=False):
        self.name = name
        self.fn = fn
        self.strategy = strategy
        self.cases = cases
        self.n = {"quick": quick, "thorough": thorough or quick*20}
        self.rule = rule
        self.exhaustive = exhaustive
        self.serial = serial


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def rng(*key):
    """a deterministic numpy generator for bulk data derived from a case"""
    import numpy as np
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


class Stats:
    def __init__(self):
        self.evals = 0
        self.nontrivial = 0
        self.seen = set()
        self.single = set()          # non-trivial ones that count once each
        self.samples = []
        self.labels = {}
        self.cases = 0

    def add(self, sub, case, info):
        if info is None:
            info = Info()
        self.cases += 1
        self.evals += info.evals
        key = hashlib.sha256((sub + json.dumps(case, sort_keys=True)).encode()).digest()
        if key not in self.seen:
            self.seen.add(key)
            if info.distinct is not None:
                self.nontrivial += info.distinct
            elif info.nontrivial:
                self.nontrivial += 1
                self.single.add(key)
        for l in info.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        return info

    def merge(self, o):
        self.cases += o.cases
        self.evals += o.evals
        # a case two workers happened to generate counts once
        self.nontrivial += o.nontrivial - len({k for k in self.seen & o.seen if k in o.single})
        self.seen |= o.seen
        self.single |= o.single
        for l, n in o.labels.items():
            self.labels[l] = self.labels.get(l, 0) + n


def _trim(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def repo_frame(exc):
    """does the traceback run through the code under test (its constructors,
    i.e. elaboration)?"""
    tb = exc.__traceback__
    root = os.path.abspath(REPO) + os.sep
    while tb is not None:
        fn = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def missing(exc):
    """a public attribute of a litevideo object is gone"""
    return isinstance(exc, AttributeError) and type(getattr(exc, "obj", None)).__module__.split(".")[0] == "litevideo"


def migen_frame(exc):
    """was it raised by Migen itself, building or evaluating the design?"""
    tb = exc.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and "/migen/" in tb.tb_frame.f_code.co_filename.replace(os.sep, "/")


class Runner:
    def __init__(self, pid):
        self.pid = pid
        self.mod = importlib.import_module("checks." + pid.lower())
        self.tier = tier()
        self.seed = seed()
        self.stats = Stats()
        self.persub = {}
        self.skipped = 0
        self.t0 = time.time()

    def call(self, sub, case, count=True):
        from vsim.sim import HarnessError, DesignDefect
        try:
            info = sub.fn(case)
        except Violation:
            raise
        except HarnessError:
            raise
        except DesignDefect as e:
            raise Violation(str(e)) from e
        except Exception as e:
            if repo_frame(e):
                # the code under test does not even elaborate / raises
                raise Violation("{}: {} raised inside the code under test: {}".format(
                    sub.name, type(e).__name__, str(e)[:300])) from e
            if missing(e) or migen_frame(e):
                raise Violation("{}: the design cannot be built or simulated: {}: {}".format(
                    sub.name, type(e).__name__, str(e)[:300])) from e
            raise
        if count:
            info = self.stats.add(sub.name, case, info)
            st = self.persub.setdefault(sub.name, {"cases": 0, "evaluations": 0, "nontrivial": 0, "samples": []})
            st["cases"] += 1
            st["evaluations"] += info.evals
            st["nontrivial"] += info.distinct if info.distinct is not None else int(bool(info.nontrivial))
            if len(st["samples"]) < 2 and (info.nontrivial or info.distinct):
                st["samples"].append(_trim(info.sample if info.sample is not None else case))
        return info

    def fail(self, sub, cases, msg, t0):
        import vsim.sim as vs
        again = None
        for case in cases:
            # confirm on Migen's own evaluator before believing it
            vs.CONFIRM = True
            vs.CONFIRM_STEPS = 0
            try:
                self.call(sub, case, count=False)
            except Violation as v:
                again = v
                break
            except Exception:
                # a smaller case may not stand for the one found
                if case is cases[-1]:
                    raise
            finally:
                vs.CONFIRM = False
        if again is None:
            print("ERROR: violation did not reproduce: " + msg)
            self.evidence(t0, 0)
            return 2
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.pid, "sub": sub.name, "case": case, "message": again.msg,
                "confirmed_steps_on_migen": vs.CONFIRM_STEPS}
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "{}-{}-{}.json".format(self.pid, sub.name, h))
        with open(p, "w") as f:
            json.dump(body, f, indent=1)
        print("FAILED {}/{}: {}".format(self.pid, sub.name, again.msg))
        print("  case: {}".format(json.dumps(case)[:1000]))
        print("  confirmed against migen's evaluator for {} steps".format(vs.CONFIRM_STEPS))
        print("VIOLATION property={} replay={}".format(self.pid, p))
        self.evidence(t0, 1)
        return 1

    def evidence(self, t0, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        subs = self.subs
        samples = []
        for n, st in self.persub.items():
            for s in st["samples"][:2]:
                samples.append({"sub": n, "case": s})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": getattr(self.mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": int(self.stats.evals),
                "distinct_nontrivial": int(self.stats.nontrivial),
                "rule": " | ".join("{}: {}".format(s.name, s.rule) for s in subs),
                "samples": samples,
                "generated_cases": self.stats.cases,
                "per_generator": self.persub,
                "labels": self.stats.labels,
                "workers": WORKERS,
                "not_started_for_lack_of_time": self.skipped,
            },
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": violations,
        }
        if subs and all(s.exhaustive for s in subs):
            ev["coverage"]["exhaustive"] = True
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def run_sub(self, sub):
        """returns None or (cases, smaller ones first, and message); the work is spread over forked workers"""
        if sub.cases is not None:
            cases = list(sub.cases(self.tier) if callable(sub.cases) else sub.cases)
            n = min(WORKERS, len(cases))
            jobs = [(lambda k=k: self.run_cases(sub, cases[k::n])) for k in range(n)]
        else:
            jobs = [(lambda k=k: self.run_search(sub, self.seed + 1000*k)) for k in range(WORKERS)]
        if len(jobs) == 1 or sub.serial:
            for j in jobs:
                r = j()
                if r is not None:
                    return r
            return None
        return self.spread(jobs)

    def run_cases(self, sub, cases):
        for case in cases:
            if self.late():
                self.skipped += 1
                continue
            try:
                self.call(sub, case)
            except Violation as v:
                return [c for c in (v.case, case) if c is not None], v.msg
        return None

    def late(self):
        return time.time() - self.t0 > BUDGET[self.tier]

    def run_search(self, sub, seed):
        import hypothesis
        from hypothesis import settings, given, HealthCheck, Phase, Verbosity
        last = {}

        @hypothesis.seed(seed)
        @settings(max_examples=sub.n[self.tier], database=None, deadline=None,
                  phases=(Phase.generate, Phase.target, Phase.shrink),
                  suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                  report_multiple_bugs=False, print_blob=False)
        @given(sub.strategy)
        def test(case):
            case = json.loads(json.dumps(case))
            if "v" in last:
                if case == last["raw"]:
                    raise last["exc"]
                if time.time() - last["t"] > SHRINK:
                    return          # enough shrinking
            elif self.late():
                self.skipped += 1
                return
            try:
                self.call(sub, case, count="v" not in last)
            except Violation as v:
                last["v"] = ([c for c in (v.case, case) if c is not None], v.msg)
                last["raw"] = case
                last["exc"] = v
                last.setdefault("t", time.time())
                raise
        try:
            test()
        except Violation:
            return last["v"]
        except hypothesis.errors.Flaky:
            if "v" in last:
                return last["v"]
            raise
        return None

    def spread(self, jobs):
        """each job in a forked process; the first violation ends the others"""
        import pickle
        import selectors
        import signal
        sys.stdout.flush()
        sys.stderr.flush()
        sel = selectors.DefaultSelector()
        pids = {}
        for k, j in enumerate(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.close(r)
                    for fd in pids:
                        os.close(fd)
                    self.stats = Stats()
                    self.persub = {}
                    self.skipped = 0
                    try:
                        out = ("ok", j())
                    except BaseException as e:
                        out = ("error", "{}\n{}: {}".format(traceback.format_exc(), type(e).__name__, e))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump((out, self.stats, self.persub, self.skipped), f)
                except BaseException:
                    traceback.print_exc()
                    rc = 3
                sys.stderr.flush()
                os._exit(rc)
            os.close(w)
            pids[r] = (pid, k)
            sel.register(r, selectors.EVENT_READ, [])
        found = None
        errors = []
        while sel.get_map() and found is None:
            for key, ev in sel.select():
                d = os.read(key.fd, 1 << 20)
                if d:
                    key.data.append(d)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                pid, k = pids.pop(key.fd)
                os.waitpid(pid, 0)
                try:
                    out, stats, persub, skipped = pickle.loads(b"".join(key.data))
                except Exception:
                    errors.append("worker {} died".format(k))
                    continue
                self.stats.merge(stats)
                self.skipped += skipped
                for n, s in persub.items():
                    m = self.persub.setdefault(n, {"cases": 0, "evaluations": 0, "nontrivial": 0, "samples": []})
                    for q in ("cases", "evaluations", "nontrivial"):
                        m[q] += s[q]
                    m["samples"] = (m["samples"] + s["samples"])[:2]
                if out[0] == "error":
                    errors.append(out[1])
                elif out[1] is not None and found is None:
                    found = out[1]
        for fd, (pid, k) in pids.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)
        if found is None and errors:
            raise HarnessFailure(errors[0])
        return found

    def main(self, only=None):
        t0 = time.time()
        self.subs = self.mod.subs(self.tier)
        for sub in self.subs:
            if only and sub.name not in only:
                continue
            t1 = time.time()
            r = self.run_sub(sub)
            print("{}/{}: {} cases, {} evaluations, {:.1f}s".format(
                self.pid, sub.name, self.persub.get(sub.name, {}).get("cases", 0),
                self.persub.get(sub.name, {}).get("evaluations", 0), time.time() - t1), flush=True)
            if r is not None:
                return self.fail(sub, r[0], r[1], t0)
        for line in known_findings(self.pid):
            print(line)
        self.evidence(t0, 0)
        print("OK property={}: {} evaluations, {} distinct non-trivial, {:.1f}s".format(
            self.pid, self.stats.evals, self.stats.nontrivial, time.time() - t0))
        return 0

    def replay(self, path):
        with open(path) as f:
            r = json.load(f)
        self.subs = self.mod.subs(self.tier)
        sub = [s for s in self.subs if s.name == r["sub"]][0]
        try:
            self.call(sub, r["case"])
        except Violation as v:
            print("FAILED {}/{}: {}".format(self.pid, sub.name, v.msg))
            print("VIOLATION property={} replay={}".format(self.pid, path))
            return 1
        print("replay passes")
        return 0


def known_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property={} ".format(pid)):
                r.append(l.strip())
    return r


def main():
    args = sys.argv[1:]
    pid = args[0]
    try:
        r = Runner(pid)
        if "--replay" in args:
            rc = r.replay(args[args.index("--replay") + 1])
        else:
            only = [a.split("=", 1)[1] for a in args if a.startswith("--only=")]
            rc = r.main(only or None)
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        # an import or constructor failure inside the code under test is a violation
        print("ERROR: {}: {}".format(type(e).__name__, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    sys.modules["lib.pbt"] = sys.modules["__main__"]
    main()
