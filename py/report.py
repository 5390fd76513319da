"""Bookkeeping shared by the engines for programs: the same formats as mc/src/report.rs."""
import json, multiprocessing, os, sys, time, traceback
from collections import Counter

MAX_REPLAYS = 10


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r")


def unesc(s):
    o, it = [], iter(s)
    for c in it:
        if c != "\\":
            o.append(c)
            continue
        n = next(it, "")
        o.append({"n": "\n", "r": "\r", "\\": "\\"}.get(n, "\\" + n))
    return "".join(o)


def short(s):
    return s if len(s) <= 1500 else s[:1500] + "…"


class Local:
    """What one job found out; merged into the context."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.outcomes, self.samples, self.violations, self.names, self.found = Counter(), [], [], set(), []

    def state(self, n=1):
        self.states += n

    def steps(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o, n=1):
        self.outcomes[o] += n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if len(s) <= 600 else s[:600] + "…")

    def violation(self, case, detail):
        self.violations.append((case, detail))


class Ctx:
    def __init__(self, pid, replay=None, level="model_checking"):
        self.id, self.level = pid, level
        self.root = os.environ.get("MC_ROOT", "/verif")
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.start = time.time()
        self.t = Local()
        self.bounds, self.assumptions, self.extra = [], [], {}
        self.known_hits, self.viol, self.n_viol = {}, [], 0
        self.only, self.hit = None, False
        if replay:
            for l in open(replay, encoding="utf-8"):
                if l.startswith("case: "):
                    self.only = unesc(l[6:].rstrip("\n"))
                    break
        self.known = set()
        try:
            for l in open(f"{self.root}/known_findings.txt", encoding="utf-8"):
                p = f"known: property={pid} case="
                if l.startswith(p):
                    self.known.add(unesc(l[len(p):].rstrip("\n")))
        except OSError:
            pass

    def bound(self, s):
        self.bounds.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def merge(self, l):
        t = self.t
        t.states += l.states
        t.transitions += l.transitions
        t.traces += l.traces
        t.outcomes.update(l.outcomes)
        t.samples.extend(l.samples)
        t.names |= l.names
        t.found.extend(l.found)
        for c, d in l.violations:
            if c in self.known:
                self.known_hits[c] = d
                continue
            self.n_viol += 1
            if len(self.viol) < MAX_REPLAYS:
                self.viol.append((c, d))

    def enough(self):
        return self.n_viol >= MAX_REPLAYS

    def par(self, fn, jobs, name=str, procs=8, init=None):
        """Runs fn(job, local) for every job in a pool of processes; name(job) is its case."""
        jobs = list(jobs)
        if self.only is not None:
            jobs = [j for j in jobs if name(j) == self.only]
            self.hit = self.hit or bool(jobs)
        if not jobs:
            return
        global _FN
        _FN = (fn, name)
        chunk = max(1, min(64, len(jobs) // (procs * 8)))
        with multiprocessing.get_context("fork").Pool(min(procs, len(jobs)), init) as pool:
            for l in pool.imap_unordered(_run, jobs, chunk):
                self.merge(l)
                if self.enough():
                    pool.terminate()
                    break

    def finish(self):
        wall = time.time() - self.start
        if self.only is not None and not self.hit:
            print("the replayed case is not part of the enumeration of this tier", file=sys.stderr)
            return 2
        os.makedirs(f"{self.root}/replays", exist_ok=True)
        for c, d in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.id} {short(esc(c))} -- {short(esc(d))}")
        for i, (c, d) in enumerate(self.viol):
            p = f"{self.root}/replays/{self.id}-{i}.txt"
            if self.only is None:
                with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
                    f.write(f"property: {self.id}\nreplay with: ./check.sh {self.id} --replay <this file>\ncase: {esc(c)}\n\n{d}\n")
            print(f"VIOLATION property={self.id} replay={p}")
            print(f"  case: {short(esc(c))}\n  {short(esc(d))}".encode("utf-8", "backslashreplace").decode())
        t = self.t
        cov = dict(states=t.states, transitions=t.transitions, traces_validated_against_impl=t.traces,
                   exhaustive=self.n_viol == 0 and self.only is None, bounds=self.bounds,
                   outcomes=dict(sorted(t.outcomes.items())), samples=t.samples[:12])
        cov.update(self.extra)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, violations=self.n_viol, wall_s=round(wall, 3))
        if self.only is None:
            os.makedirs(f"{self.root}/evidence", exist_ok=True)
            with open(f"{self.root}/evidence/{self.id}.json", "w") as f:
                json.dump(ev, f, indent=1)
        print(f"{self.id}: {self.tier} tier, states={t.states} transitions={t.transitions} traces={t.traces} "
              f"outcomes={dict(sorted(t.outcomes.items()))} violations={self.n_viol} in {wall:.1f}s")
        return 1 if self.n_viol else 0


class HarnessError(Exception):
    """Something of the machinery failed; the check gives no answer."""


def _run(job):
    fn, name = _FN
    l = Local()
    try:
        fn(job, l)
    except (LookupError, ValueError, TypeError, AttributeError, AssertionError, StopIteration, RecursionError):
        l.violation(name(job), "the answer could not be read: " + traceback.format_exc())
    return l
