"""P23: cached comparisons are for the same arguments and never older than 10 minutes."""
import itertools, os, time
import h, gitw, webw, weights as w

LIMIT = 600
SEPS = ["", " ", "-", "_", ":", "::", "/", ",", ", ", "|", ";", ".", "..", "...", "=", "&", "#", "@", "+", "\n", "\t", "\x00", "\"", "', '", "\", \"", "Some", "None"]
STRINGS = ["old", "new", "path_pattern", "extrinsic", "pallet"]


class W:
    pass


def files(n):
    # Every commit has other values, and both functions and files to filter by.
    a, b = w.Fn("alpha", (n * 1000, n), (("x", (n, 2 * n)),), ranges=(("x", 1, 9 + n),)), w.Fn("beta", (1000 + n, 7 * n))
    f = {"src/w.rs": w.rust_file([a, b]), "src/v.rs": w.rust_file([w.Fn("alpha", (5 * n, n * n))])}
    return f | {"src/w.rs": "fn ("} if n == 9 else f


def build():
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    r.commits([(n, [n - 1] if n > 1 else []) for n in range(1, 10)], files)
    for n in range(1, 10):
        r.ref(f"refs/tags/t/{n}", n)
    r.ref("refs/tags/T/1", 3)
    r.ref("refs/tags/T/2", 4)
    r.ref("refs/heads/main", 1)
    W.names = set()
    for i, sep in enumerate(SEPS):
        for n in "abc":
            r.ref(f"refs/tags/{n}", 1 + ord(n) - ord("a"))
        for n in (f"a{sep}b", f"b{sep}c"):
            ref = f"refs/{'heads' if '/' in sep else 'tags'}/{n}"
            if "\0" not in ref and gitw.git(r.path, "check-ref-format", ref, ok=False)[0] == 0:
                r.ref(ref, 4 if n[0] == "a" else 5)
                W.names.add(n)
    gitw.git(r.path, "checkout", "-q", "main")
    W.sha = r.sha
    os.makedirs(base + "/remotes/org")
    for n in ("r", "other"):
        if n != "r":
            gitw.copy(base + "/root/r", base + "/root/" + n)
            gitw.git(base + "/root/" + n, "update-ref", "refs/tags/t/2", r.sha[7])
        gitw.git(base, "clone", "-q", "--bare", "--template=", base + "/root/" + n, f"{base}/remotes/org/{n}.git")
        webw.add_origin(base + "/root/" + n, "org", n)


class Site:
    """One running service with its own repositories."""
    count = 0

    def __init__(self):
        Site.count += 1
        self.dir = f"{h.scratch()}/site{os.getpid()}-{Site.count}"
        os.makedirs(self.dir)
        for x in ("root", "remotes"):
            gitw.copy(f"{W.base}/{x}", f"{self.dir}/{x}")
        self.srv = webw.Server(self.dir, ["r", "other"], clock=True)
        self.ahead = 0.0
        self.broken = "ok"

    def advance(self, s):
        self.ahead += s
        self.srv.ahead(round(self.ahead * 1e9))

    def remote(self, n):
        # As quick as update-ref.
        p = f"{self.dir}/remotes/org/r.git/refs/heads/main"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".new", "w") as f:
            f.write(W.sha[n] + "\n")
        os.rename(p + ".new", p)

    def breakage(self, kind):
        if kind == self.broken:
            return
        r, lock = f"{self.dir}/remotes/org/r.git", f"{self.dir}/root/r/.git/index.lock"
        if self.broken == "no remote":
            os.rename(r + ".gone", r)
        elif self.broken == "locked":
            os.unlink(lock)
        if kind == "no remote":
            os.rename(r, r + ".gone")
        elif kind == "locked":
            open(lock, "w").close()
        self.broken = kind

    def request(self, **args):
        """(response, whether git was used, earliest and latest moment of the answer)"""
        n = len(gitw.calls(self.dir + "/log"))
        args = dict(dict(repo="r", old="t/1", new="main"), **args)
        for _ in range(100):
            a = self.ahead + time.monotonic()
            r = self.srv.compare(**args)
            # Right after the clock jumped the service thinks that a new connection has been idle for long.
            if r is None or r.status != 408:
                break
            time.sleep(0.002)
        return r, len(gitw.calls(self.dir + "/log")) > n, a, self.ahead + time.monotonic()

    def close(self):
        self.srv.stop()
        gitw.remove(self.dir)


def answer(r):
    """What a page shows, or None for an error."""
    if r.status != 200:
        return None
    p = webw.Page(r.body)
    return p.cells(), p.errors, p.warnings


def expected(unit, n):
    e = w.compare({f"src/{k}": v for k, v in FNS(1).items()}, {f"src/{k}": v for k, v in FNS(n).items()}, "base", unit)
    return sorted((x.file, x.name, w.fmt(unit, x.old), w.fmt(unit, x.new)) for x in e)


def FNS(n):
    a, b = w.Fn("alpha", (n * 1000, n), (("x", (n, 2 * n)),), ranges=(("x", 1, 9 + n),)), w.Fn("beta", (1000 + n, 7 * n))
    return {"w.rs": [a, b], "v.rs": [w.Fn("alpha", (5 * n, n * n))]}


SITE = {}
SALT = [0]


def history(job, l):
    """Requests with gaps in between; a gap moves the remote, breaks or repairs something, and lets time pass."""
    if os.getpid() not in SITE:
        SITE[os.getpid()] = Site()
    s = SITE[os.getpid()]
    SALT[0] += 1
    # Nothing was asked with these arguments before.
    salt = dict(path_pattern="src/*.rs", pallet=f"(?:unused {SALT[0]}|)src", git_pull="true")
    at = 2
    s.breakage("ok")
    s.remote(at)
    last = {}       # kind -> [(earliest, latest, answer)] of the successful computations
    log = []
    l.state()
    for gap, kind in job[1]:
        if gap:
            up, broken, dt = gap
            if up:
                at += 1
                s.breakage("ok")
                s.remote(at)
            s.breakage(broken)
            s.advance(dt)
        r, used, t0, t1 = s.request(unit=kind, **salt)
        l.state()
        l.steps()
        if r is None:
            return l.violation(name(job), "no answer\n" + "\n".join(log))
        got = answer(r)
        cached = webw.Page(r.body).cached if got else False
        log.append(f"{gap} {kind}: status {r.status} cached {cached} git {used} remote at {at} {got and got[0]}")
        l.outcome("cached" if cached else "computed" if got else "error")
        bad = None
        if got and cached == used:
            bad = f"the page says {'that' if cached else 'not that'} the cache was used"
        elif got and cached:
            ok = [x for x in last.get(kind, []) if t0 - x[1] <= LIMIT]
            if not ok:
                bad = "an answer from the cache although nothing fitting was computed in the last ten minutes"
            elif got not in [x[2] for x in ok]:
                bad = "an answer from the cache that is none of those computed with the same arguments in the last ten minutes"
        elif got:
            if sorted(got[0]) != expected(kind, at) or got[1] or got[2]:
                bad = f"not the comparison of the current repository: {expected(kind, at)}"
            last.setdefault(kind, []).append((t0, t1, got))
        elif s.broken == "ok":
            bad = f"an error although nothing is broken: {webw.parse(r.body).text()[-300:]}"
        if bad:
            return l.violation(name(job), bad + "\n" + "\n".join(log))
    l.trace()
    l.sample(" ; ".join(log))


# The first two and some more that differ from them in case, in what they end with, or in being large.
LONG = "|".join(f"x{i}" for i in range(150))
VALUES = dict(
    repo=["r", "other"], old=["t/1", "t/2", "t/9", "T/1"], new=["t/2", "t/3", W, "T/2"], path_pattern=["src/*.rs", "src/w.rs", "src/v.rs", "src/W.rs", "src/?.rs"],
    extrinsic=[None, "alpha", "^b", "", "Alpha", LONG + "|alpha", LONG + "|beta"], pallet=[None, "w.rs", "v", "", "V"], ignore_errors=["false", "true"],
    threshold=["0", "50", "51", "400", "1000", "1001", "100000"],
    unit=["time", "proof"], method=["base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic"], git_pull=["false", "true", None])


def values(k):
    return [W.sha[3] if v is W else v for v in VALUES[k]]


FIRST = lambda: {k: values(k)[0] for k in VALUES}
SOLO = {}


def solo(args):
    """The answer to a request in a service that was never asked before."""
    k = tuple(sorted(args.items(), key=str))
    if k not in SOLO:
        s = Site()
        SOLO[k] = answer(s.request(**args)[0])
        s.close()
    return SOLO[k]


def pair(job, l):
    """Two requests that differ in one argument, with the first and then each repeated."""
    _, base, k, x, y = job
    a, b = dict(FIRST(), **base, **{k: x}), dict(FIRST(), **base, **{k: y})
    s = Site()
    try:
        asked = []
        for args in (a, b, a, b):
            r, used, _, _ = s.request(**args)
            l.state()
            l.steps()
            if r is None:
                return l.violation(name(job), "no answer")
            got = answer(r)
            cached = webw.Page(r.body).cached if got else False
            l.outcome("cached" if cached else "computed" if got else "error")
            if got != solo(args):
                return l.violation(name(job), f"request {len(asked)}: {got} instead of {solo(args)}")
            # Not to give the last argument means the same as true.
            same = lambda x: dict(x, git_pull=x["git_pull"] or "true")
            if cached and same(args) not in map(same, asked):
                return l.violation(name(job), f"request {len(asked)}: an answer from the cache although it was never asked for")
            if got and cached == used:
                return l.violation(name(job), f"request {len(asked)}: the page is wrong about the use of the cache")
            if got:
                asked.append(args)
        l.trace()
    finally:
        s.close()


def shifted(job, l):
    """Two requests whose arguments are the same once they are joined."""
    _, f, g, sep = job
    if os.getpid() not in SITE:
        SITE[os.getpid()] = Site()
    s = SITE[os.getpid()]
    s.breakage("ok")
    SALT[0] += 1
    base = dict(FIRST(), extrinsic="x", pallet="y", threshold=1000 + SALT[0])
    base.update(old="a", new="b")
    one, two = dict(base, **{f: f"a{sep}b", g: "c"}), dict(base, **{f: "a", g: f"b{sep}c"})
    if any(a[k] not in W.names and a[k] not in "abc" for a in (one, two) for k in ("old", "new")):
        l.outcome("no such revision")
        return
    for i, args in enumerate((one, two)):
        r = s.request(**args)[0]
        l.state()
        l.steps()
        if r is None:
            return l.violation(name(job), "no answer")
        got = answer(r)
        l.outcome("answer" if got else "error")
        if got and webw.Page(r.body).cached:
            return l.violation(name(job), f"{args}: from the cache although never asked for")
    l.trace()


def product(job, l):
    """Every combination of arguments in one service, twice; what differs from the other combinations is known from single ones."""
    _, part, sets = job
    s = Site()
    try:
        first = {}
        for turn in range(2):
            for i, args in enumerate(sets):
                r, used, _, _ = s.request(**args)
                l.state()
                l.steps()
                if r is None:
                    return l.violation(name(job), "no answer")
                got = answer(r)
                cached = webw.Page(r.body).cached if got else False
                l.outcome("cached" if cached else "computed" if got else "error")
                if turn == 0 and cached:
                    return l.violation(name(job), f"{args}: from the cache although never asked for")
                if turn == 0:
                    first[i] = got
                elif got != first[i]:
                    return l.violation(name(job), f"{args}: {got} differs from {first[i]}")
                if got and cached == used:
                    return l.violation(name(job), f"{args}: the page is wrong about the use of the cache")
        l.trace()
    finally:
        s.close()


def run_job(job, l):
    {"history": history, "pair": pair, "product": product, "shifted": shifted}[job[0]](job, l)


def name(job):
    if job[0] == "history":
        return "history " + " ".join(f"[{'new commit, ' if g[0] else ''}{g[1]}, {g[2]}s] {k}" if g else k for g, k in job[1])
    if job[0] == "pair":
        return f"pair {job[1]} {job[2]}={job[3]!r} then {job[4]!r}"
    if job[0] == "shifted":
        return f"shifted {job[1]} {job[2]} {job[3]!r}"
    return f"product {job[1]}"


def run(ctx):
    build()
    js = []
    brk = ["ok", "no remote", "locked"]
    gaps = list(itertools.product([False, True], brk, [0, 300, 600.1]))
    kinds = ["time", "proof"]
    steps = list(itertools.product(gaps, kinds))
    for n in (1, 2):
        js += [("history", ((None, "time"),) + x) for x in itertools.product(steps, repeat=n)]
    if ctx.thorough:
        few = [g for g in gaps if g[1] != "locked"]
        js += [("history", ((None, "time"),) + x) for x in itertools.product(list(itertools.product(few, kinds)), repeat=3)]
        fine = [(u, b, t) for u in (False, True) for b in brk for t in (1, 299.9, 599.9, 601, 1e5)]
        js += [("history", ((None, "time"),) + x) for x in itertools.product(list(itertools.product(fine, ["time"])), repeat=2)]
    bases = [{}, dict(extrinsic="alpha", threshold="50", unit="proof")]
    for base in bases if ctx.thorough else bases[:1]:
        for k in VALUES:
            if k in base:
                continue
            for x, y in itertools.permutations(values(k), 2):
                js.append(("pair", base, k, x, y))
    js += [("shifted", f, g, sep) for f, g in itertools.permutations(STRINGS, 2) for sep in SEPS]
    keys = list(VALUES)
    sets = [dict(zip(keys, v)) for v in itertools.product(*(values(k)[:2] if ctx.thorough or k not in ("repo", "path_pattern", "git_pull", "ignore_errors") else values(k)[:1] for k in keys))]
    parts = 8 if ctx.thorough else 4
    js = [("product", f"{i} of {parts}", sets[i::parts]) for i in range(parts)] + js
    ctx.bound(f"every history of {'three' if ctx.thorough else 'two'} requests (two dimensions) after a first one, in between: the remote moves on or not, is missing or not, the repository is locked or not, and 0, 300 or 600.1 s pass"
              + ("; four requests with a missing remote only" if ctx.thorough else "")
              + f"; every ordered pair of {sum(len(v) for v in VALUES.values())} values of eleven arguments, each asked twice; every two of {len(STRINGS)} texts that only differ in where the first ends, with {len(SEPS)} separators; {len(sets)} combinations of two values of every argument in {parts} services, each asked twice")
    ctx.assume("The clock of the service is shifted by a preloaded library; that real time passes as well is taken into account.")
    ctx.par(run_job, js, name)
