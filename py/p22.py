"""P22: concurrent web comparisons are isolated from each other and all finish."""
import itertools, os, re, threading, time
import h, gitw, webw, sched, weights as w


class W:
    pass


CMP = dict(path_pattern="src/*.rs", ignore_errors="false", threshold="0", unit="time", method="base", git_pull="false")
T = lambda n: f"t/{n}"
REQ = {
    "a": ("/compare", dict(CMP, repo="r", old=T(1), new=T(2))),
    "b": ("/compare", dict(CMP, repo="r", old=T(2), new=T(3))),
    "proof": ("/compare", dict(CMP, repo="r", old=T(1), new=T(2), unit="proof")),
    "other": ("/compare", dict(CMP, repo="other", old=T(1), new=T(2))),
    "pull": ("/compare", dict(CMP, repo="r", old=T(1), new="main", git_pull="true")),
    "missing": ("/compare", dict(CMP, repo="r", old=T(1), new="missing")),
    "broken": ("/compare", dict(CMP, repo="r", old=T(4), new=T(2))),
    "pattern": ("/compare", dict(CMP, repo="r", old=T(3), new=T(1), path_pattern="***")),
    "branches": ("/branches", dict(repo="r", fetch="true")),
    "root": ("/", {}),
    "mrs": ("/compare-mr", {}),
}


def files(n):
    f = {"src/w.rs": w.rust_file([w.Fn("f", (n * 1000, n))]), "src/x.rs": w.rust_file([w.Fn("g", (n, 3 * n))])}
    return f | {"src/w.rs": "fn ("} if n == 4 else f


def build():
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    r.commits([(1, []), (2, [1]), (3, [2]), (4, [2]), (5, [3])], files)
    for n in range(1, 6):
        r.ref("refs/tags/" + T(n), n)
    r.ref("refs/heads/main", 1)
    gitw.git(r.path, "checkout", "-q", "main")
    os.makedirs(base + "/remotes/org")
    for n in ("r", "other"):
        if n != "r":
            gitw.copy(base + "/root/r", base + "/root/" + n)
        m = f"{base}/remotes/org/{n}.git"
        gitw.git(base, "clone", "-q", "--bare", "--template=", base + "/root/" + n, m)
        gitw.git(m, "update-ref", "refs/heads/main", r.sha[5])
        webw.add_origin(base + "/root/" + n, "org", n)


class Client(threading.Thread):
    def __init__(self, srv, req):
        super().__init__(daemon=True)
        self.srv, self.req, self.resp, self.done = srv, req, None, False
        self.start()

    def run(self):
        path, args = REQ[self.req]
        self.resp = self.srv.get(path, timeout=120, **args)
        self.done = True


def plain(r):
    """A response without whether it came from the cache."""
    if r is None:
        return None
    b = re.sub(re.escape(h.scratch()) + r"/run[0-9-]+", "", r.body)
    if webw.parse(b).id("config_table"):
        webw.Page(b)  # it is readable
        b = re.sub(r"(<td>[^\n]*Cache[^\n]*</td>\s*<td>)(Yes|No)", r"\1", b)
    # Sets are shown in any order.
    return r.status, "".join(sorted(b.splitlines())) if not r.headers.get("content-type", "").startswith("application/json") else b


def text(r):
    return "none" if r is None else f"status {r.status} " + " ".join(webw.parse(r.body).text().split())[-1500:]


class Service:
    def __init__(self):
        self.n = W.n = getattr(W, "n", 0) + 1
        d = self.dir = f"{h.scratch()}/run{os.getpid():08}-{self.n:06}"
        os.makedirs(d)
        gitw.copy(W.base + "/root", d + "/root")
        gitw.copy(W.base + "/remotes", d + "/remotes")
        self.s = sched.Sched(d + "/sock")
        self.srv = self.s.starting(lambda: webw.Server(d, ["r", "other"], sock=d + "/sock", gate=True))

    def close(self):
        self.srv.stop()
        self.s.close()
        gitw.remove(self.dir)


SOLO = {}


def solo(req):
    """What a request gets alone."""
    if req not in SOLO:
        v = Service()
        try:
            SOLO[req] = plain(v.s.starting(lambda: v.srv.get(REQ[req][0], **REQ[req][1])))
        finally:
            v.close()
    return SOLO[req]


class Finding(Exception):
    pass


def execute(reqs, prefix, bound):
    """One schedule: follows prefix, then always the first option. Returns (choices, costs of every option at each point, log)."""
    v = Service()
    s, pid = v.s, v.srv.p.pid
    choices, costs, log = [], [], []
    left = list(reqs)
    clients = []
    spent = 0
    newest = None
    try:
        if not s.settle(pid):
            raise Finding("the service ended")
        while True:
            opts = []       # (cost, what)
            pend = list(s.pending)
            if newest in pend:
                opts.append((0, newest))
            free = not opts
            opts += [(0 if free else 1, i) for i in reversed(pend) if i is not newest]
            seen = set()
            for r in left:
                if r not in seen:
                    seen.add(r)
                    opts.append((0 if free else 1, r))
            if bound < 0:
                # Everything is started before anything goes on; only this one schedule.
                opts = [(0, r) for r in left[:1]] or opts[:1]
            if not opts:
                break
            costs.append([spent + c for c, _ in opts])
            k = prefix[len(choices)] if len(choices) < len(prefix) else 0
            if k >= len(opts):
                k = 0
                log.append("(diverged)")
            spent += opts[k][0]
            choices.append(k)
            before = list(s.pending)
            o = opts[k][1]
            if isinstance(o, str):
                log.append("start " + o)
                left.remove(o)
                clients.append(Client(v.srv, o))
                time.sleep(0.001)
                # The request is on its way once the service has it or the client has its answer.
                end = time.time() + 0.01
                while time.time() < end and len(s.pending) == len(before) and not clients[-1].done:
                    s.poll(0.001)
            else:
                log.append(repr(o))
                s.release(o)
            if not s.settle(pid):
                raise Finding("the service ended")
            new = [i for i in s.pending if i not in before]
            newest = new[-1] if new else None
            if len([c for c in clients if not c.done and "repo" in REQ[c.req][1] and REQ[c.req][0] == "/compare"]) > 1:
                dirs = [d for d, _ in s.git.values()] + [i.what[:i.what.index("/src/")] for i in s.pending if i.kind == "O" and "/src/" in i.what]
                fetch = sum(not c.done and c.req == "branches" for c in clients)
                for d in set(dirs):
                    # A branch list may be made at the same time; it does not touch the working tree.
                    if dirs.count(d) > 1 + (fetch if d.endswith("/r") else 0):
                        raise Finding(f"two comparisons work on {d} at the same time: {list(s.git.values())} {s.pending}")
        for c in clients:
            c.join(8)
        stuck = [c.req for c in clients if not c.done]
        if stuck:
            raise Finding(f"{stuck} never finish, although nothing is left to wait for")
        for c in clients:
            if plain(c.resp) != solo(c.req):
                raise Finding(f"another answer for {c.req} than alone: {text(c.resp)}")
    except Finding as e:
        return choices, costs, log, str(e)
    finally:
        v.close()
    return choices, costs, log, None


def explore(job, l):
    reqs, k, bound = job
    solo_ = [solo(r) for r in reqs]
    prefix = None if k is None else [0] * k + [1]
    while True:
        choices, costs, log, bad = execute(reqs, prefix or [], bound)
        if k is not None and (len(choices) <= k or choices[k] == 0):
            return
        l.state(len(choices) + 1)
        l.steps(len(choices))
        l.trace()
        l.outcome("schedule")
        if "(diverged)" in log:
            l.outcome("diverged")
        if k is None:
            l.names.add((job, len(choices)))
            l.sample(" ; ".join(log))
        if bad:
            l.violation(name(job), bad + "\nschedule:\n" + "\n".join(log))
            return
        if k is None:
            return
        # The next schedule: the last point with another option within the bound, not before the first deviation.
        for p in range(len(choices) - 1, k - 1, -1):
            nxt = next((i for i in range(choices[p] + 1, len(costs[p])) if costs[p][i] <= bound), None)
            if nxt is not None:
                prefix = choices[:p] + [nxt]
                break
        else:
            return


def name(job):
    return f"{'+'.join(job[0])} deviating at {job[1]} bound={job[2]}"


def run(ctx):
    build()
    names = ["a", "b", "proof", "other", "pull", "missing", "broken", "pattern", "branches", "root", "mrs"]
    if ctx.thorough:
        sets = [(x, 3) for x in itertools.combinations_with_replacement(names[:9], 2)] + [((x, y), 3) for x in names[:2] for y in names[9:]]
        sets += [(x, 2) for x in itertools.combinations_with_replacement(["a", "b", "other", "pull", "missing", "broken", "branches"], 3)]
    else:
        sets = [(("a", x), 1) for x in names]
        sets += [(x, 1) for x in (("b", "pull"), ("missing", "missing"), ("missing", "broken"), ("pull", "pull"), ("pull", "missing"), ("other", "pull"))]
        sets += [(("a", "other", "b"), 1), (("a", "a", "b"), 1)]
    # More than the service has workers for.
    sets += [(("a", "b", "other", "pull", "missing", "broken", "proof"), -1)]
    sets = [(r, b) for r, b in sets if not all(x in ("branches", "root", "mrs") for x in r)]
    ctx.bound(f"every schedule of the git commands (start and end) and file accesses of {len(sets)} sets of two or three concurrent requests with up to {max(b for _, b in sets)} preemptions; starting a request in "
              "the middle of another is one; and one set of seven requests")
    ctx.assume("Between two scheduled points a thread runs undisturbed by the others, except that several that wake up at once may go in any order.")
    if ctx.only:
        r, k, b = ctx.only.replace(" deviating at ", " ").replace(" bound=", " ").split(" ")
        ctx.par(explore, [(tuple(r.split("+")), None if k == "None" else int(k), int(b))], name)
        return
    ctx.par(explore, [(r, None, b) for r, b in sets], name)
    if ctx.enough():
        return
    ctx.par(explore, [(r, k, b) for (r, _, b), n in sorted(ctx.t.names, key=lambda x: -x[1]) for k in range(n) if b >= 0], name, procs=14)
