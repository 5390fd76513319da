"""P33: ending the program, the service or git at any point does no harm."""
import ctypes, hashlib, json, os, signal, struct, subprocess, time
import h, gitw, webw

LEVEL = "fault_enumeration"
CRASH = os.path.join(os.environ.get("MC_TARGET", "/verif/target"), "shim", "crash.so")
FLAGS = [(), ("--git-force",), ("--git-pull",), ("--git-pull", "--git-force")]
# Where HEAD is, and what is compared: forward, back, and things that are not where HEAD is.
CASES = [("1", "1", "2"), ("2", "1", "3"), ("main", "2", "main"), ("main", "topic", "1")]
# Which signal, and whether everything gets it or only what is about to change a file.
ENDS = [(signal.SIGKILL, 1), (signal.SIGKILL, 0), (signal.SIGTERM, 0), (signal.SIGINT, 1)]
_prctl = ctypes.CDLL(None).prctl


LOCAL = {"docs/same.txt": "changed\n", "docs/new.txt": "new\n"}


def files(n):
    return {**gitw.weight_files(n), "docs/same.txt": "same\n"}


def build(path):
    """path/<head>/{remote.git,repo}; the remote knows commits that the repository does not."""
    r = gitw.Repo(f"{path}/remote.git", bare=True)
    r.commits([(1, []), (2, [1]), (3, [2]), (4, [1])], files)
    for b, n in {"main": 3, "topic": 4, "old": 1}.items():
        r.ref(f"refs/heads/{b}", n)
    gitw.git(r.path, "symbolic-ref", "HEAD", "refs/heads/main")
    l = gitw.Repo(f"{path}/repo")
    gitw.add_origin(l.path)
    gitw.git(l.path, "fetch", "-q", "origin")
    l.sha = dict(r.sha)
    l.commits([(5, [3])], files)
    for b, n in {"main": 3, "topic": 4, "mine": 5}.items():
        l.ref(f"refs/heads/{b}", n)
    l.ref("refs/tags/v1", 1)
    r.commits([(6, [3]), (7, [4])], files)
    r.ref("refs/heads/main", 6)
    r.ref("refs/heads/topic", 7)
    l.sha.update(r.sha)
    for hd in {c[0] for c in CASES}:
        os.makedirs(f"{path}/{hd}")
        gitw.copy(r.path, f"{path}/{hd}/remote.git")
        gitw.copy(l.path, f"{path}/{hd}/repo")
        gitw.git(f"{path}/{hd}/repo", "checkout", "-q", "-f", *(["--detach", l.sha[int(hd)]] if hd.isdigit() else [hd]))
        # Somebody is at work there, which does not concern comparisons.
        for f, t in LOCAL.items():
            open(f"{path}/{hd}/repo/{f}", "w").write(t)
    os.makedirs(f"{path}/web/root")
    os.makedirs(f"{path}/web/remotes/org")
    gitw.copy(f"{path}/1/remote.git", f"{path}/web/remotes/org/repo.git")
    gitw.copy(f"{path}/1/repo", f"{path}/web/root/repo")
    webw.add_origin(f"{path}/web/root/repo", "org", "repo")
    gitw.git(f"{path}/web/root/repo", "config", "--unset", "remote.origin.uploadpack")
    return l.sha


def text(n):
    return SHA[int(n)] if n.isdigit() else n


def meaning(n, flags):
    """The commits that a name may stand for."""
    if n.isdigit():
        return {int(n)}
    if "--git-pull" in flags:
        return {{"main": 6, "topic": 7}[n]}
    # A forced one prefers what was fetched last, which the interrupted one may have changed.
    return {{"main": 3, "topic": 4}[n]} | ({{"main": 6, "topic": 7}[n]} if "--git-force" in flags else set())


def launch(argv, d, k, sig, group, timeout=60):
    with open(d + "/count", "wb") as f:
        f.write(b"\0" * 8)
    _prctl(36, 1)
    e = h.env(LD_PRELOAD=CRASH, MC_COUNT=d + "/count", MC_CRASH=f"{k}:{int(sig)}:{group}")
    e.pop("GIT_OPTIONAL_LOCKS")
    p = subprocess.Popen(argv, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, -1
    settle(p.pid)
    t = lambda b: b.decode("utf-8", "surrogateescape")
    return h.Run(p.returncode, t(out), t(err)), struct.unpack("q", open(d + "/count", "rb").read(8))[0]


def settle(group):
    """Waits for what the ended ones left running; it became ours."""
    end = time.time() + 60
    while True:
        try:
            if os.waitpid(-group, os.WNOHANG)[0] == 0:
                if time.time() > end:
                    os.killpg(group, signal.SIGKILL)
                time.sleep(0.002)
        except ChildProcessError:
            return


def locks(repo):
    return [os.path.join(p, f) for p, _, fs in os.walk(repo + "/.git") for f in fs if f.endswith(".lock")]


def state(repo):
    """What identifies the contents of a repository; what the index knows about times is left out."""
    o = hashlib.sha256(gitw.git(repo, "ls-files", "-s", ok=False)[1].encode())
    for p, ds, fs in os.walk(repo):
        ds.sort()
        for f in sorted(fs):
            q = os.path.join(p, f)
            rel = os.path.relpath(q, repo)
            o.update(rel.encode() + b"\0")
            if not rel.startswith((".git/index", ".git/objects/", ".git/logs/")):
                o.update(open(q, "rb").read() + b"\0")
    return o.hexdigest()


def new_state(repo, kind):
    try:
        os.close(os.open(f"{SEEN}/{kind}-{state(repo)}", os.O_CREAT | os.O_EXCL))
        return True
    except FileExistsError:
        return False


def name(j):
    (hd, a, b), fl, k, (sig, group) = j
    return f"head={hd} compare {a} {b} {' '.join(fl)}: {signal.Signals(sig).name} to {'all' if group else 'the one'} before change {k}"


def plain_env():
    e = h.env()
    e.pop("GIT_OPTIONAL_LOCKS")
    return e


def aftermath(repo, first, l, case, fl):
    """What is checked after every interruption."""
    extra = set(gitw.refs(repo, "refs/heads", "refs/tags")) - set(first)
    if extra:
        l.violation(case, f"there is now {extra}")
        return False
    for f, t in LOCAL.items():
        if (not fl or f != "docs/same.txt") and not (os.path.exists(f"{repo}/{f}") and open(f"{repo}/{f}").read() == t):
            l.violation(case, f"what was in {f} is lost")
            return False
    for ref, c in first.items():
        now = gitw.refs(repo, "refs/heads", "refs/tags").get(ref)
        if now != c:
            l.violation(case, f"{ref} moved from {c} to {now}")
            return False
    rc, o = gitw.git(repo, "cat-file", "--batch-check", ok=False, inp=("\n".join(SHA[n] for n in (1, 2, 3, 4, 5)) + "\n").encode())
    if rc or "missing" in o:
        l.violation(case, f"commits are lost: {o}")
        return False
    return True


def later(repo, l, case, clean):
    """Comparisons afterwards. Locks that git left behind, and without force its changes, may make them fail."""
    for fl in FLAGS[:2]:
        for a, b in (("1", "2"), ("3", "1"), ("mine", "topic")):
            d2 = repo + ".later"
            gitw.copy(repo, d2)
            try:
                r = h.run(gitw.commits_cmd(d2, text(a), text(b), extra=fl), env_=plain_env())
                l.steps()
                m = lambda n: {5} if n == "mine" else meaning(n, fl)
                want = [gitw.expected(x, y) for x in m(a) for y in m(b)]
                if r.crashed or r.rc == 0 and gitw.rows(r.out) not in want:
                    l.violation(case, f"the comparison of {a} and {b} {' '.join(fl)} after it is wrong, {want}\n{r}")
                    return False
                if r.rc and clean and ("--git-force" in fl or clean == "really"):
                    l.violation(case, f"the comparison of {a} and {b} {' '.join(fl)} after it fails\n{r}")
                    return False
                l.outcome("later: " + ("refused" if r.rc else "right"))
            finally:
                gitw.remove(d2)
    return True


def check(j, l):
    (hd, a, b), fl, k, (sig, group) = j
    d = f"{h.scratch()}/c{os.getpid()}"
    gitw.copy(f"{WORLD}/{hd}", d)
    repo, case = d + "/repo", name(j)
    try:
        first = gitw.refs(repo, "refs/heads", "refs/tags")
        r, n = launch(gitw.commits_cmd(repo, text(a), text(b), extra=fl), d, k, sig, group)
        l.state()
        if r is None:
            l.violation(case, "it does not end")
            return
        hit = n > k
        want = [gitw.expected(x, y) for x in meaning(a, fl) for y in meaning(b, fl)]
        if r.rc == 0 and gitw.rows(r.out) not in want:
            l.violation(case, f"a wrong result, expected {want}\n{r}")
            return
        if r.rc == 101 or not hit and r.rc or not group and r.rc < 0:
            l.violation(case, f"crashed\n{r}" if hit else f"failed without an interruption\n{r}")
            return
        l.trace()
        l.outcome(f"{'interrupted' if hit else 'not reached'}, {'ended' if r.rc < 0 else 'refused' if r.rc else 'right'}")
        if hit:
            l.sample(case)
            l.names.add(case)
        left = locks(repo)
        if not aftermath(repo, first, l, case, '--git-force' in fl):
            return
        # Most changes lead to a state that is known already.
        if ctx_only is None and not new_state(repo, hd):
            return
        l.outcome("new state")
        if not later(repo, l, case, None if left else True):
            return
        if left:
            for f in left:
                os.unlink(f)
            if not later(repo, l, case, True):
                return
        # Forcing brings everything in order.
        r = h.run(gitw.commits_cmd(repo, text("1"), text("3"), extra=FLAGS[1]), env_=plain_env())
        if r.rc or gitw.rows(r.out) != gitw.expected(1, 3) or not later(repo, l, case, True if "src/" in gitw.git(repo, "status", "--porcelain") else "really"):
            if not l.violations:
                l.violation(case, f"a forced comparison does not repair it\n{r}")
            return
        aftermath(repo, first, l, case, True)
    finally:
        gitw.remove(d)


REQUESTS = {"compare 1 2": ("/compare", "1", "2", "false"), "compare and fetch main topic": ("/compare", "main", "topic", "true"),
            "fetch branches": ("/branches",)}


def ask(srv, q, timeout=30):
    if q[0] == "/branches":
        return srv.get("/branches", timeout, repo="repo", fetch="true")
    return srv.compare("repo", text(q[1]), text(q[2]), timeout, git_pull=q[3])


def answer(q, r):
    """What is wrong with an answer; None if it is right, and "" for an error."""
    if r is None:
        return "no answer"
    if q[0] == "/branches":
        if r.status != 200:
            return ""
        got = {n for n, _ in json.loads(r.body)["branch"]}
        return None if {"main", "topic"} <= got else f"branches {got}"
    if r.status != 200 or "sort_me" not in r.body:
        return ""
    fl = ("--git-force", "--git-pull") if q[3] == "true" else ("--git-force",)
    want = [gitw.expected(x, y) for x in meaning(q[1], fl) for y in meaning(q[2], fl)]
    got = set(webw.Page(r.body).cells())
    return None if got in want else f"rows {got}, expected {want}"


def web_name(j):
    q, k, (sig, group) = j
    return f"service, {q}: {signal.Signals(sig).name} to {'all' if group else 'the one'} before change {k}"


def serve(d, crash=None):
    e = dict(LD_PRELOAD=CRASH, MC_COUNT=d + "/count", MC_CRASH=crash) if crash else {}
    with open(d + "/count", "wb") as f:
        f.write(b"\0" * 8)
    return webw.Server(d, ["repo"], observed=False, extra=e)


def changes(d):
    return struct.unpack("q", open(d + "/count", "rb").read(8))[0]


def web_check(j, l):
    q, k, (sig, group) = j
    d, case = f"{h.scratch()}/s{os.getpid()}", web_name(j)
    gitw.copy(WORLD + "/web", d)
    repo, srv = d + "/root/repo", None
    _prctl(36, 1)
    try:
        first = gitw.refs(repo, "refs/heads", "refs/tags")
        srv = serve(d, f"{k}:{int(sig)}:{group}")
        r = ask(srv, REQUESTS[q])
        hit = changes(d) > k
        # Nothing happens from now on.
        with open(d + "/count", "r+b") as f:
            f.write(struct.pack("q", 1 << 40))
        l.state()
        bad = answer(REQUESTS[q], r)
        if bad if hit and not group else bad and bad != "no answer" if hit else bad is not None:
            l.violation(case, f"{bad}\n{r}")
            return
        l.trace()
        l.outcome(f"service {'interrupted' if hit else 'not reached'}, {'ended' if r is None else 'refused' if bad is not None else 'right'}")
        if hit and group:
            srv.stop()
            settle(srv.p.pid)
            srv = serve(d)
        if not srv.alive():
            l.violation(case, "the service ended")
            return
        if hit:
            l.names.add(case)
            l.sample(case)
        for clean in (False, True):
            if clean:
                for f in locks(repo):
                    os.unlink(f)
            clean = clean or not locks(repo)
            if not aftermath(repo, first, l, case, True):
                return
            if ctx_only is None and not new_state(repo, f"web-{q.split()[0]}-{group}-{clean}"):
                continue
            l.outcome("new state")
            for n in ("3", "1"), ("1", "4"), ("main", "topic"):
                for pull in "false", "true":
                    if pull == "true" and n[0] != "main":
                        continue
                    p = "/compare", *n, pull
                    r = ask(srv, p)
                    l.steps()
                    bad = answer(p, r)
                    l.outcome("later request: " + ("refused" if bad == "" else "right"))
                    if bad or bad == "" and clean:
                        l.violation(case, f"{p} after it: {bad}\n{r}")
                        return
    finally:
        if srv:
            srv.stop()
            settle(srv.p.pid)
        gitw.remove(d)


def web_total(q):
    d = f"{h.scratch()}/n"
    gitw.copy(WORLD + "/web", d)
    srv = serve(d, "-1:9:0")
    try:
        assert answer(REQUESTS[q], ask(srv, REQUESTS[q])) is None
        return changes(d)
    finally:
        srv.stop()
        gitw.remove(d)


def total(case, fl):
    """How many changes to files there are without interruptions."""
    d = f"{h.scratch()}/n"
    gitw.copy(f"{WORLD}/{case[0]}", d)
    try:
        r, n = launch(gitw.commits_cmd(d + "/repo", text(case[1]), text(case[2]), extra=fl), d, -1, 9, 0)
        return n
    finally:
        gitw.remove(d)


def run(ctx):
    global WORLD, SHA, SEEN, ctx_only
    ctx_only, SEEN = ctx.only, h.scratch() + "/seen"
    os.makedirs(SEEN)
    WORLD = h.scratch() + "/world"
    os.makedirs(WORLD)
    SHA = build(WORLD)
    ctx.bound(f"before every change to a file by any process: {[(signal.Signals(s).name, 'all' if g else 'one') for s, g in ENDS]} of comparisons {CASES if ctx.thorough else CASES[:3]} with flags {FLAGS} (quick: fewer signals for all but the first), and of the requests {list(REQUESTS)} to the service")
    ctx.assume("What a process wrote is there when it has ended. Lock files that git leaves behind are removed by the user.")
    jobs = []
    for c in CASES if ctx.thorough else CASES[:3]:
        for fl in FLAGS:
            n = total(c, fl)
            assert n > 10, (c, fl, n)
            jobs += [(c, fl, k, e) for k in range(n + 2) for e in (ENDS if ctx.thorough or c is CASES[0] else ENDS[1:3] if c is CASES[1] else ENDS[:1])]
    ctx.par(check, jobs, name)
    jobs = []
    for q in REQUESTS:
        n = web_total(q)
        assert n > 3, (q, n)
        jobs += [(q, k, e) for k in range(n + 2) for e in (ENDS if ctx.thorough else ENDS[:2])]
    ctx.par(web_check, jobs, web_name)
    ctx.extra.update(evaluations=ctx.t.states, distinct_nontrivial=len(ctx.t.names),
                     rule="A run that was interrupted at one point in one way; non-trivial if the point was reached.")
