"""P21: the network is only used when pulling was requested and not when offline."""
import itertools, os
import h, gitw, weights as w, world, webworld

GITFLAGS = [f for k in range(4) for f in itertools.combinations(("--git-pull", "--git-force", "--offline"), k)]
NAMES = ["main", "feature", "ronly", "behind", "ahead", "lonly", "origin/main", "v1", "v2", "HEAD", "@", "main~1", "<1>", "<2:9>", "<none>", "nope", "fresh", "refs/heads/behind"]
# Git commands that talk to a remote; those that only do so with arguments are left to the contacts seen at the remote.
NETWORK = {"fetch", "pull", "push", "clone", "ls-remote", "fetch-pack", "send-pack", "submodule", "remote-https", "http-fetch"}
# The remote is there and has moved on, or is gone.
REMOTES = ["there", "gone"]
# And nothing was fetched, or long ago.
LONG = ["unfetched", "stale"]
SOME = [("main", "behind"), ("<1>", "v2")]


def name(j):
    if j[0] == "web":
        return f"service: head={j[1]} remote={j[2]} git_pull={j[3]} more={j[4]} old={j[5]} new={j[6]}"
    return f"head={j[0]} remote={j[1]} flags={' '.join(j[2])} more={' '.join(j[3])} old={j[4]} new={j[5]}"


def when(rem, repo):
    f = repo + "/.git/FETCH_HEAD"
    if rem == "unfetched" and os.path.exists(f):
        os.unlink(f)
    if rem == "stale":
        for p, _, fs in os.walk(repo + "/.git"):
            for x in fs:
                os.utime(f"{p}/{x}", (1e9, 1e9))


def web(j, l):
    _, hd, rem, pull, more, a, b = j
    s = webworld.site(W)
    s.reset(hd)
    when(rem, s.repo(hd))
    if rem == "gone":
        os.rename(s.remote(hd), s.remote(hd) + ".was")
    try:
        r = s.compare(hd, W.text(a), W.text(b), pull, **dict(more))
    finally:
        if rem == "gone":
            os.rename(s.remote(hd) + ".was", s.remote(hd))
    calls, n = s.calls(), s.contacts()
    used = n > 0 or any(set(c[1:]) & NETWORK for c in calls)
    l.state()
    l.trace()
    l.steps(len(calls))
    l.outcome("network by the service" if used else "no network by the service")
    bad = []
    if pull == "false":
        (A, ea), (B, eb) = (W.allowed(x, hd, False, True) for x in (a, b))
        if used:
            bad.append("the network was used")
        if r.rc and not (ea or eb):
            bad.append("refused without using the network")
        if r.rc == 0 and not more and r.rows not in [gitw.expected(x, y) for x in A for y in B]:
            bad.append("wrong result from the local repository")
    # Pulling is what it does unless told not to.
    elif rem != "gone" and not n and r.rc == 0:
        bad.append("the network was not used")
    elif rem == "gone" and r.rc == 0:
        bad.append("a pull that cannot have worked was not an error")
    if r.crashed:
        bad.append("no answer")
    if bad:
        l.violation(name(j), "; ".join(bad) + f"\n{calls}\n{r}")
    l.sample(f"{name(j)}: {n} contacts, status {r.r and r.r.status}")


def check(j, l):
    if j[0] == "web":
        return web(j, l)
    hd, rem, fl, more, a, b = j
    d = f"{h.scratch()}/n{os.getpid()}"
    gitw.copy(f"{W.path}/{hd}", d)
    try:
        repo = d + "/repo"
        when(rem, repo)
        if rem == "gone":
            os.rename(d + "/remote.git", d + "/remote.was")
        cmd = gitw.commits_cmd(repo, W.text(a), W.text(b), extra=fl + more)
        if "--method" in more:
            i = cmd.index("--method")
            del cmd[i:i + 2]
        r = h.run(cmd, cwd=d, env_=gitw.observed_env(d + "/log"))
        calls, n = gitw.calls(d + "/log"), gitw.contacts(d + "/log")
        l.state()
        l.trace()
        l.steps(len(calls))
        pull, force = "--git-pull" in fl and "--offline" not in fl, "--git-force" in fl
        used = n > 0 or any(set(c[1:]) & NETWORK for c in calls)
        l.outcome("network" if used else "no network")
        bad = []
        if used and not pull:
            bad.append("the network was used")
        if pull and rem != "gone" and not n and r.rc == 0:
            bad.append("the network was not used")
        if not pull:
            A, ea = W.allowed(a, hd, False, force)
            B, eb = W.allowed(b, hd, False, force)
            if r.rc and not (ea or eb):
                bad.append("refused without using the network")
            if r.rc == 0 and "--unit" not in more and gitw.rows(r.out) not in [gitw.expected(x, y) for x in A for y in B]:
                bad.append("wrong result from the local repository")
        elif rem == "gone" and r.rc == 0:
            bad.append("a pull that cannot have worked was not an error")
        if r.crashed:
            bad.append("crashed")
        if bad:
            l.violation(name(j), "; ".join(bad) + f"\n{calls}\n{r}")
        l.sample(f"{name(j)}: {n} contacts, exit {r.rc}")
    finally:
        gitw.remove(d)


def run(ctx):
    global W
    W = world.build(h.scratch() + "/world")
    pairs = [(a, b) for a in NAMES for b in NAMES]
    heads = world.HEADS if ctx.thorough else world.HEADS[:2]
    few = [("main", n) for n in NAMES] + [(n, "main") for n in NAMES] + [(n, n) for n in NAMES] + [("<1>", "<2:9>"), ("v1", "v2"), ("<2:9>", "v1"), ("HEAD", "<1>"), ("origin/main", "<1>")]
    jobs = [(hd, rem, fl, (), a, b) for hd in heads for rem in REMOTES for fl in GITFLAGS for a, b in (pairs if ctx.thorough else few if hd == "main" else few[::5])]
    more = [(m, u, i) for m in w.METHODS for u in w.UNITS for i in (False, True)]
    jobs += [("main", rem, fl, ("--method", m, "--unit", u) + (("--ignore-errors",) if i else ()), a, b) for rem in REMOTES for fl in GITFLAGS for m, u, i in more for a, b in SOME]
    more = [(("method", m), ("unit", u), ("ignore_errors", i)) for m in ("base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic") for u in ("time", "proof") for i in ("true", "false")]
    jobs += [("web", hd, rem, pull, (), a, b) for hd in heads for rem in REMOTES for pull in webworld.PULLS for a, b in (pairs if ctx.thorough else few if hd == "main" else few[::5])]
    jobs += [("web", "main", rem, pull, m, a, b) for rem in REMOTES for pull in webworld.PULLS for m in more for a, b in SOME]
    jobs += [("main", rem, fl, (), a, b) for rem in LONG for fl in GITFLAGS for a, b in (few if ctx.thorough else few[::3])]
    jobs += [("web", "main", rem, pull, (), a, b) for rem in LONG for pull in webworld.PULLS for a, b in (few if ctx.thorough else few[::3])]
    jobs = list(dict.fromkeys(jobs))
    ctx.bound(f"{len(GITFLAGS)} combinations of --git-pull, --git-force and --offline; {len(NAMES)} names in {'all' if ctx.thorough else 'some'} pairs; HEAD at {heads}; remote {REMOTES}, {LONG} for some; "
              f"all methods and units and error handling for {SOME}; all of it through the web service, git_pull {webworld.PULLS}")
    ctx.assume("Using the network means contacting a remote through git. The comparison has no other access to it: it has no networking code of its own.")
    ctx.par(check, jobs, name)
