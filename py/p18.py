"""P18: a failing git command yields an error or the correct result, never a wrong one."""
import itertools, os
import h, gitw, world, webworld

LEVEL = "fault_enumeration"
FLAGS = [(), ("--git-force",), ("--git-pull",), ("--git-pull", "--git-force")]
PAIRS = [("main", "feature"), ("behind", "ahead"), ("v1", "main"), ("HEAD", "lonly"), ("ronly", "behind"), ("<1>", "feat/x"), ("main", "nope")]
KINDS = ["fail-before", "fail-after", "kill-before", "kill-after", "gone"]
TROUBLE = 14  # what git says


def trouble(i, n, every):
    """Messages of git at a call: once, and at every call from it on."""
    return [f"{i}:m{m}{p}" for m in range(TROUBLE) for p in ("", "+") if every or m % 7 == (n + i) % 7 and (m < 7) == (p == "+")]


def name(j):
    if j[0] == "web":
        return f"service: head={j[1]} compare {j[2]} {j[3]} git_pull={j[4]} faults={j[5]}"
    return f"head={j[0]} compare {j[1]} {j[2]} {' '.join(j[3])} faults={j[4]}" + (f" uncommitted={j[5]}" if j[5] else "")


def command(d, a, b, fl, plan):
    # The program may remove its stand-in of git.
    e = gitw.observed_env(d + "/log", plan)
    os.makedirs(d + "/bin", exist_ok=True)
    if not os.path.exists(d + "/bin/git"):
        os.link(STUB, d + "/bin/git")
    e["PATH"] = d + "/bin" + (":/nonexistent" if plan else e["PATH"][len(gitw.FAKEGIT):])
    e["FG_SELF"] = d + "/bin/git"
    return h.run(gitw.commits_cmd(d + "/repo", W.text(a), W.text(b), extra=fl), env_=e)


DIRTY = ["modified", "deleted", "staged", "untracked"]


def spoil(repo, how):
    """Leaves uncommitted changes."""
    f = next(f"{repo}/src/{x}" for x in sorted(os.listdir(repo + "/src")) if x not in ("w.rs", "mod.rs"))
    with open(repo + "/src/w.rs") as g:
        text = g.read()
    if how in ("modified", "staged"):
        with open(repo + "/src/w.rs", "w") as g:
            g.write(text.replace("000,", "777,").replace("from_parts(", "from_parts(1"))
        if how == "staged":
            gitw.git(repo, "add", "src/w.rs")
    elif how == "deleted":
        os.remove(f)
    elif how == "untracked":
        with open(repo + "/src/zzz.rs", "w") as g:
            g.write(text)


def service():
    d = f"{h.scratch()}/bin{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/git"):
        os.link(STUB, d + "/git")
    return webworld.site(W, plan=f"@{d}/plan", extra=dict(PATH=f"{d}:/nonexistent", FG_SELF=d + "/git")), d


def ask(s, d, hd, a, b, pull, plan):
    with open(d + "/plan", "w") as f:
        f.write(plan)
    if not os.path.exists(d + "/git"):
        os.link(STUB, d + "/git")
    for x in ("log.git", "log.net"):
        if os.path.exists(f"{s.dir}/{x}"):
            os.truncate(f"{s.dir}/{x}", 0)
    return s.compare(hd, W.text(a), W.text(b), pull)


def web(j, l):
    _, hd, a, b, pull, plan = j
    s, d = service()
    s.reset(hd)
    refs = gitw.refs(s.repo(hd), "refs/heads", "refs/tags")
    (A, ea), (B, eb) = (W.allowed(n, hd, pull == "true", True) for n in (a, b))
    r = ask(s, d, hd, a, b, pull, plan)
    n = len(s.calls())
    l.state()
    l.steps(n)
    hit = any(int(p.split(":")[0]) < n + p.endswith("gone") for p in plan.split(","))
    l.trace(1 if hit else 0)
    case = name(j)
    if r.crashed:
        l.violation(case, "no answer")
    elif r.rc == 0:
        l.outcome("correct result by the service" if hit else "fault not reached")
        if r.rows not in [gitw.expected(x, y) for x in A for y in B]:
            l.violation(case, f"wrong result, allowed old {A} new {B}: {s.calls()}\n{r.rows}")
    else:
        l.outcome("error by the service")
        if not hit and not (ea or eb):
            l.violation(case, f"refused without a fault\n{r}")
    if hit:
        l.sample(case + f": {r.r and r.r.status}")
        l.names.add(j)
    a2 = "lonly" if a == "HEAD" else a
    (A, ea), (B, eb) = (W.allowed(n, hd, pull == "true", True) for n in (a2, b))
    r = ask(s, d, hd, a2, b, pull, "")
    if r.crashed or r.rc == 0 and r.rows not in [gitw.expected(x, y) for x in A for y in B] or r.rc and not (ea or eb):
        l.violation(case, f"the comparison after it is wrong, allowed old {A} new {B}\n{r}")
    now = gitw.refs(s.repo(hd), "refs/heads", "refs/tags")
    moved = {k for k in refs if now.get(k) != refs[k]}
    if moved:
        l.violation(case, f"moved {moved}")


def check(j, l):
    if j[0] == "web":
        return web(j, l)
    hd, a, b, fl, plan, dirty = j
    d = f"{h.scratch()}/f{os.getpid()}"
    gitw.copy(f"{W.path}/{hd}", d)
    # Uncommitted changes can be a reason to refuse.
    refuse = dirty and "--git-force" not in fl
    try:
        spoil(d + "/repo", dirty)
        first_refs = gitw.refs(d + "/repo", "refs/heads", "refs/tags")
        (A, ea), (B, eb) = (W.allowed(n, hd, "--git-pull" in fl, "--git-force" in fl) for n in (a, b))
        want = [gitw.expected(x, y) for x in A for y in B]
        r = command(d, a, b, fl, plan)
        l.state()
        n = len(gitw.calls(d + "/log"))
        l.steps(n)
        hit = any(int(p.split(":")[0]) < n + p.endswith("gone") for p in plan.split(","))
        l.trace(1 if hit else 0)
        case = name(j)
        if r.crashed:
            l.violation(case, f"crashed: {r}")
        elif r.rc == 0:
            l.outcome("correct result" if hit else "fault not reached")
            if gitw.rows(r.out) not in want:
                l.violation(case, f"wrong result, allowed old {A} new {B}: {gitw.calls(d + '/log')}\n{r}")
        else:
            l.outcome("error")
        if hit:
            l.sample(case + f": exit {r.rc}")
            l.names.add(j)
        after = gitw.refs(d + "/repo", "refs/heads", "refs/tags")
        moved = {k for k in first_refs if after.get(k) != first_refs[k]}
        if moved:
            l.violation(case, f"moved {moved}")
        # Without faults a later comparison is right. What HEAD means may have changed.
        a2 = "lonly" if a == "HEAD" else a
        r = command(d, a2, b, fl, None)
        (A, ea), (B, eb) = (W.allowed(n, hd, "--git-pull" in fl, "--git-force" in fl) for n in (a2, b))
        want = [gitw.expected(x, y) for x in A for y in B]
        if r.rc == 0 and gitw.rows(r.out) not in want or r.rc and not (ea or eb or refuse):
            l.violation(case, f"the comparison after it is wrong, allowed old {A} new {B}\n{r}")
    finally:
        gitw.remove(d)


def run(ctx):
    global W, STUB
    W = world.build(h.scratch() + "/world")
    STUB = h.scratch() + "/stub-git"
    with open(gitw.FAKEGIT + "/git", "rb") as f, open(STUB, "wb") as g:
        g.write(f.read())
    os.chmod(STUB, 0o755)
    jobs = []
    for hd in world.HEADS if ctx.thorough else world.HEADS[:2]:
        for fl in FLAGS:
            for a, b in PAIRS:
                d = h.scratch() + "/probe"
                gitw.copy(f"{W.path}/{hd}", d)
                command(d, a, b, fl, None)
                n = len(gitw.calls(d + "/log"))
                gitw.remove(d)
                # One more than without faults: the reaction to a fault may run more commands.
                one = [f"{i}:{k}" for i in range(n + 2) for k in KINDS]
                one += [p for i in range(n) for p in trouble(i, len(jobs), ctx.thorough or (hd, a, b) == ("main", "main", "feature"))]
                jobs += [(hd, a, b, fl, p, None) for p in one]
                if ctx.thorough or (hd, a) == ("main", "behind"):
                    kinds = KINDS if ctx.thorough else KINDS[:2]
                    jobs += [(hd, a, b, fl, f"{i}:{k},{j}:{m}", None) for i, j in itertools.combinations(range(n + 3), 2) for k in kinds[:4] for m in kinds]
    # With changes in the worktree
    for hd, fl, dirty, (a, b) in itertools.product(["main", "detached"], FLAGS, DIRTY, [("HEAD", "HEAD"), ("main", "main"), ("v2", "<1>"), ("main", "ahead")]):
        if ctx.thorough or (hd == "detached") == (a == "v2") and "--git-pull" not in fl:
            jobs += [(hd, a, b, fl, f"{i}:{k}", dirty) for i in range(9) for k in KINDS]
            if not fl and a in ("HEAD", "v2"):
                jobs += [(hd, a, b, fl, f"{i}:fail-before,{j}:fail-before", dirty) for i, j in itertools.combinations(range(9), 2)]
    # Through the service
    for hd, pull, (a, b) in itertools.product(world.HEADS if ctx.thorough else world.HEADS[:2], ("true", "false"), PAIRS):
        if ctx.thorough or hd == "main" or a == "HEAD":
            # At most 9 commands, as with the program.
            jobs += [("web", hd, a, b, pull, f"{i}:{k}") for i in range(11) for k in KINDS]
            jobs += [("web", hd, a, b, pull, p) for i in range(9) for p in trouble(i, len(jobs), ctx.thorough or (hd, a, pull) == ("main", "main", "true"))]
    ctx.bound(f"{TROUBLE} kinds of trouble, as git reports them, at every command, once and from then on (quick: all for one pair, some for the others)")
    ctx.bound("one fault at every git command of these comparisons through the service")
    ctx.bound(f"one fault of {KINDS} at every git command of comparisons {PAIRS} with {FLAGS}; two faults " + ("everywhere" if ctx.thorough else "for some"))
    ctx.assume("A git command that reports success has done its work. Commands that are interrupted half way are P33's matter.")
    ctx.bound(f"one fault (for some: two) in comparisons with {DIRTY} files")
    ctx.par(check, jobs, name)
    ctx.extra.update(evaluations=ctx.t.states, distinct_nontrivial=len(ctx.t.names),
                     rule="A comparison with faults injected into numbered git commands; non-trivial if the command with the fault was reached.")
