"""P16: comparing two revisions compares the files of exactly these two revisions."""
import itertools, os
import h, gitw, weights as w, webw, world, webworld

FLAGS = [(), ("--git-force",), ("--git-pull",), ("--git-pull", "--git-force"), ("--git-pull", "--offline"), ("--git-force", "--offline", "--git-pull")]
PARTNERS = ["HEAD", "main", "<1>", "HEAD~1", "nope"]


# What there can be many or long ones of, with the most that is tried (quick, thorough), and whether that is about names.
BIG = {"depth": (513, 1025, False), "files": (1025, 5001, False), "kilobytes": (2001, 20001, False), "path": (1025, 2049, False), "commits": (1025, 5001, True), "branches": (1025, 5001, True), "tags": (257, 1025, True),
       "branch name": (240, 240, True), "tag name": (240, 240, True), "name in directories": (1000, 1500, True)}
# File names that are not the same.
ALIKE = [("a", "A"), ("a.RS", "a"), ("a.rs", "a"), ("\u00e9", "e\u0301"), ("\u00e9", "\u00c9"), ("a b", "a  b"), ("_", "a_"), ("a_b", "ab"), ("a-b", "a_b"), ("a", "a1"), ("x/a", "a"), ("x/a", "X/a"), ("\u00df", "ss"), ("a", "\u0430"), ("a+b", "a b"), ("a%20b", "a b"), ("1", "01")]
WAYS = {"plain": (), "force": ("--git-force",), "pull": ("--git-pull",), "service": None}


def name(j):
    if j[0] == "big":
        return f"{j[1]}: {j[2]}, {j[3]}"
    if j[0] == "web":
        return f"service: head={j[1]} git_pull={j[2]} old={j[3]} new={j[4]}"
    return f"head={j[0]} flags={' '.join(j[1])} dirty={j[4]} old={j[2]} new={j[3]}"


def jobs(ctx):
    for hd in world.HEADS:
        for fl in FLAGS:
            if not ctx.thorough and (hd == "lonly" or "--offline" in fl and hd != "ahead"):
                continue
            for a, b in itertools.product(world.NAMES, repeat=2):
                if not ctx.thorough and not (a in PARTNERS[:4] or b in PARTNERS[:2] or a == b):
                    continue
                yield hd, fl, a, b, False
    for a, b in itertools.product(world.NAMES, repeat=2):
        if ctx.thorough or a == b or b == "main":
            yield "ahead", FLAGS[1], a, b, True


def web_jobs(ctx):
    for hd in world.HEADS:
        for pull in webworld.PULLS:
            for a, b in itertools.product(world.NAMES, repeat=2):
                if ctx.thorough or hd != "lonly" and (a in PARTNERS[:4:2] or b in PARTNERS[:2] or a == b) and not (pull == "true" and a != b):
                    yield "web", hd, pull, a, b


def web(j, l):
    _, hd, pull, a, b = j
    s = webworld.site(W)
    s.reset(hd)
    r = s.compare(hd, W.text(a), W.text(b), pull)
    (A, ea), (B, eb) = (W.allowed(n, hd, pull != "false", True) for n in (a, b))
    l.state()
    l.trace()
    l.steps(len(s.calls()))
    l.outcome("refused by the service" if r.rc else "compared by the service")
    if r.crashed or r.rc and not (ea or eb):
        l.violation(name(j), f"refused existing revisions: allowed old {A} new {B}\n{r}")
    elif not r.rc and not any(r.rows == gitw.expected(x, y) for x in A for y in B):
        l.violation(name(j), f"compared other revisions: allowed old {A} new {B}\n{r.rows}\n{r}")
    l.sample(name(j) + f": {r.r and r.r.status}")


def big_jobs(ctx):
    for kind, (q, t, named) in BIG.items():
        sizes = h.sizes(t if ctx.thorough else q)
        for i, n in enumerate(sizes):
            for way in WAYS:
                if (way != "pull" or named) and (ctx.thorough or way == "plain" or way == "pull" and i % 2 == 0 or i % 4 == 3 or n == sizes[-1]):
                    yield "big", kind, n, way
    for way in ("plain", "force", "service"):
        for n in range(len(ALIKE) + 1):
            yield "big", "case", n, way


def big(j, l):
    _, kind, n, way = j
    d = f"{h.scratch()}/b{os.getpid()}"
    os.makedirs(d + "/root")
    os.makedirs(d + "/remotes/org")
    try:
        r = gitw.Repo(d + "/remotes/org/repo.git", bare=True)
        ns = lambda v: w.fmt("time", v * 1000)
        fn = lambda v, f="f": w.rust_file([w.Fn(f, (v * 1000, 1))])
        defs, files, revs = [(1, []), (2, [1]), (3, [2])], (lambda k: {"src/w.rs": fn(k)}), [("<1>", 1), ("<2>", 2)]
        want = lambda a, b: {("src/w.rs", "f", ns(a), ns(b))}
        pattern, refs = "src/*.rs", {}
        if kind == "files":
            files = lambda k: {f"src/f{i}.rs": fn(i + 1 + k) for i in range(n)}
            want = lambda a, b: {(f"src/f{i}.rs", "f", ns(i + 1 + a), ns(i + 1 + b)) for i in range(n)}
        elif kind == "kilobytes":
            files = lambda k: {"src/w.rs": ("// " + "x" * 1020 + "\n") * n + fn(k)}
        elif kind == "path":
            ps = [("src/" + "/".join(x[i:i + 50] for i in range(0, n, 50)) + ".rs") for x in h.long_names(n)]
            files = lambda k: {p: fn(i + 1 + k) for i, p in enumerate(ps)}
            want = lambda a, b: {(p, "f", ns(i + 1 + a), ns(i + 1 + b)) for i, p in enumerate(ps)}
            pattern = "src/**/*.rs"
        elif kind == "depth":
            ps = ["src/" + "d/" * n + "a.rs", "src/" + "d/" * (n - 1) + "b.rs", "src/a.rs"]
            files = lambda k: {p: fn(i + 1 + k) for i, p in enumerate(ps)}
            want = lambda a, b: {(p, "f", ns(i + 1 + a), ns(i + 1 + b)) for i, p in enumerate(ps)}
            pattern = "src/**/*.rs"
        elif kind == "case":
            ps = [f"src/{x}.rs" for x in (ALIKE[n] if n < len(ALIKE) else sorted({x for a in ALIKE for x in a}))]
            files = lambda k: {p: fn(i + 1 + k) for i, p in enumerate(ps)}
            want = lambda a, b: {(p, "f", ns(i + 1 + a), ns(i + 1 + b)) for i, p in enumerate(ps)}
            pattern = "src/**/*.rs"
        elif kind == "commits":
            defs = [(k, [k - 1] if k > 1 else []) for k in range(1, n + 2)]
            # Pulling is for names.
            revs = [(f"<{n + 1}>", n + 1), ("<1>", 1)] + [(f"main~{n}", 1)] * (way != "pull") + [("main", n + 1)]
            refs["refs/heads/main"] = n + 1
        elif kind in ("branches", "tags"):
            p = {"branches": "heads", "tags": "tags"}[kind]
            refs.update({f"refs/{p}/n{k}": 1 + k % 3 for k in range(n)})
            revs = [(f"n{k}", 1 + k % 3) for k in (n - 1, 0, n // 2, n - 1)]
        else:
            cut = 60 if kind == "name in directories" else n
            xs = ["/".join(x[i:i + cut] for i in range(0, n, cut)) for x in h.long_names(n)]
            p = "tags" if kind == "tag name" else "heads"
            # Nothing is below another reference.
            xs = [x for x in xs if not any(y.startswith(x + "/") for y in xs)]
            refs.update({f"refs/{p}/{x}": 1 + k % 3 for k, x in enumerate(xs)})
            revs = [(x, 1 + k % 3) for k, x in enumerate(xs)] + [(xs[0], 1)]
        r.commits(defs, files)
        refs.setdefault("refs/heads/main", 3 if kind != "commits" else n + 1)
        gitw.git(r.path, "update-ref", "--stdin", inp="".join(f"create {x} {r.sha[k]}\n" for x, k in refs.items()).encode())
        repo = d + "/root/repo"
        gitw.git(d, "clone", "-q", "--template=", r.path, repo)
        srv = None
        if way == "service":
            gitw.git(repo, "config", "remote.origin.url", "https://github.com/org/repo")
            srv = webw.Server(d, ["repo"], observed=False)
        l.state()
        l.trace()
        text = lambda x: r.sha[int(x[1:-1])] if x[0] == "<" else x
        for (a, x), (b, y) in zip(revs, revs[1:]):
            l.steps()
            if srv:
                q = srv.compare("repo", text(a), text(b), path_pattern=pattern)
                ok, got = q is not None and q.status == 200, set(webw.Page(q.body).cells()) if q is not None and q.status == 200 else None
            else:
                q = h.run(gitw.commits_cmd(repo, text(a), text(b), pattern, WAYS[way]))
                ok, got = q.rc == 0, gitw.rows(q.out) if q.rc == 0 else None
            if not ok or got != want(x, y):
                l.violation(name(j), f"{a} {b}: {len(got or ())} rows of {len(want(x, y))}, " + ("" if got is None else f"for example {list(got ^ want(x, y))[:3]}") + f"\n{repr(q)[:2000]}")
                return
        l.outcome("of many or long")
        if srv:
            srv.stop()
    finally:
        gitw.remove(d)


def check(j, l):
    if j[0] == "big":
        return big(j, l)
    if j[0] == "web":
        return web(j, l)
    hd, fl, a, b, dirty = j
    d = f"{h.scratch()}/c{os.getpid()}"
    gitw.copy(f"{W.path}/{hd}", d)
    try:
        if dirty:
            with open(d + "/repo/src/w.rs", "w") as f:
                f.write("modified")
        l.state()
        r = h.run(gitw.commits_cmd(d + "/repo", W.text(a), W.text(b), extra=fl), env_=gitw.observed_env(d + "/log"))
        pull = "--git-pull" in fl and "--offline" not in fl
        (A, ea), (B, eb) = (W.allowed(n, hd, pull, "--git-force" in fl) for n in (a, b))
        l.steps(len(gitw.calls(d + "/log")))
        l.trace()
        if r.rc == 0:
            got = gitw.rows(r.out)
            ok = any(got == gitw.expected(x, y) for x in A for y in B)
            l.outcome("compared")
            if not ok:
                l.violation(name(j), f"compared other revisions: allowed old {A} new {B}\n{r}")
        elif r.crashed:
            l.violation(name(j), f"crashed: {r}")
        else:
            l.outcome("refused")
            if not (ea or eb):
                l.violation(name(j), f"refused existing revisions: allowed old {A} new {B}\n{r}")
        l.sample(name(j) + f": exit {r.rc}")
    finally:
        gitw.remove(d)


def run(ctx):
    global W
    W = world.build(h.scratch() + "/world")
    ctx.bound("%d names pairwise (quick: each with %s), HEAD at %s; flags %s" % (len(world.NAMES), PARTNERS, world.HEADS, FLAGS))
    ctx.assume("No uncommitted changes in tracked weight files except with --git-force, and no untracked files that match the pattern.")
    ctx.assume("The meaning of a name without the remote is what git rev-parse says before the comparison. Names that are both a branch and a tag are not explored.")
    ctx.bound(f"the same names through the web service: some (thorough: all) pairs, git_pull {webworld.PULLS}")
    ctx.bound(f"numbers and lengths up to { {k: v[ctx.thorough] for k, v in BIG.items()} }, by command line and service")
    ctx.par(check, list(big_jobs(ctx)) + list(jobs(ctx)) + list(web_jobs(ctx)), name)
