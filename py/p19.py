"""P19: revision names are only ever used as revision names."""
import hashlib, itertools, os, stat
import html
import h, gitw, world, webworld

FLAGS = [(), ("--git-force",), ("--git-pull",), ("--git-pull", "--git-force")]
S = "SENTINEL"  # replaced by a path that must not come into existence

OPTIONS = ["-", "--", "---", "-h", "--help", "-f", "-q", "-v", "-b", "-bevil", "-Bmain", "-Bevil", "-b evil", "-devil", "-Dmain", "--orphan=evil", "--detach", "--force",
           "--upload-pack=touch S", "--upload-pack=touch S;git-upload-pack", "-u touch S", "--exec=touch S", "--receive-pack=touch S",
           "--output=S", "-oS", "--all", "--prune", "--tags", "-t", "-n", "--dry-run", "--multiple", "--unshallow", "--depth=1", "--refmap=",
           "--refmap=+refs/heads/*:refs/heads/*", "--update-head-ok", "--write-fetch-head", "--recurse-submodules", "--set-upstream", "--stdin",
           "--hard", "--soft", "--mixed", "--merge", "--pathspec-from-file=S", "--batch", "--batch-check", "--batch-all-objects", "--textconv",
           "--filters", "--git-dir=S", "--work-tree=S", "-C", "-c", "-ccore.pager=touch S", "-p", "--patch", "--ours", "--theirs", "--conflict=merge",
           "--guess", "-l", "--end-of-options", "--verify", "--parseopt", "--sq-quote", "--git-path", "--show-toplevel", "--glob=*", "--branches"]
PATHS = ["src/w.rs", "src/", "./src", ".", "..", "./", ":/", ":/src", ":(top)src", ":(glob)**", ":!src", "*", "*.rs", "src/*", ":src/w.rs", ":0:src/w.rs",
         "HEAD:src/w.rs", "HEAD:", "main:src", "main:", "/", "/etc/passwd", "../remote.git", ".git", ".git/HEAD", "-- src", "main -- src", "--pathspec-from-file=src/w.rs"]
SPECS = ["main:evil", "main:refs/heads/evil", "+main:main", "+main:refs/heads/lonly", "main:refs/tags/evil", "refs/heads/*:refs/heads/*",
         "+refs/heads/*:refs/heads/*", "+refs/heads/*:refs/tags/*", "refs/*:refs/*", ":refs/heads/evil", ":", "+:", "+main", "+", "main:", ":main", "^main",
         "refs/heads/*", "refs/heads/m*", "*", "*:*", "m*", "tag v3", "tag", "main feature", "HEAD:refs/heads/evil", "+HEAD:refs/heads/lonly", "<1>:refs/heads/evil",
         "feature:lonly", "v1:refs/tags/v2", "+v1:refs/tags/v2"]
NOT_COMMITS = ["main..feature", "main...feature", "..main", "main..", "main^@", "main^!", "main^-", "HEAD^{tree}", "<blob>", "<tree>", "HEAD^{blob}", "v2^{tree}",
               "HEAD^9", "HEAD~99", "refs/heads", "refs/heads/", "heads", "main/", "/main", "main//", "refs", "origin/", "MAIN.", "main.lock", "main@{", "@{u}", "main@{99}",
               "main^{", "main^{nothing}", "@{-1}", "evil"]
SPACES = ["", " ", "\n", "main\n", "main\nfeature", "\nmain", "main feature", "main\t", "\tmain", " main", "main ", "main\r", "nope\nmain", "nope\nmain^{commit}", "main\x1f", "\x1b[31m",
          "main^{commit}\nmain", "nope^{commit}\n<1>", "main\u00a0", "ｍain", "ma\u200bin"]
SHELL = ["$(touch S)", "`touch S`", "; touch S", "main; touch S", "| touch S", "main && touch S", "' ; touch S ; '", "\" ; touch S ; \"", "${IFS}", "main\n touch S",
         "ext::sh -c touch% S", "file:///etc", "!touch S", "main #", "%s%n", "a" * 5000, "\\", "main\\", "../../S", "refs/../S", "refs/heads/../../config"]
TEXTS = list(dict.fromkeys(OPTIONS + PATHS + SPECS + NOT_COMMITS + SPACES + SHELL))
# Texts that do name a revision, to see that they are still accepted.
GOOD = ["origin", "main^0", "main@{0}", "HEAD^{}", "HEAD^{commit}", "remotes/origin/HEAD"]


def name(j):
    if j[0] == "web":
        return f"service: head={j[1]} git_pull={j[2]} old={j[3]!r} new={j[4]!r}"
    return f"head={j[0]} flags={' '.join(j[1])} old={j[2]!r} new={j[3]!r}"


def snapshot(d, repo="repo"):
    """Everything below d except what git keeps for itself in the repository, and the git logs of the harness."""
    out = {}
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        if rel == repo + "/.git":
            dirs[:] = [x for x in dirs if x in ("hooks", "info")]
            files = [x for x in files if x not in ("HEAD", "ORIG_HEAD", "FETCH_HEAD", "index", "packed-refs")]
        if rel == repo:
            dirs[:] = [x for x in dirs if x == ".git"]
            files = []
        for x in dirs + files:
            p = os.path.join(root, x)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (stat.S_IFMT(st.st_mode), hashlib.sha256(open(p, "rb").read()).hexdigest() if x in files and stat.S_ISREG(st.st_mode) else "")
    return {k: v for k, v in out.items() if not k.startswith("log.")}


def expand(t, d):
    for n, s in W.sha.items():
        t = t.replace(f"<{n}>", s)
    t = t.replace("<blob>", W.blob).replace("<tree>", W.tree)
    return t.replace("S", d + "/sentinel") if t in SENT else t


SENT = {t for t in TEXTS if any(x in t for x in ("touch S", "=S", "-oS", "/S", "touch% S"))}


def repo_changes(repo, refs, now, hd, pull):
    bad = []
    moved = {k for k in set(refs) | set(now) if refs.get(k) != now.get(k)}
    # A pull of `main` brings along its remote-tracking branch and the tags on it.
    moved = {k for k in moved if not (pull and k in ("refs/remotes/origin/main", "refs/remotes/origin/HEAD", "refs/tags/v3"))}
    if moved:
        bad.append(f"refs changed: {moved}")
    head = gitw.git(repo, "rev-parse", "HEAD")
    ok_heads = {W.sha[n] for n in (2, 3, 4, 71)} | {gitw.git(f"{W.path}/{hd}/repo", "rev-parse", "HEAD")}
    if head not in ok_heads:
        bad.append(f"switched to {head}")
    st = gitw.git(repo, "status", "--porcelain", "--ignored")
    if st:
        bad.append(f"working tree is not that of the revision: {st}")
    return bad


def web(j, l):
    _, hd, pull, a, b = j
    s = webworld.site(W)
    s.reset(hd)
    d, repo = s.dir, s.repo(hd)
    refs = gitw.refs(repo)
    outside = lambda: {k: v for k, v in snapshot(d, f"root/{hd}").items() if k != "server.err"}
    before = outside()
    ta, tb = expand(a, d), expand(b, d)
    r = s.compare(hd, ta, tb, pull)
    l.state()
    l.trace()
    l.steps(len(s.calls()))
    bad = []
    if r.crashed:
        bad.append("no answer")
    # Spaces around are ignored there, and entities are decoded.
    named = [html.unescape(t).strip() in GOOD + ["main"] for t in (ta, tb)]
    if r.rc == 0 and not all(named):
        bad.append("accepted a text that names no revision")
    if r.rc and all(t in GOOD + ["main"] for t in (ta, tb)) and pull == "false":
        bad.append("refused a revision")
    l.outcome("refused by the service" if r.rc else "accepted by the service")
    after = outside()
    if after != before:
        bad.append(f"files changed: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
    bad += repo_changes(repo, refs, gitw.refs(repo), hd, pull != "false")
    if bad:
        l.violation(name(j), "; ".join(bad) + f"\n{s.calls()}\n{r}")
    l.sample(name(j) + f": {r.r and r.r.status}")


def check(j, l):
    if j[0] == "web":
        return web(j, l)
    hd, fl, a, b = j
    d = f"{h.scratch()}/s{os.getpid()}"
    gitw.copy(f"{W.path}/{hd}", d)
    os.makedirs(d + "/cwd")
    try:
        repo = d + "/repo"
        refs = gitw.refs(repo)
        before = snapshot(d)
        ta, tb = expand(a, d), expand(b, d)
        e = gitw.observed_env(d + "/log")
        r = h.run(gitw.commits_cmd(repo, ta, tb, extra=fl), cwd=d + "/cwd", env_=e)
        l.state()
        l.trace()
        l.steps(len(gitw.calls(d + "/log")))
        bad = []
        if r.crashed:
            bad.append("crashed")
        named = [t in GOOD + ["main"] for t in (a, b)]
        if r.rc == 0 and not all(named):
            bad.append("accepted a text that names no revision")
        if r.rc and all(named) and "--git-pull" not in fl:
            bad.append("refused a revision")
        l.outcome("accepted" if r.rc == 0 else "refused")
        after = snapshot(d)
        if after != before:
            bad.append(f"files changed: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
        now = gitw.refs(repo)
        bad += repo_changes(repo, refs, now, hd, "--git-pull" in fl)
        if os.listdir(d + "/cwd"):
            bad.append("files in the current directory")
        if bad:
            l.violation(name(j), "; ".join(bad) + f"\n{gitw.calls(d + '/log')}\n{r}")
        l.sample(name(j) + f": exit {r.rc}")
    finally:
        gitw.remove(d)


def run(ctx):
    global W
    W = world.build(h.scratch() + "/world")
    W.blob = gitw.git(f"{W.path}/main/repo", "rev-parse", "HEAD:src/w.rs")
    W.tree = gitw.git(f"{W.path}/main/repo", "rev-parse", "HEAD:src")
    heads = world.HEADS if ctx.thorough else ["main"]
    jobs = []
    for hd, fl in itertools.product(heads, FLAGS):
        for t in TEXTS + GOOD:
            jobs += [(hd, fl, t, "main"), (hd, fl, "main", t), (hd, fl, t, t)]
        if ctx.thorough:
            some = TEXTS[::7]
            jobs += [(hd, fl, a, b) for a in some for b in some if a != b]
    for hd, pull in itertools.product(heads, webworld.PULLS[::2]):
        for t in TEXTS + GOOD:
            jobs += [("web", hd, pull, t, "main"), ("web", hd, pull, "main", t), ("web", hd, pull, t, t)]
    ctx.bound("the same through the web service, with and without pulling")
    ctx.bound(f"{len(TEXTS)} texts (options, paths, fetch specifications, ranges, non-commits, whitespace, shell) as old, new or both; HEAD at {heads}; flags {FLAGS}")
    ctx.par(check, jobs, name)
