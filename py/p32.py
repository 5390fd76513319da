"""P32: uncommitted changes are neither compared nor lost."""
import itertools, os, shutil, stat, types
import h, gitw, weights as w, webworld

G = lambda n: w.rust_file([w.Fn("g", (n * 1000, n))])
FLAGS = [(), ("--git-force",)]
# Through the web service, which always forces.
WEB = ("through the service",)
PAIRS = [("1", "2"), ("2", "1"), ("2", "3"), ("main", "1"), ("HEAD", "1")]
HEADS = ["1", "2", "main"]
MAIN = 3
# In every commit src/c.rs and docs/same.txt are alike; src/w.rs differs, src/x<n>.rs is only in commit n.
PATTERN = "src/*.rs"


def files(n):
    f = gitw.weight_files(n)
    f["src/mod.rs"] = "the same everywhere\n"
    f["src/c.rs"] = w.rust_file([w.Fn("c", (77000, 7))])
    f["docs/same.txt"] = "same\n"
    f["lib/c.rs"] = G(9)
    return f


def expected(a, b):
    t = w.fmt("time", 77000)
    return gitw.expected(a, b) | {("src/c.rs", "c", t, t)}


def write(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def edit(path, text):
    def f(r):
        write(f"{r}/{path}", text)
    return f


def stage(path):
    return lambda r: gitw.git(r, "add", "-A", "-f", "--", path)


def both(*fs):
    return lambda r: [f(r) for f in fs]


def exclude(path, text):
    def f(r):
        write(f"{r}/{path}", text)
        write(f"{r}/.git/info/exclude", open(f"{r}/.git/info/exclude").read() + f"/{path}\n" if os.path.exists(f"{r}/.git/info/exclude") else f"/{path}\n")
    return f


def touch(r):
    write(f"{r}/src/c.rs", files(1)["src/c.rs"])
    os.utime(f"{r}/src/c.rs", (1e9, 1e9))


def unlink(path):
    return lambda r: os.path.lexists(f"{r}/{path}") and os.unlink(f"{r}/{path}")


def link(path, to):
    def f(r):
        unlink(path)(r)
        os.symlink(to, f"{r}/{path}")
    return f


def directory(path):
    def f(r):
        unlink(path)(r)
        os.makedirs(f"{r}/{path}", exist_ok=True)
        write(f"{r}/{path}/in.rs", G(5))
    return f


# What somebody does: (name, action, path, what it is).
#   free     must have no influence at all
#   tracked  changes a file that is compared, or that the revisions have differently: without force it may be refused
#   in-way   is where a commit has a file
C2 = w.rust_file([w.Fn("c", (88000, 8))])
EDITS = [
    ("modify c", edit("src/c.rs", C2), "src/c.rs", "tracked"),
    ("stage c", both(edit("src/c.rs", C2), stage("src/c.rs")), "src/c.rs", "tracked"),
    ("stage c and revert", both(edit("src/c.rs", C2), stage("src/c.rs"), touch), "src/c.rs", "tracked"),
    ("touch c", touch, "src/c.rs", "free"),
    ("delete c", unlink("src/c.rs"), "src/c.rs", "tracked"),
    ("remove c", both(unlink("src/c.rs"), stage("src/c.rs")), "src/c.rs", "tracked"),
    ("untrack c", lambda r: gitw.git(r, "rm", "-q", "-f", "--cached", "src/c.rs"), "src/c.rs", "tracked"),
    ("link c", link("src/c.rs", "../lib/c.rs"), "src/c.rs", "tracked"),
    ("chmod c", lambda r: os.chmod(f"{r}/src/c.rs", 0o755), "src/c.rs", "tracked"),
    ("modify w", edit("src/w.rs", w.rust_file([w.Fn("f", (55000, 5))])), "src/w.rs", "tracked"),
    ("delete w", unlink("src/w.rs"), "src/w.rs", "tracked"),
    ("break w", both(edit("src/w.rs", "fn ("), stage("src/w.rs")), "src/w.rs", "tracked"),
    ("modify mod", edit("src/mod.rs", C2), "src/mod.rs", "free"),
    ("modify docs", edit("docs/same.txt", "other\n"), "docs/same.txt", "free"),
    ("delete docs", unlink("docs/same.txt"), "docs/same.txt", "free"),
    ("stage docs", both(edit("docs/same.txt", "other\n"), stage("docs/same.txt")), "docs/same.txt", "free"),
    ("modify lib", both(edit("lib/c.rs", C2), stage("lib/c.rs")), "lib/c.rs", "free"),
    ("new", edit("src/n.rs", G(5)), "src/n.rs", "free"),
    ("new broken", edit("src/n.rs", "fn ("), "src/n.rs", "free"),
    ("new staged", both(edit("src/n.rs", G(5)), stage("src/n.rs")), "src/n.rs", "staged"),
    ("new ignored", exclude("src/i.rs", G(5)), "src/i.rs", "free"),
    ("new link", link("src/l.rs", "../lib/c.rs"), "src/l.rs", "free"),
    ("new link out", link("src/o.rs", "/nonexistent"), "src/o.rs", "free"),
    ("new directory", edit("src/d.rs/in.rs", G(5)), "src/d.rs/in.rs", "free"),
    ("new elsewhere", edit("docs/n.txt", "new\n"), "docs/n.txt", "free"),
    ("new repository", lambda r: (gitw.git(r, "init", "-q", "sub"), write(r + "/sub/a.rs", G(5))), "sub/a.rs", "free"),
    ("x1", edit("src/x1.rs", G(5)), "src/x1.rs", "in-way"),
    ("x2", edit("src/x2.rs", G(5)), "src/x2.rs", "in-way"),
    ("x2 as committed", edit("src/x2.rs", files(2)["src/x2.rs"]), "src/x2.rs", "in-way"),
    ("x3 ignored", exclude("src/x3.rs", G(5)), "src/x3.rs", "in-way-ignored"),
    ("x2 directory", directory("src/x2.rs"), "src/x2.rs/in.rs", "in-way"),
]


def build(path):
    r = gitw.Repo(path + "/repo")
    r.commits([(1, []), (2, [1]), (3, [2])], files)
    r.ref("refs/heads/main", MAIN)
    for hd in HEADS:
        os.makedirs(f"{path}/{hd}")
        gitw.copy(r.path, f"{path}/{hd}/repo")
        gitw.git(f"{path}/{hd}/repo", "checkout", "-q", "-f", *(["--detach", r.sha[int(hd)]] if hd.isdigit() else [hd]))
    return r.sha


def text(n):
    return SHA[int(n)] if n.isdigit() else n


def number(n, hd):
    n = hd if n == "HEAD" else n
    return MAIN if n == "main" else int(n)


def look(p):
    """What is at a path."""
    try:
        s = os.lstat(p)
    except OSError:
        return None
    if stat.S_ISLNK(s.st_mode):
        return "link", os.readlink(p)
    if stat.S_ISDIR(s.st_mode):
        return "directory"
    return "file", s.st_mode & 0o111, open(p).read()


def name(j):
    hd, es, (a, b), fl, fl2 = j
    return f"head={hd}: {', '.join(EDITS[e][0] for e in es)}; compare {a} {b} {' '.join(fl)}" + (f"; again {' '.join(fl2)}" if fl2 is not None else "")


def check(j, l):
    hd, es, (a, b), fl, fl2 = j
    d, case = f"{h.scratch()}/d{os.getpid()}", name(j)
    if fl == WEB:
        s = webworld.site(types.SimpleNamespace(path=WORLD), heads=HEADS, observed=False)
        s.reset(hd)
        repo = s.repo(hd)
    else:
        gitw.copy(f"{WORLD}/{hd}", d)
        repo = d + "/repo"
    try:
        for e in es:
            try:
                EDITS[e][1](repo)
            except RuntimeError:
                l.outcome("edit not possible")
                return
        paths = [EDITS[e][2] for e in es]
        kinds = {EDITS[e][3] for e in es}
        A, B = (number(n, hd) for n in (a, b))
        for k, f in enumerate((fl, fl2)):
            if f is None:
                break
            before = {p: look(f"{repo}/{p}") for p in paths}
            index = {p: gitw.git(repo, "ls-files", "-s", "--", p) for p in paths}
            staged = set(gitw.git(repo, "diff", "--cached", "--name-only").splitlines())
            dirty = gitw.git(repo, "status", "--porcelain", "-z", "--untracked-files=all")
            if f == WEB:
                r = s.compare(hd, text(a), text(b), "false", path_pattern=PATTERN)
            else:
                r = h.run(gitw.commits_cmd(repo, text(a), text(b), PATTERN, f), env_=h.env(GIT_OPTIONAL_LOCKS="1"))
            l.steps()
            x, y = A, B
            if k and a == "HEAD":
                x = None
            want = [expected(n, y) for n in ((x,) if x else (A, B))]
            if r.crashed or r.rc == 0 and (r.rows if f == WEB else gitw.rows(r.out)) not in want:
                l.violation(case, f"wrong rows, expected {want}; status was {dirty!r}\n{r}")
                return
            force = bool(f)
            may = kinds & {"in-way"} and any("directory" in EDITS[e][0] for e in es) if force else kinds - {"free", "staged"}
            if r.rc and not may:
                l.violation(case, f"refused; status was {dirty!r}\n{r}")
                return
            l.outcome(("forced " if force else "") + ("refused" if r.rc else "right"))
            for e, p in zip(es, paths):
                kind = EDITS[e][3]
                after = look(f"{repo}/{p}")
                # Forcing is about changes of what the commits have.
                if force and (index[p] or kind.startswith("in-way") or kind == "tracked"):
                    continue
                # Git takes ignored files for dispensable.
                if kind == "in-way-ignored":
                    continue
                now = gitw.git(repo, "ls-files", "-s", "--", p)
                # What was deleted, and what is committed anyway, is not lost.
                if before[p] and after != before[p] and before[p] not in [("file", 0, files(n).get(p)) for n in (1, 2, 3)]:
                    l.violation(case, f"{p} was {before[p]!r} and is {after!r}\n{r}")
                    return
                if not force and p in staged and now != index[p]:
                    l.violation(case, f"in the index {p} was {index[p]!r} and is {now!r}\n{r}")
                    return
        l.state()
        l.trace()
        l.sample(case)
        l.names.add(case)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    global WORLD, SHA
    WORLD = h.scratch() + "/world"
    os.makedirs(WORLD)
    SHA = build(WORLD)
    jobs = []
    for n in (0, 1, 2, 3) if ctx.thorough else (0, 1, 2):
        for es in itertools.combinations(range(len(EDITS)), n):
            if len({EDITS[e][2].split("/in.rs")[0] for e in es}) < n:
                continue
            for hd in HEADS:
                for p in PAIRS:
                    if n < 2 or (HEADS.index(hd), PAIRS.index(p)) in ((0, 0), (1, 2), (2, 3)):
                        for fl in FLAGS:
                            for fl2 in ((None, *FLAGS) if n < 2 else (None,)):
                                jobs.append((hd, es, p, fl, fl2))
                        for fl2 in (None, WEB) if n < 2 else (None,):
                            jobs.append((hd, es, p, WEB, fl2))
    ctx.bound(f"every combination of up to {3 if ctx.thorough else 2} of {len(EDITS)} local changes in different files, HEAD at {HEADS}, comparing {PAIRS} (for two and more changes: some of these), with and without force and through the web service (which forces), single changes also followed by a second comparison")
    ctx.assume("What git documents as dispensable is: ignored files where a commit has a file, and with force all changes of files that are tracked or in the way.")
    ctx.par(check, jobs, name)
    ctx.extra.update(evaluations=ctx.t.states, distinct_nontrivial=len(ctx.t.names))
