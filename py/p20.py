"""P20: a path pattern selects exactly the matching files inside the repository."""
import itertools, os, re, subprocess, sys
import h, gitw, webw, weights as w

# Files of the two revisions; every one can be told by its name in the report.
OLD = ["a.rs", "b.rs", "ab.rs", ".h.rs", "mod.rs", "[b].rs", "a b.rs", "d/a.rs", "d/mod.rs", "d/e/b.rs", "d/e/a.rs", ".d/a.rs", "x.rs/c.rs", "d/amod.rs",
       "d/gone.rs", "E/a.rs", "d/\u00fc.rs"]
NEW = [f for f in OLD if f not in ("d/gone.rs", "b.rs")] + ["d/new.rs", "n/e/w.rs"]
# Paths that are no files of the revision: links leading out, to nowhere, and to a directory outside.
LINKS = {"out.rs": "../outside/a.rs", "d/up": "../../outside", "lo": "../outside", "dang.rs": "nowhere.rs", "d/bad.rs": "../../outside/bad.rs", "hd.rs": ".git/HEAD"}
# A link to a file of the revision; whether it counts is not specified.
INSIDE = {"in.rs": "d/a.rs"}

SEGS = ["a.rs", "*.rs", "*", "?.rs", "**", "[ab].rs", "[!a].rs", "[a-c]*", "d", "e", ".*", ".?", ".[.]", ".", "x.rs", "lo", "[[]b].rs", "*d*", "?", "mod.rs", "m*",
        ".git", "refs", "heads", "up", "outside", "repo", "*b.rs", "E", "\u00fc.rs", "a b.rs", "[", "***", "a**", "]"]
LAST = ["a.rs", "*.rs", "*", "**", "[!a].rs", "HEAD", "mod.rs", "?.rs"]
SMALL = ["*.rs", "**/*.rs", "d/*", "d/*.rs", ".?/*/*.rs", "*/a.rs", "**/[ab].rs", "[[]b].rs", "lo/*.rs", "d/../a.rs", "/a.rs", "**/mod.rs", "nope.rs", "a.rs,b.rs", ".*/*.rs"]
LOCATIONS = ["repo", "r[x]", "r*", "r?", "[r]", "[!r]", "r**", "**", "r{a,b}", "r,q", "r q", ".r", "r]", "r[", "-r", "r\\x", "r'\"", "r\u00fc", "r%20", "~", "$HOME", "...", "r.git", "r\nq", "d"]
# How the location is given; %s is its name.
WAYS = ["abs", "rel", "dot", "slash", "up", "dotrel", "link", "double"]


def build(top, name):
    """top/<name> is the repository; around it are files that must not be read."""
    path = os.path.join(top, name)
    os.makedirs(top + "/outside/x")
    fn = lambda f: w.rust_file([w.Fn("f", (1000, 0)), w.Fn("outside", (1000, 0))])
    for f in ("outside/a.rs", "outside/b.rs", "outside/x/a.rs", "a.rs", "o.rs"):
        open(f"{top}/{f}", "w").write(fn(f))
    open(top + "/outside/bad.rs", "w").write("SECRET {")
    # What the location would match if it was a pattern itself.
    for decoy in ("rx", "r", "x", "r1", "q", "ra"):
        if decoy != name:
            os.makedirs(f"{top}/{decoy}/d")
            for f in ("a.rs", "d/a.rs", "decoy.rs"):
                open(f"{top}/{decoy}/{f}", "w").write(fn(f))
    os.makedirs(top + "/cwd")
    r = gitw.Repo(path)
    val = lambda n, f: w.rust_file([w.Fn("f", (n * 1000, 0))])
    files = lambda n: {**{f: val(n, f) for f in (OLD if n == 1 else NEW)}, **{k: ("120000", v) for k, v in {**LINKS, **INSIDE}.items()}}
    import gitw as g
    commits(r, files)
    r.ref("refs/heads/main", 1)
    r.ref("refs/heads/a.rs", 1)
    r.ref("refs/heads/heads/b.rs", 2)
    git = gitw.git
    git(path, "config", "core.logAllRefUpdates", "false")
    git(path, "checkout", "-q", "-f", "main")
    return r


def commits(r, files):
    """Like Repo.commits but without a newline at the end of links."""
    out = []
    for i, n in enumerate((1, 2)):
        out.append(f"commit refs/mc/{n}\nmark :{i + 1}\ncommitter a <a@a> {1577836800 + n} +0000\ndata 1\n{n}\n".encode())
        if n == 2:
            out.append(b"from :1\n")
        out.append(b"deleteall\n")
        for f, c in files(n).items():
            mode, c = c if isinstance(c, tuple) else ("100644", c)
            c = c.encode()
            out.append(f"M {mode} inline {f}\ndata {len(c)}\n".encode() + c + b"\n")
        out.append(b"\n")
    gitw.git(r.path, "fast-import", "--quiet", "--export-marks=.git/mc-marks", inp=b"".join(out))
    r.sha = {int(l.split()[0][1:]): l.split()[1] for l in open(r.path + "/.git/mc-marks")}
    os.unlink(r.path + "/.git/mc-marks")
    for n in (1, 2):
        gitw.git(r.path, "update-ref", "-d", f"refs/mc/{n}")


sys.setrecursionlimit(20000)


def seg_re(s):
    """The regular expression of a pattern segment, or None if it is invalid."""
    if "**" in s and s != "**":
        return None
    o, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "*":
            o += "[^/]*"
        elif c == "?":
            o += "[^/]"
        elif c == "[":
            neg = s[i + 1:i + 2] == "!"
            j = i + 1 + neg
            e = s.find("]", j + 1)  # A bracket right at the start is a character.
            if e < 0:
                return None
            o += "[" + ("^/" if neg else "") + "".join(re.escape(x) if x != "-" or k in (0, len(s[j:e]) - 1) else "-" for k, x in enumerate(s[j:e])) + "]"
            i = e
        else:
            o += re.escape(c)
        i += 1
    return re.compile(o + r"\Z")


def select(pattern, files):
    """(files that must be compared, files that may be, error): error is None if there may be none, else whether there must be one."""
    must, may = set(), set()
    if ".." in pattern:
        return must, set(files), "required"
    for alt in pattern.split(","):
        segs = [s for s in alt.split("/") if s]
        if any(s != "**" and seg_re(s) is None for s in segs):
            return must, set(files), "required"
        if not segs or alt.endswith("/"):
            continue
        for f in files:
            # A segment such as `.*` also matches the directory itself.
            if ("**", ".") not in zip(segs, segs[1:]) and match(segs, f.split("/"), False):
                must.add(f)
            if match(segs, f.split("/"), True):
                may.add(f)
    return must, must | may, None


def match(segs, parts, lax):
    if not segs:
        return not parts
    s, rest = segs[0], segs[1:]
    if s == "**":
        # It stands for directories, so there is a file behind it.
        return any(match(rest, parts[i:], lax) for i in range(len(parts) + 1)) if rest else False
    if s == ".":
        return bool(rest) and match(rest, parts, lax)
    r = seg_re(s)
    if lax and rest and s.startswith(".") and r.match("."):
        if match(rest, parts, lax):
            return True
    return bool(parts) and bool(r.match(parts[0])) and match(rest, parts[1:], lax)


def is_mod(f):
    return f == "mod.rs" or f.endswith("/mod.rs")


def want(pattern):
    om, oa, oe = select(pattern, [f for f in OLD + list(INSIDE) if not is_mod(f)])
    nm, na, ne = select(pattern, [f for f in NEW + list(INSIDE) if not is_mod(f)])
    drop = set(INSIDE)
    return om - drop, oa | drop, nm - drop, na | drop, oe


def name(j):
    p = repr(j[2]) if len(j[2]) < 200 else f"{j[2][:60]!r}..{j[2][-60:]!r} of {len(j[2])}"
    return f"location={j[0]!r} given={j[1]} pattern={p}"


def verdict(j, rc, rows, text, l):
    pattern = j[2]
    om, oa, nm, na, err = want(pattern)
    if err:
        l.outcome("refused")
        if rc == 0:
            l.violation(name(j), f"an invalid pattern was accepted\n{text}")
        return
    l.outcome(f"{min(len(om), 9)} files")
    if rc:
        return l.violation(name(j), f"refused\n{text}")
    bad = []
    # `d/./a.rs` is the file `d/a.rs`.
    rows = [(re.sub(r"(^|/)(\./)+", r"\1", f), *x) for f, *x in rows]
    old = [(f, n) for f, n, o, _ in rows if o]
    new = [(f, n) for f, n, _, v in rows if v]
    if len(set(r[:2] for r in rows)) != len(rows):
        bad.append("a file shows twice")
    for side, got, must, may, val in (("old", old, om, oa, "1.00ns"), ("new", new, nm, na, "2.00ns")):
        g = {f for f, n in got}
        if must - g:
            bad.append(f"{side} lacks {sorted(must - g)}")
        if g - may:
            bad.append(f"{side} has {sorted(g - may)}")
        if any(n != "f" for _, n in got):
            bad.append("something from outside was read")
        if any(r[2 if side == "old" else 3] not in ("", val) for r in rows):
            bad.append(f"{side} is of another revision")
    if bad:
        l.violation(name(j), "; ".join(bad) + f"\n{text}")


TOPS = {}


def top(loc):
    """A copy for this process, since comparisons switch it."""
    k = loc, os.getpid()
    if k not in TOPS:
        i = len(TOPS)
        TOPS[k] = f"{h.scratch()}/t{os.getpid()}-{i}"
        gitw.copy(f"{h.scratch()}/base/{LOCATIONS.index(loc)}", TOPS[k])
    return TOPS[k]


def served():
    """A service of this process for the first location."""
    if os.getpid() not in SERVED:
        d = f"{h.scratch()}/served{os.getpid()}"
        os.makedirs(d)
        gitw.copy(f"{h.scratch()}/base/0", d + "/root")
        webw.add_origin(d + "/root/repo", "org", "repo")
        SERVED[os.getpid()] = webw.Server(d, ["repo"], observed=False, extra=dict(GIT_CEILING_DIRECTORIES=d + "/root"))
    return SERVED[os.getpid()]


SERVED = {}


def web(j, l):
    pattern = j[2]
    r = served().compare("repo", W["repo"].sha[1], W["repo"].sha[2], path_pattern=pattern)
    l.state()
    l.steps(2)
    l.trace()
    if r is None or "SECRET" in r.body:
        return l.violation(name(j), f"no answer or read a file outside\n{r}")
    verdict(j, 0 if r.status == 200 else 1, webw.Page(r.body).cells() if r.status == 200 else [], repr(r), l)


def check(j, l):
    loc, way, pattern = j
    if way == "service":
        return web(j, l)
    t = top(loc)
    path = f"{t}/{loc}"
    cwd = t + "/cwd"
    if way == "rel":
        cwd, arg = t, loc
    elif way == "dot":
        cwd, arg = path, "."
    elif way == "slash":
        arg = path + "/"
    elif way == "up":
        arg = f"../{loc}"
    elif way == "dotrel":
        cwd, arg = t, f"./{loc}"
    elif way == "double":
        arg = f"{t}//./{loc}"
    elif way == "link":
        if not os.path.islink(t + "/cwd/link"):
            os.symlink(path, t + "/cwd/link")
        arg = "link"
    else:
        arg = path
    if arg.startswith("-"):
        arg = "./" + arg
    cmd = [h.CLI, "compare", "commits", "--format", "csv", "--no-color", "--threshold", "0", "--method", "base", f"--repo={arg}",
           f"--path-pattern={pattern}", "--", W[loc].sha[1], W[loc].sha[2]]
    e = h.env(GIT_CEILING_DIRECTORIES=t)
    r = h.run(cmd, cwd=cwd, env_=e)
    l.state()
    l.steps(2)
    l.trace()
    if r.crashed or "SECRET" in r.out + r.err:
        return l.violation(name(j), f"crashed or read a file outside\n{r}")
    verdict(j, r.rc, gitw.rows(r.out) if r.rc == 0 else [], repr(r), l)
    if r.rc == 0:
        l.sample(f"{name(j)}: {sorted(x[0] for x in gitw.rows(r.out))}"[:300])


def limit_name(j):
    return f"pattern={j[0]!r} limit={j[1]}"


def limits(j, l):
    """The limit on the number of files, through the library."""
    pattern, n = j
    path = top("repo") + "/repo"
    r = h.run([os.environ["MC_TARGET"] + "/release/mc", "compare", path, W["repo"].sha[1], W["repo"].sha[2], pattern, str(n)])
    l.state()
    l.steps()
    l.trace()
    om, oa, nm, na, err = want(pattern)
    most = max(sum(len(want(p)[1 if side == 0 else 3]) for p in pattern.split(",")) for side in (0, 1))
    least = max(len(om), len(nm))
    if r.crashed or r.rc not in (0, 1):
        l.violation(limit_name(j), repr(r))
    elif n < least and r.rc == 0:
        l.violation(limit_name(j), f"{least} files were accepted\n{r}")
    elif n >= most and r.rc:
        l.violation(limit_name(j), f"no more than {most} files were refused\n{r}")
    l.outcome("within the limit" if r.rc == 0 else "too many files")


def many_setup():
    """Commits with 6000 and 6001 files."""
    s = h.scratch() + "/many"
    os.makedirs(s + "/root")
    r = gitw.Repo(s + "/root/m")
    webw.add_origin(r.path, "org", "m")
    text = w.rust_file([w.Fn("f", (1000, 0))])
    r.commits([(1, []), (2, [1])], lambda n: {f"m/{i:04}.rs": text for i in range(5999 + n)})
    gitw.git(r.path, "checkout", "-q", "--detach", r.sha[1])
    W["many"] = r
    gitw.copy(s, s + "-web")


def many(j, l):
    """Only the service limits the number of files, to 6000."""
    via, a, b, pattern = j
    r = W["many"]
    l.state()
    l.steps(2)
    l.trace()
    if via == "cli":
        x = h.run(gitw.commits_cmd(r.path, r.sha[a], r.sha[b], pattern=pattern))
        n = len(gitw.rows(x.out)) if x.rc == 0 else -1
        want = 5999 + max(a, b) if pattern != "m/00*.rs" else 100
        if n != want:
            l.violation(many_name(j), f"{n} files instead of {want}: exit {x.rc} {x.err[-500:]}")
    else:
        s = webw.Server(h.scratch() + "/many-web", ["m"], observed=False)
        try:
            for a, b in itertools.product((1, 2), repeat=2):
                x = s.compare("m", r.sha[a], r.sha[b], path_pattern=pattern, extrinsic="nothing")
                if x is None or (x.status == 200) != (a == b == 1 or pattern == "m/00*.rs"):
                    l.violation(many_name(j), f"{5999 + a} and {5999 + b} files: {x}")
        finally:
            s.stop()
    l.outcome("many files")


def many_name(j):
    return f"many files: {j[0]} {j[1]} {j[2]} pattern={j[3]!r}"


def run(ctx):
    global W
    W = {}
    os.makedirs(h.scratch() + "/base")
    for i, loc in enumerate(LOCATIONS):
        W[loc] = build(f"{h.scratch()}/base/{i}", loc)
    segs = [SEGS, SEGS]
    pats = list(SEGS) + ["", "/", ",", "a.rs,", ",a.rs", "/a.rs", "//a.rs", "a.rs/", "d/", "d//a.rs"]
    pats += ["/".join(p) for p in itertools.product(SEGS, SEGS)]
    # Two segments that decide where, one that decides what.
    where = SEGS if ctx.thorough else ["*", "**", "d", ".*", ".?", ".[.]", ".", "lo", "*d*", "repo", ".git", "?"]
    pats += ["/".join(p) for p in itertools.product(where, where, LAST)]
    if ctx.thorough:
        pats += ["/".join(p) for p in itertools.product([".*", ".?", "**", "*", "d", ".", "repo", "outside"], repeat=4)]
    alts = ["a.rs", "*.rs", "d/*.rs", "**/a.rs", "**/*.rs", "nope", "mod.rs", "*/mod.rs", "lo/a.rs", ".?/a.rs", "[", "d", "", "[!a].rs"]
    pats += [",".join(p) for k in ((2, 3) if ctx.thorough else (2,)) for p in itertools.product(alts, repeat=k)]
    pats = list(dict.fromkeys(pats))
    jobs = [("repo", "abs", p) for p in pats]
    jobs += [(loc, way, p) for loc in LOCATIONS for way in (WAYS if ctx.thorough or loc in ("repo", "r[x]") else ["abs", "dot"]) for p in SMALL]
    # Many alternatives, of which one or two mean something; and long ones.
    long = []
    for n in h.sizes(1025):
        if n > 2:
            for at in sorted({0, n // 2, n - 1}):
                long.append(",".join("d/*.rs" if k == at else f"z{k}.rs" for k in range(n)))
            long.append(",".join(["*.rs"] + [f"z{k}.rs" for k in range(n - 2)] + ["d/e/*.rs"]))
        long += ["[" + "a" * n + "].rs", "[!" + "z" * n + "].rs", "d/" + "e/" + "./" * n + "a.rs", "d" + "/" * n + "a.rs", "y" * n + ".rs,*b.rs"]
        if n <= 65:
            long.append("**/" * n + "a.rs")
    long = list(dict.fromkeys(long))
    jobs += [("repo", x, p) for i, p in enumerate(long) for x in (("abs", "service") if ctx.thorough else (("abs", "service")[i % 2],))]
    ctx.bound(f"{len(long)} patterns with up to 1025 alternatives, characters of a class, directories or slashes")
    web_pats = pats if ctx.thorough else SMALL + list(SEGS) + pats[len(SEGS)::7]
    jobs += [("repo", "service", p) for p in dict.fromkeys(web_pats) if p == p.strip()]
    ctx.bound("all (quick: some) of the patterns through the service")
    ctx.bound(f"{len(pats)} patterns of up to {4 if ctx.thorough else 3} segments from {len(SEGS)} and lists of up to {3 if ctx.thorough else 2} alternatives; {len(SMALL)} patterns "
              f"at {len(LOCATIONS)} locations given in up to {len(WAYS)} ways; limits 0 to 20 on the number of files")
    ctx.assume("The working tree is clean. A pattern ending in `**` stands for directories. Whether a link to a file of the repository counts, whether `.*` may stand "
               "for the directory itself, and what `.` after `**` stands for, is not specified. Names and locations are valid Unicode.")
    ctx.par(check, jobs, name)
    ctx.par(limits, [(p, n) for p in ("*.rs", "**/*.rs", "a.rs", "nope", "a.rs,b.rs", "a.rs,a.rs", "d/*.rs,*.rs,**/a.rs", "**/mod.rs,a.rs", "d/*", "*") for n in range(0, 21)], limit_name)
    many_setup()
    ctx.par(many, [("cli", 2, 2, "m/*.rs"), ("cli", 2, 2, "m/00*.rs"), ("web", 1, 2, "m/*.rs"), ("web", 1, 2, "m/00*.rs")], many_name, procs=1)
    ctx.bound("6000 and 6001 files on the command line and through the service")
