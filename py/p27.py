"""P27: the branch list and the version answers."""
import itertools, json, os, re
import h, gitw, webw

NAMES = ["main", "a", "a/b", "refs/heads/x", "refs/tags/x", "x/refs/heads/y", "x/refs/tags/y", "xrefs/heads/y", "heads/z", "tags/z", "v1", "v1.0", "x", "y", "origin/main", "remotes/origin/a", "HEAD", "FETCH_HEAD",
         "\u00fcn\u00ef", "a\u00a0b", "a\u3000b", "a\u2028b", "\u00a0", "a\u0085b", "0123456789ab", "0123456789abcdef0123456789abcdef01234567", "<b>", "a&amp;b", "&", '"', "'", "a%20b", "a+b", "a#b", "a@b", "@a", "-x", "$(x)", "a,b", "a;b", "a|b", "A", "feature/" + "long" * 30,
         "master", "refs/x", "refs", "heads", "a/refs/heads", "dependabot/cargo/refs/heads/z", "{x}", "a{", "x}", "\u00df", "\U0001f980", "a=b", "a!b", "(a)", "a.lock.b", "a/refs/tags/b/refs/heads/c"]
KINDS = ["branch", "tag", "annotated", "tag of tag", "tag of tree", "tag of blob"]
DROPPABLE = re.compile(r"[{}^]")


class W:
    pass


def build():
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    r.commits([(n, [n - 1] if n > 1 else []) for n in range(1, 6)])
    p = r.path
    sha = W.sha = dict(r.sha)
    W.tag = {}
    for n in range(1, 6):
        obj = lambda of, t: gitw.git(p, "hash-object", "-t", "tag", "-w", "--stdin", inp=f"object {of}\ntype {t}\ntag t\ntagger a <a@a> 1577836800 +0000\n\n{n}\n".encode())
        ann = obj(sha[n], "commit")
        W.tag[n] = {"annotated": ann, "tag of tag": obj(ann, "tag"), "tag of tree": gitw.git(p, "rev-parse", sha[n] + "^{tree}"), "tag of blob": gitw.git(p, "rev-parse", sha[n] + ":src/w.rs")}
    r.ref("refs/heads/main", 1)
    r.ref("refs/heads/mine", 2)
    gitw.git(p, "checkout", "-q", "main")
    os.makedirs(base + "/remotes/org")
    # All objects are in the remote; those that are not reachable from its branches and tags must not come from elsewhere.
    m = f"{base}/remotes/org/r.git"
    gitw.copy(p, base + "/all")
    gitw.git(base, "init", "-q", "--bare", "--template=", "-b", "main", m)
    gitw.git(m, "config", "gc.auto", "0")
    with open(m + "/objects/info/alternates" if os.path.isdir(m + "/objects/info") else _mk(m + "/objects/info") + "/alternates", "w") as f:
        f.write(base + "/all/.git/objects\n")
    # The local repository has commits 1 and 2 only.
    gitw.remove(p)
    r = gitw.Repo(base + "/root/r")
    r.commits([(n, [n - 1] if n > 1 else []) for n in range(1, 3)])
    assert r.sha[2] == sha[2]
    r.ref("refs/heads/main", 1)
    r.ref("refs/heads/mine", 2)
    gitw.git(p, "checkout", "-q", "main")
    gitw.git(p, "update-ref", "refs/tags/local", sha[1])
    webw.add_origin(p, "org", "r")
    other = f"{base}/remotes/org/fork.git"
    gitw.git(base, "init", "-q", "--bare", "--template=", "-b", "main", other)
    _mk(other + "/objects/info")
    with open(other + "/objects/info/alternates", "w") as f:
        f.write(base + "/all/.git/objects\n")
    gitw.git(other, "update-ref", "refs/heads/only-in-fork", sha[5])
    for k, v in {"remote.fork.url": "https://github.com/org/fork", "remote.fork.fetch": "+refs/heads/*:refs/remotes/fork/*"}.items():
        gitw.git(p, "config", k, v)
    gitw.git(p, "config", "branch.mine.remote", "fork")
    gitw.git(p, "config", "branch.mine.merge", "refs/heads/only-in-fork")


def _mk(p):
    os.makedirs(p, exist_ok=True)
    return p


class Site:
    count = 0

    def __init__(self, **kw):
        Site.count += 1
        self.dir = f"{h.scratch()}/site{os.getpid()}-{Site.count}"
        os.makedirs(self.dir)
        for x in ("root", "remotes"):
            gitw.copy(f"{W.base}/{x}", f"{self.dir}/{x}")
        self.repo, self.remote = f"{self.dir}/root/r", f"{self.dir}/remotes/org/r.git"
        self.srv = webw.Server(self.dir, ["r"], **(kw or dict(observed=False)))

    def reset(self):
        """The local repository as it was, under the same service."""
        gitw.remove(self.repo)
        gitw.copy(f"{W.base}/root/r", self.repo)

    def close(self):
        self.srv.stop()
        gitw.remove(self.dir)


_SITE = {}


def site():
    """One service for many cases of a process."""
    s = _SITE.get(os.getpid())
    if s is None or not s.srv.alive():
        s = _SITE[os.getpid()] = Site()
    return s


def ref(entry):
    kind, name, n = entry
    if kind == "branch":
        return "refs/heads/" + name, W.sha[n]
    return "refs/tags/" + name, W.sha[n] if kind == "tag" else W.tag[n][kind]


def possible(entries):
    rs = [ref(e)[0] for e in entries]
    return len(set(rs)) == len(rs) and not any(a != b and b.startswith(a + "/") for a in rs for b in rs)


def possible_many(entries):
    rs = {ref(e)[0] for e in entries}
    return len(rs) == len(entries) and not any("/".join(r.split("/")[:k]) in rs for r in rs for k in range(r.count("/") + 1))


def publish(s, entries):
    lines = ["# pack-refs with: sorted \n"] + [f"{o} {r}\n" for r, o in sorted((ref(e) for e in entries), key=lambda x: x[0].encode())]
    with open(s.remote + "/packed-refs.new", "w") as f:
        f.writelines(lines)
    os.rename(s.remote + "/packed-refs.new", s.remote + "/packed-refs")


def local_state(s):
    return gitw.refs(s.repo, "refs/heads"), gitw.git(s.repo, "rev-parse", "HEAD"), gitw.git(s.repo, "symbolic-ref", "-q", "HEAD", ok=False), gitw.git(s.repo, "status", "--porcelain")


def ask(s, entries, fetch, l, moved=False):
    """Asks for the list and judges the answer; None if it is right."""
    before = local_state(s)
    r = s.srv.get("/branches", repo="r", fetch=None if fetch is None else str(fetch).lower())
    l.steps()
    if local_state(s) != before:
        return f"the local branches or files changed from {before} to {local_state(s)}"
    if r is None:
        return "no answer"
    if r.status != 200:
        return None if moved and fetch else f"{r}"
    return judge(s, entries, fetch, r, moved)


def judge(s, entries, fetch, r, moved=False):
    got = json.loads(r.body)["branch"]
    want = []
    for e in entries:
        k, name, n = e
        hashes = {ref(e)[1], W.sha[n]} if k in ("annotated", "tag of tag") else {ref(e)[1]}
        want.append((name, hashes))
    left = {}
    for a, b in got:
        left.setdefault(a, []).append(b)
    for name, hashes in sorted(want, key=lambda x: x[0]):
        hit = [x for x in left.get(name, ()) if len(x) >= 7 and any(a.startswith(x) for a in hashes)]
        if hit:
            left[name].remove(hit[0])
        elif not DROPPABLE.search(name):
            return f"no {name!r} in {len(got)}: {str(got)[:2000]}"
    if any(left.values()):
        return f"wrong entries {[(a, b) for a, b in left.items() if b]} in {len(got)}: {str(got)[:2000]}"
    if fetch:
        lines = gitw.git(s.repo, "for-each-ref", "--format=%(objectname) %(refname)|", "refs").split("\n")
        have, seen = {l[:-1].split(" ", 1)[1]: l.split(" ", 1)[0] for l in lines if l}, {}
        for e in entries:
            k, name, n = e
            out = have.get(f"refs/remotes/origin/{name}" if k == "branch" else f"refs/tags/{name}")
            if not moved and out != ref(e)[1]:
                return f"{k} {name!r} is not available locally: {out!r}"
            o = W.sha[n] if k in ("branch", "tag", "annotated", "tag of tag") else ref(e)[1]
            if o not in seen:
                seen[o] = gitw.git(s.repo, "cat-file", "-e", o, ok=False)[0]
            if seen[o]:
                return f"the objects of {k} {name!r} are not available locally"
    return None


def check_set(job, l):
    """One or more sets of branches and tags of the remote after each other, asked for each."""
    head, steps = job
    s = site()
    s.reset()
    if head == "detached":
        gitw.git(s.repo, "checkout", "-q", "--detach", W.sha[2])
    elif head == "tracking another":
        gitw.git(s.repo, "checkout", "-q", "mine")
    elif head == "changed files":
        with open(s.repo + "/src/w.rs", "a") as f:
            f.write("// changed\n")
    tags = {}
    for entries, fetch in steps:
        publish(s, entries)
        l.state()
        # Git does not let a fetched tag go elsewhere; what then happens is not specified.
        now = dict(ref(e) for e in entries if e[0] != "branch")
        moved = any(tags.get(r, o) != o for r, o in now.items())
        if fetch:
            for r, o in now.items():
                tags.setdefault(r, o)
        bad = ask(s, entries, fetch, l, moved)
        l.outcome("tag moved" if moved else f"{len(entries)} entries, fetch {fetch}")
        if bad:
            return l.violation(set_name(job), bad)
    l.trace()
    l.sample(set_name(job))


def set_name(job):
    few = lambda e: repr([(k, n if len(n) < 200 else f"{n[:20]} of {len(n)}", c) for k, n, c in e[:50]]) + (f" of {len(e)}" if len(e) > 50 else "")
    return f"{job[0]}: " + ", then ".join(f"{few(e)} fetch {f}" for e, f in job[1])


def many(thorough):
    """Many and long ones."""
    for n in h.sizes(5001 if thorough else 2001):
        for k in KINDS[:3] if n < 20 or thorough else ("branch",):
            yield tuple((k, f"n{i}", 1 + i % 5) for i in range(n))
        if n > 3:
            yield tuple(("branch" if i % 2 else KINDS[1 + i % 5], f"d{i % 7}/n{i}", 1 + i % 5) for i in range(n))
        if n <= 250:
            for k in KINDS[:3]:
                yield tuple((k, x, 1 + i) for i, x in enumerate(h.long_names(n)))
        if 60 < n <= 1025:
            yield tuple((k, "/".join(x[i:i + 50] for i in range(0, n, 50)), 1 + i) for k in ("branch", "annotated") for i, x in enumerate(h.long_names(n)))


_FAULTY = {}


def check_fault(job, l):
    """A list with a git command that fails, then one without."""
    fetch, plan, entries = job
    d = f"{h.scratch()}/bin{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/git"):
        os.link(STUB, d + "/git")
    s = _FAULTY.get(os.getpid())
    if s is None or not s.srv.alive():
        if os.path.exists(d + "/plan"):
            os.remove(d + "/plan")
        s = _FAULTY[os.getpid()] = Site(plan=f"@{d}/plan", extra=dict(PATH=f"{d}:/nonexistent", FG_SELF=d + "/git"))
    s.reset()
    if os.path.exists(s.dir + "/log.git"):
        os.truncate(s.dir + "/log.git", 0)
    publish(s, entries)
    l.state()
    l.trace()
    with open(d + "/plan", "w") as f:
        f.write("" if plan == "no remote" else plan)
    if plan == "no remote":
        os.rename(s.remote, s.remote + ".was")
    try:
        before = local_state(s)
        r = s.srv.get("/branches", repo="r", fetch=fetch)
    finally:
        if plan == "no remote":
            os.rename(s.remote + ".was", s.remote)
    bad = None
    if r is None:
        bad = "no answer"
    elif local_state(s) != before:
        bad = "the local branches or files changed"
    elif r.status != 200:
        l.outcome("error")
        if r.status < 400:
            bad = f"{r}"
    else:
        l.outcome("answer in spite of a fault")
        bad = judge(s, entries, fetch == "true", r)
    with open(d + "/plan", "w") as f:
        f.write("")
    if not os.path.exists(d + "/git"):
        os.link(STUB, d + "/git")
    bad = bad or ask(s, entries, fetch and fetch == "true", l)
    if bad:
        l.violation(fault_name(job), bad)
    l.sample(fault_name(job))


def fault_name(job):
    return f"faults {job[1]} with fetch {job[0]} of {len(job[2])} entries"


def versions(v):
    yield v, True
    yield v.replace("+", " "), True
    abc = "0123456789.+- abZ~^%&=<>'\"\u00e9"
    out = {"", " ", v + v, v.upper(), v.lower(), v.swapcase(), v[::-1], v + "\n", "\n" + v, v + "\0", v.split("+")[0], v.split("+")[-1], v.replace(".", ""), v.replace("+", ""), v.replace("+", "++"), v.replace("+", "%2B"), v.replace("+", "  "), v.replace("+", "-"),
           "v" + v, "=" + v, ".*", "*", "latest", "unknown", "true", v.replace(".", " "), v.replace("+", " +"), v.replace("+", "+ "), "\u00a0" + v, v.replace("3", "\uff13")}
    spaced = v.replace("+", " ")
    out |= {c + spaced for c in abc} | {spaced + c for c in abc} | {spaced[:i] + spaced[i + 1:] for i in range(len(spaced))}
    for i in range(len(v) + 1):
        out.add(v[:i])
        out.add(v[i:])
        for c in abc:
            out.add(v[:i] + c + v[i:])
            if i < len(v):
                out.add(v[:i] + c + v[i + 1:])
        if i < len(v):
            out.add(v[:i] + v[i + 1:])
            out.add(v[:i] + v[i].swapcase() + v[i + 1:])
        if i + 1 < len(v):
            out.add(v[:i] + v[i + 1] + v[i] + v[i + 2:])
    for x in sorted(out - {v, v.replace("+", " ")}):
        yield x, False


def version_of_program():
    import subprocess
    return subprocess.run([h.WEB, "--version"], stdout=subprocess.PIPE, env=h.env()).stdout.decode().split(" ", 1)[1].strip()


def check_version(job, l):
    x, right = job
    s = site()
    l.state()
    l.steps()
    if x is None:
        r = s.srv.get("/version")
        if r is None or r.status != 200 or r.body.strip() != version_of_program():
            return l.violation(version_name(job), f"/version: {r}")
        r = s.srv.get("/version/badge")
        l.steps()
        if r is None or r.status != 200 or version_of_program() not in "".join(webw.parse(r.body).text()):
            return l.violation(version_name(job), f"/version/badge: {r}")
    else:
        r = s.srv.get("/version", **{"is": x})
        if r is None or (r.status == 200) != right or (not right and r.status < 400):
            return l.violation(version_name(job), f"running {version_of_program()!r}: {r}")
    l.outcome(f"version {'right' if right else 'wrong'}" if x is not None else "version")
    l.trace()
    if x is None:
        l.sample("version")


def version_name(job):
    return "version" if job[0] is None else f"version is {job[0]!r}"


def run(ctx):
    build()
    ents = [(k, n, 3) for n in NAMES for k in KINDS]
    js = []
    for f in (None, False, True):
        js += [("main", (((), f),))]
        js += [("main", (((e,), f),)) for e in ents]
    cls = [("branch", n, 3) for n in ("main", "a", "a/b", "refs/heads/x", "x/refs/tags/y", "x", "a\u00a0b", "v1", "{x}", "HEAD", "refs/tags/x", "0123456789ab")]
    cls += [(k, n, 4) for k in ("tag", "annotated", "tag of tag", "tag of tree") for n in ("v1", "refs/heads/x", "refs/tags/x", "x", "main", "x/refs/heads/y", "{x}")]
    sets = [x for n in ((2, 3) if ctx.thorough else (2,)) for x in itertools.combinations(cls, n) if possible(x)]
    js += [("main", ((x, f),)) for x in sets for f in ((True, False) if len(x) < 3 else (True,))]
    everything = []
    for e in [("branch", n, 3 + i % 3) for i, n in enumerate(NAMES)] + [(KINDS[1 + i % 5], n, 3 + i % 3) for i, n in enumerate(NAMES)]:
        if possible(everything + [e]):
            everything.append(e)
    heads = ["main", "detached", "tracking another", "changed files"]
    js += [(x, ((tuple(everything), f),)) for x in heads for f in (None, False, True)]
    # Histories: what the remote has from one request to the next.
    B, T = (lambda *a: tuple(("branch", n, c) for n, c in a)), (lambda k, *a: tuple((k, n, c) for n, c in a))
    states = [(), B(("main", 3)), B(("main", 4)), B(("main", 3), ("a", 4)), B(("main", 3), ("a/b", 5)), B(("x", 3)) + T("tag", ("x", 4)), T("tag", ("v1", 3)), T("annotated", ("v1", 3)), T("annotated", ("v1", 4), ("x", 3)), B(("main", 1), ("mine", 5))]
    depth = 3 if ctx.thorough else 2
    for hd in heads:
        for x in itertools.product(states, repeat=depth):
            for fs in itertools.product((False, True), repeat=depth):
                js.append((hd, tuple(zip(x, fs))))
    ctx.bound(f"every branch, tag, annotated tag, tag of a tag, tree or blob of {len(NAMES)} names, alone; every {'pair and triple' if ctx.thorough else 'pair'} from {len(cls)} of them; all at once; "
              f"every sequence of {depth} out of {len(states)} states of the remote with and without fetching before each list, with each of {len(heads)} states of the checkout")
    js += [("main", ((x, f),)) for i, x in enumerate(many(ctx.thorough)) if possible_many(x) for f in ((True, False) if ctx.thorough or i % 4 == 1 else (i % 2 == 0,))]
    ctx.bound(f"up to {5001 if ctx.thorough else 2001} branches and tags, and names of up to 250, with directories 1025, characters")
    ctx.par(check_set, js, set_name)
    global STUB
    STUB = h.scratch() + "/stub-git"
    with open(gitw.FAKEGIT + "/git", "rb") as f, open(STUB, "wb") as g:
        g.write(f.read())
    os.chmod(STUB, 0o755)
    kinds = ["fail-before", "fail-after", "kill-before", "kill-after", "gone"]
    plans = [f"{i}:{k}" for i in range(4) for k in kinds] + [f"{i}:{k},{j}:{m}" for i, j in itertools.combinations(range(3), 2) for k in kinds[:4] for m in kinds] + ["no remote"]
    ctx.bound(f"one and two faults of {kinds} at every git command of a list, and no remote")
    ctx.par(check_fault, [(f, p, e) for f in (None, "false", "true") for p in plans for e in (states[5], states[8], tuple(everything))], fault_name)
    vs = [(None, True)] + list(versions(version_of_program()))
    ctx.bound(f"{len(vs) - 2} versions at one edit from that of the program, prefixes, suffixes and others")
    ctx.assume("what happens to a list with fetching after the remote moved a tag is not judged, except that a list that is given is right and local branches stay")
    ctx.par(check_version, vs, version_name)
