"""P26: bad web requests are contained."""
import itertools, os, re, socket, urllib.parse
import h, gitw, webw, weights as w

Q = lambda s: urllib.parse.quote(s, safe="")
BASE = dict(repo="r", old="t/1", new="t/2", path_pattern="src/*.rs", ignore_errors="false", threshold="0", unit="time", method="base", git_pull="false")
GOOD = [
    ("/compare", dict(BASE)),
    ("/compare", dict(BASE, new="t/3", unit="proof", method="exact-worst", extrinsic="f", git_pull="true")),
    ("/compare", dict(BASE, repo="other", new="main", git_pull="true")),
    ("/branches", dict(repo="r", fetch="true")),
    ("/branches", dict(repo="other")),
    ("/", {}),
    ("/compare-mr", {}),
    ("/version", {}),
]


class W:
    pass


def files(n):
    f = {"src/w.rs": w.rust_file([w.Fn("f", (n * 1000, n), reads=2)]), "src/x.rs": w.rust_file([w.Fn("g", (n, 3 * n), (("c", (1, 1)),), ranges=(("c", 1, 5),))])}
    body = lambda e: "pub struct W<T>(PhantomData<T>);\nimpl<T: C> WeightInfo for W<T> {\n\tfn f() -> Weight {\n\t\t" + e + "\n\t}\n}\n"
    extra = {4: "fn (", 5: b"\xff\xfe", 6: "impl", 7: body("("), 8: body("Weight::from_parts(1, 2).unknown()"), 9: body("1u128 as"), 10: body("99999999999999999999999999999999999999999999999999"),
             11: body("(" * 100 + "5" + ")" * 100), 12: "\x00", 13: body("T::DbWeight::get().reads(-1)"), 14: body("Weight::from_parts(1, 2).saturating_mul(a.into())"), 15: body("{ let x = 5; x }"),
             16: ("120000", "nowhere"), 17: ("120000", "w.rs/x"), 18: ("120000", "bad.rs"), 19: body("\"\\u{110000}\""), 20: "/*" * 50, 21: body("5 +"), 22: "mod a;", 23: "//! x\n#![y]\nmacro_rules! m { () => {} }", 24: body("return"),
             25: body("Weight::zero()").replace("fn f()", "fn f(self, (a, b): (u8, u8))"), 26: "#!/bin/sh\n", 27: "\ufeff" + body("5")}
    if n in extra:
        f["src/bad.rs"] = extra[n]
    if n == 28:
        f["src/dir.rs/x.rs"] = "fn ("
    return f


LAST = 28


def build():
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    r.commits([(n, [n - 1] if n > 1 else []) for n in range(1, LAST + 1)], files)
    for n in range(1, LAST + 1):
        r.ref(f"refs/tags/t/{n}", n)
    r.ref("refs/heads/main", 1)
    gitw.git(r.path, "checkout", "-q", "main")
    os.makedirs(base + "/remotes/org")
    for n in ("r", "other"):
        if n != "r":
            gitw.copy(base + "/root/r", base + "/root/" + n)
        m = f"{base}/remotes/org/{n}.git"
        gitw.git(base, "clone", "-q", "--bare", "--template=", base + "/root/" + n, m)
        gitw.git(m, "update-ref", "refs/heads/main", r.sha[3])
        webw.add_origin(base + "/root/" + n, "org", n)


def target(path, args):
    return path + ("?" + "&".join(f"{k}={Q(str(v))}" for k, v in args.items()) if args else "")


def catalogue():
    """name -> (what happens, whether it must be an error)"""
    c = {}

    def cmp(n, must=True, **kw):
        a = dict(BASE, **kw)
        c[n] = (("get", target("/compare", {k: v for k, v in a.items() if v is not None})), must)
    for k in BASE:
        if k != "git_pull":
            cmp(f"without {k}", **{k: None})
        cmp(f"empty {k}", k != "path_pattern", **{k: ""})
        c[f"twice {k}"] = (("get", target("/compare", BASE) + f"&{k}={Q(BASE[k])}"), False)
    values = dict(
        threshold=["-1", "1.5", "abc", "4294967296", "99999999999999999999999999", "1e3", "0x10", "NaN", "5%"],
        ignore_errors=["1", "yes", "truefalse"], git_pull=["2", "no", "null"], unit=["weights", "tim", "time,proof", "storage"], method=["worst", "max", "base worst", "guess"],
        repo=["unknown", "R", "r/", "../r", "./r", "r\0", "r,other", "*", ".", "/", "org/r"],
        old=["missing", "t/99", "-x", "--help", "HEAD~99999", "\0", "\n", "..", "t/1..t/2", "t/1:src/w.rs", "main@{upstream}", "0" * 40, "f" * 40, "x" * 5000],
        extrinsic=["(", "[", "*", "+", "(?<", "a{2,1}", "\\", "(?P<x", "(" * 300, "[z-a]", "(?=", "\\p{Nope}", "(?i", "a{99999999999}", "((a{1000}){1000}){1000}"],
        path_pattern=["***", "src/***", "a**", "**a"])
    values["new"] = values["old"]
    values["pallet"] = values["extrinsic"]
    for k, vs in values.items():
        for v in vs:
            cmp(f"{k} {v[:30]!r}", **{k: v})
    # Characters of several bytes that begin at every position
    for ch in ("\u00e9", "\u20ac", "\U0001f980"):
        for i in range(len(ch.encode())):
            for n in (1, 40):
                v = "a" * i + ch * n
                for k in ("old", "new", "repo", "unit", "method"):
                    cmp(f"{k} {v[:5]!r} of {n}", **{k: v})
                for k in ("extrinsic", "pallet", "path_pattern"):
                    cmp(f"{k} {v[:5]!r} of {n}", False, **{k: v})
                c[f"branches of {v[:5]!r} of {n}"] = (("get", target("/branches", dict(repo=v))), True)
                c[f"version {v[:5]!r} of {n}"] = (("get", target("/version", {"is": v})), True)
                c[f"path {v[:5]!r} of {n}"] = (("get", "/" + Q(v)), True)
    for k in ("extrinsic", "pallet"):
        cmp(f"{k} with much backtracking", False, **{k: r"^(?=(\w+\W*)*$)((\w+\W*\w*)+)+\1\1$x"})
    for v in ("[", "src/[", "/", "..", "../**", "/etc/*", "\0", "*" * 3000, "src/" + "*a" * 200, "**/" * 300 + "*", "\n", "src/[!]*"):
        cmp(f"path_pattern {v[:30]!r}", False, path_pattern=v)
    for n in range(4, LAST + 1):
        for i in ("false", "true"):
            cmp(f"content {n} ignoring {i}", n in (4, 5, 6, 7, 9) and i == "false", old=f"t/{n}", ignore_errors=i)
        cmp(f"content {n} in the other version", n in (4, 5, 6, 7, 9), new=f"t/{n}")
        cmp(f"content {n} in the other repository", n in (4, 5, 6, 7, 9), new=f"t/{n}", repo="other")
    cmp("no such revision while pulling", git_pull="true", new="missing")
    for q in ("", "?", "?&&&", "?%", "?%zz", "?old", "?=", "?%ff=%fe", "?" + "x" * 60000, "?old=%ff", "?a[]=1", "?old=1;new=2", "?+"):
        c[f"query {q[:20]!r}"] = (("get", "/compare" + q), True)
        c[f"branches query {q[:20]!r}"] = (("get", "/branches" + q), True)
        c[f"version query {q[:20]!r}"] = (("get", "/version" + q), False)
    c["query with wrong bytes"] = (("get", target("/compare", BASE) + "&extrinsic=%ff%fe&pallet=%80"), False)
    c["revision with wrong bytes"] = (("get", target("/compare", {k: v for k, v in BASE.items() if k != "old"}) + "&old=%ff"), True)
    for r in ("unknown", "", "R", "../r", "\0", "r "):
        for f in (None, "true"):
            c[f"branches of {r!r} fetch {f}"] = (("get", target("/branches", dict(repo=r, **({"fetch": f} if f else {})))), True)
    c["branches fetch maybe"] = (("get", "/branches?repo=r&fetch=maybe"), True)
    for p in ("/nothing", "/compare/x", "/compare/", "/static/../../../../etc/passwd", "/static/%2e%2e/%2e%2e/etc/passwd", "/static/nothing", "//", "/.git", "/branches/r", "/%00", "/version/x", "/" + "x" * 5000, "*", "http://x/"):
        c[f"path {p[:30]}"] = (("get", p), p not in ("*", "http://x/", "//"))
    for m in ("POST", "PUT", "DELETE", "HEAD", "OPTIONS", "BREW"):
        for p in ("/compare", "/branches", "/"):
            c[f"{m} {p}"] = (("raw", f"{m} {p}?{target('', BASE)[1:]} HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: 0\r\n\r\n".encode(), True), False)
    good = target("/compare", BASE).encode()
    for n, b, wait in (("garbage", b"\x00\xff\x01 garbage\r\n\r\n", True), ("nothing sent", b"", False), ("half a request", b"GET " + good[:30], False), ("request without answer read", b"GET " + good + b" HTTP/1.1\r\nHost: x\r\n\r\n", False),
                       ("many headers", b"GET / HTTP/1.1\r\n" + b"".join(b"H%d: x\r\n" % i for i in range(500)) + b"\r\n", True), ("huge header", b"GET / HTTP/1.1\r\nX: " + b"x" * 300000 + b"\r\n\r\n", True),
                       ("wrong version", b"GET / HTTP/9.9\r\n\r\n", True), ("bad length", b"GET / HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", True), ("bad chunks", b"POST /compare HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", True)):
        c[n] = (("raw", b, wait), False)
    c["half a request held open"] = (("hold", b"GET " + good[:30]), False)
    for n in ("remote gone", "remote failing", "remote failing in wrong bytes", "repository locked", "repository gone", "repository empty", "files gone", "file unreadable"):
        c[f"compare, {n}"] = (("site", n, target("/compare", dict(BASE, git_pull="true", new="t/3"))), n not in ("files gone", "file unreadable", "repository empty"))
        c[f"branches, {n}"] = (("site", n, "/branches?repo=r&fetch=true"), n.startswith("remote") or n in ("repository gone",))
        c[f"branch list, {n}"] = (("site", n, "/branches?repo=r"), n.startswith("remote") or n in ("repository gone",))
        c[f"good ones, {n}"] = (("site", n, target("/compare", dict(BASE, repo="other"))), False)
    c["content nested without end"] = (("get", "abyss"), False)
    return c


CLASSES = ["without old", "empty repo", "threshold 'abc'", "unit 'tim'", "repo 'unknown'", "old 'missing'", "new '-x'", "extrinsic '('", "pallet '[z-a]'", "path_pattern '***'", "content 4 ignoring false", "content 5 in the other version",
           "content 7 in the other repository", "no such revision while pulling", "query '?%zz'", "branches of 'unknown' fetch true", "path /nothing", "POST /compare", "garbage", "request without answer read", "half a request held open",
           "compare, remote gone", "branches, remote failing in wrong bytes", "compare, repository locked", "branch list, repository gone", "compare, repository empty", "extrinsic with much backtracking", "content 18 ignoring true"]


class Site:
    count = 0

    def __init__(self):
        Site.count += 1
        self.dir = f"{h.scratch()}/site{os.getpid()}-{Site.count}"
        os.makedirs(self.dir)
        for x in ("root", "remotes"):
            gitw.copy(f"{W.base}/{x}", f"{self.dir}/{x}")
        self.srv = webw.Server(self.dir, ["r", "other"], observed=False)
        self.held = []

    def close(self):
        for s in self.held:
            s.close()
        self.srv.stop()
        gitw.remove(self.dir)

    def raw(self, data, wait):
        s = socket.create_connection((self.srv.host, self.srv.port), 30)
        try:
            s.settimeout(30)
            out = b""
            try:
                s.sendall(data)
                while wait:
                    d = s.recv(65536)
                    if not d:
                        break
                    out += d
            except OSError:
                pass
            return out
        finally:
            s.close()

    def during(self, kind, fn):
        r, repo = f"{self.dir}/remotes/org/r.git", f"{self.dir}/root/r"

        def mv(p):
            def back():
                gitw.remove(p)  # if the service created it anew
                os.rename(p + ".gone", p)
            return lambda: os.rename(p, p + ".gone"), back
        if kind == "remote gone":
            do, undo = mv(r)
        elif kind.startswith("remote failing"):
            # Its objects are unreachable and it says so.
            what = b"\xff\xfe wrong" if "bytes" in kind else b"fatal: wrong"
            cfg = f"{repo}/.git/config"
            old = open(cfg, "rb").read()

            def do():
                os.rename(r, r + ".gone")
                with open(f"{self.dir}/say", "wb") as f:
                    f.write(what + b"\n")
                with open(f"{self.dir}/fail.sh", "w") as f:
                    f.write(f"cat '{self.dir}/say' >&2; exit 1")
                with open(cfg, "ab") as f:
                    f.write(f'[url "ext::sh {self.dir}/fail.sh"]\n\tinsteadOf = https://github.com/org/r\n[protocol "ext"]\n\tallow = always\n'.encode())

            def undo():
                os.rename(r + ".gone", r)
                with open(cfg, "wb") as f:
                    f.write(old)
        elif kind == "repository locked":
            lock = f"{repo}/.git/index.lock"
            do, undo = lambda: open(lock, "w").close(), lambda: os.unlink(lock)
        elif kind == "repository gone":
            do, undo = mv(repo)
        elif kind == "repository empty":
            m, u = mv(repo)

            def do():
                m()
                os.mkdir(repo)

            undo = u
        elif kind == "files gone":
            do, undo = mv(f"{repo}/src")
        elif kind == "file unreadable":
            p = f"{repo}/src/w.rs"

            def do():
                os.unlink(p)
                os.mkfifo(p + ".fifo")

            def undo():
                os.unlink(p + ".fifo")
        do()
        try:
            return fn()
        finally:
            undo()


def norm(r, site):
    if r is None:
        return None
    b = r.body.replace(site.dir, "")
    if webw.parse(b).id("config_table"):
        b = re.sub(r"(<td>[^\n]*Cache[^\n]*</td>\s*<td>)(Yes|No)", r"\1", b)
    return r.status, b if "json" in r.headers.get("content-type", "") else sorted(b.splitlines())


WANT = []


def wanted():
    """The answers to the valid requests in a service that got no others."""
    if not WANT:
        for p, a in GOOD:
            s = Site()
            r = s.srv.get(p, **a)
            assert r.status == 200, r
            WANT.append(norm(r, s))
            s.close()
    return WANT


def check(job, l):
    first, bads = job
    want = wanted()
    s = Site()
    cat = catalogue()
    try:
        if first:
            for i in (0, 2):
                s.srv.get(GOOD[i][0], **GOOD[i][1])
                l.steps()
        for b in bads:
            what, must = cat[b]
            l.state()
            l.steps()
            if what[0] == "get" and what[1] == "abyss":
                p = f"{s.dir}/root/r"
                os.makedirs(p + "/src", exist_ok=True)
                sha = gitw.git(p, "hash-object", "-w", "--stdin", inp=b"fn f() {" + b"{" * 100000 + b"}" * 100000 + b"}")
                sub = gitw.git(p, "mktree", inp=f"100644 blob {sha}\tw.rs\n".encode())
                tree = gitw.git(p, "mktree", inp=f"040000 tree {sub}\tsrc\n".encode())
                com = gitw.git(p, "commit-tree", "-m", "x", tree)
                r = s.srv.raw(target("/compare", dict(BASE, old=com)))
            elif what[0] == "get":
                r = s.srv.raw(what[1])
            elif what[0] == "raw":
                s.raw(what[1], what[2])
                r = "none"
            elif what[0] == "hold":
                c = socket.create_connection((s.srv.host, s.srv.port), 30)
                c.sendall(what[1])
                s.held.append(c)
                r = "none"
            else:
                r = s.during(what[1], lambda: s.srv.raw(what[2]))
            if not s.srv.alive():
                return l.violation(name(job), f"{b}: ended the service")
            if r == "none":
                l.outcome("no request")
                continue
            if r is None:
                return l.violation(name(job), f"{b}: no answer")
            l.outcome(f"status {r.status}")
            if must and (r.status < 400 or (r.status >= 500 and not r.body.strip())):
                return l.violation(name(job), f"{b}: not an error page: {r}")
        for (p, a), x in zip(GOOD, want):
            l.steps()
            r = s.srv.get(p, **a)
            if norm(r, s) != x:
                return l.violation(name(job), f"then {p} {a}: {'no answer' if r is None else ' '.join(webw.parse(r.body).text().split())[-1500:]}")
        if not s.srv.alive():
            return l.violation(name(job), "ended the service")
        l.trace()
        l.sample(name(job))
    finally:
        s.close()


def name(job):
    return ("good then " if job[0] else "") + " then ".join(job[1])


def run(ctx):
    build()
    cat = catalogue()
    js = [(f, (b,)) for b in cat for f in (False, True)]
    js += [(False, x) for n in ((2, 3) if ctx.thorough else (2,)) for x in itertools.product(CLASSES, repeat=n)]
    if not ctx.thorough:
        js += [(True, (b, b, b, b, b)) for b in CLASSES]
    else:
        js += [(f, (b,) * n) for b in cat for n in (5, 9) for f in (False, True)]
    ctx.bound(f"each of {len(cat)} bad requests (arguments missing, empty, malformed, repeated; unusable revisions, patterns, expressions, files, remotes and repositories; broken HTTP), alone and after good ones; "
              f"every {'pair and triple' if ctx.thorough else 'pair'} from {len(CLASSES)} of them; the same again and again; each followed by {len(GOOD)} good requests")
    ctx.par(check, js, name)
