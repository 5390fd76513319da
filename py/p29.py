"""P29: the settings the service starts with, and the files it serves."""
import http.client, itertools, os, re, shutil, signal, socket, ssl, subprocess, time, urllib.parse, zlib
import h, gitw, webw

ORIGINS = {}  # repository -> (origin URL or None, organisation or None where the service must refuse it)


class W:
    pass


def mk(p):
    os.makedirs(p, exist_ok=True)
    return p


def put(p, b):
    mk(os.path.dirname(p))
    with open(p, "wb") as f:
        f.write(b if isinstance(b, bytes) else b.encode())


# What a request may never show.
OUTSIDE = "OUTSIDE-OF-THE-STATIC-DIRECTORY"
TREE = {"a.txt": "text a\n" * 40, "b.css": "b {}", "c.js": "c()", "empty.txt": "", "sp ace.txt": "with space", "\u00fc\U0001f980.js": "unicode()", "per%41cent.txt": "percent", "a+b.txt": "plus", "amp&q.txt": "amp", "odd/d'q\"<i>.html": "quotes", "it's.html": "quote",
        "sub/a.txt": "other a", "sub/deep/z.html": "<b>z</b>", "sub/deep/a.txt": "deep a", "static/a.txt": "static in static", "root/r/x": "not the repository", "bytes.bin": bytes(range(256)) * 20, "no-extension": "n", "secret.txt.bak": "bak", "q?x.txt": "question", "h#x.txt": "hash", "back\\slash.txt": "backslash"}


def origins():
    yield "https://github.com/org/r", "org"
    for scheme in ("https://", "http://", "ssh://", "git://", "ssh://git@", "https", "HTTPS://x.", "file:///", " https://", "xhttps://", ""):
        for host in ("github.com", "www.github.com", "gitlab.com", "github.com.example.org", "example.org/github.com", "example.org/https://github.com"):
            for path in ("/org/r", "/org/r.git", "/Org-2.x_y/other", "/org/a/b", "/org"):
                ok = scheme == "https://" and host == "github.com" and path != "/org"
                yield scheme + host + path, path.split("/")[1] if ok else None
    for u in ("git@github.com:org/r", "git@github.com:org/r.git", "/srv/github.com/org/r", "../r", ".", "https:/github.com/org/r", "https://github.com:org/r", "https://github.com", "https://github.comorg/r", "https://github.com-org/r/x"):
        yield u, None


def build():
    b = W.base = h.scratch() + "/start"
    mk(b + "/root")
    def repo(name, org, lines, remote_name=None):
        p = f"{b}/root/{name}"
        r = gitw.Repo(mk(os.path.dirname(p)) + "/" + os.path.basename(p))
        r.commits([(n, [n - 1] if n > 1 else []) for n in lines])
        r.ref("refs/heads/main", lines[-1])
        gitw.git(p, "checkout", "-q", "main")
        if org:
            webw.add_origin(p, org, remote_name or name)
        m = f"{b}/remotes/{org}/{remote_name or name}.git"
        if org:
            mk(os.path.dirname(m))
            gitw.copy(p + "/.git", m)
            gitw.git(m, "config", "core.bare", "true")
        W.sha[name] = dict(r.sha)
    W.sha = {}
    repo("r", "org", [1, 2])
    repo("s", "Other.org-2", [1, 2, 3], "called-differently")
    repo("nested/t", "org", [1, 2, 3, 4], "t")
    for n, (u, o) in enumerate(sorted(set(origins()))):
        g = f"{b}/root/o{n}/.git"
        mk(g + "/objects")
        mk(g + "/refs")
        put(g + "/HEAD", "ref: refs/heads/main\n")
        q = u.replace('"', '\\"')
        put(g + "/config", f'[core]\n\trepositoryformatversion = 0\n[remote "origin"]\n\turl = "{q}"\n')
        ORIGINS[f"o{n}"] = (u, o)
    mk(b + "/root/no-git")
    gitw.copy(b + "/root/r", b + "/root/no-origin")
    gitw.git(b + "/root/no-origin", "config", "--remove-section", "remote.origin")
    gitw.git(b + "/root/no-origin", "config", "remote.upstream.url", "https://github.com/org/r")
    gitw.copy(b + "/root/r", b + "/root/no-url")
    gitw.git(b + "/root/no-url", "config", "--unset", "remote.origin.url")
    gitw.git(b + "/root/no-url", "config", "remote.upstream.url", "https://github.com/org/r")
    put(b + "/root/file", "x")
    put(b + "/secret.txt", OUTSIDE)
    put(b + "/a.txt", OUTSIDE)
    put(b + "/static2/a.txt", OUTSIDE)
    put(b + "/root/r/OUTSIDE-OF", OUTSIDE)
    for f, c in TREE.items():
        put(f"{b}/static/{f}", c)
    mk(b + "/static/hollow")
    mk(b + "/hollow")
    mk(b + "/tls")
    conf = b + "/tls/conf"
    put(conf, "[req]\ndistinguished_name=d\nprompt=no\n[d]\nCN=localhost\n")
    for n in ("a", "b"):
        p = subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "3650", "-config", conf, "-keyout", f"{b}/tls/{n}.key", "-out", f"{b}/tls/{n}.crt"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=h.env())
        if p.returncode:
            raise RuntimeError("no certificates")
    put(b + "/tls/garbage", "x")
    put(b + "/tls/empty", "")
    W.inside = {f: c if isinstance(c, bytes) else c.encode() for f, c in TREE.items()}


class Start:
    """The service with these arguments: .up, or .rc and .err."""
    count = 0

    def __init__(self, args, host=None, cwd=None, timeout=30):
        n = Start.count = Start.count + 1
        k = (os.getpid() & 0x7fff) << 9 | n & 0x1ff
        self.host, self.port = host or f"127.{k >> 16 & 255}.{k >> 8 & 255}.{k & 255}", 9001 + (n >> 9) + (n & 0x1ff if host else 0)
        self.args = [a.replace("$HOST", self.host).replace("$PORT", str(self.port)) for a in args]
        self.errname = f"{h.scratch()}/start{os.getpid()}-{n}.err"
        e = h.env(GIT_EXEC_PATH=webw.exec_path(), MC_REMOTES=W.base + "/remotes", RUST_LOG="error")
        with open(self.errname, "wb") as f:
            self.p = subprocess.Popen([h.WEB, *self.args], env=e, cwd=cwd or W.base, stdin=subprocess.DEVNULL, stdout=f, stderr=f, preexec_fn=lambda: webw._prctl(1, signal.SIGKILL), start_new_session=True)
        self.up, end = False, time.time() + timeout
        while True:
            rc = self.p.poll()
            if rc is not None:
                break
            if self.connects(self.host):
                # It is this one and not another that was there before.
                self.up = self.p.poll() is None
                break
            if time.time() > end:
                break
            time.sleep(0.004)
        self.rc = self.p.poll()

    def connects(self, host):
        try:
            socket.create_connection((host, self.port), 2).close()
            return True
        except OSError:
            return False

    @property
    def err(self):
        return open(self.errname, errors="replace").read()

    def stop(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.p.wait()
        os.unlink(self.errname)

    def get(self, target, tls=False, encoding=None, timeout=60):
        """(status, headers, body) or None; the target is sent as it is."""
        try:
            s = socket.create_connection((self.host, self.port), timeout)
        except OSError:
            return None
        try:
            if tls:
                c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
                s = c.wrap_socket(s, server_hostname="localhost")
            enc = f"Accept-Encoding: {encoding}\r\n" if encoding else ""
            s.sendall(f"GET {target} HTTP/1.1\r\nHost: x\r\n{enc}Connection: close\r\n\r\n".encode("utf-8", "surrogateescape"))
            r = http.client.HTTPResponse(s, method="GET")
            r.begin()
            return r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read()
        except (OSError, http.client.HTTPException):
            return None
        finally:
            s.close()


_mine = None


def mine():
    """A copy of everything for this process: two services share no repository."""
    global _mine
    if _mine is None or _mine[0] != os.getpid():
        d = f"{h.scratch()}/start{os.getpid()}"
        shutil.copytree(W.base, d, symlinks=True)
        _mine = (os.getpid(), d)
        W.base = d
    return W.base


def full(**kw):
    d = dict(root=W.base + "/root", static=W.base + "/static", port="$PORT", endpoint="$HOST")
    d.update(kw)
    repos = d.pop("repos", ["r"])
    return [x for k, v in d.items() if v is not None for x in ("--" + k, v)] + (["--repos", *repos] if repos is not None else [])


def offers(s, tls=False):
    """The repositories that the form offers."""
    r = s.get("/", tls)
    if r is None or r[0] != 200:
        return f"no form: {r}"
    page = webw.parse(r[2].decode("utf-8", "surrogateescape"))
    out = []
    for n in page.all("select"):
        if "repo" in (n["id"] or "") + (n["name"] or ""):
            out += [o["value"] if o["value"] is not None else o.text() for o in n.all("option")]
    return sorted(out)


QUERY = "/compare?path_pattern=src/*.rs&ignore_errors=false&threshold=0&unit=time&method=base&git_pull=false&repo="


def compared(s, repo, old, new, tls=False):
    r = s.get(QUERY + urllib.parse.quote(repo, safe="") + f"&old={old}&new={new}", tls)
    if r is None:
        return None
    r[1].pop("date", None)
    return r


# --- Settings -----------------------------------------------------------------------------------------------------

def check_settings(job, l):
    mine()
    kind, repos, static, tls = job
    b = W.base
    name = settings_name(job)
    a = full(repos=list(repos), static=b + "/" + static)
    cert, key = tls
    for k, v in (("--cert", cert), ("--key", key)):
        if v:
            a = [k, b + "/tls/" + v] + a
    bad = [x for x in repos if x not in GOOD and ORIGINS.get(x, (0, None))[1] is None]
    pair = (cert is None) == (key is None) and (cert is None or cert in ("a.crt", "b.crt") and key == cert[0] + ".key")
    right = bool(repos) and not bad and static in ("static", "hollow", "static/sub") and pair
    s = Start(a)
    l.state()
    l.steps()
    try:
        if right != s.up:
            return l.violation(name, f"expected it {'to start' if right else 'not to start'}; {'it listens' if s.up else f'exit {s.rc}'}\n{s.err[:1500]}")
        if not right:
            if s.rc is None or s.rc == 0:
                return l.violation(name, f"not started, but exit {s.rc}\n{s.err[:1500]}")
            if not s.err.strip():
                return l.violation(name, "does not say why it does not start")
            if len(repos) == 1 and bad and static == "static" and pair and bad[0] not in s.err:
                return l.violation(name, "does not say which repository is wrong: " + s.err[:1500])
            l.outcome("refused " + ("no repository" if not repos else "repository" if bad else "static directory" if static not in ("static", "hollow", "static/sub") else "certificate"))
        else:
            t = cert is not None
            got = offers(s, t)
            if got != sorted(set(repos)):
                return l.violation(name, f"offers {got}")
            plain = s.get("/", not t)
            if plain is not None and plain[0] < 400:
                return l.violation(name, f"answers {'without' if t else 'with'} TLS, too: {plain}")
            for x in ("r", "s", "nested/t", "no-git", "file", "../root/r", b + "/root/r", ""):
                if x in repos:
                    continue
                for q in (QUERY + urllib.parse.quote(x, safe="") + "&old=main&new=main", "/branches?repo=" + urllib.parse.quote(x, safe="")):
                    r = s.get(q, t)
                    l.steps()
                    if r is None or r[0] < 400:
                        return l.violation(name, f"{q} of a repository that it was not given: {r}")
            for x in set(repos):
                if x in GOOD:
                    org, remote, n = GOOD[x]
                    r = compared(s, x, W.sha[x][n - 1], W.sha[x][n], t)
                    l.steps()
                    want = gitw.expected(n - 1, n)
                    if r is None or r[0] != 200:
                        return l.violation(name, f"comparison in {x}: {r}")
                    body = r[2].decode("utf-8", "surrogateescape")
                    page = webw.Page(body)
                    if sorted(page.cells()) != sorted(want):
                        return l.violation(name, f"comparison in {x}: {page.cells()}, expected {want}")
                    orgs = set(re.findall(r"https://github\.com/([^/\"']+)/", "\n".join(v for n_ in nodes(page.root) for k_, v in n_.attrs if v and k_ == "href" and "ggwpez" not in v)))
                    if orgs and org not in orgs:
                        return l.violation(name, f"comparison in {x} of {org}: links to {orgs}")
                    r = s.get("/branches?repo=" + urllib.parse.quote(x, safe=""), t)
                    l.steps()
                    if r is None or r[0] != 200 or f'["main","{W.sha[x][n][:12]}"]' not in r[2].decode():
                        return l.violation(name, f"branches of {x}: {r}")
            r = s.get("/compare-mr", t)
            have = r and r[0] == 200 and sorted(o["value"] for o in webw.parse(r[2].decode("utf-8", "surrogateescape")).all("option"))
            want = sorted((GOOD[x][0] if x in GOOD else ORIGINS[x][1]) + ":" + x for x in set(repos))
            if have != want:
                return l.violation(name, f"repositories with merge requests: {have}, expected {want}")
            l.outcome("started" + (" with TLS" if t else ""))
        l.trace()
        l.sample(name)
    finally:
        s.stop()


def nodes(n):
    for k in n.kids:
        if isinstance(k, webw.Node):
            yield k
            yield from nodes(k)


def settings_name(job):
    kind, repos, static, (cert, key) = job
    o = ", ".join(f"{x} with origin {ORIGINS[x][0]}" if x in ORIGINS else x for x in repos)
    return f"start with repositories [{o}] static {static} cert {cert} key {key}"


GOOD = {"r": ("org", "r", 2), "s": ("Other.org-2", "called-differently", 3), "nested/t": ("org", "t", 4)}


# --- Single settings ---------------------------------------------------------------------------------------------

def lone(l, name, args, want, look=None, host=None, cwd=None):
    s = Start(args, host=host, cwd=cwd)
    l.state()
    l.steps()
    try:
        if s.up != want or (not want and not s.rc):
            return l.violation(name, f"{'listens' if s.up else f'exit {s.rc}'}, expected it {'to start' if want else 'to fail'}\n{s.err[:1000]}")
        if look:
            d = look(s)
            if d:
                return l.violation(name, d)
        l.trace()
        l.outcome("started" if want else "refused arguments")
    finally:
        s.stop()


def check_single(job, l):
    mine()
    b, name = W.base, "settings " + job
    if job == "short names":
        return lone(l, name, ["-r", b + "/root", "-s", b + "/static", "-e", "$HOST", "-p", "$PORT", "--repos", "r", "s"], True, lambda s: None if offers(s) == ["r", "s"] and s.get("/static/b.css")[2] == b"b {}" else "other settings")
    if job == "defaults":
        d = f"{h.scratch()}/defaults{os.getpid()}"
        mk(d + "/web")
        gitw.copy(b + "/root/r", mk(d + "/root") + "/polkadot")
        shutil.copytree(b + "/static", d + "/web/static", symlinks=True)
        def look(s):
            if offers(s) != ["polkadot"]:
                return f"offers {offers(s)}"
            if s.get("/static/b.css")[2] != b"b {}":
                return "does not serve web/static"
            if s.connects("127.0.0.2"):
                return "listens at other addresses than 127.0.0.1"
        return lone(l, name, ["--port", "$PORT"], True, look, host="127.0.0.1", cwd=d)
    if job == "address in use":
        s = Start(full())
        try:
            return lone(l, name, [a.replace("$HOST", s.host).replace("$PORT", str(s.port)) for a in full()], False)
        finally:
            s.stop()
    if job == "only its address":
        return lone(l, name, full(), True, lambda s: "listens at another address, too" if s.connects("127.0.0.1") or s.connects("127.255.0.3") else None)
    if job.startswith("arguments "):
        return lone(l, name, full() + job.split(" ")[1:], False)
    if job.startswith("without "):
        # Relative paths are below the working directory.
        return lone(l, name, ["--root", "root", "--static", "./static/", "--port", "$PORT", "--endpoint", "$HOST", "--repos", "r"], True, lambda s: None if offers(s) == ["r"] and s.get("/static/b.css")[2] == b"b {}" else "other settings")
    raise RuntimeError(job)


# --- Files --------------------------------------------------------------------------------------------------------

SEGMENTS = ["", ".", "..", "%2e%2e", "%2E.", "..%2f", "%2f", "..%5c", "static", "sub", "deep", "a.txt", "secret.txt", "static2", "root", "r", "hollow", "%00", "%61.txt", "..;", "%252e%252e", "%c0%ae%c0%ae"]
_server = None


def server():
    global _server
    if _server is None or _server.p.poll() is not None:
        _server = Start(full(repos=["r", "s"]))
        if not _server.up:
            raise LookupError("the service does not start: " + _server.err)
    return _server


def judge(target, r, exact=None):
    """What is wrong with this answer, if something is."""
    if r is None:
        return "no answer" if exact is not None else None
    st, hd, body = r
    if OUTSIDE.encode() in body or b"OUTSIDE-OF" in body or b"[core]" in body:
        return f"shows something outside of the static directory: {st} {body[:300]!r}"
    if exact is not None:
        if st != 200 or body != exact:
            return f"expected the {len(exact)} bytes of the file: {st} {body[:300]!r}"
    elif st == 200 and target.startswith("/static"):
        # A file of the directory that the path names, or a list.
        names = urllib.parse.unquote(target)
        if not any(body == c and f.rsplit("/", 1)[-1] in names for f, c in W.inside.items()) and b"<ul>" not in body:
            return f"answers with {body[:300]!r}"
    elif st < 300 and st != 200:
        return f"status {st}"
    return None


def check_paths(job, l):
    mine()
    s = server()
    depth, first = job
    l.trace()
    for rest in itertools.product(SEGMENTS, repeat=depth - 1):
        for base in ("/static/", "/"):
            target = base + "/".join((first,) + rest)
            segs = target.split("/")[2:] if base == "/static/" else target.split("/")[2:]
            exact = None
            if target.startswith("/static/"):
                rel = "/".join(target.split("/")[2:]).replace("%61", "a")
                if "//" not in rel and not any(x in rel.split("/") for x in ("", ".", "..")) and rel.encode().decode() in W.inside and "%" not in rel:
                    exact = W.inside[rel]
            r = s.get(target)
            l.steps()
            d = judge(target, r, exact)
            if not d and base == "/" and r is not None and r[0] == 200 and not target.startswith("/static") and target.strip("/.") and not target.startswith("//") and re.fullmatch(r"[a-z0-9./]+", target) and "." not in segs and ".." not in target:
                d = f"something is served at {target}: {r[2][:200]!r}"
            if d:
                return l.violation(path_name(job), f"{target}: {d}")
            l.outcome("file" if exact is not None else "no answer" if r is None else f"status {r[0]}")
    l.state(len(SEGMENTS) ** (depth - 1) * 2)
    l.sample(path_name(job))


def path_name(job):
    return f"paths of {job[0]} segments that begin with {job[1]!r}"


def inflate(hd, body):
    e = hd.get("content-encoding")
    if e in (None, "identity"):
        return body
    if e == "gzip":
        return zlib.decompress(body, 31)
    if e == "deflate":
        try:
            return zlib.decompress(body)
        except zlib.error:
            return zlib.decompress(body, -15)
    return None


def check_file(job, l):
    mine()
    f, how = job
    s = server()
    name = file_name(job)
    l.state()
    l.steps()
    want = W.inside[f]
    quoted = urllib.parse.quote(f)
    if how == "everything quoted":
        quoted = "/".join("".join(f"%{b:02x}" for b in seg.encode()) for seg in f.split("/"))
    r = s.get("/static/" + quoted + ("?x=1" if how == "query" else ""), encoding=how if how in ("gzip", "deflate", "gzip, deflate", "identity") else None)
    if r is None or r[0] != 200 or inflate(r[1], r[2]) != want:
        return l.violation(name, f"expected the file: {r if r is None else (r[0], r[1], r[2][:200])}")
    t = r[1].get("content-type", "")
    for ext, types in ((".css", {"text/css"}), (".js", {"text/javascript", "application/javascript"}), (".html", {"text/html"}), (".txt", {"text/plain"})):
        if f.endswith(ext) and t.split(";")[0] not in types:
            return l.violation(name, f"content type {t}")
    l.outcome("file")
    l.trace()
    l.sample(name)


def file_name(job):
    return f"file {job[0]} {job[1]}"


def check_listing(job, l):
    mine()
    d, how = job
    s = server()
    name = listing_name(job)
    l.state()
    l.steps()
    r = s.get("/static" + ("/" + d if d else "") + how)
    if r is None or r[0] >= 400:
        return l.violation(name, f"{r}")
    body = r[2].decode("utf-8", "surrogateescape")
    p = (W.base + "/static/" + d).rstrip("/")
    have = {f for f in os.listdir(p) if not f.startswith(".")}
    links = [(a["href"], a.text()) for a in webw.parse(body).all("a")]
    shown = {t.rstrip("/") for _, t in links if t not in ("..", "../", ".")}
    if shown != have:
        return l.violation(name, f"lists {sorted(shown)}, there is {sorted(have)}")
    l.outcome("listing")
    l.trace()


def listing_name(job):
    return f"list of /static/{job[0]}{job[1]}"


def check_encodings(job, l):
    """Pages are the same however they are compressed."""
    mine()
    s = server()
    l.state()
    ref = s.get(job)
    for e in ("gzip", "deflate", "gzip;q=1.0, *;q=0", "br;q=0, gzip", "identity", "*", "nonsense"):
        r = s.get(job, encoding=e)
        l.steps()
        got = None if r is None else inflate(r[1], r[2])
        if r is None or r[0] != ref[0] or r[1].get("content-type") != ref[1].get("content-type"):
            return l.violation(enc_name(job), f"accepting {e}: {r and r[:2]}, without {ref[:2]}")
        if got is not None and pinned(got) != pinned(ref[2]):
            return l.violation(enc_name(job), f"accepting {e}: {got[:300]!r}, without {ref[2][:300]!r}")
    l.outcome("page")
    l.trace()


def pinned(b):
    """Without what changes from one answer to the next: whether it was cached, and the order of repositories."""
    t = b.decode("utf-8", "surrogateescape")
    return sorted(re.sub(r"\b(Yes|No)\b", "", t).split())


def enc_name(job):
    return f"compressed {job[:60]}"


def check_real(job, l):
    """The files that the pages use are there."""
    mine()
    l.state()
    l.steps()
    s = Start(full(static=webw.STATIC))
    try:
        refs = set()
        for page in ("/", "/compare-mr", QUERY + "r&old=main&new=main"):
            r = s.get(page)
            if r is None or r[0] != 200:
                return l.violation("files of the pages", f"{page}: {r}")
            for n in nodes(webw.parse(r[2].decode("utf-8", "surrogateescape"))):
                for k in ("src", "href"):
                    v = n[k] or ""
                    if v.startswith(("/static", "static")):
                        refs.add((v if v.startswith("/") else "/" + v, n.tag))
        if not refs:
            return l.violation("files of the pages", "they use none")
        for v, tag in sorted(refs):
            r = s.get(v)
            l.steps()
            p = webw.STATIC + urllib.parse.unquote(v.split("?")[0])[len("/static"):]
            if r is None or r[0] != 200 or not os.path.isfile(p) or r[2] != open(p, "rb").read():
                return l.violation("files of the pages", f"{v}: {r and r[:2]}")
            l.outcome("file that a page uses")
        l.trace()
    finally:
        s.stop()


def run(ctx):
    build()
    none = (None, None)
    js = []
    bad = ["no-git", "no-origin", "no-url", "file", "missing"]
    every = list(GOOD) + bad
    depth = 3
    for n in range(depth + 1):
        for x in itertools.product(every if n < 3 else ["r", "s", "no-git", "missing", "no-origin"], repeat=n):
            js.append(("repositories", x, "static", none))
    for o in ORIGINS:
        js.append(("origin", (o,), "static", none))
    statics = ["static", "hollow", "static/sub", "secret.txt", "no-such", "static/a.txt", "static/no-such"]
    certs = [None, "a.crt", "b.crt", "garbage", "empty", "no-such", "a.key"]
    keys = [None, "a.key", "b.key", "garbage", "empty", "no-such", "a.crt"]
    for c, k in itertools.product(certs, keys):
        js.append(("tls", ("r",), "static", (c, k)))
    for st in statics:
        for x in (("r",), ("r", "s"), ("missing",), ()):
            for t in (none, ("a.crt", "a.key"), ("a.crt", "b.key"), ("a.crt", None)):
                js.append(("static", x, st, t))
    for x in (("s", "r"), ("nested/t", "s"), ("r", "s", "nested/t")):
        js.append(("tls", x, "static", ("b.crt", "b.key")))
    js = list(dict.fromkeys(js))
    ctx.bound(f"every sequence of up to {depth} of {len(every)} usable and unusable repositories; {len(ORIGINS)} addresses of origin (schemes, hosts, paths); {len(certs)} certificates with {len(keys)} keys; {len(statics)} static directories with 4 lists of repositories and 4 pairs of certificate and key")
    ctx.par(check_settings, js, settings_name)
    singles = ["short names", "defaults", "address in use", "only its address", "without absolute paths", "arguments --no-such", "arguments --port 99999", "arguments --port x", "arguments --port -1", "arguments --cert"]
    ctx.par(check_single, singles, lambda j: "settings " + j)
    ctx.bound(f"{len(singles)} further settings: defaults, short names, relative paths, the address")
    d = 4 if ctx.thorough else 3
    ctx.bound(f"every path of up to {d} of {len(SEGMENTS)} segments (names, dot segments, separators, also encoded) below / and /static/; {len(TREE)} files in 7 ways; all directories")
    ctx.par(check_paths, [(n, x) for n in range(1, d + 1) for x in SEGMENTS], path_name)
    ctx.par(check_file, [(f, how) for f in TREE for how in ("plain", "everything quoted", "query", "gzip", "deflate", "gzip, deflate", "identity")], file_name)
    ctx.par(check_listing, [(x, "/") for x in ("", "sub", "sub/deep", "hollow", "static", "root/r")], listing_name)
    ctx.par(check_encodings, ["/", "/compare-mr", "/version", "/version/badge", "/branches?repo=r", "/branches?repo=x", "/no-such", QUERY + "r&old=main&new=main", QUERY + "x&old=main&new=main", QUERY + "s&old=main~1&new=main", "/static/bytes.bin", "/static/"], enc_name)
    ctx.par(check_real, ["files"], lambda j: "files of the pages")
    ctx.assume("origins of which only the last part is missing (https://github.com/org/), other characters in the place of the dot of github.com, repositories outside of the root and hidden files and symbolic links in the static directory are not judged")
