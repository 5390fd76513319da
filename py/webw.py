"""Running the web service on repositories of https://github.com that are really next to it, and reading its pages."""
import codecs, ctypes, html.parser, http.client, os, re, signal, socket, struct, subprocess, time, urllib.parse
import h, gitw

STATIC = os.environ.get("MC_STATIC", "/repo/web/static")
CLOCK = os.path.join(os.environ.get("MC_TARGET", "/verif/target"), "shim", "clock.so")
GATE = os.path.join(os.path.dirname(CLOCK), "gate.so")
_prctl = ctypes.CDLL(None).prctl


def exec_path():
    """Git's own programs, but https goes to $MC_REMOTES/<org>/<name>.git."""
    p = h.scratch() + "/git-core"
    if not os.path.exists(p):
        t = f"{p}.{os.getpid()}"
        os.makedirs(t)
        for f in os.listdir("/usr/lib/git-core"):
            if not f.startswith("git-remote-"):
                os.symlink("/usr/lib/git-core/" + f, f"{t}/{f}")
        with open(t + "/git-remote-https", "w") as f:
            f.write("""#!/bin/sh
p=${2#https://github.com/}
while read -r l; do
	case $l in
	capabilities) printf 'connect\\n\\n' ;;
	connect*)
		[ -n "$MC_NETLOG" ] && echo contact >> "$MC_NETLOG"
		[ -d "$MC_REMOTES/${p%.git}.git" ] || { echo "fatal: repository '$2' not found" >&2; exit 128; }
		printf '\\n'; exec git-upload-pack "$MC_REMOTES/${p%.git}.git" ;;
	*) exit 1 ;;
	esac
done
""")
        os.chmod(t + "/git-remote-https", 0o755)
        try:
            os.rename(t, p)
        except OSError:
            pass
    return p


def add_origin(path, org, name):
    gitw.git(path, "config", "remote.origin.url", f"https://github.com/{org}/{name}")
    gitw.git(path, "config", "remote.origin.fetch", "+refs/heads/*:refs/remotes/origin/*")


def remote_env(base, **kw):
    """Environment in which git reaches the remotes below base/remotes."""
    return h.env(GIT_EXEC_PATH=exec_path(), MC_REMOTES=base + "/remotes", **kw)


class Resp:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    def __repr__(self):
        return f"status {self.status}\n{self.body[:3000]}"


class Server:
    """base/root/<repos>, base/remotes/<org>/<name>.git; its git logs go to base/log.*"""

    count = 0

    def __init__(self, base, repos, clock=False, observed=True, sock=None, plan=None, gate=False, extra=None, unset=()):
        self.base, self.repos = base, repos
        e = gitw.observed_env(base + "/log", plan=plan, root=base) if observed else h.env()
        e.update(GIT_EXEC_PATH=exec_path(), MC_REMOTES=base + "/remotes")
        if sock:
            e["FG_SOCK"] = sock
        if gate:
            e.update(MC_GATE=base + "/root/", MC_GATE_SOCK=sock, LD_PRELOAD=GATE)
        if clock:
            with open(base + "/clock", "wb") as f:
                f.write(struct.pack("q", 0))
            e.update(MC_CLOCK=base + "/clock", LD_PRELOAD=CLOCK)
        e.update(extra or {})
        for k in unset:
            e.pop(k, None)
        self.err = open(base + "/server.err", "ab")
        # An address of its own.
        n = Server.count = Server.count + 1
        k = (os.getpid() & 0x7fff) << 9 | n & 0x1ff
        self.host, self.port = f"127.{k >> 16 & 255}.{k >> 8 & 255}.{k & 255}", 8001 + (n >> 9)
        for _ in range(3):
            self.p = subprocess.Popen([h.WEB, "--endpoint", self.host, "--root", base + "/root", "--static", STATIC, "--port", str(self.port), "--repos", *repos],
                                      env=e, cwd=base, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                      preexec_fn=lambda: _prctl(1, signal.SIGKILL), start_new_session=True)
            end = time.time() + 30
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection((self.host, self.port), 1).close()
                    return
                except OSError:
                    time.sleep(0.003)
            self.stop()
        raise RuntimeError("the service does not start: " + open(base + "/server.err", errors="replace").read()[-2000:])

    def ahead(self, ns):
        """Sets how far its clocks run ahead."""
        with open(self.base + "/clock", "r+b") as f:
            f.write(struct.pack("q", ns))

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        self.p.wait()

    def raw(self, target, timeout=60):
        """One request on a connection of its own; None if there was no answer."""
        c = http.client.HTTPConnection(self.host, self.port, timeout=timeout)
        try:
            c.putrequest("GET", target, skip_accept_encoding=True)
            c.putheader("Connection", "close")
            c.endheaders()
            r = c.getresponse()
            return Resp(r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read().decode("utf-8", "surrogateescape"))
        except (OSError, http.client.HTTPException):
            return None
        finally:
            c.close()

    def get(self, path, timeout=60, **args):
        q = "&".join(f"{urllib.parse.quote(k, safe='')}={urllib.parse.quote(str(v), safe='')}" for k, v in args.items() if v is not None)
        return self.raw(path + ("?" + q if q else ""), timeout)

    def compare(self, repo, old, new, timeout=60, **kw):
        a = dict(repo=repo, old=old, new=new, path_pattern="src/*.rs", ignore_errors="false", threshold="0", unit="time", method="base", git_pull="false")
        a.update(kw)
        return self.get("/compare", timeout, **a)


def as_html(r):
    """What is wrong with how a browser would read a page, if anything."""
    t = r.headers.get("content-type", "text/html").split(";")
    if t[0].strip().lower() != "text/html":
        return f"the page is {t[0]!r}"
    cs = [x.split("=", 1)[1].strip().strip('"') for x in t[1:] if x.strip().lower().startswith("charset=")]
    # An unknown one does not count; what the page says comes next.
    cs += re.findall(r"<meta\s+charset=\"?([^\s\">]+)", r.body[:1024], re.I)
    for c in cs:
        try:
            if codecs.lookup(c).name == "utf-8":
                return None
        except LookupError:
            continue
        break
    if not r.body.isascii():
        return f"the page is not read as UTF-8: {cs}"


VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}


class Node:
    def __init__(self, tag, attrs=(), parent=None):
        self.tag, self.attrs, self.parent, self.kids = tag, attrs, parent, []

    def __getitem__(self, k):
        return dict(self.attrs).get(k)

    def all(self, tag):
        for k in self.kids:
            if isinstance(k, Node):
                if k.tag == tag:
                    yield k
                yield from k.all(tag)

    def text(self):
        return "".join(k if isinstance(k, str) else k.text() for k in self.kids)

    def id(self, i):
        for k in self.kids:
            if isinstance(k, Node):
                if k["id"] == i:
                    return k
                f = k.id(i)
                if f:
                    return f

    def shape(self):
        """Elements and attribute names, and everything that is not an element."""
        o = []
        for k in self.kids:
            if isinstance(k, Node):
                o.append((k.tag, tuple(sorted(a for a, _ in k.attrs if (k.tag, a) != ('option', 'selected'))), k.shape()))
        return tuple(o)


class Parser(html.parser.HTMLParser):
    # Elements that end an open one of the same kind, near enough to what browsers do for these pages.
    ENDS = {"td": {"td", "th"}, "th": {"td", "th"}, "tr": {"tr", "td", "th"}, "option": {"option"}, "li": {"li"}, "p": {"p"}}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.at = Node("#document")
        self.odd = []

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs, self.at)
        names = [a for a, _ in attrs]
        if len(set(names)) != len(names):
            self.odd.append(f"repeated attribute in {tag}")
        self.at.kids.append(n)
        if tag not in VOID:
            self.at = n

    def handle_startendtag(self, tag, attrs):
        self.at.kids.append(Node(tag, attrs, self.at))

    def handle_endtag(self, tag):
        a = self.at
        while a.parent and a.tag != tag:
            a = a.parent
        if a.parent:
            self.at = a.parent

    def handle_data(self, d):
        if self.at.kids and isinstance(self.at.kids[-1], str):
            self.at.kids[-1] += d
        else:
            self.at.kids.append(d)

    def handle_comment(self, d):
        self.at.kids.append(Node("#comment"))

    def handle_pi(self, d):
        self.at.kids.append(Node("#pi"))

    def unknown_decl(self, d):
        self.at.kids.append(Node("#decl"))


def parse(body):
    p = Parser()
    p.feed(body)
    p.close()
    return p.root


class Page:
    """The comparison page."""

    def __init__(self, body):
        r = self.root = parse(body)
        t = r.id("sort_me")
        self.head = [th.text().strip() for th in next(t.all("thead")).all("th")]
        self.rows = []
        for tr in next(t.all("tbody")).all("tr"):
            self.rows.append([tr] + [td for td in tr.kids if isinstance(td, Node) and td.tag == "td"])
        self.cached = None
        for tr in r.id("config_table").all("tr"):
            tds = list(tr.all("td"))
            if tds and tds[0].text().startswith("Cache"):
                self.cached = {"Yes": True, "No": False}[tds[1].text().strip()]
        self.form = {}
        for n in list(r.all("input")):
            i = n["id"] or ""
            if i.startswith("input_"):
                self.form[i[6:]] = n["value"]
            elif i.startswith("checkbox_"):
                self.form[i[9:]] = "checked" in dict(n.attrs)
        for n in r.all("select"):
            sel = [o["value"] for o in n.all("option") if "selected" in dict(o.attrs)]
            self.form[n["id"][7:]] = sel[0] if len(sel) == 1 else sel
            self.form["#" + n["id"][7:]] = [o["value"] for o in n.all("option")]
        self.errors = self._notes("collapseErrors")
        self.warnings = self._notes("collapseWarns")

    def _notes(self, i):
        n = self.root.id(i)
        if n is None:
            return []
        card = next(k for k in n.kids if isinstance(k, Node))
        out, cur = [], ""
        for k in card.kids:
            if isinstance(k, Node) and k.tag == "br":
                out.append(cur.strip())
                cur = ""
            else:
                cur += k if isinstance(k, str) else k.text()
        return out + ([cur.strip()] if cur.strip() else [])

    def cells(self):
        """(file, function, old, new) as in gitw.rows"""
        t = lambda x: x.text().replace("🔗", "").strip()
        dash = lambda s: "" if s == "-" else s
        return [(t(r[1]), t(r[2]), dash(t(r[3])), dash(t(r[4]))) for r in self.rows]
