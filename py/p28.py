"""P28: the forms of the web pages ask for exactly what was chosen."""
import hashlib, itertools, json, os, re, subprocess, urllib.parse
import h, gitw, webw, weights as w
from weights import Fn

NODE = ["node", "--no-warnings", "--experimental-vm-modules", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "web", "browser.mjs")]
REPOS = ["polkadot-sdk", "Other", "constructor"]
FIRST = {"polkadot-sdk": ["master", "a&b=c", "c#d+e"], "Other": ["main", "a&b=c", 'q"<i>%41'], "constructor": []}
LATER = {"polkadot-sdk": ["master", "a&b=c", "new/\u00fc;x"], "Other": ["main", "master"], "constructor": ["master"]}
HOST = "http://swc.example"
WANT = ["select", "input[type=text]", "fieldset", ".overlay", ".spanner"]


class W:
    pass


class Browser:
    """A node process; one visit at a time."""

    def __init__(self):
        self.p = subprocess.Popen(NODE, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=h.env(), text=True, encoding="utf-8")
        self.known = set()

    def define(self, name, value):
        if name not in self.known:
            self.p.stdin.write(json.dumps(dict(define=name, value=value)) + "\n")
            self.known.add(name)

    def visit(self, **v):
        self.p.stdin.write(json.dumps(v) + "\n")
        self.p.stdin.flush()
        o = json.loads(self.p.stdout.readline())
        if "broken" in o:
            raise RuntimeError("the browser failed: " + o["broken"])
        return o


BR = {}


def browser():
    if os.getpid() not in BR:
        b = BR[os.getpid()] = Browser()
        b.define("scripts", W.scripts)
        b.define("root", W.root)
        b.define("mrs", W.mrs)
    return BR[os.getpid()]


SRV = {}


def server():
    if os.getpid() not in SRV:
        d = f"{h.scratch()}/s{os.getpid()}"
        os.makedirs(d)
        for x in ("root", "remotes"):
            gitw.copy(f"{W.base}/{x}", f"{d}/{x}")
        SRV[os.getpid()] = webw.Server(d, REPOS, observed=False)
    return SRV[os.getpid()]


def build():
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    os.makedirs(base + "/remotes/org")
    path = "substrate/frame/x/src/weights.rs"
    for name in REPOS:
        r = gitw.Repo(f"{base}/remotes/org/{name}.git", bare=True)
        r.commits([(i, []) for i in range(1, 9)], lambda n: {path: w.rust_file([Fn("f", (1000 * n, 10))])})
        for i, b in enumerate(FIRST[name]):
            r.ref("refs/heads/" + b, i + 1)
        gitw.git(r.path, "symbolic-ref", "HEAD", "refs/heads/" + (FIRST[name] or ["master"])[0])
        l = gitw.Repo(f"{base}/root/{name}")
        webw.add_origin(l.path, "org", name)
        if FIRST[name]:
            gitw.git(l.path, "fetch", "-q", r.path, "+refs/heads/*:refs/remotes/origin/*")
            gitw.git(l.path, "checkout", "-q", "--detach", "origin/" + FIRST[name][0])
    for b in FIRST["polkadot-sdk"]:
        for x in ("tags/", "remotes/origin/"):
            gitw.git(base + "/root/Other", "update-ref", f"refs/{x}{b}", "HEAD")
    l.commits([(100 + i, []) for i in range(len(ORDERS))], lambda n: {path: w.rust_file(ORDERS[n - 100])})
    for i in range(len(ORDERS)):
        l.ref(f"refs/tags/order/{i}", 100 + i)
    for i in range(2):
        l.commits([(200 + i, [])], lambda n: {"src/" + f: w.rust_file([Fn(x, (n * (k + 1), n)) for k, x in enumerate(("f", "g", "gr\u00f6\u00dfe"))]) for f in LINE_FILES})
        l.ref(f"refs/tags/lines/{i}", 200 + i)
    s = server()
    W.root, W.mrs = s.get("/").body, s.get("/compare-mr").body
    # Every script that the pages may need, as served.
    W.scripts = {}
    for f in sorted(os.listdir(webw.STATIC)):
        if f.endswith((".js", ".mjs")):
            r = s.get("/static/" + urllib.parse.quote(f))
            assert r.status == 200, f
            W.scripts["/static/" + f] = r.body
    W.lists = {}
    for k, names in (("old", FIRST), ("new", LATER)):
        for name in REPOS:
            if k == "new":
                p = f"{s.base}/remotes/org/{name}.git"
                for b in set(FIRST[name]) - set(names[name]):
                    gitw.git(p, "update-ref", "-d", "refs/heads/" + b)
                for i, b in enumerate(names[name]):
                    gitw.git(p, "update-ref", "refs/heads/" + b, commit(p))
            a = s.get("/branches", repo=name, fetch="true")
            assert a.status == 200, a
            W.lists[name, k] = json.loads(a.body)
            assert sorted(x[0] for x in W.lists[name, k]["branch"]) == sorted(names[name]), W.lists[name, k]
    s.stop()
    SRV.clear()


def commit(p):
    """Some commit of a repository, which need not have branches."""
    return gitw.git(p, "cat-file", "--batch-all-objects", "--batch-check=%(objectname) %(objecttype)").split(" commit")[0].split()[-1]


def query(url):
    """Path and parameters as the server reads them; None if it is somewhere else."""
    u = urllib.parse.urlsplit(url)
    if f"{u.scheme}://{u.netloc}" != HOST:
        return None
    q = urllib.parse.parse_qsl(u.query, keep_blank_values=True)
    d = dict(q)
    return (u.path, d) if len(d) == len(q) else (u.path, None)


# ---- The front page

def names(lst):
    return [x[0] for x in lst["branch"]]


def read_front(o):
    sel = o["show"]["select"]
    return sel[0]["value"], sel[1]["value"], sel[2]["value"]


def front_events(o):
    """The events that are possible on a page."""
    sel = o["show"]["select"]
    for v, _ in sel[0]["options"]:
        if v != sel[0]["value"]:
            yield ["pick", "select", 0, v]
    for k in (1, 2):
        for v, _ in sel[k]["options"]:
            if v != sel[k]["value"]:
                yield ["pick", "select", k, v]
    for i, label in enumerate(W.buttons):
        if label in ("fetch", "Compare"):
            yield ["click", "button, input[type=button]", i]
    for i, url in enumerate(o["pending"]):
        q = query(url)
        name = (q[1] or {}).get("repo") if q else None
        for k in ("old", "new"):
            if (name, k) in W.lists:
                yield ["reply", i, W.lists[name, k]]
        yield ["reply", i, "fail"]
    yield ["reload"]


def show_event(e, o=None):
    if e[0] == "reply":
        return f"reply {e[1]} " + (e[2] if isinstance(e[2], str) else "/".join(names(e[2])))
    if e[0] == "click" and e[1] == "button, input[type=button]":
        return f"click {W.buttons[e[2]]} {W.buttons[:e[2]].count(W.buttons[e[2]])}"
    return " ".join(map(str, e))


def need(c, msg):
    if not c:
        raise AssertionError(msg)


def front_step(m, before, e, o):
    """The model's view of one event; complains by an assertion. m = {repo: set of lists that arrived}"""
    m = dict(m)
    repo, a, b = read_front(o)
    need(not o["errors"], f"uncaught {o['errors']}")
    if e[0] == "reload":
        m = {}
    if e[0] == "reply":
        q = query(before["pending"][e[1]])
        name = q[1]["repo"]
        if not isinstance(e[2], str):
            m[name] = m.get(name, frozenset()) | {tuple(names(e[2]))}
    # New requests
    new = o["requests"][len(before["requests"]) if e[0] != "reload" else 0:]
    for u in new:
        q = query(u)
        need(q and q[0] == "/branches" and q[1] and q[1].get("repo") == repo and q[1].get("fetch", "false") in ("true", "false"), f"asks for {u!r} while {repo!r} is chosen")
    fetching = [u for u in new if query(u)[1].get("fetch") == "true"]
    if e[0] == "click" and W.buttons[e[2]] == "fetch":
        need(bool(fetching) == (repo is not None), f"the fetch button asks for {new} with {repo!r} chosen")
    else:
        need(not fetching, f"fetches without being asked: {new}")
    if e[0] == "pick" and e[2] == 0 and repo not in m:
        need(new, f"does not load the list of {repo!r}")
    # Navigation
    compare = e[0] == "click" and W.buttons[e[2]] == "Compare"
    need(o["nav"] is None or compare, f"leaves for {o['nav']!r} without being asked")
    if compare:
        complete = None not in (repo, a, b)
        if complete and repo == "polkadot-sdk":
            need(o["nav"], "does not compare")
        if o["nav"]:
            q = query(o["nav"])
            need(q and q[0] == "/compare" and q[1], f"leaves for {o['nav']!r}")
            need(complete and (q[1].get("repo"), q[1].get("old"), q[1].get("new")) == (repo, a, b), f"asks for {o['nav']!r} while {(repo, a, b)} are chosen")
    # What is offered and shown
    if repo in m and e[0] != "reload":
        for s in o["show"]["select"][1:3]:
            got = tuple(v for v, _ in s["options"])
            need(got in m[repo] or (not got and o["pending"]), f"offers {got} for {repo!r}, which has {sorted(m[repo])}")
    if not o["pending"]:
        opts = [[v for v, _ in s["options"]] for s in o["show"]["select"][1:3]]
        need(opts[0] == opts[1], f"offers {opts[0]} as old but {opts[1]} as new")
        if repo in m:
            need(tuple(opts[0]) in m[repo], f"offers {opts[0]} for {repo!r}, which has {sorted(m[repo])}")
        texts = [x["value"] for x in o["show"]["input[type=text]"]]
        need(texts == [x or "" for x in (repo, a, b)], f"shows {texts} while {(repo, a, b)} are chosen")
        if not o["nav"]:
            need(all("show" not in x["classes"] for x in o["show"][".overlay"] + o["show"][".spanner"]), "still says that it is loading")
    # Choices stay
    if e[0] != "reload":
        pr, pa, pb = read_front(before)
        if e[0] == "pick":
            need((repo, a, b)[e[2]] == e[3], f"shows {(repo, a, b)[e[2]]!r} after choosing {e[3]!r}")
        for k, (x, y) in enumerate(((pr, repo), (pa, a), (pb, b))):
            if (e[0] == "pick" and (e[2] == k or e[2] == 0)) or x is None:
                continue
            if k and e[0] == "reply":
                offered = [v for v, _ in o["show"]["select"][k]["options"]]
                need(x == y or x not in offered, f"{x!r} was chosen and is still offered, but now {y!r} is")
            else:
                need(x == y, f"{x!r} was chosen, but now {y!r} is")
    return m


def front_visit(ev):
    return browser().visit(html="root", scripts="scripts", url=HOST + "/", storage=[], events=ev, want=WANT)[-1]


def front_key(o, m):
    return hashlib.sha256(json.dumps([o["show"], o["pending"], sorted(o["storage"]), o["nav"], sorted((r, sorted(v)) for r, v in m.items())]).encode()).digest()


def front_job(j, l):
    """All events that are possible after a history."""
    ev, m = j
    o = front_visit(ev)
    l.state()
    for e in front_events(o):
        n = front_visit(ev + [e])
        l.steps()
        l.outcome(e[0])
        try:
            m2 = front_step(m, o, e, n)
        except AssertionError as x:
            l.violation(front_name(ev + [e]), f"{x}\n{json.dumps(n)[:3000]}")
            continue
        if n["nav"]:
            l.names.add(n["nav"])
            l.outcome("comparison")
            l.trace()
            l.sample(front_name(ev + [e]))
        else:
            l.found.append((front_key(n, m2), ev + [e], m2))


def explore_front(ctx, depth):
    seen, todo = set(), [([], {})]
    for level in range(depth):
        ctx.t.found = []
        ctx.par(front_job, todo, lambda j: front_name(j[0]))
        if ctx.enough():
            return
        todo = []
        # Of equal states the same history is continued in every run.
        for k, ev, m in sorted(ctx.t.found, key=lambda f: json.dumps(f[1])):
            if k not in seen:
                seen.add(k)
                todo.append((ev, m))
    ctx.t.trace(len(todo))
    ctx.t.state(len(todo))


def front_name(ev):
    return "front page: " + "; ".join(show_event(e) for e in ev)


# ---- The comparison page

X = (("x", 1, 10),)
# Versions with few and large, equal, added and removed changes.
ORDERS = [
    [Fn("a", (1000, 10)), Fn("b", (1000, 20)), Fn("c", (1000, 30)), Fn("d", (1000, 40)), Fn("e", (0, 0)), Fn("g", (5, 5)), Fn("big", (10**15, 10**9)), Fn("x1", (10, 1), (("x", (100, 10)),), 0, 0, X), Fn("z", (7, 7))],
    [Fn("a", (2000, 5)), Fn("b", (1100, 40)), Fn("c", (900, 31)), Fn("d", (1090, 4000)), Fn("e", (7, 7)), Fn("h", (9, 9)), Fn("big", (10**15 + 10**12, 1)), Fn("x1", (10, 1), (("x", (200, 5)),), 0, 0, X), Fn("z", (7, 7))],
    [Fn("a", (1001, 10)), Fn("b", (1002, 20)), Fn("c", (10, 30)), Fn("d", (100000, 41)), Fn("k1", (1, 1)), Fn("k2", (2, 2)), Fn("big", (5, 10**12)), Fn("z", (70, 7))],
    [Fn("z", (6, 8)), Fn("big", (10**15, 10**9)), Fn("b", (999, 19))],
]


def order_job(j, l):
    """The rows come in the order of their relative changes, largest first."""
    _, a, b, method, unit = j
    try:
        url = HOST + "/compare?" + ENCODE["percent"](dict(START, repo=REPOS[-1], old=f"order/{a}", new=f"order/{b}", method=method, unit=unit))
        u = urllib.parse.urlsplit(url)
        r = server().raw(u.path + "?" + u.query)
        need(r is not None and r.status == 200, f"no page for {url!r}: {r}")
        o = browser().visit(html=r.body, scripts="scripts", url=url, storage=[], events=[], want=["#sort_me tbody tr"])[-1]
        need(not o["errors"], f"uncaught {o['errors']}")
        texts = [[c[0].strip() for c in tr["kids"]] for tr in o["show"]["#sort_me tbody tr"]]
        col = webw.Page(r.body).head.index("Rel. Change")
        fns = {x.name for n in (a, b) for x in ORDERS[n]}
        got = [t[1].replace("\U0001f517", "").strip() for t in texts]
        need(sorted(got) == sorted(fns), f"rows {got}")
        # Very large ones are equal.
        value = lambda t: {"Added": (1, 0), "Removed": (-1, 0), "Unchanged": (0, 0)}[t] if t in ("Added", "Removed", "Unchanged") else (0, min(4e6, float(t.replace("%", "").replace("NaN", "0"))))
        keys = [value(t[col]) for t in texts]
        need(keys == sorted(keys, reverse=True), f"shows {[(t[1], t[col]) for t in texts]}")
        l.state()
        l.steps()
        l.trace()
        l.outcome("sorted table")
    except AssertionError as x:
        l.violation(order_name(j), str(x)[:3000])


LINE_FILES = ["a.rs", "a/b.rs", "a b.rs", "a%20b.rs", "a%41.rs", "aA.rs", "\u00fc\U0001f980.rs", "a\"b'c.rs", "<i>.rs", "a&amp;b.rs", "a&b.rs", "a#b.rs", "a+b.rs", "a?b=c.rs", "#.rs", "a%.rs", "a`b.rs", "a.f.rs", "a[b].rs", "a:b.rs", "a,b.rs", "a>b~c.rs", "a{b}|c^.rs"]


def line_job(j, l):
    """The link of a row leads to this row."""
    base = HOST + "/compare?" + ENCODE["percent"](dict(START, repo=REPOS[-1], old="lines/0", new="lines/1", path_pattern="**/*.rs"))
    name = "links to the rows"
    u = urllib.parse.urlsplit(base)
    r = server().raw(u.path + "?" + u.query)
    try:
        need(r is not None and r.status == 200, f"no page for {base!r}: {r}")
        rows = webw.Page(r.body).rows
        need(len(rows) == 3 * len(LINE_FILES), f"{len(rows)} rows")
        ids = [t[0]["id"] for t in rows]
        need(len(set(ids)) == len(ids), "two rows have the same id")
        o = browser().visit(html=r.body, scripts="scripts", url=base, storage=[], events=[], want=WANT)[-1]
        need(not o["selected"] and o["scrolled"] is None, f"without an anchor: selected {o['selected']}")
        for t in rows:
            link = next(a["href"] for a in t[2].all("a") if "\U0001f517" in a.text())
            o = browser().visit(html=r.body, scripts="scripts", url=urllib.parse.urljoin(base, link) if not link.startswith("#") else base + link, storage=[], events=[], want=WANT)[-1]
            need(not o["errors"] and not o["nav"], f"{link}: uncaught {o['errors']} or leads to {o['nav']}")
            need(o["selected"] == [t[0]["id"]] and o["scrolled"] == t[0]["id"], f"link {link!r} of row {t[0]['id']!r}: selected {o['selected']}, scrolled to {o['scrolled']!r}")
            l.state()
            l.steps()
            l.trace()
            l.outcome("link to a row")
        for link in ("#", "#nothing", "#%", "#%zz", "#a%ff", "#<b>"):
            o = browser().visit(html=r.body, scripts="scripts", url=base + link, storage=[], events=[], want=WANT + [".overlay", ".spanner"])[-1]
            need(not o["errors"] and not o["nav"] and not o["selected"], f"{link}: uncaught {o['errors']} or leads to {o['nav']} or selects {o['selected']}")
            need(not any("show" in e["classes"] for s in (".overlay", ".spanner") for e in o["show"][s]), f"{link}: the page stays busy")
            l.state()
    except AssertionError as x:
        l.violation(name, str(x)[:3000])


def order_name(j):
    return f"order of {j[1]} to {j[2]} {j[3]} {j[4]}"


START = dict(repo="polkadot-sdk", old="master", new="a&b=c", path_pattern="substrate/frame/**/src/weights.rs,cumulus/**/weights/*.rs", unit="time", method="asymptotic", threshold="0", ignore_errors="true", git_pull="false")
TYPED = {
    "old": ["a&b=c", "c#d+e", "master"], "new": ["c#d+e", "origin/c#d+e", " master "], "threshold": ["7", "0", "4294967295"],
    "path_pattern": ["substrate/frame/**/src/weights.rs", "nothing/a b&c=d#e+f%41.rs,**/*.rs", "**/*.rs"],
    "pallet": [".*", "x/src|a b&c=d#e+f%41", "\u00fc<i>\"'"], "extrinsic": [".*", "^f$", "f|;,/?:@&=+$#", "%26"],
}
PICKED = {"repo": ["Other", "polkadot-sdk"], "unit": w.UNITS, "method": w.METHODS}
CHECKED = {"ignore_errors": ["true", "false"], "git_pull": ["true", "false"]}
# How people or programs may write the address.
ENCODE = {"percent": lambda d: "&".join(f"{k}={urllib.parse.quote(v, safe='')}" for k, v in d.items()),
          "form": lambda d: urllib.parse.urlencode(d),
          "plain": lambda d: "&".join(f"{k}={urllib.parse.quote(v, safe='*,/:;@')}" for k, v in d.items())}


def edits():
    for kind, table in (("type", TYPED), ("pick", PICKED), ("check", CHECKED)):
        for k, vs in table.items():
            for v in vs:
                yield kind, k, v


def edit_event(e):
    kind, k, v = e
    if kind == "type":
        return ["type", "#input_" + k, 0, v]
    if kind == "pick":
        return ["pick", "#select_" + k, 0, v]
    return ["check", "#checkbox_" + k, 0, v == "true"]


def shown(page, k):
    v = page.form.get(k)
    return {True: "true", False: "false"}.get(v, v)


def form_job(j, l):
    """A chain of edits; after each the server answers with the page for exactly the edited comparison."""
    _, enc, chain = j
    url, d = HOST + "/compare?" + ENCODE[enc](START), dict(START)
    try:
        for n in range(len(chain) + 1):
            u = urllib.parse.urlsplit(url)
            r = server().raw(u.path + "?" + u.query)
            if r is not None and r.status == 500 and d["git_pull"] == "true":
                l.outcome("refused")
                return
            need(r is not None and r.status == 200, f"no page for {url!r}: {r}")
            page = webw.Page(r.body)
            for k in d:
                need(shown(page, k) is not None and shown(page, k).strip() == d[k].strip(), f"the page for {url!r} shows {shown(page, k)!r} for {k}, not {d[k]!r}")
            o = browser().visit(html=r.body, scripts="scripts", url=url, storage=[], events=[], want=WANT)[-1]
            need(not o["errors"] and not o["nav"] and not o["requests"], f"the page does {o['errors']} {o['nav']} {o['requests']} on its own")
            l.steps()
            if n == len(chain):
                break
            e = chain[n]
            if shown(page, e[1]) == e[2]:
                l.outcome("already so")
                return
            o = browser().visit(html=r.body, scripts="scripts", url=url, storage=[], events=[edit_event(e)], want=WANT)[-1]
            need(not o["errors"], f"uncaught {o['errors']}")
            need(o["nav"], f"nothing happens on {e}")
            q = query(o["nav"])
            d[e[1]] = e[2]
            need(q and q[0] == "/compare" and q[1] is not None, f"{e} leads to {o['nav']!r}")
            need(q[1] == d, f"{e} leads to {q[1]} instead of {d}")
            url = o["nav"]
            l.outcome("edit")
        l.state()
        l.trace()
        l.sample(form_name(j))
    except AssertionError as x:
        l.violation(form_name(j), str(x)[:3000])


def form_name(j):
    return f"comparison page, {j[1]}: " + "; ".join(" ".join(e) for e in j[2])


# ---- The page of merge requests

def mr(n, title, user, head, base, owner="org", date=1):
    repo = None if owner is None else {"name": "polkadot-sdk", "owner": {"login": owner}, "full_name": f"{owner}/polkadot-sdk"}
    return {"url": f"https://api.github.com/{n}", "html_url": f"https://github.com/org/polkadot-sdk/pull/{n}", "number": n, "title": title, "state": "open", "user": {"login": user},
            "head": {"ref": head, "label": f"{owner or 'unknown'}:{head}", "repo": repo, "user": {"login": owner or "ghost"}}, "base": {"ref": base, "repo": {"name": "polkadot-sdk", "owner": {"login": "org"}}},
            "updated_at": f"2022-08-{date:02}T13:26:51Z", "created_at": "2022-01-01T00:00:00Z"}


MRS = {
    "some": [mr(1, "Update WEIGHTS", "al", "c#d+e", "master", date=3), mr(2, "b", "bo-b", "a&b=c", "c#d+e", date=9), mr(3, "x" * 150, "c", "q\"'%41;\u00fc", "weights/1", date=1), mr(9, "long", "l", "l" * 200 + "/head", "b" * 150, date=2)],
    "markup": [mr(4, "<img src=x onerror=alert(1)>", "<b>u</b>", "<i>h", "<script>b</script>", date=2), mr(5, "a && b &amp; </td><td>", "u", "x&lt;y", "master", date=4)],
    "forks": [mr(6, "fork", "u", "master", "master", owner="else", date=5), mr(7, "weights of a deleted fork", "ghost", "gone", "master", owner=None, date=6), mr(8, "after", "u", "a&b=c", "master", date=1)],
    "none": [],
}
AT = {"/compare-mr": ("paritytech", "polkadot-sdk"), "/compare-mr?owner=org&repo=polkadot-sdk": ("org", "polkadot-sdk"), "/compare-mr?repo=Other&owner=org": ("org", "Other"), "/compare-mr?repo=constructor&owner=org": ("org", "constructor")}
ROWS = "#mrTable tr"


def mr_job(j, l):
    """All continuations of what GitHub answers, up to a depth."""
    _, at, which, depth = j
    owner, repo = AT[at]
    data = MRS[which] if which in MRS else which
    visit = lambda ev: browser().visit(html="mrs", scripts="scripts", url=HOST + at, storage=[], events=ev, want=WANT + [ROWS, "#highlighted"])[-1]
    ev = []
    try:
        o = visit([])
        need(not o["errors"] and not o["nav"], f"the page does {o['errors']} {o['nav']}")
        need(len(o["pending"]) == 1, f"requests {o['pending']}")
        u = urllib.parse.urlsplit(o["pending"][0])
        need((u.netloc, u.path) == ("api.github.com", f"/repos/{owner}/{repo}/pulls"), f"asks {o['pending'][0]!r} for the merge requests of {owner}/{repo}")
        chosen = o["show"]["select"][0]["value"]
        need(chosen == (f"{owner}:{repo}" if owner == "org" else None) or owner != "org", f"shows {chosen!r}")
        for v, _ in o["show"]["select"][0]["options"]:
            if v != chosen:
                n = visit([["pick", "select", 0, v]])
                q = n["nav"] and query(n["nav"])
                need(q and q[0] == "/compare-mr" and q[1] and (q[1].get("owner"), q[1].get("repo")) == tuple(v.split(":")), f"choosing {v!r} leads to {n['nav']!r}")
                l.steps()
        ev = [["reply", 0, data]]
        o = visit(ev)
        need(not o["pending"] and not o["nav"], "does something else")
        loaded(o)
        if data == "fail":
            l.state()
            l.trace()
            return
        rows = [r for r in o["show"][ROWS] if len(r["kids"]) >= 4 and [t for t, _ in r["kids"]][:2] != ["Name", "Author"]]
        got = sorted(tuple(t for t, _ in r["kids"][:4]) for r in rows)
        want = sorted((m["title"][:100], m["user"]["login"], m["head"]["ref"], m["base"]["ref"]) for m in data)
        need(got == want, f"lists {got} instead of {want}")
        need(not any(k for r in rows for _, k in r["kids"]), "data has become markup")
        local = lambda m: m["head"]["repo"] is not None and m["head"]["repo"]["owner"]["login"] == owner
        weight = lambda m: any("weight" in x.lower() for x in (m["title"], m["head"]["ref"], m["base"]["ref"]))
        need([x["text"] for x in o["show"]["#highlighted"]] == [str(sum(local(m) and weight(m) for m in data))], f"highlights {[x['text'] for x in o['show']['#highlighted']]}")
        need(not o["errors"], f"uncaught {o['errors']}")
        # Double clicks
        index = {tuple(t for t, _ in r["kids"][:4]): n for n, r in enumerate(o["show"][ROWS])}
        todo = [(ev, [], o)]
        while todo:
            ev, open_, o = todo.pop()
            l.state()
            if len(ev) > depth:
                l.trace()
                continue
            for m in data:
                e = ["dblclick", ROWS, index[m["title"][:100], m["user"]["login"], m["head"]["ref"], m["base"]["ref"]]]
                n = visit(ev + [e])
                l.steps()
                l.outcome("double click")
                if local(m) and repo == "polkadot-sdk":
                    need(not n["errors"], f"uncaught {n['errors']}")
                    more = n["pending"][len(o["pending"]):]
                    qs = [query(u) for u in more]
                    need(all(q and q[0] == "/branches" and q[1] == {"repo": repo, "fetch": "true"} for q in qs) and len(qs) == 1 or (n["nav"] and not qs), f"asks for {more}")
                    if n["nav"]:
                        follows(n["nav"], repo, m, l)
                    else:
                        todo.append((ev + [e], open_ + [m], n))
                else:
                    need(not n["nav"] and n["pending"] == o["pending"], f"follows {m['title']!r} to {n['nav']!r} {n['pending']}")
                    if not n["pending"]:
                        loaded(n)
            for i, m in enumerate(open_):
                for how in ({"branch": []}, "fail"):
                    n = visit(ev + [["reply", i, how]])
                    l.steps()
                    l.outcome("reply")
                    need(not n["errors"], f"uncaught {n['errors']}")
                    if n["nav"]:
                        follows(n["nav"], repo, m, l)
                    else:
                        need(how == "fail", "does not compare")
                        if not n["pending"]:
                            loaded(n)
        l.sample(mr_name(j))
    except AssertionError as x:
        l.violation(mr_name(j), f"after {[show_event(e) if e[0] != 'reply' else 'reply' for e in ev]}: {x}"[:3000])


def loaded(o):
    need(all("show" not in x["classes"] for x in o["show"][".overlay"] + o["show"][".spanner"]), "still says that it is loading")


def follows(url, repo, m, l):
    q = query(url)
    need(q and q[0] == "/compare" and q[1] and (q[1].get("repo"), q[1].get("old"), q[1].get("new")) == (repo, m["base"]["ref"], m["head"]["ref"]), f"{m['base']['ref']!r} -> {m['head']['ref']!r} is compared as {url!r}")
    l.outcome("comparison")
    l.names.add(url)


def mr_name(j):
    return f"merge requests at {j[1]}: {j[2]}"


def served(j, l):
    """The service understands what a page asked for."""
    url = j[1]
    u = urllib.parse.urlsplit(url)
    d = query(url)[1]
    r = server().raw(u.path + "?" + u.query + "&git_pull=false")
    l.steps()
    known = FIRST["polkadot-sdk"]
    if d["old"] in known and d["new"] in known:
        if r is None or r.status != 200:
            l.violation(url, f"refused: {r}")
            return
        f = webw.Page(r.body).form
        for k, v in d.items():
            if k in f and str(f[k]).lower() != v.lower() and (k, v) != ("unit", "weight"):
                l.violation(url, f"shows {f[k]!r} for {k}, not {v!r}")
        l.outcome("served")
    elif r is None or r.status not in (200, 500):
        l.violation(url, f"no answer: {r}")
    l.state()


# ---- Running

def run(ctx):
    build()
    root = webw.parse(W.root)
    W.buttons = []

    def walk(n):
        for k in n.kids:
            if isinstance(k, webw.Node):
                if k.tag == "button" or (k.tag == "input" and k["type"] == "button"):
                    W.buttons.append((k.text() if k.tag == "button" else k["value"]).strip())
                walk(k)
    walk(root)
    # The front page
    depth = 6 if ctx.thorough else 5
    if ctx.only is None:
        explore_front(ctx, depth)
        offered = [o["value"] for o in next(root.all("select")).all("option")]
        if sorted(offered) != sorted(REPOS):
            ctx.par(lambda j, l: l.violation(j, f"offers {offered} instead of {REPOS}"), ["front page: repositories"])
    elif ctx.only.startswith("front page: "):
        ctx.par(replay_front, [ctx.only])
    # The comparison page
    chains = [("form", e, (x,)) for e in ENCODE for x in edits()]
    chains += [("form", e, c) for e in (ENCODE if ctx.thorough else ["percent"]) for c in itertools.product(edits(), repeat=2) if c[0][1] != c[1][1] or ctx.thorough]
    ctx.par(form_job, chains, form_name)
    ctx.par(order_job, [("order", a, b, m, u) for a in range(len(ORDERS)) for b in range(len(ORDERS)) for m in w.METHODS for u in w.UNITS], order_name)
    ctx.par(line_job, [("lines",)], lambda j: "links to the rows")
    # The merge requests
    ctx.par(mr_job, [("mr", a, k, 5 if ctx.thorough else 3) for a in AT for k in list(MRS) + ["fail"]], mr_name)
    # What the pages asked for
    if ctx.only is None or ctx.only.startswith(HOST):
        ctx.par(served, [("served", u) for u in sorted(ctx.t.names | ({ctx.only} if ctx.only else set()))], lambda j: j[1])
    ctx.bound(f"front page: every sequence of at most {depth} choices, clicks, replies (either list or a failure, in any order) and reloads for {len(REPOS)} repositories, up to equal pages; comparison page: every "
              f"{'pair' if not ctx.thorough else 'pair (of the same field, too)'} of {len(list(edits()))} edits through the real service; merge requests: {len(MRS)} lists or a failure, double clicks and replies in any order")
    ctx.assume("jQuery, DataTables and select2 are loaded from elsewhere and replaced by stand-ins with their documented behaviour; animations end at once.")


def replay_front(case, l):
    """Follows a sequence by the names of its events."""
    visit = front_visit
    m, o, ev = {}, visit([]), []
    for s in case[len("front page: "):].split("; "):
        e = next(x for x in front_events(o) if show_event(x) == s)
        n = visit(ev + [e])
        try:
            m = front_step(m, o, e, n)
        except AssertionError as x:
            l.violation(front_name(ev + [e]), f"{x}\n{json.dumps(n)[:3000]}")
            return
        o, ev = n, ev + [e]
