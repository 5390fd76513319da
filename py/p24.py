"""P24: web pages never let data become markup."""
import html, itertools, os, urllib.parse
import h, gitw, webw, weights as w
from weights import Fn

PAYLOADS = ["<b>x</b>", "\"><i>x", "'><i>x", "x' onx='1", "x\" onx=\"1", "x onx=1", "x>y", "&lt;b&gt;", "&amp;lt;", "&#60;b&#62;", "&quot;><i>", "&", "&copy", "<!--", "-->", "<![CDATA[", "<?php",
            "<script>x()</script>", "</script><script>x()", "</td></tr></table>", "</option></select><b>", "</h2>", "</title>", "</a><a href=x>", "<img src=x onerror=x()>", "javascript:x()",
            "`", "<", ">", "\"", "'", "=", "/>", "{{7*7}}", "<%= 7 %>", "\\", "\u00fc<b>", "\u2028<b>", "＜b＞", "%3Cb%3E", "%22onx", "a#b", "a?b=c", "a%41b", "a+b", "a b", "a;b", "<\tb>", "a\rb<i>",
            "<b\nid=x>", "\x00<b>", "<svg/onload=x()>", "\"autofocus onfocus=x() "]
PLAIN = "plain"
ARGS = ["old", "new", "path_pattern", "pallet", "extrinsic", "repo", "unit", "method", "threshold", "ignore_errors", "git_pull", "other"]


def ref_ok(p):
    """Whether git takes it for part of a branch name."""
    return not any(ord(c) < 33 or c in "~^:?*[\\\x7f" for c in p) and not any(x in p for x in ("..", "@{", "//", "/.")) and not p.endswith((".", "/", ".lock")) and not p.startswith("/")


def file_ok(p):
    return "\x00" not in p and all(c not in ("", ".", "..", ".git") for c in ("x" + p + "x").split("/"))


def files(stem, n):
    a, b = (1000, 10), (2000 * n, 20 * n)
    X = (("x", 1, 10),)
    return {f"src/{stem}.rs": w.rust_file([Fn("changed", b, (("x", (100, 100)),), 0, 0, X), Fn("same", a), Fn("many", (n, n), (), 2000, 0), Fn("wild", a, (("y", (n, n)),))] +
                                          ([Fn("added", a)] if n == 2 else [Fn("removed", a)]))}


def build(ctx):
    base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    webw.add_origin(r.path, "org", "r")
    names = [PLAIN] + PAYLOADS
    defs = [(k, []) for i, p in enumerate(names) if file_ok(p) for k in (10 * i + 1, 10 * i + 2)]
    bad = 100000
    defs += [(bad + i, []) for i in range(len(names))]
    r.commits(defs, lambda n: {"src/w.rs": f"fn ( {names[n - bad]} "} if n >= bad else files("f" + names[n // 10] + "f", n % 10))
    for i, p in enumerate(names):
        if ref_ok(p):
            # Below a directory of its own, as `a` and `a/b` cannot both be branches.
            gitw.git(r.path, "update-ref", f"refs/heads/p{i}/x{p}x", r.sha[1])
    gitw.git(r.path, "checkout", "-q", "--detach", r.sha[1])
    # Repositories and organisations with such names.
    W.repos = [p for p in names if "/" not in p and "\x00" not in p and not p.startswith("-") and p.strip() == p]
    os.makedirs(h.scratch() + "/names/root")
    for i, p in enumerate(W.repos):
        os.symlink(r.path, f"{h.scratch()}/names/root/{p}")
    W.orgs = [p for p in names if "/" not in p and "\x00" not in p and "\n" not in p]
    W.base, W.sha, W.names, W.bad = base, r.sha, names, bad


class W:
    pass


SRV = {}
COUNT = itertools.count()


def server(kind, arg=None):
    k = os.getpid(), kind, arg
    if k not in SRV:
        d = f"{h.scratch()}/{os.getpid()}-{kind}-{next(COUNT)}"
        os.makedirs(d + "/root")
        gitw.copy(W.base + "/root/r", d + "/root/r")
        repos = ["r"]
        if kind == "names":
            for p in W.repos:
                os.symlink(d + "/root/r", f"{d}/root/{p}")
            repos = W.repos
        if kind == "org":
            gitw.git(d + "/root/r", "config", "remote.origin.url", f"https://github.com/{arg}/r")
        SRV[k] = webw.Server(d, repos, observed=False)
        if kind == "org":
            for o in [x for x in SRV if x[1] == "org" and x != k]:
                SRV.pop(o).stop()
    return SRV[k]


COMPARE = dict(repo="r", path_pattern="src/**/*.rs", ignore_errors="false", threshold="0", unit="time", method="exact-worst", git_pull="false")


def request(j, payload):
    """(response, texts that the page shows, where known: list of (how to find them, text))"""
    kind, where, _ = j
    i = W.names.index(payload)
    a = dict(COMPARE, old=W.sha[1], new=W.sha[2])
    s = server("main")
    t = "x" + payload + "x"
    if kind == "arg":
        for x in where:
            a[x] = t
        return s.get("/compare", **a)
    if kind == "version":
        return s.get("/version", **{"is": t})
    if kind == "branches":
        return s.get("/branches", **({"repo": t} if where == "repo" else {"repo": "r", "fetch": t}))
    if kind == "missing":
        return s.get("/compare", **{t: "x"})
    if kind == "path":
        return s.raw("/" + where + urllib.parse.quote(t, safe=""))
    if kind == "file":
        a.update(old=W.sha[10 * i + 1], new=W.sha[10 * i + 2], unit=where)
        return s.get("/compare", **a)
    if kind == "content":
        a.update(old=W.sha[W.bad + i])
        return s.get("/compare", **a)
    if kind == "branch":
        a.update({x: f"p{i}/{t}" for x in where})
        return s.get("/compare", **a)
    if kind == "repo":
        s = server("names")
        if where == "compare":
            a.update(repo=payload)
        return s.get("/" + where, **(a if where == "compare" else {}))
    if kind == "org":
        s = server("org", payload)
        return s.get("/" + where, **(a if where == "compare" else {}))


def name(j):
    return f"{j[0]} {j[1] if isinstance(j[1], str) else '+'.join(j[1])} payload={j[2]!r}"


def shape(r):
    return webw.parse(r.body).shape()


def is_html(r):
    return r.headers.get("content-type", "").startswith("text/html") or "content-type" not in r.headers and r.body


def check(j, l):
    kind, where, p = j
    r, plain = request(j, p), request(j, PLAIN)
    l.state()
    l.steps()
    l.trace()
    bad = []
    if r is None or plain is None:
        return l.violation(name(j), "no answer")
    l.outcome(f"{kind} {r.status}")
    # With a payload that is an HTML entity, what it stands for may name something else.
    if (r.status == 200) != (plain.status == 200):
        same = None
    elif is_html(r):
        same = shape(r) == shape(plain)
        if not same:
            bad.append(f"the structure of the page differs: {diff(shape(plain), shape(r))}")
    else:
        same = True
    if is_html(r):
        doc = webw.parse(r.body)
        if webw.as_html(r):
            bad.append(webw.as_html(r))
        if same is None:
            ref = server("main").get("/compare", old="x")
            if r.status != 200 and shape(r) != shape(ref):
                bad.append(f"the structure of the error page differs: {diff(shape(ref), shape(r))}")
        bad += shown(j, p, r, doc)
    if bad:
        l.violation(name(j), "; ".join(bad) + f"\n{r}")
    l.sample(f"{name(j)}: status {r.status}")


def diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            if x and y and x[:2] == y[:2]:
                return diff(x[2], y[2])
            return f"{x and x[:2]} became {y and y[:2]}"


def variants(p):
    """How a page may show it: parsers replace some characters."""
    n = lambda s: s.replace("\r\n", "\n").replace("\r", "\n").replace("\x00", "\ufffd")
    return {n(p), p}


def shown(j, p, r, doc):
    kind, where, _ = j
    t = "x" + p + "x"
    i = W.names.index(p)
    bad = []

    def want(what, got, exp, decoded=False):
        ok = variants(exp) | (variants(html.unescape(exp)) if decoded else set())
        if got not in ok:
            bad.append(f"{what} shows {got!r} instead of {exp!r}")

    if r.status != 200:
        txt = doc.text()
        if kind in ("arg", "version") and (kind == "version" or len(where) == 1 and set(where) & {"repo", "unit", "method"}):
            if not any(v in txt for v in variants(t)):
                bad.append(f"the message does not show {t!r}")
        return bad
    if kind in ("arg", "file", "branch") or where == "compare":
        page = webw.Page(r.body)
        args = {x: t for x in where} if kind == "arg" else {x: f"p{i}/{t}" for x in where} if kind == "branch" else {"repo": p} if kind == "repo" else {}
        for x in ("old", "new", "path_pattern", "pallet", "extrinsic"):
            if x in args:
                want(f"input {x}", page.form[x], args[x], x in ("old", "new", "path_pattern"))
        if kind == "repo":
            want("the selected repository", page.form["repo"], p)
            for o in W.repos:
                if not variants(o) & set(page.form["#repo"]):
                    bad.append(f"repository {o!r} is not offered")
        if kind == "file":
            f = f"src/f{p}f.rs"
            names = sorted(["changed", "same", "many", "added", "removed"])
            if sorted(c[1] for c in page.cells()) != names:
                bad.append(f"rows {page.cells()}")
            for row in page.rows:
                fn = row[2].text().replace("🔗", "").strip()
                want("the file", row[1].text().strip(), f)
                want("the row id", row[0]["id"], f"{f}.{fn}")
                link = next(row[2].all("a"))["href"]
                want("the row link", link if link == f"#{f}.{fn}" else urllib.parse.unquote(link), f"#{f}.{fn}")
            if not page.errors or not all(any(v in e for v in variants(f)) for e in page.errors):
                bad.append(f"errors {page.errors}")
            if (not page.warnings or not all(any(v in e for v in variants(f)) for e in page.warnings)):
                bad.append(f"warnings {page.warnings}")
        links = [a["href"] for row in page.rows for td in row[7:9] for a in td.all("a")]
        if kind != "arg" or not set(where) & {"path_pattern", "pallet", "extrinsic"}:
            if not links:
                bad.append("no links")
        for href in links:
            if not href.startswith("https://github.com/") or any(c in href for c in "\"'<>\t\r\n"):
                bad.append(f"link {href!r}")
    elif kind in ("repo", "org") and where in ("", "compare-commit", "compare-mr"):
        opts = [o for o in doc.all("option")]
        if kind == "repo":
            for o in W.repos:
                exp = f"org:{o}" if where == "compare-mr" else o
                if not any(x["value"] in variants(exp) and x.text() in variants(exp) for x in opts):
                    bad.append(f"repository {o!r} is not offered as {exp!r}")
        elif where == "compare-mr":
            exp = f"{p}:r"
            if not any(x["value"] in variants(exp) and x.text() in variants(exp) for x in opts):
                bad.append(f"{exp!r} is not offered")
    return bad


def run(ctx):
    build(ctx)
    jobs = []
    pairs = [(a,) for a in ARGS] + ([x for k in (2, 3) for x in itertools.combinations(ARGS, k)] if ctx.thorough else [("old", "new"), ("path_pattern", "pallet"), ("pallet", "extrinsic")])
    for p in PAYLOADS:
        jobs += [("arg", x, p) for x in pairs]
        jobs += [("version", "is", p), ("branches", "repo", p), ("branches", "fetch", p), ("missing", "all", p), ("content", "rust", p)]
        jobs += [("path", x, p) for x in ("", "static/", "compare/", "version/")]
        if file_ok(p):
            jobs += [("file", u, p) for u in w.UNITS]
        if ref_ok(p):
            jobs += [("branch", x, p) for x in (("old",), ("new",), ("old", "new"))]
        if p in W.repos:
            jobs += [("repo", x, p) for x in ("compare", "", "compare-commit", "compare-mr")]
        if p in W.orgs:
            jobs += [("org", x, p) for x in ("compare", "compare-mr")]
    ctx.bound(f"{len(PAYLOADS)} texts in every argument ({len(pairs)} sets of them), file name, branch name, repository and organisation name, unparseable content, and path")
    ctx.assume("The service is trusted to be read as the HTML parser of Python does. Scripts that run in the browser are not executed.")
    ctx.par(check, jobs, name)
