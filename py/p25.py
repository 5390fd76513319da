"""P25: the web comparison page shows exactly the comparison it was asked for."""
import itertools, math, os, re, urllib.parse
import h, gitw, p15, webw, weights as w

THRESHOLDS = [0, 4, 5, 10, 25, 1000, 255, 256, 300, 2**16, 2**16 + 5, 2**31, 2**32 - 1]
FILTERS = [None, "alpha", "^a", "a$", "nothing", "(?!al)^.*", "", ".*"]
PALLETS = [None, "aa", "^b", r"\|", "rs$", "src/"]
BROKEN = "broken.rs"
ODD = "x#%41'\"<+>=;,@!$()|\u00fc-"


def scenarios():
    s = {k: v for k, v in p15.scenarios().items() if k != "line breaks"}
    # File names that need care in links and ids.
    odd = {"a b.rs": s["mixed"][0]["aa.rs"], "sub/x%41#y?z.rs": s["mixed"][0]["aa.rs"][:2], "\u00fc&amp;.rs": s["mixed"][0]["aa.rs"]}
    odd_new = {k: s["mixed"][1]["aa.rs"] for k in odd}
    s["odd names"] = (odd, odd_new)
    s["huge"] = ({"h.rs": [w.Fn("a", (2**63, 1)), w.Fn("b", (1, 2**63)), w.Fn("c", (1, 1)), w.Fn("d", (0, 0)), w.Fn("e", (10**30, 10**30)), w.Fn("f", (1, 1)), w.Fn("g", (2**64, 3)), w.Fn("k", (2**127 + 2**100, 1)), w.Fn("l", (1, 2**128 - 1)), w.Fn("m", (2**128 - 1, 0))]},
                 {"h.rs": [w.Fn("a", (2**63 + 1, 2**64)), w.Fn("b", (10**30, 1)), w.Fn("c", (2**32, 2**33)), w.Fn("d", (1, 10**20)), w.Fn("e", (1, 2)), w.Fn("g", (2**64, 3)), w.Fn("i", (7, 7)), w.Fn("k", (3, 2**127)), w.Fn("l", (2**128 - 1, 2)), w.Fn("m", (0, 2**128 - 1))]})
    # Increases around every power of two times a thousandth, a whole and a thousand percent.
    pcts = sorted({max(1, 2**k // d + x) for k in (7, 8, 15, 16, 24, 31, 32) for d in (1, 1000) for x in (-2, 0, 2)})
    s["steps"] = ({"s.rs": [w.Fn(f"s{i}", (1000, 1000)) for i in range(len(pcts))]}, {"s.rs": [w.Fn(f"s{i}", (1000 + 10 * p, 1000 + 10 * p)) for i, p in enumerate(pcts)]})
    return s


class W:
    pass


def build():
    W.sc = scenarios()
    W.big = p15.big(W.thorough)
    for n in (2500, 3001, 4097, 5001)[:4 if W.thorough else 1]:
        W.big[f"{n} functions"] = tuple({"many.rs": [w.Fn(f"f{k}", (1000 + k + d * (k % 3) * 500, k)) for k in range(n) if k % 7 != d + 1]} for d in (0, 1))
    W.sc.update(W.big)
    base = W.base = h.scratch() + "/web"
    os.makedirs(base + "/root")
    r = gitw.Repo(base + "/root/r")
    webw.add_origin(r.path, "org", "r")
    W.keys = {}
    content = {}
    for n, (a, b) in W.sc.items():
        for k, side in enumerate((a, b)):
            W.keys[n, k] = len(W.keys) + 1
            content[W.keys[n, k]] = side
    for i, v in enumerate(p15.VERSIONS):
        W.keys["version", i] = len(W.keys) + 1
        content[W.keys["version", i]] = {"w.rs": [v]} if v else {}
    n0 = len(W.keys)
    # The same with a file that cannot be parsed, in the one or the other.
    W.content = content
    files = lambda n: {"src/" + f: w.rust_file(fns) for f, fns in content[n].items()} | {"README": "x"}
    broken = lambda n: files(n - 1000) | {"src/" + BROKEN: "fn ("} if n > 1000 else files(n)
    r.commits([(i, []) for i in range(1, n0 + 1)] + [(1000 + i, []) for (n, _), i in W.keys.items() if n not in W.big], broken)
    for n, s in r.sha.items():
        for ref in (f"tags/t/{n}", f"remotes/origin/b/{n}", "tags/" + ODD + str(n)):
            gitw.git(r.path, "update-ref", f"refs/{ref}", s)
    gitw.git(r.path, "checkout", "-q", "--detach", r.sha[1])
    W.sha = r.sha
    gitw.copy(base + "/root/r", base + "/root/other")
    W.repos = ["r", "other"]
    W.orgs = {"r": "org", "other": "else-where.x"}
    webw.add_origin(base + "/root/other", "else-where.x", "other")


SRV = {}


def server():
    if os.getpid() not in SRV:
        d = f"{h.scratch()}/s{os.getpid()}"
        os.makedirs(d)
        gitw.copy(W.base + "/root", d + "/root")
        SRV[os.getpid()] = webw.Server(d, W.repos, observed=False)
    return SRV[os.getpid()]


def jobs(ctx):
    D = dict(repo="r", pair=("mixed", 0, "mixed", 1), method="guess-worst", unit="time", threshold=0, extrinsic=None, pallet=None, ignore=False, broken=(False, False), spelled=0, pull=None)
    seen = set()

    def emit(**kw):
        j = dict(D, **kw)
        if name(j) not in seen:
            seen.add(name(j))
            yield j
    names = [n for n in W.sc if n not in W.big]
    for i, n in enumerate(W.big):
        for t, u, s in ((0, "time", 0), (0, "proof", 1), (5, "time", 1)) if ctx.thorough or n[:4].isdigit() and int(n[:4]) > 2000 else [[(0, "time", 0), (5, "time", 1), (0, "proof", 1)][i % 3]]:
            yield from emit(pair=(n, 0, n, 1), threshold=t, unit=u, spelled=s)
    for n, m, u, t in itertools.product(names, w.METHODS, w.UNITS, THRESHOLDS):
        if ctx.thorough or t in (0, 10) or (n in ("huge", "steps", "mixed") and m == "guess-worst"):
            yield from emit(pair=(n, 0, n, 1), method=m, unit=u, threshold=t)
    for e, p, t, m in itertools.product(FILTERS, PALLETS, THRESHOLDS, w.METHODS):
        if ctx.thorough or (m == "exact-worst" and (t in (0, 5) or e == p)):
            yield from emit(extrinsic=e, pallet=p, threshold=t, method=m)
    # Long ones that mean the same as short ones, and long names of revisions
    for i, n in enumerate(h.sizes(10001)):
        if n > 15:
            for e, p in ((f"^a|{'z' * n}", None), (None, f"{'z' * n}|aa"), (f"al[{'p' * n}]", "aa|" + "y" * (n // 2)))[i % 3:] if ctx.thorough else [((f"^a|{'z' * n}", None), (None, f"{'z' * n}|aa"), (f"al[{'p' * n}]", "aa|" + "y" * (n // 2)))[i % 3]]:
                yield from emit(extrinsic=e, pallet=p, method="exact-worst")
    for a, b in itertools.product(range(len(p15.VERSIONS)), repeat=2):
        for m, u in itertools.product(w.METHODS, w.UNITS):
            if (a or b) and (ctx.thorough or m == "guess-worst"):
                yield from emit(pair=("version", a, "version", b), method=m, unit=u)
    for i, b, n, u, s in itertools.product([False, True], itertools.product([False, True], repeat=2), names, w.UNITS, range(3)):
        yield from emit(ignore=i, broken=b, pair=(n, 0, n, 1), unit=u, spelled=s)
        if n == "mixed":
            for e, p in itertools.product((None, "alpha", "nothing"), (None, "aa", "nothing")):
                yield from emit(ignore=i, broken=b, extrinsic=e, pallet=p, unit=u, spelled=s, method="exact-worst")
    for r, m, u, s in itertools.product(W.repos, w.METHODS, w.UNITS, range(7)):
        yield from emit(repo=r, method=m, unit=u, spelled=s, pair=("odd names", 0, "odd names", 1))


def name(j):
    return " ".join(f"{k}={v}" if len(str(v)) < 200 else f"{k}={v[:40]}..{v[-40:]} of {len(v)}" for k, v in j.items())


def need(c, msg):
    if not c:
        raise AssertionError(msg)


def check(j, l):
    n1, k1, n2, k2 = j["pair"]
    a, b = W.keys[n1, k1], W.keys[n2, k2]
    old, new = ({"src/" + f: v for f, v in W.content[k].items()} for k in (a, b))
    a, b = (k + 1000 * x for k, x in zip((a, b), j["broken"]))
    spell = [lambda k: W.sha[k], lambda k: f"t/{k}", lambda k: f" t/{k} ", lambda k: f"origin/b/{k}", lambda k: f"refs/tags/t/{k}", lambda k: ODD + str(k), lambda k: f"t/{k}~0^0"][j["spelled"]]
    args = dict(path_pattern="src/**/*.rs", ignore_errors=str(j["ignore"]).lower(), threshold=j["threshold"], unit=j["unit"], method=j["method"],
                extrinsic=j["extrinsic"], pallet=j["pallet"], git_pull="false")
    if j["spelled"] == 2:
        args["path_pattern"] = " src/**/*.rs "
    r = server().compare(j["repo"], spell(a), spell(b), **args)
    l.state()
    l.trace()
    try:
        need(r is not None, "no answer")
        need(not webw.as_html(r), webw.as_html(r))
        if any(j["broken"]) and not j["ignore"]:
            need(r.status == 500 and BROKEN in webw.parse(r.body).text(), "an unparseable file is not an error naming it")
            l.outcome("error page")
            return
        need(r.status == 200, "not a success")
        rx = lambda p: lambda t: p is None or re.search(p, t) is not None
        want = w.compare(old, new, j["method"], j["unit"], rx(j["pallet"]), rx(j["extrinsic"]))
        want = [e for e in want if w.keep(e, float(j["threshold"]), None)]
        l.steps(len(want))
        page = webw.Page(r.body)
        verify(j, page, want, args | dict(repo=j["repo"], old=spell(a), new=spell(b)))
        l.outcome("page")
        l.outcome("rows", len(page.rows))
        if len(want) > 4:
            l.sample(name(j))
    except Exception as e:
        import traceback
        l.violation(name(j), f"{type(e).__name__}: {e}\n{traceback.format_exc() if not isinstance(e, AssertionError) else ''}\n{page_text(r)}")


def page_text(r):
    if r is None:
        return ""
    b = r.body
    i = b.find('<table id="sort_me"')
    return f"status {r.status}\n{b[i if i >= 0 else 0:][:2500]}"


def verify(j, page, want, args):
    unit = j["unit"]
    fails = [e for e in want if e.kind == "failed"]
    rows = [e for e in want if e.kind != "failed"]
    need(len(page.errors) == len(fails), f"{len(page.errors)} errors shown, not {len(fails)}")
    for e in fails:
        need(sum(f"{e.file}::{e.name}" in x and f"omponent {e.error} " in x for x in page.errors) == 1, f"no error for {e.file}::{e.name}")
    warns = [e for e in rows if e.warning]
    need(len(page.warnings) == len(warns), f"{len(page.warnings)} warnings shown, not {len(warns)}")
    for e in warns:
        need(sum(f"{e.file}::{e.name}" in x and f"{e.warning[0]} {e.warning[1]}" in x for x in page.warnings) == 1, f"no warning for {e.file}::{e.name}")
    need(all(unit in x.lower() for x in page.head[2:4]), f"columns {page.head}")
    index = {(e.file, e.name): e for e in rows}
    keys = []
    for tr, *td in page.rows:
        need(len(td) == 9, f"{len(td)} cells in a row")
        t = [x.text().replace("🔗", "").strip() for x in td]
        e = index.pop((t[0], t[1]), None)
        need(e is not None, f"unexpected or repeated row {t}")
        need(tr["id"] == f"{e.file}.{e.name}" and tr["id"] in (next(td[1].all("a"))["href"][1:], urllib.parse.unquote(next(td[1].all("a"))["href"][1:])), f"row id {tr['id']!r}")
        need((td[1]["class"] == "text-warning") == bool(e.warning), "warning class")
        dash = lambda v: "-" if v is None else w.fmt(unit, v)
        for at, o, n, p in e.scopes:
            if (o, n, p) not in w.possible(e):
                continue
            if (t[2], t[3]) != (dash(o), dash(n)) or (td[2]["data-order"], td[3]["data-order"]) != (str(o or 0), str(n or 0)):
                continue
            if t[4] != relative(e, p) or t[5] != absolute(e, o, n, unit):
                continue
            sc = dict(x.split(" = ") for x in t[8].split(", ") if x)
            full = dict(at, READ=w.READ if unit == "time" else 0, WRITE=w.WRITE if unit == "time" else 0)
            if {k: scalar(v) for k, v in full.items()} != sc:
                continue
            for cell, v, fn in ((t[6], o, e.old_fn), (t[7], n, e.new_fn)):
                if fn is None:
                    need(cell == "-", f"equation {cell!r} of a missing version")
                else:
                    need(cell.startswith("CODE"), f"no link before {cell!r}")
                    x = h.eval_equation(cell[4:].strip(), full)
                    need(abs(x - v) <= 0.01 * v, f"equation {cell!r} has value {x}, not {v}")
            keys.append((e, o, n, p, int(td[4]["data-order"]), int(td[5]["data-order"]), td[4], td[5]))
            break
        else:
            raise AssertionError(f"row {t} {[x['data-order'] for x in td]}, expected one of {w.possible(e)}")
        for cell, rev, fn in ((td[6], args["old"], e.old_fn), (td[7], args["new"], e.new_fn)):
            for a in cell.all("a"):
                need(fn is not None, "link to a missing version")
                link(a["href"], j["repo"], rev, e)
    need(not index, f"missing rows {list(index)}")
    # Sort keys
    for k, val in ((4, lambda e, o, n, p: p), (5, lambda e, o, n, p: n - o)):
        # Of very many, those that are next to each other in order.
        ks = sorted(keys, key=lambda x: x[k]) if len(keys) > 100 else keys
        for x, y in zip(ks, ks[1:]) if len(keys) > 100 else itertools.combinations(keys, 2):
            order(x, y, k, val)
    for e, o, n, p, _, _, c4, c5 in keys:
        if e.kind == "changed":
            colour(c4, p)
            colour(c5, n - o)
    # The form
    exp = dict(repo=j["repo"], unit=j["unit"], method=j["method"], threshold=str(j["threshold"]), ignore_errors=j["ignore"], git_pull=False,
               pallet=j["pallet"] if j["pallet"] is not None else ".*", extrinsic=j["extrinsic"] if j["extrinsic"] is not None else ".*")
    for k, v in exp.items():
        need(page.form.get(k) == v, f"form shows {page.form.get(k)!r} for {k} instead of {v!r}")
    for k in ("old", "new", "path_pattern"):
        need(page.form[k].strip() == args[k].strip(), f"form shows {page.form[k]!r} for {k}")
    for k, v in (("#repo", W.repos), ("#unit", w.UNITS), ("#method", w.METHODS)):
        need(sorted(page.form[k]) == sorted(v), f"offered {k}: {page.form[k]}")


def relative(e, p):
    if e.kind == "changed":
        if math.isinf(p):
            return "+inf%"
        return f"{p:+.2f}%" if p else "0"
    return e.kind.capitalize()


def absolute(e, o, n, unit):
    if e.kind == "changed":
        d = n - o
        return ("+" if d > 0 else "-") + w.fmt(unit, abs(d)) if d else "0"
    return e.kind.capitalize()


def scalar(v):
    """How a number is printed in an equation."""
    for d, s in ((10**12, "T"), (10**9, "G"), (10**6, "M"), (10**3, "K")):
        if v >= d:
            return f"{v / d:.2f}{s}"
    return str(v)


def colour(cell, v):
    style = "".join(p["style"] or "" for p in cell.all("p"))
    need(("green" in style) == (v < 0) and ("red" in style) == (v > 0), f"colour {style!r} for {v}")


def order(x, y, k, val):
    """The sort keys of two rows are ordered as their values; only changes that show the same may have equal ones."""
    rank = lambda r: {"added": 2, "removed": 0}.get(r[0].kind, 1)
    rx, ry = rank(x), rank(y)
    if rx != ry:
        need((x[k] < y[k]) == (rx < ry) and x[k] != y[k], f"sort keys {x[k]} and {y[k]} of {x[0].kind} and {y[0].kind}")
        return
    if rx != 1:
        return
    v = lambda r: val(*r[:4]) if r[0].kind == "changed" else 0
    a, b = v(x), v(y)
    if k == 4:
        # The page promises three digits and that very large changes may be equal.
        a, b = (min(int(c * 1000) if not math.isinf(c) else 2**32, 2**32 - 1) for c in (a, b))
        if abs(a - b) <= 1:
            return
    else:
        a, b = (max(-(2**127 - 2), min(2**127 - 2, c)) for c in (a, b))
    need((a < b) == (x[k] < y[k]) and (a > b) == (x[k] > y[k]), f"sort keys {x[k]} and {y[k]} of values {a} and {b}")


def link(href, repo, rev, e):
    """What GitHub would take it for."""
    u = urllib.parse.urlsplit(href)
    need((u.scheme, u.netloc, u.query) == ("https", "github.com", ""), f"link {href!r}")
    path = urllib.parse.unquote(u.path)
    need(path in {f"/{W.orgs[repo]}/{repo}/tree/{r}/{e.file}" for r in (rev, rev.strip())}, f"link {href!r} to {path!r}")
    need(re.search(rf"\b{re.escape(e.name)}\b", urllib.parse.unquote(u.fragment)), f"link {href!r} to another function")


def run(ctx):
    W.thorough = ctx.thorough
    build()
    js = list(jobs(ctx))
    ctx.bound(f"{len(W.sc)} scenarios x methods x dimensions x thresholds; {len(FILTERS)} x {len(PALLETS)} name filters; every pair of {len(p15.VERSIONS)} versions of a function; " + f"{len(W.big)} scenarios with up to {5001 if ctx.thorough else 2500} functions, 300 files and names of up to 1025 characters; unparseable files on "
              "either side with and without ignoring errors; two repositories; revisions as hashes, tags and with spaces around")
    ctx.assume("Sort keys of relative changes distinguish thousandths of a percent up to 4294967%, as documented in the code; those of absolute changes may saturate where they leave 128 bits.")
    ctx.par(check, js, name)
