"""P31: one step of the front page is shown at a time, and the theme that was chosen stays."""
import hashlib, json, os
import h, gitw, p28, webw, weights as w
from p28 import HOST, W, need
from weights import Fn

REPOS = ["polkadot-sdk", "Other"]


def build():
    base = h.scratch() + "/web"
    for name in REPOS:
        l = gitw.Repo(f"{base}/root/{name}")
        l.commits([(i, []) for i in (1, 2)], lambda n: {"src/weights.rs": w.rust_file([Fn("f", (1000 * n, 10)), Fn("s", (n, 0), (), 2000 * n)]), "src/bad.rs": "pub fn"})
        for i in (1, 2):
            l.ref(f"refs/tags/v{i}", i)
        webw.add_origin(l.path, "org", name)
    s = webw.Server(base, REPOS, observed=False)
    a = dict(repo="Other", old="v1", new="v2", path_pattern="src/weights.rs", ignore_errors="true", threshold="0", unit="time", method="base", git_pull="false")
    W.pages = {}
    for name, path, args in (("front page", "/", {}), ("comparison", "/compare", a), ("error", "/compare", dict(a, new="none")), ("merge requests", "/compare-mr", {})):
        r = s.get(path, **args)
        need((r.status == 200) == (name != "error") and r.body, f"{name}: {r.status}")
        W.pages[name] = (r.body, HOST + path + ("?" + p28.ENCODE["percent"](args) if args else ""))
    W.scripts = {}
    for f in sorted(os.listdir(webw.STATIC)):
        if f.endswith((".js", ".mjs")):
            W.scripts["/static/" + f] = s.get("/static/" + f).body
    s.stop()
    W.root, W.mrs = W.pages["front page"][0], W.pages["merge requests"][0]


def browser():
    b = p28.browser()
    for n, (html, _) in W.pages.items():
        b.define(n, html)
    return b


def visit(page, storage, events, want, dark=False):
    return browser().visit(html=page, scripts="scripts", url=W.pages[page][1], storage=storage, events=events, want=want, dark=dark)[-1]


def key(*x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()


# ---- The steps of the front page

BUTTON = "button, input[type=button]"
MOVES = {"Next": 1, "Confirm": 1, "Back": -1}
STEPS = ["fieldset", "#progressbar li", "select"]


def visible(o):
    """The steps that are on display; the style sheet hides all but the first."""
    return [i for i, f in enumerate(o["show"]["fieldset"]) if f["display"] != "none" and (i == 0 or f["shown"] or f["display"]) and f["opacity"] not in ("0", "0.0")]


def step_events(step):
    for i, (at, label) in enumerate(W.steps):
        if at == step and label != "fetch":
            yield label, ["click", BUTTON, i]
    if step == 0:
        for r in REPOS:
            yield "choose " + r, ["pick", "select", 0, r]
    yield "reload", ["reload"]


def step_name(l):
    return "steps of the front page: " + ", ".join(l)


def step_job(j, l):
    """All events that are possible after a history; the model is the number of the step."""
    names, ev, step = j
    storage = []
    l.state()
    for name, e in step_events(step):
        o = visit("front page", storage, ev + [e], STEPS)
        l.steps()
        l.outcome(name.split(" ")[0])
        want = 0 if name == "reload" else step + MOVES.get(name, 0)
        try:
            need(not o["errors"] and not o["nav"], f"uncaught {o['errors']} or leaves for {o['nav']}")
            need(0 <= want < W.count, f"there is a button {name!r} at step {step + 1}")
            need(visible(o) == [want], f"shows the steps {[i + 1 for i in visible(o)]} instead of {want + 1}")
            reached = [i for i, x in enumerate(o["show"]["#progressbar li"]) if "active" in x["classes"]]
            need(reached == list(range(want + 1)), f"marks the steps {[i + 1 for i in reached]} as reached at step {want + 1}")
        except AssertionError as x:
            l.violation(step_name(names + [name]), str(x))
            continue
        l.sample(step_name(names + [name]))
        # Reloading forgets all.
        l.found.append((key(o["show"], o["storage"], len(o["pending"])), names + [name], ev + [e], want))


def buttons():
    """Step and label of each button."""
    W.steps, n = [], [-1]

    def walk(x, at):
        for k in x.kids:
            if isinstance(k, webw.Node):
                if k.tag == "fieldset":
                    n[0] += 1
                if k.tag == "button" or (k.tag == "input" and k["type"] == "button"):
                    W.steps.append((at if k.tag != "fieldset" else n[0], (k.text() if k.tag == "button" else k["value"]).strip()))
                walk(k, n[0] if k.tag == "fieldset" else at)
    walk(webw.parse(W.root), -1)
    W.count = n[0] + 1


# ---- The theme

def themed(o):
    """What of a page depends on the theme, and the rest."""
    theme = {"bg-dark", "bg-light", "text-dark", "text-light", "table-dark"}
    return [(e["tag"], sorted(theme & set(e["classes"]))) for e in o["show"]["*"]], [(e["tag"], e["id"], sorted(set(e["classes"]) - theme), e["display"]) for e in o["show"]["*"]]


def check_theme(page, o, dark, l):
    need(not o["errors"] and not o["nav"], f"uncaught {o['errors']} or leaves for {o['nav']}")
    sw = [e for e in o["show"]["*"] if e["id"] == "lightSwitch"]
    if not sw:
        need(page == "front page", "there is no switch")
        return
    need(sw[0]["checked"] == dark, f"the switch is {'on' if sw[0]['checked'] else 'off'} although the theme is {'dark' if dark else 'light'}")
    classes, _ = themed(o)
    wrong = {"bg-light", "text-dark"} if dark else {"bg-dark", "text-light"}
    for tag, c in classes:
        need(not wrong & set(c), f"a {tag} has {c} in the {'dark' if dark else 'light'} theme")
        if tag == "table":
            need(("table-dark" in c) == dark, f"a table has {c} in the {'dark' if dark else 'light'} theme")
        if tag == "body":
            need({"bg-dark", "text-light"} <= set(c) if dark else {"bg-light", "text-dark"} <= set(c), f"the body has {c} in the {'dark' if dark else 'light'} theme")
    l.outcome("dark" if dark else "light")


def theme_name(system, l):
    return f"theme, {'dark' if system else 'light'} system: " + ", ".join(l)


def theme_job(j, l):
    """All events that are possible on a page; the model is the theme."""
    names, system, page, storage, ev, dark = j
    l.state()
    nexts = [("switch", page, storage, ev + [["check", "#lightSwitch", 0, not dark]], not dark)] if page != "front page" and page else []
    nexts += [("open " + p, p, None, [], dark) for p in W.pages]
    for name, p, st, e, d in nexts:
        if st is None:
            st = visit(page, storage, ev, [], system)["storage"] if page else []
        try:
            o = visit(p, st, e, ["*"], system)
            l.steps()
            check_theme(p, o, d, l)
            need(themed(o)[1] == W.rest[p], "changes something else")
        except AssertionError as x:
            l.violation(theme_name(system, names + [name]), str(x))
            continue
        l.sample(theme_name(system, names + [name]))
        l.found.append((key(system, p, o["show"], o["storage"], d), names + [name], system, p, st, e, d))


def explore(ctx, job, todo, name, depth):
    seen = set()
    for _ in range(depth):
        ctx.t.found = []
        ctx.par(job, todo, name)
        if ctx.enough():
            return
        todo = []
        for f in sorted(ctx.t.found, key=lambda f: json.dumps(f[1:])):
            if f[0] not in seen:
                seen.add(f[0])
                todo.append(f[1:])
        if not todo:
            break
    ctx.t.trace(len(seen))
    ctx.t.state(len(seen))


def run(ctx):
    build()
    buttons()
    W.rest = {p: themed(visit(p, [], [], ["*"]))[1] for p in W.pages}
    only = ctx.only
    depth = 10 if ctx.thorough else 8
    # A replay explores everything, too: it is quick.
    ctx.only = None
    explore(ctx, step_job, [([], [], 0)], lambda j: step_name(j[0]), depth)
    explore(ctx, theme_job, [([], system, None, [], [], system) for system in (False, True)], lambda j: theme_name(j[1], j[0]), depth)
    if only is not None:
        ctx.only, ctx.hit = only, True
        ctx.viol = [v for v in ctx.viol if v[0] == only]
        ctx.n_viol = len(ctx.viol)
    ctx.bound(f"every sequence of at most {depth} clicks on the buttons of the step shown, choices and reloads; every sequence of at most {depth} switches and pages opened among {list(W.pages)} with a light or dark system; both up to equal pages")
    ctx.assume("jQuery is replaced by a stand-in with its documented behaviour; animations end at once; the style sheet hides all but the first step.")
