"""P34: options mean what they are documented to mean, however they are given, and the exit status tells the outcome."""
import itertools, os, shutil
import h, gitw, weights as w
from weights import Fn

BAD = "bad"      # must be refused as bad usage
OUT = object()   # not given

# Per option: spellings -> meaning. The meaning that is the default comes first.
M = ["guess-worst", "base", "exact-worst", "asymptotic", "exact-asymptotic"]


def valued(names, values, bad=(), fold=True):
    """(tokens, meaning) for every spelling of an option with a value."""
    o = []
    for v in values:
        for n in names:
            for x in (v, v.upper(), v.title()) if fold else (v,):
                o.append(((n, x), v))
        o.append(((f"{names[0]}={v}",), v))
        if len(names[-1]) == 2 and not names[-1].startswith("--"):
            o.append(((f"{names[-1]}{v}",), v))
            o.append(((f"{names[-1]}={v}",), v))
    o += [((names[0], b) if b is not None else (names[0],), BAD) for b in bad]
    o += [((f"{names[0]}={b}",), BAD) for b in bad if b is not None]
    o.append(((names[0], values[0], names[0], values[0]), BAD))
    return o


def flag(n):
    return [((n,), True), ((n, n), BAD), ((n + "=true",), BAD), ((n[:-1],), BAD)]


OPTIONS = {
    "method": valued(["--method", "-m"], M, ["worst", "", "guessworst", "guess_worst", None]),
    "unit": [((), "time")] + valued(["--unit", "-u"], ["time", "proof"], ["size", "", "both", None]),
    "threshold": [((), "5")] + valued(["--threshold"], ["5", "0", "30", "1000"], ["five", "", "5%", "5,0", None], False) +
                 [(("--threshold", x), "5") for x in ("5.0", "5e0", "+5", "05", ".5e1")] + [(("--threshold=-1",), "0")],
    "change": [((), None)] + [(("--change", *c), tuple(sorted(c))) for n in (1, 2, 3, 4) for c in itertools.permutations(w.KINDS, n) if n < 3 or c == tuple(sorted(c))] +
              [(tuple(x for k in c for x in ("--change", k)), tuple(sorted(c))) for c in itertools.permutations(w.KINDS, 2)] +
              [((f"--change={k}",), (k,)) for k in w.KINDS] + [(("--change", k.upper()), (k,)) for k in w.KINDS] + [(("--change", k, k), (k,)) for k in w.KINDS] +
              [(("--change", "new"), BAD), (("--change", "added", "more"), BAD), (("--change", ""), BAD), (("--change", "added,removed"), BAD)],
    "extrinsic": [((), None), (("--extrinsic", "^a"), "^a"), (("--extrinsic=^a",), "^a"), (("--extrinsic", "A"), "A"), (("--extrinsic",), BAD), (("--extrinsic", "a", "--extrinsic", "a"), BAD)],
    "pallet": [((), None), (("--pallet", "aa"), "aa"), (("--file", "aa"), "aa"), (("--pallet=aa",), "aa"), (("--file=aa",), "aa"), (("--pallet",), BAD), (("--pallet", "a", "--file", "a"), BAD)],
    "format": [((), "human")] + valued(["--format"], ["human", "csv", "markdown"], ["html", "", "tsv", None]),
    "print-terms": [((), False)] + flag("--print-terms"),
    "no-color": [((), False)] + flag("--no-color"),
    "strip": [((), None), (("--strip-path-prefix", "a+"), "a+"), (("--strip-path-prefix=a+",), "a+"), (("--strip-path-prefix",), BAD)],
    "ignore-errors": [((), False)] + flag("--ignore-errors"),
    # These have no influence on what is printed.
    "verbose": [((), False), (("--verbose",), True), (("--verbose", "--verbose"), BAD)],
    "offline": [((), None), (("--offline",), None), (("--offline=1",), BAD)],
    "force": [((), None), (("--git-force",), None), (("--git-force=yes",), BAD)],
    "pull": [((), None), (("--git-pull", "--offline"), None)],
    "unknown": [((), None), (("--frobnicate",), BAD), (("-x",), BAD), (("--unit2", "time"), BAD), (("--methods", "base"), BAD)],
}
DEFAULT = {k: v[0] for k, v in OPTIONS.items()}
DEFAULT["method"] = OPTIONS["method"][0]
SILENT = {"verbose", "offline", "force", "pull", "unknown"}


def canonical(s):
    """The same settings, all given, in one spelling."""
    a = ["--method", s["method"], "--unit", s["unit"], f"--threshold={s['threshold']}", "--format", s["format"]]
    for k in s["change"] or ():
        a += ["--change", k]
    for k, o in (("extrinsic", "--extrinsic"), ("pallet", "--pallet"), ("strip", "--strip-path-prefix")):
        if s[k] is not None:
            a += [o, s[k]]
    return a + [f"--{k}" for k in ("print-terms", "no-color", "ignore-errors") if s[k]]


X = (("x", 1, 50),)
OLD = {"aa.rs": [Fn("alpha", (1_000_000, 2000), (("x", (10_000, 20)),), 1, 2, X), Fn("gone", (7_000, 70)), Fn("same", (3_000, 30)), Fn("slow", (100_000, 1000)), Fn("wild", (0, 0), (("y", (1_000, 10)),))],
       "bb.rs": [Fn("alpha", (1_000_000, 2000)), Fn("Able", (1_000, 10), (), 2000, 1500)]}
NEW = {"aa.rs": [Fn("alpha", (1_200_000, 1000), (("x", (20_000, 30)),), 1, 2, X), Fn("extra", (9_000, 90)), Fn("same", (3_000, 30)), Fn("slow", (104_000, 1200)), Fn("wild", (0, 0), (("y", (1_010, 11)),))],
       "bb.rs": [Fn("alpha", (950_000, 2100)), Fn("Able", (2_000, 30), (), 2000, 1500)]}
DIFFERENT = {"aa.rs": [Fn("alpha", (5_000_000, 9000))]}


def build():
    s = h.scratch()
    for d, fs in (("old", OLD), ("new", NEW), ("off", DIFFERENT)):
        os.makedirs(f"{s}/{d}")
        for n, fns in fs.items():
            open(f"{s}/{d}/{n}", "w").write(w.rust_file(fns))
    t = lambda fs: {f"src/{n}": w.rust_file(fns) for n, fns in fs.items()}
    r = gitw.Repo(s + "/repo")
    r.commits([(1, []), (2, [1]), (3, [1])], lambda n: t({1: OLD, 2: NEW, 3: DIFFERENT}[n]))
    r.ref("refs/heads/master", 2)
    r.ref("refs/heads/main", 3)
    r.ref("refs/heads/old", 1)
    gitw.git(r.path, "checkout", "-q", "-f", "--detach", r.sha[3])
    global ELSEWHERE
    ELSEWHERE = open(r.path + "/.git/HEAD").read()
    f = s + "/files"
    os.makedirs(f + "/dir")
    good = w.rust_file(OLD["aa.rs"])
    for n, c in {"good.rs": good, "good2.rs": w.rust_file(NEW["bb.rs"]), "broken.rs": "fn (", "none.rs": "pub fn x() {}\n", "empty.rs": "", "plain.txt": good}.items():
        open(f"{f}/{n}", "w").write(c)
    open(f + "/bytes.rs", "wb").write(b"\xff\xfe" + good.encode())


def places(kind):
    """Arguments that say what is compared, by whether they are fine; and the directory to be in."""
    s = h.scratch()
    if kind == "files":
        o, n = [f"{s}/old/aa.rs", f"{s}/old/bb.rs"], [f"{s}/new/aa.rs", f"{s}/new/bb.rs"]
        return [("plain", ["--old", *o, "--new", *n], [], s, True),
                ("new first", ["--new", *n, "--old", *o], [], s, True),
                ("one by one", ["--old", o[0], "--new", n[0], "--old", o[1], "--new", n[1]], [], s, True),
                ("again and again", ["--old", *o * 20, "--new", *n * 300], [], s, True),
                ("one by one again", [x for k in range(9) for x in ("--old", o[k % 2], "--new", n[k % 2])], [], s, True),
                ("other order", ["--old", *o[::-1], "--new", *n[::-1]], [], s, True),
                ("equals", [f"--old={o[0]}", f"--old={o[1]}", f"--new={n[0]}", f"--new={n[1]}"], [], s, True),
                ("relative", ["--old", "aa.rs", "./bb.rs", "--new", "../new/aa.rs", "../new/bb.rs"], [], s + "/old", True),
                ("no new", ["--old", *o], [], s, BAD), ("no old", ["--new", *n], [], s, BAD), ("nothing", [], [], s, BAD),
                ("revisions", ["--old", *o, "--new", *n], ["old", "master"], s, BAD)]
    r = s + "/repo"
    p = ["--path-pattern", "src/*.rs"]
    return [("plain", ["--repo", r, *p], ["old", "master"], s, True),
            ("default new", ["--repo", r, *p], ["old"], s, True),
            ("default repo", p, ["old", "master"], r, True),
            ("both defaults", p, ["old"], r, True),
            ("equals", [f"--repo={r}", "--path-pattern=src/*.rs"], ["old", "master"], s, True),
            ("relative", ["--repo", "../repo", *p], ["old", "master"], s + "/old", True),
            ("no pattern", ["--repo", r], ["old", "master"], s, BAD), ("no revision", ["--repo", r, *p], [], s, BAD),
            ("three", ["--repo", r, *p], ["old", "master", "main"], s, BAD), ("two repositories", ["--repo", r, "--repo", r, *p], ["old", "master"], s, BAD),
            ("two patterns", ["--repo", r, *p, *p], ["old", "master"], s, BAD)]


def arrange(kind, groups, where, pos, order):
    """One command line of groups of arguments."""
    gs = list(groups)
    first = []
    if order == "reversed" and ("--verbose",) in gs:  # It may be before the command.
        gs.remove(("--verbose",))
        first = ["--verbose"]
    if order == "reversed":
        gs = gs[::-1]
    if order == "positional first" and pos:
        return [h.CLI, "compare", kind, *pos, *where, *[x for g in gs for x in g]]
    flat = [x for g in gs for x in g]
    if order == "before":
        return [h.CLI, "compare", kind, *flat, *where, *(["--", *pos] if pos else [])]
    return [h.CLI, *first, "compare", kind, *where, *flat, *(["--", *pos] if pos else [])]


ORDERS = ["after", "before", "reversed", "positional first"]
EXPECTED = {}
BROKEN = ["broken.rs", "none.rs", "empty.rs", "bytes.rs", "missing.rs", "dir"]
NOTHING = 0, "No changes found."


def in_repo(d):
    """A repository of this process, as its HEAD moves."""
    p = f"{h.scratch()}/p{os.getpid()}"
    if not os.path.exists(p):
        os.makedirs(p)
        for x in ("old", "new", "off", "files", "repo"):
            gitw.copy(f"{h.scratch()}/{x}", f"{p}/{x}")
    return d.replace(h.scratch(), p, 1)


def expected(kind, s):
    k = kind, tuple(sorted((a, b) for a, b in s.items() if a not in SILENT))
    if k not in EXPECTED:
        reset()
        where, pos, cwd = next((a, b, c) for n, a, b, c, _ in places(kind) if n == "plain")
        r = start(arrange(kind, [canonical(s)], where, pos, "after"), cwd)
        if r.rc not in (0, 1):
            raise ValueError(f"{canonical(s)}: {r}")
        EXPECTED[k] = r.rc, r.out
    return EXPECTED[k]


def start(argv, cwd, **kw):
    return h.run([in_repo(a) for a in argv], cwd=in_repo(cwd), env_=h.env(**kw))


def reset():
    """Somewhere else than where comparisons leave it."""
    r = in_repo(h.scratch() + "/repo")
    if head() != ELSEWHERE:
        gitw.git(r, "checkout", "-q", "-f", "--detach", "main")
    return head()


def head():
    return open(in_repo(h.scratch() + "/repo") + "/.git/HEAD").read()


def check(j, l):
    kind, picks, place, order = j
    pname, where, pos, cwd, fine = places(kind)[place]
    s = {k: v[1] for k, v in DEFAULT.items()}
    groups, bad = [], fine is BAD
    for k, i in {**{"method": 0}, **dict(picks)}.items():
        if i is None:
            bad = True
            continue
        tokens, meaning = OPTIONS[k][i]
        if meaning is BAD:
            bad = True
        else:
            s[k] = meaning
        groups.append(tokens)
    # Both ways to say it are one option.
    if len([g for g in groups if "--offline" in g]) > 1:
        return
    argv = arrange(kind, groups, where, pos, order)
    # A list of values swallows what follows.
    before = reset() if kind == "commits" else None
    r = start(argv, cwd)
    l.state()
    l.trace()
    case = name(j)
    l.sample(case)
    l.names.add(case)
    if bad:
        l.outcome("bad usage")
        if r.rc != 2 or r.out or not r.err:
            l.violation(case, f"not refused as bad usage: {argv[1:]}\n{r}")
        elif kind == "commits" and head() != before:
            l.violation(case, "bad usage switched the revision")
        return
    want = expected(kind, s)
    l.outcome(f"exit {want[0]}")
    l.steps()
    if s["verbose"] and (want[0], want[1].strip()) == NOTHING and not r.rc and not r.out.strip():
        return  # It is in the log.
    if (r.rc, r.out) != want:
        l.violation(case, f"{argv[1:]}\nexpected exit {want[0]}:\n{want[1]}\n{r}")


def name(j):
    kind, picks, place, order = j
    return f"{kind} [{places(kind)[place][0]}, {order}] " + ", ".join(f"{k}: " + ("not given" if i is None else " ".join(OPTIONS[k][i][0]) or "nothing") for k, i in picks)


# Other commands: (arguments, exit status, what stdout contains, whether it is all)
def others():
    f = h.scratch() + "/files/"
    good, bad = ["good.rs", "good2.rs", "plain.txt"], BROKEN
    o = []
    for n in (1, 2, 3):
        for c in itertools.product(good + bad, repeat=n):
            for v in ([], ["--verbose"]):
                o.append((["parse", "files", *v, *[f + x for x in c]], 1 if set(c) & set(bad) else 0, "parse", c))
    # Many, with one that cannot be read somewhere.
    for n in h.sizes(999):  # The most it takes.
        if n > 3:
            for at in sorted({0, 1, n // 2, n - 2, n - 1}) + [None]:
                c = ["good.rs" if k != at else BROKEN[n % len(BROKEN)] for k in range(n)]
                o.append((["parse", "files"] + [f + x for x in c], 0 if at is None else 1, "parse", tuple(c)))
    for a in (["parse"], ["compare"], [], ["parse", "files"], ["frobnicate"], ["compare", "frobnicate"], ["parse", "files", "--method", "base", f + "good.rs"], ["parse", "files", "--frobnicate", f + "good.rs"],
              ["compare", "--method", "base", "files"], ["parse", "commits"]):
        o.append((a, 2, "usage", None))
    for a in ([], ["compare"], ["compare", "files"], ["compare", "commits"], ["parse"], ["parse", "files"]):
        o.append((a + ["--help"], 0, "help", None))
        o.append((a + ["-h"], 0, "help", None))
    o += [(["--version"], 0, "version", None), (["-V"], 0, "version", None), (["help"], 0, "help", None), (["help", "compare", "files"], 0, "help", None)]
    for fmt in ("json", "brief-human", "JSON"):
        o.append((["compare", "files", "--method", "base", "--format", fmt, "--old", h.scratch() + "/old/aa.rs", "--new", h.scratch() + "/new/aa.rs"], 1, "error", None))
    # What cannot be read is an error that names it, unless errors are ignored.
    for old, new in itertools.product(good + bad, repeat=2):
        for i in ([], ["--ignore-errors"]):
            a = ["compare", "files", "--method", "base", "--threshold", "0", "--format", "csv", "--no-color", *i, "--old", f + old, "--new", f + new]
            wrong = [x for x in (old, new) if x in bad]
            o.append((a, 0 if i or not wrong else 1, "compared" if i or not wrong else "error", (old, new)))
    for x in ("nope", ""):
        o.append((["compare", "commits", "--method", "base", "--path-pattern", "src/*.rs", "--repo", h.scratch() + "/repo", "old", x], 1, "error", None))
    o += [(["compare", "commits", "--method", "base", "--path-pattern", "src/*.rs", "--repo", p, "old"], 1, "error", None) for p in (h.scratch() + "/nowhere", h.scratch() + "/old", h.scratch() + "/files/good.rs")]
    o += [(["compare", "commits", "--method", "base", "--path-pattern", p, "--repo", h.scratch() + "/repo", "old"], 1, "error", None) for p in ("../*.rs", "src/***.rs", "src/[", "a/../b")]
    return o


def other_name(j):
    x = [k for k, v in enumerate(j[3] or ()) if v in BROKEN]
    return " ".join(j[0][:4] if len(j[0]) > 12 else j[0]).replace(h.scratch(), "<scratch>") + (f" and so on, {len(j[3])} files, cannot read {x}" if len(j[0]) > 12 else "")


def other(j, l):
    argv, rc, what, x = j
    case = other_name(j)
    r = start([h.CLI, *argv], h.scratch())
    l.state()
    l.trace()
    l.outcome(what)
    l.names.add(case)
    bad = None
    if r.rc != rc:
        bad = f"exit {r.rc} instead of {rc}"
    elif rc and what != "parse" and r.out:
        bad = "an error with a report"
    elif rc and not r.err:
        bad = "an error without a message"
    elif what == "parse":
        if rc and "successfully" in r.out:
            bad = "success is reported"
        n = len(x)
        said = (r.err if "--verbose" in argv else r.out).rstrip("\n").split("\n")[-1]
        if not rc and not said.endswith(f"Parsed {n} files successfully"):
            bad = f"not {n} files"
        if rc and not any(y in r.err for y in x if y in BROKEN):
            bad = "no file is named"
    elif what == "help" and "Usage: subweight" not in r.out:
        bad = "no usage"
    elif what == "version" and not r.out.startswith("subweight "):
        bad = "no version"
    elif what == "compared":
        names = lambda n: {"good.rs": {(f"good.rs", fn.name) for fn in OLD["aa.rs"]}, "plain.txt": {("plain.txt", fn.name) for fn in OLD["aa.rs"]}, "good2.rs": {("good2.rs", fn.name) for fn in NEW["bb.rs"]}}.get(n, set())
        got = {(os.path.basename(a), b) for a, b, *_ in gitw.rows(r.out)}
        if got != names(x[0]) | names(x[1]):
            bad = f"rows {got}"
    if bad:
        l.violation(case, f"{bad}\n{r}")


def representatives():
    """One spelling of every meaning and of what is refused."""
    o, seen = [], set()
    for k, v in OPTIONS.items():
        for i, (_, m) in enumerate(v):
            if (k, m) not in seen and not (k == "change" and m not in (None, BAD) and len(m) == 3):
                seen.add((k, m))
                o.append((k, i))
    return o + [("verbose", 1), ("offline", 1), ("force", 1), ("pull", 1)]


def run_all(ctx):
    every = [(k, i) for k in OPTIONS for i in range(len(OPTIONS[k]))] + [("method", None)]
    few = list(dict.fromkeys(representatives()))
    bad = lambda k, i: i is None or OPTIONS[k][i][1] is BAD
    jobs = []
    for kind in ("files", "commits"):
        for place in range(len(places(kind))):
            for order in ORDERS[:4 if kind == "commits" else 3]:
                jobs.append((kind, (), place, order))
        for e in every:
            for order in ORDERS if ctx.thorough else ORDERS[:3] if kind == "files" else ORDERS[2:]:
                jobs.append((kind, (e,), 0, order))
        # Every place with every option.
        for e in few:
            for place in range(1, len(places(kind))):
                if ctx.thorough or not bad(*e):
                    jobs.append((kind, (e,), place, ORDERS[len(jobs) % 2]))
        many = every if ctx.thorough and kind == "files" else few
        if kind == "files" or ctx.thorough:
            for a, b in itertools.combinations(many, 2):
                if a[0] != b[0] and not (bad(*a) and bad(*b)):
                    jobs.append((kind, (a, b), 0, ORDERS[len(jobs) % 3]))
    return list(dict.fromkeys(jobs))


def run(ctx):
    build()
    jobs = run_all(ctx)
    ctx.par(check, jobs, name)
    ctx.par(other, others(), other_name)
    ctx.extra.update(evaluations=ctx.t.states, distinct_nontrivial=len(ctx.t.names))
