"""P15: command line reports show exactly the filtered comparison."""
import itertools, os, re
import h, gitw, weights as w
from weights import Fn

X = (("x", 1, 50),)
NAME_A, NAME_B, NAME_C, NAME_U = "aa.rs", 'b, "b".rs', "c|c.rs", "\u65e5\u672c\u00e9\U0001f980.rs"


def scenarios():
    """name -> (old files, new files)"""
    base = {
        NAME_A: [Fn("alpha", (1_000_000, 2000), (("x", (10_000, 20)),), 1, 2, X), Fn("beta", (5_000_000, 2000)), Fn("gone", (7_000, 70)),
                 Fn("same", (3_000, 30)), Fn("slow", (100_000, 1000)), Fn("wild", (0, 0), (("y", (1_000, 10)),))],
        NAME_B: [Fn("alpha", (1_000_000, 2000)), Fn("many", (1_000, 10), (), 2000, 1500), Fn("zero", (0, 0)), Fn("gr\u00f6\u00dfe", (70_000, 7))],
        NAME_U: [Fn("\u6570", (1_000, 1))],
    }
    new = {
        NAME_A: [Fn("alpha", (1_200_000, 1000), (("x", (20_000, 30)),), 1, 2, X), Fn("beta", (4_000_000, 4000)), Fn("extra", (9_000, 90)),
                 Fn("same", (3_000, 30)), Fn("slow", (104_000, 1200)), Fn("wild", (0, 0), (("y", (1_010, 11)),))],
        NAME_B: [Fn("alpha", (950_000, 2100)), Fn("many", (2_000, 30), (), 2000, 1500), Fn("zero", (1_000, 20)), Fn("gr\u00f6\u00dfe", (77_000, 8))],
        NAME_U: [Fn("\u6570", (1_700, 3))],
        NAME_C: [Fn("alpha", (2_000, 20)), Fn("null", (0, 0))],
    }
    return {
        "mixed": (base, new), "mirrored": (new, base), "identical": (base, base), "empty": ({}, {}),
        "added only": ({}, new), "removed only": (base, {}),
        "line breaks": ({"n\nl.rs": base[NAME_A], "c\rr.rs": base[NAME_B], "crlf\r\n.rs": base[NAME_U], '"q.rs': base[NAME_U]}, {"n\nl.rs": new[NAME_A], "c\rr.rs": new[NAME_B], "crlf\r\n.rs": new[NAME_U], '"q.rs': new[NAME_U]}),
        "failing only": ({NAME_A: [base[NAME_A][5]]}, {NAME_A: [new[NAME_A][5]]}),
    }


def big(thorough=False):
    """Scenarios with many or long ones of what there is."""
    out, ws = {}, lambda n, d: {f"{k}.rs": [Fn("f", (1000 + k + k * d % 3 * 500, 9))] for k in range(n)}
    for n in h.sizes(5001 if thorough else 1025, thorough):
        out[f"{n} functions"] = tuple({NAME_A: [Fn(f"f{k}", (1000 + k + d * (k % 3) * 500, k)) for k in range(n) if k % 7 != d + 1]} for d in (0, 1))
        if n <= 300:
            out[f"{n} files"] = ws(n, 0), ws(n, 1)
        if n <= 250:
            out[f"file names of {n}"] = tuple({f"{x}.rs": [Fn("f", (1000 + k, 9 + d))] for k, x in enumerate(h.long_names(n))} for d in (0, 1))
            cs = h.long_names(n)
            out[f"component names of {n}"] = tuple({NAME_A: [Fn("f", (1000, 9), tuple((c, (k + 2 + d, k + 3)) for k, c in enumerate(cs)), 0, 0, tuple((c, 1, 50) for c in cs))]} for d in (0, 1))
        out[f"function names of {n}"] = tuple({NAME_A: [Fn(x, (1000 + k, 9 + d)) for k, x in enumerate(h.long_names(n))]} for d in (0, 1))
        out[f"paths of {n}"] = tuple({"/".join(x[i:i + 50].replace(".", "_") for i in range(0, n, 50)) + ".rs": [Fn("f", (1000 + k, 9 + d))] for k, x in enumerate(h.long_names(n))} for d in (0, 1))
    # Rows that are the end of another
    same = lambda d: [Fn("f", (1000 + d, 9)), Fn("ff", (1000 + d, 9)), Fn("aa_f", (1000 + d, 9))]
    out["ends"] = tuple({x: same(d) for x in ("a.rs", "aa.rs", "aaa.rs", "ba.rs", "a.rs.rs", ".rs")} for d in (0, 1))
    out["ends of one"] = tuple({x: same(d)[:1] for x in ("a.rs", "aa.rs", "aaa.rs", "ba.rs", "a.rs.rs", ".rs")} for d in (0, 1))
    return out


# Versions of one function for the pairs block.
VERSIONS = [None, Fn("f", (0, 0)), Fn("f", (999, 1023)), Fn("f", (1000, 1024)), Fn("f", (1_001, 1025)), Fn("f", (2_500_000_000, 3 << 30)),
            Fn("f", (1000, 1024), (("x", (1000, 1024)),), 0, 0, X), Fn("f", (1000, 1024), (("x", (1000, 1024)),)),
            Fn("f", (1000, 1024), (("x", (500, 2048)),), 0, 0, X), Fn("f", (1000, 1024), (("x", (1000, 1024)), ("y", (50_000, 10))), 3, 1, X + (("y", 0, 10),)),
            Fn("f", (10**15, 10**12), (), 1001, 0), Fn("f", (1000, 1024), (), 1000, 1000)]
FORMATS = ["human", "markdown", "csv"]


def jobs(ctx):
    D = dict(scenario="mixed", format="csv", terms=False, no_color=True, threshold="0", kinds=None, ext=None, pallet=None,
             method="guess-worst", unit="time", strip=None, ignore=False, verbose=False, via="files")
    seen = set()

    def emit(**kw):
        j = dict(D, **kw)
        k = name(j)
        if j["scenario"] == "line breaks" and j["format"] != "csv":
            return
        if k not in seen:
            seen.add(k)
            yield j
    kinds = [None] + [list(c) for n in range(1, 5) for c in itertools.combinations(w.KINDS, n)]
    thresholds = ["0", None, "10", "4", "4.0001", "25", "1000"]
    filters = [None, "alpha", "^a", "a$", "nothing", "(?!al)^.*"]
    pallets = [None, "aa", "^b", r"\|", "rs$"]
    names = list(scenarios())
    # Output formatting
    for f, t, nc, m, u, th, s in itertools.product(FORMATS, [False, True], [True, False], w.METHODS, w.UNITS, thresholds[:3], names):
        if ctx.thorough or s == "mixed" or (m in ("guess-worst", "exact-worst") and th == "0"):
            yield from emit(format=f, terms=t, no_color=nc, method=m, unit=u, threshold=th, scenario=s)
    # Selection
    for f, k, e, p, th in itertools.product(FORMATS, kinds, filters, pallets, thresholds):
        if ctx.thorough or (f == "csv" and (k is None or e is None or p is None)) or (e is None and p is None):
            yield from emit(format=f, kinds=k, ext=e, pallet=p, threshold=th, method="exact-worst")
    # Every pair of versions, every method and dimension
    for a, b in itertools.product(range(len(VERSIONS)), repeat=2):
        if a or b:
            for f, m, u, t in itertools.product(FORMATS, w.METHODS, w.UNITS, [False, True]):
                if ctx.thorough or (f == "csv" and (t or m == "guess-worst")) or (f != "csv" and t and m == "guess-worst"):
                    yield from emit(scenario=(a, b), format=f, method=m, unit=u, terms=t)
    # Remaining options
    for f, s, i, v, u in itertools.product(FORMATS, [None, "a+", r"^[a-z]", "nothing"], [False, True], [False, True], w.UNITS):
        if not (f == "csv" and s):
            yield from emit(format=f, strip=s, ignore=i, verbose=v, unit=u)
            yield from emit(format=f, strip=s, ignore=i, verbose=v, unit=u, scenario="empty")
    # Patterns that match file names at several places, at none, or only with looking around
    for f, s, n, m in itertools.product(FORMATS[:2], ["a", "[a-z]", "[abc]", "s$|b|^a", "a|s", r"\.", "(?<=b).|(?=r).", ".(?=.*a)", "(.)\\1", "z*", "", r"\w"], names, ["guess-worst", "exact-worst"]):
        if ctx.thorough or n in ("mixed", "failing only", "added only"):
            yield from emit(format=f, strip=s, scenario=n, method=m)


    # Many and long ones
    for sc in BIG:
        for f, t, nc in itertools.product(FORMATS, [False, True], [True, False]):
            if "paths" not in sc and (ctx.thorough or sc.startswith("ends") or nc and (t == (f == "human") or "component" in sc)):
                yield from emit(scenario=sc, format=f, terms=t, no_color=nc)
            if "paths" in sc and nc or sc.startswith("ends"):
                yield from emit(scenario=sc, format=f, terms=t, no_color=nc, via="commits")
    # The same reports for two revisions
    for f, t, nc, m, u, th, s in itertools.product(FORMATS, [False, True], [True, False], w.METHODS, w.UNITS, thresholds, names):
        if ctx.thorough or (m in ("guess-worst", "exact-worst") and (t, nc) in ((False, True), (True, False)) and (th in ("0", None) or s == "mixed")):
            yield from emit(via="commits", format=f, terms=t, no_color=nc, method=m, unit=u, threshold=th, scenario=s)
    for f, k, e, p in itertools.product(FORMATS, kinds, filters, pallets):
        if sum(x is not None for x in (k, e, p)) <= (3 if ctx.thorough else 1):
            for th in ("0", None):
                yield from emit(via="commits", format=f, kinds=k, ext=e, pallet=p, threshold=th, method="exact-worst")
    for f, s, i, v in itertools.product(FORMATS[:2], [None, "a+", "[a-z]", "nothing"], [False, True], [False, True]):
        yield from emit(via="commits", format=f, strip=s, ignore=i, verbose=v)
        yield from emit(via="commits", format=f, strip=s, ignore=i, verbose=v, scenario="empty")


def name(j):
    return " ".join(f"{k}={v}" for k, v in j.items() if (k, v) != ("via", "files"))


def write(dir_, files):
    os.makedirs(dir_)
    for n, fns in files.items():
        os.makedirs(os.path.dirname(f"{dir_}/{n}"), exist_ok=True)
        with open(f"{dir_}/{n}", "w") as f:
            f.write(w.rust_file(fns))


def setup():
    s = h.scratch()
    for n, (o, nw) in {**scenarios(), **BIG}.items():
        write(f"{s}/{n}/old", o)
        write(f"{s}/{n}/new", nw)
    for i, v in enumerate(VERSIONS):
        write(f"{s}/versions/{i}", {"w.rs": [v]} if v else {})


    r = gitw.Repo(f"{s}/repo")
    sides = [(n, i, x) for n, both in {**scenarios(), **{n: x for n, x in BIG.items() if "paths" in n or n.startswith("ends")}}.items() for i, x in enumerate(both)]
    r.commits([(k, [k - 1] if k else []) for k in range(len(sides))], lambda k: {"note": str(k), **{n: w.rust_file(fns) for n, fns in sides[k][2].items()}})
    for k, (n, i, _) in enumerate(sides):
        r.ref(f"refs/heads/{n.replace(' ', '-')}/{('old', 'new')[i]}", k)
    gitw.git(r.path, "checkout", "-q", "--detach", r.sha[0])


_mine = None


def mine():
    """A repository for this process."""
    global _mine
    if _mine is None or _mine[0] != os.getpid():
        _mine = (os.getpid(), f"{h.scratch()}/repo{os.getpid()}")
        gitw.copy(f"{h.scratch()}/repo", _mine[1])
    return _mine[1]


def check(j, l):
    s = h.scratch()
    if isinstance(j["scenario"], tuple):
        a, b = j["scenario"]
        od, nd = f"{s}/versions/{a}", f"{s}/versions/{b}"
        old, new = ({"w.rs": [VERSIONS[i]]} if VERSIONS[i] else {} for i in (a, b))
    else:
        od, nd = f"{s}/{j['scenario']}/old", f"{s}/{j['scenario']}/new"
        old, new = (BIG if j["scenario"] in BIG else scenarios())[j["scenario"]]
    argv = [h.CLI, "compare", j["via"], "--format", j["format"], "--method", j["method"], "--unit", j["unit"]]
    for o, k in (("--print-terms", "terms"), ("--no-color", "no_color"), ("--ignore-errors", "ignore"), ("--verbose", "verbose")):
        if j[k]:
            argv.append(o)
    for o, k in (("--threshold", "threshold"), ("--extrinsic", "ext"), ("--pallet", "pallet"), ("--strip-path-prefix", "strip")):
        if j[k] is not None:
            argv += [o, j[k]]
    if j["kinds"]:
        argv += ["--change"] + j["kinds"]
    if j["via"] == "files":
        argv += ["--old"] + [f"{od}/{n}" for n in sorted(os.listdir(od))] + ["--new"] + [f"{nd}/{n}" for n in sorted(os.listdir(nd))]
    else:
        argv += ["--repo", mine(), "--path-pattern", "**/*.rs", *(j["scenario"].replace(" ", "-") + x for x in ("/old", "/new"))]
    r = h.run(argv)
    case = name(j)
    l.state()
    l.trace()
    ok = lambda rx: (lambda t: rx is None or re.search(rx, t) is not None)
    want = w.compare(old, new, j["method"], j["unit"], ok(j["pallet"]), ok(j["ext"]))
    th = 5.0 if j["threshold"] is None else float(j["threshold"])
    want = [e for e in want if w.keep(e, th, j["kinds"])]
    l.steps(len(want))
    try:
        verify(j, r, want)
        l.outcome(j["format"])
        l.outcome("rows", len(want))
        if len(want) > 4:
            l.sample(" ".join(a.replace(s, "") for a in argv[1:]))
    except Exception as e:
        l.violation(case, f"{type(e).__name__}: {e}\n{' '.join(argv)}\n{r}")


def need(c, msg):
    if not c:
        raise AssertionError(msg)


def verify(j, r, want):
    need(r.rc == 0, "the command failed")
    need(j["no_color"] is False or "\x1b" not in r.out, "escape sequences without colour")
    text = h.ANSI.sub("", r.out)
    csv = j["format"] == "csv"
    t = h.read_csv(text) if csv else h.read_table(text, j["format"] == "markdown")
    if csv:
        want_rows = [e for e in want if e.kind != "failed"]
    else:
        want_rows = want
    if t is None:
        need(not want_rows, "no rows")
        return
    head, rows = t
    n = 8 if j["terms"] else 5
    need(len(head) == n, f"{len(head)} columns in the header")
    for row in rows:
        need(len(row) == n or (row[4] == "ERROR" and len(row) == n), f"{len(row)} fields in the row {row}")
    label = lambda f: f if j["strip"] is None else re.sub(j["strip"], "", f)
    index = {}
    for e in want_rows:
        k = (label(e.file), e.name)
        need(k not in index, "the scenario has colliding labels")
        index[k] = e
    got = []
    for row in rows:
        e = index.pop((row[0], row[1]), None)
        need(e is not None, f"unexpected or repeated row {row}")
        got.append(e)
        if e.kind == "failed":
            need(row[4] == "ERROR", f"failed entry shown as {row}")
            continue
        change = {"unchanged": "Unchanged", "added": "Added", "removed": "Removed"}
        fits = False
        for at, o, nw, p in e.scopes:
            if (o, nw, p) not in w.possible(e):
                continue
            c = change.get(e.kind) or f"{p:+5.2f}".strip()
            if (row[2], row[3], row[4].strip()) != (w.fmt(j["unit"], o), w.fmt(j["unit"], nw), c):
                continue
            if j["terms"]:
                sc = {k: int(v) for k, v in re.findall(r'"([^"]*)": Scalar\((\d+)\)', row[7])}
                if any(sc.get(k) != v for k, v in at.items()):
                    continue
                for cell, v, fn in ((row[5], o, e.old_fn), (row[6], nw, e.new_fn)):
                    if fn is None:
                        need(cell == "-", f"term {cell!r} of a missing version")
                    else:
                        x = h.eval_equation(cell, sc)
                        need(abs(x - v) <= 0.01 * v, f"term {cell!r} has value {x}, not {v}")
            fits = True
        need(fits, f"row {row}, expected one of {w.possible(e)}")
    need(not index, f"missing rows {list(index)}")
    # Largest first
    order = ["failed", "changed", "removed", "added", "unchanged"]
    keys = [(order.index(e.kind), -w.int_pm(e.percent) if e.kind == "changed" else 0) for e in got]
    need(keys == sorted(keys), f"rows not in order: {[(e.kind, e.percent) for e in got]}")


def run(ctx):
    global BIG
    BIG = big(ctx.thorough)
    ctx.bound(f"{len(BIG)} scenarios with up to 1025 (5001) functions, 300 files and names of up to 1025 characters")
    setup()
    ctx.bound("formats, terms, colour, methods, dimensions, thresholds over eight scenarios; change kinds (all 16 subsets), name filters, "
              "thresholds; every pair of %d versions of a function; remaining options; the same for revisions%s" % (len(VERSIONS), "" if not ctx.thorough else ", all crossed within each block"))
    ctx.assume("File names contain line breaks only in CSV reports; the reader of tables relies on the columns being separated by |.")
    ctx.par(check, list(jobs(ctx)), name)
