"""P35: the layout of a repository, the settings of git and the environment do not change results."""
import itertools, json, os
import h, gitw, webw, weights as w

WAYS = {"plain": (), "force": ("--git-force", "--verbose"), "pull": ("--git-pull",), "pull and force": ("--git-pull", "--git-force"), "service": "false", "service that pulls": "true"}
# What the names mean in the repository, at the remote-tracking branches and at the remote.
NAMES = {"main": (2, 3, 4), "feature": (3, 5, 5), "v1": (1, 1, 1), "old": (1, 2, 2), "<2>": (2, 2, None)}
PAIRS = [("main", "feature"), ("v1", "main"), ("feature", "old"), ("old", "v1"), ("<2>", "main")]
CONTENT = 6

# Settings that people have: (key, value)...
SETTINGS = [s if isinstance(s, list) else [s] for s in [
    *[(k, v) for k in ("color.ui", "color.diff", "color.branch", "color.status", "column.ui") for v in ("always",)],
    *[("core.autocrlf", v) for v in ("true", "input")], [("core.eol", "crlf"), ("core.autocrlf", "true")], ("core.safecrlf", "true"), ("core.fileMode", "false"), ("core.ignoreCase", "true"), ("core.symlinks", "false"), ("core.quotePath", "false"), ("core.quotePath", "true"),
    ("core.precomposeUnicode", "true"), ("core.trustctime", "false"), ("core.checkStat", "minimal"), ("core.preloadIndex", "true"), ("core.untrackedCache", "true"), ("core.splitIndex", "true"), ("core.abbrev", "4"), ("core.abbrev", "40"), ("core.abbrev", "no"),
    ("core.warnAmbiguousRefs", "false"), ("core.logAllRefUpdates", "always"), ("core.logAllRefUpdates", "false"), ("core.pager", "false"), ("core.editor", "false"), ("core.commentChar", ";"), ("core.commitGraph", "false"), ("core.multiPackIndex", "false"),
    ("core.compression", "0"), ("core.whitespace", "cr-at-eol"), ("core.createObject", "link"), ("core.sharedRepository", "group"), ("core.hooksPath", "HOOKS"), ("core.attributesFile", "ATTRIBUTES"), ("core.excludesFile", "EXCLUDES"),
    ("core.packedGitLimit", "1m"), ("core.deltaBaseCacheLimit", "1k"), ("core.bigFileThreshold", "1"), ("core.fsync", "none"), ("core.protectNTFS", "true"), ("core.sparseCheckout", "false"),
    ("index.version", "4"), ("index.version", "2"), ("index.threads", "4"), ("feature.manyFiles", "true"), ("feature.experimental", "true"),
    ("checkout.guess", "false"), ("checkout.defaultRemote", "upstream"), ("checkout.workers", "4"), ("submodule.recurse", "true"), ("status.showUntrackedFiles", "no"), ("status.short", "true"), ("status.branch", "true"),
    ("diff.noprefix", "true"), ("diff.mnemonicPrefix", "true"), ("diff.renames", "copies"), ("diff.external", "false"), ("diff.relative", "true"), ("diff.relative", "false"), ("diff.ignoreSubmodules", "all"), ("diff.algorithm", "histogram"), ("diff.autoRefreshIndex", "false"),
    ("diff.submodule", "log"), ("diff.statNameWidth", "5"), ("diff.wsErrorHighlight", "all"), ("diff.orderFile", "ORDER"), ("diff.context", "0"), ("log.decorate", "full"), ("log.showSignature", "true"), ("log.abbrevCommit", "true"), ("log.date", "relative"), ("log.follow", "true"), ("format.pretty", "raw"),
    ("fetch.prune", "true"), ("fetch.pruneTags", "true"), ("fetch.all", "true"), ("fetch.recurseSubmodules", "true"), ("fetch.fsckObjects", "true"), ("fetch.showForcedUpdates", "false"), ("fetch.writeCommitGraph", "true"), ("fetch.output", "compact"), ("fetch.parallel", "0"),
    ("fetch.negotiationAlgorithm", "skipping"), ("fetch.negotiationAlgorithm", "noop"), ("fetch.unpackLimit", "1"), ("transfer.fsckObjects", "true"), ("transfer.unpackLimit", "1"), ("receive.denyCurrentBranch", "refuse"), ("remote.origin.tagOpt", "--tags"), ("remote.origin.tagOpt", "--no-tags"),
    ("remote.origin.prune", "true"), ("remote.origin.pushurl", "/nowhere"), ("remote.pushDefault", "upstream"), ("remote.origin.skipDefaultUpdate", "true"), ("remote.origin.followRemoteHEAD", "never"), ("remote.origin.mirror", "false"),
    ("branch.autoSetupMerge", "always"), ("branch.autoSetupRebase", "always"), ("branch.main.remote", "upstream"), ("branch.main.merge", "refs/heads/feature"), ("branch.sort", "-committerdate"), ("tag.sort", "-version:refname"), ("pull.rebase", "true"), ("pull.ff", "only"), ("merge.ff", "only"), ("merge.conflictStyle", "diff3"), ("rebase.autoStash", "true"), ("merge.autoStash", "true"),
    ("protocol.version", "0"), ("protocol.version", "1"), ("protocol.version", "2"), ("protocol.allow", "always"), ("push.default", "current"), ("push.followTags", "true"), ("rerere.enabled", "true"), ("commit.gpgSign", "true"), ("tag.gpgSign", "true"), ("gpg.program", "false"), ("commit.verbose", "true"),
    [("alias.checkout", "!false"), ("alias.fetch", "!false"), ("alias.diff", "!false"), ("alias.cat-file", "!false"), ("alias.ls-tree", "!false")], ("advice.detachedHead", "false"), ("advice.detachedHead", "true"), ("advice.statusHints", "false"),
    ("init.defaultBranch", "trunk"), ("user.useConfigOnly", "true"), ("credential.helper", "!false"), ("http.proxy", "http://127.0.0.1:1"), ("core.sshCommand", "false"), ("core.askPass", "false"), ("help.autoCorrect", "1"), ("pager.diff", "false"), ("pager.branch", "true"), ("interactive.diffFilter", "false"),
    ("maintenance.auto", "false"), ("gc.autoDetach", "false"), ("gc.auto", "1"), ("pack.threads", "1"), ("pack.writeReverseIndex", "true"), ("uploadpack.allowFilter", "true"), ("safe.directory", "*"), ("safe.bareRepository", "explicit"), ("i18n.logOutputEncoding", "latin1"), ("i18n.commitEncoding", "latin1"), ("trace2.normalTarget", "2"), ("versionsort.suffix", "-rc"), ("url.http://127.0.0.1:1/.pushInsteadOf", "x"), ("blame.date", "iso"), ("grep.lineNumber", "true"),
]]
# Those that go together, so that all can be set at once
TOGETHER = [("color.ui", "always"), ("column.ui", "always"), ("core.autocrlf", "true"), ("core.abbrev", "4"), ("core.splitIndex", "true"), ("core.hooksPath", "HOOKS"), ("core.attributesFile", "ATTRIBUTES"), ("core.excludesFile", "EXCLUDES"), ("index.version", "4"), ("checkout.guess", "false"), ("checkout.defaultRemote", "upstream"),
            ("diff.renames", "copies"), ("diff.noprefix", "true"), ("diff.external", "false"), ("diff.relative", "true"), ("diff.orderFile", "ORDER"), ("fetch.prune", "true"), ("fetch.all", "true"), ("fetch.output", "compact"), ("remote.origin.tagOpt", "--tags"), ("pull.rebase", "true"), ("protocol.version", "1"), ("log.showSignature", "true"), ("advice.detachedHead", "false"), ("submodule.recurse", "true"), ("status.short", "true"), ("branch.main.remote", "upstream"), ("push.default", "current"), ("gc.auto", "1"), ("trace2.normalTarget", "2")]
# Environments: what is added; None takes away
ENVIRONMENTS = [dict([x]) if isinstance(x, tuple) else x for x in [
    *[(k, v) for k in ("LANG", "LC_ALL", "LANGUAGE") for v in ("C", "POSIX", "de_DE.UTF-8", "ja_JP.SJIS", "tr_TR.UTF-8", "")], dict(LANG=None, LC_ALL=None), *[("TZ", v) for v in ("Asia/Kathmandu", "America/St_Johns", "", "nonsense")], *[("TERM", v) for v in ("dumb", "xterm-256color", "")],
    *[("COLUMNS", v) for v in ("1", "20", "80", "100000", "x")], ("LINES", "5"), ("NO_COLOR", "1"), ("CLICOLOR", "0"), ("PAGER", "false"), ("GIT_PAGER", "false"), ("EDITOR", "false"), ("VISUAL", "false"), ("GIT_EDITOR", "false"), ("GIT_ASKPASS", "false"), ("SSH_ASKPASS", "false"), ("GIT_SSH_COMMAND", "false"),
    ("GIT_TRACE", "1"), ("GIT_TRACE", "2"), ("GIT_TRACE_SETUP", "1"), ("GIT_TRACE_PACKET", "1"), ("GIT_TRACE2", "1"), ("GIT_TRACE2_EVENT", "2"), ("GIT_CURL_VERBOSE", "1"), ("GIT_FLUSH", "1"), ("GIT_OPTIONAL_LOCKS", "1"), ("GIT_OPTIONAL_LOCKS", None), ("GIT_TERMINAL_PROMPT", None), ("GIT_ADVICE", "0"), ("GIT_ADVICE", "1"),
    ("GIT_DISCOVERY_ACROSS_FILESYSTEM", "1"), ("GIT_CEILING_DIRECTORIES", None), ("GIT_LITERAL_PATHSPECS", "1"), ("GIT_ICASE_PATHSPECS", "1"), ("GIT_NOGLOB_PATHSPECS", "1"), ("GIT_REF_PARANOIA", "0"), ("GIT_DEFAULT_HASH", "sha256"), ("GIT_ATTR_NOSYSTEM", "1"), ("GIT_CONFIG_NOSYSTEM", None), ("GIT_CONFIG_GLOBAL", "/dev/null"), ("GIT_CONFIG_SYSTEM", "/dev/null"),
    dict(GIT_CONFIG_COUNT="2", GIT_CONFIG_KEY_0="color.ui", GIT_CONFIG_VALUE_0="always", GIT_CONFIG_KEY_1="core.autocrlf", GIT_CONFIG_VALUE_1="true"), dict(GIT_AUTHOR_NAME=None, GIT_AUTHOR_EMAIL=None, GIT_COMMITTER_NAME=None, GIT_COMMITTER_EMAIL=None), ("GIT_COMMITTER_DATE", "@0 +0000"), ("GIT_AUTHOR_DATE", "@0 +0000"), ("GIT_EXTERNAL_DIFF", "false"), ("GIT_DIFF_OPTS", "-u0"), ("GIT_MERGE_VERBOSITY", "5"), ("GIT_PROTOCOL", "version=1"),
    ("GIT_REFLOG_ACTION", "x y"), ("GIT_PREFIX", "src/"), ("GIT_SEQUENCE_EDITOR", "false"),
    ("HOME", "/nonexistent"), ("HOME", None), ("HOME", ""), ("XDG_CONFIG_HOME", "/nonexistent"), ("USER", None), ("USER", "x y"), ("LOGNAME", "nobody"), ("SHELL", "/bin/false"), ("TMPDIR", "/nonexistent"), ("TMPDIR", None), ("PWD", "/"), ("PWD", None), ("OLDPWD", "/"), ("CDPATH", "/"), ("BASH_ENV", "/nonexistent"), ("ENV", "/nonexistent"), ("IFS", "/"), ("POSIXLY_CORRECT", "1"),
    ("LS_COLORS", "x"), ("GREP_OPTIONS", "-v"), ("CI", "true"), ("GITHUB_ACTIONS", "true"), ("DEBUG", "1"), ("VERBOSE", "1"), ("THRESHOLD", "50"), ("METHOD", "asymptotic"), ("UNIT", "proof"), ("SUBWEIGHT_METHOD", "asymptotic"), ("REPO", "/nonexistent"), ("RAYON_NUM_THREADS", "1"), ("TOKIO_WORKER_THREADS", "1"),
    *[("RUST_LOG", v) for v in ("off", "error", "warn", "info", "debug", "trace", "nonsense=x", "")], ("RUST_LOG_STYLE", "always"), ("RUST_BACKTRACE", "1"), ("RUST_BACKTRACE", "full"), ("RUST_MIN_STACK", "4194304"), ("MALLOC_PERTURB_", "165"), ("PATH", "/usr/bin:/bin"), ("PATH", "/nonexistent:/usr/bin:/bin"),
]]
COUNT = itertools.count()
UMASKS = [0o022, 0o077, 0o000, 0o027]


class W:
    pass


def build():
    W.base = base = h.scratch() + "/base"
    os.makedirs(base + "/remotes/org")
    r = gitw.Repo(base + "/remotes/org/r.git", bare=True)
    r.commits([(1, []), (2, [1]), (3, [2]), (5, [2]), (4, [3]), (CONTENT, [1])], lambda n: {a + k: v for a in ("", "part/") for k, v in gitw.weight_files(n).items()})
    W.sha = r.sha
    for n, (_, tracked, _) in NAMES.items():
        if n[0] != "<":
            r.ref(f"refs/{'tags' if n == 'v1' else 'heads'}/{n}", tracked)
    r.ref("refs/heads/topic", CONTENT)
    for n, v in (("old", 2), ("new", 3)):
        os.makedirs(f"{base}/{n}")
        open(f"{base}/{n}/w.rs", "w").write(w.rust_file([w.Fn("f", (v * 1000, v))]))
    hooks = base + "/hooks"
    os.makedirs(hooks)
    for n in ("post-checkout", "reference-transaction", "post-index-change", "post-merge", "pre-auto-gc"):
        with open(f"{hooks}/{n}", "w") as f:
            f.write("#!/bin/sh\necho hello from $0\nfor x in hello warning: error: fatal: \"hint:\"; do echo $x nothing >&2; done\n")
        os.chmod(f"{hooks}/{n}", 0o755)
    for n, t in (("attributes", "*.rs text eol=crlf ident whitespace=cr-at-eol\n* -diff\n"), ("excludes", "*\n"), ("order", "*.md\n*.rs\n")):
        open(f"{base}/{n}", "w").write(t)


def value(v):
    return {"HOOKS": W.base + "/hooks", "ATTRIBUTES": W.base + "/attributes", "EXCLUDES": W.base + "/excludes", "ORDER": W.base + "/order"}.get(v, v)


def clone(d, path, *args):
    gitw.git(d, "clone", "-q", "--template=", *args, f"file://{d}/remotes/org/r.git", path)
    return path


def finish(d, p):
    """Local branches, and the remote moves on."""
    for n, (local, _, _) in NAMES.items():
        if n[0] != "<" and n != "v1":
            gitw.git(p, "update-ref", "refs/heads/" + n, W.sha[local])
    gitw.git(p, "config", "gc.auto", "0")
    gitw.git(p, "config", "gc.autoDetach", "false")
    gitw.git(p, "config", "remote.origin.uploadpack", gitw.uploadpack())
    # The remote that is not asked
    gitw.git(p, "config", "remote.upstream.url", d + "/nowhere.git")
    gitw.git(p, "config", "remote.upstream.fetch", "+refs/heads/*:refs/remotes/upstream/*")
    gitw.git(p, "update-ref", "refs/remotes/upstream/main", W.sha[1])
    gitw.git(p, "update-ref", "refs/remotes/upstream/feature", W.sha[1])
    gitw.git(p, "checkout", "-q", "-f", "-B", "work", W.sha[1])


def layout(kind, d):
    """Makes d/root/r; returns places that must not change."""
    p = d + "/root/r"
    if kind == "linked worktree":
        m = clone(d, d + "/main")
        finish(d, m)
        # The main one has a branch that is compared.
        gitw.git(m, "checkout", "-q", "main")
        gitw.git(m, "worktree", "add", "-q", "-f", "-B", "here", p, W.sha[1])
        return [m]
    if kind == "main worktree":
        clone(d, p)
        finish(d, p)
        gitw.git(p, "worktree", "add", "-q", d + "/linked", "main")
        gitw.git(p, "worktree", "add", "-q", d + "/linked2", "feature")
        return [d + "/linked", d + "/linked2"]
    if kind == "separate git directory":
        clone(d, p, f"--separate-git-dir={d}/apart")
    elif kind == "link to the git directory":
        clone(d, p)
        os.rename(p + "/.git", d + "/apart")
        os.symlink(d + "/apart", p + "/.git")
    elif kind == "shallow":
        clone(d, p, "--depth=1", "--no-single-branch")
        gitw.git(p, "fetch", "-q", "--depth=1", "origin", W.sha[1], W.sha[2], W.sha[3])
    elif kind == "shared objects":
        clone(d, p)
        gitw.remove(p)
        gitw.git(d, "clone", "-q", "--template=", "--shared", d + "/remotes/org/r.git", p)
        gitw.git(p, "config", "remote.origin.url", f"file://{d}/remotes/org/r.git")
    elif kind == "submodule":
        o = gitw.Repo(d + "/outer")
        o.commits([(7, [])], lambda n: {"src/w.rs": w.rust_file([w.Fn("outer", (9, 9))]), "x": "x"})
        gitw.git(o.path, "checkout", "-q", "-f", "-B", "main", o.sha[7])
        gitw.git(o.path, "-c", "protocol.file.allow=always", "submodule", "--quiet", "add", f"file://{d}/remotes/org/r.git", "r")
        os.symlink(o.path + "/r", p)
        finish(d, o.path + "/r")
        return [o.path]
    elif kind == "inside another":
        os.rmdir(d + "/root")
        o = gitw.Repo(d + "/root")
        o.commits([(7, [])], lambda n: {"src/w.rs": w.rust_file([w.Fn("outer", (9, 9))]), "main": "x"})
        for b in ("main", "feature", "only-outer"):
            o.ref("refs/heads/" + b, 7)
        gitw.git(o.path, "checkout", "-q", "-f", "main")
        clone(d, p)
        finish(d, p)
        return [o.path]
    elif kind == "worktree settings":
        clone(d, p)
        gitw.git(p, "config", "extensions.worktreeConfig", "true")
        gitw.git(p, "config", "--worktree", "core.autocrlf", "true")
    elif kind == "partly fetched names":
        clone(d, p)
        gitw.git(p, "config", "remote.origin.fetch", "+refs/heads/main:refs/remotes/origin/main")
    else:
        clone(d, p)
    finish(d, p)
    g = lambda *a: gitw.git(p, *a)
    if kind == "packed":
        g("pack-refs", "--all", "--prune")
        g("repack", "-q", "-a", "-d")
        g("prune-packed", "-q")
    elif kind == "commit graph and bitmaps":
        g("repack", "-q", "-a", "-d", "-b", "--write-midx")
        g("commit-graph", "write", "--reachable", "--changed-paths")
    elif kind == "no branch yet":
        g("rm", "-q", "-r", "-f", ".")
        g("symbolic-ref", "HEAD", "refs/heads/none")
    elif kind == "detached":
        g("checkout", "-q", "--detach", W.sha[5])
    elif kind == "on the branch":
        g("checkout", "-q", "main")
    elif kind == "notes, stash and others":
        g("notes", "add", "-m", "x", W.sha[2])
        open(p + "/src/w.rs", "a").write("// stashed\n")
        g("stash", "-q")
        g("update-ref", "refs/bisect/bad", W.sha[3])
        g("symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/main")
        g("symbolic-ref", "refs/heads/alias", "refs/heads/main")
    elif kind == "no history of references":
        g("config", "core.logAllRefUpdates", "false")
        g("reflog", "expire", "--expire=all", "--all")
        gitw.remove(p + "/.git/logs")
    elif kind == "no remote branches":
        for b in ("main", "feature", "old"):
            g("update-ref", "-d", "refs/remotes/origin/" + b)
    elif kind == "attributes":
        os.makedirs(p + "/.git/info", exist_ok=True)
        open(p + "/.git/info/attributes", "w").write("*.rs text eol=crlf\n")
        open(p + "/.git/info/exclude", "w").write("*\n")
    elif kind == "replaced":
        g("update-ref", "refs/original/refs/heads/main", W.sha[1])
        g("tag", "-a", "-m", "x", "nested", "v1")
    elif kind == "old lock":
        # That of a reference that is not concerned
        open(p + "/.git/refs/heads/unrelated.lock", "w").close()
    return []


LAYOUTS = ["plain", "linked worktree", "main worktree", "separate git directory", "link to the git directory", "shallow", "shared objects", "submodule", "inside another", "worktree settings", "partly fetched names", "packed", "commit graph and bitmaps", "no branch yet", "detached",
           "on the branch", "notes, stash and others", "no history of references", "no remote branches", "attributes", "replaced", "old lock", "shortened address", "directory of it", "link to a directory of it"]
# Under way; without force it may be refused.
UNDER_WAY = ["merge", "conflict", "rebase", "bisect", "cherry-pick", "revert"]


def under_way(kind, p):
    g = lambda *a: gitw.git(p, *a, ok=False)
    open(p + "/other", "w").write("x")
    g("checkout", "-q", "-f", "work")
    if kind == "merge":
        g("merge", "-q", "--no-commit", "--no-ff", "-s", "ours", W.sha[5])
    elif kind == "conflict":
        g("checkout", "-q", "-f", "-B", "work", W.sha[CONTENT])
        g("merge", "-q", W.sha[5])
    elif kind == "rebase":
        g("checkout", "-q", "-f", "-B", "work", W.sha[CONTENT])
        g("rebase", "-q", W.sha[3])
    elif kind == "bisect":
        g("bisect", "start", W.sha[3], W.sha[1])
    elif kind == "cherry-pick":
        g("cherry-pick", W.sha[5])
    elif kind == "revert":
        g("checkout", "-q", "-f", "-B", "work", W.sha[3])
        g("revert", "--no-edit", W.sha[2])


def name(j):
    lay, sett, env, um, way, pairs = j
    o = [lay] if lay != "plain" else []
    if sett:
        o.append("settings " + ("of the user " if sett[0] == "global" else "") + " ".join(f"{k}={v}" for k, v in sett[1])[:200])
    if env:
        o.append("environment " + " ".join(f"{k}={v}" for k, v in env))
    if um != 0o022:
        o.append(f"umask {um:03o}")
    return f"{', '.join(o) or 'plain'}: {way} {len(pairs)} comparisons"


def meant(n, way, lay):
    local, tracked, remote = NAMES[n]
    pull = way in ("pull", "pull and force", "service that pulls")
    if pull:
        return {"main": 4}.get(n, remote if remote is not None else tracked)
    if way == "plain" or lay == "no remote branches":
        return local
    return tracked


def tree(p):
    """What is in a worktree."""
    o = []
    for x, ds, fs in os.walk(p):
        ds[:] = [y for y in ds if y not in (".git", "r")]
        o += [(os.path.relpath(f"{x}/{f}", p), open(f"{x}/{f}", "rb").read()) for f in fs if f != ".git"]
    return sorted(o), gitw.git(p, "rev-parse", "HEAD", ok=False), gitw.git(p, "symbolic-ref", "-q", "HEAD", ok=False)


def check(j, l):
    lay, sett, env, um, way, pairs = j
    # Git may still tidy up the last one.
    d = f"{h.scratch()}/c{os.getpid()}.{next(COUNT)}"
    os.makedirs(d + "/root")
    srv = None
    try:
        gitw.copy(W.base + "/remotes", d + "/remotes")
        kept = layout(lay if lay not in UNDER_WAY else "plain", d)
        p = d + "/root/r"
        gitw.git(d + "/remotes/org/r.git", "update-ref", "refs/heads/main", W.sha[4])
        if way.startswith("service"):
            gitw.git(p, "config", "remote.origin.url", "https://github.com/org/r")
        if lay == "shortened address":
            url = gitw.git(p, "config", "remote.origin.url").strip()
            gitw.git(p, "config", f"url.{url[:-4]}.insteadOf", "short:")
            gitw.git(p, "config", "remote.origin.url", "short:" + url[-4:])
        if lay in UNDER_WAY:
            under_way(lay, p)
        e = dict(env)
        home = d + "/home"
        os.makedirs(home)
        if sett and sett[0] == "global":
            for k, v in sett[1]:
                gitw.git(p, "config", "--file", home + "/.gitconfig", "--add", k, value(v))
        elif sett:
            for k, v in sett[1]:
                gitw.git(p, "config", k, value(v))
        e = {**dict(HOME=home), **e}
        settings = {k: v for k, v in {**h.env(), **e}.items() if v is not None}
        before, others = gitw.refs(p, "refs/heads", "refs/tags"), [tree(x) for x in kept]
        outer = [gitw.refs(x) for x in kept]
        at = "r"
        if lay == "directory of it":
            at = "r/part"
        elif lay == "link to a directory of it":
            os.symlink(p + "/part", d + "/root/part")
            at = "part"
        if way.startswith("service"):
            try:
                srv = webw.Server(d, [at], observed=False, extra={k: v for k, v in e.items() if v is not None}, unset=[k for k, v in e.items() if v is None])
            except RuntimeError as e:
                return l.violation(name(j), str(e))
        l.state()
        l.trace()
        case = name(j)
        for a, b in pairs:
            x, y = meant(a, way, lay), meant(b, way, lay)
            text = lambda n: W.sha[int(n[1])] if n[0] == "<" else n
            l.steps()
            if srv:
                r = srv.compare(at, text(a), text(b), git_pull=WAYS[way])
                ok, got = r is not None and r.status == 200, None
                if ok:
                    got = set(webw.Page(r.body).cells())
                crashed = r is None
            else:
                r = run_in(gitw.commits_cmd(f"{d}/root/{at}", text(a), text(b), extra=WAYS[way]), settings, um)
                ok, crashed = r.rc == 0, r.crashed
                got = gitw.rows(r.out) if ok else None
            if crashed:
                return l.violation(case, f"{a} {b}: no answer\n{r}")
            if not ok and not (lay in UNDER_WAY and way in ("plain", "pull")):
                return l.violation(case, f"{a} {b}: refused\n{repr(r)[:3000]}")
            if ok and got != gitw.expected(x, y):
                return l.violation(case, f"{a} {b}: expected commits {x} and {y}, but rows {sorted(got)}\n{repr(r)[:3000]}")
            l.outcome(f"{'compared' if ok else 'refused'} in {'a layout' if lay != 'plain' else 'another setting'}")
        bad = listed(srv, at) if srv else files(settings, um)
        l.steps()
        if bad:
            return l.violation(case, bad)
        now = gitw.refs(p, "refs/heads", "refs/tags")
        moved = {k for k in {**before, **now} if now.get(k) != before.get(k)}
        if moved:
            return l.violation(case, f"moved {moved}")
        for x, o, n in zip(kept, others, outer):
            if tree(x) != o or any(gitw.refs(x).get(k) != v for k, v in n.items() if not k.startswith("refs/remotes/")):
                return l.violation(case, f"what is checked out at {x} changed")
        l.sample(case)
        l.names.add(case)
    finally:
        if srv:
            srv.stop()
        gitw.remove(d)


def listed(srv, at):
    """What is wrong with the list of branches."""
    r = srv.get("/branches", repo=at)
    if r is None or r.status != 200:
        return f"the branches are not listed: {r}"
    got = sorted(map(tuple, json.loads(r.body)["branch"]))
    want = sorted((n, W.sha[c][:12]) for n, c in (("main", 4), ("feature", 5), ("old", 2), ("topic", CONTENT), ("v1", 1)))
    return None if got == want else f"the branches are {got} instead of {want}"


def files(settings, um):
    """What is wrong with comparing and parsing files outside of any repository."""
    a, b = W.base + "/old/w.rs", W.base + "/new/w.rs"
    r = run_in([h.CLI, "compare", "files", "--format", "csv", "--no-color", "--threshold", "0", "--method", "base", "--old", a, "--new", b], settings, um)
    if r.rc != 0 or gitw.rows(r.out) != {("w.rs", "f", w.fmt("time", 2000), w.fmt("time", 3000))}:
        return f"comparing files: {repr(r)[:3000]}"
    r = run_in([h.CLI, "parse", "files", a, b], settings, um)
    return None if r.rc == 0 and "Parsed 2 files successfully" in r.out else f"parsing files: {repr(r)[:3000]}"


def run_in(argv, env, um):
    old = os.umask(um)
    try:
        return h.run(argv, env_=env)
    finally:
        os.umask(old)


def run(ctx):
    build()
    pairs = tuple(PAIRS)
    pull_pairs = tuple(x for x in PAIRS if "<2>" not in x)
    fit = lambda way: pull_pairs if "pull" in way else pairs
    jobs = [(lay, None, (), 0o022, way, fit(way)) for lay in LAYOUTS + UNDER_WAY for way in WAYS]
    ways = list(WAYS)
    for i, s in enumerate(SETTINGS + [TOGETHER]):
        for k, where in enumerate(("global", "local")):
            for m, way in enumerate(ways):
                if ctx.thorough or (i + k + m) % 3 == 0 or s is TOGETHER:
                    jobs.append(("plain", (where, tuple(s)), (), 0o022, way, fit(way)[:2] if not ctx.thorough else fit(way)))
    for lay in LAYOUTS[1:]:
        for way in ways:
            jobs.append((lay, ("global", tuple(TOGETHER)), (), 0o022, way, fit(way)[:2]))
    if ctx.thorough:
        for a, b in itertools.combinations(SETTINGS, 2):
            if a[0][0] != b[0][0]:
                way = ways[len(jobs) % 4]
                jobs.append(("plain", ("global", tuple(a + b)), (), 0o022, way, fit(way)[:2]))
        for lay, s in itertools.product(LAYOUTS[1:], SETTINGS):
            way = ways[len(jobs) % 6]
            jobs.append((lay, ("local", tuple(s)), (), 0o022, way, fit(way)[:2]))
    for i, e in enumerate(ENVIRONMENTS):
        for m, way in enumerate(ways):
            if ctx.thorough or (i + m) % 2 == 0 or way == "force":
                jobs.append(("plain", None, tuple(e.items()), 0o022, way, fit(way)[:2]))
        if ctx.thorough:
            jobs += [(lay, None, tuple(e.items()), 0o022, ways[(i + k) % 6], fit(ways[(i + k) % 6])[:2]) for k, lay in enumerate(LAYOUTS[1:])]
    jobs += [(lay, None, (), um, way, fit(way)[:2]) for um in UMASKS[1:] for way in ways[:4] for lay in ("plain", "linked worktree")]
    jobs = list(dict.fromkeys(jobs))
    ctx.bound(f"{len(LAYOUTS)} layouts and {len(UNDER_WAY)} operations under way x {len(WAYS)} ways to compare; {len(SETTINGS)} settings of git by user and by repository, {len(TOGETHER)} at once in every layout; {len(ENVIRONMENTS)} environments; {len(UMASKS)} umasks")
    ctx.assume("Settings under which git itself cannot switch or fetch, sparse checkouts, and variables that point git to another repository are left out.")
    ctx.par(check, jobs, name)
    ctx.extra.update(evaluations=ctx.t.states, distinct_nontrivial=len(ctx.t.names))
