"""P17: comparisons never move branches or tags; repeating one gives the same result."""
import itertools, os
import h, gitw, world, webworld

FLAGS = [(), ("--git-force",), ("--git-pull",), ("--git-pull", "--git-force")]
PAIRS = [("main", "feature"), ("behind", "ahead"), ("v1", "main"), ("lonly", "src"), ("ahead", "nope"), ("<71>", "behind")]
OPS = [("cmp", a, b, f) for f in FLAGS for a, b in PAIRS] + [("push", "main", 12), ("push", "behind", 4), ("delete", "feature", None), ("tag", "v1", 12)]


def op_name(o):
    return f"compare {o[1]} {o[2]} {' '.join(o[3])}".strip() if o[0] == "cmp" else f"remote {o[0]} {o[1]} {o[2] or ''}".strip()


WEB_OPS = [("cmp", a, b, f) for f in FLAGS[1::2] for a, b in PAIRS] + [o for o in OPS if o[0] != "cmp"]


def name(j):
    if j[0] == "web":
        return f"service: head={j[1]}: " + "; ".join(op_name(WEB_OPS[i]) for i in j[2])
    return f"head={j[0]}: " + "; ".join(op_name(OPS[i]) for i in j[1])


class Model:
    """What is known: the remote's branches, and the possible values of each remote-tracking branch."""

    def __init__(self, head):
        self.head = head
        self.remote, self.tags = dict(world.REMOTE_BRANCHES), dict(world.REMOTE_TAGS)
        self.org = {b: {W.local[head, "origin/" + b]} for b in set(self.remote) | {"dead", "src", "lonly"} if ("origin/" + b) in [k[1] for k in W.local]}

    def copy(self):
        m = Model.__new__(Model)
        m.head, m.remote, m.tags, m.org = self.head, dict(self.remote), dict(self.tags), {k: set(v) for k, v in self.org.items()}
        return m

    def meaning(self, n, pull, force):
        """(possible commits, may be an error, fetch certainly succeeds)"""
        t = W.text(n)
        loc = W.local[self.head, t]
        org = self.org.get(t, {None})
        if pull:
            if t in self.remote:
                return {self.remote[t]}, False
            if t in self.tags:
                return {self.tags[t]}, False
        vals, err = set(), pull
        for o in org:
            v = (o or loc) if force else (loc or o)
            vals |= {v} if v else set()
            err |= v is None
        return vals, err

    def compare(self, a, b, flags):
        pull, force = "--git-pull" in flags, "--git-force" in flags
        r = []
        for i, n in enumerate((a, b)):
            r.append(self.meaning(n, pull, force))
            t = W.text(n)
            if pull and t in self.remote:
                sure = i == 0 or not r[0][1]
                self.org[t] = {self.remote[t]} | (set() if sure else self.org.get(t, {None}))
        return r


def apply(d, m, o, site=None):
    """Performs an operation; returns a complaint or None."""
    if o[0] == "push":
        m.remote[o[1]] = o[2]
        gitw.git(site.remote(m.head) if site else d + "/remote.git", "update-ref", f"refs/heads/{o[1]}", W.sha[o[2]])
        return None
    if o[0] == "tag":
        m.tags[o[1]] = o[2]
        gitw.git(site.remote(m.head) if site else d + "/remote.git", "update-ref", f"refs/tags/{o[1]}", W.sha[o[2]])
        return None
    if o[0] == "delete":
        m.remote.pop(o[1], None)
        gitw.git(site.remote(m.head) if site else d + "/remote.git", "update-ref", "-d", f"refs/heads/{o[1]}")
        return None
    repo = site.repo(m.head) if site else d + "/repo"
    before = gitw.refs(repo, "refs/heads", "refs/tags")
    if site:
        r = site.compare(m.head, W.text(o[1]), W.text(o[2]), "true" if "--git-pull" in o[3] else "false")
    else:
        r = h.run(gitw.commits_cmd(repo, W.text(o[1]), W.text(o[2]), extra=o[3]), env_=h.env())
    (A, ea), (B, eb) = m.compare(*o[1:])
    after = gitw.refs(repo, "refs/heads", "refs/tags")
    for ref, c in before.items():
        if after.get(ref) != c:
            return f"{ref} moved from {W.num[c]} to {W.num.get(after.get(ref), after.get(ref))}\n{r}"
    extra = set(after) - set(before) - {"refs/tags/v3"}
    if extra:
        return f"created {extra}\n{r}"
    if r.crashed:
        return f"crashed: {r}"
    if r.rc:
        return None if ea or eb else f"refused: allowed old {A} new {B}\n{r}"
    got = r.rows if site else gitw.rows(r.out)
    if not any(got == gitw.expected(x, y) for x in A for y in B):
        return f"another result than the first time: allowed old {A} new {B}\n{r}"
    return None


def web(j, l):
    _, hd, hist = j
    s, m = webworld.site(W), Model(hd)
    s.reset(hd)
    l.trace()
    for k, i in enumerate(hist):
        l.state()
        l.steps()
        l.outcome(WEB_OPS[i][0] + " with the service")
        bad = apply(None, m, WEB_OPS[i], s)
        if bad:
            l.violation(name(j), f"at step {k + 1}: {bad}")
            return
    l.sample(name(j))


def check(j, l):
    if j[0] == "web":
        return web(j, l)
    return cli(j, l)


def cli(j, l):
    """Explores all continuations of a history up to the depth; j = (head, history, depth)."""
    hd, hist, depth = j
    base = f"{h.scratch()}/t{os.getpid()}"
    d = f"{base}-0"
    gitw.copy(f"{W.path}/{hd}", d)
    try:
        m = Model(hd)
        for k, i in enumerate(hist):
            bad = apply(d, m, OPS[i])
            l.steps()
            if bad:
                l.violation(name((hd, hist[:k + 1])), bad)
                return
        l.state()
        walk(hd, hist, depth - len(hist), d, m, base, l)
    finally:
        gitw.remove(d)


def walk(hd, hist, left, d, m, base, l):
    if left == 0:
        l.trace()
        return
    for i, o in enumerate(OPS):
        if left == 1 and o[0] != "cmp":
            continue
        d2, m2 = f"{base}-{left}", m.copy()
        gitw.copy(d, d2)
        try:
            bad = apply(d2, m2, o)
            l.steps()
            l.state()
            l.outcome(o[0])
            if bad:
                l.violation(name((hd, hist + (i,))), bad)
                continue
            if left == 1:
                l.sample(name((hd, hist + (i,))))
            walk(hd, hist + (i,), left - 1, d2, m2, base, l)
        finally:
            gitw.remove(d2)


def run(ctx):
    global W
    W = world.build(h.scratch() + "/world")
    depth = 3 if ctx.thorough else 2
    heads = world.HEADS if ctx.thorough else world.HEADS[:3]
    ctx.bound(f"every history of {depth} operations out of {len(OPS)} (comparisons {PAIRS} with flags {FLAGS}, and changes of the remote), HEAD at {heads}")
    ctx.assume("Revisions named relative to HEAD are not repeated, since switching changes what they mean.")
    ctx.bound(f"every history of {depth} operations out of {len(WEB_OPS)} through the web service")
    web_jobs = [("web", hd, p) for hd in heads for p in itertools.product(range(len(WEB_OPS)), repeat=depth) if WEB_OPS[p[-1]][0] == "cmp"]
    if ctx.only is not None and ctx.only.startswith("service: "):
        return ctx.par(check, web_jobs, name)
    if ctx.only is not None:
        hd, _, ops = ctx.only.partition(": ")
        ids = tuple(next(i for i, o in enumerate(OPS) if op_name(o) == x) for x in ops.split("; "))
        ctx.only = name((hd[5:], ids))
        ctx.par(check, [(hd[5:], ids, len(ids))], name)
        return
    n = depth - 1
    ctx.par(check, [(hd, p, depth) for hd in heads for p in itertools.product(range(len(OPS)), repeat=n)] + web_jobs, name)
