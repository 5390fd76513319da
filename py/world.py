"""The repository with a remote that the revision properties explore, in several initial states."""
import os
import h, gitw
from gitw import git

HEADS = ["main", "detached", "ahead", "lonly"]
# Names, by what they are.
NAMES = ["<1>", "<2:9>", "main", "feature", "feat/x", "ronly", "dead", "lonly", "behind", "ahead", "src", "origin/main", "origin/behind",
         "v1", "v2", "refs/heads/behind", "heads/behind", "refs/tags/v1", "remotes/origin/ahead", "HEAD", "@", "HEAD~1", "HEAD^", "main~1",
         "ahead~2", "v2^{}", "v2~1", "fresh", "team/b", "at@x", "v3", "nope", "<none>", "<71>"]

REMOTE_BRANCHES = {"main": 4, "feature": 12, "feat/x": 20, "ronly": 31, "behind": 2, "ahead": 70, "fresh": 80, "team/b": 3, "at@x": 20}
REMOTE_TAGS = {"v1": 1, "v2": 2, "v3": 4}


def build(path):
    """path/<head>/{remote.git,repo}: the remote has moved on since it was last fetched."""
    os.makedirs(path)
    r = gitw.Repo(f"{path}/remote.git", bare=True)
    r.commits([(1, []), (2, [1]), (3, [2]), (10, [2]), (20, [3]), (30, [1]), (40, [1]), (70, [3])])
    for b, n in {"main": 3, "feature": 10, "feat/x": 20, "ronly": 30, "behind": 2, "ahead": 70, "dead": 40, "team/b": 10, "at@x": 20}.items():
        r.ref(f"refs/heads/{b}", n)
    git(r.path, "symbolic-ref", "HEAD", "refs/heads/main")
    r.ref("refs/tags/v1", 1)
    git(r.path, "tag", "-a", "-m", "annotated", "v2", r.sha[2])
    l = gitw.Repo(f"{path}/repo")
    gitw.add_origin(l.path)
    git(l.path, "fetch", "-q", "--tags", "origin")
    git(l.path, "symbolic-ref", "refs/remotes/origin/HEAD", "refs/remotes/origin/main")
    l.sha = dict(r.sha)
    l.commits([(50, [2]), (60, [1]), (71, [70])])
    for b, n in {"main": 3, "feature": 10, "lonly": 50, "behind": 1, "src": 60, "ahead": 71, "team/b": 60}.items():
        l.ref(f"refs/heads/{b}", n)
    # The remote moves on.
    r.commits([(4, [3]), (12, [2]), (31, [30]), (80, [1])])
    l.sha.update(r.sha)
    for b, n in REMOTE_BRANCHES.items():
        r.ref(f"refs/heads/{b}", n)
    git(r.path, "update-ref", "-d", "refs/heads/dead")
    r.ref("refs/tags/v3", 4)
    for hd in HEADS:
        os.makedirs(f"{path}/{hd}")
        gitw.copy(r.path, f"{path}/{hd}/remote.git")
        gitw.copy(l.path, f"{path}/{hd}/repo")
        git(f"{path}/{hd}/repo", "checkout", "-q", "-f", *(["--detach", l.sha[2]] if hd == "detached" else [hd]))
        git(f"{path}/{hd}/repo", "reflog", "expire", "--expire=now", "--all")
    gitw.remove(r.path)
    gitw.remove(l.path)
    return World(path, l.sha)


class World:
    def __init__(self, path, sha):
        self.path, self.sha = path, sha
        self.num = {s: n for n, s in sha.items()}
        self.local = {}
        for hd in HEADS:
            for n in NAMES:
                for x in (self.text(n), "origin/" + self.text(n)):
                    rc, o = git(f"{path}/{hd}/repo", "rev-parse", "--verify", "-q", x + "^{commit}", ok=False)
                    self.local[hd, x] = self.num[o] if rc == 0 else None

    def text(self, name):
        if name == "<none>":
            return "0123456789" * 4
        if name.startswith("<"):
            n, _, k = name[1:-1].partition(":")
            return self.sha[int(n)][:int(k) if k else 40]
        return name

    def allowed(self, name, head, pull, force):
        """(set of commit numbers that the name may mean, whether an error is allowed)"""
        t = self.text(name)
        loc, org = self.local[head, t], self.local[head, "origin/" + t]
        order = [x for x in ((org, loc) if force else (loc, org)) if x is not None]
        known = {order[0]} if order else set()
        if not pull:
            return known, not known
        if t in REMOTE_BRANCHES:
            return {REMOTE_BRANCHES[t]}, False
        if t in REMOTE_TAGS:
            return {REMOTE_TAGS[t]}, loc is None
        if t in ("HEAD", "@"):
            return (known | {4} if force else {loc}), t == "@"
        for p in ("refs/heads/", "heads/"):
            if t.startswith(p) and t[len(p):] in REMOTE_BRANCHES:
                return known | {REMOTE_BRANCHES[t[len(p):]]}, False
        if name == "<1>":
            return {1}, False
        # The remote does not know it by that name.
        return known, True
