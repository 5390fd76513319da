"""The web service on the repositories of `world`: one per state of the checkout, named after it."""
import os
import h, gitw, webw, world

PULLS = [None, "true", "false"]
_SITES = {}


class Answer:
    """A response in the terms of the command line."""

    def __init__(self, r):
        self.r, self.rows, self.rc, self.crashed = r, set(), 1, r is None
        if r is not None and r.status == 200:
            self.rc, cells = 0, webw.Page(r.body).cells()
            self.rows = set(cells)
            if len(self.rows) != len(cells):
                raise ValueError("repeated rows")
        elif r is not None and r.status != 500:
            raise ValueError(f"status {r.status}")

    def __repr__(self):
        return repr(self.r)


class Site:
    nonce = 0

    def __init__(self, W, heads=world.HEADS, **kw):
        self.W, self.dir = W, f"{h.scratch()}/ww{os.getpid()}-{len(_SITES)}"
        os.makedirs(self.dir + "/root")
        os.makedirs(self.dir + "/remotes/org")
        for hd in heads:
            self.copy(hd)
        self.srv = webw.Server(self.dir, heads, **kw)

    def repo(self, hd):
        return f"{self.dir}/root/{hd}"

    def remote(self, hd):
        return f"{self.dir}/remotes/org/{hd}.git"

    def copy(self, hd):
        # The template, with its origin where the service wants it.
        t = f"{h.scratch()}/wwt{os.getpid()}-{hd}"
        if not os.path.exists(t):
            gitw.copy(f"{self.W.path}/{hd}/repo", t)
            webw.add_origin(t, "org", hd)
        gitw.copy(t, self.repo(hd))
        if os.path.exists(f"{self.W.path}/{hd}/remote.git"):
            gitw.copy(f"{self.W.path}/{hd}/remote.git", self.remote(hd))

    def reset(self, hd):
        """The repository as it was at first, and forgets what was logged."""
        gitw.remove(self.repo(hd))
        gitw.remove(self.remote(hd))
        self.copy(hd)
        for x in ("log.git", "log.net"):
            if os.path.exists(f"{self.dir}/{x}"):
                os.truncate(f"{self.dir}/{x}", 0)

    def compare(self, hd, old, new, pull, **kw):
        """A comparison that is not cached."""
        Site.nonce += 1
        if not self.srv.alive():
            _SITES.pop(os.getpid(), None)
            raise ValueError("the service has ended")
        a = dict(git_pull=pull, extrinsic=f".|{Site.nonce}")
        a.update(kw)
        return Answer(self.srv.compare(hd, old, new, **a))

    def calls(self):
        return gitw.calls(self.dir + "/log")

    def contacts(self):
        return gitw.contacts(self.dir + "/log")


def site(W, **kw):
    """The one of this process."""
    if os.getpid() not in _SITES:
        _SITES[os.getpid()] = Site(W, **kw)
    return _SITES[os.getpid()]
