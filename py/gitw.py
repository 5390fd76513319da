"""Git repositories to compare revisions of, and running comparisons in them under observation."""
import os, re, shutil, subprocess
import h, weights as w

FAKEGIT = os.path.join(os.environ.get("MC_TARGET", "/verif/target"), "shim")


def git(dir_, *args, ok=True, env=None, inp=None):
    p = subprocess.run(["/usr/bin/git", "-C", dir_, *args], env=env or h.env(), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if ok and p.returncode:
        raise RuntimeError(f"git {args}: {p.stderr.decode()}")
    return p.stdout.decode().strip() if ok else (p.returncode, p.stdout.decode().strip())


def weight_files(n):
    """The files of commit number n: their values tell the commit."""
    return {"src/w.rs": w.rust_file([w.Fn("f", (n * 1000, n))]), f"src/x{n}.rs": w.rust_file([w.Fn("g", (n * 1000, n))]),
            "src/mod.rs": f"not a weight file {n}\n"}


class Repo:
    """Builds commits with fast-import; commit numbers map to hashes."""

    def __init__(self, path, bare=False):
        self.path, self.sha = path, {}
        os.makedirs(path)
        git(path, "init", "-q", "--template=", "-b", "main", *(["--bare"] if bare else []))
        git(path, "config", "gc.auto", "0")
        git(path, "config", "maintenance.auto", "false")

    def commits(self, defs, files=weight_files):
        """defs: (number, parents); parents may be known numbers."""
        out, marks = [], {}
        for i, (n, parents) in enumerate(defs):
            marks[n] = i + 1
            out.append(f"commit refs/mc/{n}\nmark :{i + 1}\ncommitter a <a@a> {1577836800 + n} +0000\ndata {len(str(n))}\n{n}\n".encode())
            for k, p in enumerate(parents):
                ref = f":{marks[p]}" if p in marks else self.sha[p]
                out.append(f"{'from' if k == 0 else 'merge'} {ref}\n".encode())
            out.append(b"deleteall\n")
            for name, c in files(n).items():
                mode = "100644"
                if isinstance(c, tuple):
                    mode, c = c
                c = c.encode() if isinstance(c, str) else c
                q = '"' + name.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
                out.append(f"M {mode} inline {q}\ndata {len(c)}\n".encode() + c + b"\n")
            out.append(b"\n")
        git(self.path, "fast-import", "--quiet", "--force", "--export-marks=mc-marks", inp=b"".join(out))
        d = git(self.path, "rev-parse", "--git-dir")
        f = os.path.join(self.path, "mc-marks")
        f = f if os.path.exists(f) else os.path.join(self.path, d, "mc-marks")
        by = {int(l.split()[0][1:]): l.split()[1] for l in open(f)}
        os.unlink(f)
        self.sha.update({n: by[m] for n, m in marks.items()})
        for n, _ in defs:
            git(self.path, "update-ref", "-d", f"refs/mc/{n}")

    def ref(self, name, n):
        git(self.path, "update-ref", name, self.sha[n])


def uploadpack():
    """A git-upload-pack that records that the remote was contacted, in $MC_NETLOG."""
    p = h.scratch() + "/uploadpack"
    if not os.path.exists(p):
        with open(p + ".tmp", "w") as f:
            f.write('#!/bin/sh\n[ -n "$MC_NETLOG" ] && echo contact >> "$MC_NETLOG"\nexec git-upload-pack "$@"\n')
        os.chmod(p + ".tmp", 0o755)
        os.rename(p + ".tmp", p)
    return p


def add_origin(path, url="../remote.git"):
    git(path, "config", "remote.origin.url", url)
    git(path, "config", "remote.origin.fetch", "+refs/heads/*:refs/remotes/origin/*")
    git(path, "config", "remote.origin.uploadpack", uploadpack())


def copy(src, dst):
    subprocess.run(["cp", "-a", src, dst], check=True)


def remove(path):
    assert path.startswith(h.scratch() + "/")
    shutil.rmtree(path, ignore_errors=True)


def refs(path, *patterns):
    return dict(reversed(l.split(" ", 1)) for l in git(path, "for-each-ref", "--format=%(objectname) %(refname)", *patterns).splitlines())


def commits_cmd(repo, old, new, pattern="src/*.rs", extra=()):
    return [h.CLI, "compare", "commits", "--format", "csv", "--no-color", "--threshold", "0", "--method", "base", "--repo", repo,
            "--path-pattern", pattern, *extra, "--", old, new]


def observed_env(tag, plan=None, root=None, **kw):
    """Environment in which git is the recording stand-in."""
    e = h.env(**kw)
    e["PATH"] = FAKEGIT + ":" + e["PATH"]
    e["FG_LOG"] = tag + ".git"
    e["FG_ROOT"] = root or h.scratch()
    e["MC_NETLOG"] = tag + ".net"
    if plan:
        e["FG_PLAN"] = plan
    return e


def calls(tag):
    try:
        with open(tag + ".git", errors="surrogateescape") as f:
            return [l.rstrip("\n").split("\x1f") for l in f]
    except FileNotFoundError:
        return []


def contacts(tag):
    try:
        return len(open(tag + ".net").readlines())
    except FileNotFoundError:
        return 0


def rows(out):
    """The rows of a CSV report as a set of (file, function, old, new)."""
    t = h.read_csv(h.ANSI.sub("", out))
    return set() if t is None else {tuple(r[:4]) for r in t[1]}


def expected(a, b):
    """The rows for comparing commit number a with b, as weight_files makes them."""
    ns = lambda n: w.fmt("time", n * 1000)
    r = {("src/w.rs", "f", ns(a), ns(b))}
    if a == b:
        r.add((f"src/x{a}.rs", "g", ns(a), ns(a)))
    else:
        r |= {(f"src/x{a}.rs", "g", ns(a), ""), (f"src/x{b}.rs", "g", "", ns(b))}
    return r
