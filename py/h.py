"""Scratch directories, running the programs, and reading their reports."""
import csv, io, os, re, shutil, subprocess, sys, tempfile, atexit

BIN = os.environ.get("MC_BIN", "/repo/target/debug")
CLI, WEB = f"{BIN}/subweight", f"{BIN}/subweight-web"
_scratch = None
_owner = None


def scratch():
    """The scratch directory of this run; removed when the check ends."""
    global _scratch, _owner
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
        _scratch, _owner = tempfile.mkdtemp(prefix="mc-", dir=base), os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner and "/mc-" in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


def env(**kw):
    """A closed environment for the programs under test and for git."""
    s = scratch()
    e = dict(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME=f"{s}/home", LANG="C.UTF-8",
             LC_ALL="C.UTF-8", GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES="/tmp:/dev/shm:" + s, GIT_TERMINAL_PROMPT="0",
             GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@a", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@a",
             GIT_AUTHOR_DATE="2020-01-01T00:00:00Z", GIT_COMMITTER_DATE="2020-01-01T00:00:00Z", RUST_BACKTRACE="0",
             GIT_OPTIONAL_LOCKS="0", TMPDIR=s)
    os.makedirs(f"{s}/home", exist_ok=True)
    e.update(kw)
    return e


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    @property
    def crashed(self):
        """Ended by a signal or a panic instead of an answer."""
        return self.rc is None or self.rc < 0 or self.rc == 101 or self.rc > 128

    def __repr__(self):
        return f"exit {self.rc}\nstdout:\n{self.out}\nstderr:\n{self.err}"


def run(argv, cwd=None, env_=None, timeout=60):
    try:
        p = subprocess.run(argv, cwd=cwd or scratch(), env=env_ or env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return Run(None, "", "no answer within %d seconds" % timeout)
    d = lambda b: b.decode("utf-8", "surrogateescape")
    return Run(p.returncode, d(p.stdout), d(p.stderr))


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def read_csv(text):
    """(header, rows) or None if there is nothing."""
    rows = [r for r in csv.reader(io.StringIO(text)) if r]
    if not rows or rows == [["No changes found."]]:
        return None
    return rows[0], rows[1:]


def read_table(text, markdown):
    """Cells by the column positions of the header line; in markdown also \\| is a plain character."""
    lines = [l for l in text.splitlines() if l.startswith("|") and not re.match(r"^\|[-|+]+\|$", l)]
    if not lines:
        return None
    rows = []
    for l in lines:
        if markdown:
            cells = re.split(r"(?<!\\)\|", l)
            cells = [c.replace("\\|", "|") for c in cells]
        else:
            cells = l.split(" | ") if False else re.split(r"(?<= )\|(?= )|^\||\|$", l)
        if cells[0].strip() or cells[-1].strip():
            raise ValueError("unfinished row: " + l)
        rows.append([c.strip() for c in cells[1:-1]])
    return rows[0], rows[1:]


SUFFIX = {"K": 10**3, "M": 10**6, "G": 10**9, "T": 10**12}


def eval_equation(s, at):
    """Reads a printed equation with the usual precedence."""
    toks = re.findall(r"\d+(?:\.\d+)?[KMGT]?|[A-Za-z_][A-Za-z0-9_:]*|[()+*]|\S", s)
    py = []
    for t in toks:
        if re.fullmatch(r"[()+*]", t):
            py.append(t)
        elif t[0].isdigit():
            py.append(str(float(t[:-1]) * SUFFIX[t[-1]]) if t[-1] in SUFFIX else t)
        elif re.fullmatch(r"[A-Za-z_][A-Za-z0-9_:]*", t):
            py.append(repr(at[t]))
        else:
            raise ValueError(f"unexpected {t!r} in equation {s!r}")
    return eval(" ".join(py), {"__builtins__": {}})


def sizes(limit, thorough=False):
    """Every small number, and those around powers of two and of ten."""
    v = set(range(1, 131 if thorough else 18))
    for p in [1 << e for e in range(16)] + [20, 50, 80, 100, 200, 500, 1000, 2000, 5000, 10000]:
        v |= {p - 1, p, p + 1}
    return sorted(x for x in v if 0 < x <= limit)


def long_names(n):
    """Names of n characters that differ in one: the first, the last or one in the middle."""
    base = ("c" + "abcdefghij" * (n // 10 + 1))[:n]
    return list(dict.fromkeys([base] + [base[:k] + "z" + base[k + 1:] for k in (n - 1, n // 2, 0)]))
