"""A scheduler for the git commands and file accesses of one running service, and detection of when nothing moves."""
import os, selectors, socket, subprocess, threading, time
import report


def _wchan():
    """Whether one can see where a thread of another process sleeps."""
    p = subprocess.Popen(["sleep", "100"])
    try:
        for _ in range(200):
            with open(f"/proc/{p.pid}/wchan") as f:
                if f.read() not in ("", "0"):
                    return True
            time.sleep(0.002)
    except OSError:
        pass
    finally:
        p.kill()
        p.wait()
    return False


WCHAN = _wchan()


class Item:
    """Something that waits to go on: 'S' a git command before and 'E' after it ran, 'O' a thread before opening a file."""

    def __init__(self, conn, kind, who, what):
        self.conn, self.kind, self.who, self.what = conn, kind, who, what

    def __repr__(self):
        return f"{self.kind} {self.what}"


class Sched:
    def __init__(self, path):
        self.sel = selectors.DefaultSelector()
        self.lis = socket.socket(socket.AF_UNIX)
        self.lis.bind(path)
        self.lis.listen(64)
        self.sel.register(self.lis, selectors.EVENT_READ, None)
        self.pending = []
        self.git = {}       # running git commands: process -> (directory, arguments)
        self.exiting = set()
        self.fds, self.known, self.kids = {}, set(), set()
        self.buf = {}

    def close(self):
        for k in list(self.sel.get_map().values()):
            k.fileobj.close()
        self.sel.close()
        for f in self.fds.values():
            os.close(f)

    def poll(self, timeout=0):
        """Reads what arrived; True if there was anything."""
        any_ = False
        for k, _ in self.sel.select(timeout):
            any_ = True
            if k.fileobj is self.lis:
                c, _ = self.lis.accept()
                self.buf[c] = b""
                self.sel.register(c, selectors.EVENT_READ, None)
                continue
            c = k.fileobj
            try:
                d = c.recv(65536)
            except OSError:
                d = b""
            if not d:
                self.sel.unregister(c)
                c.close()
                self.pending = [i for i in self.pending if i.conn is not c]
                continue
            self.buf[c] += d
            while b"\n" in self.buf[c]:
                l, self.buf[c] = self.buf[c].split(b"\n", 1)
                kind, who, rest = l.decode("utf-8", "surrogateescape").split(" ", 2)
                who = int(who)
                if kind == "S":
                    cwd, *args = rest.split("\x1f")
                    self.git[who] = (cwd, " ".join(args))
                    rest = " ".join(args)
                elif kind == "E":
                    rest = f"{self.git[who][1]} -> {rest}"
                self.pending.append(Item(c, kind, who, rest))
        return any_

    def release(self, item):
        self.pending.remove(item)
        if item.kind == "E":
            del self.git[item.who]
            self.exiting.add(item.who)
        try:
            item.conn.send(b".")
        except OSError:
            pass

    def starting(self, fn):
        """Runs fn, meanwhile letting everything pass."""
        done = threading.Event()

        def go():
            while not done.is_set():
                self.poll(0.002)
                for i in list(self.pending):
                    self.release(i)
        # The service ends with the thread that started it, so fn runs in this one.
        t = threading.Thread(target=go)
        t.start()
        try:
            return fn()
        finally:
            done.set()
            t.join()

    def threads(self, pid):
        """State and number of context switches of every thread."""
        o = {}
        try:
            for t in os.listdir(f"/proc/{pid}/task"):
                if t not in self.fds:
                    self.fds[t] = os.open(f"/proc/{pid}/task/{t}/status", os.O_RDONLY)
                d = os.pread(self.fds[t], 8192, 0)
                i = d.index(b"State:")
                state = chr(d[i + 7])
                if state == "S" and WCHAN:
                    # A thread that was about to sleep but got preempted is still running.
                    with open(f"/proc/{pid}/task/{t}/wchan") as f:
                        if f.read() in ("", "0"):
                            state = "R"
                o[t] = (state, d[d.index(b"voluntary_ctxt"):])
        except (OSError, ValueError):
            return None if not os.path.exists(f"/proc/{pid}") else {"": ("R", b"")}
        return o

    def children(self, pid):
        now = {p for p in os.listdir("/proc") if p.isdigit()}
        for p in now - self.known:
            try:
                with open(f"/proc/{p}/stat") as f:
                    s = f.read()
                if s[s.rindex(")") + 2:].split()[1] == str(pid):
                    self.kids.add(int(p))
            except OSError:
                pass
        self.known = now
        self.kids = {k for k in self.kids if str(k) in now}
        return set(self.kids)

    def still(self, pid, a):
        if not WCHAN:
            time.sleep(0.03)
        return self.threads(pid) == a and not self.poll()

    def settle(self, pid, timeout=60):
        """Waits until nothing of the service moves without a release; False if it ended."""
        end = time.time() + timeout
        while time.time() < end:
            self.poll()
            # Cheap tests first: commands that run or end.
            waiting = {i.who for i in self.pending if i.kind in "SE"}
            if set(self.git) - waiting:
                self.poll(0.005)
                if not os.path.exists(f"/proc/{pid}"):
                    return False
                continue
            self.exiting = {p for p in self.exiting if os.path.exists(f"/proc/{p}")}
            if self.exiting:
                self.poll(0.0005)
                continue
            a = self.threads(pid)
            if a is None or all(s == "Z" for s, _ in a.values()):
                return False
            if all(s == "S" for s, _ in a.values()):
                if self.children(pid) == waiting and not self.poll() and self.still(pid, a):
                    return True
            time.sleep(0.0002)
        raise report.HarnessError(f"does not settle: {a} {self.pending} {self.children(pid)}")
