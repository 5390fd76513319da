"""Reference model of weight functions, their comparison, filtering and printing; writes them as Rust."""
import math
from dataclasses import dataclass, field

READ, WRITE = 25_000_000, 100_000_000
METHODS = ["base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic"]
UNITS = ["time", "proof"]
KINDS = ["unchanged", "added", "removed", "changed"]


@dataclass(frozen=True)
class Fn:
    """base + sum(coefficient * component) + reads + writes; every pair is (time, proof)."""
    name: str
    base: tuple
    comps: tuple = ()   # ((component, (time, proof)), ...), coefficients above 0
    reads: int = 0
    writes: int = 0
    ranges: tuple = ()  # ((component, low, high), ...)

    def rust(self):
        o = "".join(f"\t/// The range of component `{c}` is `[{l}, {h}]`.\n" for c, l, h in self.ranges)
        args = "".join(f"{c}: u32, " for c, _ in self.comps)
        o += f"\tfn {self.name}({args}) -> Weight {{\n\t\tWeight::from_parts({self.base[0]}, {self.base[1]})\n"
        for c, (t, p) in self.comps:
            o += f"\t\t\t.saturating_add(Weight::from_parts({t}, {p}).saturating_mul({c}.into()))\n"
        if self.reads:
            o += f"\t\t\t.saturating_add(T::DbWeight::get().reads({self.reads}_u64))\n"
        if self.writes:
            o += f"\t\t\t.saturating_add(T::DbWeight::get().writes({self.writes}_u64))\n"
        return o + "\t}\n"

    def value(self, unit, at):
        u = UNITS.index(unit)
        v = self.base[u] + sum(k[u] * at[c] for c, k in self.comps)
        return v + (self.reads * READ + self.writes * WRITE if u == 0 else 0)

    def term(self, unit):
        """Two functions with the same term have the same expression in this unit."""
        u = UNITS.index(unit)
        return (self.base[u], tuple((c, k[u]) for c, k in self.comps), self.reads, self.writes)


def rust_file(fns):
    return "pub struct SubstrateWeight<T>(PhantomData<T>);\nimpl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {\n" + \
        "".join(f.rust() for f in fns) + "}\n"


@dataclass
class Entry:
    file: str
    name: str
    kind: str               # one of KINDS or "failed"
    old: object = None
    new: object = None
    percent: float = 0.0
    scopes: list = field(default_factory=list)  # assignments that attain it
    error: str = None
    warning: tuple = None   # (count, "READ" or "WRITE")
    old_fn: object = None
    new_fn: object = None


def percent(old, new):
    if old == 0 and new == 0:
        return 0.0
    return 100.0 * (float(new) / float(old) if old else math.inf) - 100.0


def compare_fn(file, old, new, method, unit):
    e = Entry(file, (new or old).name, "changed", old_fn=old, new_fn=new)
    comps = sorted({c for f in (old, new) if f for c, _ in f.comps})
    exact = method.startswith("exact")
    lows, highs = [], []
    for c in comps:
        rs = {(l, h) for f in (old, new) if f for n, l, h in f.ranges if n == c}
        if exact and len(rs) != 1:
            e.kind, e.error = "failed", c
            return e
        lo, hi = (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else (0, 100)
        if method == "base":
            hi = lo
        if method.endswith("asymptotic"):
            lo = hi
        lows.append(lo)
        highs.append(hi)
    best = None
    for i in range(1 << len(comps)):
        at = {c: (highs if i >> k & 1 else lows)[k] for k, c in enumerate(comps)}
        o = old.value(unit, at) if old else None
        n = new.value(unit, at) if new else None
        p = percent(o or 0, n or 0)
        if best is None or int_pm(p) > int_pm(best[0]):
            best = (p, o, n)
        e.scopes.append((at, o, n, p))
    e.percent, e.old, e.new = best
    if old is None:
        e.kind = "added"
    elif new is None:
        e.kind = "removed"
    elif old.term(unit) == new.term(unit):
        e.kind = "unchanged"
    f = new or old
    m = max(f.reads, f.writes)
    if m > 1000:
        e.warning = (m, "READ" if f.reads > f.writes else "WRITE")
    return e


def int_pm(p):
    return math.inf if p == math.inf else -math.inf if p == -math.inf else int(p * 1000)


def compare(old, new, method, unit, file_ok=lambda f: True, name_ok=lambda n: True):
    """old and new map file names to lists of functions."""
    keys = sorted({(f, fn.name) for s in (old, new) for f, fns in s.items() for fn in fns})
    pick = lambda s, f, n: next((x for x in s.get(f, ()) if x.name == n), None)
    return [compare_fn(f, pick(old, f, n), pick(new, f, n), method, unit)
            for f, n in keys if file_ok(f) and name_ok(n)]


def keep(e, threshold, kinds):
    if e.kind == "failed":
        return True
    if kinds is not None and e.kind not in kinds:
        return False
    if e.kind == "changed":
        return abs(e.percent) >= threshold
    return e.kind != "unchanged" or threshold == 0


def fmt(unit, v):
    if v is None:
        return ""
    if unit == "time":
        for d, s in ((10**12, "s"), (10**9, "ms"), (10**6, "us"), (10**3, "ns")):
            if v >= d:
                return f"{v / d:.2f}{s}"
        return f"{v}ps"
    for d, s in ((1 << 30, "GiB"), (1 << 20, "MiB"), (1 << 10, "KiB")):
        if v >= d:
            return f"{v / d:.2f}{s}"
    return f"{v}B"


def possible(e):
    """The (old, new, percent) triples that a correct comparison may report for the entry."""
    best = max(int_pm(p) for _, _, _, p in e.scopes)
    if e.kind in ("added", "removed"):
        return [(o, n, p) for _, o, n, p in e.scopes]
    return [(o, n, p) for _, o, n, p in e.scopes if int_pm(p) == best]
