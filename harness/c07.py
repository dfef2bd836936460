"""C07: declarative memory keeps every distinct chunk once, with all its times."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "histories of 2 operations (3 for adding and deleting) (adding one chunk, a list of chunks, with one time or a list of times, clearing a retrieval buffer, setting, deleting) on chunks of 1 to 2 slots with arbitrary, empty or missing slots, that may be equal; arbitrary times; memories built from a list or a mapping; copies",
    "thorough": "histories of 3 operations (4 for adding and deleting)",
}
ASSUMPTIONS = []


def COVERS(tier):
    return ["same chunk again", "distinct chunks", "list of times", "list of chunks", "buffer cleared", "copied", "different type, equal"]


class Spec:
    """The specification: a list of [slots, times]."""

    def __init__(self, S):
        self.S, self.rows = S, []

    def find(self, slots):
        S = self.S
        for r in self.rows:
            if S.known(S.And(*[val_eq(S, r[0].get(k), slots.get(k)) for k in sorted(set(r[0]) | set(slots))])):
                return r
        return None

    def add(self, slots, times):
        r = self.find(slots)
        if r is None:
            self.rows.append([slots, list(times)])
            self.S.cover("distinct chunks" if len(self.rows) > 1 else "first")
        else:
            r[1] += list(times)
            self.S.cover("same chunk again")


def compare(S, dm, spec, chunks, what):
    S.check(len(dm) == len(spec.rows), "memory holds each distinct chunk once" + what, lambda: f"{dm} {spec.rows}")
    for c, slots in chunks:
        r = spec.find(slots)
        S.check((c in dm) == (r is not None), "memory holds exactly the chunks put into it" + what)
        if r is not None and c in dm:
            got = list(dm[c])
            S.check(len(got) == len(r[1]), "memory keeps one time for every time the chunk was added" + what, lambda: f"{got} {r[1]}")
            if len(got) == len(r[1]):
                for a, b in zip(got, r[1]):
                    S.check(S.close(a, b), "memory keeps the times a chunk was added" + what, lambda: f"{got} {r[1]}")
    n = 0
    for c in dm:
        n += 1
        slots = {k: raw(v) for k, v in c}
        S.check(spec.find(slots) is not None, "everything in memory was put into it" + what)
    S.check(n == len(spec.rows), "iterating over memory gives every chunk once" + what)


def history(S, n, ops, kinds=("sym",), types=("t",), slots=("a",)):
    A = act()
    m = new_model()
    dm = m.decmem
    prepared(m)
    pool = []
    for i in range(2):
        given, sp = {}, {}
        for s in slots:
            k = S.choice(f"k{i}{s}", kinds)
            sp[s] = None
            if k == "sym":
                given[s] = sp[s] = S.str(f"v{i}{s}", ("None",))
            elif k == "none":
                given[s] = None
        given["zz"] = sp["zz"] = "always"
        t = types[i % len(types)]
        pool.append((A.makechunk("", t, **given), sp))
    if len(types) > 1:
        S.cover("different type, equal")
    spec = Spec(S)
    rb = m.retrieval
    for i in range(n):
        op = S.choice(f"op{i}", ops)
        c, sp = pool[S.choice(f"c{i}", (0, 1))] if op != "chunks" else (None, None)
        t = S.time(f"t{i}", 0, 100)
        if op == "add":
            dm.add(c, t)
            spec.add(sp, [t])
        elif op == "times":
            t2 = S.time(f"u{i}", 0, 100)
            dm.add(c, [t, t2])
            spec.add(sp, [t, t2])
            S.cover("list of times")
        elif op == "chunks":
            dm.add([c for c, _ in pool], t)
            for c, sp in pool:
                spec.add(sp, [t])
            S.cover("list of chunks")
        elif op == "manytimes":
            t2 = S.time(f"u{i}", 0, 100)
            dm.add([c for c, _ in pool], [t, t2])
            for c, sp in pool:
                spec.add(sp, [t, t2])
            S.cover("list of times")
        elif op == "buffer":
            rb.add(c, t)
            rb.clear(t)
            spec.add(sp, [t])
            S.cover("buffer cleared")
        elif op == "set":
            dm[c] = t
            r = spec.find(sp)
            if r is None:
                spec.add(sp, [t])
            else:
                r[1][:] = [t]
        elif op == "del":
            r = spec.find(sp)
            try:
                del dm[c]
                S.check(r is not None, "only a chunk in memory can be deleted")
            except KeyError:
                S.check(r is None, "a chunk in memory can be deleted")
            if r is not None:
                spec.rows.remove(r)
    compare(S, dm, spec, pool, "")
    if S.flag("copy"):
        cp = dm.copy()
        compare(S, cp, spec, pool, " (copy)")
        extra = A.makechunk("", "t", zz="other")
        cp.add(extra, 5)
        cp.add(pool[0][0], 6)
        compare(S, dm, spec, pool, " (after changing a copy)")
        S.cover("copied")


def built(S, how):
    """A memory built from data."""
    A = act()
    a, b = S.str("a"), S.str("b")
    c1, c2 = A.makechunk("", "t", a=a), A.makechunk("", "u", a=b)
    t1, t2 = S.time("t1", 0, 100), S.time("t2", 0, 100)
    spec = Spec(S)
    m = new_model()
    if how == "list":
        dm = m.set_decmem([c1, c2])
        for x in (a, b):
            if spec.find({"a": x}) is None:
                spec.add({"a": x}, [0])
    elif how == "mapping":
        S.assume(S.Not(S.eq(a, b)))
        dm = m.set_decmem({c1: t1, c2: [t1, t2]})
        spec.add({"a": a}, [t1])
        spec.add({"a": b}, [t1, t2])
    S.check(m.decmem is dm, "the model uses the memory it was given")
    compare(S, dm, spec, [(c1, {"a": a}), (c2, {"a": b})], "")
    t3 = S.time("t3", 0, 100)
    dm.add(c2, t3)
    spec.add({"a": b}, [t3])
    compare(S, dm, spec, [(c1, {"a": a}), (c2, {"a": b})], "")


def refused(S):
    """Only chunks can be stored."""
    from pyactr import utilities
    m = new_model()
    m.decmem.add(act().makechunk("", "t", a=S.str("a")), 1)
    try:
        m.decmem["text"] = 1
        S.fail("only chunks can be stored")
    except utilities.ACTRError:
        pass
    S.check(len(m.decmem) == 1, "a refused value is not stored")


def jobs(tier):
    ops = ("add", "times", "chunks", "buffer", "set", "del", "manytimes")
    out = []
    if tier != "thorough":
        out += [Job("c07", "history", dict(n=2, ops=ops), prefix={"op0": i}, weight=2, budget=200) for i in range(len(ops))]
        few = ("add", "times", "del")
        out += [Job("c07", "history", dict(n=3, ops=few), prefix={"op0": i}, weight=3, budget=200) for i in range(len(few))]
        out += [Job("c07", "history", dict(n=2, ops=("add", "buffer"), kinds=("sym", "none", "absent"), types=("t", "u"), slots=("a",)), weight=2)]
    else:
        out += [Job("c07", "history", dict(n=3, ops=ops), prefix={"op0": i}, weight=3, budget=800) for i in range(len(ops))]
        few = ("add", "times", "del")
        out += [Job("c07", "history", dict(n=4, ops=few), prefix={"op0": i, "op1": j}, weight=3, budget=800) for i in range(3) for j in range(3)]
        out += [Job("c07", "history", dict(n=2, ops=("add", "buffer"), kinds=("sym", "none", "absent"), types=("t", "u"), slots=("a", "ab")), weight=4, budget=800)]
    out += [Job("c07", "built", dict(how=h)) for h in ("list", "mapping")] + [Job("c07", "refused")]
    return out
