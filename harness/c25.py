"""C25: looking at a model and copying its parts changes nothing."""

from .common import *  # noqa: F403
from .c24 import KINDS, Kind, compare

BOUNDS = {
    "quick": "the models of C24 (goals with a delay, retrieval with learned activation, failing retrieval, utility learning, key presses, visual search and shifts, screens) with arbitrary delays and values, looked at before every step in five ways: printed, read, compared, copied with the copies changed afterwards, rules read; memories and goals copied with arbitrary chunks and times",
    "thorough": "the same with arbitrary positions of the stimuli",
}
ASSUMPTIONS = ["looking means the public ways to read: repr, str, len, in, iteration, indexing, show, ==, <=, hash, copy"]
WAYS = ("print", "read", "compare", "copy", "rules")


def COVERS(tier):
    return [*WAYS, "a copy of a memory", "a copy of a goal", "spreading in a copy"]


def parts(m, k):
    return [b for b in [m.decmem, m.retrieval, *m.goals.values(), *(m.visbuffers.values() if k.env else ())] if b is not None]


def look(S, m, k, way):
    import contextlib
    import io
    A = act()
    if way == "print":
        with contextlib.redirect_stdout(io.StringIO()):
            for b in parts(m, k):
                repr(b), str(b)
                for c in b:
                    repr(c), str(c)
                if hasattr(b, "show"):
                    for a in ("k", "a", "state"):
                        try:
                            b.show(a)
                        except AttributeError:
                            pass
            repr(m.productions), repr(m.model_parameters)
            if k.env:
                repr(k.env), repr(k.env.stimulus)
    elif way == "read":
        for b in parts(m, k):
            len(b), bool(b), list(b)
            for c in b:
                c in b, len(c), list(c), c._asdict(), hash(c)
                list(c.removeunused())
                for slot, v in c:
                    getattr(c, slot)
        list(m.decmem.items()), list(m.decmem.keys()), list(m.decmem.values())
        for c in m.decmem:
            m.decmem[c], m.decmem.get(c)
        for b in (m.retrieval, *m.goals.values()):
            for q in ("busy", "free", "error"):
                b.test("state", q)
    elif way == "compare":
        for b in parts(m, k):
            for c in list(b):
                p = A.makechunk("", c.typename, **{slot: vv(variables="v" + slot) for slot, _ in c})
                c == p, c <= p, p <= c, c < p, c == c, c <= c
                for other in parts(m, k):
                    p in other, c in other
                    for d in list(other):
                        c == d, c <= d
    elif way == "copy":
        for b in parts(m, k):
            if hasattr(b, "copy"):
                n = b.copy()
                for c in list(n):
                    try:
                        n.pop(c) if b is m.decmem else n.pop()
                    except KeyError:
                        pass
                n.add(A.makechunk("", "other", z="1"), *(() if b is not m.decmem else (3,)))
    elif way == "rules":
        for n in m.productions:
            n in m.productions, m.productions[n]["utility"]
            p = m.productions[n]["rule"]()
            for half in p:
                for key in half:
                    repr(half[key])
        len(m.productions)
    S.cover(way)


def watched(S, kind, way):
    k = Kind(S, kind, fixed=True)
    m = k.build()
    ev0 = trace(prepared(m, **k.sim_args), 100)
    want = k.state(m, 0)
    m = k.build()
    sim = prepared(m, **k.sim_args)
    look(S, m, k, way)

    def every(es):
        look(S, m, k, way)
        return False
    ev = trace(sim, 100, stop=every)
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time)) for x, y in zip(ev, ev0)]), "a model that is looked at has the same events", lambda: f"{ev0} {ev}")
    compare(S, "a model that is looked at", k.state(m, 0), want)


def times(S, dm, c):
    return [t for x, ts in dm.items() if S.known(slots_eq(S, {a: raw(v) for a, v in x}, c)) for t in ts]


def same_times(S, a, b):
    return len(a) == len(b) and S.And(*[S.eq(x, y) for x, y in zip(a, b)])


def memory(S, change):
    """A copy of a memory has what the memory had, and lives on its own."""
    A = act()
    import pyactr.declarative as D
    dm = D.DecMem()
    cs = [{"a": S.str(f"a{i}", ["None"]), "b": S.str(f"b{i}", ["None"])} for i in range(3)]
    S.assume(S.And(*[S.Not(S.eq(x[a], "None")) for x in cs for a in "ab"]))
    ts = [S.time(f"t{i}", 0, 10, exact=True) for i in range(4)]
    mk = lambda c: A.makechunk("", "t", **c)  # noqa: E731
    dm.add(mk(cs[0]), ts[0])
    dm.add(mk(cs[1]), [ts[1], ts[2]])
    level = S.real("level", -5, 5)
    dm.activations[next(iter(dm))] = level
    before = [(c, times(S, dm, c)) for c in cs]
    new = dm.copy()
    first, second = (dm, new) if change.startswith("original") else (new, dm)
    if change.endswith("add"):
        first.add(mk(cs[2]), ts[3])
    elif change.endswith("pop"):
        first.pop(mk(cs[0]))
    elif change.endswith("level"):
        first.add_activation(mk(cs[0]), 7)
    else:
        first.update({mk(cs[1]): ts[3]})
    txt = lambda: f"{cs} {ts} {dm} {new}"  # noqa: E731
    S.check(S.And(*[same_times(S, times(S, second, c), t) for c, t in before]), "a memory and its copy live on their own", txt)
    S.check(S.And(*[S.eq(v, level) for v in second.activations.values()]) and len(second.activations) == 1, "a copied memory has the activations of the memory", txt)
    if change.endswith("add"):
        S.check(same_times(S, times(S, first, cs[2]), before[2][1] + [ts[3]]), "a copied memory can be added to", txt)
    S.cover("a copy of a memory")


def spreads(S, change, restricted):
    """What spreads to the chunks of a memory does not depend on changes of its copy."""
    A = act()
    m = new_model(subsymbolic=True, baselevel_learning=False, retrieval_threshold=-100, strength_of_association=S.real("S", 0, 5), spreading_activation_restricted=restricted, buffer_spreading_activation={"g": S.real("W", 0, 5)})
    j = A.makechunk("", "j", k=S.str("j"))
    b = m.set_goal("g")
    b.add(A.makechunk("", "g", s=j))
    mk = lambda i, **kw: A.makechunk("", "t", id=f"id{i}", **kw)  # noqa: E731
    o = A.makechunk("", "j", k=S.str("o"))
    rows = [mk(0, s=j), mk(1, s=o), mk(2, t=j)]
    for c in rows:
        m.decmem.add(c, 0)
    prepared(m)
    bufs = dict(m.goals)

    def ask(dm, c):
        m.retrieval.dm = dm
        got, _x = retrieve(m, 1, c, buffers=bufs)
        return m.retrieval.activation if got is not None else None
    before = [ask(m.decmem, c) for c in rows]
    new = m.decmem.copy()
    first, second = (m.decmem, new) if change.startswith("original") else (new, m.decmem)
    if change.endswith("add"):
        first.add(mk(3, s=j, t=j), 0)
    else:
        first.pop(rows[0])
    txt = lambda: f"{before} {m.decmem} {new}"  # noqa: E731
    for i, c in enumerate(rows):
        a = ask(second, c)
        S.check(a is not None and S.close(a, before[i]), "what spreads in a memory does not depend on its copy", lambda i=i, a=a: f"{i} {a} {txt()}")
    S.cover("spreading in a copy")


def goal(S, change, imaginal=False):
    """A copy of a goal buffer."""
    import pyactr.declarative as D
    import pyactr.goals as G
    A = act()
    dm, dm2 = D.DecMem(), D.DecMem()
    g = G.Goal(default_harvest=dm)
    a, b, t = S.str("a"), S.str("b"), S.time("t", 0, 10, exact=True)
    own = S.flag("own")
    g.add(A.makechunk("", "t", a=a))
    new = g.copy(dm2) if own else g.copy()
    S.check(val_eq(S, held(new)["a"], a), "a copied goal holds what the goal held", lambda: f"{g} {new}")
    first, second, target = (g, new, dm) if change.startswith("original") else (new, g, dm2 if own else dm)
    first.add(A.makechunk("", "t", a=b), t) if change.endswith("add") else first.clear(t) if change.endswith("clear") else first.modify(A.makechunk("", "t", a=b))
    S.check(val_eq(S, held(second)["a"], a) and len(second) == 1, "a goal and its copy live on their own", lambda: f"{g} {new}")
    if not change.endswith("clear"):
        S.check(val_eq(S, held(first)["a"], b), "a copied goal can be changed", lambda: f"{g} {new}")
    else:
        S.check(len(target) == 1 and same_times(S, times(S, target, {"a": a}), [t]) and len(dm) + len(dm2) == 1, "a copied goal is cleared into its own memory", lambda: f"{g} {new} {dm} {dm2}")
    S.cover("a copy of a goal")


def jobs(tier):
    J = lambda h, **p: Job("c25", h, p)  # noqa: E731
    out = [J("watched", kind=k, way=w) for k in KINDS for w in WAYS]
    out += [J("memory", change=f"{w} {x}") for w in ("original", "copy") for x in ("add", "pop", "level", "update")]
    out += [J("spreads", change=f"{w} {x}", restricted=r) for w in ("original", "copy") for x in ("add", "pop") for r in (False, True)]
    out += [J("goal", change=f"{w} {x}") for w in ("original", "copy") for x in ("add", "clear", "modify")]
    return out
