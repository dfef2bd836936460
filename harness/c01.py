"""C01: chunk identity."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "two or three chunks of up to 3 slots named from {a,b,c,ab}; every slot absent, empty, an arbitrary string (None included) or a one-slot chunk with an arbitrary value; same or different chunk types, inherited and extended chunk types with slot names of which one begins with another; descriptions of 1 or 2 slots that exclude up to 2 arbitrary values, or variables",
    "thorough": "as quick, up to 4 slots and nested chunks of two slots",
}
ASSUMPTIONS = ["slot values are not numbers formatted by the caller (they are turned into strings by the library)"]


def COVERS(tier):
    return ["equal", "different", "equal-different-type", "transitive", "slot-order", "inherited", "descriptions"]


def _slot(S, name, kinds):
    """One slot's value: (present, value given to the library, specification value)."""
    k = S.choice("k_" + name, kinds)
    if k == "absent":
        return False, None
    if k == "none":
        return True, None
    if k == "chunk":
        A = act()
        v = S.str("n_" + name, ("None",))
        return True, A.makechunk("", "inner", x=v)
    if k == "chunk2":
        A = act()
        return True, A.makechunk("", "inner2", x=S.str("n_" + name), y=S.str("m_" + name, ("None",)))
    return True, S.str("v_" + name, ("None",))


def _make(S, tag, slots, kinds, types):
    A = act()
    given = {}
    spec = {}
    for s in slots:
        present, v = _slot(S, f"{tag}_{s}", kinds)
        if present:
            given[s] = v
        spec[s] = v
    t = S.choice("t_" + tag, types)
    return A.makechunk("", t, **given), spec, t


def _spec_eq(S, sa, sb):
    out = []
    for s in sorted(set(sa) | set(sb)):
        out.append(_spec_val_eq(S, sa.get(s), sb.get(s)))
    return S.And(*out)


def _spec_val_eq(S, a, b):
    ca, cb = hasattr(a, "actrchunk"), hasattr(b, "actrchunk")
    if ca and cb:
        da = {k: raw(v) for k, v in a}
        db = {k: raw(v) for k, v in b}
        return S.And(*[_spec_val_eq(S, da.get(k), db.get(k)) for k in sorted(set(da) | set(db))])
    if ca or cb:
        return False
    return val_eq(S, a, b)


def pair(S, slots, kinds, types=("t1", "t2")):
    A = act()
    A.chunktype("t1", " ".join(slots))
    c1, s1, t1 = _make(S, "p", slots, kinds, types)
    c2, s2, t2 = _make(S, "q", slots, kinds, types)
    want = _spec_eq(S, s1, s2)
    got = c1 == c2
    S.check(S.Iff(got, want), "two chunks are equal exactly when their non-empty slots agree")
    S.check(S.Iff(c2 == c1, want), "equality is symmetric")
    S.check(S.Iff(c1 != c2, S.Not(want)), "!= is the negation of ==")
    S.check(S.Iff(c1 <= c2, want) if not _any_empty(S, s1, s2) else True, "a full chunk is part of another only if equal")
    dm = A.ACTRModel().decmem
    dm.add(c1, 1)
    inside = c2 in dm
    S.check(S.Iff(inside, want), "a memory finds a chunk exactly when an equal one was stored")
    if S.known(want):
        S.check(hash(c1) == hash(c2) if not S.symbolic else S.eq(_h(c1), _h(c2)), "equal chunks hash equally")
        S.cover("equal")
        if t1 != t2:
            S.cover("equal-different-type")
    else:
        S.cover("different")


def _h(c):
    return type(c).__hash__(c)


def _any_empty(S, s1, s2):
    for d in (s1, s2):
        for v in d.values():
            if is_none(S, v) is not False:
                return True
    return False


def triple(S, slots, kinds):
    """Equality is an equivalence and does not depend on what was asked before."""
    c1, s1, _ = _make(S, "p", slots, kinds, ("t1",))
    c2, s2, _ = _make(S, "q", slots, kinds, ("t1",))
    c3, s3, _ = _make(S, "r", slots, kinds, ("t2",))
    S.check(c1 == c1, "a chunk equals itself")
    e12, e23, e13 = c1 == c2, c2 == c3, c1 == c3
    if S.known(S.And(e12, e23)):
        S.check(e13, "equality is transitive")
        S.cover("transitive")
    S.check(S.Iff(c1 == c3, _spec_eq(S, s1, s3)), "the answer does not change when asked again")
    S.check(S.Not(S.eq(c1, "text")), "a chunk is not equal to a text")


def order(S):
    """The order in which slots are given and the way a chunk is built do not matter."""
    A = act()
    v = {s: S.str("v_" + s, ("None",)) for s in ("a", "b", "ab")}
    c1 = A.makechunk("", "t1", a=v["a"], b=v["b"], ab=v["ab"])
    c2 = A.makechunk("n", "t2", ab=v["ab"], b=v["b"], a=v["a"])
    A.chunktype("t3", "a, ab, b, z")
    from pyactr import chunks
    c3 = chunks.Chunk("t3", b=v["b"], ab=v["ab"], a=v["a"])
    S.check(c1 == c2, "slot order and chunk name do not matter")
    S.check(c1 == c3, "how a chunk is built does not matter")
    c4 = A.makechunk("", "t1", a=v["b"], b=v["a"], ab=v["ab"])
    S.check(S.Iff(c1 == c4, val_eq(S, v["a"], v["b"])), "values belong to their slots")
    S.cover("slot-order")


def inherit(S, names, own):
    """A chunk type that gets slots from another; slots that a type did not have before."""
    A = act()
    A.chunktype("parent", " ".join(names))
    A.chunktype("child", " ".join(own), include="parent")
    va, vb = ({s: S.str(f"{t}_{s}", ("None",)) for s in names} for t in "pq")
    p, c = A.makechunk("", "parent", **va), A.makechunk("", "child", **vb)
    u = A.makechunk("", "fresh", **dict(reversed(vb.items())))
    want = S.And(*[val_eq(S, va[s], vb[s]) for s in names])
    S.check(S.Iff(p == c, want), "a chunk of an inheriting type equals one of the parent type exactly when the slots agree", lambda: f"{p} {c}")
    S.check(S.Iff(p == u, want), "a chunk of a type made on the fly equals another exactly when the slots agree", lambda: f"{p} {u}")
    w = S.str("more")
    e = A.makechunk("", "parent", **va, extra1=w)
    S.check(S.Iff(e == p, val_eq(S, w, None)), "a chunk of an extended type differs by the new slot", lambda: f"{e} {p}")
    S.check(S.Iff(e == c, S.And(want, val_eq(S, w, None))), "a chunk of an extended type differs by the new slot", lambda: f"{e} {c}")
    S.cover("inherited")


ASKS = {"v": dict(v=1), "n": dict(n=1), "nn": dict(n=2), "x": dict(x="x"), "~x~y": dict(nx=("x", "y")), "~y~x": dict(nx=("y", "x")), "vn": dict(v=1, n=1), "xnn": dict(x="x", n=2), "x~y": dict(x="x", nx=("y",)), "-": {}}


def ask(S, one, two):
    """Descriptions that exclude values: equal when they ask for the same, in whatever order it is written."""
    A = act()
    got, spec = [], []
    for tag, kinds in (("p", one), ("q", two)):
        given, sp = {}, {}
        for s, kind in zip("ab", kinds):
            k = ASKS[kind]
            v = S.str(f"{tag}v{s}") if k.get("v") else None
            n = [S.str(f"{tag}n{i}{s}") for i in range(k.get("n", 0))]
            nx = k.get("nx", ())
            if k:
                given[s] = vv(values=v, variables=k.get("x"), negvalues=tuple(n), negvariables=nx)
            sp[s] = (v, k.get("x"), n, set(nx))
        got.append(A.makechunk("", "t" + tag, **given))
        spec.append(sp)
    conds = []
    for s in "ab":
        (v, x, n, nx), (w, y, o, oy) = (sp.get(s, (None, None, [], set())) for sp in spec)
        conds.append(x == y and nx == oy and val_eq(S, v, w))
        conds.append(S.And(*[S.Or(*[S.eq(i, j) for j in o]) for i in n], *[S.Or(*[S.eq(i, j) for i in n]) for j in o]))
    want = S.And(*conds)
    S.check(S.Iff(got[0] == got[1], want), "two descriptions are equal exactly when they require and exclude the same", lambda: f"{got}")
    S.cover("descriptions")


def jobs(tier):
    k3 = ("absent", "none", "sym")
    out = [Job("c01", "pair", dict(slots=("a", "b"), kinds=k3)),
           Job("c01", "pair", dict(slots=("a", "ab"), kinds=("sym", "chunk", "absent"))),
           Job("c01", "order")]
    out += [Job("c01", "inherit", dict(names=n, own=o)) for n, o in ((("arg", "arg1"), ("arg1",)), (("arg", "argA"), ()), (("a", "a_b"), ("z",)), (("slot", "slots"), ("slots", "a")))]
    for i in range(2):
        for j in range(2):
            out.append(Job("c01", "pair", dict(slots=("a", "b", "c"), kinds=("absent", "sym"), types=("t1",)),
                           prefix={"k_p_a": i, "k_q_a": j}))
    for i in range(2):
        out.append(Job("c01", "triple", dict(slots=("a", "b"), kinds=("absent", "sym")), prefix={"k_p_a": i}))
    out += [Job("c01", "ask", dict(one=a, two=b)) for a, b in ((("n",), ("n",)), (("nn",), ("nn",)), (("nn",), ("n",)), (("vn",), ("vn",)), (("vn",), ("v",)), (("n",), ("-",)), (("~x~y",), ("~y~x",)), (("xnn",), ("xnn",)),
                                                                (("x~y",), ("x",)), (("n", "v"), ("n", "v")), (("n", "-"), ("-", "n")), (("v", "n"), ("v", "-")))]
    if tier == "thorough":
        out += [Job("c01", "ask", dict(one=(a, "v"), two=(b, "v"))) for a in ASKS for b in ASKS]
        for i in range(3):
            for j in range(3):
                out.append(Job("c01", "pair", dict(slots=("a", "b", "c"), kinds=k3), prefix={"k_p_a": i, "k_q_a": j}, budget=700))
                out.append(Job("c01", "pair", dict(slots=("a", "b"), kinds=("sym", "chunk", "chunk2")), prefix={"k_p_a": i, "k_q_a": j}, budget=700))
        for i in range(2):
            for j in range(2):
                out.append(Job("c01", "pair", dict(slots=("a", "b", "c", "d"), kinds=("absent", "sym"), types=("t1",)),
                               prefix={"k_p_a": i, "k_q_a": j}, budget=700))
                out.append(Job("c01", "triple", dict(slots=("a", "b", "c"), kinds=("absent", "sym")),
                               prefix={"k_p_a": i, "k_q_a": j}, budget=700))
    return out
