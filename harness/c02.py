"""C02: matching a pattern against a chunk."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "patterns of 1 to 3 slots, each slot any combination of one value, one variable, up to 2 excluded values and up to 2 excluded variables from {x, xx}; chunks with the same slots, each absent, empty or an arbitrary string; variables unbound, bound to an arbitrary value or to an empty slot, or excluded from an arbitrary value beforehand; the same pattern used twice with other bindings; values that are chunks themselves",
    "thorough": "as quick with more slot combinations in three-slot patterns",
}
ASSUMPTIONS = ["pattern and chunk values are strings or empty (nested chunk values are covered by C01)", "a slot that asks for a value and a variable does not ask for the text None as its value",
               "a variable is never both bound to and excluded from one value beforehand (no match produces that)"]

# what a pattern slot may ask for
KINDS = {
    "-": {},
    "v": dict(v=1),
    "x": dict(x="x"),
    "xx": dict(x="xx"),
    "n": dict(n=1),
    "nn": dict(n=2),
    "~x": dict(nx=("x",)),
    "~xx": dict(nx=("xx",)),
    "~x~xx": dict(nx=("x", "xx")),
    "v~x": dict(v=1, nx=("x",)),
    "vx": dict(v=1, x="x"),
    "x~xx": dict(x="x", nx=("xx",)),
    "xn": dict(x="x", n=1),
    "xxn": dict(x="xx", n=1),
    "vn": dict(v=1, n=1),
    "all": dict(v=1, x="x", n=1, nx=("xx",)),
}


def COVERS(tier):
    return ["match", "no match", "bound-match", "excluded", "empty-bound", "new-binding", "match-lt", "again", "nested"]


def build(S, pat):
    """The pattern as given to the library and as a list of requirements."""
    A = act()
    given, spec = {}, {}
    for s, kind in pat.items():
        k = KINDS[kind]
        if not k:
            continue
        v = S.str("pv_" + s, () if k.get("x") else ("None",)) if k.get("v") else None
        n = tuple(S.str(f"pn{i}_{s}", ("None",)) for i in range(k.get("n", 0)))
        nx = k.get("nx", ())
        x = k.get("x")
        given[s] = vv(values=v, variables=x, negvalues=n, negvariables=nx)
        spec[s] = (v, x, n, nx)
    return A.makechunk("", "pat", **given), spec


def target(S, slots, kinds):
    A = act()
    given, spec = {}, {}
    for s in slots:
        k = S.choice("tk_" + s, kinds)
        spec[s] = None
        if k == "sym":
            spec[s] = given[s] = S.str("tv_" + s, ("None",))
        elif k == "none":
            given[s] = None
    return A.makechunk("", "tgt", **given), spec


def want_match(S, spec, tgt, bound, excl):
    """The specification: one value per variable satisfies every requirement."""
    val = dict(bound)
    conds = []
    for s in sorted(spec):
        v, x, n, nx = spec[s]
        t = tgt.get(s)
        if v is not None:
            conds.append(val_eq(S, v, t))
        for nv in n:
            conds.append(S.Not(val_eq(S, nv, t)))
        if x is not None:
            if x in val:
                conds.append(val_eq(S, val[x], t))
            else:
                val[x] = t
    for s in sorted(spec):
        v, x, n, nx = spec[s]
        t = tgt.get(s)
        for y in nx:
            if y in val:
                conds.append(S.Not(val_eq(S, val[y], t)))
        if x is not None and x in excl:
            conds.append(S.Not(val_eq(S, excl[x], t)))
    return S.And(*conds), val


def matching(S, pat, tkinds=("sym",), bkinds=("unbound", "sym"), xkinds=("no",)):
    slots = sorted(pat)
    p, spec = build(S, pat)
    t, tgt = target(S, slots, tkinds)
    bound, excl = {}, {}
    used = sorted({x for v, x, n, nx in spec.values() if x} | {y for v, x, n, nx in spec.values() for y in nx})
    for x in used:
        k = S.choice("bk_" + x, bkinds)
        if k == "sym":
            bound[x] = S.str("b_" + x)
        elif k == "empty":
            bound[x] = None
        if S.choice("xk_" + x, xkinds) == "sym":
            excl[x] = S.str("e_" + x)
            if x in bound:
                S.assume(S.Not(val_eq(S, bound[x], excl[x])))
    bv = {}
    for x, v in bound.items():
        bv["=" + x] = "None" if v is None else v
    for x, v in excl.items():
        bv["~=" + x] = {v}
    p.boundvars = bv
    before = dict(bv)
    want, val = want_match(S, spec, tgt, bound, excl)
    got = p <= t
    S.check(S.Iff(got, want), "a pattern matches exactly when one consistent binding satisfies all its requirements",
            lambda: f"pattern {p} chunk {t} bound {bv}")
    if bool(got):
        S.cover("match")
        if bound:
            S.cover("bound-match")
        for x in sorted(val):
            if x in bound:
                S.check(val_eq(S, p.boundvars.get("=" + x), bound[x]), "a match keeps the bindings it was given")
            else:
                S.check("=" + x in p.boundvars, "a match records every variable it binds")
                S.check(val_eq(S, p.boundvars.get("=" + x), val[x]), "a variable is bound to the value of its slot")
                S.cover("new-binding")
                if S.known(is_none(S, val[x])):
                    S.cover("empty-bound")
    else:
        S.cover("no match")
    if excl:
        S.cover("excluded")


def strict(S, pat):
    """pattern < chunk: part of it and not the same."""
    slots = sorted(pat)
    p, spec = build(S, pat)
    t, tgt = target(S, slots + ["z"], ("sym", "absent"))
    want, val = want_match(S, spec, tgt, {}, {})
    same = p == t
    S.check(S.Iff(p < t, S.And(want, S.Not(same))), "a proper part matches and differs")
    S.cover("match-lt")


def again(S, pat, bkinds):
    """The same pattern is used again with other bindings and another chunk."""
    p, spec = build(S, pat)
    A = act()
    used = sorted({x for v, x, n, nx in spec.values() if x} | {y for v, x, n, nx in spec.values() for y in nx})
    for i in range(2):
        tgt = {s: S.str(f"t{i}_{s}", ("None",)) for s in pat}
        t = A.makechunk("", "tgt", **tgt)
        bound = {}
        for x in used:
            if S.choice(f"bk{i}_{x}", bkinds) == "sym":
                bound[x] = S.str(f"b{i}_{x}")
        p.boundvars = {"=" + x: v for x, v in bound.items()}
        want, _val = want_match(S, spec, tgt, bound, {})
        S.check(S.Iff(p <= t, want), "a pattern that was used before matches exactly when one consistent binding satisfies all its requirements", lambda: f"pattern {p} chunk {t} bound {bound}")
    S.cover("again")


def nested(S, pat, bkinds):
    """All values are chunks (of one slot each)."""
    A = act()

    def inner(v, t="inn"):
        return A.makechunk("", t, k=v)

    given, spec, tgt, have = {}, {}, {}, {}
    for s, kind in pat.items():
        k = KINDS[kind]
        v = S.str("pv_" + s) if k.get("v") else None
        n = tuple(S.str(f"pn{i}_{s}") for i in range(k.get("n", 0)))
        given[s] = vv(values=None if v is None else inner(v, "jnn"), variables=k.get("x"), negvalues=tuple(inner(x, "jnn") for x in n), negvariables=k.get("nx", ()))
        spec[s] = (v, k.get("x"), n, k.get("nx", ()))
        tgt[s] = S.str("tv_" + s)
        have[s] = inner(tgt[s])
    used = sorted({x for v, x, n, nx in spec.values() if x} | {y for v, x, n, nx in spec.values() for y in nx})
    bound = {x: S.str("b_" + x) for x in used if S.choice("bk_" + x, bkinds) == "sym"}
    p, t = A.makechunk("", "pat", **given), A.makechunk("", "tgt", **have)
    p.boundvars = {"=" + x: inner(v) for x, v in bound.items()}
    want, val = want_match(S, spec, tgt, bound, {})
    got = p <= t
    S.check(S.Iff(got, want), "a pattern of chunks matches exactly when one consistent binding satisfies all its requirements", lambda: f"pattern {p} chunk {t} bound {bound}")
    if bool(got):
        S.cover("nested")
        for x in val:
            b = p.boundvars.get("=" + x)
            S.check(b is not None and not isinstance(b, str) and val_eq(S, raw(dict(b)["k"]), val[x]), "a variable is bound to the chunk of its slot", lambda b=b: f"{b}")


def jobs(tier):
    J = lambda pat, **kw: Job("c02", "matching", dict(pat=pat, **kw), weight=len(pat))  # noqa: E731
    full = dict(tkinds=("sym", "none", "absent"), bkinds=("unbound", "sym", "empty"), xkinds=("no", "sym"))
    out = []
    for k in KINDS:
        if k != "-":
            out.append(J({"a": k}, **full))
    two = [("x", "x"), ("x", "xx"), ("xx", "xx"), ("x", "~x"), ("~x", "x"), ("xx", "~x~xx"), ("~x~xx", "x"), ("v", "x"), ("x~xx", "xx"), ("xx", "x~xx"),
           ("n", "~x"), ("v", "v"), ("vx", "xn"), ("~xx", "xxn"), ("vn", "v~x"), ("all", "xx"), ("xx", "all"), ("~x", "~x"), ("nn", "v"), ("xn", "xn")]
    for a, b in two:
        out.append(J({"a": a, "b": b}, tkinds=("sym", "absent"), bkinds=("unbound", "sym"), xkinds=("no",)))
    three = [("x", "x", "x"), ("x", "xx", "~x"), ("~x", "xx", "x"), ("xx", "~xx", "x"), ("x", "v", "~x"), ("~x", "~xx", "x"), ("x", "x", "~x"), ("v", "n", "~x")]
    for a, b, c in three:
        out.append(J({"a": a, "b": b, "c": c}, tkinds=("sym",), bkinds=("unbound", "sym")))
    for pat in ({"a": "v"}, {"a": "v", "b": "v"}, {"a": "x", "b": "v"}):
        out.append(Job("c02", "strict", dict(pat=pat)))
    out += [Job("c02", "again", dict(pat=q, bkinds=("unbound", "sym"))) for q in ({"a": "x", "b": "v"}, {"a": "x", "b": "xx"}, {"a": "~x", "b": "x"})]
    out += [Job("c02", "nested", dict(pat=q, bkinds=("unbound", "sym"))) for q in ({"a": "x", "b": "x"}, {"a": "v", "b": "~x"}, {"a": "x", "b": "~x"}, {"a": "~x", "b": "x"}, {"a": "vx", "b": "n"}, {"a": "xn", "b": "x~xx"})]
    if tier == "thorough":
        ks = [k for k in KINDS if k not in ("-", "nn")]
        for a in ks:
            for b in ks:
                out.append(J({"a": a, "b": b}, tkinds=("sym", "none"), bkinds=("unbound", "sym"), xkinds=("no", "sym")))
        for a in ("x", "xx", "~x", "x~xx", "v"):
            for b in ("x", "xx", "~xx", "n"):
                for c in ("x", "~x", "xx", "~x~xx"):
                    out.append(J({"a": a, "b": b, "c": c}, tkinds=("sym", "absent"), bkinds=("unbound", "sym")))
    return out
