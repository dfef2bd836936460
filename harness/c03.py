"""C03: partial matching and similarities."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "requests of 1 to 3 slots (a required value, an excluded value, a bound variable, or both), one memory chunk with arbitrary, empty or missing slots, 1 or 2 declared similarities between arbitrary values with arbitrary non-positive numbers (possibly declared twice or in the other direction), arbitrary mismatch penalty",
    "thorough": "as quick with up to 3 declarations and all slot combinations",
}
ASSUMPTIONS = ["activation is observed through the retrieval buffer with base-level learning, spreading and noise switched off, so it is the partial-matching term alone"]


def COVERS(tier):
    return ["full match", "mismatch", "declared", "undeclared", "positive rejected", "excluded"]


def declared(S, sims, a, b, penalty):
    """Similarity of a and b: the last declaration in either direction, or minus the penalty."""
    out = penalty * -1
    for x, y, v in sims:
        hit = S.Or(S.And(S.eq(x, a), S.eq(y, b)), S.And(S.eq(x, b), S.eq(y, a)))
        out = S.If(hit, v, out)
    return out


def similarity(S, pat, nsim, tkinds=("sym",)):
    A = act()
    m = new_model(subsymbolic=True, partial_matching=True, baselevel_learning=False, retrieval_threshold=-1000000)
    sims = []
    for i in range(nsim):
        x, y = S.str(f"x{i}"), S.str(f"y{i}")
        v = S.real(f"s{i}", hi=0, lo=-50)
        m.set_similarities(x, y, v)
        sims.append((x, y, v))
    pen = S.real("penalty", 0, 50)
    tgt, given = {}, {}
    for s in sorted(pat):
        k = S.choice("tk_" + s, tkinds)
        tgt[s] = None
        if k == "sym":
            tgt[s] = given[s] = S.str("tv_" + s, ("None",))
        elif k == "none":
            given[s] = None
    given["zz"] = tgt["zz"] = "always"
    mem = A.makechunk("", "tgt", **given)
    req, spec, variables = {}, {}, {}
    for s, kind in sorted(pat.items()):
        v = n = None
        if "v" in kind:
            v = S.str("pv_" + s)
            req[s] = vv(values=v)
        if "x" in kind:
            v = S.str("px_" + s)
            variables["=x" + s] = v
            req[s] = vv(variables="x" + s)
        if "n" in kind:
            n = S.str("pn_" + s)
            req[s] = vv(values=req[s].values if s in req else None, variables=req[s].variables if s in req else None, negvalues=(n,))
        spec[s] = (v, n)
    request = A.makechunk("", "req", **req)
    m.decmem.add(mem, 0)
    prepared(m)
    got, extra = retrieve(m, 1, request, variables, mismatch_penalty=pen)
    want = 0
    for s in sorted(spec):
        v, n = spec[s]
        t = tgt.get(s)
        empty = is_none(S, t)
        if v is not None:
            ok = val_eq(S, v, t)
            if S.known(ok):
                pass
            elif empty is True or S.known(empty):
                # an empty slot has no declared similarity to anything
                want = want + pen * -1
                S.cover("undeclared")
            else:
                want = want + declared(S, sims, v, t, pen)
                S.cover("mismatch")
                if sims and S.known(S.Or(S.And(S.eq(sims[0][0], t), S.eq(sims[0][1], v)))):
                    S.cover("declared")
        if n is not None and empty is not True:
            if S.known(S.And(S.Not(empty), val_eq(S, n, t))):
                want = want + declared(S, sims, n, t, pen)
                S.cover("excluded")
    S.check(got is mem or got == mem, "partial matching still considers a chunk that does not fully match")
    S.check(S.close(m.retrieval.activation, want), "the partial-matching term is the sum of the declared similarities, or minus the mismatch penalty, of the violated requirements",
            lambda: f"request {request} memory {mem} got {m.retrieval.activation} want {want}")
    if not S.symbolic and want == 0 or isinstance(want, int) and want == 0:
        S.cover("full match")


def rejection(S):
    """Declared similarities must not be positive, and a refused declaration changes nothing."""
    A = act()
    from pyactr import utilities
    m = new_model(subsymbolic=True, partial_matching=True, baselevel_learning=False, retrieval_threshold=-1000000)
    a, b = S.str("a"), S.str("b")
    v = S.real("v", -5, 5)
    refused = False
    try:
        m.set_similarities(a, b, v)
    except utilities.ACTRError:
        refused = True
    S.check(S.Iff(refused, v > 0), "exactly the positive similarities are refused")
    m.decmem.add(A.makechunk("", "t", p=a, zz="always"), 0)
    prepared(m)
    S.assume(S.Not(S.eq(a, b)))
    pen = S.real("penalty", 0, 50)
    retrieve(m, 1, A.makechunk("", "r", p=b), mismatch_penalty=pen)
    S.check(S.close(m.retrieval.activation, pen * -1 if refused else v), "a refused declaration is not used, an accepted one is")
    if refused:
        S.cover("positive rejected")


def best(S):
    """With two memory chunks the one with the larger sum is retrieved."""
    A = act()
    m = new_model(subsymbolic=True, partial_matching=True, baselevel_learning=False, retrieval_threshold=-1000000)
    v1, v2 = S.real("s1", -20, 0), S.real("s2", -20, 0)
    m.set_similarities("want", "p1", v1)
    m.set_similarities("p2", "want", v2)
    c1, c2 = A.makechunk("", "t", p="p1", q="q1"), A.makechunk("", "t", p="p2", q="q2")
    m.decmem.add(c1, 0)
    m.decmem.add(c2, 0)
    prepared(m)
    got, _ = retrieve(m, 1, A.makechunk("", "r", p="want"))
    S.assume(S.Not(S.close(v1, v2)))
    S.check(S.Iff(got == c1, v1 > v2), "the most similar chunk wins")


def jobs(tier):
    J = lambda pat, n, **kw: Job("c03", "similarity", dict(pat=pat, nsim=n, **kw), weight=n + len(pat))  # noqa: E731
    full = ("sym", "none", "absent")
    out = [J({"a": "v"}, 2, tkinds=full), J({"a": "n"}, 1, tkinds=full), J({"a": "vn"}, 1, tkinds=full), J({"a": "x"}, 2, tkinds=full),
           J({"a": "xn"}, 1, tkinds=full), J({"a": "v", "b": "v"}, 1), J({"a": "v", "b": "n"}, 1), J({"a": "v", "b": "x"}, 1, tkinds=("sym", "absent")),
           J({"a": "v", "b": "v", "c": "v"}, 0), J({"a": "v", "b": "n", "c": "x"}, 0, tkinds=("sym", "none")),
           Job("c03", "rejection"), Job("c03", "best")]
    if tier == "thorough":
        out += [J({"a": a, "b": b}, 2) for a in ("v", "x", "n", "vn") for b in ("v", "xn")]
        out += [J({"a": "v"}, 3, tkinds=full), J({"a": "v", "b": "v", "c": "v"}, 1), J({"a": "v", "b": "n", "c": "x"}, 1)]
    for j in out:
        j.budget = 600 if tier == "thorough" else 100
    return out
