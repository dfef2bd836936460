"""C04: variables on the right-hand side."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "descriptions of 1 to 2 slots, each slot any combination of a value, a variable (bound to an arbitrary value, to an empty slot, or unbound), up to 2 excluded values and excluded variables; used to create a goal, to modify a buffer holding an arbitrary 3-slot chunk, and to search memory",
    "thorough": "as quick, all pairs of slot kinds",
}
ASSUMPTIONS = ["memory requests whose variable stands for an empty slot are outside the bound (the library treats an unset slot as no restriction and an explicit None as a required None)"]

KINDS = {
    "v": dict(v=1), "x": dict(x="x"), "xx": dict(x="xx"), "vx": dict(v=1, x="x"), "n": dict(n=1), "nn": dict(n=2), "~x": dict(nx=("x",)),
    "~x~xx": dict(nx=("x", "xx")), "vn": dict(v=1, n=1), "v~x": dict(v=1, nx=("x",)), "x~xx": dict(x="x", nx=("xx",)), "xn": dict(x="x", n=1), "none": dict(none=1),
}


def COVERS(tier):
    return ["refused unbound", "refused conflict", "refused negative", "resolved", "resolved to empty", "modified", "searched", "relative", "chunk found", "chunk not found"]


def build(S, pat):
    A = act()
    given, spec = {}, {}
    for s, kind in pat.items():
        k = KINDS[kind]
        if k.get("none"):
            given[s], spec[s] = "None", ("None", None, (), ())
            continue
        v = S.str("pv_" + s) if k.get("v") else None
        n = tuple(S.str(f"pn{i}_{s}") for i in range(k.get("n", 0)))
        nx, x = k.get("nx", ()), k.get("x")
        given[s] = vv(values=v, variables=x, negvalues=n, negvariables=nx)
        spec[s] = (v, x, n, nx)
    return A.makechunk("", "req", **given), spec


def bindings(S, spec, kinds=("sym", "empty", "unset", "unbound")):
    from pyactr import chunks
    used = sorted({x for v, x, n, nx in spec.values() if x} | {y for v, x, n, nx in spec.values() for y in nx})
    vals, given = {}, {}
    for x in used:
        k = S.choice("bk_" + x, kinds)
        if k == "sym":
            vals[x] = given["=" + x] = S.str("b_" + x)
        elif k in ("empty", "unset"):
            # what matching a variable against an empty slot records
            p = act().makechunk("", "p", a=vv(variables="q"))
            act().chunktype("tt", "a, z")
            p <= (chunks.Chunk("tt", a=None, z="1") if k == "empty" else chunks.Chunk("tt", z="1"))
            vals[x], given["=" + x] = None, p.boundvars["=q"]
    return vals, given


def resolve(S, spec, vals):
    """What every slot has to hold -- or whether the description has to be refused."""
    unbound = conflict = negative = False
    out = {}
    for s, (v, x, n, nx) in spec.items():
        names = ([x] if x else []) + list(nx)
        if any(y not in vals for y in names):
            unbound = True
            continue
        if n or nx:
            negative = True
        want = v
        if x:
            if v is not None:
                if vals[x] is None or not S.known(S.eq(v, vals[x])):
                    conflict = True
            else:
                want = vals[x]
        out[s] = (want, list(n) + [vals[y] for y in nx])
    return unbound, conflict, negative, out


def create(S, pat):
    """Setting a goal."""
    from pyactr import utilities, goals
    req, spec = build(S, pat)
    vals, given = bindings(S, spec)
    unbound, conflict, negative, out = resolve(S, spec, vals)
    g = goals.Goal()
    try:
        g.create(req, None, dict(given))
        refused = False
    except utilities.ACTRError:
        refused = True
    must = unbound or conflict or negative
    S.check(refused == must, "a goal is refused exactly for an unbound variable, two values in one slot, or something negative",
            lambda: f"{req} {given}")
    if not refused:
        chunk = list(g)[0]
        got = {k: raw(v) for k, v in chunk}
        for s, (want, _n) in out.items():
            S.check(val_eq(S, got.get(s), want), "a slot of a new goal holds the constant or the value of its variable")
            S.cover("resolved" if want is not None else "resolved to empty")
        S.check(all(not utilities.splitting(v).variables and not utilities.splitting(v).negvalues and not utilities.splitting(v).negvariables for _k, v in chunk),
                "no variable or excluded value is left in a new goal")
    else:
        S.cover("refused unbound" if unbound else "refused conflict" if conflict else "refused negative")


def modify(S, pat):
    """Modifying a goal: named slots take the resolved values, the rest stays."""
    from pyactr import utilities
    A = act()
    m = new_model()
    old = {s: S.str("o_" + s, ("None",)) for s in ("a", "b", "c")}
    first = A.makechunk("", "old", **old)
    m.goal.add(first)
    req, spec = build(S, pat)
    vals, given = bindings(S, spec)
    unbound, conflict, negative, out = resolve(S, spec, vals)
    try:
        m.goal.modify(req, dict(given))
        refused = False
    except utilities.ACTRError:
        refused = True
    S.check(refused == (unbound or conflict or negative), "a modification is refused exactly for an unbound variable, two values in one slot, or something negative")
    if not refused:
        S.check(len(m.goal) == 1, "the buffer still holds one chunk")
        got = {k: raw(v) for k, v in list(m.goal)[0]}
        for s in ("a", "b", "c"):
            want = out[s][0] if s in out else old[s]
            S.check(val_eq(S, got.get(s), want), "exactly the named slots change, to the resolved values")
        S.cover("modified")


def search(S, pat):
    """Searching memory: the request asks for the resolved values and leaves out the resolved exclusions."""
    from pyactr import utilities
    A = act()
    m = new_model()
    tgt = {s: S.str("t_" + s, ("None",)) for s in sorted(pat)}
    mem = A.makechunk("", "mem", zz="always", **tgt)
    m.decmem.add(mem, 0)
    req, spec = build(S, pat)
    vals, given = bindings(S, spec, ("sym", "unbound"))
    unbound, conflict, negative, out = resolve(S, spec, vals)
    try:
        got, _t = retrieve(m, 1, req, dict(given))
        refused = False
    except utilities.ACTRError:
        refused = True
    S.check(refused == (unbound or conflict), "a request is refused exactly for an unbound variable or two values in one slot")
    if not refused:
        conds = []
        for s, (want, excl) in out.items():
            if want is not None:
                conds.append(val_eq(S, want, tgt[s]))
            for e in excl:
                conds.append(S.Not(val_eq(S, e, tgt[s])))
        S.check(S.Iff(got is not None, S.And(*conds)), "a request finds a chunk exactly when it has the resolved values and none of the resolved exclusions",
                lambda: f"{req} {given} {mem} {got}")
        S.cover("searched")


def relative(S, sign):
    """A relative position such as >=x resolves to the sign and the number bound to x."""
    from pyactr import utilities, goals
    n = S.int("n", 0, 5000)
    given = {"=x": S.intstr(n)} if S.flag("bound") else {}
    A = act()
    chunk = A.chunkstring(string=f"isa _visuallocation screen_x {sign}=x screen_y {sign}17")
    try:
        r = utilities.check_bound_vars(given, chunk.screen_x, negative_impossible=False)
        S.check(bool(given), "a relative position with an unbound variable is refused")
        txt = str(r.values) if not S.symbolic else r.values
        S.check(txt[0] == sign, "a relative position keeps its sign")
        S.check(S.eq(_num(S, txt[1:]), n), "a relative position takes the number its variable stands for")
        S.cover("relative")
    except utilities.ACTRError:
        S.check(not given, "a relative position with a bound variable is accepted")
    r = utilities.check_bound_vars({}, chunk.screen_y, negative_impossible=False)
    S.check(r.values == sign + "17", "a relative position with a number is kept")


def _num(S, x):
    if S.symbolic:
        x = S.e.tokens.get(str.__str__(x), x)
        return S.E.SymNum(x.t) if isinstance(x, S.E.IntStr) else int(x)
    return int(x)


def chunky(S, excluded):
    """A variable bound to a chunk: a rule puts the chunk into the goal and searches memory for it (or for another one)."""
    A = act()
    m = new_model(subsymbolic=False, rule_firing=0.05)
    v, w = S.str("v"), S.str("w")
    kept = S.str("kept")
    m.goal.add(A.makechunk("", "t", a=A.makechunk("", "inn", k=v), b="1"))
    m.decmem.add(A.makechunk("", "mem", a=A.makechunk("", "inn", k=w), b=kept), 0)
    ask = vv(negvariables=("x",)) if excluded else vv(variables="x")
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", a=vv(variables="x"), b="1")},
         lambda: {"=g": A.makechunk("", "t", b=vv(variables="x"), c="2"), "+retrieval": A.makechunk("", "mem", a=ask)})
    sim = prepared(m)
    trace(sim, 60, until=1)
    g = held(m.goal)

    def inside(c):
        return dict(c).get("k") if c is not None and not isinstance(c, str) and hasattr(c, "typename") else None
    for s in ("a", "b"):
        S.check(val_eq(S, raw(inside(g.get(s))), v), "a variable that is bound to a chunk stands for that chunk", lambda s=s: f"{s} {g}")
    found = held(m.retrieval)
    hit = S.known(S.eq(v, w))
    S.check((found is not None) == (hit != excluded), "a search for a chunk in a slot finds exactly what has (or has not) that chunk there", lambda: f"{m.goal} {m.decmem} -> {m.retrieval}")
    if found:
        S.check(S.And(val_eq(S, found.get("b"), kept), val_eq(S, raw(inside(found.get("a"))), w)), "what is found is what was stored", lambda: f"{found}")
    S.cover("chunk found" if found else "chunk not found")


def jobs(tier):
    out = []
    singles = list(KINDS)
    pairs = [("x", "x"), ("x", "xx"), ("v", "x"), ("vx", "xx"), ("~x", "x"), ("none", "x"), ("xn", "v"), ("v", "none")]
    if tier == "thorough":
        pairs = [(a, b) for a in singles for b in singles]
    for h in ("create", "modify", "search"):
        out += [Job("c04", h, dict(pat={"a": k})) for k in singles]
        out += [Job("c04", h, dict(pat={"a": a, "b": b}), weight=2) for a, b in pairs]
    out += [Job("c04", "relative", dict(sign=s)) for s in "<>"]
    out += [Job("c04", "chunky", dict(excluded=e)) for e in (False, True)]
    return out
