"""C12: a rule applies exactly when one binding satisfies all its conditions."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "rules with tests of up to 2 slots on each of two or three buffers (values, excluded values, variables and excluded variables shared between the buffers, the chunk of another buffer as a value, in either order) and queries of fullness and states; buffers empty or holding chunks with arbitrary, empty or missing slots; the values a fired rule uses; queries of states and fullness while retrieval, goal, motor and visual module work, at arbitrary moments",
    "thorough": "more pattern combinations over three buffers",
}
ASSUMPTIONS = ["requirements within one buffer are decided by C02; here one or two requirements per buffer are combined"]

KINDS = {"v": dict(v=1), "x": dict(x="x"), "y": dict(x="y"), "n": dict(n=1), "~x": dict(nx=("x",)), "~y": dict(nx=("y",)), "x~y": dict(x="x", nx=("y",)), "xn": dict(x="x", n=1)}
BUFS = {"g": "g", "h": "h", "r": "retrieval"}


def COVERS(tier):
    return ["fires", "does not fire", "empty buffer", "variable shared", "buffer chunk", "query holds", "query fails", "value used", "asked while busy", "asked afterwards"]


def model(S, used, contents):
    A = act()
    m = new_model(subsymbolic=False)
    m.set_goal("g")
    m.set_goal("h")
    bufs = {"g": m.goals["g"], "h": m.goals["h"], "r": m.retrieval}
    m.retrieval.dm = m.decmem
    spec = {}
    for b in used:
        k = S.choice("in_" + b, contents)
        if k == "empty":
            spec[b] = None
            S.cover("empty buffer")
            continue
        sp = {"id": b}
        for s in "ab":
            o = S.choice(f"{b}_{s}", ("sym", "absent")) if s == "b" else "sym"
            sp[s] = S.str(f"{b}v{s}", ("None",)) if o == "sym" else None
        bufs[b].add(A.makechunk("", "t", **{k: v for k, v in sp.items() if v is not None}))
        spec[b] = sp
    return m, bufs, spec


def fired(S, m, extra=None):
    sim = prepared(m)
    ev = trace(sim, 30, stop=lambda es: es[-1].action == "NO RULE FOUND" or [e.action for e in es].count("CONFLICT RESOLUTION") > 1)
    return any(e.action == "RULE FIRED: rule" for e in ev), ev


def tests(S, lhs, contents=("chunk",), queries=()):
    """lhs: ((buffer, ((slot, kind), ...)), ...) in the order of the rule."""
    A = act()
    used = [b for b, _p in lhs]
    m, bufs, spec = model(S, used, contents)
    vals = {}
    for b, pats in lhs:
        for s, k in pats:
            kk = KINDS[k]
            v = S.str(f"p{b}{s}v") if kk.get("v") else None
            n = tuple(S.str(f"p{b}{s}n{i}") for i in range(kk.get("n", 0)))
            vals[b, s] = (v, kk.get("x"), n, kk.get("nx", ()))
    qs = []
    for b, what in queries:
        q = S.choice(f"q_{b}_{what}", ("full", "empty") if what == "buffer" else ("free", "busy", "error"))
        qs.append((b, what, q))

    def left():
        out = {}
        for b, pats in lhs:
            out["=" + BUFS[b]] = A.makechunk("", "p", **{s: vv(values=vals[b, s][0], variables=vals[b, s][1], negvalues=vals[b, s][2], negvariables=vals[b, s][3]) for s, _k in pats})
        for b, what, q in qs:
            out.setdefault("?" + BUFS[b], {})[what] = q
        return out
    xs = sorted({v[1] for v in vals.values() if v[1]})
    rule(m, "rule", left, lambda: {"@h": A.makechunk("", "done", **{"r" + x: vv(variables=x) for x in xs}, fin="yes")})
    conds, bind = [], {}
    ok = all(spec[b] is not None for b in used)
    for b, what, q in qs:
        full = spec.get(b) is not None
        holds = (q == "full") == full if what == "buffer" else q == "free"
        S.cover("query holds" if holds else "query fails")
        ok = ok and holds
    if ok:
        for (b, s), (v, x, n, _nx) in vals.items():
            t = spec[b].get(s)
            if v is not None:
                conds.append(val_eq(S, v, t))
            for nv in n:
                conds.append(S.Not(val_eq(S, nv, t)))
            if x:
                if x in bind:
                    conds.append(val_eq(S, bind[x], t))
                    S.cover("variable shared")
                else:
                    bind[x] = t
        for (b, s), (v, x, n, nx) in vals.items():
            for y in nx:
                if y in bind:
                    conds.append(S.Not(val_eq(S, bind[y], spec[b].get(s))))
    want = S.And(*conds) if ok else False
    got, ev = fired(S, m)
    S.check(S.Iff(got, want), "a rule applies exactly when one binding satisfies all its conditions", lambda: f"{left()} buffers {[(b, list(x)) for b, x in bufs.items()]} {ev}")
    if got:
        S.cover("fires")
        end = held(bufs["h"])
        for x in xs:
            S.check(val_eq(S, (end or {}).get("r" + x), bind.get(x)), "a fired rule uses the values that satisfied its conditions", lambda: f"{x} {end} {bind}")
            S.cover("value used")
    else:
        S.cover("does not fire")


def bufferchunk(S, order, neg=False):
    """A condition that compares a slot with the chunk in another buffer."""
    A = act()
    m = new_model(subsymbolic=False)
    g, h = m.set_goal("g"), m.set_goal("h")
    u = S.str("u")
    inside = S.choice("inside", ("chunk", "same object", "string", "absent"))
    c = A.makechunk("", "i", k=u)
    h.add(c)
    w = S.str("w")
    sp = {"chunk": A.makechunk("", "i", k=w), "same object": c, "string": S.str("z"), "absent": None}[inside]
    g.add(A.makechunk("", "t", **({"s": sp} if sp is not None else {}), id="g"))
    tg = lambda: A.makechunk("", "p", s=vv(negvariables=("h",)) if neg else vv(variables="h"))  # noqa: E731
    th = lambda: A.makechunk("", "p", k=u)  # noqa: E731
    rule(m, "rule", lambda: {"=g": tg(), "=h": th()} if order == "gh" else {"=h": th(), "=g": tg()}, lambda: {"=g": A.makechunk("", "t", id="done")})
    want = {"chunk": S.eq(u, w), "same object": True, "string": False, "absent": False}[inside]
    if neg:
        want = S.Not(want)
    got, ev = fired(S, m)
    S.check(S.Iff(got, want), "a slot is compared with the chunk in another buffer", lambda: f"{g} {h} {ev}")
    S.cover("buffer chunk")


def watch(S, module, query, n=6):
    """Rules query a module again and again while it works."""
    A = act()
    what, value = query
    rf = S.time("rf", 0.02, 0.3, exact=True)
    L = S.time("L", 0, 2, lo_open=True, exact=True)
    kw, sim = {}, {}
    env = None
    if module == "visual":
        env = A.Environment(focus_position=(0, 0))
        kw = dict(emma=False)
    m = new_model(env, subsymbolic=True, baselevel_learning=False, latency_exponent=0, latency_factor=L, retrieval_threshold=100 if module == "failing" else -100, rule_firing=rf, strict_harvesting=False, **kw)
    m.set_goal("g").add(A.makechunk("", "t", k="0"))
    h = m.set_goal("h", L)
    name = {"failing": "retrieval"}.get(module, module)
    if module in ("retrieval", "failing"):
        m.decmem.add(A.makechunk("", "t", k="1"))
        request, end = A.makechunk("", "t", k="1"), rf + L
    elif module == "h":
        h.add(A.makechunk("", "t", k="h"))
        request, end = A.makechunk("", "t", k="new"), rf + L
    elif module == "manual":
        request, end = A.makechunk("", "_manual", cmd="press_key", key="A"), rf + 0.15 + 0.05 + 0.01 + 0.09
    else:
        visual, _loc = m.visualBuffer("visual", "visual_location", m.decmem)
        visual.attend_automatic = False
        request, end = A.makechunk("", "_visual", cmd="move_attention", screen_pos=A.makechunk("", "_visuallocation", screen_x=300, screen_y=100)), rf + 0.085
        sim = dict(environment_process=env.environment_process, stimuli=[{"s": {"text": "x", "position": (300, 100)}}], triggers="", times=1000)
    rule(m, "start", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+" + name: request}, utility=30)
    rule(m, "yes", lambda: {"=g": A.makechunk("", "t", k="1"), "?" + name: {what: value}}, lambda: {"=g": A.makechunk("", "t", k="1")}, utility=20)
    rule(m, "no", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="1")}, utility=10)
    sel = lambda es: [e for e in es if e.proc == "PROCEDURAL" and e.action.startswith("RULE SELECTED") and not e.action.endswith("start")]  # noqa: E731
    ev = trace(prepared(m, **sim), 200, stop=lambda es: len(sel(es)) >= n)
    S.check(len(sel(ev)) == n, "there is always a rule that applies", lambda: f"{ev}")
    for i, e in enumerate(sel(ev)):
        if i == 0 and module != "retrieval":
            continue  # at the moment of the request itself
        S.assume(S.Not(S.close(e.time, end, 2e-4)))
        working = S.known(e.time < end)
        full = {"retrieval": not working, "failing": False, "h": not working, "visual": not working, "manual": None}[module]
        state = "busy" if working else "error" if module == "failing" else "free"
        want = (full if value == "full" else not full) if what == "buffer" else state == value
        S.check(e.action == "RULE SELECTED: " + ("yes" if want else "no"), "a query holds exactly when the module is in that state", lambda: f"{name} {query} rf {rf} L {L} {ev}")
        S.cover("asked while busy" if working else "asked afterwards")


def jobs(tier):
    one = lambda b, *ks: (b, tuple(zip("ab", ks)))  # noqa: E731
    sets = [
        (one("g", "x"), one("h", "x")), (one("g", "x"), one("h", "~x")), (one("g", "~x"), one("h", "x")), (one("g", "v"), one("h", "n")), (one("g", "x", "x"), one("h", "v")),
        (one("h", "x", "y"), one("g", "y", "~x")), (one("r", "x"), one("g", "x~y", "y")), (one("g", "x~y"), one("r", "y", "~x")), (one("h", "xn"), one("r", "x", "n")),
    ]
    out = [Job("c12", "tests", dict(lhs=s, contents=("chunk", "empty")), weight=2) for s in sets]
    out += [Job("c12", "tests", dict(lhs=(one("g", "x"), one("h", "~x"), one("r", "x"))), weight=2), Job("c12", "tests", dict(lhs=(one("r", "~x"), one("h", "x"), one("g", "~x"))), weight=2)]
    out += [Job("c12", "tests", dict(lhs=(one("g", "v"),), queries=((b, "buffer"), (b, "state"))), weight=2) for b in ("g", "h", "r")]
    out += [Job("c12", "tests", dict(lhs=(one("g", "x"), one("r", "x")), contents=("chunk", "empty"), queries=(("h", "buffer"), ("r", "buffer"))), weight=2)]
    out += [Job("c12", "bufferchunk", dict(order=o, neg=n)) for o in ("gh", "hg") for n in (False, True) if not (n and o == "gh")]
    for mod in ("retrieval", "failing", "h", "manual", "visual"):
        out += [Job("c12", "watch", dict(module=mod, query=("state", q), n=6 if tier == "quick" else 12)) for q in ("free", "busy", "error")]
        out += [Job("c12", "watch", dict(module=mod, query=("buffer", q))) for q in ("full", "empty") if mod != "manual"]
    if tier == "thorough":
        ks = ("v", "x", "n", "~x", "y", "x~y")
        out += [Job("c12", "tests", dict(lhs=(one("g", a), one("h", b, c))), weight=4) for a in ks for b in ks for c in ("x", "~y")]
        out += [Job("c12", "tests", dict(lhs=(one("g", a), one("h", b), one("r", c)), contents=("chunk", "empty")), weight=5) for a in ks for b in ("x", "~x", "y") for c in ("x", "~x", "n")]
    return out
