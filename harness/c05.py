"""C05: changing the chunk in a buffer changes that buffer only."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "a goal, retrieval, visual or location buffer holding a chunk with three arbitrary or empty slots that is also in memory (and in a second buffer); modifications of up to 3 slots (constants, bound variables, slots the chunk did not have), once or twice, directly or by a rule, then clearing; arbitrary values and times",
    "thorough": "all slot subsets in both modifications",
}
ASSUMPTIONS = []


def COVERS(tier):
    return ["goal", "retrieval", "visual", "visual_location", "new slot", "twice", "by rule", "cleared", "by request", "visual by rule"]


def direct(S, kind, first, second=()):
    A = act()
    m = new_model(A.Environment(focus_position=(0, 0)))
    v, vl = m.visualBuffer("visual", "visual_location", m.decmem)
    bufs = {"goal": m.goal, "retrieval": m.retrieval, "visual": v, "visual_location": vl}
    for b in bufs.values():
        b.dm = m.decmem
    b = bufs[kind]
    S.cover(kind)
    old = {s: S.str("o_" + s, ("None",)) for s in ("a", "b")}
    old["zz"] = "x"
    c = A.makechunk("", "t", **old)
    m.decmem.add(c, 0)
    mem = Memory(S)
    mem.add(old, 0)
    if kind == "visual_location":
        b.add(c, {"position": (1, 1)}, 1)
    else:
        b.add(c)
    twin = bufs["goal" if kind != "goal" else "retrieval"]
    twin.add(c)
    want = dict(old)
    for i, pat in enumerate((first, second)):
        if not pat:
            continue
        given, variables = {}, {}
        for s in pat:
            val = S.str(f"n{i}_{s}")
            k = S.choice(f"how{i}_{s}", ("const", "var"))
            if k == "const":
                given[s] = val
            else:
                given[s] = vv(variables="x" + s)
                variables["=x" + s] = val
            want[s] = val
            if s not in old:
                S.cover("new slot")
        req = A.makechunk("", "t", **given)
        if kind == "visual_location":
            b.modify(req, actrvariables=variables, found_stim={"position": (2, 2)})
        else:
            b.modify(req, variables)
        if i:
            S.cover("twice")
        S.check(len(b) == 1, "the buffer still holds one chunk")
        S.check(slots_eq(S, held(b), want), "exactly the named slots change", lambda: f"{held(b)} wanted {want}")
        S.check(slots_eq(S, {k: raw(x) for k, x in c}, old), "the chunk that was in the buffer keeps its values")
        S.check(slots_eq(S, held(twin), old), "another buffer with the same chunk is not changed")
        mem.check(m.decmem, "memory is not changed by a modification")
        S.check(c in m.decmem, "the unchanged chunk is still found in memory")
    t = S.time("t", 0, 100)
    b.clear(t)
    S.cover("cleared")
    mem.add(want, t)
    mem.check(m.decmem, "clearing stores the modified chunk next to the original")


def by_rule(S, kind, code):
    """A rule that modifies the retrieval or goal buffer after retrieval."""
    A = act()
    m = new_model(subsymbolic=False)
    old = {s: S.str("o_" + s, ("None",)) for s in ("a", "b")}
    old["zz"] = "x"
    new, gv = S.str("new"), S.str("gv")
    m.decmem.add(A.makechunk("", "t", **old), 0)
    mem = Memory(S)
    mem.add(old, 0)
    m.goal.add(A.makechunk("", "t", zz="go", a=gv, b="keep"))
    name = {"goal": "g", "retrieval": "retrieval"}[kind]
    rule(m, "ask", lambda: {"=g": A.makechunk("", "t", zz="go")},
         lambda: {"=g": A.makechunk("", "t", zz="wait"), "+retrieval": A.makechunk("", "t", zz="x")})
    rule(m, "change", lambda: {"=g": A.makechunk("", "t", zz="wait", a=vv(variables="q")), "=retrieval": A.makechunk("", "t", zz="x", b=vv(variables="p"))},
         lambda: {code + name: A.makechunk("", "t", a=new, b=vv(variables="p" if kind == "goal" else "q")), **({} if kind == "goal" else {"=g": A.makechunk("", "t", zz="end")}),
                  **({"=retrieval": A.makechunk("", "t", zz="end")} if kind == "goal" else {})})
    sim = prepared(m)
    ev = trace(sim, 60, 1)
    S.check(sum(1 for e in ev if e.action == "RULE FIRED: change") == 1, "the rule fires")
    S.cover("by rule" if code == "=" else "by request")
    g, r = held(m.goal), held(m.retrieval)
    if kind == "goal":
        S.check(slots_eq(S, g, {"zz": "wait", "a": new, "b": old["b"]}), "a rule changes exactly the named slots of the goal", lambda: f"{g}")
        S.check(slots_eq(S, r, {"zz": "end", "a": old["a"], "b": old["b"]}), "a rule changes exactly the named slots of the retrieved chunk", lambda: f"{r}")
    else:
        S.check(slots_eq(S, r, {"zz": "x", "a": new, "b": gv}), "a rule changes exactly the named slots of the retrieved chunk", lambda: f"{r}")
        S.check(slots_eq(S, g, {"zz": "end", "a": gv, "b": "keep"}), "a rule changes exactly the named slots of the goal", lambda: f"{g}")
    mem.check(m.decmem, "memory is not changed by modifying a retrieved chunk")


def visual_rule(S, kind, code):
    """A rule that modifies what is in a visual buffer."""
    A = act()
    env = A.Environment(focus_position=(320, 180))
    m = new_model(env, subsymbolic=False, automatic_visual_search=True, emma_noise=False)
    m.visualBuffer("visual", "visual_location", m.decmem)
    new, gv, old = S.str("new"), S.str("gv"), S.str("old")
    m.goal.add(A.makechunk("", "t", zz="go", a=gv))
    typ = {"visual": "_visual", "visual_location": "_visuallocation"}[kind]
    first = {"visual": {"value": vv(variables="p")}, "visual_location": {"screen_x": vv(variables="p")}}[kind]
    rule(m, "change", lambda: {"=g": A.makechunk("", "t", zz="go", a=vv(variables="q")), "=" + kind: A.makechunk("", typ, color=old, **first)},
         lambda: {"=g": A.makechunk("", "t", zz="end", b=vv(variables="p")), code + kind: A.makechunk("", typ, color=vv(variables="q"), **({"cmd": new} if kind == "visual" else {"value": new}))})
    sim = prepared(m, environment_process=env.environment_process, stimuli=[{"s": {"text": "w", "position": (320, 180), "color": old, "externally_visible": ["color"]}}], triggers="", times=10**8, start_time=0)
    ev = trace(sim, 60, 1)
    S.check(sum(1 for e in ev if e.action == "RULE FIRED: change") == 1, "the rule fires", lambda: f"{ev}")
    S.cover("visual by rule")
    g, r = held(m.goal), held(m.visbuffers[kind])
    S.check(slots_eq(S, g, {"zz": "end", "a": gv, "b": "w" if kind == "visual" else "320"}), "a rule changes exactly the named slots of the goal", lambda: f"{g}")
    want = {"cmd": new, "color": gv, "value": "w"} if kind == "visual" else {"screen_x": "320", "screen_y": "180", "color": gv, "value": new}
    pos = r.pop("screen_pos", None)
    S.check(slots_eq(S, r, want), "a rule changes exactly the named slots of a visual buffer", lambda: f"{r}")
    if kind == "visual":
        S.check(slots_eq(S, {k: raw(v) for k, v in pos}, {"screen_x": "320", "screen_y": "180", "color": old}), "a rule changes exactly the named slots of a visual buffer", lambda: f"{pos}")
    S.check(len(m.decmem) == 0, "memory is not changed by modifying a visual buffer", lambda: f"{m.decmem}")


def jobs(tier):
    out = []
    for k in ("goal", "retrieval", "visual", "visual_location"):
        out += [Job("c05", "direct", dict(kind=k, first=f, second=s)) for f, s in ((("a",), ()), (("a", "n"), ("b",)), (("a", "b", "zz"), ()), (("n",), ("n", "a")))]
    out += [Job("c05", "by_rule", dict(kind=k, code=c)) for k in ("goal", "retrieval") for c in "=*"]
    out += [Job("c05", "visual_rule", dict(kind=k, code=c)) for k in ("visual", "visual_location") for c in "=*"]
    if tier == "thorough":
        subs = [x for r in (1, 2, 3) for x in itertools.combinations(("a", "b", "n", "zz"), r)]
        out += [Job("c05", "direct", dict(kind=k, first=f, second=s)) for k in ("goal", "retrieval", "visual", "visual_location") for f in subs for s in subs]
    return out
