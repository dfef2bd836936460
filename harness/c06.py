"""C06: what leaves a buffer goes to memory."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "histories of 3 to 4 operations on one of the four kinds of buffer (put a chunk in, clear, set a goal, clear into another memory), on chunks with an arbitrary slot value that may be equal to each other or to a chunk in memory, at arbitrary times; and rules that clear or set a goal or retrieve, with arbitrary values and firing time; rules whose goal, retrieval or search for a location takes an arbitrary time, and succeeds or fails, while the buffer holds another chunk",
    "thorough": "histories of 4 operations on one buffer and of 3 on two buffers that share a memory",
}
ASSUMPTIONS = []


def COVERS(tier):
    return ["goal", "retrieval", "visual", "visual_location", "other memory", "cleared empty", "rule: ~", "rule: +", "rule: +retrieval", "rule: @", *(f"slow rule: {h}" for h in ("+g", "+retrieval", "+visual_location")), "failed: +retrieval", "failed: +visual_location"]


def buffers_of(m):
    v, vl = m.visualBuffer("visual", "visual_location", m.decmem)
    for b in (m.goal, m.retrieval, v, vl):
        b.dm = m.decmem
    return {"goal": m.goal, "retrieval": m.retrieval, "visual": v, "visual_location": vl}


def history(S, kinds, n):
    A = act()
    from pyactr import declarative
    m = new_model(A.Environment(focus_position=(0, 0)))
    bufs = buffers_of(m)
    other = declarative.DecMem()
    main, second = Memory(S), Memory(S)
    start = S.str("m0")
    m.decmem.add(A.makechunk("", "t", a=start), 0)
    main.add({"a": start}, 0)
    content = {k: None for k in kinds}
    for i in range(n):
        k = S.choice(f"b{i}", kinds)
        b = bufs[k]
        S.cover(k)
        ops = ("put", "clear", "harvest") + (("create", "discard") if k == "goal" else ())
        op = S.choice(f"op{i}", ops)
        if op == "harvest" and k == "retrieval":
            op = "clear"
        t = S.time(f"t{i}", 0, 100)
        old = content[k]
        if op in ("put", "create"):
            v = S.str(f"v{i}", ("None",))
            new = {"a": v, "zz": "x"}
            c = A.makechunk("", "t", **new)
            if op == "create":
                b.create(c, m.decmem, {})      # an overwritten goal is not stored
            elif k == "goal":
                b.add(c)                       # putting a goal directly replaces it
            elif k == "visual_location":
                b.add(c, {"position": (1, 1)}, t)
            else:
                b.add(c, t)
            if k != "goal" and old is not None:
                main.add(old, t)
            content[k] = new
        elif op == "clear":
            b.clear(t)
            if old is not None:
                main.add(old, t)
            else:
                S.cover("cleared empty")
            content[k] = None
        elif op == "harvest":
            b.clear(t, other)
            if old is not None:
                second.add(old, t)
                S.cover("other memory")
            content[k] = None
        elif op == "discard":
            for c in list(b):
                b.discard(c)
            content[k] = None
        for kk in kinds:
            S.check(len(bufs[kk]) <= 1, "a buffer holds at most one chunk")
            S.check(slots_eq(S, held(bufs[kk]), content[kk]), "a buffer holds the chunk that was put there last",
                    lambda: f"{kk} {held(bufs[kk])} wanted {content[kk]}")
    main.check(m.decmem, "every chunk that left a buffer is in its memory with the time it left")
    second.check(other, "a chunk cleared into another memory goes only there")
    for kk in kinds:
        S.check(bufs[kk].test_buffer("full") == (content[kk] is not None) and bufs[kk].test_buffer("empty") == (content[kk] is None),
                "a buffer is full exactly when it holds a chunk")


def by_rule(S, how):
    """A rule that clears, sets, overwrites or retrieves."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=False, rule_firing=rf)
    old, new = S.str("old", ("None",)), S.str("new")
    memv = S.str("mem", ("None",))
    m.decmem.add(A.makechunk("", "t", a=memv, zz="k"), 0)
    main = Memory(S)
    main.add({"a": memv, "zz": "k"}, 0)
    m.goal.add(A.makechunk("", "t", a=old, zz="go"))
    test = lambda: {"=g": A.makechunk("", "t", zz="go")}  # noqa: E731
    if how == "~":
        rule(m, "r", test, lambda: {"~g": None})
    elif how == "+":
        rule(m, "r", test, lambda: {"+g": A.makechunk("", "t", a=new, zz="done")})
    elif how == "@":
        rule(m, "r", test, lambda: {"@g": A.makechunk("", "t", a=new, zz="done")})
    elif how == "+retrieval":
        m.retrieval.dm = m.decmem
        m.retrieval.add(A.makechunk("", "t", a=new, zz="inbuf"), 0)
        rule(m, "r", test, lambda: {"=g": A.makechunk("", "t", zz="done"), "+retrieval": A.makechunk("", "t", zz="k")})
    sim = prepared(m)
    ev = trace(sim, 40)
    S.check(all(e.action != "RULE STOPPED FROM FIRING: r" for e in ev) and any(e.action == "RULE FIRED: r" for e in ev), "the rule fires")
    S.cover("rule: " + how)
    goal = {"a": old, "zz": "go"}
    if how == "~":
        main.add(goal, rf)
        S.check(held(m.goal) is None, "a cleared buffer is empty")
    elif how == "+":
        main.add(goal, rf)
        S.check(slots_eq(S, held(m.goal), {"a": new, "zz": "done"}), "setting a goal puts the new chunk into the buffer")
    elif how == "@":
        S.check(slots_eq(S, held(m.goal), {"a": new, "zz": "done"}), "overwriting a goal puts the new chunk into the buffer")
    else:
        main.add({"a": new, "zz": "inbuf"}, rf)
        S.check(slots_eq(S, held(m.retrieval), {"a": memv, "zz": "k"}), "the retrieved chunk is in the buffer")
    main.check(m.decmem, "after the rule, memory holds what left the buffer, with the time")


def slow_rule(S, how):
    """A rule whose request takes its time: what is displaced by what comes leaves when that comes."""
    A = act()
    rf, L = S.time("rf", 0, 1, lo_open=True, exact=True), S.time("L", 0, 3, lo_open=True, exact=True)
    look = how == "+visual_location"
    env = A.Environment(focus_position=(0, 0)) if look else None
    kw = dict(environment_process=env.environment_process, stimuli=[{"A": {"text": "A", "position": (100, 100)}}], triggers="", times=10) if look else {}
    found = how == "+g" or S.flag("found")
    m = new_model(env, subsymbolic=True, baselevel_learning=False, latency_exponent=0, latency_factor=L, rule_firing=rf, retrieval_threshold=-100 if found else 100, automatic_visual_search=False)
    loc = m.visualBuffer("visual", "visual_location", m.decmem)[1] if look else None
    m.set_goal("g", L)
    v, w = S.str("old", ("None",)), S.str("new", ("None",))
    main = Memory(S)
    m.decmem.add(A.makechunk("", "t", a=w, zz="k"), 0)
    main.add({"a": w, "zz": "k"}, 0)
    start = {"a": v, "zz": "go"}
    m.goals["g"].add(A.makechunk("", "t", **start))
    old = {"a": v, "zz": "inbuf"}
    if how == "+g":
        buf, old, req, leaves, want = m.goals["g"], start, {"+g": A.makechunk("", "t", a=w, zz="done")}, rf, {"a": w, "zz": "done"}
    elif how == "+retrieval":
        buf, req, leaves, want = m.retrieval, {"+retrieval": A.makechunk("", "t", zz="k")}, rf + L, {"a": w, "zz": "k"}
    else:
        buf, leaves = loc, rf
        old = {"color": v, "screen_x": "7", "screen_y": "7"}
        req = {"+visual_location": A.makechunk("", "_visuallocation", screen_x="100" if found else "200")}
        want = {"screen_x": "100", "screen_y": "100"}
    if buf is not m.goals["g"]:
        buf.dm = m.decmem
        if look:
            super(type(buf), buf).add(A.makechunk("", "_visuallocation", **old))
        else:
            buf.add(A.makechunk("", "t", **old), 0)
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", zz="go")}, lambda: {**({} if how == "+g" else {"=g": A.makechunk("", "t", zz="done")}), **req})
    ev = trace(prepared(m, **kw), 40)
    S.check(any(e.action == "RULE FIRED: r" for e in ev), "the rule fires", lambda: f"{ev}")
    if found:
        main.add(old, leaves)
        S.cover("slow rule: " + how)
    else:
        want = old
        S.cover("failed: " + how)
    S.check(slots_eq(S, held(buf), want), "a buffer holds the chunk that came last", lambda: f"{buf} {want}")
    main.check(m.decmem, "a displaced chunk is in memory with the time at which it left")


def jobs(tier):
    out = [Job("c06", "history", dict(kinds=(k,), n=3 if k == "goal" else 4)) for k in ("goal", "retrieval", "visual", "visual_location")]
    out += [Job("c06", "history", dict(kinds=("goal", "retrieval"), n=2)), Job("c06", "history", dict(kinds=("visual", "visual_location"), n=2))]
    out += [Job("c06", "by_rule", dict(how=h)) for h in ("~", "+", "@", "+retrieval")]
    out += [Job("c06", "slow_rule", dict(how=h)) for h in ("+g", "+retrieval", "+visual_location")]
    if tier == "thorough":
        ks = ("goal", "retrieval", "visual", "visual_location")
        out += [Job("c06", "history", dict(kinds=(k,), n=4), prefix={"op0": i}, budget=800) for k in ks for i in range(3)]
        out += [Job("c06", "history", dict(kinds=(a, b), n=3), prefix={"b0": i}, budget=800) for a in ks for b in ks if a < b for i in range(2)]
    return out
