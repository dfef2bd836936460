"""C15: a rule acts on what holds when it fires, and only on what it names."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "a rule testing three buffers (two goals with a setting delay, retrieval) whose right-hand side does nothing, modifies, sets, overwrites, clears (also two of these at once) or adds a test on each of them, with and without strict harvesting; and a rule selected before and fired after (or before) a retrieval changes the buffer it tests; arbitrary values, times and latencies",
    "thorough": "also rules that test only some of the three buffers",
}
ASSUMPTIONS = ["events at exactly the same moment as the firing of a rule are left open"]


def COVERS(tier):
    return ["harvested", "not harvested", "modified", "changed and put away", "set", "overwritten", "cleared", "stopped", "fires on new content", "fires on old content", "goes on", "fires before"]


def effects(S, strict, acts_g, acts_h, acts_r, tested="ghr"):
    A = act()
    rf, delay = S.time("rf", 0, 1, lo_open=True), S.time("delay", 0, 1)
    m = new_model(subsymbolic=False, strict_harvesting=strict, rule_firing=rf)
    g, h = m.set_goal("g"), m.set_goal("h", delay)
    r = m.retrieval
    r.dm = m.decmem
    mem = Memory(S)
    bufs, names = {"g": g, "h": h, "r": r}, {"g": "g", "h": "h", "r": "retrieval"}
    content, new, old2 = {}, {}, {}
    for b in "ghr":
        content[b] = {"a": S.str("c" + b, ("None",)), "id": b}
        bufs[b].add(A.makechunk("", "t", **content[b]))
        new[b] = S.str("n" + b)
        old2[b] = S.str("o" + b)
    todo = {"g": S.choice("do_g", acts_g), "h": S.choice("do_h", acts_h), "r": S.choice("do_r", acts_r)}

    def left():
        return {"=" + names[b]: A.makechunk("", "t", id=b, **({"a": vv(variables="x" + b)})) for b in tested}

    def right():
        out = {}
        for b in "ghr":
            k = todo[b]
            if k == "=":
                out["=" + names[b]] = A.makechunk("", "t", a=new[b])
            elif k in ("+", "@"):
                out[k + names[b]] = A.makechunk("", "t", a=new[b], id="new")
            elif k == "~":
                out["~" + names[b]] = None
            elif k in ("=~", "=+", "~=", "+="):
                # two actions on one buffer: a change always comes before the chunk is put away
                for x in k:
                    out[x + names[b]] = A.makechunk("", "t", a=new[b]) if x == "=" else None if x == "~" else A.makechunk("", "t", a=old2[b], id="new")
            elif k == "?":
                out["?" + names[b]] = {"recently_retrieved": False}
        if not out:
            out["?g"] = {}
        return out
    rule(m, "rule", left, right)
    # the goal is put away to end the run
    sim = prepared(m)
    ev = trace(sim, 60, stop=lambda es: [e.action for e in es].count("CONFLICT RESOLUTION") > 1 and es[-1].time > rf + delay or es[-1].action == "RULE FIRED: rule" and [e.action for e in es].count("RULE FIRED: rule") > 1)
    nfired = [e.action for e in ev].count("RULE FIRED: rule")
    S.check(nfired >= 1, "the rule fires")
    if nfired != 1:
        return
    idle = all(k == "" for k in todo.values())
    for b in "ghr":
        k, old = todo[b], content[b]
        harvest = strict and b in tested and k == "" and not (idle and b == "g")
        if harvest or k == "~":
            mem.add(old, rf)
            S.cover("harvested" if harvest else "cleared")
            want = None
        elif len(k) == 2:
            mem.add({"a": new[b], "id": b}, rf)
            want = None if "~" in k else {"a": old2[b], "id": "new"}
            S.cover("changed and put away")
        elif k == "=":
            want = {"a": new[b], "id": b}
            S.cover("modified")
        elif k == "+":
            mem.add(old, rf)
            want = {"a": new[b], "id": "new"}
            S.cover("set")
        elif k == "@":
            want = {"a": new[b], "id": "new"}
            S.cover("overwritten")
        else:
            want = old
            S.cover("not harvested")
        S.check(slots_eq(S, held(bufs[b]), want), "after a rule every buffer holds what the rule made of it", lambda: f"{b} {todo} strict {strict}: {held(bufs[b])} wanted {want}; {ev}")
        made = [e for e in ev if e.proc == names[b] and (e.action.startswith("CREATED") or e.action.startswith("WROTE"))]
        if k in ("+", "@") or "+" in k:
            S.check(len(made) == 1 and S.close(made[0].time, rf + (delay if b == "h" else 0)), "a chunk is set when the delay of the goal has passed", lambda: f"{ev}")
    mem.check(m.decmem, "after a rule memory holds what the rule cleared")


def refire(S):
    """Between the selection and the firing of a rule, a retrieved chunk arrives."""
    A = act()
    rf, L = S.time("rf", 0, 1, lo_open=True, exact=True), S.time("L", 0, 2, lo_open=True, exact=True)
    m = new_model(subsymbolic=True, latency_factor=L, latency_exponent=0, rule_firing=rf, retrieval_threshold=-10, baselevel_learning=False)
    old, new, bad = S.str("old"), S.str("new"), S.str("bad")
    S.assume(S.Not(S.eq(old, bad)))
    S.assume(S.Not(S.eq(L, rf)))
    m.retrieval.dm = m.decmem
    m.decmem.add(A.makechunk("", "t", a=new, id="m"), 0)
    m.retrieval.add(A.makechunk("", "t", a=old, id="b"))
    m.goal.add(A.makechunk("", "g", s="1", r="0"))
    rule(m, "ask", lambda: {"=g": A.makechunk("", "g", s="1")}, lambda: {"=g": A.makechunk("", "g", s="2"), "+retrieval": A.makechunk("", "t", id="m")})
    rule(m, "use", lambda: {"=g": A.makechunk("", "g", s="2"), "=retrieval": A.makechunk("", "t", a=vv(variables="x", negvalues=(bad,)))},
         lambda: {"=g": A.makechunk("", "g", s="3", r=vv(variables="x"))})
    rule(m, "later", lambda: {"=g": A.makechunk("", "g", s="2"), "=retrieval": A.makechunk("", "t", a=bad)}, lambda: {"=g": A.makechunk("", "g", s="4")})
    ev = trace(prepared(m), 60)
    acts = [e.action for e in ev]
    fired = [e for e in ev if e.action == "RULE FIRED: use"]
    stopped = [e for e in ev if e.action == "RULE STOPPED FROM FIRING: use"]
    end = held(m.goal)
    if S.known(L > rf):
        S.cover("fires before")
        S.cover("fires on old content")
        S.check(len(fired) == 1 and not stopped and S.close(fired[0].time, 2 * rf), "a rule whose conditions still hold fires one firing time after its selection", lambda: f"{ev}")
        S.check(val_eq(S, end["r"], old) and S.known(S.eq(end["s"], "3")), "it uses the values that hold when it fires", lambda: f"{end} {ev}")
    elif S.known(S.eq(new, bad)):
        S.cover("stopped")
        S.check(len(stopped) == 1 and not fired and S.close(stopped[0].time, 2 * rf), "a rule whose conditions no longer hold is stopped", lambda: f"{ev}")
        S.check("RULE FIRED: later" in acts and S.known(S.eq(end["s"], "4")), "after a stopped rule the next one is looked for", lambda: f"{ev}")
        S.cover("goes on")
    else:
        S.cover("fires on new content")
        S.check(len(fired) == 1 and not stopped and S.close(fired[0].time, 2 * rf), "a rule whose conditions still hold fires one firing time after its selection", lambda: f"{ev}")
        S.check(val_eq(S, end["r"], new) and S.known(S.eq(end["s"], "3")), "it uses the values that hold when it fires", lambda: f"{end} {ev}")


def jobs(tier):
    out = []
    for strict in (False, True):
        out.append(Job("c15", "effects", dict(strict=strict, acts_g=("=", "+", "@", "~"), acts_h=("", "=", "+", "@", "~"), acts_r=("", "=", "~", "?")), weight=4))
        out.append(Job("c15", "effects", dict(strict=strict, acts_g=("",), acts_h=("", "=", "~"), acts_r=("", "=", "~"))))
        out.append(Job("c15", "effects", dict(strict=strict, acts_g=("=", "+"), acts_h=("", "="), acts_r=("", "="), tested="g")))
        out.append(Job("c15", "effects", dict(strict=strict, acts_g=("=~", "=+", "~=", "+="), acts_h=("=~", "=+", "+=", "="), acts_r=("=~", "~=", "="))))
    out.append(Job("c15", "refire", weight=2))
    if tier == "thorough":
        for t in ("gh", "gr", "hr", "r"):
            out += [Job("c15", "effects", dict(strict=strict, acts_g=("", "=", "+", "@", "~"), acts_h=("", "=", "+", "@", "~"), acts_r=("", "=", "~", "?"), tested=t), weight=4) for strict in (False, True)]
    return out
