"""C16: the course of time in a simulation."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "chains of up to 4 rules, a retrieval and a delayed goal running in parallel, a request that replaces a pending one, runs up to one or two arbitrary moments, step counts; arbitrary firing times, latencies and delays",
    "thorough": "longer chains, three pending requests",
}
ASSUMPTIONS = ["events at exactly the same moment may come in any order where the statement does not order them"]


def COVERS(tier):
    return ["chain", "parallel: goal first", "parallel: retrieval first", "waited", "replaced", "answered before", "run until", "run on", "nothing to do"]


def ordered(S, ev):
    for a, b in zip(ev, ev[1:]):
        S.check(S.le(a.time, b.time), "events come in the order of time", lambda: f"{a} {b}")


def chain(S, n):
    """Rule after rule."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=S.flag("subsymbolic"), rule_firing=rf)
    m.goal.add(A.makechunk("", "t", k="0"))
    for i in range(n):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1))})
    ev = trace(prepared(m), 100)
    ordered(S, ev)
    pr = [(e.time, e.action) for e in ev if e.proc == "PROCEDURAL"]
    want = []
    for i in range(n):
        want += [(rf * i, "CONFLICT RESOLUTION"), (rf * i, f"RULE SELECTED: r{i}"), (rf * (i + 1), f"RULE FIRED: r{i}")]
    want += [(rf * n, "CONFLICT RESOLUTION"), (rf * n, "NO RULE FOUND")]
    S.check([a for _t, a in pr] == [a for _t, a in want], "every cycle resolves conflicts, selects and fires; the run ends when no rule is found", lambda: f"{pr}")
    if len(pr) == len(want):
        S.check(S.And(*[S.close(t, w) for (t, _a), (w, _b) in zip(pr, want)]), "a cycle takes the time of one rule firing", lambda: f"{pr} {want}")
    S.check(S.close(ev[-1].time, rf * n), "the run ends when nothing is left to do")
    S.cover("chain")


def parallel(S):
    """A retrieval and a delayed goal proceed side by side; rules wait for them."""
    A = act()
    rf, L, D = (S.time("rf", 0, 1, lo_open=True, exact=True), S.time("L", 0, 3, lo_open=True, exact=True), S.time("D", 0, 3, lo_open=True, exact=True))
    m = new_model(subsymbolic=True, latency_factor=L, latency_exponent=0, rule_firing=rf, retrieval_threshold=-10, baselevel_learning=False)
    m.set_goal("g")
    m.set_goal("h", D)
    a = S.str("a")
    m.decmem.add(A.makechunk("", "t", id="m", a=a), 0)
    m.goals["g"].add(A.makechunk("", "t", k="0"))
    rule(m, "both", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+h": A.makechunk("", "t", id="new"), "+retrieval": A.makechunk("", "t", id="m")})
    rule(m, "goal", lambda: {"=h": A.makechunk("", "t", id="new", seen=vv(negvalues=("yes",)))}, lambda: {"=h": A.makechunk("", "t", seen="yes")})
    rule(m, "got", lambda: {"=retrieval": A.makechunk("", "t", id="m", a=a, seen=vv(negvalues=("yes",)))}, lambda: {"=retrieval": A.makechunk("", "t", seen="yes")})
    # apart enough that the two do not wait for each other
    S.assume(S.Or(L > D + rf + rf, D > L + rf + rf))
    ev = trace(prepared(m), 100)
    ordered(S, ev)
    at = lambda x: [e.time for e in ev if e.action.startswith(x)]  # noqa: E731
    for what, t in (("RULE FIRED: both", rf), ("CREATED A CHUNK", rf + D), ("RETRIEVED", rf + L), ("RULE FIRED: goal", rf + D + rf), ("RULE FIRED: got", rf + L + rf)):
        got = at(what)
        S.check(len(got) == 1 and S.close(got[0], t, 1.1e-4), "what runs in parallel takes its own time, and rules react at once", lambda: f"{what} at {got} wanted {t}: {ev}")
    S.cover("parallel: goal first" if S.known(D < L) else "parallel: retrieval first")
    S.cover("waited")


def replace(S):
    """A new request replaces a pending one."""
    A = act()
    rf, L = S.time("rf", 0, 1, lo_open=True, exact=True), S.time("L", 0, 3, lo_open=True, exact=True)
    S.assume(S.Not(S.eq(L, rf)))
    m = new_model(subsymbolic=True, latency_factor=L, latency_exponent=0, rule_firing=rf, retrieval_threshold=-10, baselevel_learning=False)
    m.decmem.add(A.makechunk("", "t", id="one"), 0)
    m.decmem.add(A.makechunk("", "t", id="two"), 0)
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "r1", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+retrieval": A.makechunk("", "t", id="one")})
    rule(m, "r2", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2"), "+retrieval": A.makechunk("", "t", id="two")})
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ev = trace(prepared(m), 100)
    ordered(S, ev)
    got = [e for e in ev if e.action.startswith("RETRIEVED")]
    S.check(slots_eq(S, held(m.retrieval), {"id": "two"}), "the last request is the one that is answered in the end", lambda: f"{ev}")
    if S.known(L < rf):
        S.cover("answered before")
        S.check(len(got) == 2 and S.close(got[0].time, rf + L, 1.1e-4) and S.close(got[1].time, 2 * rf + L, 1.1e-4), "both requests are answered in turn", lambda: f"{ev}")
    else:
        S.cover("replaced")
        S.check(len(got) == 1 and S.close(got[0].time, 2 * rf + L, 1.1e-4), "a new request replaces a pending one", lambda: f"{ev}")


def until(S):
    """run(max_time) processes what happens before max_time, and can be continued."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)
    t1, t2 = S.time("t1", 0, 3, lo_open=True), S.time("t2", 0, 5, lo_open=True)
    S.assume(t1 < t2)
    m = new_model(subsymbolic=False, rule_firing=rf)
    m.goal.add(A.makechunk("", "t", k="0"))
    n = 2
    for i in range(n):
        S.assume(S.Not(S.eq(rf * (i + 1), t1)))
        S.assume(S.Not(S.eq(rf * (i + 1), t2)))
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1))})
    sim = prepared(m)
    for t, what in ((t1, "run until"), (t2, "run on")):
        sim.run(t)
        done = 0
        for i in range(n):
            if S.known(rf * (i + 1) < t):
                done += 1
        S.check(S.eq(held(m.goal)["k"], str(done)), "a run processes exactly what happens before its end", lambda: f"{m.goal} {done}")
        S.check(S.close(sim.show_time(), t), "after a run the time is its end")
        S.cover(what)


def idle(S):
    """A model with nothing to do ends at once."""
    A = act()
    m = new_model(subsymbolic=False)
    m.goal.add(A.makechunk("", "t", k=S.str("k")))
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", k="never", j="x")}, lambda: {"=g": A.makechunk("", "t", k="1")})
    ev = trace(prepared(m), 20)
    S.check([e.action for e in ev] == ["CONFLICT RESOLUTION", "NO RULE FOUND"] and all(S.known(S.close(e.time, 0)) for e in ev), "a run without an applicable rule ends at once", lambda: f"{ev}")
    S.cover("nothing to do")


def steps(S, n):
    """steps(n) is n steps."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)

    def model():
        m = new_model(subsymbolic=False, rule_firing=rf)
        m.goal.add(A.makechunk("", "t", k="0"))
        for i in range(2):
            rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1))})
        return prepared(m)
    one, many = model(), model()
    for _ in range(n):
        one.step()
    many.steps(n)
    a, b = one.current_event, many.current_event
    S.check(a.action == b.action and a.proc == b.proc and S.close(a.time, b.time), "n steps at once are n single steps", lambda: f"{a} {b}")


def jobs(tier):
    out = [Job("c16", "chain", dict(n=n)) for n in (1, 2, 4)] + [Job("c16", "parallel", weight=2), Job("c16", "replace"), Job("c16", "until"), Job("c16", "idle")]
    out += [Job("c16", "steps", dict(n=n)) for n in (1, 3, 6)]
    if tier == "thorough":
        out += [Job("c16", "chain", dict(n=n)) for n in (3, 6, 10)] + [Job("c16", "steps", dict(n=n)) for n in (2, 4, 5, 7)]
    return out
