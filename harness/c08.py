"""C08: retrieval without subsymbolic computations."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "memories of 2 to 3 chunks with arbitrary (or missing) slot values, that may be equal, stored at arbitrary times; up to 2 requests (3 for one slot, 4 to a memory of two given chunks) over 2 slots (a value, a bound or unbound variable, an excluded value), with 0 to 2 remembered retrievals and every recently-retrieved test; up to three requests of rules with and without such a test, to one or two retrieval buffers",
    "thorough": "3 chunks and 3 requests, 5 requests to a memory of three given chunks",
}
ASSUMPTIONS = ["which of several suitable chunks is retrieved is left open (the library takes the last one stored)",
               "the number of remembered retrievals is set once, before the first request"]

TESTS = {"none": {}, "no": {"recently_retrieved": False}, "No": {"recently_retrieved": "False"}, "yes": {"recently_retrieved": True}, "Yes": {"recently_retrieved": "True"}}


def COVERS(tier):
    return ["found", "not found", "just stored", "recently retrieved", "only recent", "failed before", "busy", "error state", "by rule: in vain", "by rule: no", "by rule: yes", "by rule: no test after one"]


def requests(S, nmem, nreq, pats, tests=("none",), finsts=(0,), absent=False, fixed=False):
    A = act()
    m = new_model(subsymbolic=False, rule_firing=S.time("rf", 0, 1))
    rf = m.model_parameters["rule_firing"]
    dm, rows = m.decmem, []
    for i in range(nmem):
        sp = {"a": "klm"[i] if fixed else S.str(f"a{i}", ("None",)), "zz": "x"}
        if len(pats[0]) > 1:
            sp["b"] = S.str(f"b{i}") if not absent or S.flag(f"has_b{i}") else None
        c = A.makechunk("", "t", **{k: v for k, v in sp.items() if v is not None})
        t = i * 0.5 if fixed else S.time(f"t{i}", 0, 10)
        dm.add(c, t)
        old = [r for r in rows if S.known(slots_eq(S, r[1], sp))]
        if not old:
            rows.append((c, sp, t))
    rb = m.retrieval
    finst = S.choice("finst", finsts)
    if finst:
        rb.finst = finst
    prepared(m)
    recent = []
    failed = False
    for j in range(nreq):
        pat = pats[j % len(pats)]
        now = 2 + j if fixed else S.time(f"now{j}", 0, 10)
        given, variables, need = {}, {}, []
        for s, kind in pat.items():
            v = S.str(f"q{j}{s}", tuple("klm"[:nmem]) if fixed else ()) if kind != "free" else None
            if kind == "val":
                given[s] = v
            elif kind == "not":
                given[s] = vv(negvalues=(v,))
            elif kind == "var":
                given[s] = vv(variables="x" + s)
                variables["=x" + s] = v
            need.append((s, kind, v))
        if not given:
            given["zz"] = "x"
        test = S.choice(f"test{j}", tests)
        req = A.makechunk("", "r", **given)
        got, extra = retrieve(m, now, req, variables, dict(TESTS[test]))
        ok = []
        for c, sp, t in rows:
            conds = [S.Not(S.close(t, now, 0)) if not S.symbolic else t != now]
            if not S.known(conds[0]):
                S.cover("just stored")
            for s, kind, v in need:
                e = val_eq(S, v, sp.get(s))
                conds.append(S.Not(e) if kind == "not" else e)
            if finst and test != "none":
                was = any(c is r for r in recent)
                if was:
                    S.cover("recently retrieved" if test in ("no", "No") else "only recent")
                if was == (test in ("no", "No")):
                    continue
            ok.append((c, S.And(*conds)))
        if got is None:
            S.check(S.Not(S.Or(*[k for _c, k in ok])), "a retrieval fails only if no chunk is suitable", lambda: f"{req} {variables} {dm} {recent}")
            S.check(S.close(extra, rf), "failing takes one rule firing")
            S.cover("not found")
            failed = True
        else:
            mine = [k for c, k in ok if c is got or S.known(c == got)]
            S.check(len(mine) == 1 and mine[0], "the retrieved chunk is in memory, matches, is not new and passes the recency test",
                    lambda: f"got {got} for {req} {variables} {dm} {recent}")
            S.check(S.close(extra, 0), "a retrieval takes no time")
            S.cover("found")
            if failed:
                S.cover("failed before")
            own = [c for c, _sp, _t in rows if c is got or S.known(c == got)]
            recent = (recent + own)[-finst:] if finst else []


def by_rule(S):
    """The buffer after a successful and an unsuccessful request made by rules."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=False, rule_firing=rf)
    a, q = S.str("a"), S.str("q")
    m.decmem.add(A.makechunk("", "t", a=a, b="x"), 0)
    m.goal.add(A.makechunk("", "g", s="1", q=q))
    rule(m, "ask", lambda: {"=g": A.makechunk("", "g", s="1", q=vv(variables="q"))},
         lambda: {"=g": A.makechunk("", "g", s="2"), "+retrieval": A.makechunk("", "t", a=vv(variables="q"))})
    rule(m, "busy", lambda: {"=g": A.makechunk("", "g", s="2"), "?retrieval": {"state": "busy"}}, lambda: {"=g": A.makechunk("", "g", s="2")})
    rule(m, "full", lambda: {"=g": A.makechunk("", "g", s="2"), "?retrieval": {"buffer": "full", "state": "free"}}, lambda: {"=g": A.makechunk("", "g", s="full")})
    rule(m, "error", lambda: {"=g": A.makechunk("", "g", s="2"), "?retrieval": {"state": "error"}}, lambda: {"=g": A.makechunk("", "g", s="error")})
    sim = prepared(m)
    ev = trace(sim, 60, 10)
    acts = [e.action for e in ev]
    done = [e for e in ev if e.action.startswith("RETRIEVED")]
    if any(x == "RULE SELECTED: busy" for x in acts):
        S.cover("busy")
    S.check(len(done) == 1, "one request is answered once")
    if S.known(S.eq(a, q)):
        S.check(slots_eq(S, held(m.retrieval), {"a": a, "b": "x"}), "the retrieved chunk is in the buffer")
        S.check(S.close(done[0].time, rf) if done else False, "the answer comes at once")
        S.check(val_eq(S, held(m.goal)["s"], "full") if held(m.goal) else False, "a rule sees the buffer full and free")
    else:
        S.check(held(m.retrieval) is None, "a failed retrieval leaves the buffer empty")
        S.check(S.close(done[0].time, rf + rf) if done else False, "failing takes one rule firing time")
        S.check(val_eq(S, held(m.goal)["s"], "error") if held(m.goal) else False, "a rule sees the error state")
        S.cover("error state")


def recency_by_rule(S, n, buffers=("retrieval",)):
    """Rules that ask for what was recently retrieved or not, or do not care; of two retrieval buffers each has its own."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=False, rule_firing=rf)
    for b in buffers[1:]:
        m.set_retrieval(b)
    finst = {b: S.choice("finst " + b, (1, 2)) if len(buffers) == 1 else i + 1 for i, b in enumerate(buffers)}
    for b in buffers:
        m.retrievals[b].finst = finst[b]
    vals = [S.str("a0"), S.str("a1")]
    same = S.known(S.eq(*vals))
    rows = [{"a": v, "id": str(i)} for i, v in enumerate(vals)]
    for r in rows:
        m.decmem.add(A.makechunk("", "t", **r), 0)
    q = S.str("q") if len(buffers) == 1 else vals[0]
    m.goal.add(A.makechunk("", "g", s="0"))
    steps = []
    for i in range(n):
        b, ask = (S.choice(f"buffer{i}", buffers) if len(buffers) > 1 else buffers[0]), S.choice(f"ask{i}", ("none", "no", "yes"))
        steps.append((b, ask))
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "g", s=str(i))},
             lambda i=i, b=b, ask=ask: {"=g": A.makechunk("", "g", s=str(i + 1)), **({"?" + b: TESTS[ask]} if ask != "none" else {}), "+" + b: A.makechunk("", "t", a=q)})
        rule(m, f"wait{i}", lambda i=i, b=b: {"=g": A.makechunk("", "g", s=str(i + 1)), "?" + b: {"state": "busy"}}, lambda i=i: {"=g": A.makechunk("", "g", s=str(i + 1))})
    # answers come at once and failures take one firing: the next rule fires then, too
    ev = trace(prepared(m), 200, 20)
    done = [e for e in ev if e.action.startswith("RETRIEVED")]
    recent = {b: [] for b in buffers}
    possible = [i for i in range(2) if S.known(S.eq(vals[i], q))]
    detail = lambda: f"{steps} {vals} {q} {finst} {ev}"  # noqa: E731
    S.check(len(done) <= n and all(e.proc in buffers for e in done), "one request is answered at most once", detail)
    at = 0
    for j, (b, ask) in enumerate(steps):
        ok = [i for i in possible if ask == "none" or (i in recent[b]) == (ask == "yes")]
        if not ok:
            S.cover("by rule: in vain")
            return  # a failing retrieval may be replaced by the next request
        got = [i for i in range(2) if at < len(done) and done[at].proc == b and f"id= {i}" in done[at].action]
        S.check(len(got) == 1 and got[0] in ok, "a rule retrieves what passes its own recency test", lambda: f"{j} {got} {ok} {detail()}")
        if len(got) != 1:
            return
        at += 1
        recent[b] = (recent[b] + got)[-finst[b]:]
        if j and ask == "none" and steps[j - 1][1] != "none":
            S.cover("by rule: no test after one")
        if ask != "none":
            S.cover("by rule: " + ask)
    S.cover("equal" if same else "different")


def jobs(tier):
    P = lambda *ks: tuple({s: k for s, k in zip("ab", kk.split())} for kk in ks)  # noqa: E731
    alltests = tuple(TESTS)
    out = [Job("c08", "requests", dict(nmem=2, nreq=1, pats=P(k)), weight=1) for k in ("val", "var", "not")]
    out += [Job("c08", "requests", dict(nmem=2, nreq=1, pats=P(k), absent=True), weight=2) for k in ("val val", "val not", "var not", "not val")]
    out += [Job("c08", "requests", dict(nmem=3, nreq=1, pats=P("val")), weight=2)]
    out += [Job("c08", "requests", dict(nmem=2, nreq=2, pats=P("val", "val"), tests=alltests, finsts=(0, 1, 2)), budget=300, prefix={"finst": i, "test0": j}, weight=3) for i in range(3) for j in range(5) if i or not j]
    out += [Job("c08", "requests", dict(nmem=2, nreq=3, pats=P("val", "val"), tests=("no", "yes"), finsts=(1, 2)), prefix={"finst": i, "test1": j}, weight=4) for i in range(2) for j in range(2) if not i or tier == "thorough"]
    out += [Job("c08", "requests", dict(nmem=2, nreq=4, pats=P("val"), tests=("no", "yes"), finsts=(2,), fixed=True), prefix={"test0": 0, "test1": j, "test2": k}, weight=3) for j in range(2) for k in range(2)]
    out += [Job("c08", "recency_by_rule", dict(n=n)) for n in (2, 3)] + [Job("c08", "recency_by_rule", dict(n=3, buffers=("retrieval", "other")), weight=2)]
    out += [Job("c08", "by_rule"), Job("c10", "offclock", dict(subsymbolic=False))]
    if tier == "thorough":
        out += [Job("c08", "requests", dict(nmem=3, nreq=5, pats=P("val"), tests=("no", "yes"), finsts=(f,), fixed=True), prefix={"test0": 0, "test1": j, "test2": k}, budget=800, weight=6) for j in range(2) for k in range(2) for f in (2, 3)]
        out += [Job("c08", "requests", dict(nmem=3, nreq=1, pats=P(a + " " + b), absent=True), budget=800, weight=5) for a in ("val", "not") for b in ("var", "not")]
        out += [Job("c08", "requests", dict(nmem=2, nreq=3, pats=P("val", "var"), tests=("no", "yes", "none"), finsts=(1, 2, 3)), prefix={"finst": i, "test0": j, "test1": k}, budget=800, weight=6)
                for i in range(3) for j in range(3) for k in range(3)]
    return out
