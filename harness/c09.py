"""C09: subsymbolic retrieval picks the most active chunk that reaches the threshold."""

import itertools

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "memories of 2 to 3 chunks with arbitrary activations, arbitrary or empty slot values, requests with a value, a bound variable or an excluded value, with and without partial matching (arbitrary penalty and similarity), 0 to 2 remembered retrievals over 2 requests, arbitrary noise draws, threshold, latency factor and exponent; the request made directly and by a rule",
    "thorough": "3 chunks with partial matching and 2 requests, 3 noise draws",
}
ASSUMPTIONS = ["equally active chunks: any of them may be retrieved", "random draws are replaced by arbitrary numbers; their declared distribution (logistic, location 0, scale s) is checked, not the generator",
               "activations are set through manual activations of chunks that have no past presentation (C10 decides how other activations arise)"]

TESTS = {"none": {}, "no": {"recently_retrieved": False}, "yes": {"recently_retrieved": "True"}}


def COVERS(tier):
    return ["retrieved", "failed", "at the threshold", "beaten", "mismatching", "recently retrieved", "noise", "no noise", "by rule", "rule fails", "all components", "own parameters"]


class Draws:
    """Stands in for the random generator: arbitrary numbers."""

    def __init__(self, S):
        self.S, self.vals, self.args = S, [], []

    def __call__(self, loc=0.0, scale=1.0, size=None):
        import numpy as np
        n = 1 if size is None else int(np.prod(size))
        new = [self.S.real(f"draw{len(self.vals) + i}", -5, 5) for i in range(n)]
        self.vals += new
        self.args += [(loc, scale)] * n
        return new[0] if size is None else new

    def __enter__(self):
        import numpy as np
        self.old = np.random.logistic
        np.random.logistic = self
        return self

    def __exit__(self, *a):
        import numpy as np
        np.random.logistic = self.old


def judge(S, got, extra, level, cands, thr, F, f, what=""):
    """cands: [(chunk, activation)] the candidates."""
    if got is None:
        for _c, a in cands:
            S.check(a < thr, "a retrieval fails only if no suitable chunk reaches the threshold" + what, lambda: f"{cands} threshold {thr}")
        S.check(S.close(extra, F * S.exp(-f * thr)), "the time of a failed retrieval" + what)
        S.cover("failed")
        return
    mine = [(c, a) for c, a in cands if c is got or S.known(c == got)]
    S.check(len(mine) == 1, "a retrieved chunk is in memory, matches and passes the recency test" + what, lambda: f"{got} of {cands}")
    if len(mine) != 1:
        return
    a = mine[0][1]
    S.check(a >= thr, "a retrieved chunk reaches the threshold" + what)
    if S.known(S.close(a, thr, 0) if not S.symbolic else a == thr):
        S.cover("at the threshold")
    for c, b in cands:
        if c is not mine[0][0]:
            S.check(a >= b, "a retrieved chunk is the most active" + what, lambda: f"{got} of {cands}")
            S.cover("beaten")
    S.check(S.close(level, a), "the recorded activation is that of the retrieved chunk" + what)
    S.check(S.close(extra, F * S.exp(-f * a)), "the time of a retrieval" + what)
    S.cover("retrieved")


def choose(S, nmem, kinds, partial=False, nreq=1, tests=("none",), finst=0, firsttest=None, own=False):
    """own: the parameters are given to the buffer, which puts them before those of the model."""
    A = act()
    thr, F, f = S.real("threshold", -5, 5), S.real("F", 0, 5), S.real("f", 0, 5)
    P = S.real("P", 0, 5) if partial else 1
    params = dict(retrieval_threshold=thr, latency_factor=F, latency_exponent=f, partial_matching=partial, mismatch_penalty=P)
    if own:
        m = new_model(subsymbolic=not (own == "all"), baselevel_learning=True, retrieval_threshold=S.real("othert", -5, 5), latency_factor=S.real("otherF", 0, 5), latency_exponent=1, partial_matching=not partial, mismatch_penalty=7)
        m.retrieval.model_parameters = {**params, **({"subsymbolic": True} if own == "all" else {})}
        S.cover("own parameters")
    else:
        m = new_model(subsymbolic=True, baselevel_learning=True, **params)
    now = S.time("now", 0, 10)
    rows = []
    for i in range(nmem):
        sp = {"a": S.str(f"a{i}", ("None",)), "id": str(i)}
        c = A.makechunk("", "t", **sp)
        m.decmem.add(c, now)
        act_i = S.real(f"A{i}", -5, 5)
        m.decmem.add_activation(c, act_i)
        rows.append((c, sp, act_i))
    rb = m.retrieval
    if finst:
        rb.finst = finst
    prepared(m)
    recent = []
    for j in range(nreq):
        kind = kinds[j % len(kinds)]
        q = S.str(f"q{j}")
        variables = {}
        if kind == "val":
            given = {"a": q}
        elif kind == "var":
            given = {"a": vv(variables="x")}
            variables["=x"] = q
        elif kind == "not":
            given = {"a": vv(negvalues=(q,))}
        test = S.choice(f"test{j}", tests)
        got, extra = retrieve(m, now, A.makechunk("", "r", **given), variables, dict(TESTS[test]))
        cands = []
        for c, sp, a in rows:
            fits = val_eq(S, q, sp["a"])
            if kind == "not":
                fits = S.Not(fits)
            if partial:
                if not S.known(fits):
                    a = a - P
                    S.cover("mismatching")
            elif not S.known(fits):
                continue
            if finst and test != "none":
                was = any(c is r for r in recent)
                if was:
                    S.cover("recently retrieved")
                if was == (test == "no"):
                    continue
            cands.append((c, a))
        judge(S, got, extra, rb.activation, cands, thr, F, f)
        if got is not None and finst:
            recent = (recent + [c for c, _s, _a in rows if c is got or S.known(c == got)])[-finst:]


def noisy(S, nmem):
    """Noise is added to every candidate: one draw each from the logistic distribution around 0 with the scale set."""
    A = act()
    thr, F, f = S.real("threshold", -5, 5), S.real("F", 0, 5), S.real("f", 0, 5)
    s = S.real("s", 0, 5)
    m = new_model(subsymbolic=True, baselevel_learning=True, retrieval_threshold=thr, latency_factor=F, latency_exponent=f, instantaneous_noise=s)
    rows = []
    for i in range(nmem):
        c = A.makechunk("", "t", a="x", id=str(i))
        m.decmem.add(c, 1)
        a = S.real(f"A{i}", -5, 5)
        m.decmem.add_activation(c, a)
        rows.append((c, a))
    prepared(m)
    with Draws(S) as draws:
        got, extra = retrieve(m, 1, A.makechunk("", "r", a="x"))
    if S.known(S.eq(s, 0)):
        S.cover("no noise")
        for v in draws.args:
            S.check(S.close(v[1], 0), "without noise nothing is drawn")
        return judge(S, got, extra, m.retrieval.activation, rows, thr, F, f, " without noise")
    S.cover("noise")
    S.check(len(draws.vals) == nmem and S.And(*[S.And(S.close(l, 0), S.close(k, s)) for l, k in draws.args]), "one draw from the logistic distribution for every candidate",
            lambda: f"{draws.args} s={s}")
    if len(draws.vals) != nmem:
        return
    alts = []
    for perm in itertools.permutations(draws.vals):
        tot = [a + n for (_c, a), n in zip(rows, perm)]
        if got is None:
            alts.append(S.And(S.close(extra, F * S.exp(-f * thr)), *[t < thr for t in tot]))
        else:
            i = [i for i, (c, _a) in enumerate(rows) if c is got or S.known(c == got)][0]
            alts.append(S.And(tot[i] >= thr, S.close(m.retrieval.activation, tot[i]), S.close(extra, F * S.exp(-f * tot[i])), *[tot[i] >= t for t in tot]))
    S.check(S.Or(*alts), "with noise the most active chunk above the threshold is retrieved", lambda: f"{got} {rows} {draws.vals}")


def components(S):
    """Activation is base level + spreading + partial matching + noise."""
    A = act()
    thr, F, f = S.real("threshold", -5, 5), S.real("F", 0, 5), S.real("f", 0, 5)
    P, W, st = S.real("P", 0, 5), S.real("W", 0, 5), S.real("S", 0, 5)
    sim = S.real("sim", -5, 0)
    m = new_model(subsymbolic=True, baselevel_learning=True, retrieval_threshold=thr, latency_factor=F, latency_exponent=f, partial_matching=True, mismatch_penalty=P,
                  instantaneous_noise=1, strength_of_association=st, buffer_spreading_activation={"g": W}, decay=S.real("d", 0, 1, hi_open=True))
    d = m.model_parameters["decay"]
    m.set_similarities("red", "blue", sim)
    inner = A.makechunk("", "t", k="v")
    now, t0 = S.time("now", 0, 10), S.time("t0", 0, 10)
    S.assume(t0 < now)
    c = A.makechunk("", "t", a=inner, b="red")
    m.decmem.add(c, t0)
    m.goal.add(A.makechunk("", "g", s=inner))
    prepared(m)
    q = S.str("q", ("blue", "red"))
    with Draws(S) as draws:
        got, extra = retrieve(m, now, A.makechunk("", "r", b=q), buffers={"g": m.goal})
    fit = 0 if S.known(S.eq(q, "red")) else sim if S.known(S.eq(q, "blue")) else -P
    noise = draws.vals[0] if draws.vals else 0
    tot = S.log(S.pow(now - t0, -d)) + W * (st - S.log(2)) + fit + noise
    judge(S, got, extra, m.retrieval.activation, [(c, tot)], thr, F, f, " (all components)")
    S.cover("all components")


def by_rule(S):
    """When the chunk, or the error, arrives."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True, exact=True)
    thr, F, f, a = S.real("threshold", -3, 3), S.real("F", 0, 5, lo_open=True), S.real("f", 0, 2), S.real("a", -3, 3)
    m = new_model(subsymbolic=True, rule_firing=rf, retrieval_threshold=thr, latency_factor=F, latency_exponent=f, baselevel_learning=False)
    c = A.makechunk("", "t", a="x")
    m.decmem.add(c, 0)
    m.decmem.add_activation(c, a)
    m.goal.add(A.makechunk("", "g", s="1"))
    rule(m, "ask", lambda: {"=g": A.makechunk("", "g", s="1")}, lambda: {"=g": A.makechunk("", "g", s="2"), "+retrieval": A.makechunk("", "t", a="x")})
    rule(m, "full", lambda: {"=g": A.makechunk("", "g", s="2"), "?retrieval": {"buffer": "full", "state": "free"}}, lambda: {"=g": A.makechunk("", "g", s="full")})
    rule(m, "error", lambda: {"=g": A.makechunk("", "g", s="2"), "?retrieval": {"state": "error"}}, lambda: {"=g": A.makechunk("", "g", s="error")})
    sim = prepared(m)
    ev = trace(sim, 60)
    done = [e for e in ev if e.action.startswith("RETRIEVED")]
    S.check(len(done) == 1, "one request is answered once")
    if len(done) != 1:
        return
    B = S.log(1 + S.exp(a))
    if S.known(B >= thr):
        S.check(slots_eq(S, held(m.retrieval), {"a": "x"}), "the retrieved chunk arrives in the buffer")
        S.check(S.close(done[0].time, rf + F * S.exp(-f * B), 1.1e-4), "the chunk arrives after the retrieval time")
        S.check(held(m.goal) and held(m.goal)["s"] == "full", "a rule sees the chunk")
        S.cover("by rule")
    else:
        S.check(held(m.retrieval) is None, "a failed retrieval leaves the buffer empty")
        S.check(S.close(done[0].time, rf + F * S.exp(-f * thr), 1.1e-4), "the failure is known after the time for the threshold")
        S.check(held(m.goal) and held(m.goal)["s"] == "error", "a rule sees the error")
        S.cover("rule fails")


def jobs(tier):
    out = [Job("c09", "choose", dict(nmem=n, kinds=(k,)), weight=n) for k in ("val", "var", "not") for n in (2, 3)]
    out += [Job("c09", "choose", dict(nmem=2, kinds=(k,), partial=True), weight=2) for k in ("val", "not")]
    out += [Job("c09", "choose", dict(nmem=2, kinds=("val", "val"), nreq=2, tests=("no", "yes"), finst=i), prefix={"test1": j}, weight=3) for i in (1, 2) for j in (0, 1)]
    out += [Job("c09", "choose", dict(nmem=2, kinds=("val",), partial=q, own=o), weight=2) for q in (False, True) for o in ("some", "all")]
    out += [Job("c09", "noisy", dict(nmem=n), weight=n) for n in (1, 2)]
    out += [Job("c09", "components"), Job("c09", "by_rule", weight=3)]
    if tier == "thorough":
        out += [Job("c09", "choose", dict(nmem=3, kinds=(k,), partial=True), budget=800, weight=6) for k in ("val", "not", "var")]
        out += [Job("c09", "choose", dict(nmem=3, kinds=("val", k), nreq=2, tests=("no", "yes", "none"), finst=i), prefix={"test0": h, "test1": j}, budget=800, weight=6)
                for k in ("val", "not") for i in (1, 2) for h in (0, 1, 2) for j in (0, 1)]
        out += [Job("c09", "noisy", dict(nmem=3), budget=800, weight=6)]
    return out
