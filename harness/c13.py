"""C13: the applicable rule with the highest utility fires."""

import itertools

from .c09 import Draws
from .common import *  # noqa: F403

BOUNDS = {
    "quick": "2 to 3 rules with arbitrary utilities whose conditions hold or not depending on arbitrary slot values, with subsymbolic computation on or off, with or without utility noise (arbitrary draws and scale); rules defined as functions (with utility and reward among their arguments in any order) and through the production string; utilities changed, rules deleted, defined anew (also between two cycles) and added",
    "thorough": "4 rules without noise, 3 with",
}
ASSUMPTIONS = ["rules of equal utility: any of them may fire", "random draws are replaced by arbitrary numbers; the distribution asked for (logistic, location 0, scale s) is checked"]


def COVERS(tier):
    return ["chosen", "none applies", "beaten", "inapplicable better", "noise", "noise off", "changed", "string", "given", "edited", "redefined applies"]


def first(ev):
    sel = [e.action[len("RULE SELECTED: "):] for e in ev if e.action.startswith("RULE SELECTED: ")]
    fired = [e.action[len("RULE FIRED: "):] for e in ev if e.action.startswith("RULE FIRED: ")]
    return sel, fired


def stop(es):
    return es[-1].action == "NO RULE FOUND" or [e.action for e in es].count("CONFLICT RESOLUTION") > 1


def choose(S, n, subsymbolic=False, noise=False):
    A = act()
    s = S.real("s", 0, 5) if noise else 0
    m = new_model(subsymbolic=subsymbolic, utility_noise=s)
    g = S.str("g")
    m.goal.add(A.makechunk("", "t", a=g, n="0"))
    us, conds = [], []
    for i in range(n):
        v = S.str(f"v{i}")
        us.append(S.real(f"u{i}", -10, 10))
        conds.append(S.eq(g, v))
        rule(m, f"rule{i}", lambda v=v: {"=g": A.makechunk("", "t", a=v)}, lambda i=i: {"=g": A.makechunk("", "t", n=f"by{i}")}, utility=us[i])
    sim = prepared(m)
    with Draws(S) as draws:
        ev = trace(sim, 20, stop=stop)
        if draws.vals:
            draws.vals, draws.args = draws.vals[:n], draws.args[:n]
    ok = [i for i in range(n) if S.known(conds[i])]
    sel, fired = first(ev)
    if not ok:
        S.check(not sel and not fired and ev[-1].action == "NO RULE FOUND", "no rule is selected when none applies", lambda: f"{ev}")
        S.check(held(m.goal)["n"] == "0", "nothing changes when no rule applies")
        S.cover("none applies")
        return
    S.check(len(sel) == 1 and sel == fired, "one rule is selected and fires in a cycle", lambda: f"{ev}")
    if len(sel) != 1:
        return
    w = int(sel[0][4:])
    S.check(w in ok, "a rule fires only if it applies")
    S.check(held(m.goal)["n"] == f"by{w}", "the selected rule acts")
    S.cover("chosen")
    if subsymbolic and noise and S.known(s > 0):
        S.cover("noise")
        S.check(len(draws.vals) >= len(ok) and S.And(*[S.And(S.close(a, 0), S.close(b, s)) for a, b in draws.args]), "one logistic draw for every rule", lambda: f"{draws.args}")
        if len(draws.vals) < len(ok):
            return
        alts = []
        for perm in itertools.permutations(draws.vals, len(ok)):
            tot = dict(zip(ok, [us[i] + d for i, d in zip(ok, perm)]))
            alts.append(S.And(*[tot[w] >= tot[i] for i in ok]))
        S.check(S.Or(*alts), "with noise the applicable rule of the highest noisy utility fires", lambda: f"{us} {draws.vals} {ok} {w}")
    else:
        for i in range(n):
            if i in ok:
                S.check(us[w] >= us[i], "no applicable rule has a higher utility than the one that fires", lambda: f"{us} {ok} fired {w}")
                if i != w:
                    S.cover("beaten")
            elif S.known(us[i] > us[w]):
                S.cover("inapplicable better")
        if noise:
            S.cover("noise off")


def noisewin(S):
    """The noise added to a rule decides: the winner is attributed through very different utilities."""
    A = act()
    m = new_model(subsymbolic=True, utility_noise=1)
    m.goal.add(A.makechunk("", "t", a="x", n="0"))
    u = [S.real("u0", -10, 10), S.real("u1", -10, 10)]
    for i in range(2):
        rule(m, f"rule{i}", lambda: {"=g": A.makechunk("", "t", a="x")}, lambda i=i: {"=g": A.makechunk("", "t", n=f"by{i}")}, utility=u[i])
    with Draws(S) as draws:
        sel, fired = first(trace(prepared(m), 20, stop=stop))
        d = draws.vals[:2]
    S.check(len(d) == 2 and len(sel) == 1, "one draw for every rule")
    if len(d) == 2 and len(sel) == 1:
        w = int(sel[0][4:])
        S.check(S.Implies(u[w] + d[0] < u[1 - w] + d[1], u[w] + d[1] >= u[1 - w] + d[0]), "the noisy utility decides")
        lo = S.If(d[0] < d[1], d[0], d[1])
        hi = d[0] + d[1] - lo
        S.check(S.Not(u[w] + hi < u[1 - w] + lo), "a rule that noise cannot save does not fire")


def changed(S):
    """Utilities that change between two cycles are used from then on."""
    A = act()
    m = new_model(subsymbolic=S.flag("subsymbolic"))
    m.goal.add(A.makechunk("", "t", a="x", n="0"))
    u, w = [S.real("u0", -10, 10), S.real("u1", -10, 10)], [S.real("w0", -10, 10), S.real("w1", -10, 10)]
    for i in range(2):
        rule(m, f"rule{i}", lambda: {"=g": A.makechunk("", "t", a="x")}, lambda i=i: {"=g": A.makechunk("", "t", n=f"by{i}")}, utility=u[i])
    sim = prepared(m)
    ev = trace(sim, 20, stop=lambda es: es[-1].action.startswith("RULE SELECTED"))
    for i in range(2):
        m.productions[f"rule{i}"]["utility"] = w[i]
    ev = ev + trace(sim, 20, stop=lambda es: es[-1].action.startswith("RULE SELECTED"))
    sel = first(ev)[0]
    S.check(len(sel) == 2, "a rule is selected in every cycle")
    if len(sel) == 2:
        a, b = [int(x[4:]) for x in sel]
        S.check(u[a] >= u[1 - a], "the rule of the highest utility is selected")
        S.check(w[b] >= w[1 - b], "after a change of utilities the rule of the highest new utility is selected", lambda: f"{u} {w} {sel}")
        S.cover("changed")


def edited(S, during):
    """Rules are deleted, defined anew and added before the simulation, or deleted and defined anew within it (rules added within it wait for the next simulation)."""
    A = act()
    m = new_model(subsymbolic=False)
    g, q = S.str("g"), S.str("q")
    m.goal.add(A.makechunk("", "t", a=g, n="0"))
    u = [S.real(f"u{i}", -10, 10) for i in range(5)]
    lhs = lambda: {"=g": A.makechunk("", "t", a=g, n="1")}  # noqa: E731
    rhs = lambda i: (lambda: {"=g": A.makechunk("", "t", n=f"by{i}")})  # noqa: E731
    rule(m, "start", lambda: {"=g": A.makechunk("", "t", n="0")}, lambda: {"=g": A.makechunk("", "t", n="1")}, utility=20)
    for i in range(3):
        rule(m, f"rule{i}", lhs, rhs(i), utility=u[i])

    def edit():
        del m.productions["rule0"]
        rule(m, "rule1", lambda: {"=g": A.makechunk("", "t", a=q, n="1")}, rhs("new"), utility=u[3])
        if not during:
            rule(m, "rule3", lhs, rhs(3), utility=u[4])
    if not during:
        edit()
    sim = prepared(m)
    ev = trace(sim, 20, stop=lambda es: es[-1].action == "RULE FIRED: start")
    if during:
        edit()
    S.check(sorted(m.productions) == ["rule1", "rule2"] + ["rule3"] * (not during) + ["start"], "the rules are those that were not deleted", lambda: f"{sorted(m.productions)}")
    ev = ev + trace(sim, 20, stop=lambda es: es[-1].action.startswith("RULE FIRED"))
    sel = first(ev)[1][1:]
    util = {"rule2": u[2]} if during else {"rule2": u[2], "rule3": u[4]}
    if S.known(S.eq(g, q)):
        util["rule1"] = u[3]
        S.cover("redefined applies")
    S.check(len(sel) == 1 and sel[0] in util, "a rule that is defined now and applies is selected", lambda: f"{ev}")
    if len(sel) == 1 and sel[0] in util:
        S.check(S.And(*[util[sel[0]] >= v for v in util.values()]), "no applicable rule has a higher utility than the one that fires", lambda: f"{util} {sel}")
        S.check(val_eq(S, held(m.goal).get("n"), "by" + {"rule1": "new"}.get(sel[0], sel[0][4:])), "the rule does what its latest definition says", lambda: f"{m.goal}")
        S.cover("edited")


def strings(S):
    """Rules given as text, with utilities."""
    A = act()
    m = new_model(subsymbolic=False)
    g = S.str("g", ("one", "two"))
    m.goal.add(A.makechunk("", "t", a=g, n="0"))
    u = [S.real("u0", -10, 10), S.real("u1", -10, 10)]
    m.productionstring(name="rule0", string="""
        =g>
        isa t
        a one
        ==>
        =g>
        isa t
        n by0""", utility=u[0])
    m.productionstring(name="rule1", string="""
        =g>
        isa t
        a ~two
        ==>
        =g>
        isa t
        n by1""", utility=u[1])
    ev = trace(prepared(m), 20, stop=stop)
    sel, fired = first(ev)
    S.cover("string")
    if S.known(S.eq(g, "two")):
        return S.check(not sel, "no rule applies")
    S.check(len(fired) == 1 and sel == fired, "a rule fires")
    if fired:
        if S.known(S.eq(g, "one")):
            w = int(fired[0][4:])
            S.check(u[w] >= u[1 - w], "the better rule fires")
        else:
            S.check(fired == ["rule1"], "the applicable rule fires")


def functions(u, r):
    """Rules as functions that carry their utility and reward, written in different ways."""
    A = act()

    def left(k):
        return {"=g": A.makechunk("", "t", k=k)}

    def zero(utility=u[0], reward=r[0]):
        yield left("0")
        yield left("zero")

    def one(reward=r[1], utility=u[1]):
        yield left("0")
        yield left("one")

    def two(other="x", utility=u[2]):
        yield left("0")
        yield left("two")

    def three(reward=r[3], other=1):
        yield left("0")
        yield left("three")

    def four():
        yield left("0")
        yield left("four")
    return [zero, one, two, three, four]


NAMES = ("zero", "one", "two", "three", "four")


def given(S, how):
    """Utilities and rewards given with functions, texts, or set afterwards."""
    A = act()
    m = new_model(subsymbolic=False)
    m.goal.add(A.makechunk("", "t", k="0"))
    u, r = [S.real(f"u{i}", -10, 10) for i in range(5)], [S.real(f"r{i}", -10, 10) for i in range(5)]
    if how == "functions":
        U, R = [u[0], u[1], u[2], 0, 0], [r[0], r[1], None, r[3], None]
        m.set_productions(*functions(u, r))
    elif how == "text":
        U, R = [u[0], u[1], 0, 0, u[4]], [None, r[1], None, r[3], r[4]]
        args = ((u[0], None), (u[1], r[1]), (), None, (u[4], r[4]))
        for i, x in enumerate(NAMES):
            kw = dict(reward=r[3]) if i == 3 else dict(zip(("utility", "reward"), args[i]))
            m.productionstring(name=x, string=f"=g>\nisa t\nk 0\n==>\n=g>\nisa t\nk {x}", **kw)
    else:
        U, R = u, r
        m.set_productions(*functions([0] * 5, [None] * 5))
        for i, x in enumerate(NAMES):
            m.productions[x]["utility"] = u[i]
            m.productions[x]["reward"] = r[i]
    ev = trace(prepared(m), 20, stop=stop)
    for i, x in enumerate(NAMES):
        p = m.productions[x]
        S.check(S.close(p["utility"], U[i]), "the utility given to a rule", lambda: f"{x} {p['utility']} {U[i]}")
        S.check((p["reward"] is None) == (R[i] is None) and (R[i] is None or S.close(p["reward"], R[i])), "the reward given to a rule", lambda: f"{x} {p['reward']} {R[i]}")
    sel, fired = first(ev)
    S.check(len(sel) == 1 and sel == fired, "one rule is selected and fires", lambda: f"{ev}")
    w = NAMES.index(sel[0])
    S.check(S.And(*[U[w] >= x for x in U]), "the rule of the highest given utility fires", lambda: f"{U} {sel}")
    S.check(held(m.goal)["k"] == sel[0], "the selected rule acts")
    S.cover("given")


def jobs(tier):
    out = [Job("c13", "choose", dict(n=n, subsymbolic=b), weight=n) for n in (2, 3) for b in (False, True)]
    out += [Job("c13", "choose", dict(n=2, subsymbolic=b, noise=True), weight=3) for b in (False, True)]
    out += [Job("c13", "noisewin"), Job("c13", "changed"), Job("c13", "edited", dict(during=False)), Job("c13", "edited", dict(during=True)), Job("c13", "strings")]
    out += [Job("c13", "given", dict(how=h)) for h in ("functions", "text", "afterwards")]
    if tier == "thorough":
        out += [Job("c13", "choose", dict(n=4, subsymbolic=b), budget=800, weight=6) for b in (False, True)]
        out += [Job("c13", "choose", dict(n=3, subsymbolic=True, noise=True), budget=800, weight=6)]
    return out
