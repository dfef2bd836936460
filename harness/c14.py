"""C14: utility learning."""

from .c13 import first
from .common import *  # noqa: F403

BOUNDS = {
    "quick": "chains of 2 to 3 different rules fired in sequence (one of them possibly twice) with arbitrary utilities, learning rate, firing time and a reward (also 0 and negative) at one or two of them; then a choice between two rules by the learned utilities",
    "thorough": "chains of 4 different rules and of up to 6 firings, two rewards",
}
ASSUMPTIONS = ["learned utilities are compared within their rounding to 4 digits per update", "every selected rule of the chains fires (rules stopped from firing are left open)"]


def COVERS(tier):
    return ["learned", "not learning", "second reward", "fired twice", "zero reward", "choice"]


def chain(S, path, rewards, learning=True):
    """path: names of rules in the order in which they fire; rewards: names with a reward."""
    A = act()
    S.loose_rounding()
    alpha, rf = S.real("alpha", 0, 1), S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=S.flag("subsymbolic") if len(path) == 2 else False, utility_learning=learning, utility_alpha=alpha, rule_firing=rf)
    m.goal.add(A.makechunk("", "t", k="0"))
    names = sorted(set(path))
    U = {x: S.real("u_" + x, -10, 10) for x in names}
    R = {x: (0 if x == "z" else S.real("r_" + x, -10, 10)) for x in rewards}
    if "z" in rewards:
        S.cover("zero reward")
    steps = {x: [i for i, p in enumerate(path) if p == x] for x in names}
    for x in names:
        if len(steps[x]) == 1:
            i = steps[x][0]
            rule(m, x, lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1))}, utility=U[x], reward=R.get(x))
        else:
            S.cover("fired twice")
            others = tuple(str(i) for i in range(len(path) + 1) if i not in steps[x])

            def right():
                return {"=g": A.makechunk("", "t", k=str(int(str(held(m.goal)["k"])) + 1))}
            rule(m, x, lambda o=others: {"=g": A.makechunk("", "t", k=vv(negvalues=o))}, right, utility=U[x], reward=R.get(x))
    sim = prepared(m)
    ev = trace(sim, 8 * len(path) + 8)
    sel, fired = first(ev)
    S.check(fired == list(path), "the chain of rules fires", lambda: f"{fired} {path}")
    if fired != list(path):
        return
    want = dict(U)
    n = {x: 0 for x in names}
    if learning:
        pending = []
        nrew = 0
        for i, x in enumerate(path):
            pending.append((x, rf * i))
            if x in R:
                now = rf * (i + 1)
                for y, t in pending:
                    want[y] = want[y] + alpha * (R[x] - (now - t) - want[y])
                    n[y] += 1
                pending = []
                nrew += 1
                if nrew > 1:
                    S.cover("second reward")
        S.cover("learned")
    else:
        S.cover("not learning")
    for x in names:
        S.check(S.close(m.productions[x]["utility"], want[x], 0.51e-4 * n[x] + 1e-6), "the utility of a rule after the rewards", lambda: f"{x} {m.productions[x]['utility']} wanted {want[x]}")


def choice(S):
    """After a reward, the rule with the higher learned utility is preferred."""
    A = act()
    S.loose_rounding()
    alpha, rf = S.real("alpha", 0, 1), S.time("rf", 0, 1, lo_open=True)
    m = new_model(subsymbolic=S.flag("subsymbolic"), utility_learning=True, utility_alpha=alpha, rule_firing=rf)
    m.goal.add(A.makechunk("", "t", k="0"))
    u, v, r = S.real("u", -10, 10), S.real("v", -10, 10), S.real("r", -10, 10)
    rule(m, "a", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1")}, utility=u)
    rule(m, "b", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1")}, utility=v)
    rule(m, "back", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="0")}, reward=r)
    sim = prepared(m)
    ev = trace(sim, 40, stop=lambda es: len(first(es)[0]) == 3)
    sel = first(ev)[0]
    S.check(len(sel) == 3 and sel[1] == "back", "the rules alternate")
    if len(sel) != 3:
        return
    one, two = sel[0], sel[2]
    util = {"a": u, "b": v}
    S.check(util[one] >= util["b" if one == "a" else "a"], "the better rule is selected first")
    got = {x: m.productions[x]["utility"] for x in "ab"}
    util[one] = util[one] + alpha * (r - (rf + rf) - util[one])
    for x in "ab":
        S.check(S.close(got[x], util[x], 0.52e-4), "the learned utility", lambda: f"{x} {got[x]} {util[x]}")
    S.check(got[two] >= got["b" if two == "a" else "a"], "the rule of the higher learned utility is selected", lambda: f"{sel} {got}")
    S.cover("choice")


def jobs(tier):
    out = [Job("c14", "chain", dict(path=p, rewards=r, learning=l)) for p, r, l in (
        (("a", "b"), ("b",), True), (("a", "b"), ("b",), False), (("a", "b", "c"), ("c",), True), (("a", "b", "c"), ("a", "c"), True), (("a", "z"), ("z",), True),
        (("a", "b", "a", "c"), ("c",), True), (("a", "b", "a"), ("a",), True), (("a", "a", "b"), ("b",), True), (("a", "a"), ("a",), True))]
    out += [Job("c14", "choice", weight=2)]
    if tier == "thorough":
        out += [Job("c14", "chain", dict(path=p, rewards=r), budget=800) for p, r in ((("a", "b", "a", "b", "c"), ("c",)), (("a", "b", "c", "a", "b", "c"), ("c",)), (("a", "b", "c", "d", "e", "f"), ("b", "d", "f")),
                                                                       (("a", "z", "b", "c", "z"), ("z", "c")), (("a", "a", "a", "b"), ("b",)))]
    return out
