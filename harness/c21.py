"""C21: production compilation."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "pairs of rules that test (values, variables, excluded values and variables), modify, clear and replace chunks in one or two goal buffers of 2 slots, and a retrieval between them, for all values in the patterns, in the buffers when the rules are compiled and in the buffers afterwards",
    "thorough": "all pairs out of 14 first and 16 second rules, half of all pairs with seven kinds of tests per slot, 3 slots",
}
ASSUMPTIONS = ["a rule that creates a new chunk in a buffer which the second rule then modifies is not claimed (the repository's tests fix that it is compiled into a modification)",
               "compiled rules with a retrieval are compared with the two rules on the same memory of one chunk"]


def COVERS(tier):
    return ["compiled", "applies", "does not apply", "retrieved", "not compiled", "once more", "re-created", "late", "another", "seeing"]


def part(kind, lits):
    pos, neg = [p for p in kind.split() if p[0] != "~" and p != "-"], [p[1:] for p in kind.split() if p[0] == "~"]
    return vv(values=next((lits[p] for p in pos if p in lits), None), variables=next((p for p in pos if p not in lits), None),
              negvalues=tuple(lits[p] for p in neg if p in lits), negvariables=tuple(p for p in neg if p not in lits))


def side(spec, lits, k):
    """One side of a rule: kinds per slot (- nothing, u v w literals, N empty, x y z variables, ~ excluded) for each key; k is the control slot of g."""
    A = act()
    out = {}
    for key, kinds in spec.items():
        if kinds is None or isinstance(kinds, dict):
            out[key] = kinds
            continue
        if key[1:] == "manual":
            out[key] = A.makechunk("", "_manual", cmd="press_key", key=kinds[0])
            continue
        kw = {s: part(kind, lits) for s, kind in zip(SLOTS, kinds) if kind != "-"}
        out[key] = A.makechunk("", "f" if key[1:] == "retrieval" else "t", **({"k": str(k)} if key[1:] == "g" else {}), **kw)
    out.setdefault("=g", A.makechunk("", "t", k=str(k))) if "+g" not in out and "@g" not in out else None
    return out


def world(S, rules, lits, fact, compilation, slots):
    A = act()
    m = new_model(subsymbolic=False, production_compilation=compilation)
    A.chunktype("t", " ".join(SLOTS[:slots]) + " k")
    A.chunktype("f", " ".join(SLOTS[:slots]))
    m.set_goal("g")
    m.set_goal("h")
    for name, i, (l, r) in rules:
        rule(m, name, lambda i=i, l=l: side(l, lits, i), lambda i=i, r=r: side(r, lits, i + 1))
    if fact is not None:
        m.decmem.add(A.makechunk("", "f", **dict(zip(SLOTS, fact))), 0)
    return m


def run(S, m, g, h, limit=40):
    A = act()
    for name, vals, k in (("g", g, {"k": "0"}), ("h", h, {})):
        b = m.goals[name]
        if len(b):
            b.pop()
        if vals is not None:
            b.add(A.makechunk("", "t", **dict(zip(SLOTS, vals)), **k))
    ev = trace(prepared(m), limit)
    fired = [e.action[12:] for e in ev if e.action.startswith("RULE FIRED")]
    told = [e.action for e in ev if e.action.startswith("RULE ") and e.action[5:].split(":")[0] in ("SELECTED", "FIRED", "CREATED", "RE-CREATED", "STOPPED FROM FIRING")]
    S.check([e.action for e in ev if e.action.startswith("RULE ")] == told and all(a.split(": ", 1)[1] in m.productions for a in told), "every event about a rule names a rule of the model", lambda: [e.action for e in ev if e.action.startswith("RULE ")])
    return fired, {**{x: held(m.goals[x]) for x in ("g", "h")}, "keys": {str(i): e.action for i, e in enumerate(e for e in ev if e.action.startswith("KEY PRESSED"))}}, ev


def same(S, a, b):
    return S.And(*[slots_eq(S, a[x], b[x]) for x in a])


def values(S, p, spec):
    """Symbolic contents: * any value or empty, - empty, other letters literals."""
    return None if spec is None else [S.str(f"{p}{i}", ["None"]) if kind == "*" else None if kind == "-" else kind for i, kind in enumerate(spec)]


def pair(S, first, second, h=None, fact=None, slots=2, made=True, memory=False, then=False):
    """first, second: the sides (LHS, RHS) of the rules; the compiled rule does what they do."""
    used = " ".join(k for half in first + second for kinds in half.values() if isinstance(kinds, (list, tuple)) for k in kinds)
    lits = {x: S.str(x, ["None"]) for x in "uvw" if x in used}
    for l in lits.values():
        S.assume(S.Not(S.eq(l, "None")))
    lits["N"] = "None"
    rules = [("A", 0, first), ("B", 1, second)]
    if then:
        rules.append(("C", 2, ({}, {})))
    facts = None if fact is None else [lits.get(x, x) if x in lits else S.str(f"f{i}", ["None"]) if x == "*" else None for i, x in enumerate(fact)]
    m = world(S, rules, lits, facts, True, slots)
    fired, left, ev = run(S, m, values(S, "g", "*" * slots), values(S, "h", h))
    S.assume(fired == ["A", "B", *(["C"] if then else [])])
    if not made:
        S.cover("not compiled")
        S.check("A and B" not in m.productions, "rules are not compiled where the compiled rule could do something else", lambda: f"{m.productions}")
        return
    S.check("A and B" in m.productions, "two rules that fire after each other are compiled", lambda: f"{ev}")
    if "A and B" not in m.productions:
        return
    S.cover("compiled")
    if fact is not None:
        S.cover("retrieved")
    m.productions.pop("A")
    m.productions.pop("B")
    rb = m.retrieval
    if len(rb):
        rb.pop()
    rb.state = "free"
    g1, h1 = values(S, "p", "*" * slots), values(S, "q", h)
    before = len(m.decmem)
    got, final, _ev1 = run(S, m, g1, h1)
    m2 = world(S, rules, lits, facts, False, slots)
    want, final2, _ev2 = run(S, m2, g1, h1)
    txt = lambda: f"A {first} B {second} lits {lits} {facts} then {g1} {h1}: compiled {got} {final}; one after the other {want} {final2}; rule {[dict(x) for x in m.productions['A and B']['rule']()]}"  # noqa: E731
    if want == ["A", "B"]:
        S.cover("applies")
        S.check(got == ["A and B"], "the compiled rule fires where the two rules would", txt)
    else:
        S.cover("does not apply")
        S.check(got == [], "the compiled rule does not fire where the two rules would not", txt)
    if got == ["A and B"] and want == ["A", "B"]:
        S.check(same(S, final, final2), "the compiled rule has the effect of the two rules", txt)
        if memory:
            for c in m2.decmem:
                d = {k: raw(v) for k, v in c}
                S.check(S.Or(*[slots_eq(S, {k: raw(v) for k, v in x}, d) for x in m.decmem]), "the compiled rule puts the same chunks into memory", lambda: f"{txt()} {m.decmem} {m2.decmem}")


def every(S, first, start, stride):
    """All second rules."""
    kinds = ("-", "x", "y", "w", "~w", "~x", "N", "~N")
    sides = [(a, b) for a in kinds for b in kinds if not ("~x" in (a, b) and "x" not in (a, b)) and not ("y" in (a, b) and "x" not in (a, b))]
    rules = [(l, r) for l in sides for r in (("-", "-"), ("w", "-"), ("-", "x"), ("x", "-"), ("y", "x")) if all(x not in "xy" or x in l for x in r if x != "-")]
    second = S.choice("second", tuple(rules[start::stride]))
    pair(S, ({"=g": tuple(first[0])}, {"=g": tuple(first[1])}), ({"=g": tuple(second[0])}, {"=g": tuple(second[1])}))


def again(S, first, second):
    """A compiled rule is compiled with its second rule once more (k is not used: B fires again and again)."""
    lits = {"u": "u1"}
    A = act()

    def build(comp, names):
        m = world(S, [], lits, None, comp, 2)
        rs = {"A": lambda: rule(m, "A", lambda: {"=g": A.makechunk("", "t", k="0", **kw(first[0]))}, lambda: {"=g": A.makechunk("", "t", k="1", **kw(first[1]))}, utility=1),
              "B": lambda: rule(m, "B", lambda: {"=g": A.makechunk("", "t", k=vv(negvalues=("0", "9")), **kw(second[0]))}, lambda: {"=g": A.makechunk("", "t", k="1", **kw(second[1]))})}

        def kw(kinds):
            return {s: part(kind, lits) for s, kind in zip(SLOTS, kinds) if kind != "-"}
        for n in names:
            rs[n]()
        return m

    def until(n):
        return lambda es: sum(e.action == "MODIFIED" for e in es) == n

    def go(m, vals, n):
        m.goals["g"].pop() if len(m.goals["g"]) else None
        m.goals["g"].add(A.makechunk("", "t", k="0", **dict(zip(SLOTS, vals))))
        ev = trace(prepared(m), 60, stop=until(n))
        return [e.action[12:] for e in ev if e.action.startswith("RULE FIRED")], held(m.goals["g"])
    m = build(True, "AB")
    g0, g1 = values(S, "g", "**"), values(S, "p", "**")
    fired, _left = go(m, g0, 3)
    S.assume(fired == ["A", "B", "B"])
    S.check("A and B" in m.productions, "two rules that fire after each other are compiled", lambda: f"{m.productions}")
    m.productions.pop("A")
    fired, _left = go(m, g1, 3)
    if fired != ["A and B", "B", "B"]:
        return
    name = "A and B and B"
    S.check(name in m.productions, "a compiled rule is compiled with another one", lambda: f"{m.productions}")
    m.productions.pop("A and B")
    m.productions.pop("B")
    got, final = go(m, g1, 1)
    m2 = build(False, "AB")
    want, final2 = go(m2, g1, 3)
    S.cover("once more")
    S.check(got == [name] and want == ["A", "B", "B"] and slots_eq(S, final, final2), "the rule compiled from a compiled rule has the effect of the rules", lambda: f"{g1} {got} {final} {want} {final2} {m.productions}")


def another(S, third=False):
    """The same two rules are compiled with other retrieved chunks: one compiled rule for each."""
    A = act()
    lits = {}
    facts = [[S.str(f"f{i}{j}", ["None"]) for j in range(2)] for i in range(3 if third else 2)]
    for f in facts:
        S.assume(S.Not(S.eq(f[1], "None")))
    names = []
    m = world(S, [("A", 0, ({"=g": ("x", "-")}, {"+retrieval": ("-", "-")})), ("B", 1, ({"=retrieval": ("z", "y")}, {"=g": ("z", "y"), "~retrieval": None})), ("C", 2, ({}, {}))], lits, None, True, 2)
    m.productions["A"]["utility"] = 1
    g0 = S.str("g0")
    for f in facts:
        for c in list(m.decmem):
            del m.decmem[c]
        m.decmem.add(A.makechunk("", "f", a=f[0], b=f[1]), 0)
        fired, left, ev = run(S, m, [g0, "w"], None)
        S.check(fired == ["A", "B", "C"] and slots_eq(S, left["g"], {"a": f[0], "b": f[1], "k": "3"}), "the two rules fire", lambda: f"{facts} {fired} {left}")
        rules = [e.action.split(": ") for e in ev if e.action.startswith(("RULE CREATED: A", "RULE RE-CREATED: A"))]
        S.check(len(rules) == 1 and rules[0][1] in m.productions, "two rules that fire after each other are compiled", lambda: f"{facts} {ev}")
        names.append(rules[0][1])
    eq = lambda i, j: S.known(S.And(*[S.eq(x, y) for x, y in zip(facts[i], facts[j])]))  # noqa: E731
    S.check(all((names[i] == names[j]) == eq(i, j) for i in range(len(facts)) for j in range(i)), "there is one compiled rule for each chunk that was retrieved", lambda: f"{facts} {names}")
    S.check(len({n for n in m.productions if n.startswith("A and")}) == len(set(names)), "the same compiled rule is not stored twice", lambda: f"{facts} {m.productions}")
    S.cover("another")
    i = S.choice("which", tuple(range(len(facts))))
    for n in list(m.productions):
        if n != names[i]:
            m.productions.pop(n)
    for c in list(m.decmem):
        del m.decmem[c]
    fired, left, ev = run(S, m, [g0, "w"], None)
    S.check(fired == [names[i]] and slots_eq(S, left["g"], {"a": facts[i][0], "b": facts[i][1], "k": "2"}), "each compiled rule does what its two rules did", lambda: f"{facts} {names} {fired} {left}")


def seeing(S, first, second, made):
    """Rules with requests to the visual module."""
    A = act()
    x0, px = S.int("x0", 1, 600), S.int("px", 1, 600)
    t0, t1, look = S.str("t0"), S.str("t1"), S.str("look")

    def build(comp):
        env = A.Environment(focus_position=(0, 0))
        m = new_model(env, production_compilation=comp, emma_noise=False, emma=False, automatic_visual_search=False)
        visual, loc = m.visualBuffer("visual", "visual_location", m.decmem)
        visual.stop_automatic_buffering() if hasattr(visual, "stop_automatic_buffering") else None
        A.chunktype("t", "a b k")
        m.set_goal("g")

        def half(spec, k):
            out = {"=g": A.makechunk("", "t", k=str(k))}
            for w in spec.split():
                if w == "search":
                    out["+visual_location"] = A.makechunk("", "_visuallocation", value=look)
                elif w == "shift":
                    out["+visual"] = A.makechunk("", "_visual", cmd="move_attention", screen_pos=A.makechunk("", "_visuallocation", screen_x=px, screen_y=10))
                elif w == "=loc":
                    out["=visual_location"] = A.makechunk("", "_visuallocation", screen_y="10")
                elif w == "=vis":
                    out["=visual"] = A.makechunk("", "_visual", value=vv(variables="x"))
                elif w in ("~visual", "~visual_location"):
                    out[w] = None
                elif w == "set":
                    out["=g"] = A.makechunk("", "t", k=str(k), a="seen")
                elif "?" in w:
                    buf, key, val = w[1:].split(".")
                    out["?" + buf] = {key: val}
            return out
        for n, k, (l, r) in (("A", 0, first), ("B", 1, second)):
            rule(m, n, lambda k=k, l=l: half(l, k), lambda k=k, r=r: half(r, k + 1))
        return m, env

    def go(m, env):
        g = m.goals["g"]
        if len(g):
            g.pop()
        for b in m.visbuffers.values():
            if len(b):
                b.pop()
            b.state = "free"
        env.current_focus = [0, 0]
        g.add(A.makechunk("", "t", k="0"))
        ev = trace(prepared(m, environment_process=env.environment_process, stimuli=[{"s": {"text": t0, "position": (x0, 10)}, "r": {"text": t1, "position": (px, 10)}}], triggers="", times=2), 80)
        return [e.action[12:] for e in ev if e.action.startswith("RULE FIRED")], {"g": held(g), **{n: held(b) for n, b in m.visbuffers.items()}, "focus": {str(i): v for i, v in enumerate(env.current_focus)}}, ev
    m, env = build(True)
    fired, left, ev = go(m, env)
    S.assume(fired == ["A", "B"])
    if not made:
        S.cover("not compiled")
        S.check("A and B" not in m.productions, "rules are not compiled where the compiled rule could do something else", lambda: f"{m.productions}")
        return
    S.check("A and B" in m.productions, "two rules that fire after each other are compiled", lambda: f"{ev}")
    if "A and B" not in m.productions:
        return
    S.cover("seeing")
    m.productions.pop("A")
    m.productions.pop("B")
    got, final, ev1 = go(m, env)
    S.check(got == ["A and B"], "the compiled rule fires where the two rules would", lambda: f"{ev1} {m.productions}")
    S.check(same(S, final, left), "the compiled rule has the effect of the two rules", lambda: f"{final} {left} {ev} {ev1} {m.productions}")


def late(S):
    """A retrieval that ends after the next rule is not taken for one that this rule asked for."""
    A = act()
    rf, L = S.time("rf", 0, 1, lo_open=True, exact=True), S.time("L", 0, 3, exact=True)
    lits = {"u": S.str("u", ["None"])}
    S.assume(S.Not(S.eq(lits["u"], "None")))
    m = world(S, [("A", 0, ({"=g": ("x", "-")}, {"+retrieval": ("x", "-")})), ("B", 1, ({}, {"=g": ("-", "u")})), ("C", 2, ({"=retrieval": ("-", "y")}, {"=g": ("-", "y"), "~retrieval": None}))],
              lits, [S.str("f0", ["None"]), S.str("f1", ["None"])], True, 2)
    m.model_parameters.update(rule_firing=rf, latency_factor=L, latency_exponent=0, subsymbolic=True, baselevel_learning=False, retrieval_threshold=-100)
    fired, left, ev = run(S, m, values(S, "g", "**"), None)
    S.assume(fired == ["A", "B", "C"])
    order = [e.action.split(":")[0] + e.action[-2:] for e in ev]
    during = order.index("RULE SELECTED B") < next(i for i, o in enumerate(order) if o.startswith("RETRIEVED"))
    if during:
        S.cover("late")
        S.check("A and B" in m.productions, "two rules that fire after each other are compiled", lambda: f"{ev}")
        sides = [dict(x) for x in m.productions["A and B"]["rule"]()]
        S.check("+retrieval" in sides[1], "the compiled rule asks for the retrieval that the second rule does not use", lambda: f"{sides}")
    if "B and C" in m.productions:
        sides = [dict(x) for x in m.productions["B and C"]["rule"]()]
        S.check("=retrieval" in sides[0], "a rule that uses what was retrieved for an earlier one tests it also when it is compiled", lambda: f"rf {rf} L {L} {ev} {m.productions}")


def utility(S):
    """A rule compiled once more is strengthened towards the first rule."""
    A = act()
    S.loose_rounding()
    alpha, u, v = S.real("alpha", 0, 1), S.real("u", -10, 10), S.real("v", -10, 10)
    learning = S.flag("learning")
    m = new_model(subsymbolic=False, production_compilation=True, utility_learning=learning, utility_alpha=alpha)
    for n, k, x in (("A", "0", u), ("B", "1", v), ("C", "2", 0)):
        rule(m, n, lambda k=k: {"=g": A.makechunk("", "t", k=k)}, lambda k=k: {"=g": A.makechunk("", "t", k=str(int(k) + 1))}, utility=x)
    m.set_goal("g")

    def go():
        b = m.goals["g"]
        b.pop() if len(b) else None
        b.add(A.makechunk("", "t", k="0"))
        ev = trace(prepared(m), 40)
        return [e.action for e in ev if e.action.startswith("RULE") and "SELECTED" not in e.action]
    S.assume(u > 0)
    S.assume(v > 0)
    x = go()
    S.check(x[0] == "RULE FIRED: A" and "RULE CREATED: A and B" in x, "the compilation is an event", lambda: f"{x}")
    S.check(S.eq(m.productions["A and B"]["utility"], 0), "a new compiled rule has the default utility", lambda: f"{m.productions['A and B']}")
    x = go()
    S.check(x[0] == "RULE FIRED: A" and "RULE RE-CREATED: A and B" in x, "the compilation of a known rule is an event", lambda: f"{x}")
    S.check(sum(n.startswith("A and B") and n != "A and B and C" for n in m.productions) == 1, "the same compiled rule is not stored twice", lambda: f"{list(m.productions)}")
    S.cover("re-created")
    S.check(S.close(m.productions["A and B"]["utility"], S.If(learning, alpha * u, 0), 0.51e-4 + 1e-6), "a re-created rule comes closer to the utility of the first rule", lambda: f"{m.productions['A and B']['utility']} alpha {alpha} u {u}")


L1 = [(("x", "-"), ("-", "-")), (("x", "-"), ("-", "x")), (("x", "y"), ("y", "x")), (("v", "-"), ("-", "-")), (("x", "-"), ("v", "-")), (("x", "v"), ("-", "x")), (("x", "x"), ("v", "-")),
      (("x", "~v"), ("-", "x")), (("x", "~x"), ("v", "-")), (("x", "y"), ("-", "-")), (("~v", "-"), ("-", "-")), (("-", "x ~v"), ("x", "-")), (("N", "x"), ("-", "N")), (("~N", "x"), ("-", "-"))]
L2 = [(("x", "-"), ("-", "-")), (("x", "-"), ("-", "x")), (("x", "y"), ("y", "x")), (("w", "-"), ("-", "v")), (("x", "-"), ("v", "-")), (("x", "w"), ("-", "x")), (("x", "x"), ("w", "-")),
      (("x", "~w"), ("-", "x")), (("x", "~x"), ("v", "-")), (("~v", "y"), ("y", "-")), (("-", "-"), ("v", "-")), (("~w", "~w"), ("-", "-")), (("N", "y"), ("y", "-")), (("~x", "x ~w"), ("-", "N")), (("z", "~N"), ("-", "z")), (("y", "x"), ("-", "-"))]


def jobs(tier):
    out = []
    for i, a in enumerate(L1):
        for j, b in enumerate(L2):
            if tier == "thorough" or (3 * i + 5 * j) % 7 < 2 or any("~" in k for k in b[0]) and (i + j) % 3:
                out.append(Job("c21", "pair", dict(first=({"=g": a[0]}, {"=g": a[1]}), second=({"=g": b[0]}, {"=g": b[1]}))))
    g = lambda *k: {"=g": k}  # noqa: E731
    two = [((dict(g("x", "-"), **{"=h": ("y", "~x")}), {"=h": ("x", "-")}), ({"=h": ("z", "w")}, dict(g("z", "-")))),
           ((dict(g("x", "-"), **{"=h": ("x", "-")}), {}), (dict(g("-", "y"), **{"=h": ("z", "-")}), dict(g("z", "y")))),
           ((g("x", "-"), {"=h": ("x", "v")}), ({"=h": ("y", "~w")}, dict(g("-", "y")))),
           ((g("x", "-"), {}), ({"=h": ("~x", "x")}, dict(g("-", "x")))),
           ((g("x", "-"), {}), (dict(g("y", "-"), **{"=h": ("~y", "-")}), dict(g("-", "y")))),
           ((dict(**{"=h": ("x", "y")}), dict(g("x", "y"))), (dict(g("z", "z"), **{"=h": ("z", "~w")}), {"=h": ("w", "-")})),
           ((dict(**{"=h": ("x", "-")}), {"=h": ("-", "x")}), (dict(g("x", "-"), **{"=h": ("x", "x")}), {"~h": None})),
           ((dict(**{"=h": ("x", "-")}), {"~h": None}), (g("x", "-"), g("-", "x"))),
           ((dict(**{"=h": ("x", "-")}), {"=h": ("v", "-")}), (dict(**{"=h": ("v", "y")}), {"+h": ("y", "-")})),
           ((dict(**{"=h": ("x", "~v")}), {"=h": ("v", "-")}), (dict(**{"=h": ("y", "-")}), {"@h": ("-", "y")})),
           ((dict(**{"=h": ("x", "-"), "?h": {"buffer": "full"}}), {"=h": ("-", "x")}), (dict(**{"=h": ("~v", "y"), "?h": {"state": "free"}}), dict(g("y", "-"))))]
    out += [Job("c21", "pair", dict(first=a, second=b, h="**", memory=any(k[0] in "~+@" for k in {**a[1], **b[1]}))) for a, b in two]
    ret = [((g("x", "-"), {"+retrieval": ("x", "-")}), ({"=retrieval": ("-", "y")}, dict(g("-", "y"), **{"~retrieval": None}))),
           ((g("x", "-"), {"+retrieval": ("-", "-")}), (dict(g("z", "~y"), **{"=retrieval": ("z", "y")}), dict(g("y", "-"), **{"~retrieval": None}))),
           ((g("x", "y"), {"+retrieval": ("~x", "~v")}), (dict(g("-", "~w"), **{"=retrieval": ("y", "-")}), dict(g("-", "y"), **{"~retrieval": None}))),
           ((g("x", "-"), dict(g("-", "x"), **{"+retrieval": ("v", "x")})), (dict(g("-", "z"), **{"=retrieval": ("y", "z ~w")}), dict(g("y", "-"), **{"~retrieval": None}))),
           ((g("x", "-"), {"+retrieval": ("v", "-")}), (dict(g("z", "-"), **{"=retrieval": ("v", "~z")}), dict(g("v", "-"), **{"~retrieval": None})))]
    out += [Job("c21", "pair", dict(first=a, second=b, fact="**")) for a, b in ret]
    out += [Job("c21", "pair", dict(first=(g("x", "-"), {"+retrieval": ("x", "-")}), second=({"=retrieval": ("-", "y")}, g("-", "y")), fact="**", made=False, then=True)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+h": ("x", "-")}), second=(g("y", "-"), {"+h": ("-", "y")}), made=False, then=True))]
    out += [Job("c21", "pair", dict(first=(g("x", "-"), {"+retrieval": ("x", "-")}), second=({"?retrieval": {"state": "error"}}, g("-", "v")), fact="**", made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+retrieval": ("x", "-")}), second=({"?retrieval": {"buffer": "full"}}, dict(g("-", "v"), **{"~retrieval": None})), fact="**", made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+retrieval": ("x", "-")}), second=({"=retrieval": ("-", "y")}, g("-", "y")), fact="**", made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+h": ("x", "-")}), second=(g("y", "-"), {"+h": ("-", "y")}), made=False))]
    free, busy = {"?manual": {"state": "free"}}, {"?manual": {"state": "busy"}}
    out += [Job("c21", "pair", dict(first=(g("x", "-"), {"+manual": ("A",)}), second=(dict(g("y", "-"), **busy), g("-", "y")))),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+manual": ("A",)}), second=(dict(g("y", "-"), **free), g("-", "y")), made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+manual": ("A",)}), second=(g("y", "-"), {"+manual": ("B",)}), made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+manual": ("A",)}), second=(dict(g("y", "-"), **{"?manual": {"processor": "free"}}), g("-", "y")), made=False)),
            Job("c21", "pair", dict(first=(g("x", "-"), {"+manual": ("A",)}), second=(dict(g("y", "-"), **{"?manual": {"execution": "free"}}), g("-", "y")), made=False)),
            Job("c21", "pair", dict(first=(dict(g("x", "-"), **free), {"=g": ("v", "-")}), second=(g("y", "-"), {"=g": ("-", "y"), "+manual": ("B",)})))]
    out += [Job("c21", "pair", dict(first=(dict(g("x", "-"), **{"=h": ("y", "-")}), {"=g": ("v", "-"), "=h": ("-", "x")}), second=(g("-", "z"), {"=g": ("-", "w")}), h="**")),
            Job("c21", "pair", dict(first=(dict(g("x", "-"), **{"=h": ("y", "-")}), {"=g": ("v", "-"), "~h": None, "+manual": ("A",)}), second=(g("-", "z"), {"=g": ("-", "w")}), h="**"))]
    out += [Job("c21", "another", dict(third=t)) for t in (False, True)]
    look, n, q = "?visual_location.state.", "?visual.state.", "?visual.buffer."
    out += [Job("c21", "seeing", dict(first=(a, b), second=(c, d), made=x)) for a, b, c, d, x in (
        ("", "search", "", "set", True), ("", "search", "=loc", "set", False), ("", "search", "", "search", False), ("", "search", look + "free", "set", False),
        ("", "search", "", "shift", True), (look + "free", "set", "", "search", True),
        ("", "shift", "", "set", True), ("", "shift", "=vis", "set", False), ("", "shift", "", "shift", False), ("", "shift", n + "free", "set", False), ("", "shift", n + "busy", "set", True),
        ("", "shift", q + "full", "set", False), ("", "shift", "", "search", True), (n + "free", "", "", "shift", True), ("", "shift", "?visual.preparation.free", "set", False))]
    out += [Job("c21", "late", {})]
    out += [Job("c21", "again", dict(first=a, second=b)) for a, b in (((("x", "-"), ("-", "-")), (("x", "y"), ("y", "x"))), ((("u", "-"), ("-", "-")), (("-", "y"), ("y", "-"))), ((("x", "y"), ("y", "x")), (("x", "y ~x"), ("y", "x"))))]
    out += [Job("c21", "utility", {})]
    if tier == "thorough":
        kinds = ("-", "x", "y", "v", "~v", "~x", "N")
        sides = [(a, b) for a in kinds for b in kinds if not ("~x" in (a, b) and "x" not in (a, b)) and not ("y" in (a, b) and "x" not in (a, b))]
        rules = [(l, r) for l in sides for r in (("-", "-"), ("v", "-"), ("-", "v"), ("-", "x"), ("x", "-"), ("y", "x")) if all(x not in "xy" or x in l for x in r if x != "-")]
        out += [Job("c21", "every", dict(first=rules[i], start=j, stride=6), weight=3, budget=800) for i in range(len(rules)) for j in range(6) if (i + j) % 2 == 0]
        more = [(("x", "y", "-"), ("y", "x", "v")), (("x", "-", "~x"), ("-", "x", "x")), (("x", "y", "z"), ("y", "z", "x")), (("v", "x", "~v ~x"), ("x", "v", "-"))]
        out += [Job("c21", "pair", dict(first=({"=g": a[0]}, {"=g": a[1]}), second=({"=g": b[0]}, {"=g": b[1]}), slots=3), weight=2) for a in more for b in more]
    return out
