"""C30: what is not allowed is refused and changes nothing."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "arbitrary numbers as delays, finsts, similarities and noise; arbitrary texts as commands of vision; arbitrary texts, numbers and None where a chunk is needed (every kind of buffer, memory, one chunk or several); one to three model parameters, of which one exists or may not: those that differ from one in one letter or are arbitrary among those; slots with up to two values, variables, excluded values and variables in every combination, given as text, as chunk or by parts; every printable sign before a buffer on either side of a rule; focus positions with 0 to 4 coordinates; rules as text that are cut short, doubled or carry a sign that has no place there; activations for what is not in memory, buffers without a name or memory",
    "thorough": "the same",
}
ASSUMPTIONS = ["which error it is, is left open, but it is one of the package or one of Python's for wrong values, types and attributes, or a failed assertion"]


def COVERS(tier):
    return ["number refused", "number accepted", "no chunk", "several", "parameter refused", "parameter accepted", "two values", "slot accepted", "sign refused", "sign accepted", "focus refused", "focus accepted",
            "command refused", "command accepted", "noise refused", "rule refused", "rule accepted", *("odd: " + o for o in ODD)]


def refused(S, f):
    """Is it refused?"""
    from pyactr.utilities import ACTRError
    try:
        f()
    except (ACTRError, ValueError, TypeError, AttributeError, AssertionError, KeyError, NameError):
        return True
    return False


def number(S, what):
    """A number with a limit."""
    A = act()
    m = new_model(A.Environment(focus_position=(0, 0)))
    x, y = S.real("x", -100, 100), S.real("y", 0, 100)
    if what == "similarity":
        a, b = A.makechunk("", "t", k=S.str("a")), A.makechunk("", "u", k=S.str("b"))
        m.set_similarities(a, b, -y)
        out = refused(S, lambda: m.set_similarities(a, b, x))
        m.set_retrieval("other")
        prepared(m)
        sim = m.retrievals["other"].similarities
        bad, got = x > 0, (sim[(a, b)], sim[(b, a)])
        want = (-y, -y) if out else (x, x)
    else:
        if what == "goal":
            g = m.set_goal("h", y)
            make, attr = (lambda: m.set_goal("i", x)), "delay"
        elif what == "retrieval":
            g = m.set_retrieval("retrieval")
            g.finst = y
            make, attr = None, "finst"
        else:
            g = m.visualBuffer("visual", "visual_location", m.decmem, finst=y)[1]
            make, attr = (lambda: m.visualBuffer("v", "l", m.decmem, finst=x)), "finst"
        out = refused(S, lambda: setattr(g, attr, x))
        bad, got, want = x < 0, (getattr(g, attr),), (y if out else x,)
        if make:
            S.check(refused(S, make) == S.known(bad), "a buffer is made with a number exactly when that is allowed", lambda: f"{what} {x}")
            if what == "goal":
                S.check(("i" in m.goals) == (not S.known(bad)), "a refused goal buffer is not part of the model", lambda: f"{m.goals}")
    S.check(out == S.known(bad), "a number is refused exactly when it is beyond the limit", lambda: f"{what} {x} {out}")
    S.check(S.And(*[S.close(a, b) for a, b in zip(got, want)]), "after a refusal the number is what it was", lambda: f"{what} {got} {want}")
    S.cover("number refused" if out else "number accepted")


def noise(S, what):
    """Negative noise."""
    A = act()
    x = S.real("x", -100, -0.01)
    m = new_model(subsymbolic=True, baselevel_learning=False, retrieval_threshold=-1000, **{what: x})
    m.decmem.add(A.makechunk("", "t", k="m"), 0)
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+retrieval": A.makechunk("", "t", k="m")})
    S.check(refused(S, lambda: trace(prepared(m), 30)), "noise cannot be negative", lambda: f"{what} {x}")
    S.check(held(m.retrieval) is None, "nothing is retrieved")
    S.cover("noise refused")


def nochunk(S, where, several=False):
    """Something that is no chunk."""
    A = act()
    m = new_model(A.Environment(focus_position=(0, 0)))
    v, vl = m.visualBuffer("visual", "visual_location", m.decmem)
    v.dm = vl.dm = m.goal.dm = m.retrieval.dm = m.decmem
    a = S.str("a", ("None",))
    main = Memory(S)
    c = lambda: A.makechunk("", "t", k=a)  # noqa: E731
    thing = S.choice("thing", (S.str("s"), S.int("i", -5, 5), S.real("r", -1, 1), None, True, ("k", "v")))
    if where == "memory":
        m.decmem.add(c(), 1)
        main.add({"k": a}, 1)
        if several:
            arg = [A.makechunk("", "t", k=a, l="x"), thing]
            main.add({"k": a, "l": "x"}, 2)
            S.cover("several")
        else:
            arg = thing
        out = refused(S, lambda: m.decmem.add(arg, 2))
    elif where == "given":
        out = refused(S, lambda: m.set_decmem({thing: [1]}))
    else:
        b = {"goal": m.goal, "retrieval": m.retrieval, "visual": v, "visual_location": vl}[where]
        b.dm = m.decmem
        super(type(b), b).add(c())
        out = refused(S, {"goal": lambda: b.add(thing), "retrieval": lambda: b.add(thing, 2), "visual": lambda: b.add(thing, 2), "visual_location": lambda: b.add(thing, {}, 2)}[where])
        S.check(slots_eq(S, held(b), {"k": a}), "a buffer that refused something holds what it held", lambda: f"{where} {thing!r} {b}")
    S.check(out, "only chunks can be in buffers and memory", lambda: f"{where} {thing!r}")
    main.check(m.decmem, "after a refusal")
    S.cover("no chunk")


def parameter(S):
    """Parameters of a model."""
    A = act()
    names = tuple(A.ACTRModel.MODEL_PARAMETERS)
    i = S.choice("name", names)
    name = {"same": i, "cut": i[:-1], "longer": i + "s", "upper": i.upper(), "space": i.replace("_", ""), "private": "_" + i}[S.choice("how", ("same", "cut", "longer", "upper", "space", "private"))]
    x = S.real("x", 0, 1)
    good = name in names
    before = {k: v for k, v in A.ACTRModel.MODEL_PARAMETERS.items()}
    made = []
    beside = S.choice("beside", ((), ("decay",), ("subsymbolic", "rule_firing")))
    S.assume(i not in beside)
    given = {k: S.flag("b") if k == "subsymbolic" else S.real(k, 0, 1) for k in beside}
    out = refused(S, lambda: made.append(A.ACTRModel(**({**given, name: x} if S.flag("last") else {name: x, **given}))))
    S.check(out == (not good), "a model has the parameters it has", lambda: f"{name}")
    S.check(dict(A.ACTRModel.MODEL_PARAMETERS) == before, "the usual parameters stay as they are")
    if good:
        S.check(made and all(S.known(S.eq(made[0].model_parameters[k], {**given, name: x}[k])) if k == name or k in given else made[0].model_parameters[k] == before[k] for k in names), "the parameter has the value that was given, the others the usual ones", lambda: f"{name} {made[0].model_parameters}")
    S.cover("parameter refused" if out else "parameter accepted")


def slot(S, how):
    """What a slot may hold: one value, one variable, any number of excluded ones."""
    A = act()
    n = {k: S.choice(k, (0, 1, 2)) for k in ("=", "", "~=", "~!")}
    words = [s + p + str(i) for s, p in (("=", "x"), ("", "v"), ("~=", "y"), ("~!", "w")) for i in range(n[s])]
    S.assume(len(words) > 0)
    first = S.choice("first", range(len(words)))
    words = words[first:] + words[:first]
    good = n["="] < 2 and n[""] < 2
    text = "".join(("!" if len(words) > 1 and w[0] not in "=~" else "") + w for w in words)
    made = []
    if how == "chunk":
        out = refused(S, lambda: made.append(A.makechunk("", "t", k=text)))
    elif how == "string":
        out = refused(S, lambda: made.append(A.chunkstring(string="isa t " + " ".join("k " + w.replace("!", "") for w in words))))
    else:
        out = refused(S, lambda: made.append(A.makechunk("", "t", k=A.utilities.VarvalClass(variables=tuple(w[1:] for w in words if w[0] == "=") if n["="] > 1 else ("x0" if n["="] else None),
                                                                                       values=("v0", "v1") if n[""] > 1 else ("v0" if n[""] else None),
                                                                                       negvariables=tuple(f"y{i}" for i in range(n["~="])), negvalues=tuple(f"w{i}" for i in range(n["~!"]))))))
    S.check(out == (not good), "a slot has at most one value and one variable", lambda: f"{how} {text!r} {made}")
    if made:
        got = made[0].k
        S.check(got.values == ("v0" if n[""] else None) and got.variables == ("x0" if n["="] else None) and set(got.negvalues) == {f"w{i}" for i in range(n["~!"])} and set(got.negvariables) == {f"y{i}" for i in range(n["~="])},
                "a slot holds what was given", lambda: f"{how} {text!r} {got}")
    S.cover("two values" if out else "slot accepted")


SIGNS = "=?+-~*@!<>&#$%^ a1."


def sign(S, side):
    """A rule with an arbitrary sign before a buffer."""
    A = act()
    m = new_model(subsymbolic=False)
    a = S.str("a")
    m.goal.add(A.makechunk("", "t", k=a))
    s = S.choice("sign", tuple(SIGNS))
    what = lambda: None if (side, s) == ("R", "~") else {"state": "free"} if s == "?" and side == "L" else {"k": "seen"} if s == "?" else ("clear",) if s == "!" else A.makechunk("", "t", k=a if side == "L" else "new")  # noqa: E731
    ok = s in ("=?" if side == "L" else "=?+~*@!")
    S.assume(s not in "!*" or side == "L")
    if side == "L":
        rule(m, "r", lambda: {s + "g": what()}, lambda: {"@g": A.makechunk("", "t", k="done")})
    else:
        rule(m, "r", lambda: {"=g": A.makechunk("", "t", k=a)}, lambda: {s + "g": what()})
    S.assume(S.Not(S.Or(S.eq(a, "done"), S.eq(a, "new"))))
    ev = []
    out = refused(S, lambda: ev.extend(trace(prepared(m), 12)))
    S.check(out == (not ok), "a rule consists of tests, queries and actions that exist", lambda: f"{side} {s!r} {ev}")
    if out:
        S.check(slots_eq(S, held(m.goal), {"k": a}), "a rule that is refused changes nothing", lambda: f"{m.goal}")
    S.cover("sign refused" if out else "sign accepted")


def focus(S):
    """A focus is a position."""
    A = act()
    n = S.choice("n", (0, 1, 2, 3, 4))
    pos = tuple(S.int(f"p{i}", 1, 600) for i in range(n))
    if S.flag("list"):
        pos = list(pos)
    made = []
    out = refused(S, lambda: made.append(A.Environment(focus_position=pos)))
    S.check(out == (n not in (0, 2)), "an environment begins with a position in focus", lambda: f"{pos}")
    if made:
        got = made[0].current_focus
        S.check(len(got) == 2 and S.And(S.eq(got[0], pos[0] if n else 320), S.eq(got[1], pos[1] if n else 180)), "the focus is where it was put", lambda: f"{pos} {got}")
    x, y = S.int("x", 0, 600), S.int("y", 0, 600)
    env = A.Environment(focus_position=(x, y))
    v = S.choice("value", ("same", "number"))

    def assign():
        env.current_focus = pos if v == "same" else x
    out = refused(S, assign)
    S.check(out == (v == "number" or n != 2), "the focus is a position", lambda: f"{pos} {v}")
    got, want = env.current_focus, (x, y) if out else pos
    S.check(len(got) == 2 and S.And(S.eq(got[0], want[0]), S.eq(got[1], want[1])), "after a refusal the focus is where it was", lambda: f"{got} {want}")
    S.cover("focus refused" if out else "focus accepted")


def command(S):
    """Commands of vision."""
    A = act()
    env = A.Environment(focus_position=(0, 0))
    m = new_model(env, subsymbolic=False, emma=False, automatic_visual_search=False, rule_firing=0.05)
    v, _vl = m.visualBuffer("visual", "visual_location", m.decmem)
    m.goal.add(A.makechunk("", "t", k="0"))
    x, given = S.str("x", ("move_attention", "clear", "press_key")), S.flag("command")
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual": A.makechunk("", "_visual", **({"cmd": x} if given else {}), screen_pos=A.makechunk("", "_visuallocation", screen_x=500, screen_y=300))})
    out = refused(S, lambda: trace(prepared(m, environment_process=env.environment_process, stimuli=[{"A": {"text": "A", "position": (500, 300)}}], triggers="", times=10), 40))
    good = S.known(S.And(given, S.Or(S.eq(x, "move_attention"), S.eq(x, "clear"))))
    S.check(out == (not good), "vision knows its commands", lambda: f"{x}")
    if out:
        S.check(held(v) is None and tuple(env.current_focus) == (0, 0), "a refused command does nothing", lambda: f"{v} {env.current_focus}")
    S.cover("command refused" if out else "command accepted")


TOKENS = ("=g>", "isa t", "k a", "==>", "=g>", "isa t", "k b")
BROKEN = {"no arrow": (TOKENS[:3] + TOKENS[4:]), "no buffer left": TOKENS[1:], "no buffer right": TOKENS[:4] + TOKENS[5:], "two arrows": TOKENS[:4] + TOKENS[3:], "three sides": TOKENS + TOKENS[3:],
          "no mark": ("=g",) + TOKENS[1:], "no sign": ("g>",) + TOKENS[1:], "half a slot": TOKENS[:2] + ("k",) + TOKENS[3:], "half a slot at the end": TOKENS[:6] + ("k",), "no end": TOKENS[:5] + ('isa t k "b',), "short arrow": TOKENS[:3] + ("=>",) + TOKENS[4:],
          "nothing": (), **{"left " + x: (x + "g>",) + TOKENS[1:] for x in "+~@*!"}, "right -": TOKENS[:4] + ("-g>",) + TOKENS[5:]}
FINE = {"as it is": TOKENS, "two buffers": TOKENS[:3] + ("=g>", "isa t", "k a") + TOKENS[3:], "right +": TOKENS[:4] + ("+g>",) + TOKENS[5:], "right @": TOKENS[:4] + ("@g>",) + TOKENS[5:], "clears": TOKENS[:4] + ("~g>",), "query": ("?g>", "buffer full") + TOKENS}


def text(S):
    """Rules as text."""
    A = act()
    m = new_model(subsymbolic=False)
    a = S.str("a", ("a", "b"))
    m.goal.add(A.makechunk("", "t", k=a))
    fine = S.flag("fine")
    which = S.choice("which", tuple(FINE if fine else BROKEN))
    words = (FINE if fine else BROKEN)[which]
    before = S.flag("another")
    if before:
        m.productionstring(name="r", string=" ".join(TOKENS).replace("k b", "k c"))
    ev = []

    def use():
        m.productionstring(name="r", string=S.choice("sep", (" ", "\n   ")).join(words))
        ev.extend(trace(prepared(m), 12))
    out = refused(S, use)
    S.check(out == (not fine), "a rule whose text says nothing is refused", lambda: f"{which} {words} {ev}")
    if out:
        S.check(slots_eq(S, held(m.goal), {"k": a}) and not any("FIRED" in e.action for e in ev), "a rule that is refused changes nothing", lambda: f"{which} {m.goal} {ev}")
        S.cover("rule refused")
    else:
        S.check(any("FIRED" in e.action for e in ev) == S.known(S.eq(a, "a")), "a rule that is accepted applies", lambda: f"{which} {ev}")
        S.cover("rule accepted")


def odd(S, what):
    """Other things that are not possible."""
    A = act()
    m = new_model(A.Environment(focus_position=(0, 0)))
    v, vl = m.visualBuffer("visual", "visual_location", m.decmem)
    a, b = S.str("a", ("None",)), S.str("b", ("None",))
    known, other = A.makechunk("", "t", k=a), A.makechunk("", "t", k=b)
    main = Memory(S)
    x = S.real("x", -5, 5)
    if what == "activation":
        m.decmem.add(known, 1)
        main.add({"k": a}, 1)
        out = refused(S, lambda: m.decmem.add_activation(other, x))
        S.check(out == (not S.known(val_eq(S, a, b))), "only what is in memory has an activation", lambda: f"{a} {b}")
        S.check(len(m.decmem.activations) == (0 if out else 1), "a refused activation is not given", lambda: f"{m.decmem.activations}")
    elif what == "name":
        n = S.choice("name", (S.int("i", 0, 9), None, ("g",), x))
        S.check(refused(S, (lambda: m.set_goal(n)) if S.flag("goal") else (lambda: m.set_retrieval(n))), "buffers have names", lambda: f"{n!r}")
        S.check(list(m.goals) == ["g"] and list(m.retrievals) == ["retrieval"], "a refused buffer is not part of the model", lambda: f"{m.goals} {m.retrievals}")
    elif what == "which":
        two = S.choice("two", ("goal", "retrieval", "none"))
        if two == "goal":
            m.set_goal("h")
        elif two == "retrieval":
            m.set_retrieval("other")
        for n in ("goal", "retrieval"):
            S.check(refused(S, lambda n=n: getattr(m, n)) == (two == n), "which buffer is meant must be clear", lambda n=n: f"{n} {two}")
    elif what == "memory":
        m.decmem.add(known, 1)
        main.add({"k": a}, 1)
        buf, attr = {"goal": (m.goal, "default_harvest"), "retrieval": (m.retrieval, "decmem"), "visual": (v, "default_harvest"), "visual_location": (vl, "default_harvest")}[S.choice("buffer", ("goal", "retrieval", "visual", "visual_location"))]
        buf.dm = m.decmem
        thing = S.choice("thing", (S.int("i", 1, 9), "memory", ("memory",), known))
        S.check(refused(S, lambda: setattr(buf, attr, thing)), "what leaves a buffer goes to a memory", lambda: f"{thing!r}")
        S.check(buf.dm is m.decmem, "a refused memory is not connected")
    elif what == "goal":
        S.check(refused(S, lambda: m.goal.retrieve(0, known, {}, {}, {}, {})), "nothing is retrieved from a goal")
    elif what == "manual":
        prepared(m)
        hand = m._ACTRModel__buffers["manual"]
        S.check(refused(S, lambda: hand.add(known)) and len(hand) == 0, "nothing is put into the hands")
    main.check(m.decmem, "after a refusal")
    S.cover("odd: " + what)


ODD = ("activation", "name", "which", "memory", "goal", "manual")


def jobs(tier):
    out = [Job("c30", "number", dict(what=w)) for w in ("goal", "retrieval", "visual_location", "similarity")]
    out += [Job("c30", "noise", dict(what=w)) for w in ("instantaneous_noise", "utility_noise")]
    out += [Job("c30", "nochunk", dict(where=w)) for w in ("goal", "retrieval", "visual", "visual_location", "memory", "given")]
    out += [Job("c30", "nochunk", dict(where="memory", several=True))]
    out += [Job("c30", "parameter")] + [Job("c30", "slot", dict(how=h)) for h in ("chunk", "string", "parts")]
    out += [Job("c30", "sign", dict(side=s)) for s in "LR"] + [Job("c30", "focus"), Job("c30", "command"), Job("c30", "text")]
    out += [Job("c30", "odd", dict(what=w)) for w in ODD]
    return out
