"""C23: rules and chunks given as text mean what the text says."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "about 70 texts of rules and 20 of chunks, made from their meaning (values, quoted values, numbers, values with the signs :|.,%&$`*-_, None, variables, excluded values and variables, several conditions on one slot, names of chunks, positions, queries, all kinds of actions, in several layouts and orders; conditions also as marked slot values of rules that are functions), each for all contents of the buffers (arbitrary, empty or missing slots); refused texts",
    "thorough": "all pairs of kinds of conditions on two slots in three layouts",
}
ASSUMPTIONS = ["the text itself is concrete (pyparsing and regular expressions run on it concretely); what is symbolic is the content of the buffers that the parsed rule meets",
               "names of slots and values are those of the texts listed; excluded values of several words cannot be written (the library's grammar has no such text)"]


def COVERS(tier):
    return ["fires", "does not fire", "quoted", "named chunk", "several conditions", "bound", "action", "chunk", "position", "refused", "query"]


# the meaning of one slot: (value, variable, excluded values, excluded variables)
KINDS = {
    "one": ("one", None, (), ()), "two words": ("two words", None, (), ()), "3": ("3", None, (), ()), "None": ("None", None, (), ()), "-2.5": ("-2.5", None, (), ()),
    "=x": (None, "x", (), ()), "=y": (None, "y", (), ()), "~one": (None, None, ("one",), ()), "~3": (None, None, ("3",), ()), "~=x": (None, None, (), ("x",)),
    "=x~one": (None, "x", ("one",), ()), "=y~=x": (None, "y", (), ("x",)), "~one~3": (None, None, ("one", "3"), ()), "~one~=x": (None, None, ("one",), ("x",)), "=x one": ("one", "x", (), ()), "~None": (None, None, ("None",), ()),
    "a:b|c": ("a:b|c", None, (), ()), "=long_Name1": (None, "long_Name1", (), ()), "=x~=y~3": (None, "x", ("3",), ("y",)),
}
ODD = [c + "q" for c in ":|.,%&$`*-"] + ["q:|.,%&$`*-", "_q", "5q"]  # signs that values may contain
KINDS.update({o: (o, None, (), ()) for o in ODD})
LITS = ("None", "one", "two words", "3", "-2.5", "a:b|c")


def words(slot, kind, style):
    """The text of one slot."""
    v, x, n, nx = KINDS[kind]
    out = []
    quote = {0: "'", 1: '"', 2: "'"}[style % 3]
    if v is not None:
        out.append(f"{quote}{v}{quote}" if " " in v or style == 1 else v)
    if x:
        out.append("=" + x)
    for i, e in enumerate(n):
        q = "\"'"[(i + ord(slot[0])) % 2]
        out.append(f"~{q}{e}{q}" if style == 1 and " " not in e else "~" + e)
    for e in nx:
        out.append("~=" + e)
    if style == 2:
        out.reverse()
    return [f"{slot} {o}" for o in out]


def marked(slots, flip):
    """The slots of a chunk in marks, as used in rules that are functions: !value, =variable, ~!excluded, ~=excluded variable."""
    out = {}
    for s, k in slots:
        v, x, n, nx = KINDS[k]
        one = [v] if v is not None and not (x or n or nx) and not flip else ["!" + v] if v is not None else []
        one += ["=" + x] if x else []
        one += ["~!" + e for e in n] + ["~=" + e for e in nx]
        out[s] = "".join(reversed(one) if flip else one)
    return out


def layout(groups, style):
    """groups: (head, [lines]) of one side of a rule."""
    if style == 0:
        return "\n".join(h + "\n" + "\n".join("    " + w for w in ws) for h, ws in groups)
    if style == 1:
        return "  ".join(h + " " + "   ".join(ws) for h, ws in groups)
    return "\n\n".join(h + "\n\n" + "\t\n".join(reversed(ws)) for h, ws in groups)


def chunk_words(slots, style, isa="t"):
    out = [w for s, k in slots for w in words(s, k, style)]
    return ([f"{('isa', 'ISA', 'Isa')[style % 3]} {isa}"] if isa else []) + out


def contents(S, tag, slots, kinds=("sym", "absent"), lits=()):
    sp = {}
    for s in slots:
        o = S.choice(f"{tag}_{s}", kinds) if s == "b" else "sym"
        sp[s] = S.str(f"{tag}v{s}", LITS + tuple(lits)) if o == "sym" else None
    return sp


def condition(S, pats, spec):
    """pats: [(buffer, slot, kind)]; the formula and the bindings."""
    conds, bind = [], {}
    for b, s, k in pats:
        v, x, n, nx = KINDS[k]
        t = spec[b].get(s)
        if v is not None:
            conds.append(val_eq(S, v if v != "None" else None, t))
        for e in n:
            conds.append(S.Not(val_eq(S, e if e != "None" else None, t)))
        if x:
            if x in bind:
                conds.append(val_eq(S, bind[x], t))
            else:
                bind[x] = t
        if len([z for z in (v, x) if z]) + len(n) + len(nx) > 1:
            S.cover("several conditions")
        if " " in (v or ""):
            S.cover("quoted")
    for b, s, k in pats:
        for y in KINDS[k][3]:
            if y in bind:
                conds.append(S.Not(val_eq(S, bind[y], spec[b].get(s))))
    return S.And(*conds), bind


def run(m):
    sim = prepared(m)
    return trace(sim, 60, stop=lambda es: es[-1].action == "NO RULE FOUND" or [e.action for e in es].count("CONFLICT RESOLUTION") > 1)


def conditions(S, slots, style=0, isa="t", second=()):
    """A rule whose conditions are written as text, on all contents."""
    A = act()
    m = new_model()
    h = m.set_goal("h")
    slots, second = [tuple(x) for x in slots], [tuple(x) for x in second]
    spec = {"g": contents(S, "g", [s for s, _k in slots], lits=[k for _s, k in slots if k in ODD])}
    m.goals["g"].add(A.makechunk("", "t", **{k: v for k, v in spec["g"].items() if v is not None}, id="g"))
    if second:
        spec["h"] = contents(S, "h", [s for s, _k in second])
        h.add(A.makechunk("", "t", **{k: v for k, v in spec["h"].items() if v is not None}, id="h"))
    pats = [("g", s, k) for s, k in slots] + [("h", s, k) for s, k in second]
    want, bind = condition(S, pats, spec)
    groups = [("=g>", chunk_words(slots, style, isa))] + ([("=h>", chunk_words(second, style, isa))] if second else [])
    if style == 2:
        groups.reverse()
        order = [p for p in pats if p[0] == "h"] + [p for p in pats if p[0] == "g"]
        want, bind = condition(S, order, spec)
    right = [("@h>", ["isa t", "fin yes"] + [f"r{x} ={x}" for x in sorted(bind)])]
    if style > 2:
        names = ["=g", "=h"] if second else ["=g"]
        rule(m, "rule", lambda: {b: A.makechunk("", "t", **marked([(s, k) for o, s, k in pats if "=" + o == b], style > 3)) for b in names},
             lambda: {"@h": A.makechunk("", "t", fin="!yes" if style > 3 else "yes", **{"r" + x: "=" + x for x in bind})})
    text = "marks" if style > 2 else layout(groups, style) + (" ==> " if style == 1 else "\n==>\n") + layout(right, style)
    if style < 3:
        m.productionstring(name="rule", string=text)
    ev = run(m)
    got = any(e.action == "RULE FIRED: rule" for e in ev)
    S.check(S.Iff(got, want), "a rule given as text applies exactly when what it says holds", lambda: f"{text} | {m.goals} | {ev}")
    S.cover("fires" if got else "does not fire")
    if got:
        end = held(h)
        S.check(end is not None and val_eq(S, end.get("fin"), "yes"), "the action written as text is done", lambda: f"{text} {end}")
        for x in bind:
            S.cover("bound")
            S.check(val_eq(S, (end or {}).get("r" + x), bind[x]), "a variable in the text stands for the value it is bound to", lambda: f"{text} {x} {end}")


def actions(S, kind, style=0):
    """All kinds of actions written as text."""
    A = act()
    m = new_model()
    h = m.set_goal("h")
    a, b = S.str("a", LITS), S.str("b", LITS)
    m.goals["g"].add(A.makechunk("", "t", a=a, b=b, id="g"))
    h.add(A.makechunk("", "t", a=b, k="h"))
    lhs = [("=g>", ["isa t", "a =x"]), ("?h>", ["buffer full", "state free"])]
    acts = {
        "modify": [("=h>", ["isa t", "b =x", "c 'two words'"])], "set": [("+h>", ["isa t", "b =x"])], "overwrite": [("@h>", ["isa t", "b =x"])], "clear": [("~h>", [])], "execute": [("!h>", ["show k"])],
        "several": [("=g>", ["isa t", "b 3"]), ("+h>", ["isa t", "b =x"])], "retrieve": [("=g>", ["isa t", "b 3"]), ("+retrieval>", ["isa t", "a =x"])], "test": [("?retrieval>", ["recently_retrieved False"]), ("+retrieval>", ["isa t", "a =x"])],
        "modify request": [("*h>", ["isa t", "b =x", "c 'two words'"])], "keep": [("=g>", ["isa t"])],
    }[kind]
    text = layout(lhs, style) + "\n==>\n" + layout(acts, style)
    mem = A.makechunk("", "t", a=a, m="mem")
    m.decmem.add(mem, 0)
    m.productionstring(name="rule", string=text)
    sim = prepared(m, initial_time=1)
    ev = trace(sim, 80, until=1.06)
    S.check(any(e.action == "RULE FIRED: rule" for e in ev), "the rule fires", lambda: f"{text} {ev}")
    S.cover("action")
    S.cover("query")
    g, hh, rr = held(m.goals["g"]), held(h), held(m.retrieval)
    wg = {"a": a, "b": "3" if kind in ("several", "retrieve") else b, "id": "g"}
    wh = {"modify": {"a": b, "k": "h", "b": a, "c": "two words"}, "modify request": {"a": b, "k": "h", "b": a, "c": "two words"}, "set": {"b": a}, "overwrite": {"b": a}, "several": {"b": a}, "clear": None}.get(kind, {"a": b, "k": "h"})
    # the rule may fire again only after the time followed here
    S.check(slots_eq(S, g, wg), "the first goal after the actions of a text", lambda: f"{text} {g}")
    S.check(slots_eq(S, hh, wh), "the second goal after the actions of a text", lambda: f"{text} {hh}")
    wr = {"a": a, "m": "mem"} if kind in ("retrieve", "test") else None
    S.check(slots_eq(S, rr, wr), "the retrieval buffer after the actions of a text", lambda: f"{text} {rr}")


def query(S, buf, what, value, style=0):
    """Queries written as text."""
    A = act()
    m = new_model()
    h = m.set_goal("h")
    m.goals["g"].add(A.makechunk("", "t", a="1"))
    full = S.flag("full")
    if full:
        (h if buf == "h" else m.retrieval).add(A.makechunk("", "t", a=S.str("a")))
    lhs = [("=g>", ["isa t", "a 1"]), (f"?{buf}>", [f"{what} {value}"])]
    if style == 2:
        lhs.reverse()
    text = layout(lhs, style) + "\n==>\n" + layout([("=g>", ["isa t", "a 2"])], style)
    m.productionstring(name="rule", string=text)
    ev = run(m)
    want = (value == "full") == bool(full) if what == "buffer" else value == "free"
    S.check(any(e.action == "RULE FIRED: rule" for e in ev) == want, "a query given as text", lambda: f"{text} {full} {ev}")
    S.cover("query")


def named(S, where):
    """A name of a chunk in a text stands for the chunk."""
    A = act()
    m = new_model()
    h = m.set_goal("h")
    u, w = S.str("u"), S.str("w")
    A.makechunk("the_chunk", "i", k=u)
    other = A.makechunk("", "i", k=w)
    S.cover("named chunk")
    if where == "condition":
        m.goals["g"].add(A.makechunk("", "t", s=other))
        m.productionstring(name="rule", string="=g> isa t s the_chunk ==> @h> isa t fin yes")
        got = any(e.action == "RULE FIRED: rule" for e in run(m))
        S.check(S.Iff(got, S.eq(u, w)), "the name of a chunk in a condition stands for the chunk")
    elif where == "action":
        m.goals["g"].add(A.makechunk("", "t", s="1"))
        m.productionstring(name="rule", string="=g> isa t s 1 ==> @h> isa t fin the_chunk")
        run(m)
        c = (held(h) or {}).get("fin")
        S.check(hasattr(c, "actrchunk") and S.eq(raw(dict(c)["k"]), u), "the name of a chunk in an action stands for the chunk", lambda: f"{h}")
    else:
        c = A.chunkstring(string="isa t s the_chunk r plain")
        d = A.makechunk("", "t", s=other, r="plain")
        S.check(S.Iff(c == d, S.eq(u, w)), "the name of a chunk in the text of a chunk stands for the chunk", lambda: f"{c} {d}")


def chunk(S, slots, style=0, isa="t", name=""):
    """The text of a chunk gives the chunk with these slots."""
    A = act()
    slots = [tuple(x) for x in slots]
    text = layout([("", chunk_words(slots, style, isa))], style).strip() if style != 2 else "\n".join(reversed(chunk_words(slots, style, isa)))
    c = A.chunkstring(name=name, string=text)
    given = contents(S, "d", [s for s, _k in slots])
    d = A.makechunk("", "t", **{k: v for k, v in given.items() if v is not None})
    S.cover("chunk")
    if all(not x and not n and not nx for _s, k in slots for _v, x, n, nx in (KINDS[k],)):
        want, _ = condition(S, [("d", s, k) for s, k in slots], {"d": given})
        S.check(S.Iff(c == d, want), "a chunk given as text has the values of the text", lambda: f"{text} {c} {d}")
    else:
        want, _ = condition(S, [("d", s, k) for s, k in slots], {"d": given})
        S.check(S.Iff(c <= d, want), "a pattern given as text matches what the text says", lambda: f"{text} {c} {d}")
    if isa:
        S.check(c.typename == isa, "the type of a chunk given as text", lambda: f"{text} {c}")
    if name:
        S.check(A.chunkstring(string=f"isa u s {name}").s.values is c, "a chunk given as text is known by its name")


def position(S, axis, sign, bound=False):
    """A relative position in a text."""
    A = act()
    env = A.Environment(focus_position=(0, 0))
    m = new_model(env, automatic_visual_search=False)
    m.visualBuffer("visual", "visual_location", m.decmem)
    p, q = S.int("p", 0, 300), S.int("q", 0, 300)
    m.goal.add(A.makechunk("", "t", a="150"))
    at = (lambda n: (n, 10)) if axis == "screen_x" else (lambda n: (10, n))
    m.productionstring(name="rule", string=f"=g> isa t a =x ?visual_location> buffer empty state free ==> =g> isa t +visual_location> isa _visuallocation {axis} {sign}{'=x' if bound else '150'}")
    stim = [{"A": {"text": "A", "position": at(p)}, "B": {"text": "B", "position": at(q)}}]
    sim = m.simulation(realtime=False, trace=False, gui=False, environment_process=env.environment_process, stimuli=stim, triggers="Z", times=5)
    trace(sim, 60, until=0.06)
    buf = m.visbuffers["visual_location"]
    hit = held(buf)
    ok = [(t > 150) if sign == ">" else (t < 150) for t in (p, q)]
    S.cover("position")
    if hit is None:
        S.check(S.Not(S.Or(*ok)), "a search with a relative position in its text fails only if nothing is there", lambda: f"{p} {q}")
    else:
        got = hit[axis]
        S.check(S.Or(S.And(ok[0], S.eq(got, S.intstr(p))), S.And(ok[1], S.eq(got, S.intstr(q)))), "a search with a relative position in its text finds a stimulus there", lambda: f"{hit} {p} {q}")


BAD = {
    "no arrow": "=g> isa t a one", "no action": "=g> isa t a one ==>", "no condition": "==> =g> isa t a one", "no value": "=g> isa t a ==> =g> isa t a one", "no >": "=g isa t a one ==> =g> isa t a one", "two values": "=g> isa t a one a 3 ==> =g> isa t a one",
    "two variables": "=g> isa t a =x a =y ==> =g> isa t a one", "two values in action": "=g> isa t a one ==> =g> isa t a one a 3", "wrong sign": "+g> isa t a one ==> =g> isa t a one", "unclosed quote": "=g> isa t a 'one ==> =g> isa t a one", "trailing": "=g> isa t a one ==> =g> isa t a one ==>",
}
BADCHUNK = {"two values": "isa t a one a 3", "two variables": "isa t a =x a =y"}


def refused(S, what, kind="rule"):
    """Texts that cannot be understood are refused with the library's error, and no rule is added."""
    A = act()
    m = new_model()
    u = S.str("u")
    m.goal.add(A.makechunk("", "t", a=u))
    m.productionstring(name="good", string="=g> isa t a one ==> =g> isa t a 3")
    S.cover("refused")
    try:
        if kind == "chunk":
            m.chunkstring(string=BADCHUNK[what])
        else:
            m.productionstring(name="bad", string=BAD[what])
            # some mistakes are noticed when the rule is looked at
            list(m.productions["bad"]["rule"]())
            prepared(m).step()
    except A.utilities.ACTRError:
        return
    S.check(False, "a text that cannot be understood is refused", lambda: f"{what}")


def unnamed(S):
    """Rules without a name are kept apart."""
    A = act()
    m = new_model()
    u = S.str("u", LITS)
    m.goal.add(A.makechunk("", "t", a=u))
    m.productionstring(string="=g> isa t a one ==> =g> isa t a 3")
    m.productionstring(string="=g> isa t a ~one a ~done ==> =g> isa t a done")
    ev = trace(prepared(m), 60, stop=lambda es: es[-1].action == "NO RULE FOUND" or [e.action for e in es].count("CONFLICT RESOLUTION") > 2)
    want = S.If(S.eq(u, "done"), u, "done")
    end = held(m.goal)["a"]
    S.check(S.eq(end, "done") if any("FIRED" in e.action for e in ev) else S.eq(u, "done"), "rules without a name work side by side", lambda: f"{u} {end} {ev} {want}")


def jobs(tier):
    J = lambda h, **p: Job("c23", h, p)  # noqa: E731
    out = []
    sets = [(("a", k),) for k in KINDS if k not in ODD] + [
        (("a", "=x"), ("b", "=x")), (("a", "=x"), ("b", "~=x")), (("a", "~=x"), ("b", "=x")), (("a", "one"), ("b", "~3")), (("a", "=x~one"), ("b", "=y~=x")), (("a", "=y~=x"), ("b", "=x")), (("a", "~one~=x"), ("b", "=x one")),
        (("a", "None"), ("b", "=x")), (("a", "two words"), ("b", "~None")), (("a", "=long_Name1"), ("b", "=x~=y~3")),
    ]
    for i, s in enumerate(sets):
        out.append(J("conditions", slots=s, style=i % 3))
        out.append(J("conditions", slots=s, style=3 + i % 2))
        if len(s) == 2:
            out.append(J("conditions", slots=s, style=(i + 1) % 3, isa=""))
    out += [J("conditions", slots=(("a", o),), style=st) for i, o in enumerate(ODD) for st in (i % 2 * 2, 1)]
    out += [J("conditions", slots=(("a", k),), style=st) for k in ("3", "-2.5", "a:b|c") for st in (0, 1, 2)]
    for i, (s, t) in enumerate((((("a", "=x"),), (("a", "=x"),)), ((("a", "=x"), ("b", "one")), (("a", "~=x"),)), ((("a", "~=x"),), (("b", "=x~one"),)), ((("a", "3"),), (("a", "two words"),)))):
        for st in ((0, 1, 2) if i < 2 else (i % 3,)):
            out.append(J("conditions", slots=s, second=t, style=st))
        out.append(J("conditions", slots=s, second=t, style=4 - i % 2))
    for k in ("modify", "set", "overwrite", "clear", "execute", "several", "retrieve", "test", "modify request", "keep"):
        for st in (0, 1):
            out.append(J("actions", kind=k, style=st))
    for b in ("h", "retrieval"):
        for w, v in (("buffer", "full"), ("buffer", "empty"), ("state", "free"), ("state", "busy"), ("state", "error")):
            out.append(J("query", buf=b, what=w, value=v, style=0 if v != "empty" else 2))
    out += [J("named", where=w) for w in ("condition", "action", "chunk")]
    for i, s in enumerate(sets):
        out.append(J("chunk", slots=s, style=i % 3, isa="t" if i % 4 else ""))
    out.append(J("chunk", slots=(("a", "one"), ("b", "two words")), name="known_name"))
    out += [J("position", axis=a, sign=s, bound=b) for a in ("screen_x", "screen_y") for s in "<>" for b in (False, True)]
    out += [J("refused", what=w) for w in BAD] + [J("refused", what=w, kind="chunk") for w in BADCHUNK]
    out.append(J("unnamed"))
    if tier == "thorough":
        out += [J("conditions", slots=(("a", p), ("b", q)), style=st) for p in KINDS for q in KINDS if p not in ODD and q not in ODD for st in range(5)]
        out += [J("conditions", slots=(("a", p),), second=(("b", q),), style=st) for p in KINDS for q in KINDS if p not in ODD and q not in ODD for st in range(3)]
        out += [J("chunk", slots=(("a", p), ("b", q)), style=st) for p in KINDS for q in KINDS if p not in ODD and q not in ODD for st in range(3)]
    return out
