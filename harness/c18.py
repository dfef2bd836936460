"""C18: searching the visual field."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "screens of up to 3 stimuli at any positions with any texts and visible colours, any focus; requests for a text, a colour, absolute and relative positions, lowest, highest, closest and closest in one direction, on either axis; requests that exclude texts, colours and coordinates, directly or by a variable; sequences of two requests for attended and unattended stimuli with 0 to 2 remembered ones, with and without automatic search; two screens with automatic search",
    "thorough": "screens of up to 4 stimuli, sequences of three requests, three screens",
}
ASSUMPTIONS = ["positions are whole numbers", "two stimuli that are alike in everything cannot be told apart", "requests with different superlatives on the two axes are left open"]


def COVERS(tier):
    return ["found", "not found", "absolute", "smaller", "greater", "lowest", "highest", "closest", "onewayclosest", "text", "colour", "attended", "unattended", "auto", "auto second", "nothing new", "typed", "excluded: value", "excluded: color", "excluded: screen_x", "excluded: color+value"]


def setup(S, n, focus=True, auto=False, finst=4, colours=False, screens=1, rf=0.05):
    A = act()
    fx, fy = (S.int("fx", 0, 640), S.int("fy", 0, 360)) if focus else (320, 180)
    env = A.Environment(focus_position=(fx, fy))
    m = new_model(env, subsymbolic=False, automatic_visual_search=auto, emma_noise=False, rule_firing=rf)
    visual, loc = m.visualBuffer("visual", "visual_location", m.decmem, finst=finst)
    stims = []
    for k in range(screens):
        scr = {}
        for i in range(n):
            s = {"text": S.str(f"t{k}{i}"), "position": (S.int(f"x{k}{i}", 0, 640), S.int(f"y{k}{i}", 0, 360))}
            if colours:
                s.update({"color": S.str(f"c{k}{i}"), "externally_visible": ["color"]})
            if colours == "typed":
                s.update({"freq": S.str(f"f{k}{i}"), "hidden": "h", "externally_visible": ["freq", "color"], "visual_location_typename": "wordlocation", "visual_typename": "word"})
            scr[f"s{k}{i}"] = s
        stims.append(scr)
    kw = dict(environment_process=env.environment_process, stimuli=[dict(s) for s in stims], triggers="", times=10, start_time=0)
    return A, m, loc, (fx, fy), stims, kw


def sq(a, b):
    return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


def axis_request(S, name, kind):
    """One axis of a request: its value and, for a position, its number."""
    if kind == "":
        return None, None
    if kind in ("lowest", "highest", "closest", "onewayclosest"):
        return kind, None
    n = S.int(name, 0, 640)
    return (S.intstr(n) if kind == "=" else S.relstr(kind, n)), n


def fits(S, stim, ax, kind, n):
    p = stim["position"][ax]
    if kind == "=":
        S.cover("absolute")
        return S.eq(p, n)
    if kind == "<":
        S.cover("smaller")
        return p < n
    if kind == ">":
        S.cover("greater")
        return p > n
    return True


def better(S, focus, a, b, ax, kind):
    """a is strictly better than b for a superlative."""
    S.cover(kind)
    if kind == "closest":
        return sq(focus, a["position"]) < sq(focus, b["position"])
    p, q = a["position"][ax], b["position"][ax]
    if kind == "lowest":
        return p < q
    if kind == "highest":
        return p > q
    f = focus[ax]
    return abs(p - f) < abs(q - f)


def at(S, stim, content):
    """The location in the buffer is that of a stimulus."""
    if content is None:
        return False
    return S.And(S.eq(S.float(content["screen_x"]) if not isinstance(content["screen_x"], (str, int)) else content["screen_x"], S.intstr(stim["position"][0])),
                 S.eq(content["screen_y"], S.intstr(stim["position"][1])))


def check_search(S, what, content, before, error, stims, ok, beats, detail):
    """ok(stim): it satisfies the request; beats(a, b): a is strictly better."""
    good = [s for s in stims if S.known(ok(s))]
    if not good:
        S.check(error, what + ": a search that fails sets the state of the buffer to error", detail)
        S.check(slots_eq(S, content, before), what + ": a search that fails leaves the buffer as it was", detail)
        S.cover("not found")
        return
    S.cover("found")
    S.check(not error, what + ": a search finds a stimulus that satisfies the request", detail)
    if error:
        return
    S.check(S.Or(*[at(S, s, content) for s in good]), what + ": only a stimulus that satisfies the request is found", detail)
    S.check(S.Or(*[S.And(at(S, s, content), *[S.Not(beats(o, s)) for o in good if o is not s]) for s in good]), what + ": no other stimulus is better for the request", detail)
    return good


def search(S, n, kx="", ky="", text=False, colour=False, focus=True):
    A, m, loc, f, stims, kw = setup(S, n, focus=focus, colours=colour)
    m.goal.add(A.makechunk("", "t", k="0"))
    vx, nx = axis_request(S, "rx", kx)
    vy, ny = axis_request(S, "ry", ky)
    req = {k: v for k, v in (("screen_x", vx), ("screen_y", vy)) if v is not None}
    if text:
        req["value"] = S.str("text")
        S.cover("text")
    if colour:
        req["color"] = S.str("colour")
        S.cover("colour")
    if colour == "typed":
        A.chunktype("wordlocation", "screen_x, screen_y, color, value, freq")
        req["freq"] = S.str("freq")
        S.cover("typed")
    rule(m, "look", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual_location": A.makechunk("", "wordlocation" if colour == "typed" else "_visuallocation", **req)})
    ev = trace(prepared(m, **kw), 40, until=1, stop=lambda es: es[-1].action.startswith("ENCODED LOCATION"))

    def ok(s):
        return S.And(fits(S, s, 0, kx, nx), fits(S, s, 1, ky, ny), S.eq(s["text"], req["value"]) if text else True, S.eq(s["color"], req["color"]) if colour else True, S.eq(s["freq"], req["freq"]) if colour == "typed" else True)

    def beats(a, b):
        return S.Or(*[better(S, f, a, b, ax, k) for ax, k in ((0, kx), (1, ky)) if k in ("lowest", "highest", "closest", "onewayclosest")])
    enc = [e for e in ev if e.action.startswith("ENCODED LOCATION")]
    S.check(len(enc) == 1 and S.close(enc[0].time, 0.05), "a search takes no time", lambda: f"{ev}")
    screen = list(stims[0].values())
    detail = lambda: f"{req} focus {f} {screen} -> {loc} {loc.state}"  # noqa: E731
    good = check_search(S, "search", held(loc), None, loc.state == "error", screen, ok, beats, detail)
    if good and colour:
        S.check(S.eq(held(loc)["color"], req["color"]), "the visible features are found", detail)
    if good and colour == "typed":
        S.check(next(iter(loc)).typename == "wordlocation" and S.known(S.eq(held(loc).get("freq"), req["freq"])) and set(held(loc)) <= {"screen_x", "screen_y", "color", "value", "freq"} and is_none(S, held(loc).get("value")), "a location has the type and the visible features of its stimulus", detail)


def excluding(S, n, slots, by="value", kx=""):
    """Requests that exclude a text, a feature or a coordinate."""
    colour = "color" in slots
    A, m, loc, f, stims, kw = setup(S, n, focus=False, colours=colour)
    vx, nx = axis_request(S, "rx", kx)
    req, out, goal = ({"screen_x": vx} if vx is not None else {}), {}, {"k": "0"}
    for s in slots:
        x = S.str("no_" + s) if s in ("value", "color") else S.intstr(S.int("no_" + s, 0, 640))
        out[s] = [x]
        if by == "variable":
            goal["not" + s], req[s] = x, vv(negvariables=("v" + s,))
        elif by == "two":
            out[s].append("B" if s in ("value", "color") else "7")
            req[s] = vv(negvalues=tuple(out[s]))
        else:
            req[s] = vv(negvalues=(x,))
    if colour and "color" not in req:
        req["color"] = S.str("colour")
    m.goal.add(A.makechunk("", "t", **goal))
    rule(m, "look", lambda: {"=g": A.makechunk("", "t", k="0", **({"not" + s: vv(variables="v" + s) for s in slots} if by == "variable" else {}))}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual_location": A.makechunk("", "_visuallocation", **req)})
    ev = trace(prepared(m, **kw), 40, until=1, stop=lambda es: es[-1].action.startswith("ENCODED LOCATION"))
    has = lambda s, slot: {"value": s["text"], "color": s.get("color")}.get(slot) if slot in ("value", "color") else S.intstr(s["position"][slot == "screen_y"])  # noqa: E731

    def ok(s):
        return S.And(fits(S, s, 0, kx, nx), *[S.Not(S.eq(has(s, slot), x)) for slot in slots for x in out[slot]])

    def beats(a, b):
        return better(S, f, a, b, 0, kx) if kx in ("lowest", "highest", "closest", "onewayclosest") else False
    screen = list(stims[0].values())
    detail = lambda: f"{req} {goal} {screen} -> {loc} {loc.state} {ev}"  # noqa: E731
    good = check_search(S, "exclusion", held(loc), None, loc.state == "error", screen, ok, beats, detail)
    if good and colour:
        S.check(S.Or(*[S.And(at(S, s, held(loc)), S.eq(held(loc)["color"], s["color"])) for s in good]), "the visible features are found", detail)
    S.cover("excluded: " + "+".join(slots))


def attended(S, n, finst, asks, auto=False, criterion="", feature="value"):
    """A sequence of requests for (un)attended stimuli."""
    A, m, loc, f, stims, kw = setup(S, n, focus=auto or criterion == "closest", auto=auto, finst=finst, colours=feature == "color")
    m.goal.add(A.makechunk("", "t", k="0"))
    texts = [S.str(f"text{i}") if i == 0 or feature == "color" else None for i in range(len(asks))]  # visible features have to be asked for
    for i, a in enumerate(asks):
        req = {feature: texts[i]} if texts[i] is not None else {}
        if criterion:
            req["screen_x"] = criterion
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))},
             lambda i=i, a=a, req=req: {**({"?visual_location": {"attended": a}} if a is not None else {}), "=g": A.makechunk("", "t", k=str(i + 1)), "+visual_location": A.makechunk("", "_visuallocation", **req)})
    screen = list(stims[0].values())
    recent = []
    before = None
    sim = prepared(m, **kw)
    state = {"n": 0}

    def attend(content):
        """The stimulus in the buffer; stimuli at one place are told apart by what the buffer may hold."""
        for s in screen:
            if S.known(at(S, s, content)):
                recent.append(s)
                break
        while len(recent) > finst:
            recent.pop(0)
    # stimuli at the same place cannot be told apart by the location
    for i, s in enumerate(screen):
        for o in screen[:i]:
            S.assume(S.Not(S.And(S.eq(s["position"][0], o["position"][0]), S.eq(s["position"][1], o["position"][1]))))
    if auto:
        trace(sim, 40, until=0.01, stop=lambda es: es[-1].action.startswith("ENCODED LOCATION"))
        content = held(loc)
        S.check(content is not None and S.Or(*[S.And(at(S, s, content), *[sq(f, s["position"]) <= sq(f, o["position"]) for o in screen]) for s in screen]), "automatic search finds the closest stimulus", lambda: f"{f} {screen} {loc}")
        S.cover("auto")
        if content is None:
            return
        attend(content)
        before = content
    for i, a in enumerate(asks):
        ev = trace(sim, 40, until=1, stop=lambda es: es[-1].action.startswith("ENCODED LOCATION"))
        content = held(loc)
        seen = list(recent)

        def ok(s):
            r = any(s is x for x in seen)
            if finst == 0:
                r = None
            return S.And(a is None or r is None or r == a, S.eq(s["text" if feature == "value" else feature], texts[i]) if texts[i] is not None else True)

        def beats(p, q):
            return better(S, f, p, q, 0, criterion) if criterion else False
        if a is not None:
            S.cover("attended" if a else "unattended")
        err = loc.state == "error"
        check_search(S, f"request {i}", content, before, err, screen, ok, beats, lambda: f"{asks} {texts} recent {seen} screen {screen} -> {loc} {loc.state}; {ev}")
        if not err:
            attend(content)
        before = content


def screens(S, n, k, finst, empty=False, same=False):
    """Automatic search on successive screens (all with the same stimuli, if same)."""
    A, m, loc, f, stims, kw = setup(S, n, focus=not same, auto=True, finst=finst, screens=1 if same else k)
    if same:
        stims = [{f"s{j}{i}": dict(s, text="abc"[i]) for i, s in enumerate(stims[0].values())} for j in range(k)]
        kw["stimuli"] = [{i: dict(s) for i, s in scr.items()} for scr in stims]
    kw["times"] = 1
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "never", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2")})
    sim = prepared(m, **kw)
    before = None
    recent = []
    for j in range(k):
        screen = list(stims[j].values())
        sim.run(j + 0.5)
        content = held(loc)

        def alike(s, o):
            return S.And(S.eq(s["text"], o["text"]), S.eq(s["position"][0], o["position"][0]), S.eq(s["position"][1], o["position"][1]))
        new = [s for s in screen if not any(S.known(alike(s, r)) for r in recent)]
        detail = lambda: f"{f} {screen} recent {recent} -> {loc}"  # noqa: E731
        if not new:
            S.cover("nothing new")
            S.check(slots_eq(S, content, before), "automatic search leaves the buffer when nothing is new", detail)
        else:
            if j:
                S.cover("auto second")
            S.check(content is not None and S.Or(*[S.And(at(S, s, content), *[sq(f, s["position"]) <= sq(f, o["position"]) for o in new]) for s in new]), "automatic search finds the closest new stimulus", detail)
            if content is None:
                return
            hits = [s for s in new if S.known(at(S, s, content))]
            if len(hits) > 1:
                hits = [s for s in hits if S.known(S.And(*[sq(f, s["position"]) <= sq(f, o["position"]) for o in new]))]
                if len(hits) > 1 and not all(S.known(alike(hits[0], h)) for h in hits[1:]):
                    return
            recent.append(hits[0])
            while len(recent) > finst:
                recent.pop(0)
        S.check(loc.state == "free", "the location buffer is free after an automatic search", detail)
        before = content
        if empty:
            for c in tuple(loc):
                loc.discard(c)
            before = None


SUP = ("lowest", "highest", "closest", "onewayclosest")


def jobs(tier):
    J = lambda h, w=1, b=None, **kw: Job("c18", h, kw, weight=w, **({"budget": b} if b else {}))  # noqa: E731
    out = []
    for k in ("", "=", "<", ">"):
        out += [J("search", n=2, kx=k), J("search", n=2, ky=k, text=True, focus=False), J("search", n=2, kx=k, ky="lowest", focus=False)]
    for k in SUP:
        out += [J("search", n=2 if k == "onewayclosest" else 3, kx=k, focus="closest" in k), J("search", n=2 if k == "closest" else 3, ky=k, focus="closest" in k), J("search", n=2, kx=k, text=True, focus="closest" in k), J("search", n=2, kx=">", ky=k, focus="closest" in k),
                J("search", n=2, kx=k, ky="<", focus="closest" in k)]
    out += [J("search", n=3, colour=True, focus=False), J("search", n=2, kx="lowest", colour=True, focus=False), J("search", n=0), J("search", n=2, text=True, kx="=", ky="=", focus=False)]
    out += [J("search", n=2, colour="typed", focus=False), J("search", n=2, colour="typed", text=True, ky=">", focus=False)]
    for sl in (("value",), ("color",), ("screen_x",), ("screen_y",), ("color", "value"), ("screen_x", "value")):
        out.append(J("excluding", n=2, slots=sl))
    out += [J("excluding", n=2, slots=("value",), by=b) for b in ("variable", "two")] + [J("excluding", n=2, slots=("color",), by=b) for b in ("variable", "two")] + [J("excluding", n=2, slots=("value",), kx="lowest"), J("excluding", n=2, slots=("value",), kx="<")]
    for finst in (0, 1, 2):
        for asks in ((None, False), (None, True), (False, False), (True, None)):
            out.append(J("attended", n=2, finst=finst, asks=asks))
        out.append(J("attended", n=2, finst=finst, asks=(False, True), auto=True))
    out += [J("attended", n=2, finst=1, asks=(None, False), feature="color"), J("attended", n=2, finst=1, asks=(None, False), criterion="lowest"), J("attended", n=2, finst=1, asks=(None, False), criterion="closest"), J("attended", n=2, finst=1, asks=(None, False, False)),
            J("attended", n=2, finst=2, asks=(None, False, False))]
    out += [J("screens", n=1, k=2, finst=4, empty=True), J("screens", n=1, k=2, finst=0, empty=True), J("screens", n=1, k=2, finst=4), J("screens", n=1, k=3, finst=1), J("screens", n=2, k=1, finst=1), J("screens", n=2, k=3, finst=2, same=True, empty=True)]
    if tier == "thorough":
        out += [J("search", 2, 800, n=3, kx=k, ky=l, text=t, focus="closest" in k + l) for k, l in [(k, "") for k in SUP] + [("", k) for k in SUP] for t in (False, True)]
        out += [J("attended", n=3, finst=1, asks=(None, False), criterion="closest")]
        out += [J("search", 2, 800, n=4, kx=k, focus="closest" in k) for k in SUP] + [J("search", n=3, kx="onewayclosest", ky=k) for k in ("=", "<", ">")]
        out += [J("attended", 2, 800, n=3, finst=f, asks=a) for f in (1, 2) for a in ((None, False, False), (None, False, True), (None, True, False))]
        out += [J("attended", 2, 800, n=3, finst=1, asks=(None, False), criterion="lowest"), J("screens", 2, 800, n=2, k=2, finst=4), J("attended", 2, 800, n=2, finst=2, asks=(None, False, True), feature="color")]
        out += [J("screens", 2, 800, n=1, k=3, finst=4, empty=True), J("screens", 2, 800, n=2, k=3, finst=2), J("screens", 2, 800, n=3, k=2, finst=2)]
    return out
