"""C20: the environment shows its screens on schedule or at the press of a trigger key."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "1 to 3 screens of any durations and any starting point, one or two key presses by rules of any firing time, triggers given as a key, several keys, SPACE, lists or nothing; a rule's action on any buffer at any time relative to the changes of the screen; all forms of the arguments",
    "thorough": "4 screens, 3 key presses, two actions",
}
ASSUMPTIONS = ["what is shown at the very moment of a change, and a key pressed at that moment, are left open (but must not stop the simulation)"]
ENDS = "changes with the environment over"


def COVERS(tier):
    return ["on schedule", "key pressed", "another key", "after the end", "later", "refused", "fitted", "coincides", "before", "after", "own process", "key pressed before others"]


def screen(i):
    return {f"s{i}": {"text": f"t{i}", "position": (10 + 20 * i, 10)}}


def world(S, n, rf, **params):
    A = act()
    env = A.Environment(focus_position=(320, 180))
    m = new_model(env, subsymbolic=False, rule_firing=rf, emma_noise=False, **params)
    return A, env, m


def keys(spec):
    """The set of keys that a trigger stands for."""
    if isinstance(spec, str):
        return {"SPACE"} if spec.upper() == "SPACE" else {x.upper() for x in spec}
    return {x.upper() for x in spec}


def seen(S, env, sim, ev, limit, until):
    """Runs the simulation; the events together with the screen that is shown right after each."""
    out = []

    def stop(es):
        out.append((es[-1], env.stimulus))
        return False
    trace(sim, limit, until=until, stop=stop)
    return out


def own_process(env):
    """A process of the environment that a user may write: a generator of events that changes the screen and the trigger itself."""
    def process(shown, keypresses, lasts):
        t = env.initial_time
        yield env.Event(env.roundtime(t), env._ENV, "BEGINS")
        for s, k, d in zip(shown, keypresses, lasts):
            env.stimulus = s
            env.trigger = keys(k)
            t = t + d
            yield env.Event(env.roundtime(t), env._ENV, "IS OVER")
    return process


def schedule(S, n, press, triggers, start=False, times=None, limit=100, rf=None, fix=(), own=False):
    """press: the keys that rules press, one after the other."""
    rf = S.time("rf", 0, 2, lo_open=True, exact=True) if rf is None else rf
    A, env, m = world(S, n, rf)
    st = S.time("st", 0, 3, exact=True) if start is True else start or 0
    d = [dict(fix)[i] if i in dict(fix) else S.time(f"d{i}", 0, 5, lo_open=True, exact=True) for i in range(n if times is None else times)]
    m.goal.add(A.makechunk("", "t", k="0"))
    for i, k in enumerate(press):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i)), "?manual": {"state": "free"}}, lambda i=i, k=k: {"=g": A.makechunk("", "t", k=str(i + 1)), "+manual": A.makechunk("", "_manual", cmd="press_key", key=k)})
    if own:
        sim = prepared(m, environment_process=own_process(env), shown=[screen(i) for i in range(n)], keypresses=triggers, lasts=d)
        S.cover("own process")
    else:
        sim = prepared(m, environment_process=env.environment_process, stimuli=[screen(i) for i in range(n)], triggers=triggers, times=d if times != 1 else d[0], start_time=st)
    out = seen(S, env, sim, None, limit, 1e9)
    ev = [e for e, _s in out]
    pressed = [(e.time, e.action.split(": ")[1]) for e in ev if e.action.startswith("KEY PRESSED")]
    S.check(len(pressed) == len(press), "every key is pressed", lambda: f"{ev}")
    trig = [triggers] * n if isinstance(triggers, str) else list(triggers)
    if len(trig) == 1:
        trig = trig * n
    d = d * n if times == 1 else d
    starts = [st]
    due = st
    left = list(pressed)
    for i in range(n - 1):
        due = due + d[i]
        end = due
        for t, k in tuple(left):
            S.assume(S.Not(S.close(t, due, 0.00005)))
            for b in starts:
                S.assume(S.Not(S.close(t, b, 0.00005)))
            if k in keys(trig[i]):
                if S.known(S.And(t > starts[-1], t < end)):
                    end = t
                    left = left[left.index((t, k)) + 1:]
                    S.cover("key pressed")
                    if i < n - 2:
                        S.cover("key pressed before others")
                    break
            elif S.known(S.And(t > starts[-1], t < end)):
                S.cover("another key")
        else:
            S.cover("on schedule")
        starts.append(end)
    if any(S.known(t > due + d[n - 1]) for t, _k in pressed):
        S.cover("after the end")
    if start:
        S.cover("later")
    for e, shown in out:
        w = -1 if shown is None else int(list(shown)[0][1:])
        due_now = S.And(*([e.time >= starts[w]] if w >= 0 else []), *([e.time <= starts[w + 1]] if w + 1 < n else []))
        S.check(S.Or(due_now, *[S.close(e.time, b, 0.00005) for b in starts]), "the screen that is due is shown", lambda: f"start {st} times {d} triggers {triggers} pressed {pressed} starts {starts} at {e} shown {shown}")
    S.check(shown is not None and list(shown) == [f"s{n - 1}"], "at the end the last screen is shown", lambda: f"{shown}")
    # the screens are noticed at once: automatic search finds the (only) stimulus of a new screen
    found = [e for e in ev if e.proc == "visual_location"]
    S.check(len(found) == n and S.And(*[S.close(e.time, b, 0.00005) for e, b in zip(found, starts)]), "a new screen is noticed when it appears", lambda: f"{starts} {found}")


def fits(S, form):
    """Numbers of stimuli, triggers and times that do not fit are refused; single ones are repeated."""
    A = act()
    env = A.Environment()
    m = new_model(env, subsymbolic=False)
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "never", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2")})
    ns, nt, nd = S.choice("ns", (1, 2, 3)), S.choice("nt", (1, 2, 3)), S.choice("nd", (1, 2, 3))
    stimuli = [screen(i) for i in range(ns)] if form != "words" else [f"w{i}" for i in range(ns)]
    triggers = ["A", "B", "C"][:nt]
    durations = [S.time(f"d{i}", 0, 5, lo_open=True, exact=True) for i in range(nd)]
    args = dict(stimuli=stimuli, triggers=triggers, times=durations)
    if form == "bare":
        for k in args:
            if len(args[k]) == 1:
                args[k] = args[k][0]
    n = max(ns, nt)
    ok = (ns == nt or 1 in (ns, nt)) and nd in (1, n)
    try:
        sim = prepared(m, environment_process=env.environment_process, start_time=0, **args)
        out = seen(S, env, sim, None, 40, 1e9)
    except A.utilities.ACTRError if hasattr(A, "utilities") else Exception as e:
        S.check(not ok, "fitting numbers of stimuli, triggers and times are accepted", lambda: f"{args} {e}")
        S.check(type(e).__name__ == "ACTRError", "what does not fit is refused with the library's error", lambda: f"{e!r}")
        S.cover("refused")
        return
    S.check(ok, "numbers of stimuli, triggers and times that do not fit are refused", lambda: f"{args}")
    name = lambda i: ("w" if form == "words" else "s") + str(0 if ns == 1 else i)  # noqa: E731
    end = 0
    printed = [e for e, _s in out if e.action == "PRINTED NEW STIMULUS"]
    S.check(len(printed) == n, "every screen is shown once", lambda: f"{args} {out}")
    for i in range(n):
        end = end + durations[0 if nd == 1 else i]
        if i < len(printed):
            S.check(S.close(printed[i].time, end, 0.00005), "each screen lasts its time", lambda: f"{args} {out}")
    for e, shown in out:
        S.check(shown is None or any(list(shown) == [name(i)] for i in range(n)), "only the stimuli that were given are shown", lambda: f"{args} {shown}")
    S.check(list(env.stimulus) == [name(n - 1)], "the last screen is shown at the end", lambda: f"{args} {env.stimulus}")
    S.cover("fitted")


ACTIONS = {
    "search": {"+visual_location": ("_visuallocation", dict(screen_x="closest"))},
    "clear location": {"~visual_location": None},
    "clear visual": {"~visual": None},
    "press": {"+manual": ("_manual", dict(cmd="press_key", key="A"))},
    "other key": {"+manual": ("_manual", dict(cmd="press_key", key="B"))},
    "change location": {"*visual_location": ("_visuallocation", dict(value="z"))},
    "attend": {"+visual": ("_visual", dict(cmd="clear"))},
    "goal": {"+g": ("t", dict(k="9"))},
}


def coincide(S, actions, n=2, auto=True, content=False):
    """What rules do at any time relative to the changes of the screen does not stop them."""
    rf = S.time("rf", 0, 2, lo_open=True, exact=True)
    A, env, m = world(S, n, rf, automatic_visual_search=auto)
    visual, loc = m.visualBuffer("visual", "visual_location", m.decmem)
    d = [S.time(f"d{i}", 0, 5, lo_open=True, exact=True) for i in range(n)]
    if content:
        visual.add(A.makechunk("", "_visual", value="v"), 0)
        loc.add(A.makechunk("", "_visuallocation", screen_x="5", screen_y="5"), None, 0)
    m.set_goal("c")
    m.goals["c"].add(A.makechunk("", "t", k="0"))
    m.set_goal("g")
    m.goals["g"].add(A.makechunk("", "t", k="8"))
    for i, a in enumerate(actions):
        rhs = lambda a=a: {k: A.makechunk("", v[0], **v[1]) if v else None for k, v in ACTIONS[a].items()}  # noqa: E731
        rule(m, f"r{i}", lambda i=i: {"=c": A.makechunk("", "t", k=str(i))}, lambda i=i, rhs=rhs: {"=c": A.makechunk("", "t", k=str(i + 1)), **rhs()})
    sim = prepared(m, environment_process=env.environment_process, stimuli=[screen(i) for i in range(n)], triggers="A", times=d, start_time=0)
    d_ = lambda: f"rf {rf} times {d} {ev}"  # noqa: E731
    out = seen(S, env, sim, None, 100, 1e9)
    ev = [e for e, _s in out]
    S.check(env.stimulus is not None and list(env.stimulus) == [f"s{n - 1}"], "the last screen is shown at the end", d_)
    S.check([e.action for e in ev].count("RULE FIRED: r" + str(len(actions) - 1)) == 1, "the rules fire as without a change of the screen", d_)
    fires = [e.time for e in ev if e.action.startswith("RULE FIRED")]
    if not any(x in ("press",) for x in actions):
        ends = [e.time for e in ev if e.action == "PRINTED NEW STIMULUS"]
        S.check(len(ends) == n and S.close(ends[0], d[0], 0.00005), "the screens change on schedule", d_)
    if "search" in actions:
        k = actions.index("search")
        if len(fires) > k:
            S.check(any(e.proc == "visual_location" and S.known(S.close(e.time, fires[k], 0.00005)) for e in ev), "a search that is requested when the screen changes is carried out", d_)
    S.check(loc.state == "free" and visual.state == "free", "no module stays busy", lambda: f"{loc.state} {visual.state} {ev}")
    for t in fires:
        S.cover("coincides" if S.known(S.eq(t, d[0])) else "before" if S.known(t < d[0]) else "after")


def jobs(tier):
    out = [Job("c20", "schedule", dict(n=1, press=(), triggers="A", start=True)), Job("c20", "schedule", dict(n=3, press=(), triggers=["A", "B", "C"], start=True)),
           Job("c20", "schedule", dict(n=3, press=("a",), triggers=["SPACE", "A", "B"], fix=((2, 1),))), Job("c20", "schedule", dict(n=2, press=("SPACE",), triggers="space")),
           Job("c20", "schedule", dict(n=3, press=("B", "a"), triggers=["AB", ["B", "space"], ""], rf=0.05, fix=((1, 0.4), (2, 1))), weight=5), Job("c20", "schedule", dict(n=2, press=("S", "A"), triggers=["SPACE"], times=1, start=0.1, rf=0.05)),
           Job("c20", "schedule", dict(n=3, press=("A",), triggers="A", times=1)),
           Job("c20", "schedule", dict(n=3, press=("A", "A"), triggers=["A", "", "B"], rf=0.05, fix=((0, 1), (2, 1))))]
    out += [Job("c20", "schedule", dict(n=2, press=("A",), triggers=["A", ""], own=True)), Job("c20", "schedule", dict(n=3, press=("b",), triggers=["", "AB", ""], own=True, rf=0.05, fix=((0, 0.2), (2, 1))))]
    out += [Job("c20", "fits", dict(form=f)) for f in ("lists", "bare", "words")]
    out += [Job("c20", "coincide", dict(actions=(a,), auto=au, content=c)) for a in ACTIONS for au in (True, False) for c in ((False,) if a in ("press", "other key", "goal", "search") else (True,))]
    if tier == "thorough":
        out += [Job("c20", "schedule", dict(n=4, press=("A", "B", "A"), triggers=["A", "AB", "B", "A"]), weight=3, budget=800), Job("c20", "schedule", dict(n=4, press=("A", "B"), triggers=["B", "A", "A", "A"], start=True), weight=3, budget=800)]
        out += [Job("c20", "coincide", dict(actions=(a, b), n=3, content=True), weight=2, budget=800) for a in ACTIONS for b in ACTIONS if (a, b) != ("clear location", "change location")]
    return out
