"""C29: what modules report about their work."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "two key presses and three with keys of three kinds; two and three shifts of attention with and without EMMA, along a line, with arbitrary delays of encoding and a new screen at any moment; one retrieval or delayed setting or change of a buffer with an operation on the same buffer at any moment of it; up to three searches for locations, found or not; a shift to where nothing is before, during or after the movement of another; each at arbitrary firing times and latencies",
    "thorough": "keys of six kinds, four presses, three shifts with delays",
}
ASSUMPTIONS = ["between the start of a movement of the eyes and its end, vision may already say that its state is free if the object has been encoded", "steps that fall on the very same moment are not distinguished"]

ASKS = ("state", "preparation", "processor", "execution")


def COVERS(tier):
    return ["keys overlap", "key replaced", "shifts overlap", "shift replaced", "encoded late", "encoded in preparation", "working", "finished", "failed", "new screen during a shift", "second in movement", "disappeared", "nothing there", "request replaced", "full", "looked in vain with a full buffer", "looked again", "nowhere during a movement", "nowhere after a movement", "nowhere during preparation"]


def says(S, buf, what):
    """What a module says: busy, free or error."""
    yes = [x for x in ("busy", "free", "error") if buf.test(what, x)]
    S.check(len(yes) == 1, "a module is in exactly one state", lambda: f"{what} {yes}")
    return yes[0] if len(yes) == 1 else None


def run(S, sim, buf, limit, until=None, asks=ASKS):
    """The events of a simulation together with what the module said right after each of them."""
    seen = []

    def stop(ev):
        seen.append((ev[-1], {x: says(S, buf(), x) for x in asks}))
        return False

    trace(sim, limit, until=until, stop=stop)
    return seen


def probe(S, m, hi, on=True):
    """A buffer whose setting, requested by the first rule, ends at an arbitrary moment: a look at the module at that moment."""
    if not on:
        return {}, None
    D = S.time("D", 0, hi, lo_open=True, exact=True)
    m.set_goal("p", D)
    return {"+p": act().makechunk("", "t", k="p")}, D


def keys(S, waits, kinds, probed=False):
    A = act()
    rf = 0.05 if probed else S.time("rf", 0, 1, lo_open=True, exact=True)
    m = new_model(subsymbolic=False, rule_firing=rf)
    n = len(waits) + 1
    m.set_goal("g")
    look, D = probe(S, m, 2, probed)
    ks = [S.str(f"k{i}", kinds if i else kinds[:2], only=True, lazy=True) for i in range(n)]
    m.goals["g"].add(A.makechunk("", "t", k="0"))
    for i in range(n):
        w = waits[i - 1] if i else None
        rule(m, f"r{i}", lambda i=i, w=w: {"=g": A.makechunk("", "t", k=str(i)), **({"?manual": {w: "free"}} if w else {})},
             lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), **({} if i else look), "+manual": A.makechunk("", "_manual", cmd="press_key", key=ks[i])})
    sim = prepared(m)
    mb = m._ACTRModel__buffers["manual"]
    seen = run(S, sim, lambda: mb, 40 * n)
    preparing, queue = False, []  # the movements that were prepared and did not end: initiated or not
    for i, (e, got) in enumerate(seen):
        a = e.action
        if e.proc == "manual":
            if a.startswith("COMMAND"):
                if preparing:
                    S.cover("key replaced")
                preparing = True
            elif a == "PREPARATION COMPLETE":
                preparing = False
                queue.append(False)
            elif a == "INITIATION COMPLETE":
                queue[queue.index(False)] = True
            elif a == "MOVEMENT FINISHED":
                queue.pop(0)
        if preparing and queue or len(queue) > 1:
            S.cover("keys overlap")
        if i + 1 < len(seen) and (a == "PREPARATION COMPLETE" or not S.known(e.time > seen[i - 1][0].time + 0.0006) and e.proc == "p" or not S.known(seen[i + 1][0].time > e.time + 0.0006)):
            continue  # more happens at this very moment
        want = {"preparation": preparing, "execution": bool(queue), "processor": preparing or False in queue, "state": preparing or bool(queue)}
        for x in ASKS:
            S.check(got[x] == ("busy" if want[x] else "free"), "the motor module says what it is doing", lambda x=x, e=e, got=got: f"{x} after {e}: {got} keys {ks} {[s[0] for s in seen]}")
        S.cover("working" if want["state"] else "finished")
    S.check(not preparing and not queue, "every movement ends", lambda: f"{[s[0] for s in seen]}")


def shifts(S, waits, emma=True, delays=False, screen=False, probed=False):
    from .c19 import GEOMETRY, Shift, attend, m_env
    n = len(waits) + 1
    A = act()
    GEOMETRY[:] = [(640, 360), (50, 28), 50]
    f, (K, k), rf = (320, 180), (0.01, 1), 0.06 if screen or probed else S.time("rf", 0, 1, lo_open=True, exact=True)
    env = A.Environment(focus_position=f)
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, rule_firing=rf, emma=emma, emma_noise=False, eye_mvt_angle_parameter=k, eye_mvt_scaling_parameter=K)
    visual, _ = m.visualBuffer("visual", "visual_location", m.decmem)
    scr = []
    for q in range(2 if screen else 1):
        scr.append({})
        for i in range(n):
            scr[q][f"s{q}{i}"] = {"text": S.str(f"t{q}{i}"), "position": ((450, 100, 500)[i] - 100 * q, 180)}
            if delays is True or delays and i in delays:
                scr[q][f"s{q}{i}"]["vis_delay"] = S.real(f"d{q}{i}", 0, 100, lo_open=True)
    stims = list(scr[0].values())
    m.set_goal("g")
    look, D = probe(S, m, 2, probed)
    m.goals["g"].add(A.makechunk("", "t", k="0"))
    for i in range(n):
        w = waits[i - 1] if i else None
        rule(m, f"r{i}", lambda i=i, w=w: {"=g": A.makechunk("", "t", k=str(i)), **({"?visual": {w: "free"}} if w else {})}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), **({} if i else look), "+visual": attend(A, stims[i], S)})
    times = 10**8
    if screen:
        times = [S.time("T", 0.061, 1, exact=True), 10**8]
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=times, start_time=0)
    if not screen:
        visual.attend_automatic = False
    seen = run(S, sim, lambda: visual, 60 * n, until=1e9 if not screen else 10)
    T = times[0] if screen else None
    txt = lambda: f"T {T} {scr} K {K} k {k} {[(p.t0, p.prepared, p.ready, p.moved, p.encoded, p.how) for p in specs]} {[s[0] for s in seen]}"  # noqa: E731
    specs, t, here = [], rf, f
    gone = False  # what is looked for disappears before it is encoded
    later = lambda a, b: S.known(a > b)  # noqa: E731
    for i, s in enumerate(stims):
        last = specs[-1] if specs else None
        if last is not None:
            w = waits[i - 1]
            t = {None: last.t0, "preparation": last.ready, "processor": last.free, "state": last.encoded}[w] + rf
            for o in specs:
                for b in (o.prepared, o.moved, o.encoded):
                    if b is not None and not (w and b is {"preparation": last.ready, "processor": last.free, "state": last.encoded}[w]):
                        S.assume(S.Not(S.close(t, b, 0.002)))
            if later(last.ready, t):  # it is replaced: its movement never starts
                S.cover("shift replaced")
                if later(last.encoded, t):
                    last.encoded = None
                last.moved, last.free, last.until = None, t, t
            for o in specs:
                if o.moved is not None and later(t, o.moved):
                    here = o.stim["position"]
        moving = [o.moved for o in specs if o.moved is not None]
        p = Shift(S, t, here, s, K, k, emma, moving[-1] if moving else None)
        p.until = None
        if "vis_delay" in s:
            S.assume(S.Not(S.Or(S.close(p.enc, p.prep, 1e-4), S.close(p.enc, p.prep + p.exe, 1e-4))))
        if screen:
            for b in (p.prepared, p.ready, p.moved, p.encoded):
                S.assume(S.Not(S.close(T, b, 0.002)))
            if later(p.ready, T):
                S.cover("new screen during a shift")
                if later(p.encoded, T):
                    p.encoded = None
                p.moved, p.free, p.until = None, T, T
            elif p.how == "after" and later(p.moved, T):
                S.cover("disappeared")
                p.encoded, p.free, p.until, gone = None, p.moved, p.moved, True
        if p.how == "after":
            S.cover("encoded late")
        elif p.how == "prep":
            S.cover("encoded in preparation")
        if specs and specs[-1].moved is not None and later(specs[-1].free, t):
            S.cover("shifts overlap")
            if later(p.prepared, specs[-1].start):
                S.cover("second in movement")
        specs.append(p)
    S.check(len([1 for e, _ in seen if e.action.startswith("PREPARATION TO SHIFT VISUAL ATTENTION STARTED")]) == n, "every request starts a shift", txt)
    S.check(len([1 for e, _ in seen if e.action.startswith("SHIFT COMPLETE")]) == len([p for p in specs if p.moved is not None]), "every shift that is not replaced is carried out", txt)
    marks = [b for p in specs for b in (p.t0, p.prepared, p.ready, p.moved, p.encoded, p.free, p.until) if b is not None] + ([T] if screen else []) + ([D + rf] if probed else [])
    for i, a in enumerate(marks):
        for b in marks[:i]:
            if a is not b:
                S.assume(S.Or(S.eq(a, b), S.Not(S.close(a, b, 0.002))))
    past = lambda t, b: S.known(t > b - 0.0006)  # noqa: E731
    for j, (e, got) in enumerate(seen):
        nxt = seen[j + 1][0] if j + 1 < len(seen) else None
        if e.time <= 0 or not S.known(e.time > seen[j - 1][0].time + 0.0006) and e.proc == "p" or e.action == "PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED" or nxt is not None and not S.known(nxt.time > e.time + 0.0006):
            continue  # more happens at this very moment
        started = [p for p in specs if past(e.time, p.t0)]
        want = {}
        if not started:
            want = dict.fromkeys(ASKS, "free")
        else:
            p = started[-1]
            open_ = [o for o in started if not past(e.time, o.free)]
            unencoded = [o for o in started if (o.encoded is None and not past(e.time, o.until)) or (o.encoded is not None and not past(e.time, o.encoded))]
            if p in unencoded:
                want["state"] = "busy"
            elif not unencoded and (len(open_) <= 1):
                want["state"] = "error" if gone else "free"
            if p in open_:
                want["processor"] = "busy"
            elif not open_:
                want["processor"] = "free"
            stopped = p.until is not None and p.moved is None and past(e.time, p.until)
            if not stopped and not past(e.time, p.prepared):
                want["preparation"] = "busy"
            elif stopped or past(e.time, p.ready):
                want["preparation"] = "free"
            movers = [o for o in started if o.moved is not None and past(e.time, o.ready)]
            if any(not past(e.time, o.moved) for o in movers):
                want["execution"] = "busy"
            elif all(past(e.time, o.free) for o in movers):
                want["execution"] = "free"
            S.cover("working" if open_ else "finished")
        if e.action.startswith("ENCODED"):
            want.pop("preparation", None), want.pop("execution", None)  # the movement may be starting at this very moment
        for x in want:
            S.check(got[x] == want[x], "vision says what it is doing", lambda x=x, w=want[x], g=got, e=e: f"{x} should be {w} after {e}: {g} {txt()}")
    S.check(seen[-1][1] == dict(dict.fromkeys(ASKS, "free"), state="error" if gone else "free"), "at the end vision is free", lambda: f"{seen[-1]} {txt()}")


def nothing(S, emma, before, same=False):
    """A shift is requested to a place where nothing is, or nothing any more."""
    from .c19 import attend, m_env
    A = act()
    T, rf = S.time("T", 0, 1, lo_open=True, exact=True), 0.05
    env = A.Environment(focus_position=(320, 180))
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, rule_firing=rf, emma=emma, emma_noise=False)
    visual, _ = m.visualBuffer("visual", "visual_location", m.decmem)
    p, q = ((450, 180), (500, 180))
    scr = [{"a": {"text": S.str("ta"), "position": p}}, {"b": {"text": S.str("tb"), "position": q}}]
    D = S.time("D", 0, 1, lo_open=True, exact=True)
    m.set_goal("g").add(A.makechunk("", "t", k="0"))
    m.set_goal("d", D)
    if before:
        visual.add(A.makechunk("", "_visual", value=S.str("old")))
    rule(m, "wait", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+d": A.makechunk("", "t", k="d")})
    rule(m, "look", lambda: {"=g": A.makechunk("", "t", k="1"), "=d": A.makechunk("", "t", k="d")}, lambda: {"=g": A.makechunk("", "t", k="2"), "+visual": attend(A, scr[0]["a"], S)})
    rule(m, "failed", lambda: {"=g": A.makechunk("", "t", k="2"), "?visual": {"state": "error"}}, lambda: {"=g": A.makechunk("", "t", k="3")})
    rule(m, "again", lambda: {"=g": A.makechunk("", "t", k="3")}, lambda: {"=g": A.makechunk("", "t", k="4"), "+visual": attend(A, scr[1]["b"], S)})
    at = rf + D + rf
    S.assume(S.Not(S.close(T, at, 0.001)))
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=scr, triggers="", times=[T, 10**4], start_time=0)
    visual.attend_automatic = False
    old = held(visual)
    S.assume(T < at)
    ev = trace(sim, 60, until=100, stop=lambda es: es[-1].action == "RULE SELECTED: failed")
    d = lambda: f"T {T} D {D} {visual} {[getattr(visual, x) for x in ASKS]} {ev}"  # noqa: E731
    S.check(ev[-1].action == "RULE SELECTED: failed" and S.close(ev[-1].time, at, 0.0005), "a shift of attention to where nothing is fails", d)
    S.check({x: says(S, visual, x) for x in ASKS} == dict(dict.fromkeys(ASKS, "free"), state="error"), "after a shift that failed vision does nothing", d)
    S.check(len(visual) == before and (not before or slots_eq(S, held(visual), old)), "a shift that fails changes nothing", d)
    S.check(S.And(S.eq(m_env(m).current_focus[0], 320), S.eq(m_env(m).current_focus[1], 180)), "a shift that fails moves no eyes", d)
    trace(sim, 60, until=100)
    S.check(val_eq(S, (held(visual) or {}).get("value"), scr[1]["b"]["text"]), "after a shift that failed another one succeeds", d)
    S.check({x: says(S, visual, x) for x in ASKS} == dict.fromkeys(ASKS, "free"), "after a shift that succeeded vision is free", d)
    S.cover("nothing there")


def nowhere(S):
    """While a shift is under way or after it, a shift is requested to a place where nothing is."""
    from .c19 import GEOMETRY, Shift, attend, m_env
    A = act()
    GEOMETRY[:] = [(640, 360), (50, 28), 50]
    rf = S.time("rf", 0, 0.3, lo_open=True, exact=True)
    env = A.Environment(focus_position=(320, 180))
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, rule_firing=rf, emma=True, emma_noise=False, eye_mvt_angle_parameter=1, eye_mvt_scaling_parameter=0.01)
    visual, _ = m.visualBuffer("visual", "visual_location", m.decmem)
    s = {"text": S.str("t"), "position": (450, 180)}
    m.set_goal("g").add(A.makechunk("", "t", k="0"))
    empty = {"text": "x", "position": (100, 100)}
    for i, p in enumerate((s, empty)):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i, p=p: {"=g": A.makechunk("", "t", k=str(i + 1)), "+visual": attend(A, p, S)})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[{"a": dict(s)}], triggers="", times=1000, start_time=0)
    visual.attend_automatic = False
    p = Shift(S, rf, (320, 180), s, 0.01, 1, True, None)
    t = 2 * rf
    for b in (p.prepared, p.moved):
        S.assume(S.Not(S.close(t, b, 0.002)))
    seen = run(S, sim, lambda: visual, 60, until=10)
    txt = lambda: f"rf {rf} {[(p.t0, p.prepared, p.ready, p.moved)]} {seen}"  # noqa: E731
    moves = S.known(t > p.ready)
    S.cover("nowhere during a movement" if moves and S.known(t < p.moved) else "nowhere after a movement" if moves else "nowhere during preparation")
    S.check(len([1 for e, _ in seen if e.action.startswith("SHIFT COMPLETE")]) == (1 if moves else 0), "a shift to nowhere replaces only a shift in preparation", txt)
    for j, (e, got) in enumerate(seen):
        if e.time <= 0 or not S.known(e.time > t - 0.0006) or e.proc not in ("visual", "PROCEDURAL") or e.action == "RULE FIRED: r1":
            continue
        if j + 1 < len(seen) and not S.known(seen[j + 1][0].time > e.time + 0.0006):
            continue  # more happens at this very moment
        working = moves and S.known(e.time < p.moved - 0.0006)
        for x in ("processor", "execution"):
            S.check(got[x] == ("busy" if working else "free"), "a shift to nowhere leaves the movement of another one alone", lambda x=x, e=e, got=got: f"{x} after {e}: {got} {txt()}")
        S.check(got["preparation"] == "free", "a shift to nowhere prepares nothing", lambda e=e, got=got: f"{e} {got} {txt()}")
        if working or not moves or S.known(t > p.moved):
            S.check(got["state"] == "error", "a shift to nowhere fails", lambda e=e, got=got: f"{e} {got} {txt()}")


def work(S, kind, fails=False, again=False, full=False):
    """A buffer that works on a request, seen after every event and at an arbitrary moment."""
    A = act()
    rf = S.time("rf", 0.0002, 1, exact=True)
    L = S.time("L", 0, 1, exact=True)
    m = new_model(subsymbolic=True, baselevel_learning=False, latency_exponent=0, latency_factor=L, rule_firing=rf, retrieval_threshold=100 if fails else -100, strict_harvesting=False)
    m.set_goal("g").add(A.makechunk("", "t", k="0"))
    look, D = probe(S, m, 3)
    h = m.set_goal("h", L)
    name = {"retrieval": "+retrieval", "set": "+h", "change": "*h"}[kind]
    if kind == "retrieval":
        m.decmem.add(A.makechunk("", "t", k="a"))
    if kind == "change":
        h.add(A.makechunk("", "t", k="b"))
    buf = m.retrieval if kind == "retrieval" else h
    if full:
        buf.add(A.makechunk("", "t", k="old"), 0) if kind == "retrieval" else buf.add(A.makechunk("", "t", k="old"))
        S.cover("full")
    E = S.time("E", 0, 1, lo_open=True, exact=True) if again else None
    if again:
        m.set_goal("w", E)
        look["+w"] = A.makechunk("", "t", k="w")
        rule(m, "again", lambda: {"=g": A.makechunk("", "t", k="1"), "=w": A.makechunk("", "t", k="w")}, lambda: {"=g": A.makechunk("", "t", k="2"), name: A.makechunk("", "t", k="a")})
    rule(m, "go", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), **look, name: A.makechunk("", "t", k="a")})
    spans = [[rf, rf + L]]
    if again:
        t = rf + E + rf
        S.assume(S.Not(S.close(t, rf + L, 0.001)))
        if S.known(t < rf + L):
            S.cover("request replaced")
            spans[0][1] = t
        spans.append([t, t + L])
    for b in [x for s in spans for x in s]:
        S.assume(S.Not(S.close(rf + D, b, 0.001)))
    seen = run(S, prepared(m), lambda: buf, 80, asks=("state",))
    past = lambda t, b: S.known(t > b - 0.0006)  # noqa: E731
    for j, (e, got) in enumerate(seen):
        if j + 1 < len(seen) and not S.known(seen[j + 1][0].time > e.time + 0.0006):
            continue
        works = any(past(e.time, a) and not past(e.time, b) for a, b in spans)
        done = past(e.time, spans[0][1])
        want = "busy" if works else "error" if done and fails else "free"
        S.check(got["state"] == want, "a buffer says whether it works on a request", lambda e=e, got=got, want=want: f"{kind} should be {want} after {e}: {got} {[s[0] for s in seen]}")
        S.cover("working" if works else "failed" if want == "error" else "finished")


def looking(S, n, colour=False):
    """Searches for locations one after the other, some of them in vain, with what the search before left in the buffer."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True, exact=True)
    env = A.Environment(focus_position=(0, 0))
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, rule_firing=rf)
    loc = m.visualBuffer("visual", "visual_location", m.decmem, finst=0)[1]
    m.goal.add(A.makechunk("", "t", k="0"))
    x = S.int("x", 1, 600)
    asked = [S.int(f"a{i}", 1, 600) for i in range(n)]
    for i in range(n):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), "+visual_location": A.makechunk("", "_visuallocation", screen_x=S.intstr(asked[i]))})
    seen = run(S, prepared(m, environment_process=env.environment_process, stimuli=[{"A": {"text": "A", "position": (x, 10)}}], triggers="", times=100), lambda: loc, 40, until=50, asks=("state",))
    done = 0
    for e, got in seen:
        if e.proc == "visual_location" and e.action.startswith("ENCODED LOCATION"):
            done += 1
        if done < sum(x.action.startswith("RULE FIRED") for x, _g in seen[:seen.index((e, got)) + 1]):
            continue  # requested at this moment
        want = "free" if not done or S.known(S.eq(asked[done - 1], x)) else "error"
        S.check(got["state"] == want, "a buffer that looks for a location says error exactly after its last search failed", lambda e=e, got=got, want=want: f"{e} {got} wanted {want}: {x} {asked}")
        if done > 1:
            S.cover("looked in vain with a full buffer" if want == "error" and len(loc) else "looked again")
    S.check(done == n, "every search ends", lambda: f"{seen}")


def jobs(tier):
    quick = tier == "quick"
    two = ("F", "6", "j") if quick else ("F", "6", "j", "q", "P")
    out = [Job("c29", "keys", dict(waits=(w,), kinds=two, probed=p)) for w in ("preparation", "processor", "state", "execution", None) for p in (False, True)]
    out += [Job("c29", "keys", dict(waits=(w, v), kinds=("F", "6"), probed=p), weight=3) for w in ("preparation", None) for v in ("preparation", "processor", None) for p in (False, True) if not (quick and p and None in (w, v))]
    ds = lambda e, p: ((False, (0,)) if quick and not p else (False,) if quick else (False, (0,), (1,), (0, 1))) if e else (False,)  # noqa: E731
    out += [Job("c29", "shifts", dict(waits=w, emma=e, delays=d, probed=p), weight=4 if d else 1) for w in (("state",), ("preparation",), (None,), ("processor",)) for e in (True, False) for p in (False, True) for d in ds(e, p)]
    out += [Job("c29", "shifts", dict(waits=w)) for w in (("preparation", "state"), ("state", "state"))]
    out += [Job("c29", "shifts", dict(waits=(), delays=True, screen=True)), Job("c29", "shifts", dict(waits=(), delays=False, screen=True))]
    out += [Job("c29", "nothing", dict(emma=e, before=b)) for e in (True, False) for b in (0, 1)]
    out += [Job("c29", "work", dict(kind=k, fails=f, again=a)) for k, f in (("retrieval", False), ("retrieval", True), ("set", False), ("change", False)) for a in (False, True)]
    out += [Job("c29", "work", dict(kind=k, fails=f, full=True)) for k, f in (("retrieval", False), ("retrieval", True), ("set", False))]
    out += [Job("c29", "nowhere", {})]
    out += [Job("c29", "looking", dict(n=n)) for n in (1, 2, 3)]
    if not quick:
        out += [Job("c29", "shifts", dict(waits=w, delays=d), weight=6, budget=800) for w in (("preparation", "state"), ("state", "state"), ("preparation", "preparation"), ("state", None)) for d in (False, (0,), (1,))]
        out += [Job("c29", "keys", dict(waits=w, kinds=("F", "6")), weight=6, budget=800) for w in (("preparation",) * 3, ("preparation", None, "processor"))]
    return out
