"""C19: shifts of attention and automatic buffering."""

import math

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "one and two shifts of attention to any positions from any focus, any delays and EMMA parameters (no noise), with and without EMMA, arbitrary firing times; requests made when the module is free, when its preparation is free or during the preparation of another; automatic buffering of up to 2 stimuli on up to 2 screens; a new screen during a shift",
    "thorough": "three shifts, automatic buffering of 3 stimuli",
}
ASSUMPTIONS = ["with noise: one shift between fixed places, with arbitrary draws", "stimuli are at different whole positions given as tuples", "a request that coincides with the end of a movement is left open", "automatic buffering of several stimuli near the focus may pick any of them"]

SCREEN, SIZE, DISTANCE = 640.0, 50.0, 50
GEOMETRY = [(640, 360), (50, 28), 50]
OTHER = [(800, 480), (20, 30), 90]  # another screen


def COVERS(tier):
    return ["encoded in preparation", "encoded in movement", "encoded after movement", "no emma", "waits for the movement", "does not wait", "replaced", "queued", "buffered", "too far", "the same text", "interrupted", "undisturbed", "lands beside", "noise within", "noise after", "own parameters", "default buffers", "features", "restarted", "stopped"]


def angle(S, a, b):
    dx, dy = b[0] - S.float(a[0]), b[1] - S.float(a[1])
    return S.atan2(S.sqrt(dx * dx + dy * dy) / (float(GEOMETRY[0][0]) / GEOMETRY[1][0]), GEOMETRY[2])


def world(S, n, focus=True, delays=True, emma=True, params=True, rf=None, colour=False, screens=1, line=False, xs=(0, 640), other=False, own=False, places=None):
    """own: the parameters of eye movements are given to the buffer, which puts them before those of the model."""
    A = act()
    GEOMETRY[:] = OTHER if other else [(640, 360), (50, 28), 50]
    f = (S.int("fx", 0, 640), S.int("fy", 0, 360)) if focus else (320, 180)
    env = A.Environment(size=GEOMETRY[0], simulated_screen_size=GEOMETRY[1], viewing_distance=GEOMETRY[2], focus_position=f) if other else A.Environment(focus_position=f)
    K, k = (S.real("K", 0, 1, lo_open=True), 1 if params == "K" else S.real("k", 0, 3)) if params else (0.01, 1)
    rf = S.time("rf", 0, 1, lo_open=True, exact=True) if rf is None else rf
    given = dict(emma=emma, emma_noise=False, eye_mvt_angle_parameter=k, eye_mvt_scaling_parameter=K)
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, rule_firing=rf, **(dict(emma=not emma, emma_noise=True, eye_mvt_angle_parameter=2, eye_mvt_scaling_parameter=0.3) if own and own != "default" else given))
    visual, loc = m.visualBuffer("visual", "visual_location", m.decmem) if own != "default" else (None, None)
    if own == "default":
        S.cover("default buffers")
    elif own:
        visual.model_parameters = given
        S.cover("own parameters")
    out = []
    for q in range(screens):
        scr = {}
        for i in range(n):
            s = {"text": S.str(f"t{q}{i}"), "position": places[i] if places else (S.int(f"x{q}{i}", *xs), 180 if line else S.int(f"y{q}{i}", 0, 360))}
            if delays is True or isinstance(delays, tuple) and i in delays:
                s["vis_delay"] = S.real(f"d{q}{i}", 0, 100, lo_open=True)
            if colour:
                s["color"] = S.str(f"c{q}{i}")
            for o in scr.values():
                S.assume(S.Not(S.And(S.eq(o["position"][0], s["position"][0]), S.eq(o["position"][1], s["position"][1]))))
            scr[f"s{q}{i}"] = s
        out.append(scr)
    return A, m, visual, f, (K, k), rf, out


def attend(A, stim, S, cmd="move_attention"):
    return A.makechunk("", "_visual", cmd=cmd, screen_pos=A.makechunk("", "_visuallocation", screen_x=S.intstr(stim["position"][0]), screen_y=S.intstr(stim["position"][1])))


def holds(S, content, stim, colour=False):
    """The visual buffer holds a stimulus."""
    if content is None:
        return False
    pos = held_pos(content)
    return S.And(val_eq(S, content.get("value"), stim["text"]), S.eq(S.float(pos[0]), stim["position"][0]), S.eq(S.float(pos[1]), stim["position"][1]), val_eq(S, content.get("color"), stim["color"]) if colour else True)


def held_pos(content):
    c = content["screen_pos"]
    d = {k: raw(v) for k, v in c}
    return d["screen_x"], d["screen_y"]


class Shift:
    """The specification of one shift that starts at t0 with the given focus."""

    def __init__(self, S, t0, focus, stim, K, k, emma, moving):
        self.S, self.t0, self.stim = S, t0, stim
        d = stim.get("vis_delay")
        if emma:
            a = angle(S, focus, stim["position"])
            self.enc = K * d * S.exp(k * a) if d is not None else 0
            self.prep, self.exe = 0.135, 0.07 + 0.002 * (180 * a / math.pi)
        else:
            self.enc, self.prep, self.exe = 0.085, 0, 0.085
        self.prepared = t0 + self.prep
        start = self.prepared
        if moving is not None:
            if S.known(moving > start):
                S.cover("waits for the movement")
                start = moving
            else:
                S.cover("does not wait")
        self.moved = start + self.exe
        self.start = start
        if S.known(self.enc <= self.prep):
            S.cover("encoded in preparation")
            self.how = "prep"
            self.encoded = t0 + self.enc
        elif S.known(self.enc <= self.prep + self.exe):
            if emma:
                S.cover("encoded in movement")
            self.how = "move"
            self.encoded = t0 + self.enc
        else:
            S.cover("encoded after movement")
            self.how = "after"
            self.encoded = self.moved + (1 - (self.prep + self.exe) / self.enc) * K * d
        self.free = self.encoded if self.how == "after" else self.moved
        self.ready = self.encoded if self.how == "move" and S.known(self.encoded > self.prepared) else self.prepared


def shifts(S, waits=(), delays=True, emma=True, params=True, focus=True, colour=False, line=False, rf=None, xs=(0, 640), other=False, own=False):
    """Rules request shifts; waits: what each but the first waits for."""

    n = len(waits) + 1
    A, m, visual, f, (K, k), rf, scr = world(S, n, focus=focus, delays=delays, emma=emma, params=params, colour=colour, line=line, rf=rf, xs=xs, other=other, own=own)
    if not emma:
        S.cover("no emma")
    stims = list(scr[0].values())
    m.goal.add(A.makechunk("", "t", k="0"))
    for i in range(n):
        q = {} if i == 0 else {"?visual": {waits[i - 1]: "free"}}
        rule(m, f"r{i}", lambda i=i, q=q: {"=g": A.makechunk("", "t", k=str(i)), **q}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), "+visual": attend(A, stims[i], S)})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=10**8, start_time=0)
    visual = visual if visual is not None else m._ACTRModel__buffers["visual"]
    visual.attend_automatic = False
    ev = trace(sim, 60 * n, until=1e9)
    at = lambda x: [e for e in ev if e.proc == "visual" and e.action.startswith(x)]  # noqa: E731
    starts, preps, moves, encs = at("PREPARATION TO SHIFT VISUAL ATTENTION STARTED"), at("PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"), at("SHIFT COMPLETE TO POSITION"), at("ENCODED VIS OBJECT")
    S.check([len(x) for x in (starts, preps, moves, encs)] == [n] * 4, "every shift is prepared, carried out and encodes its object", lambda: f"{ev}")
    if [len(x) for x in (starts, preps, moves, encs)] != [n] * 4:
        return
    specs = []
    t = rf
    here = f
    for i, s in enumerate(stims):
        last = specs[-1] if specs else None
        if last is not None:
            t = (last.free if waits[i - 1] == "processor" else last.ready) + rf
            for o in specs:
                S.assume(S.Not(S.close(t, o.moved, 0.001)))
                if S.known(t > o.moved):
                    here = o.stim["position"]
        p = Shift(S, t, here, s, K, k, emma, last.moved if last else None)
        d = lambda i=i, p=p: f"shift {i} from {here} {scr} K {K} k {k} wanted {p.t0} {p.prepared} {p.moved} {p.encoded} got {starts} {preps} {moves} {encs}"  # noqa: E731
        S.check(S.close(starts[i].time, t, 0.0005), "a shift starts when the rule fires", d)
        S.check(S.close(preps[i].time, p.prepared, 0.0005), "the time of the preparation of a shift", d)
        S.check(S.close(moves[i].time, p.moved, 0.0005), "the time at which the eyes arrive", d)
        specs.append(p)
    if n == 1:
        S.check(S.close(encs[0].time, p.encoded, 0.0005), "the time at which the object is encoded", d)
        S.check(holds(S, held(visual), stims[0], colour), "the object at the requested position is encoded", lambda: f"{scr} -> {visual}")
    else:
        for p in specs:
            S.check(S.Or(*[S.close(e.time, p.encoded, 0.0005) for e in encs]), "the time at which the object is encoded", lambda: f"wanted {p.encoded} got {encs} {scr} K {K} k {k}")
        order = [p for p in specs if all(o is p or S.known(o.encoded < p.encoded) for o in specs)]
        if order:
            S.check(holds(S, held(visual), order[0].stim, colour), "the last object that was encoded is in the buffer", lambda: f"{order[0].stim} {[(p.how, p.encoded) for p in specs]} {ev} -> {visual}")
    focus = m_env(m).current_focus
    S.check(S.And(S.eq(focus[0], stims[-1]["position"][0]), S.eq(focus[1], stims[-1]["position"][1])), "the eyes end at the requested position", lambda: f"{focus} {scr}")
    S.check([getattr(visual, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "at the end the visual module is free", lambda: f"{visual.state} {visual.preparation} {visual.processor} {visual.execution} {ev}")
    S.cover(("one", "two", "three")[n - 1])


def m_env(m):
    return m._ACTRModel__env if hasattr(m, "_ACTRModel__env") else m.environment


def replaced(S):
    """A shift is requested while another is being prepared."""
    A, m, visual, f, (K, k), rf, scr = world(S, 2, focus=False, delays=False, params=False, line=True)

    stims = list(scr[0].values())
    S.assume(S.Not(S.close(rf, 0.135, 0.001)))
    m.goal.add(A.makechunk("", "t", k="0"))
    visual.attend_automatic = False
    for i in range(2):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), "+visual": attend(A, stims[i], S)})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=10**8, start_time=0)
    ev = trace(sim, 80, until=1e9)
    moves = [e for e in ev if e.action.startswith("SHIFT COMPLETE TO POSITION")]
    first = Shift(S, rf, f, stims[0], K, k, True, None)
    S.assume(S.Not(S.close(2 * rf, first.moved, 0.001)))
    if S.known(rf < 0.135):
        p = Shift(S, 2 * rf, f, stims[1], K, k, True, None)
        S.check(len(moves) == 1 and S.close(moves[0].time, p.moved, 0.0005), "a request during the preparation of a shift replaces it", lambda: f"{rf} {scr} {ev}")
        S.cover("replaced")
    else:
        p = Shift(S, 2 * rf, stims[0]["position"] if S.known(2 * rf > first.moved) else f, stims[1], K, k, True, first.moved)
        S.check(len(moves) == 2 and S.close(moves[1].time, p.moved, 0.0005), "a request during the movement waits for it", lambda: f"{rf} {scr} {ev}")
        S.cover("queued")
    focus = m_env(m).current_focus
    S.check(S.And(S.eq(focus[0], stims[1]["position"][0]), S.eq(focus[1], stims[1]["position"][1])), "the eyes end at the last requested position", lambda: f"{focus} {scr}")
    S.check([getattr(visual, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "at the end the visual module is free", lambda: f"{visual.state} {visual.preparation} {visual.processor} {visual.execution} {ev}")


def near(S, f, s):
    """Within one degree of the focus, along each axis."""
    d = math.tan(math.pi / 180) * GEOMETRY[2] * (float(GEOMETRY[0][0]) / GEOMETRY[1][0])
    return S.And(*[S.And(p > q - d, p < q + d) for p, q in zip(s["position"], f)])


def buffering(S, n, screens=1, delays=False, on=True, other=False, own=False, places=None):
    """What is near the focus gets into the visual buffer by itself."""

    A, m, visual, f, (K, k), rf, scr = world(S, n, delays=delays, screens=screens, rf=0.05, params="K", other=other, own=own, places=places, focus=not places)
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "never", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2")})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=1000, start_time=0)
    visual = visual if visual is not None else m._ACTRModel__buffers["visual"]
    if not on:
        visual.stop_automatic_buffering()
    before = None
    old = None
    for j in range(screens):
        ev = trace(sim, 30, until=1000 * j + 900, stop=lambda es: es[-1].action.startswith("PRINTED"))
        content = held(visual)
        events = [e for e in ev if e.action.startswith("AUTOMATIC BUFFERING")]
        stims = list(scr[j].values())
        good = [s for s in stims if on and S.known(near(S, f, s)) and (before is None or not S.known(S.eq(before["value"], s["text"])))]
        d = lambda: f"screen {j} focus {f} {scr} before {before} -> {visual} {ev}"  # noqa: E731
        if not good:
            S.cover("too far" if on and not any(S.known(near(S, f, s)) for s in stims) else "the same text")
            S.check(slots_eq_v(S, content, before) and not events, "nothing is buffered unless something new is near the focus", d)
        else:
            S.cover("buffered")
            S.check(len(events) == 1 and S.Or(*[holds(S, content, s) for s in good]), "something new near the focus is buffered", d)
            if not delays and events:
                S.check(S.close(events[0].time, 1000 * j), "without a delay it is buffered at once", d)
            elif len(good) == 1 and events:
                dl = K * good[0]["vis_delay"]
                S.check(S.And(events[0].time >= 1000 * j + dl - 0.0005, events[0].time <= 1000 * j + dl * S.exp(k * (2 * angle(S, f, good[0]["position"]))) + 0.0005), "the delay of automatic buffering", d)
                if places:
                    S.check(S.close(events[0].time, 1000 * j + dl * math.exp(2 * angle(S, f, places[0])), 0.0005), "the delay of automatic buffering", d)
        S.check(visual.state == "free", "the module is free after automatic buffering", d)
        before = content


def restart(S):
    """Automatic buffering that was stopped at one place goes on at the next one."""
    A, m, visual, f, (K, k), rf, scr = world(S, 1, focus=False, delays=False, params=False, screens=3, rf=0.05)
    a = scr[0]["s00"]
    a["position"], scr[1]["s10"]["position"] = (400, 100), (320, 180)
    c = scr[2]["s20"]
    m.goal.add(A.makechunk("", "t", k="0"))
    shift = S.flag("shift")
    rule(m, "stop", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual": A.makechunk("", "_visual", cmd="clear")})
    if shift:
        rule(m, "go", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2"), "+visual": attend(A, a, S)})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=1, start_time=0)
    ev = trace(sim, 60, until=4)
    got = [e for e in ev if e.action.startswith("AUTOMATIC BUFFERING")]
    d = lambda: f"{scr} -> {visual} {ev}"  # noqa: E731
    if shift:
        good = S.And(near(S, (400, 100), c), S.Not(S.eq(c["text"], a["text"])))
        S.check(len(got) <= 1 and S.Iff(bool(got), good), "after a shift of attention new things near the focus are buffered again", d)
        if got:
            S.check(S.And(S.close(got[0].time, 2), holds(S, held(visual), c)), "what is new near the new focus is buffered", d)
    else:
        S.check(not got and not visual, "nothing is buffered while automatic buffering is stopped", d)
    S.check([getattr(visual, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "at the end the visual module is free", d)
    S.cover("restarted" if shift else "stopped")


def features(S, looks, shift=False):
    """What is encoded, by itself or by a shift, has the type and the features of its stimulus and nothing of what was there before."""
    A = act()
    A.chunktype("word", "cmd, value, color, screen_pos, freq")
    A.chunktype("wordlocation", "screen_x, screen_y, color, value, freq")
    env = A.Environment(focus_position=(320, 180))
    m = new_model(env, subsymbolic=False, automatic_visual_search=True, emma_noise=False, rule_firing=0.05)
    visual, loc = m.visualBuffer("visual", "visual_location", m.decmem)
    scr = []
    for q, look in enumerate(looks):
        s = {"text": S.str(f"t{q}"), "position": (320 + (shift and 200), 180)}
        if look:
            s["color"] = S.str(f"c{q}")
        if look in ("shown", "typed"):
            s["externally_visible"] = ["color"] if look == "shown" else ["freq"]
        if look == "typed":
            s.update({"freq": S.str(f"f{q}"), "visual_typename": "word", "visual_location_typename": "wordlocation"})
        scr.append({f"s{q}": s})
    S.assume(S.And(*[S.Not(S.eq(a[f"s{i}"]["text"], b[f"s{i + 1}"]["text"])) for i, (a, b) in enumerate(zip(scr, scr[1:]))]))
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "look", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), **({"+visual": attend(A, scr[0]["s0"], S)} if shift else {})})
    sim = prepared(m, environment_process=env.environment_process, stimuli=[dict(x) for x in scr], triggers="", times=10, start_time=0)
    for j, look in enumerate(looks):
        ev = trace(sim, 60, until=10 * j + 9, stop=lambda es: es[-1].action.startswith("PRINTED"))
        s = scr[j][f"s{j}"]
        d = lambda: f"screen {j} {scr} -> {visual} {loc} {ev}"  # noqa: E731
        S.check(len(visual) == 1 and len(loc) == 1, "the new stimulus is encoded by itself or by a shift", d)
        if not (len(visual) == 1 and len(loc) == 1):
            return
        v, l = held(visual), held(loc)
        p = v.pop("screen_pos")
        S.check(next(iter(visual)).typename == s.get("visual_typename", "_visual") and next(iter(loc)).typename == p.typename == s.get("visual_location_typename", "_visuallocation"), "the types of what is seen", d)
        S.check(slots_eq(S, v, {"value": s["text"], **{x: s[x] for x in ("color", "freq") if x in s}, **({"cmd": "move_attention"} if shift and j == 0 else {})}), "the visual buffer holds the features of the stimulus and no others", d)
        place = {"screen_x": str(s["position"][0]), "screen_y": "180", **{x: s[x] for x in s.get("externally_visible", ())}}
        S.check(slots_eq(S, l, place), "the location buffer holds the visible features of the stimulus and no others", d)
        S.check(slots_eq(S, {k: raw(x) for k, x in p}, place), "a seen object names its place", d)
        S.check(len(m.decmem) == 0, "what is replaced is not cleared into memory", lambda: f"{m.decmem}")
        S.cover("features")


def slots_eq_v(S, a, b):
    if a is None or b is None:
        return a is None and b is None
    return S.And(S.eq(a["value"], b["value"]), *[S.eq(S.float(x), S.float(y)) for x, y in zip(held_pos(a), held_pos(b))])


def newscreen(S, then):
    """A new screen comes while attention shifts; afterwards the module works again."""

    A, m, visual, f, (K, k), rf, scr = world(S, 1, focus=False, delays=False, params=False, screens=2, rf=0.05)
    a, b = scr[0]["s00"], scr[1]["s10"]
    T = S.time("T", 0.06, 1, exact=True)
    for s in (a, b):  # away from the focus
        S.assume(s["position"][0] > 400)
    S.assume(S.Not(S.And(S.eq(a["position"][0], b["position"][0]), S.eq(a["position"][1], b["position"][1]))))
    m.goal.add(A.makechunk("", "t", k="0"))
    first = Shift(S, 0.05, f, a, K, k, True, None)
    for x in (first.prepared, first.moved):
        S.assume(S.Not(S.close(T, x, 0.001)))
    rule(m, "r0", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual": attend(A, a, S)})
    sim = prepared(m, environment_process=m_env(m).environment_process, stimuli=[dict(x) for x in scr], triggers="", times=[T, 1000], start_time=0)
    ev = trace(sim, 60, until=3)
    moves = [e for e in ev if e.action.startswith("SHIFT COMPLETE TO POSITION")]
    d = lambda: f"T {T} {scr} {ev} {visual.state} {visual.preparation} {visual.processor} {visual.execution}"  # noqa: E731
    if S.known(T > first.prepared):
        S.check(len(moves) == 1 and S.close(moves[0].time, first.moved, 0.0005), "a new screen does not stop a movement of the eyes", d)
        S.cover("undisturbed")
    else:
        S.cover("interrupted")
    S.check([getattr(visual, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "the module is free after a new screen and a shift", d)


class Noise:
    """Stands in for the random generator of the EMMA times and landing sites."""

    def __init__(self, S, means, fixed):
        self.S, self.means, self.fixed, self.n, self.landed, self.drawn = S, means, fixed, 0, [], {}

    def gamma(self, shape, scale=1.0, size=None):
        S = self.S
        if scale == 0:
            return 0.0
        S.check(abs(shape - 9) < 1e-9, "the noisy times have a gamma distribution with shape 9", lambda: f"{shape} {scale}")
        which = [w for w, mean in self.means.items() if abs(mean - shape * scale) < 1e-9]
        S.check(len(which) == 1, "the means of the noisy times are the times without noise", lambda: f"{shape} {scale} {self.means}")
        self.n += 1
        g = self.fixed[which[0]] if which and which[0] in self.fixed else S.time(f"gamma{self.n}", 0, 2, lo_open=True, exact=True)
        self.drawn.setdefault(which[0] if which else None, []).append(g)
        return g

    def multivariate_normal(self, mean, cov, size=None, **kw):
        import numpy as np
        S = self.S
        x = [S.choice(f"land{len(self.landed)}{a}", (float(mean[i]), float(mean[i]) + 20.5)) if not self.landed else float(mean[i]) for i, a in enumerate("xy")]
        self.landed.append((tuple(mean), cov, tuple(x)))
        return np.array(x)

    def __enter__(self):
        import numpy as np
        self.old = np.random.gamma, np.random.multivariate_normal
        np.random.gamma, np.random.multivariate_normal = self.gamma, self.multivariate_normal
        return self

    def __exit__(self, *a):
        import numpy as np
        np.random.gamma, np.random.multivariate_normal = self.old


def noisy(S, d, landing=False, position=(620, 40)):
    """A shift with noise in the times and in the landing site."""
    A = act()
    env = A.Environment(focus_position=(30, 340))
    m = new_model(env, subsymbolic=False, automatic_visual_search=False, emma=True, emma_noise=True, emma_landing_site_noise=landing, rule_firing=0.05, eye_mvt_angle_parameter=1.5, eye_mvt_scaling_parameter=0.02)
    visual, _loc = m.visualBuffer("visual", "visual_location", m.decmem)
    visual.attend_automatic = False
    stim = {"text": S.str("t"), "position": position, **({"vis_delay": d} if d else {})}
    m.goal.add(A.makechunk("", "t", k="0"))
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+visual": A.makechunk("", "_visual", cmd="move_attention", screen_pos=A.makechunk("", "_visuallocation", screen_x=position[0], screen_y=position[1]))})

    def angle(a):
        return math.atan2(math.hypot(position[0] - a[0], position[1] - a[1]) / (SCREEN / SIZE), DISTANCE)
    first = angle((30, 340))
    means = {"prep": 0.135, "exe": 0.07 + 0.002 * (180 * first / math.pi)}
    if d:
        means["enc"] = 0.02 * d * math.exp(1.5 * first)
        for w, x, y in [("again", 0, 0)] + ([("again10", 20, 0), ("again01", 0, 20), ("again11", 20, 20)] if landing else []):
            means[w] = 0.02 * d * math.exp(1.5 * angle((position[0] + x, position[1] + y)))
            e = 0.07 + 0.002 * (180 * angle((position[0] + x, position[1] + y)) / math.pi)  # drawn once more and not used
            means["exe" + w] = e
        if landing:  # equally far
            means.pop("again01")
            means.pop("exeagain01")
    with Noise(S, means, {"prep": 0.1, "exe": 0.25} if landing else {}) as noise:
        ev = trace(prepared(m, environment_process=env.environment_process, stimuli=[{"s": stim}], triggers="", times=10**6, start_time=0), 60, until=1e5)
    at = lambda x: [e for e in ev if e.proc == "visual" and e.action.startswith(x)]  # noqa: E731
    preps, moves, encs = at("PREPARATION TO SHIFT VISUAL ATTENTION COMPLETED"), at("SHIFT COMPLETE TO POSITION"), at("ENCODED VIS OBJECT")
    txt = lambda: f"{means} {noise.drawn} {noise.landed} {ev} focus {env.current_focus}"  # noqa: E731
    S.check(all(w in noise.drawn for w in ("prep", "exe", *(["enc"] if d else []))) and [len(x) for x in (preps, moves, encs)] == [1, 1, 1], "a noisy shift draws its times and is carried out", txt)
    if not all(w in noise.drawn for w in ("prep", "exe", *(["enc"] if d else []))):
        return
    prep, exe, enc = noise.drawn["prep"][0], noise.drawn["exe"][0], noise.drawn["enc"][0] if d else 0
    S.check(S.close(preps[0].time, 0.05 + prep, 0.0005), "the time of the noisy preparation of a shift", txt)
    S.check(S.close(moves[0].time, 0.05 + prep + exe, 0.0005), "the time at which the eyes arrive with noise", txt)
    if not landing:
        focus = position
    else:
        S.check(len(noise.landed) >= 1 and all(abs(a - b) < 1e-9 for a, b in zip(noise.landed[0][0], position)), "the noisy landing site lies around the requested position", txt)
        c = noise.landed[0][1]
        S.check(c[0][1] == 0 and c[1][0] == 0 and c[0][0] > 0 and abs(c[0][0] - c[1][1]) < 1e-9, "the landing site varies alike in all directions", txt)
        focus = [int(x) for x in noise.landed[0][2]]
        S.cover("lands beside" if list(focus) != list(position) else "lands at it")
    S.check(list(env.current_focus) == list(focus), "the eyes end where they land", txt)
    if S.known(enc <= prep + exe):
        S.check(S.close(encs[0].time, 0.05 + enc, 0.0005), "the time at which the object is encoded with noise", txt)
        S.cover("noise within")
    else:
        again = next((noise.drawn[w] for w in ("again" + "".join("1" if a != b else "0" for a, b in zip(focus, position)), "again10", "again") if w in noise.drawn), None)
        S.check(again is not None, "after the movement encoding starts anew from the landing site", txt)
        if again is not None:
            rest = (encs[0].time - moves[0].time) * enc
            S.check(S.close(rest, (enc - prep - exe) * again[-1], 0.001 * enc), "the remaining part of the encoding takes its part of the new time", txt)
        S.cover("noise after")
    S.check(S.And(val_eq(S, held(visual)["value"], stim["text"]), S.eq(S.float(held_pos(held(visual))[0]), position[0])), "the object at the requested position is encoded with noise", txt)
    S.check([getattr(visual, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "at the end the visual module is free", txt)


def jobs(tier):
    J = lambda h, w=1, b=None, **kw: Job("c19", h, kw, weight=w, **({"budget": b} if b else {}))  # noqa: E731
    out = [J("shifts", colour=True), J("shifts", delays=False), J("shifts", emma=False, delays=False, params=False, colour=True), J("shifts", params=False)]
    for w in ("processor", "preparation"):
        out += [J("shifts", waits=(w,), delays=False, params=False, focus=w == "processor", line=w != "processor"), J("shifts", waits=(w,), delays=(0,), focus=False, params=False, **({} if w == "processor" else {"line": True, "rf": 0.05})), J("shifts", waits=(w,), delays=(1,), focus=False, params=False, line=w != "processor"), J("shifts", waits=(w,), emma=False, delays=False, params=False)]
    out += [J("shifts", waits=("preparation",), delays=False, params=False, focus=False, line=True, rf=0.005, xs=(900, 1600)), J("replaced"), J("buffering", n=1), J("buffering", n=2), J("buffering", n=1, delays=True), J("buffering", n=1, screens=2), J("buffering", n=1, on=False), J("newscreen", then="")]
    out += [J("shifts", params=False, other=True), J("buffering", n=1, other=True), J("buffering", n=1, delays=True, other=True)]
    out += [J("shifts", own=True), J("shifts", own=True, emma=False, delays=False, params=False), J("buffering", n=1, delays=True, own=True), J("shifts", own="default"), J("buffering", n=1, screens=2, own="default")]
    out += [J("restart"), J("buffering", n=2, screens=2, places=((318, 180), (330, 190))), J("buffering", n=1, delays=True, places=((328, 172),))]
    out += [J("features", looks=l) for l in (("shown", ""), ("typed", ""), ("", "typed"), ("colour", "shown", "typed"))] + [J("features", looks=(l, ""), shift=True) for l in ("typed", "shown", "colour")]
    out += [J("noisy", d=d, landing=l) for d in (None, 0.5, 12) for l in (False, True)]
    if tier == "thorough":
        out += [J("shifts", 2, 800, waits=(w, v), delays=False, params=False, focus=False) for w in ("processor", "preparation") for v in ("processor", "preparation")]
        out += [J("buffering", 2, 800, n=2, screens=3, places=((318, 180), (330, 190))), J("buffering", 2, 800, n=3), J("buffering", 2, 800, n=2, screens=2)]
    return out
