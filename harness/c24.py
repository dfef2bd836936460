"""C24: a simulation may begin at any time and be run in any pieces."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "models of seven kinds (goals with a delay, retrieval with learned activation, failing retrieval, utility learning, key presses, visual search and shifts of attention, screens with triggers) with arbitrary firing times, delays and values (the position of the stimulus one of two); begun at an arbitrary moment, run at once or in two or three pieces cut at arbitrary moments, step by step, in real time, with the trace printed",
    "thorough": "the same with up to four pieces for all models",
}
ASSUMPTIONS = ["the clock of the computer (time.monotonic and sleep, as simpy uses them in real time) is replaced by one that sleeps exactly",
               "no cut falls on the moment of an event"]


def COVERS(tier):
    return ["later", "pieces", "steps", "real time", "traced"]


class Kind:
    def __init__(self, S, kind, fixed=False):
        self.S, self.kind = S, kind
        self.a = S.str("a", ("None",))
        self.rf = S.time("rf", 0.01, 1, exact=True)
        self.D = S.time("D", 0, 2, lo_open=True, exact=True)
        if kind in ("visual", "screens"):
            self.x = S.int("x", 1, 600) if not fixed else S.choice("x", (10, 300))

    def build(self, T=0):
        A, S, k = act(), self.S, self.kind
        self.env = None
        kw = dict(rule_firing=self.rf)
        if k in ("retrieve", "fail"):
            kw.update(subsymbolic=True, latency_exponent=0, latency_factor=self.D, retrieval_threshold=-100 if k == "retrieve" else 100, baselevel_learning=True)
        if k == "learn":
            kw.update(utility_learning=True, utility_alpha=0.5)
        if k in ("visual", "screens"):
            self.env = A.Environment(focus_position=(0, 0))
            kw.update(emma_noise=False, emma=(k == "visual"))
        m = new_model(self.env, **kw)
        if self.env:
            m.visualBuffer("visual", "visual_location", m.decmem)
        m.goal.add(A.makechunk("", "t", k="0", a=self.a))
        step = lambda i, extra=None, lhs=None: rule(m, f"r{i}", lambda: {"=g": A.makechunk("", "t", k=str(i)), **(lhs() if lhs else {})}, lambda: {"=g": A.makechunk("", "t", k=str(i + 1)), **(extra() if extra else {})})  # noqa: E731
        self.sim_args = {}
        if k == "goal":
            m.set_goal("h", self.D)
            step(0, lambda: {"+h": A.makechunk("", "t", b="new")})
            step(1, lambda: {"~h": None}, lambda: {"=h": A.makechunk("", "t", b="new")})
            step(2)
        elif k in ("retrieve", "fail"):
            c = A.makechunk("", "mem", b="m")
            m.set_decmem({c: [T - 2, T - 1]})
            step(0, lambda: {"+retrieval": A.makechunk("", "mem", b="m")})
            if k == "retrieve":
                step(1, lambda: {"~retrieval": None}, lambda: {"=retrieval": A.makechunk("", "mem", b="m")})
                step(2, lambda: {"+retrieval": A.makechunk("", "mem", b="m")})
            else:
                step(1, lambda: {"~g": None}, lambda: {"?retrieval": {"state": "error"}})
        elif k == "learn":
            step(0)
            step(1)
            m.productions["r1"]["reward"] = 5
        elif k == "keys":
            step(0, lambda: {"+manual": A.makechunk("", "_manual", cmd="press_key", key="A")})
            step(1, lambda: {"+manual": A.makechunk("", "_manual", cmd="press_key", key="K")}, lambda: {"?manual": {"state": "free"}})
        elif k == "visual":
            step(0, None, lambda: {"=visual_location": A.makechunk("", "_visuallocation", screen_x=vv(variables="x"), screen_y=vv(variables="y"))})
            step(1, lambda: {"+visual": A.makechunk("", "_visual", cmd="move_attention", screen_pos=vv(variables="visual_location")), "~visual_location": None},
                 lambda: {"=visual_location": A.makechunk("", "_visuallocation", screen_x=vv(variables="x"))})
            step(2, None, lambda: {"=visual": A.makechunk("", "_visual", value="A")})
            self.sim_args = dict(stimuli=[{"A": {"text": "A", "position": (self.x, 10)}}], triggers=["Z"], times=[3])
        elif k == "screens":
            step(0, lambda: {"+manual": A.makechunk("", "_manual", cmd="press_key", key="A")})
            step(1, None, lambda: {"=visual": A.makechunk("", "_visual", value="B")})
            self.sim_args = dict(stimuli=[{"A": {"text": "A", "position": (self.x, 10)}}, {"B": {"text": "B", "position": (1, 1)}}], triggers=["A", "Z"], times=[9, self.D])
        if self.env:
            self.sim_args["environment_process"] = self.env.environment_process
        return m

    def state(self, m, T):
        bufs = {"goal": m.goals["g"], "h": m.goals.get("h"), "retrieval": m.retrieval, **m.visbuffers}
        return dict(bufs={n: held(b) for n, b in bufs.items() if b is not None}, dm=[({a: raw(v) for a, v in c}, [x - T for x in t]) for c, t in m.decmem.items()], act=getattr(m.retrieval, "activation", None),
                    u={n: m.productions[n]["utility"] for n in m.productions})


def compare(S, what, a, b):
    S.check(set(a["bufs"]) == set(b["bufs"]) and S.And(*[slots_eq(S, a["bufs"][n], b["bufs"][n]) for n in a["bufs"]]), what + ": the buffers", lambda: f"{a} {b}")
    S.check(len(a["dm"]) == len(b["dm"]) and S.And(*[S.And(slots_eq(S, x, y), len(s) == len(t), *[S.close(p, q) for p, q in zip(s, t)]) for (x, s), (y, t) in zip(a["dm"], b["dm"])]), what + ": the memory", lambda: f"{a} {b}")
    S.check((a["act"] is None) == (b["act"] is None) and (a["act"] is None or S.close(a["act"], b["act"])), what + ": the activation of what was retrieved", lambda: f"{a} {b}")
    S.check(S.And(*[S.close(a["u"][n], b["u"][n]) for n in a["u"]]), what + ": utilities", lambda: f"{a} {b}")


def reference(S, k):
    m = k.build()
    ev = trace(prepared(m, **k.sim_args), 100)
    fired = [e for e in ev if "RULE FIRED" in e.action]
    S.check(len(fired) >= 2 or k.kind in ("retrieve", "fail", "visual", "screens"), "the model does something", lambda: f"{ev}")
    return k.state(m, 0), ev


def later(S, kind):
    """Begun at T: everything T later."""
    k = Kind(S, kind, fixed=True)
    want, ev0 = reference(S, k)
    T = S.time("T", 0, 100, exact=True)
    m = k.build(T)
    ev = trace(prepared(m, initial_time=T, **k.sim_args), 100)
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time + T, 1.1e-4)) for x, y in zip(ev, ev0)]), "a simulation begun later has the same events, later", lambda: f"{T} {ev0} {ev}")
    compare(S, "a simulation begun later", k.state(m, T), want)
    S.cover("later")


def pieces(S, kind, n):
    """run() in pieces."""
    k = Kind(S, kind, fixed=True)
    want, ev0 = reference(S, k)
    m = k.build()
    sim = prepared(m, **k.sim_args)
    last = 0
    for i in range(n):
        t = S.time(f"t{i}", 0, 6, lo_open=True)
        S.assume(t > last)
        S.assume(S.And(*[S.Not(S.close(e.time, t, 2e-4)) for e in ev0]))
        sim.run(t)
        S.check(S.close(sim.show_time(), t), "after a run the time is its end")
        last = t
    sim.run(100)
    compare(S, "a simulation run in pieces", k.state(m, 0), want)
    S.cover("pieces")


def mixed(S, kind):
    """Some steps, then a run."""
    k = Kind(S, kind)
    want, ev0 = reference(S, k)
    m = k.build()
    sim = prepared(m, **k.sim_args)
    n = S.choice("n", (1, 3, 4, 5))
    for i in range(n):
        sim.step()
        e = sim.current_event
        S.check(e.action == ev0[i].action and e.proc == ev0[i].proc and S.close(e.time, ev0[i].time), "every step goes to the next event", lambda: f"{i} {e} {ev0}")
    sim.run(100)
    compare(S, "steps and a run", k.state(m, 0), want)
    S.cover("steps")


def realtime(S, kind, T=False):
    """In real time, on a clock that sleeps exactly."""
    import simpy.rt
    k = Kind(S, kind)
    want, ev0 = reference(S, k)
    clock = [0]
    old = simpy.rt.monotonic, simpy.rt.sleep
    begin = S.time("T", 0, 100, exact=True) if T else 0

    def sleep(d):
        clock[0] = clock[0] + d
    try:
        simpy.rt.monotonic, simpy.rt.sleep = (lambda: clock[0]), sleep
        m = k.build(begin)
        sim = m.simulation(realtime=True, trace=False, gui=False, initial_time=begin, **k.sim_args)
        ev = trace(sim, 100)
    finally:
        simpy.rt.monotonic, simpy.rt.sleep = old
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time + begin, 1.1e-4)) for x, y in zip(ev, ev0)]), "a simulation in real time has the same events", lambda: f"{begin} {ev0} {ev}")
    S.check(S.close(clock[0], ev0[-1].time, 1.1e-4), "a simulation in real time takes the time that it simulates", lambda: f"{clock} {ev0}")
    compare(S, "a simulation in real time", k.state(m, begin), want)
    S.cover("real time")


def traced(S, kind):
    """Printing the trace changes nothing."""
    import contextlib
    import io
    k = Kind(S, kind)
    want, ev0 = reference(S, k)
    m = k.build()
    m.model_parameters["activation_trace"] = True
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ev = trace(m.simulation(realtime=False, trace=True, gui=False, **k.sim_args), 100)
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time)) for x, y in zip(ev, ev0)]), "a traced simulation has the same events", lambda: f"{ev0} {ev}")
    compare(S, "a traced simulation", k.state(m, 0), want)
    S.check(all(out.getvalue().count(e.action) for e in ev if e.proc == "PROCEDURAL"), "the trace shows the events", lambda: out.getvalue())
    S.cover("traced")


KINDS = ("goal", "retrieve", "fail", "learn", "keys", "visual", "screens")


def jobs(tier):
    J = lambda h, **p: Job("c24", h, p)  # noqa: E731
    out = [J("later", kind=k) for k in KINDS] + [J("mixed", kind=k) for k in KINDS] + [J("traced", kind=k) for k in KINDS]
    out += [J("realtime", kind=k) for k in ("goal", "retrieve", "keys", "learn")] + [J("realtime", kind=k, T=True) for k in ("goal", "retrieve")]
    out += [J("pieces", kind=k, n=n) for k in KINDS for n in ((1, 2) if tier == "quick" else (1, 2, 3)) if tier != "quick" or n == 1 or k in ("goal", "learn", "fail", "retrieve")]
    return out
