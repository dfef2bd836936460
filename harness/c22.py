"""C22: models in one program do not influence each other."""

from .c13 import first
from .common import *  # noqa: F403

BOUNDS = {
    "quick": "two models (of five kinds, or two of a kind) with arbitrary slot values, parameters, similarities, utilities and rewards, built, given a simulation and stepped in five orders; all parameters of a model given, changed and used beside models without; parameters of a model changed after another was made; a second simulation of a model",
    "thorough": "all pairs of kinds in all orders, three models",
}
ASSUMPTIONS = ["the registry of named chunks and chunk types is common to the program (the library documents it so) and not judged here"]
ORDERS = ("both-alternate", "second-first", "inside", "sims-late", "second-inside-first")


def COVERS(tier):
    return ["retrieved", "penalty", "learned", "spread", "second simulation", "parameters", "defaults"]


class Kind:
    """A model with its own symbolic inputs (made once) that can be built several times."""

    def __init__(self, S, kind, tag):
        self.S, self.kind = S, kind
        self.v, self.w, self.x = S.str("v" + tag, ("None",)), S.str("w" + tag), S.str("x" + tag)
        self.rf = S.time("rf" + tag, 0.01, 1, exact=True)
        if kind in ("similar", "penalty", "spread"):
            self.n = S.real("n" + tag, 0, 10)
            self.sim = S.real("s" + tag, -10, 0)
        if kind == "learn":
            self.r, self.u = S.real("r" + tag, -10, 10), S.real("u" + tag, -10, 10)
            self.alpha = 0.5
        self.shared = None

    def build(self, shared=None):
        """shared: a chunk object that is also in another model's goal."""
        A, k = act(), self.kind
        common = dict(rule_firing=self.rf)
        if k in ("similar", "penalty", "spread"):
            common.update(subsymbolic=True, baselevel_learning=False, latency_exponent=0, latency_factor=0.5, retrieval_threshold=-1000)
        if k in ("similar", "penalty"):
            common.update(partial_matching=True, mismatch_penalty=self.n)
        if k == "learn":
            common.update(utility_learning=True, utility_alpha=self.alpha)
        if k == "harvest":
            common.update(strict_harvesting=True)
        m = new_model(**common)
        if k == "spread":
            m.model_parameters["strength_of_association"] = self.sim
            m.model_parameters["buffer_spreading_activation"]["g"] = self.n
            m.model_parameters["association_only_from_chunks"] = False
        m.goal.add(shared if shared is not None else A.makechunk("", "t", k="0", a=self.v))
        if k in ("similar", "penalty", "spread"):
            c = A.makechunk("", "mem", b=self.w)
            m.set_decmem({c: [0.0]})
            m.decmem.activations[c] = 0
            if k == "similar":
                m.set_similarities(self.x, self.w, self.sim)
            rule(m, "ask", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+retrieval": A.makechunk("", "mem", b=self.x) if k != "spread" else A.makechunk("", "mem", b=self.w)})
            rule(m, "use", lambda: {"=g": A.makechunk("", "t", k="1"), "=retrieval": A.makechunk("", "mem", b=vv(variables="q"))}, lambda: {"=g": A.makechunk("", "t", k="2", a=vv(variables="q"))})
        elif k == "learn":
            rule(m, "ask", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1")}, utility=self.u)
            rule(m, "use", lambda: {"=g": A.makechunk("", "t", k="1")}, lambda: {"=g": A.makechunk("", "t", k="2", a=self.w)}, utility=0, reward=self.r)
        else:
            rule(m, "ask", lambda: {"=g": A.makechunk("", "t", k="0", a=vv(variables="x"))}, lambda: {"=g": A.makechunk("", "t", k="1", a=self.w)})
            rule(m, "use", lambda: {"=g": A.makechunk("", "t", k="1", a=vv(variables="x"))}, lambda: {"=g": A.makechunk("", "t", k="2", b=vv(variables="x"))} if k == "plain" else {"~g": None})
        return m

    def state(self, m):
        """What is compared: goal, memory, activation, utilities."""
        return dict(goal=held(m.goal), dm=[({a: raw(v) for a, v in c}, list(t)) for c, t in m.decmem.items()], act=getattr(m.retrieval, "activation", None),
                    u={n: m.productions[n]["utility"] for n in ("ask", "use")})


class Stepper:
    def __init__(self, m):
        self.sim, self.ev, self.done = prepared(m), [], False

    def step(self, n=1):
        import simpy
        for _ in range(n):
            if self.done or len(self.ev) > 40:
                self.done = True
                return
            try:
                self.sim.step()
                self.ev.append(self.sim.current_event)
            except simpy.core.EmptySchedule:
                self.done = True

    def rest(self):
        while not self.done:
            self.step()


def same(S, what, a, b, ea, eb):
    S.check(len(ea) == len(eb) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time)) for x, y in zip(ea, eb)]), what + ": events and their times", lambda: f"{ea}\n{eb}")
    S.check(slots_eq(S, a["goal"], b["goal"]), what + ": the goal", lambda: f"{a} {b}")
    S.check(len(a["dm"]) == len(b["dm"]) and S.And(*[S.And(slots_eq(S, x, y), len(s) == len(t), *[S.close(p, q) for p, q in zip(s, t)]) for (x, s), (y, t) in zip(a["dm"], b["dm"])]),
            what + ": the memory", lambda: f"{a} {b}")
    S.check((a["act"] is None) == (b["act"] is None) and (a["act"] is None or S.close(a["act"], b["act"])), what + ": the activation of what was retrieved", lambda: f"{a} {b}")
    S.check(S.And(*[S.close(a["u"][n], b["u"][n]) for n in a["u"]]), what + ": utilities", lambda: f"{a} {b}")


def alone(S, kind):
    m = kind.build()
    s = Stepper(m)
    s.rest()
    _, fired = first(s.ev)
    S.check(fired == ["ask", "use"], "the rules of a model fire", lambda: f"{fired}")
    return kind.state(m), s.ev


def pair(S, kinds, order, shared=False):
    """Two models interleaved do what each does alone."""
    A = act()
    ks = [Kind(S, k, str(i)) for i, k in enumerate(kinds)]
    if shared:
        S.assume(val_eq(S, ks[0].v, ks[1].v))
    want = [alone(S, k) for k in ks]
    for k in ks:
        S.cover({"similar": "retrieved", "penalty": "penalty", "learn": "learned", "spread": "spread"}.get(k.kind, "retrieved"))
    common = A.makechunk("", "t", k="0", a=ks[0].v) if shared else None
    if order == "inside":
        m0 = ks[0].build(common)
        s0 = Stepper(m0)
        s0.step(3)
        m1 = ks[1].build(common)
        s1 = Stepper(m1)
        s0.step(2)
        s1.step(3)
        s0.rest()
        s1.rest()
    elif order == "second-inside-first":
        m0, m1 = ks[0].build(common), ks[1].build(common)
        s0 = Stepper(m0)
        s0.step(1)
        s1 = Stepper(m1)
        s1.rest()
        s0.rest()
    else:
        m0, m1 = ks[0].build(common), ks[1].build(common)
        if order == "sims-late":
            s0 = Stepper(m0)
            s0.rest()
            s1 = Stepper(m1)
            s1.rest()
        else:
            s0, s1 = Stepper(m0), Stepper(m1)
            if order == "second-first":
                s1.rest()
                s0.rest()
            else:
                for _ in range(40):
                    s0.step()
                    s1.step()
                s0.rest()
                s1.rest()
    for k, m, s, w, n in zip(ks, (m0, m1), (s0, s1), want, ("first", "second")):
        same(S, f"the {n} model beside another", k.state(m), w[0], s.ev, w[1])


def parameters(S, where):
    """Parameters of one model set after (or before) another was made."""
    A = act()
    n = S.real("n", 0.5, 10)
    base = new_model()
    before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in base.model_parameters.items()}
    other = new_model(**({"decay": n, "rule_firing": n} if where == "given" else {}))
    if where == "assigned":
        other.model_parameters["decay"] = n
        other.model_parameters["mismatch_penalty"] = n
    elif where == "spreading":
        other.model_parameters["buffer_spreading_activation"]["g"] = n
    elif where == "buffer":
        other.retrieval.model_parameters["decay"] = n
    later = new_model()
    S.cover("parameters")
    for m, t in ((base, "earlier"), (later, "later")):
        now = m.model_parameters
        S.check(set(now) == set(before) and S.And(*[S.eq(now[k], before[k]) if not isinstance(before[k], dict) else dict(now[k]) == before[k] for k in before]),
                f"parameters of an {t} model are its own" if t == "earlier" else "parameters of a later model are its own", lambda: f"{now}")
        S.check(not m.retrieval.model_parameters, "parameters of a buffer are its own", lambda: f"{m.retrieval.model_parameters}")


def defaults(S, where):
    """A model made without parameters has the same parameters whatever other models were given, were changed to or did."""
    A = act()
    n = S.real("n", 0.5, 10)

    def world():
        env = A.Environment(focus_position=(0, 0))
        m = A.ACTRModel(environment=env)
        return m, m.visualBuffer("visual", "visual_location", m.decmem)
    base, seen = world()
    before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in base.model_parameters.items()}
    changed = {k: not v if isinstance(v, bool) else {"g": n} if isinstance(v, dict) else n for k, v in before.items()}
    env = A.Environment(focus_position=(0, 0))
    other = A.ACTRModel(environment=env, **(changed if where == "given" else {}))
    vis = other.visualBuffer("visual", "visual_location", other.decmem)
    if where == "assigned":
        other.model_parameters.update(changed)
    elif where == "buffers":
        for b in vis + (other.goal, other.retrieval):
            if hasattr(b, "model_parameters"):
                b.model_parameters.update(changed)
        vis[1].finst = 7
        vis[1].recent.append({"text": "x"})
        other.retrieval.finst = 3
        other.retrieval.recent.append(A.makechunk("", "t", k="0"))
    elif where == "run":
        other.model_parameters.update(motor_prepared=True, emma_noise=False, subsymbolic=True)
        other.goal.add(A.makechunk("", "t", k="0"))
        rule(other, "press", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+manual": A.makechunk("", "_manual", cmd="press_key", key="A"),
                                                                             "+visual": A.makechunk("", "_visual", cmd="move_attention", screen_pos=A.makechunk("", "_visuallocation", screen_x=50, screen_y=60))})
        trace(prepared(other, environment_process=env.environment_process, stimuli=[{"s": {"text": S.str("text"), "position": (50, 60)}}], triggers="A", times=5, start_time=0), 60)
    later, seen2 = world()
    S.cover("defaults")
    for m, v, t in ((base, seen, "an earlier"), (later, seen2, "a later")):
        now = m.model_parameters
        S.check(set(now) == set(before) and S.And(*[S.eq(now[k], before[k]) if not isinstance(before[k], dict) else dict(now[k]) == before[k] for k in before]), f"the parameters of {t} model are the usual ones", lambda now=now: f"{now}")
        S.check(not any(getattr(b, "model_parameters", None) for b in v + (m.goal, m.retrieval)), f"the buffers of {t} model have no parameters of their own", lambda v=v: f"{[b.model_parameters for b in v]}")
        S.check(v[1].finst == 4 and not v[1].recent and m.retrieval.finst == 0 and not m.retrieval.recent and not m.decmem and not m.goal and not v[0] and not v[1] and not len(m.productions), f"{t} model is empty")
        S.check([getattr(b, x, "free") for b in v + (m.retrieval, m.goal) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 16 and list(m._ACTRModel__env.current_focus) == [0, 0] and v[0].attend_automatic, f"{t} model is at rest")


def again(S, kind):
    """A second simulation of one model, on the same contents, runs as the first one."""
    A = act()
    k = Kind(S, kind, "")
    want = alone(S, k)
    m = k.build()
    s = Stepper(m)
    cut = S.choice("cut", (2, 5, 40))
    s.step(cut)
    if cut == 40:
        s.rest()
    # the same starting point for the second simulation
    m.goal.clear(0)
    m.retrieval._data.clear() if hasattr(m.retrieval, "_data") else None
    fresh = k.build()
    m.decmem = {}
    m.set_decmem({c: list(t) for c, t in fresh.decmem.items()})
    m.decmem.activations.update(fresh.decmem.activations)
    m.goal.dm = m.retrieval.dm = m.decmem
    m.goal.pop() if len(m.goal) else None
    m.goal.add(A.makechunk("", "t", k="0", a=k.v))
    for r in ("ask", "use"):
        m.productions[r]["utility"] = fresh.productions[r]["utility"]
    m.retrieval.activation = None
    s2 = Stepper(m)
    s2.rest()
    S.cover("second simulation")
    same(S, "a second simulation", k.state(m), want[0], s2.ev, want[1])


KINDS = ("similar", "penalty", "spread", "learn", "plain", "harvest")


def jobs(tier):
    out = []
    for w in ("given", "assigned", "spreading", "buffer"):
        out.append(Job("c22", "parameters", dict(where=w)))
    out += [Job("c22", "defaults", dict(where=w)) for w in ("given", "assigned", "buffers", "run")]
    for k in KINDS:
        out.append(Job("c22", "again", dict(kind=k)))
    pairs = [(a, b) for a in KINDS for b in KINDS] if tier == "thorough" else [("similar", "similar"), ("similar", "penalty"), ("penalty", "similar"), ("spread", "similar"), ("spread", "spread"), ("learn", "learn"), ("plain", "plain"), ("harvest", "plain"), ("plain", "harvest"), ("penalty", "spread"), ("learn", "harvest")]
    for p in pairs:
        for o in ORDERS:
            out.append(Job("c22", "pair", dict(kinds=p, order=o)))
    for p in (("plain", "plain"), ("plain", "harvest"), ("harvest", "plain"), ("similar", "plain"), ("plain", "similar")):
        for o in ORDERS[:3]:
            out.append(Job("c22", "pair", dict(kinds=p, order=o, shared=True)))
    return out
