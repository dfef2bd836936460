"""C26: a model that is set up anew does the same again."""

from .common import *  # noqa: F403
from .c24 import KINDS, Kind, compare

BOUNDS = {
    "quick": "the models of C24 (goals with a delay, retrieval with learned activation, failing retrieval, utility learning, key presses, visual search and shifts, screens) with arbitrary delays and values, left after any number of events, set up anew (new memory, buffers emptied, initial focus, utilities and parameters) and simulated again; twice in a row; and simulated from the start or an arbitrary time after a simulation that began at the other",
    "thorough": "the same with three simulations",
}
ASSUMPTIONS = ["set up anew as the models of the book do it: decmems and goals given again, buffers popped, the focus and motor_prepared reset; utilities are set back where they are learned",
               "rules that ask for what was not recently retrieved or attended are not repeated (the list of what was recently used is not part of the setup)"]


def COVERS(tier):
    return ["in the middle", "at the end", "begun earlier before", "begun later before", *KINDS]


def anew(S, m, k, T=0):
    """Set the model up once more."""
    A = act()
    m.decmems = {}
    m.set_decmem({A.makechunk("", "mem", b="m"): [T - 2, T - 1]} if k.kind in ("retrieve", "fail") else None)
    bufs = [m.retrieval, *m.goals.values(), *(m.visbuffers.values() if k.env else ())]
    for b in bufs:
        try:
            b.pop()
        except KeyError:
            pass
    m.goals["g"].add(A.makechunk("", "t", k="0", a=k.a))
    m.model_parameters["motor_prepared"] = False
    for n in m.productions:
        m.productions[n]["utility"] = 0
    if k.env:
        k.env.current_focus = (0, 0)
        m.visbuffers["visual"].current_focus = (0, 0)
        m.visbuffers["visual_location"].recent.clear()


def again(S, kind, where, times=1, part=(1, 40)):
    k = Kind(S, kind, fixed=True)
    m = k.build()
    ev0 = trace(prepared(m, **k.sim_args), 100)
    want = k.state(m, 0)
    m = k.build()
    for t in range(times):
        sim = prepared(m, **k.sim_args)
        n = S.choice(f"n{t}", tuple(range(*part))) if where == "any" else 100
        S.assume(n == 100 or n < len(ev0))
        trace(sim, n)
        S.cover("at the end" if n == 100 else "in the middle")
        anew(S, m, k)
    ev = trace(prepared(m, **k.sim_args), 100)
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time)) for x, y in zip(ev, ev0)]), "a model that is set up anew has the same events", lambda: f"{ev0} {ev}")
    compare(S, "a model that is set up anew", k.state(m, 0), want)
    S.cover(kind)


def starts(S, kind):
    """Simulations of one model that begin at different times."""
    k = Kind(S, kind, fixed=True)
    first, last = S.choice("starts", (("0", "T"), ("T", "0")))
    T = S.time("T", 0, 100, lo_open=True, exact=True)
    at = {"0": 0, "T": T}
    m = k.build(at[last])
    ev0 = trace(prepared(m, initial_time=at[last], **k.sim_args), 100)
    want = k.state(m, at[last])
    m = k.build(at[first])
    n = S.choice("n", (1, 4, 100))
    trace(prepared(m, initial_time=at[first], **k.sim_args), n)
    anew(S, m, k, at[last])
    ev = trace(prepared(m, initial_time=at[last], **k.sim_args), 100)
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x.proc == y.proc, S.close(x.time, y.time)) for x, y in zip(ev, ev0)]), "a model that is set up anew has the same events, whenever the simulation before began", lambda: f"{ev0} {ev}")
    compare(S, "a model that is set up anew", k.state(m, at[last]), want)
    S.cover("begun earlier before" if first == "0" else "begun later before")


def jobs(tier):
    J = lambda **p: Job("c26", "again", p)  # noqa: E731
    out = [J(kind=k, where=w) for k in KINDS for w in ("end", "any") if (k, w) != ("visual", "any")]
    out += [J(kind="visual", where="any", part=p) for p in ((1, 4), (4, 8), (8, 12), (12, 16), (16, 20), (20, 40))]
    out += [J(kind=k, where="end", times=2) for k in KINDS]
    out += [Job("c26", "starts", dict(kind=k)) for k in KINDS]
    if tier == "thorough":
        out += [J(kind=k, where="any", times=2) for k in KINDS]
    return out
