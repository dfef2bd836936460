"""Shared pieces of the harnesses: chunk descriptions and their specification."""

import itertools

from sx.runner import ALIVE, Job  # noqa: F401

SLOTS = ("a", "b", "c", "d")


def act():
    import pyactr
    return pyactr


def vv(values=None, variables=None, negvalues=(), negvariables=()):
    from pyactr import utilities
    return utilities.VarvalClass(values=values, variables=variables, negvalues=negvalues, negvariables=negvariables)


def is_none(S, v):
    """An empty slot: absent, None, or the text None."""
    if v is None:
        return True
    if isinstance(v, str):
        return S.eq(v, "None")
    if hasattr(v, "actrchunk"):
        return False
    return bool(v == None)  # noqa: E711  (the library's EmptyValue)


def val_eq(S, a, b):
    """Two slot values (or empty) are the same."""
    na, nb = is_none(S, a), is_none(S, b)
    if na is True and nb is True:
        return True
    if na is True:
        return nb
    if nb is True:
        return na
    e = S.eq(a, b)
    return S.Or(S.And(na, nb), S.And(S.Not(na), S.Not(nb), e))


def raw(v):
    """The plain value in a slot as read from a chunk."""
    from pyactr import utilities
    if isinstance(v, utilities.VarvalClass):
        return v.values
    return v


PARAMS = dict(subsymbolic=True, rule_firing=0.05, latency_factor=0.1, latency_exponent=1.0, decay=0.5, baselevel_learning=False,
              optimized_learning=False, instantaneous_noise=0, retrieval_threshold=-1000, buffer_spreading_activation={},
              spreading_activation_restricted=False, strength_of_association=0, association_only_from_chunks=True, partial_matching=False,
              mismatch_penalty=1, activation_trace=False, utility_noise=0, utility_learning=False, utility_alpha=0.2, motor_prepared=False,
              strict_harvesting=False, production_compilation=False, automatic_visual_search=True, emma=True, emma_noise=True,
              emma_landing_site_noise=False, eye_mvt_angle_parameter=1, eye_mvt_scaling_parameter=0.01)


def new_model(environment=None, **params):
    A = act()
    return A.ACTRModel(environment, **params)


def prepared(model, **kw):
    """The simulation object of a model (which is what connects buffers, memory and similarities)."""
    sim = model.simulation(realtime=False, trace=False, gui=False, **kw)
    ALIVE.append(sim)
    return sim


def retrieve(model, time, request, variables=None, tests=None, buffers=None, **params):
    """One retrieval through the model's retrieval buffer, with the model's memory."""
    mp = dict(model.model_parameters)
    mp.update(params)
    rb = model.retrieval
    if rb.dm is None:
        rb.dm = model.decmem
    return rb.retrieve(time, request, variables if variables is not None else {}, buffers if buffers is not None else {}, tests or {}, mp)


def trace(sim, limit=60, until=None, stop=None):
    """Run a simulation step by step; the list of its events."""
    import simpy
    out = []
    while len(out) < limit:
        try:
            sim.step()
        except simpy.core.EmptySchedule:
            break
        e = sim.current_event
        out.append(e)
        if until is not None and e.time > until:
            break
        if stop is not None and stop(out):
            break
    return out


def rule(m, name, lhs, rhs, utility=0, reward=None):
    """A production given as two dictionaries (fresh copies every time it is asked for)."""
    def func():
        yield dict(lhs())
        yield dict(rhs())
    func.__name__ = name
    m.productions.update({name: {"rule": func, "utility": utility, "reward": reward}})


def held(buffer):
    """The slots of the chunk in a buffer, or None."""
    c = list(buffer)
    return {k: raw(v) for k, v in c[0]} if c else None


def slots_eq(S, got, want):
    if got is None or want is None:
        return got is None and want is None
    return S.And(*[val_eq(S, got.get(k), want.get(k)) for k in sorted(set(got) | set(want))])


class Memory:
    """The specification of a declarative memory: rows [slots, times]."""

    def __init__(self, S):
        self.S, self.rows = S, []

    def find(self, slots):
        for r in self.rows:
            if self.S.known(slots_eq(self.S, r[0], slots)):
                return r
        return None

    def add(self, slots, *times):
        r = self.find(slots)
        if r is None:
            self.rows.append([dict(slots), list(times)])
        else:
            r[1] += list(times)

    def check(self, dm, what):
        S = self.S
        S.check(len(dm) == len(self.rows), what + ": the number of chunks in memory", lambda: f"{dm} wanted {self.rows}")
        for c in dm:
            r = self.find({k: raw(v) for k, v in c})
            S.check(r is not None, what + ": only what was put into memory is there", lambda: f"{dm} wanted {self.rows}")
            if r is not None:
                got = list(dm[c])
                S.check(len(got) == len(r[1]) and S.And(*[S.close(a, b) for a, b in zip(got, r[1])]), what + ": the times of a chunk in memory",
                        lambda: f"{c} {got} wanted {r[1]}")
