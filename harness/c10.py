"""C10: base-level activation."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "a chunk presented 1 to 3 times at arbitrary moments up to now, in any order, added one by one, as a list or assigned, or after 15 earlier presentations; arbitrary decay in [0, 1), arbitrary manually given activation, threshold and latency parameters; learning off, on, or optimized; off-clock request times within 0.05 ms of a presentation",
    "thorough": "up to 4 presentations",
}
ASSUMPTIONS = ["no presentation lies after the time of the request", "optimized learning counts from the latest presentation, as the library documents it"]


def COVERS(tier):
    return ["presented now", "only presented now", "not retrievable", "off", "manual alone", "manual", "presented twice now", "forgotten", "retrieved", "off the clock"]


def spec(S, now, times, learning, optimized, d, manual):
    """The activation, or None when the chunk has none."""
    if not learning:
        S.cover("off")
        base = 0
    else:
        past, present = [], 0
        for t in times:
            if S.known(t < now):
                past.append(t)
            else:
                present += 1
        if present:
            S.cover("presented now")
        if present > 1:
            S.cover("presented twice now")
        if not past:
            S.cover("only presented now")
            if manual is None:
                S.cover("not retrievable")
                return None
            S.cover("manual alone")
            return manual
        if optimized:
            last = past[0]
            for t in past[1:]:
                last = S.If(t > last, t, last)
            base = S.log(len(past) / (1 - d)) - d * S.log(now - last)
        else:
            tot = 0
            for t in past:
                tot = tot + S.pow(now - t, -d)
            base = S.log(tot)
    if manual is None:
        return base
    S.cover("manual")
    return S.log(S.exp(base) + S.exp(manual))


def fill(S, dm, c, times, how):
    if how == "add":
        for t in times:
            dm.add(c, t)
    elif how == "list":
        dm.add(c, list(times))
    else:
        import numpy as np
        dm[c] = np.array(list(times))


def level(S, n, learning, optimized, manual, how="add", past=0):
    """n presentations at any times, after past ones."""
    A = act()
    d = S.real("decay", 0, 1, hi_open=True)
    thr = S.real("threshold", -5, 5)
    F, f = S.real("F", 0, 10), S.real("f", 0, 10)
    m = new_model(subsymbolic=True, baselevel_learning=learning, optimized_learning=optimized, decay=d, retrieval_threshold=thr, latency_factor=F, latency_exponent=f)
    now = S.time("now", 8 if past else 0, 10)
    times = [0.5 * i for i in range(past)] + [S.time(f"t{i}", 0, 10) for i in range(n)]
    for t in times:
        S.assume(t <= now)
    c = A.makechunk("", "t", a=S.str("a"), zz="k")
    fill(S, m.decmem, c, times, how)
    a = S.real("manual", -5, 5) if manual else None
    if manual:
        m.decmem.add_activation(c, a)
    prepared(m)
    B = spec(S, now, times, learning, optimized, d, a)
    got, extra = retrieve(m, now, A.makechunk("", "r", zz="k"))
    if B is None:
        S.check(got is None, "a chunk that was only just stored is not retrieved")
        S.check(S.close(extra, F * S.exp(-f * thr)), "the time of a failed retrieval")
        return
    if got is None:
        S.check(B < thr, "a chunk with enough activation is retrieved", lambda: f"{m.decmem} now {now}")
        S.cover("forgotten")
    else:
        S.check(B >= thr, "a chunk below the threshold is not retrieved")
        S.check(S.close(m.retrieval.activation, B), "base-level activation", lambda: f"{m.retrieval.activation} wanted {B} for {times} at {now}")
        S.check(S.close(extra, F * S.exp(-f * B)), "the time of a retrieval")
        S.cover("retrieved")


def offclock(S, subsymbolic, optimized=False):
    """Within the resolution of the clock, now is now."""
    A = act()
    d = S.real("decay", 0, 1, hi_open=True)
    m = new_model(subsymbolic=subsymbolic, baselevel_learning=True, optimized_learning=optimized, decay=d, retrieval_threshold=-20)
    t0 = S.time("t0", 0, 10, exact=True)
    off = S.real("off", -0.000049, 0.000049)
    c = A.makechunk("", "t", a="x")
    m.decmem.add(c, t0 + off if S.flag("stored off") else t0)
    prepared(m)
    got, _extra = retrieve(m, t0 if S.flag("ask on") else t0 + off, A.makechunk("", "r", a="x"))
    S.check(got is None, "a chunk first stored at this moment is not retrieved", lambda: f"{m.decmem} at {t0} + {off}")
    S.cover("off the clock")


def jobs(tier):
    out = []
    top = 3 if tier == "quick" else 4
    for n in range(1, top + 1):
        for manual in (False, True):
            for learning, optimized in ((False, False), (True, False), (True, True)):
                if n > 1 and not learning:
                    continue
                out.append(Job("c10", "level", dict(n=n, learning=learning, optimized=optimized, manual=manual), weight=n))
    out += [Job("c10", "level", dict(n=2, learning=True, optimized=o, manual=False, how=h)) for o in (False, True) for h in ("list", "assign")]
    out += [Job("c10", "level", dict(n=1, learning=True, optimized=o, manual=False, past=15)) for o in (False, True)]
    out += [Job("c10", "offclock", dict(subsymbolic=s, optimized=o)) for s, o in ((False, False), (True, False), (True, True))]
    return out
