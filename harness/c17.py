"""C17: pressing keys."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "one and two key presses with any keys of the keyboard (upper and lower case), three with keys of three kinds; each requested when the hands are free, when the preparation is free (movements in a queue) or during the preparation of another; arbitrary firing times; arbitrary wrong keys and commands",
    "thorough": "three key presses with keys of six kinds, four with keys of three kinds, in all combinations of waiting",
}
ASSUMPTIONS = ["SPACE counts as a key of the left hand, as in the tables of the module"]

LEFT = tuple("12345QWERTASDFGZXCVB") + ("SPACE",)
RIGHT = tuple("67890YUIOPHJKLNM")
PRESSING = tuple("ASDFJKL") + ("SPACE",)
SLOWEST = ("5", "6")
KINDS = ("A", "J", "5", "6", "q", "P")


def COVERS(tier):
    return ["one", "two", "three", "same key", "same hand", "other hand", "another style", "waits in queue", "does not wait", "prepared", "replaced", "queued", "wrong key", "wrong command"]


def member(S, k, keys):
    return S.Or(*[S.eq(k, x) for x in keys] + [S.eq(k, x.lower()) for x in keys if x.lower() != x])


def same(S, a, b):
    """The same key, in upper or lower case."""
    return S.Or(S.eq(a, b), *[S.And(member(S, a, (x,)), member(S, b, (x,))) for x in LEFT + RIGHT if x != x.lower()])


def times(S, k):
    fast, slow = member(S, k, PRESSING), member(S, k, SLOWEST)
    return tuple(S.If(fast, f, S.If(slow, s, o)) for f, s, o in ((0.15, 0.25, 0.25), (0.05, 0.05, 0.05), (0.01, 0.11, 0.1), (0.09, 0.16, 0.15)))


def preparation(S, k, last, prepared):
    p = times(S, k)[0]
    if last is None:
        return 0 if prepared else p
    style = S.Iff(member(S, k, PRESSING), member(S, last, PRESSING))
    hand = S.Iff(member(S, k, LEFT), member(S, last, LEFT))
    return S.If(same(S, k, last), 0, S.If(style, p - S.If(hand, 0.1, 0.05), p))


def covers(S, k, last):
    if S.known(same(S, k, last)):
        S.cover("same key")
    elif not S.known(S.Iff(member(S, k, PRESSING), member(S, last, PRESSING))):
        S.cover("another style")
    else:
        S.cover("same hand" if S.known(S.Iff(member(S, k, LEFT), member(S, last, LEFT))) else "other hand")


def key(S, name, keys):
    return S.str(name, tuple(dict.fromkeys(list(keys) + [k.lower() for k in keys])), only=True, lazy=True)


def typing(S, waits, keys=None, prepared_=False):
    """Rules request key presses; waits: what each but the first waits for."""
    A = act()
    n = len(waits) + 1
    rf = S.time("rf", 0, 1, lo_open=True, exact=True)
    mp = bool(prepared_)
    m = new_model(subsymbolic=False, rule_firing=rf, motor_prepared=mp)
    ks = [key(S, f"k{i}", keys or LEFT + RIGHT) for i in range(n)]
    m.goal.add(A.makechunk("", "t", k="0"))
    for i in range(n):
        q = {} if i == 0 else {"?manual": {waits[i - 1]: "free"}}
        rule(m, f"r{i}", lambda i=i, q=q: {"=g": A.makechunk("", "t", k=str(i)), **q},
             lambda i=i: {"=g": A.makechunk("", "t", k=str(i + 1)), "+manual": A.makechunk("", "_manual", cmd="press_key", key=ks[i])})
    ev = trace(prepared(m), 40 * n)
    at = lambda x: [e for e in ev if e.proc == "manual" and e.action.startswith(x)]  # noqa: E731
    end = None
    last = None
    commands, preps, inits, presses, ends = (at("COMMAND: press_key"), at("PREPARATION COMPLETE"), at("INITIATION COMPLETE"), at("KEY PRESSED: "), at("MOVEMENT FINISHED"))
    S.check([len(x) for x in (commands, preps, inits, presses, ends)] == [n] * 5, "every requested key is pressed, in five steps", lambda: f"{ev}")
    if [len(x) for x in (commands, preps, inits, presses, ends)] != [n] * 5:
        return
    t = rf
    for i, k in enumerate(ks):
        if i:
            t = (end if waits[i - 1] == "state" else done) + rf
        if i == 0 and mp:
            S.cover("prepared")
        T = times(S, k)
        S.check(S.close(commands[i].time, t), "a key press starts when the rule fires", lambda: f"{i} {ks} {ev}")
        done = t + preparation(S, k, last, mp)
        S.check(S.close(preps[i].time, done), "the time of the preparation of a key press", lambda: f"{i} {ks} wanted {done} {ev}")
        start = done
        if end is not None and S.known(end > done):
            S.cover("waits in queue")
            start = end
        elif end is not None:
            S.cover("does not wait")
        S.check(S.close(inits[i].time, start + T[1]), "a movement is initiated when it is prepared and the previous one has ended", lambda: f"{i} {ks} wanted {start + T[1]} {ev}")
        S.check(S.close(presses[i].time, start + T[1] + T[2]), "the time of a key press", lambda: f"{i} {ks} {ev}")
        text = S.atom(presses[i].action[len("KEY PRESSED: "):])
        S.check(same(S, text, k), "the requested key is pressed", lambda: f"{i} {ks} {ev}")
        end = start + T[1] + T[2] + T[3]
        S.check(S.close(ends[i].time, end), "the time at which a movement ends", lambda: f"{i} {ks} {ev}")
        if last is not None:
            covers(S, k, last)
        last = k
    mb = m._ACTRModel__buffers["manual"] if hasattr(m, "_ACTRModel__buffers") else None
    if mb is not None:
        S.check([getattr(mb, x) for x in ("state", "preparation", "processor", "execution")] == ["free"] * 4, "at the end the motor module is free")
    S.cover(("one", "two", "three", "four")[n - 1])


def replaced(S, keys):
    """A key is requested while another one is being prepared."""
    A = act()
    rf = S.time("rf", 0, 1, lo_open=True, exact=True)
    m = new_model(subsymbolic=False, rule_firing=rf, motor_prepared=False)
    a, b = key(S, "a", keys), key(S, "b", keys)
    pa = times(S, a)[0]
    S.assume(S.Not(S.eq(rf, pa)))
    m.goal.add(A.makechunk("", "t", k="0"))
    for i, k in ((0, a), (1, b)):
        rule(m, f"r{i}", lambda i=i: {"=g": A.makechunk("", "t", k=str(i))}, lambda i=i, k=k: {"=g": A.makechunk("", "t", k=str(i + 1)), "+manual": A.makechunk("", "_manual", cmd="press_key", key=k)})
    ev = trace(prepared(m), 80)
    press = [e for e in ev if e.action.startswith("KEY PRESSED: ")]
    if S.known(rf < pa):
        T = times(S, b)
        S.check(len(press) == 1 and S.close(press[0].time, 2 * rf + T[0] + T[1] + T[2]), "a request during the preparation of a key press replaces it", lambda: f"{a} {b} {ev}")
        if press:
            S.check(same(S, S.atom(press[0].action[len("KEY PRESSED: "):]), b), "the last requested key is pressed", lambda: f"{a} {b} {ev}")
        S.cover("replaced")
    else:
        Ta, Tb = times(S, a), times(S, b)
        end = rf + sum(Ta)
        done = 2 * rf + preparation(S, b, a, False)
        start = end if S.known(end > done) else done
        S.check(len(press) == 2 and S.close(press[1].time, start + Tb[1] + Tb[2]) and S.close(press[0].time, rf + sum(Ta[:3])), "a request during the execution of a key press waits for it", lambda: f"{a} {b} {ev}")
        S.cover("queued")


def wrong(S, what):
    """Invalid requests are refused."""
    A = act()
    m = new_model(subsymbolic=False)
    x = S.str("x", ("press_key", "move_attention", "clear") if what == "cmd" else ("A", "b", "SPACE", "0"))
    m.goal.add(A.makechunk("", "t", k="0"))
    req = dict(cmd=x, key="A") if what == "cmd" else dict(cmd="press_key", key=x)
    rule(m, "r", lambda: {"=g": A.makechunk("", "t", k="0")}, lambda: {"=g": A.makechunk("", "t", k="1"), "+manual": A.makechunk("", "_manual", **req)})
    from pyactr.utilities import ACTRError
    try:
        ev = trace(prepared(m), 40)
    except ACTRError:
        ev = None
    if what == "cmd":
        good = S.eq(x, "press_key")
    else:
        good = S.Or(*[S.eq(x, k) for k in ("A", "b", "SPACE", "0")])
    if S.known(good):
        S.check(ev is not None and [e.action for e in ev].count("MOVEMENT FINISHED") == 1, "a valid key press is carried out")
    else:
        S.check(ev is None, "an invalid key or command is refused", lambda: f"{x} {ev}")
        S.cover("wrong key" if what == "key" else "wrong command")


def jobs(tier):
    out = [Job("c17", "typing", dict(waits=())), Job("c17", "typing", dict(waits=(), prepared_=True)), Job("c17", "typing", dict(waits=("state",), keys=KINDS + ("SPACE", "z"), prepared_=True))]
    out += [Job("c17", "typing", dict(waits=(w,)), weight=6) for w in ("preparation",)]
    out += [Job("c17", "typing", dict(waits=(w,), keys=KINDS + ("SPACE", "z"))) for w in ("state",)]
    out += [Job("c17", "typing", dict(waits=(w, v), keys=("F", "6", "q")), weight=3) for w in ("preparation", "state") for v in ("preparation", "state")]
    out += [Job("c17", "replaced", dict(keys=("F", "J", "6", "Q", "P"))), Job("c17", "wrong", dict(what="cmd")), Job("c17", "wrong", dict(what="key"))]
    if tier == "thorough":
        out += [Job("c17", "typing", dict(waits=(w, v, u), keys=("F", "6", "q")), weight=6, budget=800) for w in ("preparation", "state") for v in ("preparation", "state") for u in ("preparation", "state")]
        out += [Job("c17", "typing", dict(waits=(w, v), keys=KINDS), weight=6, budget=800) for w in ("preparation", "state") for v in ("preparation", "state")]
        out += [Job("c17", "typing", dict(waits=("state",)), weight=6), Job("c17", "replaced", dict(keys=KINDS + ("SPACE",)))]
    return out
