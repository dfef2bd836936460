"""C28: chunks have the slots of their types."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "types with up to two slots of their own and up to two included types (one after the other, both at once, or one including the other) with any of two slots each, declared as text with spaces or commas or as a list; chunks made directly or from text that give any of the slots arbitrary values; types that grow by a chunk or are declared anew between chunks; all the refused declarations",
    "thorough": "the same with three slots each",
}
ASSUMPTIONS = ["slot names are a, b, c, d, ab"]


def COVERS(tier):
    return ["own", "included", "grown", "declared anew", "refused", "unaffected"]


def listed(names, form):
    names = list(names)
    return {"spaces": " ".join(names), "commas": ", ".join(names), "list": names, "tuple": tuple(names)}[form]


def choose(S, tag, names):
    return [n for n in names if S.flag(f"{tag}_{n}")]


def has_slots(S, c, slots, given, what, grown=()):
    """The chunk has these slots, with the values given, the others empty."""
    got = {}
    n = 0
    for k, v in c:
        got[k] = raw(v)
        n += 1
    S.check(set(got) == set(slots) and n == len(slots), what + ": the slots", lambda: f"{got} {slots}")
    S.check(S.And(*[val_eq(S, got.get(k), given.get(k)) for k in slots]), what + ": the values", lambda: f"{got} {given}")
    full = {k: raw(v) for k, v in c.removeunused()}
    S.check(set(full) <= set(slots) and S.And(*[val_eq(S, full.get(k), given.get(k)) for k in slots]), what + ": without the empty slots", lambda: f"{full} {given}")


def made(S, typ, given, text):
    A = act()
    return A.makechunk("", typ, **given)


def values(S, tag, slots, which):
    """Values for all, none or one of the slots."""
    return {s: S.str(f"{tag}_{s}v", ("None",)) for i, s in enumerate(slots) if which == "all" or which == i}


def declared(S, form, include, wide):
    """A type has its own slots and those of what it includes."""
    A = act()
    N = (("a", "b", "ab"), ("b", "c", "ab"), ("c", "d", "a")) if wide else (("a", "b"), ("b", "c"), ("ab", "d"))
    own, p1, p2 = choose(S, "own", N[0]), choose(S, "p1", N[1]), choose(S, "p2", N[2])
    A.chunktype("p1", listed(p1, form))
    if include == "chain":
        A.chunktype("p2", listed(p2, form), include="p1")
        want = {*own, *p1, *p2}
        A.chunktype("t", listed(own, form), include=["p2"])
    elif include == "one":
        A.chunktype("p2", listed(p2, form))
        want = {*own, *p1}
        A.chunktype("t", listed(own, form), include="p1")
    elif include == "both":
        A.chunktype("p2", listed(p2, form))
        want = {*own, *p1, *p2}
        A.chunktype("t", listed(own, form), include=["p1", "p2"])
    elif include == "model":
        m = A.ACTRModel()
        m.chunktype("p2", listed(p2, form))
        want = {*own, *p1, *p2}
        m.chunktype("t", listed(own, form), include=("p2", "p1"))
    else:
        A.chunktype("p2", listed(p2, form))
        want = set(own)
        A.chunktype("t", listed(own, form))
    order = sorted(want)
    which = S.choice("which", ("all", "none", 0, 1))
    S.assume(not isinstance(which, int) or which < len(order))
    given = values(S, "t", order, which)
    has_slots(S, A.makechunk("", "t", **given), want, given, "a chunk of a declared type")
    # what is included is not affected
    g1 = values(S, "q", sorted(p1), "all")
    has_slots(S, A.makechunk("", "p1", **g1), set(p1), g1, "a chunk of an included type")
    p2all = {*p2, *p1} if include == "chain" else set(p2)
    has_slots(S, A.makechunk("", "p2"), p2all, {}, "a chunk of an included type")
    S.cover("included" if want - set(own) else "own")


def from_text(S, form):
    """Chunks written as text have the slots of their type as well."""
    A = act()
    own, p1 = choose(S, "own", ("a", "b")), choose(S, "p1", ("b", "c"))
    A.chunktype("p1", listed(p1, form))
    A.chunktype("t", listed(own, form), include="p1")
    want = {*own, *p1}
    given = {s: "one two" if i else "one" for i, s in enumerate(sorted(want)) if S.flag(f"g_{s}")}
    c = A.chunkstring(string="isa t " + " ".join(f"{s} '{v}'" for s, v in given.items()))
    has_slots(S, c, want, given, "a chunk given as text")
    S.check(c.typename == "t", "the type of a chunk given as text", lambda: c.typename)


def grow(S, how):
    """A chunk with a new slot lets its type grow, from then on."""
    A = act()
    own = choose(S, "own", ("a", "c"))
    kid = choose(S, "kid", ("a", "d"))
    A.chunktype("t", listed(own, "spaces"))
    A.chunktype("kid", listed(kid, "list"), include="t")
    A.chunktype("other", "a")
    x, y, z = S.str("x", ("None",)), S.str("y", ("None",)), S.str("z", ("None",))
    before = A.makechunk("", "t", **({own[0]: x} if own else {}))
    new = [n for n in ("b", "c") if S.flag(f"new_{n}")]
    if how == "chunk":
        after = A.makechunk("", "t", **{n: y for n in new})
        slots = {*own, *new}
        has_slots(S, after, slots, {n: y for n in new}, "the chunk with a new slot")
        S.cover("grown")
    elif how == "text":
        A.chunkstring(string="isa t " + " ".join(f"{n} k" for n in new))
        slots = {*own, *new}
    else:
        A.chunktype("t", listed(new, "commas"))
        slots = set(new)
        S.cover("declared anew")
    order = sorted(slots)
    given = {order[0]: z} if order else {}
    has_slots(S, A.makechunk("", "t", **given), slots, given, "a later chunk of the type")
    has_slots(S, before, set(own), {own[0]: x} if own else {}, "a chunk made earlier")
    has_slots(S, A.makechunk("", "kid", **{k: z for k in kid}), {*own, *kid}, {k: z for k in kid}, "a chunk of a type that included the type earlier")
    has_slots(S, A.makechunk("", "other", a=z), {"a"}, {"a": z}, "a chunk of another type")
    A.chunktype("late", listed(kid, "commas"), include=["t", "other"])
    has_slots(S, A.makechunk("", "late"), {"a", *slots, *kid}, {}, "a chunk of a type that includes the type now")


REFUSED = {
    "isa": lambda A: A.chunktype("t", "b isa d"), "ISA": lambda A: A.chunktype("t", ["ISA", "b"]), "only isa": lambda A: A.chunktype("new", "isa"),
    "isa included": lambda A: A.chunktype("t", ("b", "isa"), include="other"),
    "manual": lambda A: A.chunktype("_manual", "cmd, key, hand"), "visual": lambda A: A.chunktype("_visual", "cmd value"), "location": lambda A: A.chunktype("_visuallocation", ["screen_x"]),
    "manual included": lambda A: A.chunktype("_manual", "cmd, hand", include="t"),
    "parent": lambda A: A.chunktype("t", "b d", include="nowhere"), "second parent": lambda A: A.chunktype("t", "b d", include=["other", "nowhere"]), "new": lambda A: A.chunktype("new", "b", include=("nowhere",)),
}


def refuse(S, what):
    """A refused declaration changes nothing."""
    from pyactr.utilities import ACTRError
    A = act()
    own = choose(S, "own", ("a", "c"))
    A.chunktype("t", listed(own, "spaces"))
    A.chunktype("other", "a, d")
    x = S.str("x", ("None",))
    try:
        REFUSED[what](A)
        S.check(False, "an impossible declaration is refused", lambda: what)
    except ACTRError:
        S.check(True, "an impossible declaration is refused")
        S.cover("refused")
    has_slots(S, A.makechunk("", "t", **{n: x for n in own}), set(own), {n: x for n in own}, "a chunk of the type after a refusal")
    has_slots(S, A.makechunk("", "other", d=x), {"a", "d"}, {"d": x}, "a chunk of another type after a refusal")
    has_slots(S, A.makechunk("", "new", c=x), {"c"}, {"c": x}, "a chunk of a type that was never declared")
    c = A.makechunk("", "_manual", cmd="press_key", key=x)
    has_slots(S, c, {"cmd", "key"}, {"cmd": "press_key", "key": x}, "a chunk of a built-in type")
    c = A.makechunk("", "_visual", value=x)
    has_slots(S, c, {"cmd", "value", "color", "screen_pos"}, {"value": x}, "a chunk of a built-in type")
    S.cover("unaffected")


def defaults(S):
    """Slots that are not given have the default of the type."""
    A = act()
    d = S.str("d", ())
    A.chunktype("t", "a, b", defaults=(d,))
    c = {k: raw(v) for k, v in A.makechunk("", "t", a="x")}
    S.check(val_eq(S, c.get("b"), d), "a slot that is not given has the default of its type", lambda: f"{c}")


def jobs(tier):
    J = lambda fn, **p: Job("c28", fn, p)  # noqa: E731
    out = []
    for form in ("spaces", "commas", "list", "tuple"):
        out += [J("declared", form=form, include=i, wide=tier == "thorough") for i in ("none", "one", "both", "chain", "model")]
    out += [J("from_text", form=f) for f in ("spaces", "list")]
    out += [J("grow", how=h) for h in ("chunk", "text", "anew")]
    out += [J("refuse", what=w) for w in REFUSED]
    out.append(J("defaults"))
    return out
