"""C11: spreading activation."""

from .common import *  # noqa: F403

BOUNDS = {
    "quick": "one or two source buffers whose chunks hold up to 2 sources, memories of 2 to 3 chunks holding arbitrary combinations of two arbitrary (possibly equal) chunks, arbitrary strings and empty slots; chunks added, deleted, repeated or the memory copied between two requests; arbitrary weights and strength; free and slot-restricted spreading, from chunks only or from all values",
    "thorough": "all combinations of slots in 3 memory chunks and 2 source slots",
}
ASSUMPTIONS = ["slot-restricted spreading from a source that a chunk holds in several slots is left open"]


def COVERS(tier):
    return ["associated", "not associated", "same chunk", "fan above 2", "equal sources", "empty buffer", "added", "deleted", "copied", "restricted", "wrong slot", "strings", "two buffers"]


def isval(S, v):
    return not (v is None or (isinstance(v, str) and S.known(S.eq(v, "None"))))


def sources(S, slots, only_chunks):
    return [(k, v) for k, v in slots.items() if isval(S, v) and (hasattr(v, "actrchunk") or not only_chunks)]


def same(S, a, b):
    if isinstance(a, str) != isinstance(b, str):
        return False
    return S.known(S.eq(a, b))


def strength(S, j, slot, chunk, slots, mem, st, restricted, only_chunks):
    """S_ji; chunk: the chunk in memory, slots: its description."""
    inside = [k for k, v in sources(S, slots, only_chunks) if same(S, v, j)]
    me = hasattr(j, "actrchunk") and S.known(S.eq(j, chunk))
    if restricted:
        S.cover("restricted")
        if slot not in inside:
            if inside:
                S.cover("wrong slot")
            return 0
        S.assume(len(inside) == 1)
    elif not inside and not me:
        S.cover("not associated")
        return 0
    if me:
        S.cover("same chunk")
    fan = 1
    for _c, sp in mem:
        fan += len([k for k, v in sp.items() if isval(S, v) and (not restricted or k == slot) and same(S, v, j)])
    S.cover("associated")
    if fan > 2:
        S.cover("fan above 2")
    return st - S.log(fan / max(1, len(inside)))


def spread(S, goals, st, chunk, slots, mem, restricted, only_chunks):
    tot = 0
    for sp, W in goals:
        if sp is None:
            S.cover("empty buffer")
            continue
        src = sources(S, sp, only_chunks)
        for k, j in src:
            tot = tot + W / len(src) * strength(S, j, k, chunk, slots, mem, st, restricted, only_chunks)
    return tot


def pick(S, name, j, options):
    k = S.choice(name, options)
    if k == "str":
        S.cover("strings")
        return S.str("v_" + name)
    return {"none": None, "None": "None", "j0": j[0], "j1": j[1], "lit": "lit"}[k]


def fan(S, goal, mem, restricted=False, only_chunks=True, change=None, two=False, selfin=False, empty=False):
    A = act()
    st = S.real("S", 0, 5)
    W = [S.real("W0", 0, 5), S.real("W1", 0, 5)]
    j = [A.makechunk("", "j", k=S.str("j0")), A.makechunk("", "j", k=S.str("j1"))]
    if S.known(S.eq(j[0], j[1])):
        S.cover("equal sources")
    spread_par = {"g": W[0]}
    m = new_model(subsymbolic=True, baselevel_learning=False, retrieval_threshold=-100, strength_of_association=st, spreading_activation_restricted=restricted,
                  association_only_from_chunks=only_chunks)
    goals = []
    for i, opts in enumerate(goal):
        sp = {"st"[k]: pick(S, f"g{i}{k}", j, o) for k, o in enumerate(opts)}
        b = m.set_goal("g2" if i else "g")
        if not i and empty and S.flag("empty"):
            goals.append((None, W[i]))
        else:
            b.add(A.makechunk("", "g", **{k: v for k, v in sp.items() if v is not None}))
            goals.append((sp, W[i]))
        if i:
            spread_par["g2"] = W[1]
            S.cover("two buffers")
    m.model_parameters["buffer_spreading_activation"] = spread_par
    rows = []

    def build(n, opts):
        sp = {"stu"[k]: pick(S, f"m{n}{k}", j, o) for k, o in enumerate(opts)}
        sp["id"] = f"id{n}"
        return A.makechunk("", "t", **{k: v for k, v in sp.items() if v is not None}), sp

    for n, opts in enumerate(mem):
        c, sp = build(n, opts)
        m.decmem.add(c, 0)
        rows.append((c, sp))
    if selfin:
        m.decmem.add(j[0], 0)
        rows.append((j[0], {k: raw(v) for k, v in j[0]}))
    prepared(m)
    bufs = dict(m.goals)

    def ask(what):
        for c, sp in rows:
            req = A.makechunk("", "r", **({"id": sp["id"]} if "id" in sp else {"k": sp["k"]}))
            got, _x = retrieve(m, 1, req, buffers=bufs)
            S.check(got is not None, "the chunk is retrieved")
            want = spread(S, goals, st, c, sp, rows, restricted, only_chunks)
            S.check(S.close(m.retrieval.activation, want), "spreading activation" + what, lambda: f"{m.retrieval.activation} wanted {want} for {c}; goals {goals} memory {m.decmem}")

    ask("")
    if change:
        how = S.choice("change", change)
        if how == "add":
            c, sp = build(7, ((("j0", "str")), ("j1", "none")))
            m.decmem.add(c, 2)
            rows.append((c, sp))
            S.cover("added")
        elif how == "again":
            m.decmem.add(rows[0][0], 2)
        elif how == "delete":
            del m.decmem[rows[0][0]]
            rows.pop(0)
            S.cover("deleted")
        elif how == "copy":
            old = m.decmem
            new = old.copy()
            c, sp = build(7, ((("j0", "str")), ("j1", "none")))
            old.add(c, 2)
            m.retrieval.dm = new
            S.cover("copied")
        ask(" after a change of memory")


def jobs(tier):
    G1 = (("j0", "j1", "str", "none"),)
    G2 = (("j0", "str", "None"), ("j0", "j1", "none"))
    M = (("j0", "str"), ("none", "j1", "j0"))
    M1 = (("j0", "j1"), ("j1", "none"))
    out = []
    for r in (False, True):
        for o in (True, False):
            out.append(Job("c11", "fan", dict(goal=(G2,), mem=(M, M1), restricted=r, only_chunks=o), weight=3))
            out.append(Job("c11", "fan", dict(goal=(G1,), mem=(M1, M1), restricted=r, only_chunks=o, change=("add", "again", "delete", "copy")), weight=3))
    out += [Job("c11", "fan", dict(goal=(G1, (("j0", "none"),)), mem=(M1,), only_chunks=o, empty=True)) for o in (True, False)]
    out += [Job("c11", "fan", dict(goal=(G1,), mem=(M1,), selfin=True, only_chunks=o)) for o in (True, False)]
    if tier == "thorough":
        for r in (False, True):
            for o in (True, False):
                for i in range(4):
                    out.append(Job("c11", "fan", dict(goal=((("j0", "j1", "str", "none"), ("j0", "j1", "str", "none")),), mem=(M, M, M1), restricted=r, only_chunks=o),
                                   prefix={"g00": i}, budget=800, weight=6))
                    out.append(Job("c11", "fan", dict(goal=(G2,), mem=(M, M1), restricted=r, only_chunks=o, change=("add", "again", "delete", "copy")), prefix={"change": i}, budget=800, weight=6))
    return out
