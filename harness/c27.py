"""C27: names, and the order in which things are given, make no difference."""

from .common import *  # noqa: F403

VARS = (("x", "y", "z"), ("y", "z", "x"), ("z", "y", "x"), ("x", "xx", "xxx"), ("xxx", "xx", "x"), ("x1", "x", "x2"), ("a", "b", "c"), ("b", "c", "a"), ("one", "two", "k"), ("val_1", "val", "Val"), ("mem", "t", "state"), ("1", "2", "3"))
SLOTS = (("a", "b", "c"), ("b", "c", "a"), ("c", "b", "a"), ("z", "a", "k0"), ("a", "aa", "aaa"), ("aaa", "aa", "a"), ("x", "y", "z"), ("one", "two", "three"), ("state", "value", "cmd"), ("C", "c", "b"), ("a_b", "a", "b_"), ("mem", "t", "g"))
TYPES = (("t", "mem"), ("mem", "t"), ("x", "a"), ("goal", "g"), ("tt", "t"), ("z", "A"))
BUFFERS = (("g", "h", "retrieval"), ("goal", "imaginal", "retr"), ("h", "g", "retrieval"), ("z", "a", "m"), ("gg", "g", "ggg"), ("state", "t", "mem"), ("retrieval2", "retrieval1", "retrieval"))
RULES = (("p", "q", "r"), ("q", "r", "p"), ("r", "q", "p"), ("p", "pp", "ppp"), ("p or q", "p", "q"), ("g", "retrieval", "t"), ("1", "2", "3"), ("R", "r", "Q"))
ORDERS = ((0, 1, 2), (1, 2, 0), (2, 1, 0), (0, 2, 1), (1, 0, 2), (2, 0, 1))
CANON = dict(v=VARS[0], s=SLOTS[0], t=TYPES[0], b=BUFFERS[0], p=RULES[0], order=ORDERS[0], slotorder=ORDERS[0])
POOLS = dict(v=VARS, s=SLOTS, t=TYPES, b=BUFFERS, p=RULES, order=ORDERS, slotorder=ORDERS)

KINDS = ("swap", "two", "retrieve", "compile", "fan", "partial", "choose", "search", "look")

BOUNDS = {
    "quick": "nine kinds of models (variables on several slots and with exclusions, two goals sharing variables, retrieval and harvest, compilation of two retrieving rules, spreading activation, partial matching, choice by utility, searches with queries, attending and key presses) with arbitrary contents, times and utilities; the names of three variables, three slots, two chunk types, three buffers or three rules replaced by those of a dozen (or the number listed) consistent renamings each, with names that are part of one another, of another case, swapped, or used elsewhere for something else; three rules in all and the lines of three slots in three other orders; each kind of model with every other renaming",
    "thorough": "all renamings, also names and the order of lines changed at once",
}
ASSUMPTIONS = ["a variable does not have the name of a buffer (there the name stands for the chunk in the buffer), and names are words",
               "rules of equal utility and equally active chunks are chosen by order and are left out of the changes of order"]


def COVERS(tier):
    return [*KINDS, "compiled", "retrieved", "failed", "seen", "learned", *(f"names {i}" for i in range(1, len(VARS))), *(f"{d} {i}" for d in ("order", "slotorder") for i in ((1, 2, 5) if d == "slotorder" else range(1, 6)))]


class Inputs:
    def __init__(self, S, kind):
        self.kind = kind
        self.vals = [S.str(f"w{i}", ("one", "two", "k", "None")) for i in range({"choose": 2, "look": 2}.get(kind, 3))]
        self.t = S.time("rf", 0.01, 1, exact=True)
        self.u = [S.real("u0", 0, 10), S.real("u1", 0, 10), 5] if kind in ("choose",) else [0, 0, 0]
        if kind == "choose":
            S.assume(S.And(*[S.Not(S.close(self.u[i], self.u[j], 1e-3)) for i in range(3) for j in range(i)]))


class Built:
    def __init__(self, S, I, n):
        A = act()
        self.S, self.I, self.n = S, I, n
        self.names = dict(x=n["v"][0], y=n["v"][1], z=n["v"][2], a=n["s"][0], b=n["s"][1], c=n["s"][2], T=n["t"][0], M=n["t"][1], G=n["b"][0], H=n["b"][1], R=n["b"][2])
        k = I.kind
        kw = dict(rule_firing=I.t)
        if k in ("fan", "partial"):
            kw.update(subsymbolic=True, latency_exponent=0, latency_factor=0.1, retrieval_threshold=-100, baselevel_learning=False)
        if k == "fan":
            kw.update(buffer_spreading_activation={n["b"][0]: 1}, strength_of_association=2, association_only_from_chunks=False, spreading_activation_restricted=True)
        if k == "partial":
            kw.update(partial_matching=True, mismatch_penalty=1)
        if k == "compile":
            kw.update(production_compilation=True, utility_learning=True)
        self.args = {}
        env = None
        if k == "look":
            kw.update(emma=True, emma_noise=False)
            env = A.Environment(focus_position=(0, 0))
        self.m = m = new_model(env, **kw)
        if n["b"][0] != "g":
            m.set_goal(n["b"][0])
        if k == "two":
            m.set_goal(n["b"][1], 0.1)
        if k == "look":
            m.visualBuffer(n["b"][1], n["b"][2], m.decmem)
            self.args = dict(environment_process=env.environment_process, stimuli=[{"s": {"text": I.vals[1], "position": (100, 50)}}], triggers=["Z"], times=[3])
        elif n["b"][2] != "retrieval":
            m.set_retrieval(n["b"][2])
        self.goal = m.goals[n["b"][0]]
        getattr(self, k)(A, *I.vals)

    def ch(self, typ, **slots):
        """A chunk with its slots in the order asked for."""
        keys = [x for x in "abc" if x in slots]
        keys = [keys[i] for i in self.n["slotorder"] if i < len(keys)]
        return act().makechunk("", self.names[typ], **{self.names[x]: slots[x] for x in keys})

    def rules(self, *texts, utilities=(0, 0, 0), rewards=(None, None, None)):
        """The texts of rules, where {a ...} is the line of a slot."""
        import re
        todo = list(enumerate(texts))
        for i in self.n["order"]:
            if i < len(todo):
                j, text = todo[i]
                blocks = []
                for block in text.split("\n"):
                    w = [re.sub(r"\{(\w)\}", lambda o: self.names[o.group(1)], x.strip()) for x in block.split(";")]
                    head, lines = w[:2], w[2:]
                    if lines and len(lines) <= 3:
                        lines = [lines[q] for q in self.n["slotorder"] if q < len(lines)]
                    blocks.append("\n".join(head + lines))
                self.m.productionstring(name=self.n["p"][j], string="\n".join(blocks), utility=utilities[j], reward=rewards[j])

    # ---- the kinds
    def swap(self, A, w0, w1, w2):
        self.goal.add(self.ch("T", a=w0, b=w1, c=w2))
        self.rules("={G}>; isa {T}; {a} ={x}; {b} ={y}; {c} ~={x} {c} ~={y}\n==>\n={G}>; isa {T}; {a} ={y}; {b} ={x}; {c} one",
                   "={G}>; isa {T}; {a} ={x}; {b} ={x}\n==>\n={G}>; isa {T}; {a} two; {b} ={x}; {c} ={x}",
                   "={G}>; isa {T}; {a} ={z}; {b} ~={z}; {c} ={z}\n==>\n~{G}>")

    def two(self, A, w0, w1, w2, w3="two"):
        self.goal.add(self.ch("T", a=w0, b=w1))
        self.m.goals[self.n["b"][1]].add(self.ch("M", a=w2, b=w3))
        self.rules("={G}>; isa {T}; {a} ={x}; {b} ={y}\n={H}>; isa {M}; {a} ={y}; {b} ~={x}\n==>\n={G}>; isa {T}; {a} ={y}; {c} k\n+{H}>; isa {M}; {a} ={x}; {b} ={y}",
                   "={G}>; isa {T}; {c} ~k; {a} ={z}\n={H}>; isa {M}; {b} ={z}\n==>\n={H}>; isa {M}; {a} one\n={G}>; isa {T}; {c} k",
                   "={G}>; isa {T}; {c} k\n==>\n~{G}>\n~{H}>")

    def retrieve(self, A, w0, w1, w3, w2="two", w4="k"):
        self.memory([(dict(a=w1, b=w2), -1), (dict(a=w3, b=w4, c="one"), -2)])
        self.goal.add(self.ch("T", a=w0))
        self.rules("={G}>; isa {T}; {a} ={x}; {c} None\n==>\n={G}>; isa {T}; {c} one\n+{R}>; isa {M}; {a} ={x}",
                   "={G}>; isa {T}; {a} ={x}; {c} one\n={R}>; isa {M}; {a} ={x}; {b} ={y}\n==>\n={G}>; isa {T}; {b} ={y}; {c} two\n~{R}>",
                   "={G}>; isa {T}; {c} one\n?{R}>; state error\n==>\n~{G}>")

    def compile(self, A, w0, w1, w3, w2="two", w4="k"):
        self.memory([(dict(a=w1, b=w2), -1), (dict(a=w3, b=w4), -2)])
        self.goal.add(self.ch("T", a=w0))
        self.rules("={G}>; isa {T}; {a} ={x}; {b} None\n==>\n={G}>; isa {T}; {b} ={x}\n+{R}>; isa {M}; {a} ={x}",
                   "={G}>; isa {T}; {b} ={y}; {c} None\n={R}>; isa {M}; {a} ={y}; {b} ={x}\n==>\n={G}>; isa {T}; {a} ={x}; {c} ={y}\n~{R}>",
                   "={G}>; isa {T}; {c} ~None; {a} ={z}\n==>\n~{G}>")

    def fan(self, A, w0, w1, w3, w2="two", w4="k"):
        S = self.S
        S.assume(S.Not(S.Or(*[is_none(S, w) for w in self.I.vals])))
        self.memory([(dict(a=w1, b=w2), -1), (dict(a=w3, b=w4), -1)])
        self.goal.add(self.ch("T", a=w0, b=w1))
        self.rules("={G}>; isa {T}; {a} ={x}; {c} None\n==>\n={G}>; isa {T}; {c} one\n+{R}>; isa {M}; {a} ~None",
                   "={G}>; isa {T}; {c} one\n={R}>; isa {M}; {b} ={y}\n==>\n={G}>; isa {T}; {c} two")

    def partial(self, A, w0, w1, w3, w2="one"):
        self.m.set_similarities("one", "two", -0.25)
        self.memory([(dict(a=w1, b=w2), -1), (dict(a=w3, b="two"), -1)])
        self.goal.add(self.ch("T", a=w0))
        self.rules("={G}>; isa {T}; {a} ={x}; {c} None\n==>\n={G}>; isa {T}; {c} one\n+{R}>; isa {M}; {a} ={x}; {b} one",
                   "={G}>; isa {T}; {c} one\n={R}>; isa {M}; {a} ={x}; {b} ={y}\n==>\n={G}>; isa {T}; {a} ={x}; {b} ={y}; {c} two")

    def choose(self, A, w0, w1):
        self.m.model_parameters.update(utility_learning=True, utility_alpha=0.5)
        self.goal.add(self.ch("T", a=w0, b=w1, c="one"))
        self.rules("={G}>; isa {T}; {a} ={x}; {b} ={x}; {c} ~k\n==>\n={G}>; isa {T}; {c} one",
                   "={G}>; isa {T}; {a} ={x}; {b} ~={x}; {c} ~two\n==>\n={G}>; isa {T}; {b} ={x}; {c} two",
                   "={G}>; isa {T}; {a} ={y}; {c} ~k\n==>\n={G}>; isa {T}; {c} k", utilities=self.I.u, rewards=(None, 3, None))

    def search(self, A, w0, w1, w3, w2="one"):
        self.memory([(dict(a=w1, b=w2), -1), (dict(a=w3, b=w2), -1)])
        self.goal.add(self.ch("T", a=w0))
        self.rules("={G}>; isa {T}; {a} ={x}; {c} None\n==>\n={G}>; isa {T}; {c} one\n+{R}>; isa {M}; {a} ~={x}",
                   "={G}>; isa {T}; {a} ={x}; {c} one\n?{R}>; state free; buffer full\n==>\n={G}>; isa {T}; {c} two; {b} ={x}\n~{R}>",
                   "={G}>; isa {T}; {a} ={z}; {c} one\n?{R}>; state error; buffer empty\n==>\n={G}>; isa {T}; {b} ={z}; {c} k")

    def look(self, A, w0, w1):
        self.goal.add(self.ch("T", a=w0))
        self.rules("={G}>; isa {T}; {b} None\n={R}>; isa _visuallocation; screen_x ={y}\n==>\n={G}>; isa {T}; {b} ={y}\n+{H}>; isa _visual; cmd move_attention; screen_pos ={R}\n~{R}>",
                   "={G}>; isa {T}; {a} ={x}; {b} ={y}; {c} None\n={H}>; isa _visual; value ={x}\n==>\n={G}>; isa {T}; {c} ={y}\n+manual>; isa _manual; cmd press_key; key A",
                   "={G}>; isa {T}; {a} ={x}; {c} None\n={H}>; isa _visual; value ~={x}\n==>\n={G}>; isa {T}; {c} k\n+{R}>; isa _visuallocation; screen_x lowest\n~{H}>")

    def memory(self, rows):
        self.m.set_decmem()
        for slots, t in rows:
            self.m.decmem.add(self.ch("M", **slots), t)

    # ---- what happens
    def run(self):
        n = self.n
        ev = trace(prepared(self.m, **self.args), 60, stop=lambda es: sum("RULE FIRED" in e.action for e in es) >= (2 if self.I.kind == "choose" else 4))
        bufs = dict(zip(n["b"], "GHR"))
        rules = {n["p"][i]: CANON["p"][i] for i in range(3)}
        rules.update({f"{n['p'][i]} and {n['p'][j]}": f"{CANON['p'][i]} and {CANON['p'][j]}" for i in range(3) for j in range(3)})
        out = []
        for e in ev:
            what, _, of = e.action.partition(": ")
            if what.startswith("RULE"):
                of = rules.get(of, of)
            else:
                of = ""
            out.append((e.time, bufs.get(e.proc, e.proc), what, of))
        slots = {k: v for k, v in self.names.items() if k in "abc"}
        ren = lambda d: d and {**{k: d.get(v) for k, v in slots.items()}, **{"other " + k: v for k, v in d.items() if k not in slots.values()}}  # noqa: E731
        m = self.m
        held_ = {"G": ren(held(self.goal)), "R": None, "H": None}
        if self.I.kind == "look":
            held_.update(H=held(m.visbuffers[n["b"][1]]), R=held(m.visbuffers[n["b"][2]]))
        else:
            held_["R"] = ren(held(m.retrievals[n["b"][2]]))
            if self.I.kind == "two":
                held_["H"] = ren(held(m.goals[n["b"][1]]))
        S = self.S
        for word, cover in (("RULE CREATED", "compiled"), ("RETRIEVED: ", "retrieved"), ("RETRIEVED: None", "failed"), ("ENCODED VIS", "seen")):
            if any(e.action.startswith(word) and (cover != "retrieved" or "None" not in e.action) for e in ev):
                S.cover(cover)
        if self.I.kind == "choose" and any(x[3] == "q" for x in out):
            S.cover("learned")
        dm = [((ren if c.typename in n["t"] else dict)({k: raw(v) for k, v in c}), t) for c, t in m.decmem.items()]
        u = {rules.get(x, x): m.productions[x]["utility"] for x in m.productions}
        return out, held_, dm, u


def renamed(S, kind, what, part):
    I = Inputs(S, kind)
    n = dict(CANON)
    if what != "slotorder" and what != "order":
        i = S.choice("i", tuple(part))
        n.update({d: POOLS[d][i % len(POOLS[d])] for d in "vstbp"})
        if what == "both":
            n.update(slotorder=ORDERS[i % 5 + 1])
    else:
        i = S.choice("i", tuple(part))
        n[what] = POOLS[what][i]
    S.cover(f"{what if what != 'both' else 'names'} {i}")
    assert not set(n["v"]) & set(n["b"])
    S.cover(kind)
    ev0, bufs0, dm0, u0 = Built(S, I, dict(CANON)).run()
    ev, bufs, dm, u = Built(S, I, n).run()
    S.check(len(ev) == len(ev0) and S.And(*[S.And(x[1:] == y[1:], S.close(x[0], y[0])) for x, y in zip(ev, ev0)]), "the events of the renamed model", lambda: f"{n} {ev0} {ev}")
    S.check(S.And(*[slots_eq(S, bufs[b], bufs0[b]) for b in bufs0]), "the buffers of the renamed model", lambda: f"{n} {bufs0} {bufs}")
    S.check(len(dm) == len(dm0) and S.And(*[S.And(slots_eq(S, x, y), len(s) == len(t), *[S.close(p, q) for p, q in zip(s, t)]) for (x, s), (y, t) in zip(dm, dm0)]), "the memory of the renamed model", lambda: f"{n} {dm0} {dm}")
    S.check(set(u) == set(u0) and S.And(*[S.close(u[x], u0[x]) for x in u0]), "the utilities in the renamed model", lambda: f"{n} {u0} {u}")


def jobs(tier):
    J = lambda **p: Job("c27", "renamed", p)  # noqa: E731
    out = []
    for q, k in enumerate(KINDS):
        some = [i for i in range(1, 12) if tier == "thorough" or (i + q) % 2]
        d = 1 if k == "look" else 3
        out += [J(kind=k, what="names", part=tuple(some[p:p + d])) for p in range(0, len(some), d)]
        out += [J(kind=k, what="slotorder", part=p) for p in (((1,), (2,), (5,)) if k == "look" else ((1, 2, 5),))]
    out.append(J(kind="choose", what="order", part=(1, 2, 3, 4, 5)))
    if tier == "thorough":
        out += [J(kind=k, what="both", part=p) for k in KINDS for p in ((1, 2), (3, 4), (5, 6), (7, 8), (9, 10), (11,))]
    for j in out:
        if j.params["kind"] == "look":
            j.weight, j.budget = 3, 300
    return out
