#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the texts below, the bounds
that the harnesses declare, the seeds and the known findings."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

# property: (how it is decided and against which oracle, why tests cannot)
TEXT = {}


def text(pid, how, beyond):
    TEXT[pid] = (how, beyond)


text("C01", "Chunks are built through `makechunk`, compared with `==`, hashed, put in sets; the oracle is slot-by-slot equality of the values given, written as one formula over the symbolic values. "
     "Symmetry, transitivity and hash agreement are separate assertions over two or three chunks. Hashes of symbolic strings are an injective symbolic function, so a wrong hash shows as an unequal term.",
     "the tests compare a few fixed chunks; unequal slot layouts, nested chunks, inherited and late-extended chunk types with arbitrary values are not among them.")
text("C02", "`Chunk.match`, `<=`, `<` on a pattern and a chunk with symbolic values and prior bindings; the oracle computes satisfiability of the requirements under one binding and the bindings afterwards.",
     "all combinations of value/variable/exclusion per slot with all equalities among the values.")
text("C03", "a retrieval with partial matching on; the activation of the retrieved chunk must equal the oracle's sum of declared similarities or penalties (symbolic reals).",
     "the identity of the values (which declaration applies, declared or mirrored or repeated) is symbolic.")
text("C04", "a rule (or `buffers.create/modify`, memory search) with a symbolic description and symbolic bindings; the oracle resolves the description or says that it must be refused with ACTRError.",
     "all kinds of slots under all equalities of the values (two constants that happen to be the same are not a conflict).")
text("C05", "modification of a buffer directly and by a rule; afterwards the contents of all buffers, the previous chunk object and the memory are compared with the oracle.",
     "aliasing between buffer, memory and other buffers under all equalities of values.")
text("C06", "histories of buffer operations with symbolic chunks and times; an oracle memory (list of chunk and time, joined under symbolic equality) must agree with the real one after every operation.",
     "histories, and chunks equal to each other or to what memory holds.")
text("C07", "histories of memory operations; the same oracle memory.", "as C06, including lists of times, copies and deletions.")
text("C08", "the model's retrieval process is run by the real simulation; the oracle decides from symbolic values, times and the list of recent retrievals which chunks qualify.",
     "the recency window and the 0.1 ms clock at symbolic times.")
text("C09", "retrieval with symbolic activations, noise draws and threshold; exp and log are uninterpreted with monotonicity facts; the selected chunk must be at least as active as every other candidate and the delay must be the stated term.",
     "ties, thresholds exactly reached, noise on every candidate.")
text("C10", "the real base-level computation on symbolic presentation times; powers, logs are terms that are compared with the oracle's terms (same function applied to the same argument), plus exact facts.",
     "off-the-clock times and presentations at this moment.")
text("C11", "the real spreading activation on symbolic chunks; the oracle counts associations and fans by formulas over value equalities.", "fan after additions, deletions and repetitions under all equalities of the values.")
text("C12", "one cycle of the real simulation on a rule with symbolic patterns and buffers; fires iff the oracle's formula (exists one binding) holds, and the rule then writes the values bound.", "bindings shared between buffers in any order.")
text("C13", "one or two cycles with symbolic utilities, conditions and noise; the selected rule must be applicable and maximal.", "arbitrary orders of utilities, also changed between cycles.")
text("C14", "chains of firings with symbolic utilities, times, rates and rewards; the oracle is the update formula with the rounding modelled.", "which rules share in a reward, at arbitrary times.")
text("C15", "rules run by the real simulation at symbolic times relative to a retrieval; the oracle gives the contents of all buffers and the memory after the firing.", "the order of the retrieval and of the firing is symbolic.")
text("C16", "runs of the real simulation (simpy runs on symbolic times: the order of events is a branch) compared with the oracle's times.", "interleavings of parallel modules at arbitrary durations.")
text("C17", "key presses by rules with symbolic keys (every key of the keyboard) and firing times; an oracle of the motor tables gives the times of all phases.", "all pairs of keys, three and four movements in every overlap.")
text("C18", "searches of screens with symbolic positions, texts and features; the found stimulus must satisfy the request, be extreme, and be attended or not; failure iff no stimulus qualifies.", "geometry: all positions, with sqrt as a monotone function.")
text("C19", "shifts of attention with symbolic positions, delays and firing times; the oracle computes the EMMA times from the distance (tan and exp as shared functions).", "the interleavings of preparation, movement and encoding and of screen changes.")
text("C20", "the environment process with symbolic durations, starts and key times; the oracle gives each screen's interval; a second family lets a rule act at any time relative to a change.", "coincidences and both orders of key press and time-out.")
text("C21", "two rules fire one after the other on symbolic contents and are compiled by the real code; the compiled rule is then run alone on other symbolic contents and compared with running the two rules there.",
     "the compiled rule has to agree for all contents, not those it was made from.")
exec(open(os.path.join(HERE, "design_more.py")).read()) if os.path.exists(os.path.join(HERE, "design_more.py")) else None


def main():
    out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## The properties", ""]
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    na = {e["property"]: e["reason"] for e in man.get("not_applicable", [])} if man.get("not_applicable") and "property" in man["not_applicable"][0] else {e.get("id"): e.get("reason") for e in man.get("not_applicable", [])}
    for p in props:
        pid = p["id"]
        out.append(f"### {pid} {p['title']}")
        if pid in na:
            out += [f"Not applicable: {na[pid]}", ""]
            continue
        m = importlib.import_module("harness." + pid.lower())
        how, beyond = TEXT[pid]
        out.append(f"* How: {how}")
        out.append(f"* Beyond tests: {beyond}")
        out.append(f"* Bounds (quick): {m.BOUNDS['quick']}.")
        out.append(f"* Bounds (thorough): {m.BOUNDS['thorough']}.")
        if m.ASSUMPTIONS:
            out.append("* Outside / assumed: " + "; ".join(m.ASSUMPTIONS) + ".")
        out.append("* Must be reached: " + ", ".join(m.COVERS("quick")) + ".")
        out.append("")
    out.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip())
    out += ["", "## Planted changes (seeded/)", "Each is caught by the quick check of its property.", ""]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        s = json.load(open(os.path.join(d, "meta.json")))
        out.append(f"* `{os.path.basename(d)}` ({s['property']}): {s['what_it_breaks']} Needs: {s['needs']}")
    out += ["", "## Defects repaired in /repo and known findings", "From `known_findings.json`:", ""]
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out += ["* " + f for f in k["fixed"]]
    out.append("")
    out += ["* open: " + str(f.get("what") or f.get("text") or f) for f in k["findings"]] or ["No open finding."]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
