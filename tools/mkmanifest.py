#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (only claims harnesses that exist)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = "explicit-state exploration of all operation sequences against a reference model, on the real code"
ENUM = "exhaustive enumeration of a bounded program/state space, real code against a reference transition system"
SEARCH = "explicit-state model of the planning domain; every search run compared with the enumerated paths of the model"
TRUST = ("Trusts the reference model in harness/*.h, the stand-ins (val/, harness/pybind11) and the compiler. "
         "Holds for the bounds in DESIGN.md only.")
T = {
    "C01": (OPS, "All operation sequences to a depth over colliding hash codes and bucket counts, under ASan/UBSan."),
    "C02": (OPS, "All pairs (and triples for the order) of states over a pool, built by every history in the bound."),
    "C03": (OPS, "All histories of assertions and denials from every initial three-valued assignment in the bound."),
    "C04": (OPS, "All iterator histories (steps, jumps, copies, excursions past the ends) over all option-size shapes in the bound."),
    "C05": (ENUM, "All type hierarchies, object sets and parameter lists in the bound; all positions and tuples; all copy/assign histories."),
    "C06": (ENUM, "All predicate signatures in the bound; every index, proposition and state; every lookup order in the bound, cache on and off."),
    "C07": (ENUM, "Every formula of the grammar up to the bound, in every state of the vocabulary, against a first-order evaluator."),
    "C08": (ENUM, "Every formula of the grammar in every three-valued state, against all completions."),
    "C09": (ENUM, "Every precondition of the grammar and parameter list, every state; every ill-formed call shape on every operation."),
    "C10": (ENUM, "Every effect of the grammar in every state against the reference successor relation."),
    "C11": (ENUM, "Every rule set of the menu up to the bound, every basic state, every stale derived part, every rule order."),
    "C12": (ENUM, "Every axiom set in the bound, every complete and three-valued state, all firing orders explored in the model."),
    "C13": (ENUM, "Every axiom set and effect in the bound, every state; the model explores all firing orders."),
    "C14": (ENUM, "Every formula of the grammar: truth tables of the normal form against the formula's."),
    "C15": (SEARCH, "Every node on every path up to the depth bound, for every problem of the menu; iterator histories."),
    "C16": (SEARCH, "Every problem of the menu, depth limit and starting node; results compared with all paths of the model."),
    "C17": (SEARCH, "Every problem of the menu, depth limit and starting node; results compared with all paths of the model."),
    "C18": (SEARCH, "Every problem of the menu, comparison and depth limit; the pending set is tracked to check the order of expansion."),
    "C19": (SEARCH, "All call sequences up to the bound on every problem of the menu, plus every (state, call, next state) triple."),
    "C20": (ENUM, "All propositions, states, calls and white-space variants in the bound; every printed formula is re-read and its truth table compared."),
    "C21": (OPS, "All sequences of builder calls and formula-helper terms in the bound, driven through the real Python module and the real loader."),
    "C22": (OPS, "All histories of object additions and removals in the bound; after each step every query is compared with a freshly loaded problem."),
    "C23": (ENUM, "All domains and problems of a feature grid, from text and from files; every listed member compared with the source; error inputs."),
    "C24": (OPS, "All interleavings of queries, iterations, copies and destructions in the bound; every answer compared with a fresh problem's."),
    "C25": ("fault enumeration over clock readings: every reading is given a jump, on the real search loop with a scripted clock",
            "Every reading of the clock at which the limit can be exceeded, for every problem of the menu."),
    "C26": (ENUM, "Every effect and axiom set of the grammar in every three-valued state, against all completions."),
    "C27": (ENUM, "Every axiom set in the bound, every complete and three-valued state; normal forms compared in every consistent state."),
    "C28": (OPS, "Every registered function of the real Python module (through a stand-in of pybind11) on every problem of the menu; release orders of handles; under ASan/UBSan."),
    "C29": (SEARCH, "The real program run on every problem of the menu and every option list in the bound; its output read back and compared with all paths of the model."),
}
ps = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if not os.path.exists(f"{V}/harness/{i.lower()}.cc"):
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    t, note = T[i]
    m["checks"].append({"property": i, "quick_cmd": f"python3 run.py {i}",
                        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                        "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t,
                        "level": "model_checking", "level_note": note + " " + TRUST})
m["notes"] = ("No hooks in /repo: the checks compile /repo's sources as they are, with the parser library VAL replaced "
              "by the stand-in in val/.  run.py <id> --replay <file> re-runs a reported case.")
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
