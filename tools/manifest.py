#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run with python3-vt to validate)."""
import json
OPS = "exhaustive enumeration of all small automata and of structured larger ones with all bounded deviations; real code run on each, language compared by complete search of the product with a reference model"
T = {
 "P01": "explicit-state search of the product of the real evaluator and a reference model over all small DFAs; every word and every way to feed it up to a bound",
 "P02": "explicit-state search of the product of the real evaluator and a subset-construction model over all small NFAs; every word and every way to feed it up to a bound",
 "P03": OPS, "P04": OPS, "P05": OPS, "P06": OPS, "P11": OPS,
 "P12": OPS + "; iterator stepped against the model's word list",
 "P07": OPS + "; all pairs, all boolean combinations", "P08": OPS + "; all pairs",
 "P09": "exhaustive enumeration of all pairs of small DFAs and of structured larger ones with bounded deviations; real verdict compared with complete search of the product of reference models",
 "P10": "exhaustive enumeration of all pairs of small NFAs and of structured larger ones with bounded deviations; real verdict compared with complete search of the product of reference models",
 "P13": "exhaustive enumeration of small automata under all assignments of hostile names and symbols; real printer and parser composed and the result compared state by state",
 "P14": "exhaustive enumeration of all texts over the format's tokens up to a length and of all bounded edits of valid tables; real parser compared with a reference reader",
 "P15": "exhaustive enumeration of small tables with every combination of defects; real verdict and reason compared with a reference validator",
 "P16": "exhaustive enumeration of all expression texts up to a length; real parser and translation compared with a reference grammar and position automaton on all words by product search",
 "P17": "exhaustive enumeration of all loadable expressions up to a size; real printer and parser composed, meaning compared on all words by product search",
 "P18": "explicit-state breadth-first search over all sequences of library operations on real objects, each step compared with the reference language algebra on all words",
 "P19": "exhaustive exploration of all call histories of the real registry up to a depth against a model of live handles",
 "P20": "exhaustive enumeration of kinds, options and file contents with every outcome; the real binary run on each and compared with a reference model's verdicts by product search",
 "P21": "exhaustive enumeration of operations, input kinds, options and contents; the real binary's output automaton compared on all words with the reference language algebra by product search",
 "P22": "exhaustive enumeration of commands, input kinds, amounts and modes; the real binary's output compared with the model's word lists and verdicts",
 "P23": "exhaustive enumeration of commands, logging options and output-file states; the real binary's file, standard output and plain run compared",
 "P24": "exhaustive enumeration of small automata and label assignments; the real drawing read back and compared with the model's transition relation",
 "P25": "exhaustive enumeration of small automata and drawing options; the real calls on a recording surface, and what the egui and web canvas surfaces show, read back and compared with the model's transition relation",
 "P26": "exhaustive enumeration of all texts over hostile characters up to a length, of all bounded edits of valid texts and of all big shapes; real loaders and operations run on each, twice",
 "P27": "exhaustive enumeration of small automata, expressions and texts under a bounded set of owned hash seeds, each on a fresh thread; all outcomes of the real code compared across seeds",
 "P28": "exhaustive enumeration of all sequences of user actions up to a depth and of texts up to a bound; the real viewer run in a scripted window, every picture read back and compared with the model's state",
}
PENDING = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
known = set()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": "model checking: " + T[i], "level": "model_checking",
            "level_note": "Holds for every member of the enumerated spaces (bounds in DESIGN.md and per family in the evidence file), decided on the real code compiled from /repo; nothing is said beyond the bounds. Trusts the reference model in mc/src, rustc and std."})
    else:
        na.append({"property": i, "reason": PENDING.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API, the drawing trait, the browser bindings as plain functions and the built command line binary. Hash randomization is owned by replacing getrandom in the harness process."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(checks), "checks", len(na), "not claimed")
except ImportError:
    print("not validated")
