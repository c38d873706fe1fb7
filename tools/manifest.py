"""Regenerates MANIFEST.json from the specifications."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    try:
        s = importlib.import_module("specs." + p.lower())
    except ImportError:
        na.append({"property": p, "reason": "no check yet"})
        continue
    if s.LEVEL == "proof":
        tech = "contract-based deductive verification: contracts on the functions extracted from /repo's clang AST, obligations by cxxwp (weakest precondition style symbolic execution with loop invariants), discharged by z3/cvc5; failing inputs by a bounded harness on the real code"
        note = getattr(s, "NOTE", "All obligations of the listed functions discharged for all inputs; see evidence for functions, back ends and assumptions. ") + " Assumes: " + "; ".join(s.ASSUMPTIONS)
    else:
        tech = "contract-based deductive verification (cxxwp obligations discharged by z3/cvc5) of the functions listed in the evidence, with a bounded check of the compiled real code standing in for the rest of the property"
        note = getattr(s, "NOTE", "") + " Bounded part (not proved): " + s.BOUNDED_SCOPE + ". Assumes: " + "; ".join(s.ASSUMPTIONS)
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                   "technique": tech, "level": s.LEVEL, "level_note": note.strip()})
json.dump({"version": 1, "setup_cmd": "mkdir -p build evidence && python3-vt -c 'import z3'", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
