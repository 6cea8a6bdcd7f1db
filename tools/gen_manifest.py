"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ (TLC): %s"
NEWTON = "exhaustive exploration of Newton.tla, its histories replayed in the real solver, and validation of recorded resolutions against it (NewtonTrace.tla)"
TRACE = "validation of recorded resolutions against Newton.tla (NewtonTrace.tla)"
PAIR = "lockstep comparison of recorded resolutions (PairTrace.tla)"
NOTE = ("The specification satisfies the property on the finite configurations explored by TLC; the real solver is bound to it by "
        "trace validation over exported histories and seeded random problems, so a violation is found when one of the explored scenarios shows it. "
        "Trusted: the recording harness, the rounding bounds of the specification, Java doubles, TLC.")
HOW = {}
for k in range(1, 17):
    HOW["C%02d" % k] = NEWTON
HOW["C16"] = NEWTON + " and " + PAIR
HOW["C17"] = PAIR + ", of the histories of an exhaustive exploration of Newton.tla and of random ones"
HOW["C18"] = TRACE + ", log included"
HOW["C19"] = TRACE + ", log read at every call of the model, model panics injected"
HOW["C23"] = PAIR
CALL = " and of single calls of the documented functions (CallTrace.tla)"
STORE = ", of sequences of operations on the jacobian store (StoreTrace.tla)"
for i in ("C07", "C13", "C14"):
    HOW[i] += STORE + CALL
for i in ("C08", "C15"):
    HOW[i] += CALL
HOW["C11"] += STORE
HOW["C20"] = HOW["C21"] = "exhaustive exploration of a reader of all documents one edit (thorough: two) from valid ones (MCXml.tla), the documents and seeded random ones read by the real parser and judged by XmlConf.tla (XmlTrace.tla)"
HOW["C22"] = "exhaustive exploration of the constructors' guards over classes of values (MCParams.tla), the calls and seeded random ones replayed on the real constructors (ParamsTrace.tla)"
HOW["C28"] = NEWTON + ", texts of the errors included"
HOW["C24"] = "exhaustive exploration of all operation sequences up to a length (MCStore.tla), replayed with seeded random ones on the real store (StoreTrace.tla)"
HOW["C25"] = PAIR + " configured in different ways, of the histories of an exhaustive exploration of Newton.tla and of random ones"
HOW["C26"] = "exhaustive exploration of Newton1D.tla (MCNewton1D.tla), its histories replayed in the real one-dimensional solver with seeded random problems, and validated (OneDimTrace.tla)"
HOW["C27"] = "exhaustive check on grids that the derivatives specified are those of the functions specified (MCProblems.tla), validation of the values of the real functions, jacobians, guesses and solutions (ProblemTrace.tla)"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
               technique=T % HOW[i], level="model_checking", level_note=NOTE) for i in ids if i in HOW]
na = [dict(property=i, reason="check under construction") for i in ids if i not in HOW]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo: the harness uses the public API."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
