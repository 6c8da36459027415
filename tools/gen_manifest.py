"""Writes MANIFEST.json: a check for every checks/cNN.py, the rest under not_applicable."""
import ast, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "explicit enumeration of a bounded space of executions of the real code (operation histories, inputs and "
               "configurations), every step compared with a reference model",
    "C03": "explicit-state breadth-first search over operation histories of the real objects, states deduplicated on "
           "their full contents",
    "C05": "stateless model checking: all preemption-bounded interleavings of real worker processes under a controlled "
           "scheduler",
    "C06": "explicit-state search over all interleavings of the real async code on controlled queues and processes, plus "
           "conformance runs with real processes",
    "C11": "explicit enumeration of configurations and of every outcome of the random ranking on the real code, "
           "compared with a brute-force selection",
    "C21": "exhaustive fault injection (exception, SIGKILL) at every data access and processing step of the real code, "
           "followed by recovery",
    "C27": "exhaustive fault injection (I/O error, interrupt, lack of memory) at every file access and matrix product of the "
           "real code, singly and in pairs, followed by a repetition of the operation",
    "C28": "exhaustive fault injection at every access of every process, in every interleaving (explicit-state search over the "
           "real code on controlled queues and processes), plus the same faults with real processes",
    "C25": "explicit enumeration of every outcome of the random choices on the real code",
}
NA = {"C26": "no CUDA device, pycuda or skcuda in this sandbox: the GPU solver cannot even be imported, so no execution "
             "of it can be explored"}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(here, "checks", p.lower() + ".py")
    if os.path.exists(f):
        v = {}
        for node in ast.parse(open(f).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "RULE", "ASSUMPTIONS"):
                v[node.targets[0].id] = ast.literal_eval(node.value)
        lvl = v["LEVEL"]
        note = "Exhaustive on the real code within these bounds: %s. Assumes: %s." % (v["RULE"], "; ".join(v["ASSUMPTIONS"]))
        checks.append({"property": p, "level": lvl, "technique": TECH.get(p, TECH["default"]),
                       "level_note": note, "quick_cmd": "bash check.sh %s quick" % p, "thorough_cmd": "bash check.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])
