"""Writes MANIFEST.json (the list of claimed properties = the check modules present)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
    "C01": "Complete over all words of the stated lengths and, because dev^2 is a quadratic form fixed by its values on e_i+e_j, over all real series up to the basis length; larger N on witness series.",
    "C02": "As C01; dev^2 of these statistics is a quadratic form too. Trusted: the 80-bit reference in mc/refs.py.",
    "C12": "The generators are linear in their draws: the zero and basis scripts fix the filter for every outcome of the generator. Only the law is judged, not the order of draws.",
    "C13": "As C12; ensemble averages follow exactly from the recovered filter, no sampling.",
    "C19": "As C12.",
    "C23": "The interleavings of two real threads are enumerated by a trace function that stops one thread at a chosen line or bytecode of the library and runs the other; up to two preemptions. Calls into numpy and scipy are atomic steps.",
}
DEFAULT = ("Every execution within the bounds in the evidence file ran on the real code and agreed with the reference model; nothing is claimed "
           "beyond the bounds. Trusted: the reference model (mc/), numpy/scipy primitives, the Python runtime.")
claimed = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(HERE, "mc/checks/C*.py")))
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import numpy, scipy, matplotlib\"",
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the public functions of the unmodified tree; the Gaussian generator is replaced in-process", "source_commits": []},
     "checks": [], "not_applicable": [{"property": p["id"], "reason": "not yet built"} for p in props if p["id"] not in claimed],
     "notes": "One explorer (mc/engine.py) enumerates all decisions of each harness depth first on the real code. VERIF_SEED only rotates the order of subtrees."}
for p in props:
    if p["id"] in claimed:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s" % p["id"],
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "stateless model checking: all interleavings of two threads running the real code, up to a preemption bound" if p["id"] == "C23" else
                         "stateless model checking: bounded exhaustive enumeration of inputs, configurations and call histories on the real code against a reference model",
            "level": "model_checking", "level_note": (NOTE.get(p["id"], "") + " " + DEFAULT).strip()})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
