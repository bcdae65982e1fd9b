"""Writes MANIFEST.json from the check modules present (run by hand after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = {
    "C01": ("exhaustive enumeration of a bounded space of object trees, each written and read by the real code",),
    "C02": ("exhaustive enumeration of model-rendered documents and spellings, read by the real code and compared with the model",),
    "C03": ("exhaustive exploration of object trees and edit histories, output compared with a reference writer after every step",),
    "C04": ("exhaustive enumeration of (document, position, malformed text) faults against a reference reader",),
    "C05": ("exhaustive enumeration of object trees x verbosity levels against a reference writer with the schema defaults",),
    "C06": ("exhaustive enumeration of bounded geometries x construction routes x options on the real code",),
    "C07": ("exhaustive enumeration of coordinates x precisions x element types against exact decimal rounding",),
    "C08": ("exhaustive enumeration of calendar values, resolutions, offsets and positions against an XML Schema time model",),
    "C09": ("exhaustive exploration of track entry sequences, edit histories and nestings against a list-of-triples model",),
    "C10": ("exhaustive enumeration of (document, query) pairs and edit histories against a reference search",),
    "C11": ("exhaustive pairwise exploration of object variants against canonical-form equality; repr evaluated",),
    "C12": ("exhaustive exploration of switch/read/write/validate histories over the XML back ends, differential oracle",),
    "C13": ("exhaustive exploration of operation sequences with snapshots of every live object and of the global state",),
    "C14": ("exhaustive exploration of file histories and enumeration of every serialisation fault point on scratch files",),
    "C15": ("exhaustive exploration of validation histories against an independently loaded schema; exhaustive valid documents",),
    "C16": ("exhaustive enumeration of namespace/prefix assignments and read histories against the model reader",),
    "C17": ("exhaustive enumeration of (type, kind, registration order) extensions in isolated processes",),
    "C18": ("stateless model checking of real threads: all interleavings up to a preemption bound under a controlled scheduler",),
    "C19": ("exhaustive exploration of edit histories against reference accessors after every step",),
}
NOTE = (
    "Every case of the stated finite space is executed on the code in /repo's working tree and compared with a reference model "
    "(mc/spec.py, mc/model.py) that is independent of the library's registry; a pass means no violation within the bound written "
    "to the evidence file. Trusted: Python, lxml/libxml2, expat, arrow, pygeoif, and the reference model."
)
ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        cmd = "/opt/venv/bin/python -B mc/run.py %s" % i
        checks.append({
            "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
            "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + TECH[i][0],
            "level": "model_checking", "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B mc/selfcheck.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks observe the public API only. /repo carries fix: commits only (see known_findings.txt)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
