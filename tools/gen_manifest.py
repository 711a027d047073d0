# -*- coding: utf-8 -*-
"""Writes /verif/MANIFEST.json from the properties and the checks present"""
import importlib
import json
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, os.environ.get("DSV_REPO", "/repo") + "/src")
sys.dont_write_bytecode = True

NOT_BUILT = "no check has been built for this property"
NOTES = {}

checks = []
missing = []
for line in (HERE / "properties.jsonl").read_text("utf8").splitlines():
    prop = json.loads(line)["id"]
    mod = HERE / "checks" / (prop.lower() + ".py")
    if not mod.exists():
        missing.append({"property": prop, "reason": NOTES.get(
            prop, NOT_BUILT
        )})
        continue
    m = importlib.import_module("checks." + prop.lower())
    cls = getattr(m, prop)
    technique = getattr(cls, "technique", None) or {
        "model_checking": "explicit-state exploration of the real code "
        "against a reference model",
        "exploration": "bounded exhaustive enumeration of executions of the "
        "real code against a reference model",
        "fault_enumeration": "exhaustive enumeration of fault points in the "
        "real code",
    }[cls.level]
    checks.append({
        "property": prop,
        "quick_cmd": "./run_check.sh {} --tier quick".format(prop),
        "thorough_cmd": "./run_check.sh {} --tier thorough".format(prop),
        "technique": technique,
        "level": cls.level,
        "level_note": " ".join((cls.rule + " Assumes: " + "; ".join(
            cls.assumptions
        ) + ".").split()),
    })
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "The checks run the code of /repo's working tree directly "
    "(python, nothing to build); /verif/DESIGN.md has the details.",
}
(HERE / "MANIFEST.json").write_text(
    json.dumps(manifest, ensure_ascii=False, indent=1) + "\n", "utf8"
)
print(len(checks), "checks", len(missing), "missing")
