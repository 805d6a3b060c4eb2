#!/usr/bin/env python3
"""Regenerate MANIFEST.json. Claimed: every property with an entry in NOTES."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit-state enumeration of API traces on the real crate, conformance against a reference model"
NOTES = {
 "C01": (T, "Exhaustive over the listed product of poses, intrinsics, points, batch sizes and scalar types, refined until the library's own comparisons show both outcomes. Trusts the double-double reference model and its rounding bound."),
 "C02": (T, "As C01, for the orthographic model, plus moves along the viewing direction."),
 "C03": ("exhaustive enumeration of conversion paths (pixel, ray, point, pixel) on the real crate", "Every conversion path up to the length bound, over products of cameras and pixels. Trusts the rounding bound carried by the model."),
 "C04": (T, "Exhaustive over rotations x centers x points and all batch sizes listed."),
 "C05": ("exhaustive enumeration of words of pose rebuild routes on the real crate", "All words up to the length bound over seven rebuild routes; every accessor compared with the model after every step."),
 "C06": (T, "Exhaustive over center x viewing direction x distance x up vector."),
 "C07": (T, "Exhaustive over bundle kinds, origins, directions, distances, sizes."),
 "C08": ("exhaustive enumeration of words of rigid motions on the real crate", "All words up to the length bound over five motions and their inverses, for both bundle kinds."),
}
exec(open(os.path.join(here, "tools/notes.py")).read()) if os.path.exists(os.path.join(here, "tools/notes.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash run.sh build",
     "checks": [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                 "technique": NOTES[i][0], "level": NOTES[i][2] if len(NOTES[i]) > 2 else "model_checking", "level_note": NOTES[i][1]} for i in ids if i in NOTES],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in NOTES]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
