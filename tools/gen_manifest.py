"""Writes MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = {
 "C01": "proptest: generated poses against a reference quaternion algebra, inverse and composition laws",
 "C02": "proptest: generated quaternions; euler angles rebuilt into the same rotation",
 "C03": "proptest: generated boxes against an independent footprint and distance model",
 "C04": "proptest: object pairs against the reference centre distance, with metamorphic relations",
 "C05": "proptest: object pairs against the set of admissible plane distances, with metamorphic relations",
 "C06": "proptest: box pairs against an independent polygon clipping, with metamorphic relations",
 "C07": "proptest: box pairs against an independent volume intersection, with metamorphic relations",
 "C08": "proptest: threshold monotonicity, symmetry and argument laws over generated pairs",
 "C09": "proptest: generated frames; validity of the whole assignment (greedy nearest first, one to one)",
 "C10": "proptest: generated frames and pairings against a reference partition",
 "C11": "proptest: generated object lists against the filter's specification, idempotence and order",
 "C12": "proptest: generated target lists against a linear lookup",
 "C13": "proptest: generated histories against a reference precision-recall integration",
 "C14": "proptest: metamorphic relations over generated histories (order, duplication, extremes)",
 "C15": "proptest: stateful operation sequences on the manager against a model, invariants after each step",
 "C16": "proptest: generated time lines against a reference nearest search",
 "C17": "proptest: generated datasets written as files, loaded and compared record by record with the model",
 "C18": "proptest: edits and byte damage of generated datasets; verdicts of an independent validator; no panics",
 "C19": "proptest: generated datasets; ground truth frames against the model's transforms",
 "C20": "proptest: boxes of every sensor data record against the model's transforms; move sequences undone",
 "C21": "proptest: round-trips of every record type through JSON; token texts against a recogniser",
 "C22": "proptest: generated point cloud and image files, also damaged or missing, against what was written",
 "C23": "proptest: sequences of generated scenario files; configurations observed through their behaviour",
 "C24": "proptest: edited, damaged and arbitrary scenario files and unusable paths; error expected, never a panic",
 "C25": "proptest: label names in any letter case and arbitrary text against the name tables",
 "C26": "proptest: task and frame names and arbitrary text against the name tables",
 "C27": "proptest: stateful sessions of logging calls against a model of the files",
 "C28": "proptest: end-to-end evaluation of generated datasets and scenarios against closed-form scores",
 "C29": "proptest: generated evaluations, objects and frames; the printed text read back and compared",
 "C30": "proptest: object pairs differing in a generated subset of fields against a fieldwise model",
 "C31": "proptest: generated sessions on valid and damaged datasets; snapshots of the directories compared",
 "C32": "proptest: generated turn orders, copies and threads; each evaluation compared with its run alone",
}
NOTE = "Random search over the inputs described in DESIGN.md with a fixed number of cases per run, seeded by VERIF_SEED; every failure is shrunk and replayable. It finds violations, it cannot prove their absence. Trusts the reference models in harness/src, proptest and rustc; inputs are finite numbers in the generated ranges."
props = [json.loads(l) for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]],
   "level": "exploration",
   "level_note": NOTE,
  }
  for p in props
 ],
 "not_applicable": [],
 "notes": "No hooks: the checks use the public interface only. Replay a violation with ./check.sh <ID> --replay FILE. known_findings.txt lists the defects that were found and fixed.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
