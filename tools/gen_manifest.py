#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a working check."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
DYN = "stateless model checking of the real code (exhaustive choice-tree exploration over transparent pairing groups, hash answers enumerated)"
REF = DYN + " against an executable reference model on every execution"
SCH = "stateless model checking of thread schedules of the real code (controlled work-stealing runtime, deviation-bounded)"
A = "Trusts ark-ff/ark-ec/ark-poly arithmetic and the transparent toy pairing groups standing in for the real curves (a second family of scenarios runs over BLS12-381); holds within the bounds listed in the evidence file."
CLAIMED = {
 "C01": (REF, "Every vector pair over F_3/F_5 up to length 3-4, every basis pair x length x pool size, dense 61-bit vectors for every length x pool size, scalars of every bit length over BLS12-381: exact result or error. " + A),
 "C02": (REF, "Every key, message and claimed commitment over F_3/F_7 at small lengths, all homomorphism laws, all length pairs. " + A),
}
exec(open(f"{here}/tools/claimed.py").read()) if os.path.exists(f"{here}/tools/claimed.py") else None
NOT = {}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {
  "guard": "cfg(ripp_verif)",
  "enable": "RUSTFLAGS='--cfg ripp_verif' (set by check.sh)",
  "source_commits": [l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines() if " verif:" in l],
 },
 "checks": [
  {"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]}
  for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NOT.get(i, "check not built yet")} for i in ids if i not in CLAIMED],
}
json.dump(m, open(f"{here}/MANIFEST.json","w"), indent=1)
