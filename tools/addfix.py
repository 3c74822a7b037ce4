"""usage: addfix.py <property> <words of the fix commit's subject> <what failed>: record a repaired defect."""
import json
import subprocess
import sys
p = '/verif/known_findings.json'
d = json.load(open(p))
prop, grep, what = sys.argv[1:4]
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-1", "--fixed-strings", "--grep=" + grep], text=True).strip()
assert h, grep
d['findings'].append({"id": "fix-" + h, "property": prop, "status": "fixed", "keys": [], "commit": h, "what": "fixed: property=%s %s %s" % (prop, h, what)})
with open(p, 'w') as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
    f.write("\n")
