"""Write seeded/<id>/ from the entries of tools/seeds.py: python3 tools/mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
for sid, s in SEEDS.items():
    if sys.argv[1:] and sid not in sys.argv[1:]:
        continue
    tmp = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run("git -C /repo archive HEAD lips | tar x -C %s" % tmp, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=tmp, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(tmp, f)
        t = open(p).read()
        assert t.count(old) == 1, (sid, f, t.count(old), old[:80])
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=tmp, check=True, capture_output=True, text=True).stdout
    d = os.path.join(os.path.dirname(HERE), "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONPATH="$PWD" PATH=/opt/venv/bin:$PATH
/opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
    shutil.rmtree(tmp)
    print("wrote", sid)
