"""mkseed.py <id> <property> <file in repo> <<< JSON-free python spec: reads a python file defining OLD, NEW (or EDITS), NEEDS, BREAKS, DEMO."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
folder = os.path.join(HERE, "seeded", spec["ID"])
os.makedirs(folder, exist_ok=True)
work = f"/tmp/mkseed-{spec['ID']}"
shutil.rmtree(work, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
for path, old, new in spec["EDITS"]:
    p = os.path.join(work, path)
    text = open(p).read()
    assert text.count(old) == 1, (path, text.count(old), old)
    open(p, "w").write(text.replace(old, new))
diff = subprocess.run(["git", "-C", work, "diff"], capture_output=True, text=True, check=True).stdout
open(f"{folder}/patch.diff", "w").write(diff)
open(f"{folder}/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
open(f"{folder}/demo.sh", "w").write('''#!/bin/bash
# Fails if the property is broken. Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/home" "$scratch/tmp" "$scratch/work"
export HOME=$scratch/home TMPDIR=$scratch/tmp PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$PWD/core"
export LC_ALL=C.UTF-8
unset XDG_CACHE_HOME
cd "$scratch/work" || exit 1
timeout 250 /opt/venv/bin/python "$here/demo.py"
''')
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(f"{folder}/meta.json", "w"), indent=1)
shutil.rmtree(work)
