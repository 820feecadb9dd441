"""dev tool: make and check a planted bug.   seed(id, prop, [(file, old, new)...], needs, what, demo_py, extra files)"""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the tree under test
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
export HOME=$T IPYTHONDIR=$T/ipy JUPYTER_RUNTIME_DIR=$T/jrt TMPDIR=$T IPP_DISABLE_JS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export PYTHONPATH=$PWD:$D
mkdir -p "$T/ipy" "$T/jrt"
cd "$T"
timeout 200 /opt/venv/bin/python "$D/demo.py"
rc=$?
rm -rf "$T"
exit $rc
'''


def seed(id, prop, edits, needs, what, demo, extra=(), test=False):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(t, "w")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for e in extra:
            shutil.copy(os.path.join(HERE, "drivers", e), d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, capture_output=True, text=True)
        print(id, prop, "clean rc", a.returncode, "patched rc", b.returncode)
        if a.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:])
        if not b.returncode:
            print("NOT SHOWN", b.stdout[-500:])
        else:
            print("   ", (b.stderr.strip().splitlines() or [""])[-1][:200])
        return a.returncode == 0 and b.returncode != 0
    finally:
        shutil.rmtree(t)
