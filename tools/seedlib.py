"""Helper to write /verif/seeded/<id>: seed(id, property, [(file, old, new), ...], demo, needs, breaks).
The edits are made in a temporary copy of /repo's HEAD, the patch is the git diff."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export HOME=$W XDG_CACHE_HOME=$W/cache XDG_DATA_HOME=$W/data TMPDIR=$W PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
mkdir -p "$W/cache" "$W/data"
timeout 250 /opt/venv/bin/python "$D/demo.py"
'''


def seed(id, prop, edits, demo, needs, breaks):
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
