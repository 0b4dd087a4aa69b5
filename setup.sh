#!/bin/bash
# Nothing to build: the checks are Python and import /repo in place.
cd "$(dirname "$(realpath "$0")")" || exit 1
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys, json
for m in ('numpy', 'pandas', 'scipy', 'pygit2', 'ply', 'bidict', 'tqdm'):
    __import__(m)
json.load(open('MANIFEST.json'))
print('setup ok')
P
