#!/usr/bin/env python3
"""Development tool: mkbug(id, prop, [(file, old, new)...], needs, breaks, demo) writes seeded/<id>/ from exact text replacements."""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RUN = r'''#!/bin/bash
# exit 0: behaves; nonzero: broken
G=$PWD/src/_build/goeland; T=$(mktemp -d); trap 'rm -r -f "$T"' EXIT
status() { # status FILE OPTIONS...
  f=$1; shift; (cd "$T" && timeout 20 "$G" "$@" "$f" 2>&1) | grep -o 'RES : .*VALID' | head -1; }
'''


def mkbug(id, prop, edits, needs, breaks, demo, files=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        for s in 'ab':
            for f, _, _ in edits:
                p = os.path.join(t, s, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join('/repo', f), p)
        for f, old, new in edits:
            p = os.path.join(t, 'b', f)
            x = open(p).read()
            assert x.count(old) == 1, (id, f, x.count(old), old)
            open(p, 'w').write(x.replace(old, new))
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=t, stdout=subprocess.PIPE, text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(''.join(
            l.split('\t')[0] + '\n' if l.startswith(('--- ', '+++ ')) else l for l in r.stdout.splitlines(True) if not l.startswith('diff ')))
    finally:
        shutil.rmtree(t)
    subprocess.run(['git', 'apply', '--check', os.path.join(d, 'patch.diff')], cwd='/repo', check=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(RUN + demo)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), 'w').write(c)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
