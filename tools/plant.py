#!/usr/bin/env python3
"""Helper used while writing planted bugs: records a change to /repo as a diff under seeded/<id>."""
import difflib, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Run in the repository root after the build. Exit 0: behaves; nonzero: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "${t:?}"' EXIT
%s || exit 3
timeout 250 "$t/demo"
'''

def plant(id, prop, edits, needs, what, demo_c, build=None, demo_sh=None):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, old, rep in edits:
        s = new.get(f) or open(os.path.join("/repo", f)).read()
        assert s.count(old) >= 1, (id, f, "not found", old)
        assert s.count(old) == 1, (id, f, "ambiguous", s.count(old))
        new[f] = s.replace(old, rep, 1)
    diff = ""
    for f, s in new.items():
        a = open(os.path.join("/repo", f)).read().splitlines(True)
        diff += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo_c is not None:
        open(os.path.join(d, "demo.c"), "w").write(demo_c)
    b = build or 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -o "$t/demo"'
    sh = demo_sh if demo_sh is not None else DEMO % b
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(sh)
    os.chmod(p, 0o755)
