"""mkbug(id, property, edits, demo_rs, needs, breaks): writes /verif/seeded/<id> from textual edits of /repo's HEAD"""
import json, os, shutil, subprocess, sys
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Copies demo.rs beside the program's integration tests for the time of this run and runs it alone.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
cd /repo || exit 2
n=zz_demo_NAME
f=%(dir)s/tests/$n.rs
trap 'rm -f "/repo/$f"' EXIT
cp "$d/demo.rs" "$f" || exit 2
timeout 280 cargo test -p %(pkg)s --offline --locked --test "$n" -- --test-threads 4
'''
def mkbug(id, prop, edits, demo, needs, breaks, pkg="spl-token-wrap", dir="program", sh=None):
    w = "/tmp/mkbug"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT", f, "matches", s.count(old), repr(old[:60])); return False
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    if sh is None:
        sh = DEMO.replace("NAME", id.replace("-", "_")) % dict(pkg=pkg, dir=dir)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    return True
