#!/usr/bin/env python3
"""Development: writes /verif/seeded/<id>/ from a description.
usage: mkplant.py FILE   FILE defines bug(id, prop, file, [(old,new)...] , needs, breaks, demo)"""
import json, os, subprocess, sys, tempfile, shutil
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O0 -w -DOPENSEMBA_VERSION='"0.14"' -Iexternal -Iexternal/json -Iexternal/gidpost/source -Isrc -Isrc/core \\
    "$here/demo.cpp" -Wl,--start-group _build/lib/*.a -Wl,--end-group -lz -lpthread -o "$t/demo" || exit 3
cd "$t" && exec_it() { timeout 60 ./demo; }
exec_it
'''
def bug(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkplant")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/w", "HEAD"])
    try:
        for f, old, new in edits:
            p = os.path.join(w, "w", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        out = subprocess.check_output(["git", "-C", w + "/w", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/w"])
        shutil.rmtree(w)
    open(d + "/patch.diff", "wb").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
exec(open(sys.argv[1]).read())
