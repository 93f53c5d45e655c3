"""mkseed.py: seed(id, property, [(file, old, new)...], needs, breaks, demo_cpp, flags) writes seeded/<id>/"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, edits, needs, breaks, demo, flags="-std=gnu++20 -O1 -march=x86-64-v3"):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds for the demonstrated case; run with cwd = the repository
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
g++ {flags} -w -I"$PWD" "$H/demo.cpp" -o "$D/demo" || exit 1
timeout 120 "$D/demo"
""")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
