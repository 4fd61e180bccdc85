"""seed(id, property, edits, needs, breaks, code, srcs): writes /verif/seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, demo.cpp, meta.json)."""
import os, json, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"; t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++23 -O1 -g -w %s -DALSA_F=1 -DFFTW=1 -Iinclude/maec "$here/demo.cpp" %s -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 60 ./demo
'''
def seed(id, prop, edits, needs, breaks, code, srcs=[], flags=""):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        out = ""
        files = []
        for f, a, b in edits:
            p = t + "/" + f
            if f not in files:
                os.makedirs(os.path.dirname(p), exist_ok=True); shutil.copy("/repo/" + f, p); files.append(f)
            s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, "w").write(s.replace(a, b))
        for f in files:
            r = subprocess.run(["git", "diff", "--no-index", "--no-color", "--src-prefix=a/", "--dst-prefix=b/", "/repo/" + f, t + "/" + f], capture_output=True, text=True).stdout
            r = r.replace("a//repo/" + f, "a/" + f).replace("a/repo/" + f, "a/" + f).replace("b/" + t + "/" + f, "b/" + f).replace("b" + t + "/" + f, "b/" + f)
            assert r; out += r
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.cpp", "w").write(code)
        open(d + "/demo.sh", "w").write(DEMO % (flags, " ".join(srcs))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally: shutil.rmtree(t)
