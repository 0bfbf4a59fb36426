"""Developer helper: plant(name, prop, file, [(old, new)...], needs, breaks, demo_c) writes seeded/<name>/."""
import json, os, subprocess, tempfile, shutil
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/bash
# run in the repository root after the build
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export ASAN_OPTIONS=detect_leaks=0
gcc -std=gnu11 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude -Iarch/generic/include -I_build/generated \\
    "$(dirname "$0")/demo.c" -Wl,--whole-archive _build/libbfdev.a -Wl,--no-whole-archive -lm -lpthread -o "$D/demo" || exit 99
timeout 100 "$D/demo"
'''
def plant(name, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", name)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    out = ""
    try:
        byf = {}
        for f, old, new in edits:
            s = byf.get(f) or open("/repo/" + f).read()
            assert s.count(old) == 1, (name, f, old, s.count(old))
            byf[f] = s.replace(old, new)
        for f, s in byf.items():
            for sub, txt in (("a", open("/repo/" + f).read()), ("b", s)):
                p = os.path.join(t, sub, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(txt)
            out += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.c", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
