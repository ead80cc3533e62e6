#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from entries (id, property, [(file, old, new)], needs, breaks, demo main body)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
subprocess.run("rm -rf /tmp/mkseed && git -C /repo worktree prune && git clone -q /repo /tmp/mkseed", shell=True, check=True)
pre = open(os.path.join(ROOT, "tools", "prelude.rs")).read()
for (i, prop, edits, needs, breaks, body) in ns["SEEDS"]:
    subprocess.run("git -C /tmp/mkseed checkout -q -- .", shell=True, check=True)
    for (f, old, new) in edits:
        p = "/tmp/mkseed/" + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{i}: {f}: {s.count(old)} occurrences of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(subprocess.run("git -C /tmp/mkseed diff", shell=True, capture_output=True, text=True).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.rs"), "w").write(pre + body)
    shutil.copy(os.path.join(ROOT, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    lock = open(os.path.join(ROOT, "harness", "Cargo.lock")).read()
    open(os.path.join(d, "demo.lock"), "w").write(lock.replace('name = "gvas-harness"', 'name = "demo"'))
subprocess.run("rm -rf /tmp/mkseed", shell=True)
