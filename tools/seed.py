#!/usr/bin/env python3
"""seed.py ID...: confirms planted bugs in a scratch copy (/tmp/seedcopy): patch applies, builds, stable tests pass,
demo.sh exits 0 without and non-zero with it.  --check also runs the check of its property against /repo with the patch."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/seedcopy"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def sh(cmd, cwd=None, t=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    only_check = "--only-check" in sys.argv
    check = "--check" in sys.argv or only_check
    if not only_check:
        sh(f"rm -rf {SC}; cp -a /repo {SC}")
        base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        p = os.path.join(d, "patch.diff")
        msg = []
        if not only_check:
            sh(f"git -C {SC} checkout -q -- .")
            r = sh(f"bash {d}/demo.sh", SC)
            msg.append("demo-clean:%s" % ("ok" if r.returncode == 0 else "BAD %d %s" % (r.returncode, r.stdout[-1500:])))
            r = sh(f"git -C {SC} apply {p}")
            if r.returncode:
                msg.append("APPLY FAILS " + r.stdout)
            r = sh(f"bash {d}/demo.sh", SC)
            msg.append("demo-bug:%s" % ("BAD" if r.returncode == 0 else "ok %d %s" % (r.returncode, r.stdout[-200:])))
            sh(f"sed 's#cd /repo#cd {SC}#' /opt/vp/test.sh > /tmp/seedtest.sh")
            r = sh("bash /tmp/seedtest.sh /tmp/seedtest.json")
            try:
                res = json.load(open("/tmp/seedtest.json"))
                msg.append("tests: %s" % summarise(base, res))
            except Exception as e:
                msg.append("tests BAD %r %s" % (e, r.stdout[-1000:]))
            sh(f"git -C {SC} checkout -q -- .")
        if check:
            prop = json.load(open(os.path.join(d, "meta.json")))["property"]
            try:
                r = sh(f"git -C /repo apply {p}")
                if r.returncode:
                    msg.append("APPLY FAILS " + r.stdout)
                r = sh(f"./check {prop}", ROOT)
            finally:
                sh("git -C /repo checkout -q -- .")
            msg.append("check %s: %s %s" % (prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN"), r.stdout[-700:]))
        print(i, " | ".join(msg), flush=True)
    if not only_check:
        sh(f"rm -rf {SC}")


def summarise(base, res):
    def passed(x):
        for k in ("passed", "stable", "stable_pass", "tests"):
            if isinstance(x, dict) and k in x:
                v = x[k]
                return set(v if isinstance(v, list) else [n for n, o in v.items() if o in (True, "pass", "passed", "ok")])
        raise KeyError(str(x)[:300])
    miss = passed(base) - passed(res)
    return "ok" if not miss else "FAILING %s" % sorted(miss)[:5]


main()
