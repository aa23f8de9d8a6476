#!/usr/bin/env python3
"""seeded.py ID... [--full] [--props C01,C02]: applies each planted bug to /repo, runs its demo and the
check of its property (with --full also the build and the tests), and undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
full = "--full" in args
nodemo = "--nodemo" in args
props = None
if "--props" in args:
    i = args.index("--props")
    props = args[i + 1].split(",")
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    t = time.time()
    p = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
    return p.returncode, time.time() - t, p.stdout[-300:]


assert sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout == ""
if full:
    b = sh(["bash", "/opt/vp/build.sh"]); assert b.returncode == 0, b.stdout[-2000:]
    for i in ids:
        r = demo(os.path.join(V, "seeded", i))
        print(f"{i}: demo on the unchanged tree: {r[0]} ({r[1]:.0f} s) {r[2] if r[0] else ''}", flush=True)
for i in ids:
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(d + "/meta.json"))["property"]
    a = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode:
        print(f"{i}: patch does not apply: {a.stdout}", flush=True)
        continue
    try:
        line = f"{i} ({pid}):"
        if full:
            b = sh(["bash", "/opt/vp/build.sh"])
            if b.returncode:
                print(line, "DOES NOT BUILD", b.stdout[-1500:], flush=True)
                continue
            sh(["bash", "/opt/vp/test.sh", "/tmp/out.json"])
            o = json.load(open("/tmp/out.json"))
            passed = set(o.get("passed", []))
            line += f" tests {'pass' if base <= passed else 'FAIL ' + str(sorted(base - passed)[:5])};"
            if not nodemo:
                r = demo(d)
                line += f" demo {r[0]} ({r[1]:.0f} s);"
        for p in props or [pid]:
            t = time.time()
            c = sh(["python3", "run.py", "check", p, "quick"], cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            line += f" check {p}: {c.returncode} {'CAUGHT' if c.returncode == 1 else 'missed'} ({time.time() - t:.0f} s)"
            if c.returncode not in (0, 1):
                line += c.stdout[-500:]
            if v:
                try:
                    rp = json.load(open(os.path.join(V, v[0].split("replay=")[1])))
                    line += " " + json.dumps(rp.get("violation", {}), ensure_ascii=False)[:260]
                except Exception as e:
                    line += f" {v[0]}"
        print(line, flush=True)
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."])
        sh(["git", "-C", "/repo", "clean", "-fdq", "crates", "packages"])
