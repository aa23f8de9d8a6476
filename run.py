#!/usr/bin/env python3
"""Driver of the checks: run.py check <ID> quick|thorough | setup | replay FILE

Builds the simulators from /repo's working tree, runs the one that decides the
property, writes evidence/<ID>.json, and exits 0 (held on everything explored),
1 (with a VIOLATION line) or 2 (the check itself could not be carried out).
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SIMRS = os.path.join(VERIF, "target/simrs/x86_64-unknown-linux-gnu/release/simrs")
REPLAYS = os.path.join(VERIF, "replays")

# property -> simulator, and (runs, seconds) per tier
CHECKS = {
    "C01": ("rs", (6000, 60), (150000, 780)),
    "C02": ("rs", (6000, 60), (150000, 780)),
    "C03": ("rs", (8000, 60), (150000, 780)),
    "C04": ("rs", (6000, 60), (150000, 780)),
    "C05": ("rs", (8000, 60), (200000, 780)),
    "C06": ("cli", (6000, 60), (400000, 780)),
    "C07": ("cli", (6000, 60), (400000, 780)),
    "C08": ("cli", (6000, 60), (400000, 780)),
    "C09": ("cli", (6000, 60), (400000, 780)),
    "C10": ("cli", (6000, 60), (400000, 780)),
    "C11": ("ts", (20000, 30), (4000000, 780)),
    "C12": ("ts", (20000, 30), (4000000, 780)),
    "C13": ("ts", (20000, 30), (4000000, 780)),
    "C14": ("ts", (12000, 35), (4000000, 780)),
    "C15": ("ts", (16000, 30), (4000000, 780)),
    "C16": ("ts", (100000, 25), (4000000, 780)),
    "C17": ("ts", (10000, 30), (4000000, 780)),
    "C18": ("ts", (8000, 30), (4000000, 780)),
    "C19": ("ts", (10000, 30), (4000000, 780)),
    "C21": ("cli", (4000, 60), (400000, 780)),
    "C22": ("cli", (3000, 50), (400000, 780)),
    "C20": ("ts", (12000, 30), (4000000, 780)),
}
LEVEL = {}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(which):
    t = time.time()
    env = dict(os.environ)
    env.pop("VERIF_TIER", None)
    p = subprocess.run(["bash", os.path.join(VERIF, "sim" + which, "build.sh")], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=env)
    if p.returncode != 0:
        log(p.stdout[-4000:])
        log(f"run.py: building the {which} simulator failed")
        sys.exit(2)
    return time.time() - t


def command(sim, pid, seed, runs, secs, out):
    a = ["--seed", str(seed), "--runs", str(runs), "--secs", str(secs), "--workers", "8", "--out", out,
         "--replay-dir", REPLAYS]
    if sim == "rs":
        return [SIMRS, "check", pid] + a
    if sim == "cli":
        return ["python3", os.path.join(VERIF, "simcli/sim.py"), "check", pid] + a
    if sim == "ts":
        return ["node", os.path.join(VERIF, "target/simts/sim.mjs"), "check", pid] + a
    raise SystemExit("no such simulator")


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sim, quick, thorough = CHECKS[pid]
    runs, secs = thorough if tier == "thorough" else quick
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    built = build(sim)
    part = os.path.join(VERIF, "target", f"{pid}.{os.getpid()}.json")
    env = dict(os.environ, RUST_BACKTRACE="0", HOME=os.environ.get("HOME", "/root"))
    p = subprocess.Popen(command(sim, pid, seed, runs, secs, part), stdout=subprocess.PIPE, text=True, env=env, cwd=VERIF)
    violations = []
    for line in p.stdout:
        print(line, end="", flush=True)
        if line.startswith("VIOLATION "):
            violations.append(line.strip())
    rc = p.wait()
    cov = {}
    try:
        with open(part) as f:
            cov = json.load(f)
        os.remove(part)
    except OSError:
        pass
    cov["build_s"] = round(built, 1)
    assumptions = cov.pop("assumptions", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violations:
        return 1
    if rc != 0:
        log(f"run.py: the simulator ended with {rc}")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        sim = json.load(f).get("simulator")
    which = {"simrs": "rs", "simcli": "cli", "simts": "ts"}[sim]
    build(which)
    cmd = {"rs": [SIMRS, "replay", path],
           "cli": ["python3", os.path.join(VERIF, "simcli/sim.py"), "replay", path],
           "ts": ["node", os.path.join(VERIF, "target/simts/sim.mjs"), "replay", path]}[which]
    return subprocess.run(cmd, cwd=VERIF, env=dict(os.environ, RUST_BACKTRACE="0")).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        for w in sorted({c[0] for c in CHECKS.values()}):
            log(f"built sim{w} in {build(w):.1f} s")
        return 0
    if a[:1] == ["check"] and len(a) == 3 and a[1] in CHECKS:
        return check(a[1], a[2])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(os.path.abspath(a[1]))
    print(__doc__)
    return 2


sys.exit(main())
