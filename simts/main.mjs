// simts: seeded simulation of the browser packages.
//   check ID --seed N --runs N --secs N --workers N --out FILE --replay-dir DIR
//   replay FILE | log ID --seed N --runs N | show ID --seed N --run I
import { readFileSync, writeFileSync, mkdirSync, openSync, writeSync, rmSync } from "node:fs";
import { fork } from "node:child_process";
import { fileURLToPath } from "node:url";
import { PREVIEW } from "./preview.mjs";
import { WEB } from "./web.mjs";

const OUT = import.meta.dirname;
const PROPS = { ...PREVIEW, ...WEB };
process.on("unhandledRejection", () => {});

const args = process.argv.slice(2);
const opt = (name, dflt) => {
  const i = args.indexOf("--" + name);
  return i >= 0 ? args[i + 1] : dflt;
};

const sources = new Map();
function source(p) {
  for (const b of p.bundles) if (!sources.has(b)) sources.set(b, readFileSync(`${OUT}/${b}.js`, "utf8"));
  return p.bundles.length === 1 && p.plain ? sources.get(p.bundles[0]) : Object.fromEntries(p.bundles.map((b) => [b, sources.get(b)]));
}

const runSeed = (seed, i) => `${seed}.${i}`;

async function minimise(p, sc, v, budget) {
  const end = Date.now() + budget * 1000;
  let trials = 0;
  const still = async (c) => {
    trials++;
    const r = await execute(p, c);
    return r.violation && r.violation.what === v.what ? r.violation : undefined;
  };
  let best = sc;
  for (let changed = true; changed && Date.now() < end; ) {
    changed = false;
    for (const key of ["ops", "faults"]) {
      for (let size = Math.max(1, (best[key] || []).length >> 1); size >= 1; size >>= 1) {
        for (let i = 0; i + size <= (best[key] || []).length && Date.now() < end; ) {
          const c = { ...best, [key]: best[key].filter((_, k) => k < i || k >= i + size) };
          const w = await still(c);
          if (w) {
            best = c;
            v = w;
            changed = true;
          } else i++;
        }
      }
    }
    for (const s of [{ stall: 0 }, { jitter: 0 }, { canvas: 1 }]) {
      if (Date.now() > end || Object.keys(s).every((k) => best.sched[k] === s[k])) continue;
      const c = { ...best, sched: { ...best.sched, ...s } };
      const w = await still(c);
      if (w) {
        best = c;
        v = w;
        changed = true;
      }
    }
    if (p.simplify) {
      for (const c of p.simplify(best)) {
        if (Date.now() > end) break;
        const w = await still(c);
        if (w) {
          best = c;
          v = w;
          changed = true;
          break;
        }
      }
    }
  }
  return { scenario: best, violation: v, trials };
}

/// A run whose code under test throws out of a call or never returns breaks the
/// property as well: the first is caught here, the second by the parent (below).
async function execute(p, sc, trace) {
  try {
    return await p.run(sc, source(p), trace);
  } catch (e) {
    return { violation: { what: "exception", detail: { error: String(e?.stack || e).slice(0, 800) } }, hash: 0, steps: 0, time: 0, counts: {}, faults: {}, nontrivial: true };
  }
}

const STUCK_S = 30;

async function worker(pid) {
  const p = PROPS[pid];
  const mark = openSync(opt("mark"), "w");
  const buf = Buffer.alloc(12);
  const seed = opt("seed", "1");
  const runs = Number(opt("runs", "1000"));
  const end = Date.now() + Number(opt("secs", "60")) * 1000;
  const [k, n] = opt("part", "0/1").split("/").map(Number);
  const st = { done: 0, nontrivial: 0, hashes: [], steps: 0, time: 0, counts: {}, faults: {}, samples: [], violations: [], errors: [] };
  for (let i = k; i < runs && Date.now() < end; i += n) {
    const sc = p.scenario(runSeed(seed, i));
    buf.fill(0x20);
    buf.write(String(i));
    writeSync(mark, buf, 0, 12, 0);
    const r = await execute(p, sc);
    st.done++;
    st.steps += r.steps;
    st.time += r.time;
    for (const [a, b] of Object.entries(r.counts || {})) st.counts[a] = (st.counts[a] || 0) + b;
    for (const [a, b] of Object.entries(r.faults || {})) st.faults[a] = (st.faults[a] || 0) + b;
    if (r.nontrivial) {
      st.nontrivial++;
      st.hashes.push(r.hash);
    }
    if (r.nontrivial && st.samples.length < 1) st.samples.push({ run: i, scenario: sc, counts: r.counts, faults: r.faults });
    if (r.violation) {
      st.violations.push({ run: i, ...(await minimise(p, sc, r.violation, 8)) });
      break;
    }
  }
  process.send(st, () => process.exit(0));
}

async function check(pid) {
  const p = PROPS[pid];
  const n = Number(opt("workers", "8"));
  const t0 = Date.now();
  const parts = await Promise.all(
    Array.from({ length: n }, (_, k) => new Promise((res) => {
      const mark = `${OUT}/mark.${process.pid}.${k}`;
      writeFileSync(mark, "");
      const at = () => readFileSync(mark, "utf8").trim();
      const c = fork(fileURLToPath(import.meta.url), ["worker", pid, "--part", `${k}/${n}`, "--mark", mark, ...args.slice(2)], { stdio: ["ignore", "inherit", "ignore", "ipc"], execArgv: ["--max-old-space-size=2000"] });
      let got;
      let last = ["", Date.now()];
      let stuck = false;
      const watch = setInterval(() => {
        const now = at();
        if (now !== last[0]) last = [now, Date.now()];
        else if (Date.now() - last[1] > STUCK_S * 1000) {
          stuck = true;
          c.kill("SIGKILL");
        }
      }, 1000);
      c.on("message", (m) => (got = m));
      c.on("exit", (code, sig) => {
        clearInterval(watch);
        const run = at();
        rmSync(mark);
        if (got || run === "" || (!stuck && sig === "SIGKILL")) return res(got || { failed: sig || code });
        const what = stuck ? "does not end" : "out of memory";
        const violation = { what, detail: { seconds: stuck ? STUCK_S : undefined, exit: sig || code } };
        res({ done: 1, nontrivial: 1, steps: 0, time: 0, counts: {}, faults: {}, hashes: [], samples: [], errors: [],
          violations: [{ run: Number(run), scenario: p.scenario(runSeed(opt("seed", "1"), Number(run))), violation, trials: 0 }] });
      });
    }))
  );
  const tot = { done: 0, nontrivial: 0, steps: 0, time: 0 };
  const counts = {};
  const faults = {};
  const hashes = new Set();
  const samples = [];
  const violations = [];
  const errors = [];
  for (const x of parts) {
    if (x.failed !== undefined) {
      errors.push(`a worker ended with ${x.failed}`);
      continue;
    }
    for (const k of Object.keys(tot)) tot[k] += x[k];
    for (const [a, b] of Object.entries(x.counts)) counts[a] = (counts[a] || 0) + b;
    for (const [a, b] of Object.entries(x.faults)) faults[a] = (faults[a] || 0) + b;
    x.hashes.forEach((h) => hashes.add(h));
    samples.push(...x.samples);
    violations.push(...x.violations);
    errors.push(...x.errors);
  }
  const wall = (Date.now() - t0) / 1000;
  violations.sort((a, b) => a.run - b.run);
  const lines = [];
  for (const v of violations.slice(0, 1)) {
    const dir = opt("replay-dir", "/verif/replays");
    mkdirSync(dir, { recursive: true });
    const path = `${dir}/${pid}-${opt("seed", "1")}-${v.run}.json`;
    writeFileSync(path, JSON.stringify({ simulator: "simts", property: pid, seed: runSeed(opt("seed", "1"), v.run), run: v.run, violation: v.violation, scenario: v.scenario, minimisation_trials: v.trials }, null, 1));
    console.log("violation: " + JSON.stringify(v.violation).slice(0, 1500));
    lines.push(`VIOLATION property=${pid} replay=${path}`);
  }
  for (const e of errors.slice(0, 3)) console.error("simts: " + e);
  const ev = {
    evaluations: tot.done, distinct_nontrivial: hashes.size, nontrivial_runs: tot.nontrivial, rule: p.rule,
    samples: samples.slice(0, 2), runs_per_hour: Math.round((tot.done / Math.max(wall, 0.01)) * 3600), seeds_per_hour: Math.round((tot.done / Math.max(wall, 0.01)) * 3600),
    simulated_events: tot.steps, simulated_seconds: Math.round(tot.time / 1000), faults, activity: counts,
    real_components: p.real, stub_components: p.stub, harness_errors: errors.length, assumptions: p.assumptions || [],
  };
  writeFileSync(opt("out", "/dev/stdout"), JSON.stringify(ev, null, 1));
  lines.forEach((l) => console.log(l));
  if (lines.length) return 1;
  if (errors.length) return 3;
  console.log(`ok: ${tot.done} runs, ${hashes.size} distinct non-trivial, ${tot.steps} events, ${Math.round(tot.time / 1000)} simulated s, ${wall.toFixed(1)} s`);
  return 0;
}

/// In a child of its own, so that a run that does not end is reproduced too.
async function replay(path) {
  if (!args.includes("--inner")) {
    return await new Promise((res) => {
      const c = fork(fileURLToPath(import.meta.url), [...args, "--inner"], { execArgv: ["--max-old-space-size=2000"] });
      let stuck = false;
      const t = setTimeout(() => {
        stuck = true;
        c.kill("SIGKILL");
      }, STUCK_S * 1000);
      c.on("exit", (code) => {
        clearTimeout(t);
        if (code === 0 || code === 1) return res(code);
        console.log(JSON.stringify({ what: stuck ? "does not end" : "out of memory" }));
        console.log(`VIOLATION property=${JSON.parse(readFileSync(path, "utf8")).property} replay=${path}`);
        res(1);
      });
    });
  }
  const x = JSON.parse(readFileSync(path, "utf8"));
  const p = PROPS[x.property];
  const trace = [];
  const r = await execute(p, x.scenario, trace);
  if (args.includes("--trace")) console.log(trace.join("\n"));
  if (r.violation) {
    console.log(JSON.stringify(r.violation, null, 1));
    console.log(`VIOLATION property=${x.property} replay=${path}`);
    return 1;
  }
  console.log("not reproduced");
  return 0;
}

const [cmd, what] = args;
if (cmd === "check") process.exitCode = await check(what);
else if (cmd === "worker") await worker(what);
else if (cmd === "replay") process.exitCode = await replay(what);
else if (cmd === "log" || cmd === "show") {
  const p = PROPS[what];
  const one = opt("run");
  for (let i = one ? Number(one) : 0; i < (one ? Number(one) + 1 : Number(opt("runs", "20"))); i++) {
    const trace = cmd === "show" ? [] : undefined;
    const sc = p.scenario(runSeed(opt("seed", "1"), i));
    const r = await execute(p, sc, trace);
    if (trace) console.log(JSON.stringify(sc), "\n" + trace.join("\n"));
    console.log(i, r.hash, r.steps, Math.round(r.time), JSON.stringify(r.violation ?? null));
  }
} else if (cmd === "tally") {
  const p = PROPS[what];
  const by = new Map();
  for (let i = 0; i < Number(opt("runs", "300")); i++) {
    const r = await execute(p, p.scenario(runSeed(opt("seed", "1"), i)));
    const k = r.violation?.what ?? "quiet";
    if (!by.has(k)) by.set(k, []);
    by.get(k).push(i);
  }
  for (const [k, l] of by) console.log(l.length, k, l.slice(0, 12).join(" "));
} else {
  console.error("unknown command");
  process.exitCode = 2;
}
