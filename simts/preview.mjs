// The preview's properties: scenarios and judgements.
import { Rng } from "./host.mjs";
import { World } from "./world.mjs";

const COLORS = ["white", "#242424", "#ff0000", "rgb(1, 2, 3)"];

function sched(r, calm) {
  return {
    seed: r.next(),
    jitter: calm || r.chance(200) ? 0 : r.range(1, 40),
    stall: calm ? 0 : r.pick([0, 0, 20, 80, 250]),
    canvas: r.pick([1, 10, 60, 250]),
  };
}

function genOps(r, cfg, n, o = {}) {
  const ops = [];
  // now and then a long session
  if (r.chance(10)) n = r.range(100, 300);
  let t = 0;
  const gap = r.pick([3, 20, 120, 700]);
  ops.push({ t: 0, op: "doc", kind: cfg.first === "diff" ? "diff" : "new", seed: r.next() });
  if (r.chance(cfg.cards ? 800 : 150)) {
    const dy = r.chance(700) ? 1 : -1;
    for (let i = r.range(4, 10); i > 0; i--) ops.push({ t, op: "wheel", ctrl: true, dy });
  }
  for (let i = 0; i < n; i++) {
    t += r.chance(250) ? 0 : r.below(gap);
    if (r.chance(60)) t += r.below(4000);
    const w = r.below(100);
    if (o.clicks && r.chance(o.clicks)) {
      const at = { t, k: r.next(), x: r.below(800), y: r.below(600) };
      ops.push(r.chance(750) ? { ...at, op: "click" } : { ...at, op: "jump", page: 1 + r.below(cfg.maxPages + 1) });
      continue;
    }
    if (w < (o.docs ?? 45)) {
      if (r.chance(120)) ops.push({ t, op: "burst", n: 2 + r.below(6), seed: r.next() });
      else ops.push({ t, op: "doc", kind: r.chance(o.news ?? 80) ? "new" : "diff", seed: r.next() });
    } else if (w < 60) ops.push(r.chance(500) ? { t, op: "scroll", y: r.below(cfg.maxPages * 900) } : { t, op: "scrollto", part: r.below(1000) / 1000 });
    else if (w < 68) ops.push({ t, op: "resize", w: r.pick([800, 400, 1200, 333, 801]) });
    else if (w < 78) ops.push({ t, op: "wheel", ctrl: !r.chance(150), dy: r.pick([-1, 1, -1, 0]) });
    else if (w < 84) ops.push({ t, op: "color", color: r.pick(COLORS) });
    else if (w < 88) ops.push({ t, op: "partial", on: r.chance(700) });
    else if (w < 91) ops.push({ t, op: "cursor", page: 1 + r.below(cfg.maxPages), x: r.below(400) / 8, y: r.below(400) / 8 });
    else if (cfg.mode === "slide") ops.push({ t, op: "page", n: r.range(0, cfg.maxPages + 1) });
    else if (cfg.mode === "content") ops.push({ t, op: "outline", seed: r.next(), stale: r.chance(300) });
    else ops.push({ t, op: "scroll", y: r.below(2000) });
  }
  // often the last input comes shortly after a document, while that is being shown
  if (r.chance(350)) {
    t += r.pick([0, 0, 400]);
    ops.push({ t, op: "doc", kind: "diff", seed: r.next() });
    t += r.below(r.pick([12, 40, 150]));
    const late = [
      { op: "scroll", y: r.below(cfg.maxPages * 900) }, { op: "resize", w: r.pick([800, 400, 1200, 333, 801]) }, { op: "wheel", ctrl: true, dy: r.pick([-1, 1]) },
      { op: "color", color: r.pick(COLORS) }, { op: "partial", on: r.chance(700) },
      cfg.mode === "slide" ? { op: "page", n: r.range(1, cfg.maxPages) } : { op: "outline", seed: r.next(), stale: r.chance(300) },
    ];
    const o = cfg.mode === "slide" && r.chance(400) ? late[5] : r.pick(late);
    if (o.op !== "outline" || cfg.mode === "content") ops.push({ t, ...o });
  }
  return ops;
}

function config(r, modes) {
  return {
    mode: r.pick(modes), partial: r.chance(500), maxPages: r.pick([2, 4, 8, 12]), width: r.pick([800, 600, 1024]), height: r.pick([600, 900]),
    ...(r.chance(40) ? { maxPages: r.pick([24, 40, 110]) } : {}),
    ownState: r.chance(500), vscode: r.chance(300), noSourceMapping: r.chance(500), first: r.chance(300) ? "diff" : "new",
  };
}

const ALL = ["svg", "svg", "slide", "canvas", "content"];

function withFaults(r, sc, kinds) {
  sc.faults = [];
  const style = r.below(3);
  for (let i = style === 0 ? 1 : 1 + r.below(5); i > 0; i--) sc.faults.push({ kind: r.pick(kinds), n: 1 + r.below(style === 2 ? 30 : 8) });
  if (r.chance(150)) {
    const kind = r.pick(kinds);
    const at = 1 + r.below(12);
    for (let k = 0; k < 4; k++) sc.faults.push({ kind, n: at + k });
  }
  return sc;
}

const GEN = {
  C11: (r) => {
    const cfg = config(r, ALL);
    return { cfg, sched: sched(r), ops: genOps(r, cfg, r.range(3, 40), { docs: 60, news: 180 }), faults: [] };
  },
  C12: (r) => {
    const cfg = config(r, ALL);
    if (r.chance(80)) Object.assign(cfg, { mode: "svg", partial: true, cards: true, maxPages: r.pick([12, 24]) });
    return { cfg, sched: sched(r), ops: genOps(r, cfg, r.range(2, 30)), faults: [] };
  },
  C13: (r) => {
    const cfg = config(r, ALL);
    cfg.ownState = true;
    const kinds = cfg.mode === "svg" ? ["merge", "svg", "svg", "canvas", "canvas"] : cfg.mode === "slide" ? ["merge", "svg"] : ["merge", "canvas", "canvas"];
    return withFaults(r, { cfg, sched: sched(r), ops: genOps(r, cfg, r.range(2, 25)) }, kinds);
  },
  C14: (r) => {
    const cfg = config(r, ["svg", "svg", "slide"]);
    return { cfg, sched: sched(r, r.chance(500)), ops: genOps(r, cfg, r.range(10, 60), { docs: 55, news: 20 }), faults: [] };
  },
  C15: (r) => {
    const cfg = config(r, ["content", "content", "canvas"]);
    return { cfg, sched: sched(r, r.chance(500)), ops: genOps(r, cfg, r.range(4, 40), { docs: 40, news: 60 }), faults: [] };
  },
  C20: (r) => {
    const cfg = config(r, ["svg", "svg", "svg", "slide", "slide", "svg", "canvas"]);
    cfg.noSourceMapping = r.chance(100);
    return { cfg, sched: sched(r, r.chance(500)), ops: genOps(r, cfg, r.range(6, 60), { docs: 45, news: 80, clicks: 450 }), faults: [] };
  },
};

async function judge(pid, w) {
  const faulty = Object.keys(w.fired).length > 0;
  if (pid === "C20") return w.judgeClicks();
  w.judgeDelivery();
  if (pid === "C11") return;
  if (!faulty) w.judgeShown(w.main, 1);
  if (w.violation) return;
  // the faults are over; one more input, a full document if an update was lost
  w.armed = false;
  if (w.main.session.version !== w.latest) {
    if (!w.fired.merge) return w.fail("renderer behind", { at: w.main.session.version, latest: w.latest });
    w.submit("new", 0, w.latest);
  } else {
    w.main.doc.addViewportChange();
  }
  if (!(await w.settle("recovery"))) return;
  w.judgeDelivery();
  if (!faulty || w.cfg.mode !== "svg") w.judgeShown(w.main, 2);
  else {
    w.judgeShown(w.main, 1);
    if (w.violation) return;
    w.main.doc.addViewportChange();
    if (!(await w.settle("recovery"))) return;
    w.judgeShown(w.main, 2);
  }
  if (w.violation || pid === "C13" || (pid === "C12" && new Rng("fresh", w.sc.seed).chance(600))) return;
  const v = await w.fresh();
  if (v && !w.violation) w.judgeShown(v, 2);
}

async function run(pid, sc, source, trace) {
  const w = new World(sc, source, trace);
  await w.run();
  if (!w.violation) await judge(pid, w);
  const counts = { updates: w.submitted.length, inputs: sc.ops.length, renders: 0, merges: 0, canvases: 0, ["mode_" + sc.cfg.mode]: 1 };
  for (const e of w.first.history) {
    if (e.what.startsWith("merge")) counts.merges++;
    else if (e.what.startsWith("svg")) counts.renders++;
    else if (e.what.startsWith("canvas ")) counts.canvases++;
  }
  if (pid === "C20") Object.assign(counts, w.clicks);
  counts.superseded = Math.max(0, counts.updates - counts.merges);
  const faults = { ...w.fired };
  for (const [k, n] of w.host.counts) if (k !== "cost" && k !== "r") faults["delay_" + k] = n;
  return {
    violation: w.violation, hash: w.host.hash, steps: w.host.steps || 0, time: w.host.now, counts, faults,
    nontrivial: counts.merges >= 2 && (pid !== "C20" || w.clicks.mapped > 0) && (pid !== "C13" || Object.keys(w.fired).length > 0),
  };
}

const REAL = ["typst-dom (TypstDocument, patching, outline, source mapping)"];
const STUB = ["browser document, timers, frames and clock (simulated)", "renderer session (wasm) holding versioned documents", "server producing the updates"];
const RULES = {
  C11: "a run is one history of updates and inputs against one view; non-trivial when at least two updates reached the renderer",
  C12: "a run is one history of updates and inputs; non-trivial when at least two updates reached the renderer",
  C13: "a run is one history with injected failures; non-trivial when a failure was delivered and two updates reached the renderer",
  C14: "a run is one history of versions shown incrementally; non-trivial when at least two updates reached the renderer",
  C20: "a run is one history of versions, inputs, clicks and jumps; non-trivial when at least two updates reached the renderer and a click had a place in the source",
  C15: "a run is one history of versions and outlines on canvases; non-trivial when at least two updates reached the renderer",
};

export const PREVIEW = {};
for (const pid of Object.keys(GEN)) {
  PREVIEW[pid] = {
    bundles: pid === "C20" ? ["typst-dom", "typst-tools"] : ["typst-dom"], plain: pid !== "C20",
    scenario: (seed) => ({ property: pid, seed, ...GEN[pid](new Rng(pid, seed)) }),
    run: (sc, source, trace) => run(pid, sc, source, trace),
    simplify: (sc) => [{ ...sc, cfg: { ...sc.cfg, vscode: false } }, { ...sc, cfg: { ...sc.cfg, partial: false } }].filter((c) => JSON.stringify(c) !== JSON.stringify(sc)),
    rule: RULES[pid] + "; distinct by the hash of the whole event trace",
    real: pid === "C20" ? [...REAL, "mitex-web tools/typst.ts"] : REAL, stub: STUB,
  };
}
