// The simulated browser: one clock, one event queue, a document, and the services
// the packages use (timers, frames, sizes). A seed decides every delay.
import { Document, Element, EventTarget, HTML, Node, SVG, Text } from "./dom.mjs";

export function hash32(...parts) {
  let h = 0x811c9dc5;
  for (const p of parts) {
    const s = String(p);
    for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193);
    h = Math.imul(h ^ 0x7c, 0x01000193);
  }
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b);
  h ^= h >>> 13;
  h = Math.imul(h, 0xc2b2ae35);
  return (h ^ (h >>> 16)) >>> 0;
}

export class Rng {
  constructor(...seed) {
    this.a = hash32("a", ...seed);
    this.b = hash32("b", ...seed);
  }
  next() {
    // xorshift over two words
    let t = this.a ^ (this.a << 13);
    t ^= t >>> 17;
    t ^= t << 5;
    this.a = this.b;
    this.b = (this.b ^ (this.b >>> 19) ^ t ^ (t >>> 8)) >>> 0;
    return Math.imul(this.a ^ this.b, 0x9e3779b1) >>> 0;
  }
  below(n) {
    return n <= 1 ? 0 : this.next() % n;
  }
  range(lo, hi) {
    return lo + this.below(hi - lo + 1);
  }
  chance(permille) {
    return this.below(1000) < permille;
  }
  pick(l) {
    return l[this.below(l.length)];
  }
}

const drain = () => new Promise((r) => setImmediate(r));

/// A constructor of the browser, for `instanceof`.
const kind = (is) =>
  class {
    static [Symbol.hasInstance](e) {
      return e instanceof Element && is(e);
    }
  };
const CLASSES = ["Element", "Node", "Text", "EventTarget", "HTMLElement", "SVGElement", "SVGGraphicsElement", "SVGSVGElement", "SVGGElement",
  "HTMLDivElement", "HTMLCanvasElement", "HTMLInputElement", "HTMLTextAreaElement", "HTMLStyleElement", "HTMLScriptElement"];

export class Host {
  /// sched: {seed, jitter, stall, canvas, frameGap}; every field optional
  constructor(sched, trace) {
    this.sched = sched;
    this.now = 0;
    this.seq = 0;
    this.queue = [];
    this.timers = [];
    this.frames = [];
    this.frameEvent = false;
    this.counts = new Map();
    this.intervals = new Set();
    this.trace = trace;
    this.hash = 0;
    this.errors = [];
    this.lastTimer = 0;
    this.document = new Document();
    this.window = new EventTarget();
    this.makeWindow();
  }
  log(...parts) {
    this.hash = hash32(this.hash, ...parts);
    if (this.trace) this.trace.push(`${this.now.toFixed(1)} ${parts.join(" ")}`);
  }
  /// The nth delay of a kind: a function of the seed, the kind and n only.
  delay(kind) {
    const n = this.counts.get(kind) || 0;
    this.counts.set(kind, n + 1);
    const s = this.sched;
    const h = hash32(s.seed, kind, n);
    const u = (h & 0xffff) / 0x10000;
    const v = (h >>> 16) / 0x10000;
    const slow = v * 1000 < (s.stall || 0);
    switch (kind) {
      case "timer":
        return slow ? u * 800 : u * (s.jitter || 0);
      case "frame":
        return slow ? 16 + u * 2500 : 16 - (u * (s.jitter ? 12 : 0));
      case "cost":
        return s.jitter ? u * 6 : 1;
      default:
        return slow ? u * 3000 : u * (s[kind] ?? s.canvas ?? 10);
    }
  }
  at(time, what, f) {
    this.queue.push({ time: Math.max(time, this.now), seq: this.seq++, what, f });
  }
  setTimeout(f, ms, ...args) {
    const due = this.now + Math.max(0, Number(ms) || 0);
    const t = { id: ++this.seq, due, f: () => f(...args) };
    this.timers.push(t);
    this.timers.sort((a, b) => a.due - b.due || a.id - b.id);
    // a timer may be late, and never overtakes one that was due before it
    this.at(due + this.delay("timer"), "timer", () => {
      const next = this.timers.shift();
      if (next) {
        if (next.due > this.now) this.now = next.due;
        next.f();
      }
    });
    return t.id;
  }
  clearTimeout(id) {
    const t = this.timers.find((x) => x.id === id);
    if (t) t.f = () => {};
  }
  setInterval(f, ms, ...args) {
    const t = { id: 0 };
    const again = () => {
      t.id = this.setTimeout(() => {
        if (!this.intervals.has(t)) return;
        again();
        f(...args);
      }, ms);
    };
    this.intervals.add(t);
    again();
    return t;
  }
  clearInterval(t) {
    this.intervals.delete(t);
    if (t) this.clearTimeout(t.id);
  }
  requestAnimationFrame(f) {
    const id = ++this.seq;
    this.frames.push([id, f]);
    if (!this.frameEvent) {
      this.frameEvent = true;
      this.at(this.now + this.delay("frame"), "frame", () => {
        this.frameEvent = false;
        const l = this.frames;
        this.frames = [];
        for (const [, g] of l) {
          try {
            g(this.now);
          } catch (e) {
            this.errors.push(e);
          }
        }
      });
    }
    return id;
  }
  cancelAnimationFrame(id) {
    this.frames = this.frames.filter(([i]) => i !== id);
  }
  makeWindow() {
    const w = this.window;
    const doc = this.document;
    doc.parentNode = null;
    doc.defaultView = w;
    Object.assign(w, {
      window: w,
      self: w,
      document: doc,
      screenLeft: 0,
      screenTop: 0,
      scrollX: 0,
      scrollY: 0,
      innerWidth: 800,
      innerHeight: 600,
      onresize: null,
      devicePixelRatio: 1,
      initialised: [],
      initTypstSvg: (root) => w.initialised.push(root),
      handleTypstLocation: () => {},
      typstWebsocket: { sent: [], send: (m) => w.typstWebsocket.sent.push(m) },
      scrollBy: () => {},
      scrollTo: () => {},
      getSelection: () => null,
      matchMedia: () => ({ matches: false, addEventListener: () => {}, removeEventListener: () => {} }),
      setTimeout: (f, ms, ...a) => this.setTimeout(f, ms, ...a),
      clearTimeout: (id) => this.clearTimeout(id),
      setInterval: (f, ms, ...a) => this.setInterval(f, ms, ...a),
      clearInterval: (t) => this.clearInterval(t),
      Element,
      Node,
      Text,
      EventTarget,
      HTMLElement: kind((e) => e.namespaceURI === HTML),
      SVGElement: kind((e) => e.namespaceURI === SVG),
      SVGGraphicsElement: kind((e) => e.namespaceURI === SVG),
      SVGSVGElement: kind((e) => e.namespaceURI === SVG && e.localName === "svg"),
      SVGGElement: kind((e) => e.namespaceURI === SVG && e.localName === "g"),
      HTMLDivElement: kind((e) => e.namespaceURI === HTML && e.localName === "div"),
      HTMLCanvasElement: kind((e) => e.namespaceURI === HTML && e.localName === "canvas"),
      HTMLInputElement: kind((e) => e.namespaceURI === HTML && e.localName === "input"),
      HTMLTextAreaElement: kind((e) => e.namespaceURI === HTML && e.localName === "textarea"),
      HTMLStyleElement: kind((e) => e.namespaceURI === HTML && e.localName === "style"),
      HTMLScriptElement: kind((e) => e.namespaceURI === HTML && e.localName === "script"),
      requestAnimationFrame: (f) => this.requestAnimationFrame(f),
      cancelAnimationFrame: (id) => this.cancelAnimationFrame(id),
      queueMicrotask: (f) => queueMicrotask(f),
      performance: { now: () => this.now, mark: () => {}, measure: () => {} },
      getComputedStyle: (e) => ({
        getPropertyValue: (k) => (k === "--typst-preview-background-color" ? "#404040" : e.style.getPropertyValue(k)),
      }),
      console: {
        log: () => {},
        info: () => {},
        debug: () => {},
        warn: () => {},
        trace: () => {},
        time: () => {},
        timeEnd: () => {},
        error: (...a) => this.errors.push(a[0]),
        assert: (ok, m) => {
          if (!ok) this.errors.push(new Error("assertion: " + m));
        },
      },
    });
    const host = this;
    w.Date = class extends Date {
      constructor(...a) {
        super(...(a.length ? a : [1700000000000 + Math.floor(host.now)]));
      }
      static now() {
        return 1700000000000 + Math.floor(host.now);
      }
    };
    const math = Object.create(null);
    for (const k of Object.getOwnPropertyNames(Math)) math[k] = Math[k];
    math.random = () => hash32(this.sched.seed, "random", this.counts.set("r", (this.counts.get("r") || 0) + 1).get("r")) / 2 ** 32;
    w.Math = math;
  }
  /// Instantiates a bundle with this host's services in place of the globals.
  load(source, extra = {}) {
    const w = this.window;
    const names = ["window", "self", "globalThis", "document", "setTimeout", "clearTimeout", "setInterval", "clearInterval", "requestAnimationFrame",
      "cancelAnimationFrame", "performance", "getComputedStyle", "console", "Date", "Math", "acquireVsCodeApi", ...CLASSES, ...Object.keys(extra)];
    let f = Host.compiled.get(source + names.join());
    if (!f) {
      f = new Function(...names, source + "\n;return typeof __subject === 'undefined' ? undefined : __subject;");
      Host.compiled.set(source + names.join(), f);
    }
    return f(w, w, w, this.document, w.setTimeout, w.clearTimeout, w.setInterval, w.clearInterval, w.requestAnimationFrame, w.cancelAnimationFrame,
      w.performance, w.getComputedStyle, w.console, w.Date, w.Math, w.acquireVsCodeApi, ...CLASSES.map((k) => w[k]), ...Object.values(extra));
  }
  /// Runs events until none is left; `after` runs between events.
  async run(limits, after) {
    let n = 0;
    await drain();
    while (this.queue.length) {
      if (n++ >= limits.events || this.now > limits.time) return false;
      let best = 0;
      for (let i = 1; i < this.queue.length; i++) {
        const a = this.queue[i];
        const b = this.queue[best];
        if (a.time < b.time || (a.time === b.time && a.seq < b.seq)) best = i;
      }
      const [e] = this.queue.splice(best, 1);
      if (e.time > this.now) this.now = e.time;
      try {
        e.f();
      } catch (err) {
        this.errors.push(err);
      }
      await drain();
      this.steps = (this.steps || 0) + 1;
      if (after) after(e.what);
    }
    return true;
  }
}
Host.compiled = new Map();
