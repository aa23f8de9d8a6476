// The web pages (converter and editor): the browser's and the network's services,
// scenarios and judgements.
import { Host, Rng, hash32 } from "./host.mjs";
import { Session, edit } from "./model.mjs";
import { World, FACTORS } from "./world.mjs";

const LIMITS = { events: 60000, time: 3.6e6 };
const DIR = "/repo/fixtures/underleaf/ieee/";
const MAIN = DIR + "main.tex";
const STYLE = DIR + "styling.typ";
const enc = new TextEncoder();
const dec = new TextDecoder("utf-8", { ignoreBOM: true });
const escape = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => x === b[i]);

/// One opened page. What it leaves behind is `storage`.
export class Page {
  constructor(sc, cfg, storage, trace) {
    this.sc = sc;
    this.cfg = cfg;
    this.storage = storage;
    this.host = new Host({ ...sc.sched, seed: hash32(sc.sched.seed, cfg.name) }, trace);
    this.faultCount = {};
    this.fired = {};
    this.armed = true;
    this.shadow = new Map();
    this.compiles = [];
    this.versions = new Map([[0, { pages: [] }]]);
    this.saves = [];
    this.downloads = [];
    this.copied = [];
    this.shownByPage = [];
    this.dark = !!cfg.dark;
    this.started = false;
    const d = this.host.document;
    d.$rect = { left: 0, top: 0, width: cfg.width || 799, height: cfg.height || 600 };
    const app = d.createElement("div");
    app.id = "app";
    d.body.append(app);
    this.app = app;
    this.services();
  }

  fail(what, detail) {
    if (!this.violation) {
      this.violation = { what, detail: { page: this.cfg.name, ...detail }, time: Math.round(this.host.now), errors: this.host.errors.slice(-3).map((e) => String(e?.message ?? e)) };
    }
  }

  fault(kind) {
    const n = (this.faultCount[kind] = (this.faultCount[kind] || 0) + 1);
    if (!this.armed || !(this.cfg.faults || []).some((f) => f.kind === kind && f.n === n)) return false;
    this.fired[kind] = (this.fired[kind] || 0) + 1;
    this.host.log("fault", kind, n);
    return true;
  }

  later(kind, f) {
    return new Promise((res, rej) => {
      this.host.at(this.host.now + this.host.delay(kind), kind, () => {
        try {
          res(f());
        } catch (e) {
          rej(e);
        }
      });
    });
  }

  services() {
    const { host, cfg } = this;
    const w = host.window;
    const page = this;
    const media = { get matches() { return page.dark; }, listeners: [], addEventListener: (_, f) => media.listeners.push(f), removeEventListener: () => {} };
    this.media = media;
    const create = host.document.createElement.bind(host.document);
    host.document.createElement = (name) => {
      const e = create(name);
      if (name === "a") e.click = () => page.downloads.push({ blob: page.urls.get(e.href), name: e.download });
      return e;
    };
    this.urls = new Map();
    class Blob {
      constructor(parts, o = {}) {
        this.parts = parts.map((p) => (p instanceof Blob ? p.bytes() : p));
        this.type = o.type || "";
      }
      get size() {
        return this.bytes().length;
      }
      arrayBuffer() {
        return page.later("reader", () => new Uint8Array(this.bytes()).buffer);
      }
      text() {
        return page.later("reader", () => dec.decode(this.bytes()));
      }
      bytes() {
        return Buffer.concat(this.parts.map((p) => Buffer.from(typeof p === "string" ? enc.encode(p) : p)));
      }
    }
    class FileReader {
      readAsDataURL(blob) {
        const data = `data:${blob.type};base64,${blob.bytes().toString("base64")}`;
        page.later("reader", () => {
          const bad = page.fault("reader");
          if (bad) this.error = new Error("injected: NotReadableError");
          else this.result = data;
          for (const type of [bad ? "error" : "load", "loadend"]) {
            this["on" + type]?.({ type, target: this });
            (this.listeners ??= []).filter((l) => l[0] === type).forEach((l) => l[1].call(this, { type, target: this }));
          }
        });
      }
      addEventListener(type, f) {
        (this.listeners ??= []).push([type, f]);
      }
    }
    const fetch = (url) => {
      const m = /^data:[^,]*;base64,(.*)$/s.exec(url);
      if (!m) return Promise.reject(new TypeError("Failed to fetch"));
      const data = () => new Uint8Array(Buffer.from(m[1], "base64"));
      return page.later("fetch", () => ({ ok: true, status: 200, arrayBuffer: async () => data().buffer, bytes: async () => data(), text: async () => dec.decode(data()), blob: async () => new Blob([data()]) }));
    };
    const localStorage = {
      getItem: (k) => (page.storage.has(k) ? page.storage.get(k) : null),
      setItem: (k, v) => {
        if (page.fault("quota")) throw new Error("injected: QuotaExceededError");
        page.storage.set(String(k), String(v));
        host.log("save", hash32(v));
        page.saves.push({ t: host.now, key: k, value: String(v) });
      },
      removeItem: (k) => void page.storage.delete(String(k)),
      clear: () => page.storage.clear(),
      key: (i) => [...page.storage.keys()][i] ?? null,
      get length() {
        return page.storage.size;
      },
    };
    const URL = { createObjectURL: (b) => (page.urls.set("blob:" + page.urls.size, b), "blob:" + (page.urls.size - 1)), revokeObjectURL: () => {} };
    const navigator = { clipboard: { writeText: async (s) => void page.copied.push(s) } };
    this.extra = { Blob, FileReader, fetch, localStorage, URL, navigator };
    Object.assign(w, this.extra);
    w.matchMedia = () => media;
    w.$sim = {
      editor: (v) => {
        page.editor = v;
        // what the page itself puts into the editor, as against what is typed
        const dispatch = v.dispatch;
        v.dispatch = (...a) => {
          const r = dispatch.apply(v, a);
          if (!page.typing) page.shownByPage.push({ t: page.host.now, text: v.state.doc.toString() });
          return r;
        };
      },
      grammarly: () => page.later("git", () => {
        if (page.fault("grammarly")) throw new Error("injected: grammarly");
        return { addPlugin() {} };
      }),
      git: (what, o) => page.git(what, o),
      later: (kind, f) => page.later(kind, f),
      convert: (input) => page.convert(input),
    };
    // the script element of the loader
    const head = host.document.head;
    const append = head.appendChild.bind(head);
    head.appendChild = (e) => {
      const r = append(e);
      if (e.localName === "script") {
        host.at(host.now + host.delay("script") + (cfg.script || 0), "script", () => {
          w.$typst = page.typst();
          host.log("script loaded");
          e.onload?.({ target: e });
        });
      }
      return r;
    };
  }

  git(what) {
    const hang = this.fault("git-hang");
    const fail = this.fault("git");
    if (hang) return new Promise(() => {});
    return this.later("git", () => {
      this.host.log("git", what);
      if (fail || this.cfg.offline) throw new Error("injected: " + what + " failed");
      const { files } = this.host.window.$sim.fs;
      if (what === "clone") files.set("/repo/.git/config", enc.encode("[core]"));
      if (what === "checkout") for (const [p, d] of Object.entries(this.cfg.remote)) files.set(DIR + p, enc.encode(d));
    });
  }

  /// The compiler and renderer: one instance that serves its calls in order.
  typst() {
    const { host } = this;
    const page = this;
    const queue = [];
    let busy = false;
    const next = () => {
      if (busy || !queue.length) return;
      busy = true;
      const q = queue.shift();
      host.at(host.now + host.delay(q.kind), "typst", () => {
        busy = false;
        host.log("typst", q.what);
        try {
          q.res(q.f());
        } catch (e) {
          q.rej(e);
        }
        next();
      });
    };
    const op = (what, f, kind = "typst") => new Promise((res, rej) => {
      queue.push({ what, f, kind, res, rej });
      next();
    });
    let options = false;
    let ready;
    const load = () => (ready ??= op("load", () => {
      if (!options) throw new Error("where to load the module from is not set");
    }, "module"));
    const call = (what, f, kind) => (load(), op(what, f, kind));
    let fonts = false;
    const font = () => {
      const k = fonts ? "typst" : "fonts";
      fonts = true;
      return k;
    };
    const snapshot = () => Object.fromEntries([...page.shadow].map(([p, d]) => [p, dec.decode(d)]));
    const main = (path) => {
      const files = snapshot();
      if (!(path in files)) throw "file not found: " + path;
      for (const [p, s] of Object.entries(files)) {
        const m = /\\fail\d*/.exec(s);
        if (p.endsWith(".tex") && m) throw `error: unknown command ${m[0]}`;
      }
      return files;
    };
    const server = { version: 0 };
    const files = {
      mapShadow: (p, d) => call("map " + p, () => void page.shadow.set(p, d)),
      addSource: (p, s) => call("add " + p, () => void page.shadow.set(p, enc.encode(s))),
      unmapShadow: (p) => call("unmap " + p, () => void page.shadow.delete(p)),
      resetShadow: () => call("reset shadow", () => page.shadow.clear()),
    };
    const compiler = {
      ...files,
      withIncrementalServer: (f) => f(server),
      compile: ({ mainFilePath, incrementalServer }) => call("compile", () => {
        const c = { files: snapshot(), t: host.now };
        page.compiles.push(c);
        try {
          main(mainFilePath);
        } catch (e) {
          c.error = e;
          throw e;
        }
        const prev = incrementalServer.version;
        const v = page.versions.size;
        page.versions.set(v, edit(page.versions.get(prev), hash32(JSON.stringify(c.files)), { maxPages: 4 }));
        incrementalServer.version = v;
        c.version = v;
        host.log("compiled", v);
        return `diff:${prev}>${v}`;
      }),
    };
    const renderer = {
      runWithSession: async (f) => {
        page.session = new Session({ host, versions: page.versions, fault: () => false, history: (page.history = []) });
        return f(page.session);
      },
    };
    const $typst = {
      setCompilerInitOptions: () => (options = true),
      setRendererInitOptions: () => {},
      getCompiler: () => load().then(() => compiler),
      getRenderer: () => load().then(() => renderer),
      ...files,
      svg: (o) => call("svg", () => {
        if (o.mainContent !== undefined) {
          page.pictures?.push(o.mainContent);
          if (/\bbad\d*/.test(o.mainContent)) throw "error: cannot render";
          return `<svg><text>${escape(o.mainContent)}</text></svg>`;
        }
        return `<svg><text>${escape(JSON.stringify(main(o.mainFilePath)))}</text></svg>`;
      }, font()),
      pdf: (o) => call("pdf", () => enc.encode(JSON.stringify(main(o.mainFilePath))), font()),
    };
    return $typst;
  }

  convert(input) {
    this.converted = (this.converted || 0) + 1;
    if (/!/.test(input)) throw `error: unexpected ! in ${input.length}`;
    return `[${input.split("").reverse().join("")}] `;
  }

  load(source) {
    this.host.load(source, this.extra);
    const init = this.host.window.initTypstSvg;
    const w = this.host.window;
    w.initialised = [];
    if (init) w.initTypstSvg = (root, ...a) => (w.initialised.push(root), init(root, ...a));
  }

  setDark(on) {
    if (this.dark === on) return;
    this.dark = on;
    this.media.listeners.forEach((f) => f({ matches: on }));
  }

  async rest(stage) {
    const ok = await this.host.run({ ...LIMITS, events: LIMITS.events }, () => this.watch?.());
    if (!ok) this.fail("no rest", { stage, pending: this.host.queue.length });
    return ok;
  }

  stop(at) {
    return this.host.run({ events: LIMITS.events, time: at }, () => this.watch?.());
  }
}

// ---- the converter page ------------------------------------------------------

class Converter extends Page {
  constructor(sc, source, trace) {
    super(sc, { ...sc.cfg, name: "converter" }, new Map(), trace);
    this.pictures = [];
    this.load(source.loader);
    this.host.at(this.host.now + this.host.delay("wasm") + (sc.cfg.wasm || 0), "wasm", () => {
      this.load(source.converter);
      this.opened = true;
      this.input = this.app.querySelector(".mitex-input");
      this.text = this.input.value;
      this.texts = new Set([this.text]);
    });
    for (const o of sc.ops) this.host.at(o.t, "op", () => this.apply(o));
  }
  apply(o) {
    if (!this.opened) return;
    this.host.log("op", o.op);
    if (o.op === "type") {
      this.text = o.text;
      this.texts.add(o.text);
      this.input.value = o.text;
      this.input.dispatchEvent({ type: "input" });
    } else if (o.op === "copy") {
      const b = this.app.querySelectorAll("button");
      const n = this.copied.length;
      b[o.n].click();
      const got = this.copied.slice(n);
      const want = this.template(this.expected().output, o.n === 1);
      if (got.length !== 1 || got[0] !== want) this.fail("copied text", { expected: want, got });
    } else if (o.op === "focus") {
      this.app.querySelector(".mitex-output").select = () => {};
      this.app.querySelector(".mitex-output").dispatchEvent({ type: "focus" });
    }
  }
  expected(text = this.text) {
    try {
      return { output: this.convert(text), error: "" };
    } catch (e) {
      return { output: "", error: e };
    }
  }
  template(output, imports) {
    const t = `#math.equation(eval("$" + \`${output}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)`;
    return imports ? `#import "@preview/mitex:0.2.7": *\n\n${t}` : t;
  }
  judge() {
    const want = this.expected();
    const out = this.app.querySelector(".mitex-output").value;
    const err = this.app.querySelector(".error").textContent;
    if (out !== want.output) return this.fail("output", { input: this.text, expected: want.output, got: out });
    if (err !== want.error) return this.fail("error line", { input: this.text, expected: want.error, got: err });
    const box = this.app.querySelector(".mitex-preview").firstElementChild;
    const shown = box.querySelector("svg")?.textContent;
    if (shown === undefined && this.pictures.some((s) => s !== "" && !/\bbad\d*/.test(s))) return this.fail("no picture", { got: box.innerHTML.slice(0, 200) });
    if (this.violation || shown === undefined) return;
    const of = (output) => shown.includes("`" + output + "`");
    const renders = (output) => !/\bbad\d*/.test(output);
    if (renders(want.output) && !of(want.output)) return this.fail("picture", { output: want.output, got: shown });
    const last = this.pictures.findLast((s) => s !== "" && !/\bbad\d*/.test(s));
    if (!renders(want.output) && shown !== last) return this.fail("picture of an older output", { expected: last, got: shown });
    if (!renders(want.output) && ![...this.texts].some((t) => renders(this.expected(t).output) && of(this.expected(t).output))) {
      return this.fail("picture of nothing that was typed", { got: shown });
    }
    if (!shown.includes(`rgb("${this.dark ? "#fff" : "#000"}")`)) this.fail("picture colour", { dark: this.dark, got: shown });
  }
  async run() {
    if (!(await this.rest("inputs")) || this.violation) return;
    this.judge();
  }
}

// ---- the editor page ------------------------------------------------------------

const WORDS = ["x", "\\alpha", "$a^2$", "é", "漢字", "🙂", "\\section{A}", "\n", "%", "&"];
const body = (r, n) => Array.from({ length: n }, () => r.pick(WORDS)).join(" ");

class Editor extends Page {
  constructor(sc, phase, storage, source, trace, run) {
    super(sc, phase, storage, trace);
    this.run_ = run;
    this.local = this.stored();
    this.had = storage.has("fsState");
    this.typedAfterRest = false;
    this.exports = [];
    this.load(source.underleaf);
    for (const o of phase.ops) this.host.at(o.t, "op", () => this.apply(o));
  }
  stored(value = this.storage.get("fsState")) {
    if (value === undefined) return new Map();
    return new Map(JSON.parse(value).map((f) => [f.path, new Uint8Array(Buffer.from(/base64,(.*)$/s.exec(f.data)[1], "base64"))]));
  }
  /// Whatever happens, a project once stored stays stored.
  watch() {
    if (this.storage.has("fsState")) this.had = true;
    else if (this.had) this.fail("stored project gone", {});
  }
  get text() {
    return this.editor.state.doc.toString();
  }
  apply(o, strict) {
    this.host.log("op", o.op);
    if (o.op === "type") {
      const r = new Rng("type", o.seed);
      const n = ++this.run_.counter;
      const text = this.text;
      const head = /^%\d+\n/.exec(text)?.[0] ?? "";
      const changes = [{ from: 0, to: head.length, insert: `%${n}\n` }];
      const whole = (i) => (/[\uDC00-\uDFFF]/.test(text[i] ?? "") ? i + 1 : i);
      const left = text.length - head.length;
      if (left > 0 || r.chance(500)) {
        const at = whole(head.length + r.below(left + 1));
        const to = whole(Math.min(text.length, at + r.below(6)));
        changes.push({ from: at, to: r.chance(400) ? to : at, insert: body(r, r.below(4)) + (o.fail ? `\\fail${n}` : "") });
      }
      if (o.clear) changes.splice(0, 2, { from: 0, to: text.length, insert: "" });
      if (o.fix && text.includes("\\fail")) changes.splice(0, 2, { from: 0, to: text.length, insert: `%${n}\nfixed` });
      this.typing = true;
      this.editor.dispatch({ changes });
      this.typing = false;
      this.lastTyped = this.text;
      this.run_.typed.set(n, this.text);
    } else if (o.op === "dark") this.setDark(o.on);
    else if (o.op === "resize") {
      this.host.document.$rect = { ...this.host.document.$rect, width: o.w };
      this.resized = true;
    } else if (o.op === "export") {
      const b = [...this.app.querySelectorAll("button")][o.html ? 1 : 0];
      const e = { text: this.text, strict, downloads: this.downloads.length, loaded: this.shadow.has(DIR + "main.typ") };
      if (this.host.window.$typst) this.exports.push(e);
      b.click();
    }
  }
  /// The project as it should be, from what was saved and what the repository holds.
  project() {
    const p = new Map(this.local);
    if (this.remoteLoaded()) for (const [k, v] of Object.entries(this.cfg.remote)) p.set(DIR + k, enc.encode(v));
    return p;
  }
  remoteLoaded() {
    return !!this.host.window.$sim.fs?.files.has(MAIN) && !this.fired["git-hang"];
  }
  judgeAgreement() {
    const p = this.project();
    if (!p.has(MAIN)) return false;
    const text = this.text;
    const got = this.shadow.get(MAIN);
    if (!got || dec.decode(got) !== text) return this.fail("the compiler's text is not the editor's", { editor: text.slice(0, 300), compiler: got && dec.decode(got).slice(0, 300) });
    for (const [k, v] of p) {
      if (k === MAIN || k === STYLE) continue;
      if (!same(this.shadow.get(k), v)) return this.fail("file in the compiler", { file: k, expected: dec.decode(v).slice(0, 200), got: this.shadow.has(k) ? dec.decode(this.shadow.get(k)).slice(0, 200) : null });
    }
    for (const k of this.shadow.keys()) if (!p.has(k) && k !== STYLE) return this.fail("file in the compiler", { file: k, expected: null });
    const last = this.compiles[this.compiles.length - 1];
    if (!last) return this.fail("never compiled", {});
    if (last.files[MAIN] !== text) return this.fail("last compiled text is not the editor's", { editor: text.slice(0, 300), compiled: last.files[MAIN]?.slice(0, 300) });
    for (const [k, v] of p) {
      if (k !== MAIN && k !== STYLE && last.files[k] !== dec.decode(v)) return this.fail("file not compiled", { file: k });
    }
    const theme = `#let prefer-theme = "${this.dark ? "dark" : "light"}";`;
    if (last.files[STYLE] !== theme) return this.fail("theme compiled", { expected: theme, got: last.files[STYLE] });
    const err = this.app.querySelector(".error").textContent;
    if (err !== String(last.error ?? "")) return this.fail("error line", { expected: last.error ?? "", got: err });
    const names = [...this.app.querySelector(".mitex-dir-view").firstElementChild.children].map((x) => x.lastElementChild.textContent);
    const want = [...p.keys()].filter((k) => !k.endsWith(".typ")).sort((a, b) => a.localeCompare(b)).map((k) => k.replace(DIR, ""));
    if (names.join("|") !== want.join("|")) return this.fail("files listed", { expected: want, got: names });
    this.judgePreview();
    return true;
  }
  judgePreview() {
    if (this.violation) return;
    const good = this.compiles.filter((c) => c.version !== undefined);
    const box = this.app.querySelector("#mitex-preview").firstElementChild;
    if (!good.length) {
      if (box.textContent !== "") this.fail("preview before the first document", { got: box.textContent.slice(0, 100) });
      return;
    }
    const latest = good[good.length - 1].version;
    const d = this.host.document.$rect;
    const v = Object.create(World.prototype);
    Object.assign(v, {
      cfg: { mode: "svg" }, host: this.host, versions: this.versions, latest, view: { left: 0, top: 0, width: d.width + 1, height: d.height },
      color: this.dark ? "#242424" : "white", partial: true, zoom: FACTORS.indexOf(1), slide: 0, sc: this.sc,
    });
    v.judgeShown({ session: this.session, elem: box, history: this.history, doc: undefined }, 1);
    if (v.violation) this.fail("preview: " + v.violation.what, v.violation.detail);
  }
  judgeSaved() {
    const faulty = this.fired.quota || this.fired.reader;
    const got = this.stored();
    if (faulty) return;
    const p = this.project();
    if (p.has(MAIN)) p.set(MAIN, enc.encode(this.text));
    for (const [k, v] of p) {
      if (!same(got.get(k), v)) return this.fail("saved project", { file: k, expected: dec.decode(v).slice(0, 200), got: got.has(k) ? dec.decode(got.get(k)).slice(0, 200) : null });
    }
    for (const k of got.keys()) if (!p.has(k)) return this.fail("saved project", { file: k, expected: null });
  }
  /// Every save is a complete project of files this page held, and none goes back.
  judgeSaves() {
    let newest = -1;
    const remote = this.cfg.remote;
    const names = new Set([...this.local.keys(), ...Object.keys(remote).map((k) => DIR + k)]);
    let before = new Set(this.local.keys());
    for (const s of this.saves) {
      let files;
      try {
        files = this.stored(s.value);
      } catch (e) {
        return this.fail("save not understood", { value: s.value.slice(0, 200), error: String(e) });
      }
      for (const k of before) if (!files.has(k)) return this.fail("file lost by a save", { file: k, at: Math.round(s.t) });
      before = new Set(files.keys());
      for (const [k, v] of files) {
        if (!names.has(k)) return this.fail("save of an unknown file", { file: k });
        const r = remote[k.slice(DIR.length)];
        if (same(v, this.local.get(k)) || (r !== undefined && dec.decode(v) === r)) continue;
        const text = dec.decode(v);
        if (k === MAIN && text === "" && [...this.run_.typed.values()].includes("")) continue;
        const n = Number(/^%(\d+)\n/.exec(text)?.[1] ?? -1);
        if (k !== MAIN || this.run_.typed.get(n) !== text) return this.fail("saved content was never there", { file: k, got: text.slice(0, 200) });
        // a file that finishes loading may replace what was typed meanwhile
        if (n < newest && !this.shownByPage.some((x) => x.t <= s.t && x.text === text)) return this.fail("save goes back", { saved: n, before: newest, at: Math.round(s.t) });
        newest = n;
      }
    }
  }
  judgeExports() {
    const want = this.exports.filter((e) => e.strict && !/\\fail/.test(e.text));
    const got = this.downloads.slice(this.strictFrom);
    if (got.length !== want.length) return this.fail("number of exports", { clicked: want.length, saved: got.length });
    want.forEach((e, i) => {
      const bytes = dec.decode(got[i].blob?.bytes() ?? enc.encode(""));
      const pdf = got[i].blob?.type === "application/pdf";
      const m = pdf ? bytes : /<text>(.*)<\/text>/s.exec(bytes)?.[1].replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&amp;/g, "&");
      let files;
      try {
        files = JSON.parse(m);
      } catch {
        return this.fail("export not understood", { got: bytes.slice(0, 200) });
      }
      if (files[MAIN] !== e.text) return this.fail("exported text", { expected: e.text.slice(0, 300), got: files[MAIN]?.slice(0, 300) });
      if (files[STYLE] !== `#let prefer-theme = "light";`) return this.fail("exported theme", { got: files[STYLE] });
      if (!got[i].name.endsWith(pdf ? ".pdf" : ".html")) return this.fail("export name", { got: got[i].name });
    });
  }
}

async function editorRun(pid, sc, source, trace) {
  const storage = new Map(sc.storage ? [["fsState", sc.storage]] : []);
  const run = { counter: 0, typed: new Map() };
  const total = { hash: 0, steps: 0, time: 0, counts: { pages: 0, inputs: 0, compiles: 0, saves: 0, exports: 0 }, faults: {} };
  let violation;
  for (const phase of sc.phases) {
    const saved = storage.get("fsState");
    const w = new Editor(sc, phase, storage, source, trace, run);
    if (trace) trace.push(`--- page ${phase.name}`);
    if (phase.close !== undefined) {
      await w.stop(phase.close);
      if (pid === "C18") w.judgeSaves();
    } else if (await w.rest("loading")) {
      if (pid === "C17") w.judgeAgreement();
      if (pid === "C18") {
        w.judgeSaves();
        if (!w.violation) w.judgeSaved();
        // what the previous page left is what this one opens with
        if (!w.violation && !w.remoteLoaded() && saved !== undefined && !phase.ops.some((o) => o.op === "type")) {
          const m = w.stored(saved).get(MAIN);
          if (m && w.text !== dec.decode(m)) w.fail("saved text not opened", { saved: dec.decode(m).slice(0, 200), editor: w.text.slice(0, 200) });
        }
      }
      if (!w.violation && w.project().has(MAIN)) {
        w.armed = pid === "C18" && phase.lateFaults;
        w.strictFrom = w.downloads.length;
        const t0 = w.host.now;
        for (const o of phase.later) w.host.at(t0 + o.t, "op", () => w.apply(o, true));
        w.lastTyped = undefined;
        if (await w.rest("editing")) {
          if (w.lastTyped !== undefined && w.text !== w.lastTyped) w.fail("typed text replaced", { typed: w.lastTyped.slice(0, 200), editor: w.text.slice(0, 200) });
          if (pid === "C17" && w.resized && !w.violation) {
            // the next document shown is laid out for the size the window has now
            w.apply({ op: "type", seed: 1, fix: true }, true);
            await w.rest("resized");
          }
          if (pid === "C19") w.judgeExports();
          if ((pid === "C17" || pid === "C19") && !w.violation) w.judgeAgreement();
          if (pid === "C18") {
            w.judgeSaves();
            w.armed = false;
            if (!w.violation && (w.fired.quota || w.fired.reader)) {
              // the faults are over; the next edit is saved
              w.fired.quota = w.fired.reader = 0;
              w.apply({ op: "type", seed: 1 }, true);
              if (await w.rest("recovery")) w.judgeSaved();
              w.judgeSaves();
            } else if (!w.violation) w.judgeSaved();
          }
        }
      }
    }
    total.hash = hash32(total.hash, w.host.hash);
    total.steps += w.host.steps || 0;
    total.time += w.host.now;
    total.counts.pages++;
    total.counts.inputs += phase.ops.length + phase.later.length;
    total.counts.compiles += w.compiles.length;
    total.counts.saves += w.saves.length;
    total.counts.exports += w.downloads.length;
    for (const [k, n] of Object.entries(w.fired)) total.faults[k] = (total.faults[k] || 0) + n;
    for (const [k, n] of w.host.counts) if (k !== "cost" && k !== "r") total.faults["delay_" + k] = (total.faults["delay_" + k] || 0) + n;
    if (phase.close !== undefined) total.faults.closed = (total.faults.closed || 0) + 1;
    if (w.violation) {
      violation = w.violation;
      break;
    }
  }
  const c = total.counts;
  return { violation, ...total, nontrivial: pid === "C18" ? c.saves >= 2 : pid === "C19" ? c.exports >= 1 : c.compiles >= 2 };
}

async function converterRun(sc, source, trace) {
  const w = new Converter(sc, source, trace);
  await w.run();
  const faults = { ...w.fired };
  for (const [k, n] of w.host.counts) if (k !== "cost" && k !== "r") faults["delay_" + k] = n;
  return {
    violation: w.violation, hash: w.host.hash, steps: w.host.steps || 0, time: w.host.now, faults,
    counts: { inputs: sc.ops.length, conversions: w.converted || 0, pictures: w.pictures.length, copies: w.copied.length }, nontrivial: w.pictures.length >= 2,
  };
}

// ---- scenarios --------------------------------------------------------------------

function sched(r) {
  const s = { seed: r.next(), jitter: r.chance(200) ? 0 : r.range(1, 40), stall: r.pick([0, 0, 20, 80, 250]) };
  for (const k of ["script", "module", "fonts", "git", "fs", "fetch", "reader", "wasm"]) s[k] = r.pick([1, 10, 100, 1000]);
  s.typst = r.pick([1, 10, 60]);
  s.canvas = r.pick([1, 10, 60]);
  return s;
}

function editorOps(r, n, gap, o = {}) {
  const ops = [];
  let t = 0;
  for (let i = 0; i < n; i++) {
    t += r.chance(250) ? 0 : r.below(gap);
    const w = r.below(100);
    if (w < (o.exports ?? 0)) ops.push({ t, op: "export", html: r.chance(500) });
    else if (w < 80) ops.push({ t, op: "type", seed: r.next(), fail: r.chance(80), fix: r.chance(400), ...(r.chance(70) ? { clear: true } : {}) });
    else if (w < 85 && o.resize) ops.push({ t, op: "resize", w: r.pick([799, 400, 1200]) });
    else ops.push({ t, op: "dark", on: r.chance(500) });
  }
  return ops;
}

function project(r, tag) {
  const p = { "main.tex": `${tag} ` + body(r, r.below(12)), "main.typ": `#include ${tag}`, "ieee.cls": `${tag} class` };
  if (r.chance(500)) p["refs.bib"] = tag + body(r, 3);
  if (r.chance(300)) p["logo.png"] = "\x89PNG" + tag;
  if (r.chance(300)) p["a.tex"] = body(r, 3);
  if (r.chance(200)) p["empty.bib"] = "";
  if (r.chance(100)) p[r.pick(["über uns.bib", "a b.tex", "100%.txt", "A.tex", "a#b?.bib"])] = tag + body(r, 2);
  if (r.chance(30)) p["large.png"] = "\x89PNG" + (tag + "\xff\x00 0123456789").repeat(r.pick([500, 5000, 12000]));
  if (r.chance(30)) for (let i = r.range(5, 30); i > 0; i--) p[`part${i}.tex`] = tag + i;
  return p;
}

const dataUrl = (s) => "data:application/octet-binary;base64," + Buffer.from(enc.encode(s)).toString("base64");

function storageOf(r) {
  const p = project(r, "local");
  if (r.chance(300)) p["old.bib"] = "old";
  return JSON.stringify(Object.entries(p).sort(([a], [b]) => a.localeCompare(b)).map(([k, v]) => ({ path: DIR + k, data: dataUrl(v), deleted: false })));
}

function editorScenario(r, pid) {
  const exports = pid === "C19" ? 25 : pid === "C17" ? 5 : 0;
  const n = pid === "C18" ? 1 + r.below(3) : 1;
  const phases = [];
  let remote = project(r, "remote");
  const storage = r.chance(500) ? storageOf(r) : undefined;
  if (storage && r.chance(200)) remote["main.tex"] = dec.decode(Buffer.from(/base64,(.*)$/s.exec(JSON.parse(storage).find((f) => f.path === MAIN).data)[1], "base64"));
  for (let i = 0; i < n; i++) {
    const gap = r.pick([3, 30, 300, 1500]);
    const phase = {
      name: "editor" + (i + 1), dark: r.chance(400), offline: r.chance(i ? 500 : 200), remote, width: r.pick([799, 400, 1200]), height: 600,
      script: r.chance(300) ? r.below(3000) : 0, ops: editorOps(r, r.below(8), gap, { exports }), later: editorOps(r, 1 + r.below(12), gap, { exports, resize: pid === "C17" }),
      faults: [],
    };
    if (r.chance(200)) phase.faults.push({ kind: "git", n: 1 + r.below(6) });
    if (r.chance(100)) phase.faults.push({ kind: "git-hang", n: 1 + r.below(6) });
    if (r.chance(200)) phase.faults.push({ kind: "grammarly", n: 1 });
    if (pid === "C18") {
      phase.lateFaults = r.chance(500);
      if (r.chance(400)) for (let k = 1 + r.below(4); k > 0; k--) phase.faults.push({ kind: r.pick(["quota", "quota", "reader"]), n: 1 + r.below(30) });
      if (r.chance(i + 1 < n ? 700 : 200)) phase.close = r.below(r.pick([50, 500, 4000, 12000]));
      if (phase.close !== undefined && r.chance(500)) {
        phase.ops = editorOps(r, 12, Math.max(2, phase.close / 10));
      }
      if (r.chance(300)) remote = project(r, "remote" + i);
    }
    phases.push(phase);
  }
  return { sched: sched(r), storage, phases };
}

function converterScenario(r) {
  const ops = [];
  let t = 0;
  const gap = r.pick([3, 30, 300, 2000]);
  let text = "";
  for (let i = 1 + r.below(20); i > 0; i--) {
    t += r.chance(250) ? 0 : r.below(gap);
    const w = r.below(100);
    if (w < 65) {
      text = r.chance(300) ? "" : text.slice(0, r.below(text.length + 1));
      text += r.pick(["x", "\\frac{a}{b}", "!", "bad1", "dab", "é", "`", "$", "\\", "漢", " y "]);
      ops.push({ t, op: "type", text });
    } else if (w < 90) ops.push({ t, op: "copy", n: r.below(2) });
    else ops.push({ t, op: "focus" });
  }
  return { cfg: { dark: r.chance(500), wasm: r.chance(300) ? r.below(3000) : 0, script: r.chance(300) ? r.below(3000) : 0 }, sched: sched(r), ops };
}

// ---- properties -------------------------------------------------------------------

const STUB = ["browser document, timers, frames, clock, storage, file readers (simulated)", "vanjs and CodeMirror (stand-ins with their documented behaviour)",
  "Typst compiler and renderer (one instance serving calls in order)"];

export const WEB = {
  C16: {
    bundles: ["loader", "converter"], scenario: (seed) => ({ property: "C16", seed, ...converterScenario(new Rng("C16", seed)) }), run: converterRun,
    rule: "a run is one visit of the converter page with its inputs; non-trivial when two pictures were asked for; distinct by the hash of the whole event trace",
    real: ["mitex-web main.ts and loader.mjs"], stub: [...STUB, "mitex-wasm (conversion)"],
  },
};
const RULE = {
  C17: "a run is one visit of the editor page; non-trivial when it compiled at least twice",
  C18: "a run is one to three visits of the editor page over one storage; non-trivial when at least two saves were made",
  C19: "a run is one visit of the editor page; non-trivial when at least one export was saved",
};
for (const pid of ["C17", "C18", "C19"]) {
  WEB[pid] = {
    bundles: ["underleaf"], scenario: (seed) => ({ property: pid, seed, ...editorScenario(new Rng(pid, seed), pid) }),
    run: (sc, source, trace) => editorRun(pid, sc, source, trace),
    rule: RULE[pid] + "; distinct by the hash of the whole event trace",
    real: ["mitex-web tools/underleaf*.ts, tools/typst.ts, loader.mjs", "typst-dom"], stub: [...STUB, "git over HTTP and its file system"],
    simplify: function* (sc) {
      for (let i = 0; i < sc.phases.length; i++) {
        if (sc.phases.length > 1) yield { ...sc, phases: sc.phases.filter((_, k) => k !== i) };
        for (const key of ["ops", "later", "faults"]) {
          for (let k = 0; k < sc.phases[i][key].length; k++) {
            yield { ...sc, phases: sc.phases.map((p, j) => (j === i ? { ...p, [key]: p[key].filter((_, m) => m !== k) } : p)) };
          }
        }
      }
      if (sc.storage) yield { ...sc, storage: undefined };
    },
  };
}
