// One simulated run of the preview: a host, a document view, and scheduled events.
import { Host, Rng } from "./host.mjs";
import { Session, edit, outlineOf, pageInner, pageTid } from "./model.mjs";

export const FACTORS = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1, 1.1, 1.3, 1.5, 1.7, 1.9, 2.1, 2.4, 2.7, 3, 3.3, 3.7, 4.1, 4.6, 5.1, 5.7,
  6.3, 7, 7.7, 8.5, 9.4, 10];
const LIMITS = { events: 60000, time: 3.6e6 };
const SVGNS = "http://www.w3.org/2000/svg";

export class World {
  constructor(sc, source, trace) {
    this.sc = sc;
    this.cfg = sc.cfg;
    this.host = new Host(sc.sched, trace);
    this.versions = new Map([[0, { pages: [] }]]);
    this.latest = 0;
    this.faultCount = {};
    this.fired = {};
    this.armed = true;
    this.view = { left: 0, top: 0, width: sc.cfg.width || 800, height: sc.cfg.height || 600 };
    this.color = "white";
    this.partial = !!sc.cfg.partial || sc.cfg.mode === "content";
    this.zoom = FACTORS.indexOf(1);
    this.slide = 0;
    this.slideSure = true;
    this.outline = undefined;
    this.cursor = undefined;
    this.submitted = [];
    const w = this.host.window;
    if (sc.cfg.vscode) w.acquireVsCodeApi = () => ({});
    this.subject = this.host.load(source["typst-dom"] ?? source);
    if (source["typst-tools"]) this.tools(source["typst-tools"]);
    const d = this.host.document;
    const ind = d.createElement("span");
    ind.setAttribute("class", "typst-page-number-indicator");
    d.body.appendChild(ind);
    this.indicator = ind;
    this.main = this.first = this.open();
    this.violation = undefined;
  }

  /// The page's own tools, in a window that knows where things are.
  tools(source) {
    const w = this.host.window;
    this.host.load(source);
    const init = w.initTypstSvg;
    w.initTypstSvg = (root) => (w.initialised.push(root), init(root));
    this.scrolls = [];
    w.scrollTo = (o) => this.scrolls.push(o);
    this.host.document.$layout = (e) => this.layout(e);
  }
  layout(e) {
    if (e === this.host.document.body) return { left: this.view.left - 3, top: this.view.top - 7, width: 900, height: 4000 };
    const root = this.main?.elem.firstElementChild;
    if (!root || (e !== root && e.parentNode !== root)) return undefined;
    const at = /translate\(([-0-9.e]+)px,\s*([-0-9.e]+)px\)/.exec(this.main.elem.style.transform || "");
    const num = (x, name) => Number(x.getAttribute(name)) || 0;
    const r = { left: this.view.left + Number(at?.[1] ?? 0), top: this.view.top + Number(at?.[2] ?? 0), width: num(root, "width"), height: num(root, "height") };
    if (e === root) return r;
    const [sx, sy] = [r.width / num(root, "data-width"), r.height / num(root, "data-height")];
    const m = e.transform.baseVal.consolidate()?.matrix;
    return {
      left: r.left + (m?.e ?? 0) * sx, top: r.top + (m?.f ?? 0) * sy,
      width: num(e, "data-page-width") * sx, height: num(e, "data-page-height") * sy,
    };
  }

  fault(kind) {
    const n = (this.faultCount[kind] = (this.faultCount[kind] || 0) + 1);
    if (!this.armed) return false;
    if ((this.sc.faults || []).some((f) => f.kind === kind && f.n === n)) {
      this.fired[kind] = (this.fired[kind] || 0) + 1;
      this.host.log("fault", kind, n);
      return true;
    }
    return false;
  }

  /// A document view on a container of its own, or on one that was used before.
  open(used) {
    const { cfg, host, subject } = this;
    const d = host.document;
    const parent = used?.parent ?? d.createElement("div");
    const elem = used?.elem ?? d.createElement("div");
    if (!used) {
      parent.appendChild(elem);
      d.body.appendChild(parent);
      Object.defineProperty(elem, "$rect", { get: () => this.view });
    }
    const history = [];
    const session = new Session({ host, versions: this.versions, fault: (k) => this.fault(k), history });
    const { RenderMode, PreviewMode } = subject;
    const opts = {
      renderMode: cfg.mode === "canvas" ? RenderMode.Canvas : RenderMode.Svg,
      previewMode: cfg.mode === "slide" ? PreviewMode.Slide : PreviewMode.Doc,
      isContentPreview: cfg.mode === "content",
    };
    if (cfg.noSourceMapping) opts.sourceMapping = false;
    if (cfg.ownState) {
      opts.retrieveDOMState = () => {
        if (this.fault("dom")) throw new Error("injected: no container");
        return { width: this.view.width, height: this.view.height, boundingRect: { left: this.view.left, top: this.view.top } };
      };
    }
    const doc = new subject.TypstDocument(elem, session, opts);
    if (cfg.partial) doc.setPartialRendering(true);
    return { doc, elem, session, history, parent };
  }

  get content() {
    return this.versions.get(this.latest);
  }

  submit(kind, from, to) {
    const payload = `${kind}:${from}>${to}`;
    this.submitted.push({ kind, payload });
    this.host.log("submit", payload);
    this.main.doc.addChangement([kind === "new" ? "new" : "diff-v1", payload]);
  }

  /// The part of the history that precedes the last change of the window or zoom.
  layoutMark = 0;
  apply(o) {
    const { doc } = this.main;
    if (o.op === "resize" || o.op === "wheel") this.layoutMark = this.main.history.length;
    this.host.log("op", o.op);
    switch (o.op) {
      case "doc": {
        const next = this.versions.size;
        const next_doc = edit(this.content, o.seed, { maxPages: this.cfg.maxPages, cards: this.cfg.cards });
        this.versions.set(next, next_doc);
        const from = this.latest;
        this.latest = next;
        this.submit(o.kind === "new" ? "new" : "diff", o.kind === "new" ? 0 : from, next);
        if (this.cfg.mode === "slide" && next_doc.pages.length <= this.slide) this.slideSure = false;
        break;
      }
      case "burst":
        for (let i = 0; i < o.n; i++) this.apply({ op: "doc", kind: "diff", seed: o.seed * 31 + i });
        break;
      case "scroll":
      case "scrollto":
        this.view = { ...this.view, top: -(o.y ?? o.part * this.shownHeight()) };
        doc.addViewportChange();
        break;
      case "resize":
        this.view = { ...this.view, width: o.w };
        doc.addViewportChange();
        break;
      case "wheel": {
        const target = this.cfg.vscode ? this.host.window : this.host.document.body;
        if (o.ctrl) {
          if (o.dy < 0 && this.zoom < FACTORS.length - 1) this.zoom++;
          if (o.dy > 0 && this.zoom > 0) this.zoom--;
        }
        target.dispatchEvent({ type: "wheel", ctrlKey: o.ctrl, deltaY: o.dy, pageX: 10, pageY: 20 });
        break;
      }
      case "color":
        this.color = o.color;
        doc.setPageColor(o.color);
        break;
      case "partial":
        this.partial = o.on;
        doc.setPartialRendering(o.on);
        doc.addViewportChange();
        break;
      case "page": {
        const ok = doc.setPartialPageNumber(o.n);
        const n = this.main.session.doc.pages.length;
        if (ok !== (o.n >= 1 && o.n <= n)) this.fail("setPartialPageNumber", { page: o.n, of: n, returned: ok });
        if (ok) {
          this.slide = o.n - 1;
          this.slideSure = this.content.pages.length > this.slide && this.pendingFit();
        }
        break;
      }
      case "outline":
        this.outline = outlineOf(this.content, o.seed, o.stale);
        doc.setOutineData(this.outline);
        break;
      case "click":
        this.click(o.k, o.x, o.y);
        break;
      case "jump":
        this.jump(o.k, o.page, o.x, o.y);
        break;
      case "cursor":
        this.cursor = [o.page, o.x, o.y];
        doc.setCursor(o.page, o.x, o.y);
        break;
    }
  }

  /// The place in the source that the element shown stems from.
  sourceOf(e) {
    const { elem } = this.main;
    const { cfg } = this;
    if (this.closed || cfg.noSourceMapping || cfg.mode === "canvas" || cfg.mode === "content") return;
    for (; e && e !== elem; e = e.parentNode) {
      const kind = ["text", "group", "image", "shape", "page"].find((k) => e.classList?.contains("typst-" + k));
      if (!kind) continue;
      // the page itself, and the one group it consists of, come from no place
      if (kind === "page" || e.parentNode.classList.contains("typst-page")) return;
      const tid = (x) => x.closest(".typst-group").getAttribute("data-tid");
      const page = e.closest(".typst-page");
      const pages = [...elem.firstElementChild.children].filter((x) => x.classList.contains("typst-page"));
      const alike = [...page.querySelectorAll(".typst-" + kind)].filter((x) => tid(x) === tid(e));
      return `${pages.indexOf(page) + 1}/${kind}/${tid(e)}/${alike.indexOf(e)}`;
    }
  }
  ripples(name) {
    return [...this.host.document.body.children].filter((x) => x.className === name);
  }
  /// A ripple at this place is new, and goes when its animation ends.
  judgeRipple(name, before, left, top, what) {
    const fresh = this.ripples(name).filter((x) => !before.includes(x));
    if (!this.expect("ripples", fresh.length, 1, what)) return;
    const [r] = fresh;
    this.around("ripple left", Number.parseFloat(r.style.left), left, what);
    this.around("ripple top", Number.parseFloat(r.style.top), top, what);
    if (!r.style.animation) this.fail("ripple without animation", { what });
    this.host.at(this.host.now + 400, "animation", () => {
      r.dispatchEvent({ type: "animationend" });
      if (r.parentNode) this.fail("ripple left", { what });
    });
  }
  click(k, x, y) {
    const { elem } = this.main;
    const all = [elem, ...elem.querySelectorAll("*")];
    // mostly something that is drawn
    const drawn = k % 4 ? all.filter((e) => e.closest(".typst-page")) : all;
    const list = drawn.length ? drawn : all;
    const target = list[(k >>> 2) % list.length];
    const want = this.sourceOf(target);
    const sent = this.host.window.typstWebsocket.sent;
    const n = sent.length;
    const name = "typst-debug-react-ripple";
    const before = this.ripples(name);
    const errors = this.host.errors.length;
    target.dispatchEvent({ type: "click", clientX: x, clientY: y });
    const what = `click on ${canon(target).slice(0, 120)}`;
    this.clicks[want ? "mapped" : "unmapped"]++;
    if (this.host.errors.length > errors) this.fail("click failed", { what });
    if (!this.expect("location sent", sent.slice(n).join(" and "), want ? "srclocation " + want : "", what)) return;
    if (want) this.judgeRipple(name, before, x - (this.view.left - 3), y - (this.view.top - 7), what);
    else this.expect("ripples", this.ripples(name).length, before.length, what);
  }
  clicks = { mapped: 0, unmapped: 0, jumps: 0 };
  /// Follows a link in the document to a place in it.
  jump(k, n, x, y) {
    const w = this.host.window;
    const { elem } = this.main;
    const root = elem.firstElementChild;
    if (this.cfg.mode !== "svg" || root?.tagName !== "svg") return;
    const all = [...root.querySelectorAll("*")];
    const from = all.length ? all[k % all.length] : root;
    const pages = [...root.children].filter((e) => e.classList.contains("typst-page"));
    const name = "typst-jump-ripple";
    const before = this.ripples(name);
    const scrolls = this.scrolls.length;
    w.handleTypstLocation(from, n, x, y);
    const what = `jump to ${n} ${x} ${y} of ${pages.length}`;
    const got = this.scrolls.slice(scrolls);
    if (!this.expect("scrolls", got.length, n <= pages.length ? 1 : 0, what)) return;
    if (!got.length) return void this.expect("ripples", this.ripples(name).length, before.length, what);
    this.clicks.jumps++;
    const page = this.layout(pages[n - 1]);
    const size = (d) => Number(pages[n - 1].getAttribute("data-page-" + d));
    const body = this.layout(this.host.document.body);
    const left = page.left + (x / size("width")) * page.width - body.left;
    const top = page.top + (y / size("height")) * page.height - body.top;
    this.judgeRipple(name, before, left, top, what);
    this.around("scroll top", got[0].top, top - 0.382 * w.innerHeight, what);
    const ratio = w.innerWidth / page.width;
    if (ratio >= 0.901 || ratio < 0.499) this.around("scroll left", got[0].left, left - 0.07 * w.innerWidth, what);
  }

  /// Clicks at rest, after the view was closed, and in a view opened in the same place.
  async judgeClicks() {
    const r = new Rng("clicks", this.sc.seed);
    const several = (n) => {
      for (let i = 0; i < n && !this.violation; i++) this.click(r.next(), r.below(800), r.below(600));
      for (let i = 0; i < 3 && !this.violation; i++) this.jump(r.next(), 1 + r.below(this.cfg.maxPages), r.below(300), r.below(300));
    };
    several(12);
    if (!(await this.settle("clicks"))) return;
    if (r.chance(700)) {
      this.main.doc.dispose();
      this.closed = true;
      several(5);
      if (this.violation || !(await this.settle("closed"))) return;
      this.closed = false;
    }
    this.main = this.open(this.main);
    this.main.doc.addChangement(["new", `new:0>${this.latest}`]);
    if (!(await this.settle("reopened"))) return;
    several(12);
    await this.settle("reopened");
    for (const name of ["typst-debug-react-ripple", "typst-jump-ripple"]) this.expect("ripples left", this.ripples(name).length, 0, name);
  }

  /// How high the document is on the screen.
  shownHeight() {
    const widest = Math.max(...this.content.pages.map((p) => p.w), 1);
    return ((this.content.pages.reduce((a, p) => a + p.h, 0) * this.view.width) / widest) * this.ratio;
  }
  /// Whether every version from the renderer's to the latest has the chosen page.
  pendingFit() {
    for (let v = this.main.session.version; v <= this.latest; v++) {
      const d = this.versions.get(v);
      if (d && d.pages.length <= this.slide) return false;
    }
    return true;
  }

  fail(what, detail) {
    if (!this.violation) {
      this.violation = { what, detail, time: Math.round(this.host.now), errors: this.host.errors.slice(-3).map((e) => String(e?.message ?? e)) };
    }
  }

  async settle(stage) {
    const ok = await this.host.run(LIMITS, () => this.watch());
    if (!ok) this.fail("no rest", { stage, pending: this.host.queue.length });
    return ok;
  }

  watch() {
    const h = this.main.history;
    while (this.seen < h.length) {
      const e = h[this.seen++];
      // one rendering may paint several pages at a time, in page order
      const page = /^canvas (\d+)/.exec(e.what);
      if (e.what.startsWith("at ") || (page && e.inflight.every((p) => p < Number(page[1])))) continue;
      if (e.inflight.length) this.fail("overlap", { call: e.what, at: Math.round(e.t), pagesBeingPainted: e.inflight.join() });
    }
  }
  seen = 0;

  async run() {
    for (const o of this.sc.ops) this.host.at(o.t, "op", () => this.apply(o));
    await this.settle("inputs");
    return this;
  }

  // ---- judgements ------------------------------------------------------------

  /// Every submitted update reaches the renderer once, in order, unless a later full document supersedes it.
  judgeDelivery() {
    const h = this.main.history;
    const sent = this.submitted.map((s) => s.payload);
    let at = 0;
    let resets = 0;
    let lastNew = -1;
    for (let i = 0; i < this.submitted.length; i++) if (this.submitted[i].kind === "new") lastNew = i;
    const merged = [];
    for (let k = 0; k < h.length; k++) {
      const m = /^merge (.*)$/.exec(h[k].what);
      if (h[k].what === "reset") {
        resets++;
        continue;
      }
      if (!m) continue;
      merged.push(m[1]);
      const isNew = m[1].startsWith("new");
      if (isNew && resets === 0) return this.fail("full document merged into the old one", { merged, sent });
      if (!isNew && resets > 0) return this.fail("reset before an increment", { merged, sent });
      resets = 0;
      const j = sent.indexOf(m[1], at);
      if (j < 0) return this.fail("delivered twice or out of order", { merged, sent });
      for (let s = at; s < j; s++) {
        if (!this.submitted.slice(s + 1).some((x, q) => x.kind === "new" && s + 1 + q <= lastNew)) {
          return this.fail("update lost", { lost: sent[s], merged, sent });
        }
        if (!this.submitted.slice(s + 1, j + 1).some((x) => x.kind === "new")) {
          return this.fail("update overtaken", { lost: sent[s], merged, sent });
        }
      }
      at = j + 1;
    }
    if (at < sent.length) this.fail("update never delivered", { lost: sent.slice(at), merged });
  }

  expect(what, got, want, where) {
    const near = typeof want === "number" ? Math.abs(Number(got) - want) <= 1e-6 * Math.max(1, Math.abs(want)) : got === want;
    if (!near) this.fail(what, { where, expected: want, got });
    return near;
  }

  /// A place on the screen, up to about one pixel.
  around(what, got, want, where) {
    if (!(Math.abs(got - want) <= 1.5)) this.fail(what, { where, expected: want, got });
  }

  judgeShown(view = this.main, strict = true) {
    if (this.violation) return;
    if (view.session.version !== this.latest) {
      return this.fail("renderer behind", { at: view.session.version, latest: this.latest });
    }
    try {
      if (this.cfg.mode === "svg" || this.cfg.mode === "slide") this.judgeSvg(view, strict);
      else this.judgeCanvas(view);
    } catch (e) {
      this.fail("display not understood", { error: String(e?.stack || e).slice(0, 400), html: view.elem.innerHTML.slice(0, 600) });
    }
  }

  get ratio() {
    return FACTORS[this.zoom];
  }

  judgeSvg(view, strict) {
    const slide = this.cfg.mode === "slide";
    const root = view.elem.firstElementChild;
    if (!root || root.tagName !== "svg" || view.elem.children.length !== 1) {
      return this.fail("no document shown", { html: view.elem.innerHTML.slice(0, 300) });
    }
    const pages = this.content.pages;
    const shown = [...root.children].filter((x) => x.classList.contains("typst-page"));
    if (!this.expect("number of pages", shown.length, pages.length, "svg")) return;
    if (slide) {
      const at = view.doc.getPartialPageNumber() - 1;
      if (at < 0 || at >= pages.length) return this.fail("slide out of range", { slide: at + 1, pages: pages.length });
      if (view === this.main && this.slideSure && at !== this.slide) {
        return this.fail("slide changed", { chosen: this.slide + 1, shown: at + 1 });
      }
      this.slide = at;
      if (strict) this.expect("page count", this.indicator.textContent, String(pages.length), "indicator");
    }
    const dim = (x) => Number.parseFloat(x.toFixed(3));
    const list = slide ? [pages[this.slide]] : pages;
    let maxW = Math.max(...list.map((p) => dim(p.w)), 0);
    if (maxW < 1e-5) maxW = 1;
    const ratio = this.ratio;
    const margin = 5 / (ratio * (this.view.width ? this.view.width / maxW : 1));
    let y = 0;
    const inner = [...root.children].filter((x) => x.classList.contains("typst-page-inner"));
    if (!this.expect("page backgrounds", inner.length, list.length, "svg")) return;
    const viewport = this.viewport(root);
    for (let i = 0; i < pages.length; i++) {
      const p = pages[i];
      const g = shown[i];
      const where = `page ${i + 1} of ${pages.length}`;
      if (slide && i !== this.slide) {
        if (g.children.length) return this.fail("other slide shown", { where, html: g.outerHTML.slice(0, 300) });
        continue;
      }
      if (!this.expect("page width", Number(g.getAttribute("data-page-width")), dim(p.w), where)) return;
      if (!this.expect("page height", Number(g.getAttribute("data-page-height")), dim(p.h), where)) return;
      const k = slide ? 0 : i;
      const x = (maxW - dim(p.w)) / 2;
      if (strict) {
        const t = /translate\(([-0-9.e]+),\s*([-0-9.e]+)\)/.exec(g.getAttribute("transform") || "");
        if (!t) return this.fail("page not placed", { where, transform: g.getAttribute("transform") });
        this.expect("page left", Number(t[1]), x, where);
        const top = Number(t[2]);
        if (k === 0 ? Math.abs(top) > 1e-6 : top < y - 1e-6 || top > y + 4 * margin + 1e-6) {
          return this.fail("page top", { where, previousBottom: y, margin, got: top });
        }
        y = top;
        const t2 = /translate\(([-0-9.e]+),\s*([-0-9.e]+)\)/.exec(inner[k].getAttribute("transform") || "");
        this.expect("background left", Number(t2?.[1]), x, where);
        this.expect("background top", Number(t2?.[2]), y, where);
        this.expect("background width", Number(inner[k].getAttribute("width")), Math.floor(dim(p.w) * 100), where);
        this.expect("background height", Number(inner[k].getAttribute("height")), Math.floor(dim(p.h) * 100), where);
        this.expect("page color", inner[k].getAttribute("fill"), this.color, where);
      }
      const mixin = g.getAttribute("data-mixin-canvas") === "1";
      const h = dim(p.h);
      if (mixin) {
        if (strict && this.settled(view) && (!this.partial || (y + h > viewport.top && y < viewport.bottom))) {
          return this.fail("page in view not rendered", { where, viewport, y, h });
        }
        if (g.querySelectorAll("canvas").length !== 1) return this.fail("canvas missing", { where, html: g.outerHTML.slice(0, 300) });
        const canvas = g.querySelector("canvas");
        this.judgePixels(canvas, { w: dim(p.w), h, page: pageTid(p) }, 3, where);
      } else {
        const got = canonical(g.children);
        const ref = this.host.document.createElementNS(SVGNS, "g");
        ref.innerHTML = pageInner(p);
        const want = canonical(ref.children);
        if (got !== want) return this.fail("page content", { where, expected: want.slice(0, 1200), got: got.slice(0, 1200) });
        this.judgeGlyphs(g, where);
      }
      y += h;
      if (this.violation) return;
    }
    if (!strict) return;
    const width = maxW;
    this.expect("document width", Number(root.getAttribute("data-width")), width, "svg");
    this.expect("document height", Number(root.getAttribute("data-height")), y, "svg");
    const real = slide ? Math.min(this.view.width / width, this.view.height / y) : this.view.width / width;
    const scale = real * ratio;
    if (scale > 0) {
      if (Math.abs(Number(root.getAttribute("width")) - width * scale) > 1.001) {
        this.fail("scaled width", { where: "svg", expected: width * scale, got: root.getAttribute("width") });
      }
      const t = /translate\(([-0-9.e]+)px,\s*([-0-9.e]+)px\)/.exec(view.elem.style.transform || "");
      const left = Math.max((this.view.width - width * scale) / 2, 0);
      if (!(Math.abs(Number(t?.[1]) - left) <= 1.001)) this.fail("centering", { expected: left, got: view.elem.style.transform });
      if (Math.abs(Number(root.getAttribute("height")) - y * scale) > 1.001) {
        this.fail("scaled height", { where: "svg", expected: y * scale, got: root.getAttribute("height") });
      }
      const down = slide ? Math.max((this.view.height - y * scale) / 2, 0) : 0;
      if (!(Math.abs(Number(t?.[2]) - down) <= 1.001)) this.fail("vertical centering", { expected: down, got: view.elem.style.transform });
    }
    const box = (root.getAttribute("viewBox") || "").split(/[\s,]+/).map(Number);
    if (!(box.length === 4 && box[0] === 0 && box[1] === 0 && Math.abs(box[2] - width) <= 1.001 && Math.abs(box[3] - y) <= 1.001)) {
      this.fail("view box", { expected: [0, 0, width, y], got: root.getAttribute("viewBox") });
    }
    if (list.length) {
      const outer = [...root.children].filter((x) => x.classList.contains("typst-page-outer"));
      if (outer.length !== 1) return this.fail("background", { html: root.outerHTML.slice(0, 300) });
      const num = (k) => Number(outer[0].getAttribute(k));
      if (num("x") !== 0 || num("y") !== 0 || Math.abs(num("width") - width) > 1.001 || Math.abs(num("height") - y) > 1.001) {
        this.fail("background size", { expected: [width, y], got: outer[0].outerHTML });
      }
      this.expect("background color", outer[0].getAttribute("fill"), "#404040", "svg");
      // what is painted later hides what was painted before
      const place = (x) => [...root.children].indexOf(x);
      const over = list.some((_, k) => place(inner[k]) > place(shown[slide ? this.slide : k]) || place(outer[0]) > place(inner[k]));
      if (over) this.fail("painting order", { order: [...root.children].map((x) => x.getAttribute("class") || x.tagName).join() });
    }
    const init = this.host.window.initialised;
    if (init[init.length - 1] !== root) this.fail("handlers not installed", { calls: init.length });
    if (strict > 1 && this.cursor) {
      // the cursor is on the page it was set for, and only there
      const k = this.cursor[0] - 1;
      const there = slide ? k === this.slide : k >= 0 && k < pages.length;
      const circles = [...root.children].filter((x) => x.tagName === "circle");
      if (!this.expect("cursor", circles.length, there ? 1 : 0, "svg")) return;
      if (there) {
        const tr = (x) => /translate\(([-0-9.e]+),\s*([-0-9.e]+)\)/.exec(x.getAttribute("transform") || "")?.slice(1).join();
        const sc = Number(/scale\(([-0-9.e]+)\)/.exec(circles[0].getAttribute("transform") || "")?.[1] ?? 1);
        this.expect("cursor page", tr(circles[0]), tr(shown[k]), "svg");
        const at = ["cx", "cy"].map((a) => Number(circles[0].getAttribute(a)) * sc);
        if (Math.abs(at[0] - this.cursor[1]) > 1e-3 || Math.abs(at[1] - this.cursor[2]) > 1e-3) this.fail("cursor position", { expected: this.cursor, got: at });
      }
    }
  }

  viewport(root) {
    const w = Number(root.getAttribute("data-width"));
    const rev = (this.view.width ? w / this.view.width : 1) / this.ratio;
    const top = -this.view.top * rev;
    const slack = 2 * rev;
    return { top: top + slack, bottom: top + this.host.window.innerHeight * rev - slack };
  }

  /// Whether the last rendering knew the layout of the latest version: gaps between pages have
  /// a fixed size on the screen, and where pages are is known from the rendering before.
  settled(view) {
    const h = view.history;
    let n = 0;
    const since = view === this.main ? this.layoutMark : 0;
    for (let i = h.length - 1; i >= since && !h[i].what.startsWith("at "); i--) if (h[i].what.startsWith("svg")) n++;
    return n >= 2;
  }

  /// What the page refers to is defined: glyphs, clip paths and fills.
  judgeGlyphs(g, where) {
    const res = this.host.document.getElementById("typst-svg-resources");
    const ids = new Set(res ? [...res.querySelectorAll("*")].map((x) => x.id) : []);
    const rules = new Set(res ? [...res.querySelectorAll("style")].flatMap((x) => [...x.sheet.cssRules].map((y) => y.cssText.split(" ")[0])) : []);
    for (const u of g.querySelectorAll("use")) {
      const id = (u.getAttribute("href") || "").slice(1);
      if (!ids.has(id)) return this.fail("glyph undefined", { where, id });
    }
    for (const x of g.querySelectorAll("g")) {
      const clip = /^url\(#(.*)\)$/.exec(x.getAttribute("clip-path") || "");
      if (clip && !ids.has(clip[1])) return this.fail("clip path undefined", { where, id: clip[1] });
      const fill = [...x.classList].find((c) => /^f\d+$/.test(c));
      if (fill && !rules.has("." + fill)) return this.fail("fill undefined", { where, fill });
    }
    if (!rules.has(".tsel") || !rules.has(".typst-text")) this.fail("base style undefined", { where });
  }

  judgePixels(canvas, p, ppp, where) {
    if (!canvas) return this.fail("canvas missing", { where });
    this.expect("canvas width", canvas.width, Math.floor(p.w * ppp), where);
    this.expect("canvas height", canvas.height, Math.floor(p.h * ppp), where);
    if (canvas.$pixels?.page !== p.page) this.fail("canvas content", { where, expected: p.page, got: canvas.$pixels?.page ?? "blank" });
    else if (canvas.$pixels.ppp !== ppp) this.fail("canvas resolution", { where, expected: ppp, got: canvas.$pixels.ppp });
  }

  judgeCanvas(view) {
    const root = view.elem.firstElementChild;
    const pages = this.content.pages;
    const content = this.cfg.mode === "content";
    if (!root || view.elem.children.length !== 1) return this.fail("no document shown", { html: view.elem.innerHTML.slice(0, 300) });
    const shown = root.querySelectorAll(".typst-page");
    const order = [...shown].map((x) => Number(x.getAttribute("data-page-number")));
    const want = pages.map((_, i) => i);
    if (order.join() !== want.join()) return this.fail("pages shown", { expected: want.join(), got: order.join() });
    if (!content && [...root.children].length !== pages.length) return this.fail("other elements", { html: root.innerHTML.slice(0, 300) });
    const ppp = content ? 1 : 3;
    const cw = content ? this.view.width - 10 : this.view.width;
    for (let i = 0; i < pages.length; i++) {
      const p = pages[i];
      const where = `page ${i + 1} of ${pages.length}`;
      const elem = shown[i].firstElementChild;
      if (elem.querySelectorAll("canvas").length !== 1) return this.fail("canvas missing", { where });
      this.expect("page width", elem.getAttribute("data-page-width"), p.w.toFixed(3), where);
      this.expect("page height", elem.getAttribute("data-page-height"), p.h.toFixed(3), where);
      this.judgePixels(elem.querySelector("canvas"), { w: p.w, h: p.h, page: pageTid(p) }, ppp, where);
      const scale = (cw / Number(p.w.toFixed(3))) * this.ratio;
      this.expect("applied scale", Number(elem.getAttribute("data-applied-scale")), scale / ppp, where);
      const size = ["width", "height"].map((k) => Number.parseFloat(elem.style[k]));
      if (!(Math.abs(size[0] - p.w * scale) <= 1.001 + scale * 1e-3 && Math.abs(size[1] - p.h * scale) <= 1.001 + scale * 1e-3)) {
        this.fail("size on the screen", { where, expected: [p.w * scale, p.h * scale], got: size });
      }
      const by = Number(/scale\(([-0-9.e]+)\)/.exec(elem.style.transform || "")?.[1]);
      if (!(Math.abs(by - scale / ppp) <= 1e-6)) this.fail("scale on the screen", { where, expected: scale / ppp, got: elem.style.transform });
      if (this.violation) return;
    }
    if (content) this.judgeOutline(root);
  }

  judgeOutline(root) {
    const titles = [...root.querySelectorAll(".typst-outline-title")].map((t) => t.lastElementChild.textContent);
    const want = [];
    const go = (l, depth) => l.forEach((x) => (want.push(x.title), go(x.children, depth + 1)));
    if (this.outline) go(this.outline.items, 1);
    if (titles.join("|") !== want.join("|")) return this.fail("outline", { expected: want.join("|"), got: titles.join("|") });
    // an entry with a source location leads there, a page to its place in the outline
    const sent = this.host.window.typstWebsocket.sent;
    const spans = [];
    const walk = (l) => l.forEach((x) => (spans.push(x.span), walk(x.children)));
    if (this.outline) walk(this.outline.items);
    [...root.querySelectorAll(".typst-outline-title")].forEach((t, i) => {
      const n = sent.length;
      if (spans[i]) t.firstElementChild.click();
      else this.expect("title parts", t.children.length, 1, t.textContent);
      const got = sent.slice(n).join();
      this.expect("location sent", got, spans[i] ? `srclocation ${spans[i]}` : "", t.textContent);
    });
    [...root.querySelectorAll(".typst-page")].forEach((p, i) => {
      const n = sent.length;
      p.click();
      this.expect("page click sent", sent.slice(n).join(), `outline-sync,${i + 1}`, `page ${i + 1}`);
    });
    // every entry that holds something can be collapsed and opened again
    for (const t of root.querySelectorAll(".typst-outline-title")) {
      const entry = t.parentElement;
      const clickable = t.lastElementChild.style.cursor === "pointer";
      this.expect("clickable", clickable, entry.querySelectorAll(".typst-outline, .typst-page").length > 0, t.textContent);
      if (!clickable) continue;
      for (const on of [true, false]) {
        t.lastElementChild.click();
        this.expect("collapsed", entry.classList.contains("collapsed"), on, t.textContent);
      }
    }
  }

  /// A fresh view of the same document, with the same settings, for comparison.
  async fresh() {
    const old = this.main;
    old.doc.dispose();
    const body = this.cfg.vscode ? this.host.window : this.host.document.body;
    if (body.$listenerCount("wheel") !== 0) this.fail("listener left after dispose", {});
    const a = shape(old.elem);
    old.parent.remove();
    const zoom = this.zoom;
    const v = this.open();
    const { doc } = v;
    doc.setPageColor(this.color);
    doc.setPartialRendering(this.partial);
    if (this.cursor) doc.setCursor(...this.cursor);
    if (this.outline) doc.setOutineData(this.outline);
    for (let z = FACTORS.indexOf(1); z !== zoom; z += z < zoom ? 1 : -1) {
      body.dispatchEvent({ type: "wheel", ctrlKey: true, deltaY: z < zoom ? -1 : 1, pageX: 0, pageY: 0 });
    }
    doc.addChangement(["new", `new:0>${this.latest}`]);
    if (!(await this.settle("fresh"))) return;
    if (this.cfg.mode === "slide") doc.setPartialPageNumber(this.slide + 1);
    doc.addViewportChange();
    if (!(await this.settle("fresh"))) return;
    const b = shape(v.elem);
    if (a !== b) {
      let i = 0;
      while (a[i] === b[i]) i++;
      this.fail("differs from a fresh view", { fresh: b.slice(Math.max(0, i - 200), i + 300), shown: a.slice(Math.max(0, i - 200), i + 300) });
    }
    return v;
  }
}

const HIDDEN = new Set(["data-reuse-from", "data-bad-equality", "data-dummy"]);

function canon(n) {
  if (n.nodeType === 3) return n.data;
  const at = [...n.attributes].filter((a) => !HIDDEN.has(a.name)).map((a) => `${a.name}=${JSON.stringify(a.value)}`).sort();
  return `<${n.localName} ${at.join(" ")}>${n.childNodes.map(canon).join("")}</>`;
}
function canonical(list) {
  return [...list].map(canon).join("");
}
function shape(elem) {
  return canonical(elem.children) + "|" + elem.style.cssText + "|" + elem.className;
}
