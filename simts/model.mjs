// Documents, their versions, and the simulated renderer session that holds one.
import { Rng, hash32 } from "./host.mjs";

const hex = (...p) => (hash32("tid", ...p) >>> 0).toString(36);

// ---- documents -----------------------------------------------------------
// page: {w, h, groups: [group]}; group: {text, glyphs: [n], subs: [group]}

export function groupTid(g) {
  return (g.tid ||= "g" + hex(g.text, g.glyphs.join(), g.rect || "", g.fill || "", g.clip || "", g.subs.map(groupTid).join()));
}
export function pageTid(p) {
  return (p.tid ||= "p" + hex(p.w, p.h, p.groups.map(groupTid).join()));
}

function newGroup(r, depth) {
  const subs = [];
  if (depth > 0) for (let i = r.below(3); i > 0; i--) subs.push(newGroup(r, depth - 1));
  const glyphs = [];
  for (let i = r.below(3); i > 0; i--) glyphs.push(r.below(40));
  const fill = r.chance(300) ? 1 + r.below(12) : 0;
  const clip = r.chance(200) ? 1 + r.below(12) : 0;
  return { text: "t" + r.below(60), glyphs, rect: r.chance(300) ? 1 + r.below(9) : 0, fill, clip, subs };
}

function newPage(r, sizes) {
  const [w, h] = r.pick(sizes);
  const groups = [];
  const many = r.chance(120);
  for (let i = 1 + r.below(many ? 24 : 3); i > 0; i--) groups.push(newGroup(r, many ? 0 : 2));
  return { w, h, groups };
}

const SIZES = [
  [595.28, 841.89],
  [595.28, 841.89],
  [300, 200],
  [200, 300],
  [612.123456, 792],
  [300, 60],
];

const CARDS = [
  [600, 60],
  [300, 60],
  [300, 90],
  [600, 40],
];

const bare = (g) => ({ text: g.text, glyphs: g.glyphs, rect: g.rect, fill: g.fill, clip: g.clip, subs: g.subs });

/// One edit of a document; versions share unchanged parts.
export function edit(doc, seed, opts) {
  const r = new Rng("edit", seed);
  const pages = [...doc.pages];
  const max = opts.maxPages || 8;
  const sizes = opts.cards ? CARDS : SIZES;
  if ((opts.cards || max >= 24) && !pages.length) for (let i = r.range(2, max); i > 0; i--) pages.push(newPage(r, sizes));
  const n = 1 + (r.chance(300) ? r.below(3) : 0);
  for (let k = 0; k < n; k++) {
    const i = r.below(pages.length || 1);
    const what = r.below(100);
    if (!pages.length || (what < 14 && pages.length < max)) pages.splice(i, 0, newPage(r, sizes));
    else if (what < 22 && pages.length < max) pages.push(newPage(r, sizes));
    else if (what < 32 && pages.length > 1) pages.splice(i, 1);
    else if (what < (max >= 24 ? 33 : 36) && pages.length > 1) pages.splice(1 + r.below(pages.length - 1));
    else if (what < 42 && pages.length > 1) pages.splice(r.below(pages.length), 0, pages.splice(i, 1)[0]);
    else if (what < 46 && pages.length < max) pages.splice(r.below(pages.length + 1), 0, pages[i]);
    else if (what < 52) {
      const [w, h] = r.pick(sizes);
      pages[i] = { w, h, groups: pages[i].groups };
    } else if (what < 58) {
      // nothing changes
    } else {
      const groups = [...pages[i].groups];
      editGroups(groups, r, 2);
      pages[i] = { w: pages[i].w, h: pages[i].h, groups };
    }
  }
  return { pages };
}

function editGroups(groups, r, depth) {
  const i = r.below(groups.length || 1);
  const what = r.below(100);
  if (r.chance(60)) {
    const keep = r.range(200, 900);
    groups.splice(0, groups.length, ...groups.filter(() => r.chance(keep)));
  } else if (r.chance(40)) {
    for (let k = groups.length - 1; k > 0; k--) {
      const j = r.below(k + 1);
      [groups[k], groups[j]] = [groups[j], groups[k]];
    }
  } else if (!groups.length || what < 18) groups.splice(r.below(groups.length + 1), 0, newGroup(r, depth));
  else if (what < 30) groups.splice(i, 1);
  else if (what < 44) groups.splice(r.below(groups.length), 0, groups.splice(i, 1)[0]);
  else if (what < 54) groups.splice(r.below(groups.length + 1), 0, groups[i]);
  else if (what < 74 && depth > 0) {
    const subs = [...groups[i].subs];
    editGroups(subs, r, depth - 1);
    groups[i] = { ...bare(groups[i]), subs };
  } else if (what < 84) groups[i] = { ...bare(groups[i]), text: "t" + r.below(60) };
  else if (what < 88) groups[i] = { ...bare(groups[i]), fill: r.below(13) };
  else if (what < 92) groups[i] = { ...bare(groups[i]), clip: r.below(13) };
  else groups[i] = { ...bare(groups[i]), rect: r.below(10) };
}

export function outlineOf(doc, seed, stale) {
  const r = new Rng("outline", seed);
  const n = doc.pages.length + (stale ? r.below(4) : 0);
  let page = 1;
  let left = 12;
  const items = (depth) => {
    const l = [];
    for (let i = r.below(depth ? 3 : 4); i > 0 && left > 0; i--) {
      left--;
      page = Math.min(n || 1, page + r.below(3));
      const it = { title: "h" + r.below(9), children: [] };
      if (r.chance(700)) it.span = "s" + r.below(9);
      if (r.chance(850)) it.position = { page_no: page, x: 1, y: 1 };
      if (depth < 2) it.children = items(depth + 1);
      l.push(it);
    }
    return l;
  };
  return { items: items(0) };
}

// ---- what a page looks like on screen ----------------------------------------

export function groupMarkup(g, old, free) {
  const tid = groupTid(g);
  const at = groupAttrs(g);
  if (old && old.some((o) => groupTid(o) === tid)) return `<g ${at} data-reuse-from="${tid}"/>`;
  // a changed group is described relative to an old one that is not shown any more
  const i = free && g.subs.length ? free.findIndex((o) => o.text === g.text && o.subs.length) : -1;
  const base = i >= 0 ? free.splice(i, 1)[0] : undefined;
  const from = base ? ` data-reuse-from="${groupTid(base)}"` : "";
  return `<g ${at}${from}>${groupInner(g, base)}</g>`;
}

function groupAttrs(g) {
  const clip = g.clip ? ` clip-path="url(#clip-${g.clip})"` : "";
  return `class="typst-group${g.fill ? " f" + g.fill : ""}"${clip} data-tid="${groupTid(g)}"`;
}

export const fillRule = (n) => `.f${n} { --glyph_fill: #${n}${n}${n}; }`;

function groupsMarkup(groups, old) {
  const now = new Set(groups.map(groupTid));
  const free = old?.filter((o) => !now.has(groupTid(o)));
  return groups.map((g) => groupMarkup(g, old, free)).join("");
}

function groupInner(g, base) {
  const rect = !g.rect ? "" : g.rect % 3 ? `<path class="typst-shape" d="M 0 0 L ${g.rect} ${g.rect}"/>` : `<image class="typst-image" width="${g.rect}"/>`;
  const uses = g.glyphs.map((n) => `<use href="#glyph-${n}" x="${n}"/>`).join("");
  return rect + uses + groupsMarkup(g.subs, base?.subs) + textMarkup(g, base);
}

/// Some texts stand at a place of their own.
function textMarkup(g, base) {
  const text = `<text class="typst-text" data-text="${g.text}">${g.text}</text>`;
  const n = Number(g.text.slice(1));
  if (n % 3) return text;
  // how it is placed depends on where it stands, not on what it is
  const place = g.rect % 2 ? `transform="translate(${n}, 2)"` : g.rect % 5 ? `opacity="0.${n}"` : `transform="scale(${n})"`;
  const at = `${place} data-tid="x${g.text}"`;
  return base && base.text === g.text ? `<g ${at} data-reuse-from="x${g.text}"/>` : `<g ${at}>${text}</g>`;
}

/// The full content of a page, as a fresh rendering shows it: one group with all others.
export function pageInner(p, base) {
  const tid = bodyTid(p);
  const at = `class="typst-group" data-tid="${tid}"`;
  if (base && bodyTid(base) === tid) return `<g ${at} data-reuse-from="${tid}"/>`;
  const from = base ? ` data-reuse-from="${bodyTid(base)}"` : "";
  return `<g ${at}${from}>${groupsMarkup(p.groups, base?.groups)}</g>`;
}

export function bodyTid(p) {
  return (p.body ||= "b" + hex(p.groups.map(groupTid).join()));
}

// ---- what stems from the source ------------------------------------------------

const KINDS = ["text", "group", "image", "shape"];

/// The things of a group that stem from the source, in the order they are drawn.
function items(g) {
  const l = g.subs.map((x) => [1, x]);
  if (g.rect) l.unshift([g.rect % 3 ? 3 : 2, g]);
  l.push([0, g]);
  return l;
}

/// A name for what a path of (kind, index) pairs leads to: page, kind, group and occurrence.
export function sourceAt(doc, path) {
  const l = [...path];
  if (l.length % 2 || l.shift() !== 4) return "malformed path " + path;
  const no = l.shift();
  const page = doc.pages[no];
  if (!page) return "no such page " + path;
  if (!l.length) return undefined;
  const body = { subs: page.groups };
  let at = body;
  let list = page.groups.map((x) => [1, x]);
  let step;
  const trail = [];
  while (l.length) {
    const [kind, i] = [l.shift(), l.shift()];
    step = list[i];
    trail.push(i);
    if (!step || step[0] !== kind || (kind !== 1 && l.length)) return "no such item " + path;
    at = step[1];
    list = kind === 1 ? items(at) : [];
  }
  return `${no + 1}/${KINDS[step[0]]}/${groupTid(at)}/${occurrence(page, step, trail)}`;
}

/// How many things of the same kind and group are drawn before this one.
function occurrence(page, [kind, g], trail) {
  const tid = groupTid(g);
  let n = 0;
  let found;
  const walk = (list, at) => {
    list.forEach(([k, x], i) => {
      if (found !== undefined) return;
      const here = [...at, i];
      const same = k === kind && groupTid(x) === tid;
      if (same && here.join() === trail.join()) found = n;
      if (same) n++;
      if (k === 1) walk(items(x), here);
    });
  };
  walk(page.groups.map((x) => [1, x]), []);
  return found;
}

export function pageNeeds(p, into) {
  const go = (g) => {
    for (const n of g.glyphs) into.add("glyph-" + n);
    if (g.fill) into.add("fill-" + g.fill);
    if (g.clip) into.add("clip-" + g.clip);
    g.subs.forEach(go);
  };
  p.groups.forEach(go);
}

// ---- the renderer session ----------------------------------------------------

const SVG = `xmlns="http://www.w3.org/2000/svg"`;

export class Session {
  /// env: {host, versions, fault(kind), history}
  constructor(env) {
    this.env = env;
    this.version = 0;
    this.doc = { pages: [] };
    this.emitted = [];
    this.defined = new Set();
    this.first = true;
    this.inflight = [];
    this.backgroundColor = undefined;
    this.pixelPerPt = undefined;
    this.rules = 1;
  }
  $note(what) {
    this.env.host.log("renderer", what);
    this.env.history?.push({ t: this.env.host.now, what, inflight: [...this.inflight] });
  }
  $cost() {
    this.env.host.now += this.env.host.delay("cost");
  }
  reset() {
    this.$note("reset");
    this.version = 0;
    this.doc = { pages: [] };
    this.emitted = [];
    this.defined = new Set();
    this.first = true;
  }
  merge_delta(delta) {
    const m = /^(new|diff):(\d+)>(\d+)$/.exec(String(delta));
    this.$note("merge " + delta);
    this.$cost();
    if (!m) throw new Error("malformed delta");
    if (this.env.fault("merge")) throw new Error("injected: merge_delta failed");
    if (m[1] === "diff" && this.version !== Number(m[2])) throw new Error(`delta does not apply: at ${this.version}`);
    this.version = Number(m[3]);
    this.doc = this.env.versions.get(this.version);
    this.$note("at " + this.version);
  }
  manipulateData({ action, data }) {
    if (action === "reset") this.reset();
    this.merge_delta(data);
  }
  retrievePagesInfo() {
    return this.doc.pages.map((p, i) => ({ pageOffset: i, width: p.w, height: p.h }));
  }
  get docWidth() {
    return this.doc.pages.reduce((a, p) => Math.max(a, p.w), 0);
  }
  get docHeight() {
    return this.doc.pages.reduce((a, p) => a + p.h, 0);
  }
  get_source_loc(path) {
    return sourceAt(this.doc, path);
  }
  async renderCanvas({ canvas, pageOffset, cacheKey }) {
    const page = this.doc.pages[pageOffset];
    const n = (this.env.canvasCalls = (this.env.canvasCalls || 0) + 1);
    this.$note(`canvas ${pageOffset}`);
    this.inflight.push(pageOffset);
    const fail = this.env.fault("canvas");
    const ppp = this.pixelPerPt;
    try {
      await new Promise((r) => this.env.host.at(this.env.host.now + this.env.host.delay("canvas"), "canvas", r));
    } finally {
      this.inflight.splice(this.inflight.indexOf(pageOffset), 1);
    }
    this.env.host.log("canvas done", n);
    if (fail) throw new Error("injected: renderCanvas failed");
    if (!page) throw new Error("page offset out of range");
    const key = "k" + hex(pageTid(page), ppp);
    if (cacheKey !== key) {
      canvas.canvas.$pixels = { page: pageTid(page), w: canvas.canvas.width, h: canvas.canvas.height, ppp };
    }
    return { cacheKey: key };
  }
  render_in_window(lox, loy, hix, hiy) {
    this.$note("draw");
    this.$cost();
    if (this.env.fault("svg")) throw new Error("injected: render_in_window failed");
    this.$note(`svg ${lox.toFixed(1)} ${loy.toFixed(1)} ${hix > 1e9 ? "inf" : hix.toFixed(1)} ${hiy > 1e9 ? "inf" : hiy.toFixed(1)}`);
    return this.$svg(loy, hiy);
  }
  renderSvgDiff({ window: { lo, hi } }) {
    this.$note("draw");
    this.$cost();
    if (this.env.fault("svg")) throw new Error("injected: renderSvgDiff failed");
    this.$note(`svgdiff ${lo.y.toFixed(1)} ${hi.y.toFixed(1)}`);
    return this.$svg(lo.y, hi.y);
  }
  renderSvg() {
    return this.$svg(-1e33, 1e33);
  }
  $svg(lo, hi) {
    let y = 0;
    const need = new Set();
    const next = [];
    const used = new Set();
    let out = "";
    this.doc.pages.forEach((p, i) => {
      const visible = y + p.h > lo && y < hi;
      y += p.h;
      const tid = pageTid(p);
      const at = `class="typst-page" data-page-width="${p.w.toFixed(3)}" data-page-height="${p.h.toFixed(3)}"`;
      if (!visible) {
        next.push(null);
        out += `<g ${at} data-tid="d${tid}" data-dummy="1"/>`;
        return;
      }
      next.push(p);
      pageNeeds(p, need);
      const same = this.emitted.find((o) => o && pageTid(o) === tid);
      if (same) {
        out += `<g ${at} data-tid="${tid}" data-reuse-from="${tid}"/>`;
        return;
      }
      let base = this.emitted[i];
      if (base && (used.has(pageTid(base)) || this.doc.pages.some((q) => pageTid(q) === pageTid(base)))) base = undefined;
      if (base) used.add(pageTid(base));
      const from = base ? ` data-reuse-from="${pageTid(base)}"` : "";
      out += `<g ${at} data-tid="${tid}"${from}>${pageInner(p, base)}</g>`;
    });
    // what is new since the last rendering; resources already sent stay with the view
    const fresh = [...need].filter((x) => !this.defined.has(x)).sort();
    fresh.forEach((x) => this.defined.add(x));
    const of = (kind) => fresh.filter((x) => x.startsWith(kind)).map((x) => x.slice(5));
    const glyphs = fresh.filter((x) => x.startsWith("glyph")).map((x) => `<path id="${x}" class="outline_glyph" d="M 0 0"/>`).join("");
    const clips = of("clip-").map((n) => `<clipPath id="clip-${n}"><path d="M ${n} 0"/></clipPath>`).join("");
    this.emitted = next;
    const css = [...(this.first ? [".typst-text { pointer-events: bounding-box; }", ".tsel { color: transparent; }"] : []), ...of("fill-").map(fillRule)];
    const style = css.length ? `<style type="text/css">${css.join("\n")}</style>` : `<style type="text/css" data-reuse="1"></style>`;
    this.first = false;
    return `<svg style="overflow: visible;" class="typst-doc" ${SVG} viewBox="0 0 ${this.docWidth.toFixed(3)} ${this.docHeight.toFixed(3)}" width="${this.docWidth.toFixed(3)}" height="${this.docHeight.toFixed(3)}" data-width="${this.docWidth.toFixed(3)}" data-height="${this.docHeight.toFixed(3)}">` +
      `${style}<defs class="glyph">${glyphs}</defs><defs class="clip-path">${clips}</defs>${out}</svg>`;
  }
}
