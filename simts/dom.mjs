// A small document object model for the preview simulator: elements with live
// children and attributes, styles, classes, events, fragments parsed from markup,
// style sheets and recording canvases. It has no layout, no clock and no I/O; the
// host (host.mjs) provides sizes and time.

class LiveList extends Array {
  static get [Symbol.species]() {
    return Array;
  }
  item(i) {
    return this[i] ?? null;
  }
  $insert(i, x) {
    for (let k = this.length; k > i; k--) this[k] = this[k - 1];
    this[i] = x;
  }
  $delete(i) {
    for (let k = i; k + 1 < this.length; k++) this[k] = this[k + 1];
    this.pop();
  }
  namedItem(id) {
    return this.find((x) => x.id === id) ?? null;
  }
}

class AttrList extends LiveList {
  getNamedItem(name) {
    for (let i = 0; i < this.length; i++) if (this[i].name === name) return this[i];
    return null;
  }
  setNamedItem(attr) {
    this.owner.setAttribute(attr.name, attr.value);
  }
  removeNamedItem(name) {
    this.owner.removeAttribute(name);
  }
}

class DOMException2 extends Error {
  constructor(message, name) {
    super(message);
    this.name = name;
  }
}

class EventTarget2 {
  constructor() {
    this.$listeners = undefined;
  }
  addEventListener(type, f, options) {
    if (!f || options?.signal?.aborted) return;
    this.$listeners ??= new Map();
    const l = this.$listeners.get(type) || [];
    if (!l.includes(f)) l.push(f);
    this.$listeners.set(type, l);
    if (options?.once) (this.$once ??= new Map()).set(f, type);
    options?.signal?.addEventListener("abort", () => this.removeEventListener(type, f));
  }
  removeEventListener(type, f) {
    const l = this.$listeners?.get(type) || [];
    const i = l.indexOf(f);
    if (i >= 0) l.splice(i, 1);
    if (this.$once?.get(f) === type) this.$once.delete(f);
  }
  $listenerCount(type) {
    return (this.$listeners?.get(type) || []).length;
  }
  /// Fires at this target and then at its ancestors.
  dispatchEvent(event) {
    if (typeof Event !== "undefined" && event instanceof Event) event = { type: event.type, detail: event.detail };
    event.target ??= this;
    event.type ??= "event";
    event.preventDefault ??= () => (event.defaultPrevented = true);
    let stopped = false;
    event.stopPropagation ??= () => (stopped = true);
    event.stopImmediatePropagation ??= () => (stopped = true);
    for (let at = this; at && !stopped; at = at.parentNode) {
      event.currentTarget = at;
      for (const f of [...(at.$listeners?.get(event.type) || [])]) {
        if (at.$once?.get(f) === event.type) at.removeEventListener(event.type, f);
        if (typeof f === "function") f.call(at, event);
        else f.handleEvent(event);
      }
      const on = at["on" + event.type];
      if (typeof on === "function") on.call(at, event);
    }
    return !event.defaultPrevented;
  }
}

class Node2 extends EventTarget2 {
  constructor(doc) {
    super();
    this.ownerDocument = doc;
    this.parentNode = null;
    this.childNodes = new LiveList();
  }
  get parentElement() {
    return this.parentNode instanceof Element2 ? this.parentNode : null;
  }
  get isConnected() {
    for (let at = this; at; at = at.parentNode) if (at === this.ownerDocument) return true;
    return false;
  }
  get firstChild() {
    return this.childNodes[0] ?? null;
  }
  get lastChild() {
    return this.childNodes[this.childNodes.length - 1] ?? null;
  }
  get nextSibling() {
    const l = this.parentNode?.childNodes;
    return l ? l[l.indexOf(this) + 1] ?? null : null;
  }
  get previousSibling() {
    const l = this.parentNode?.childNodes;
    return l ? l[l.indexOf(this) - 1] ?? null : null;
  }
  hasChildNodes() {
    return this.childNodes.length > 0;
  }
  isSameNode(other) {
    return other === this;
  }
  getRootNode() {
    let at = this;
    while (at.parentNode) at = at.parentNode;
    return at;
  }
  compareDocumentPosition(other) {
    if (other === this) return 0;
    const path = (n) => {
      const l = [];
      for (let at = n; at; at = at.parentNode) l.unshift(at);
      return l;
    };
    const [a, b] = [path(this), path(other)];
    if (a[0] !== b[0]) return 1 | 32 | 2;
    let i = 0;
    while (i < a.length && a[i] === b[i]) i++;
    if (i === a.length) return 16 | 4;
    if (i === b.length) return 8 | 2;
    const l = a[i - 1].childNodes;
    return l.indexOf(a[i]) < l.indexOf(b[i]) ? 4 : 2;
  }
  get nodeValue() {
    return null;
  }
  contains(other) {
    for (let at = other; at; at = at.parentNode) if (at === this) return true;
    return false;
  }
  remove() {
    this.parentNode?.removeChild(this);
  }
  before(...nodes) {
    const p = this.parentNode;
    if (!p) return;
    for (const n of nodes) p.insertBefore(toNode(this.ownerDocument, n), this);
  }
  after(...nodes) {
    const p = this.parentNode;
    if (!p) return;
    let next = this.nextSibling;
    const list = nodes.map((n) => toNode(this.ownerDocument, n));
    while (next && list.includes(next)) next = next.nextSibling;
    for (const n of list) p.insertBefore(n, next);
  }
  replaceWith(...nodes) {
    const p = this.parentNode;
    if (!p) return;
    let next = this.nextSibling;
    const list = nodes.map((n) => toNode(this.ownerDocument, n));
    while (next && list.includes(next)) next = next.nextSibling;
    if (!list.includes(this)) p.removeChild(this);
    for (const n of list) p.insertBefore(n, next);
  }
}

function toNode(doc, n) {
  return n instanceof Node2 ? n : new Text2(doc, String(n));
}

class Text2 extends Node2 {
  constructor(doc, data) {
    super(doc);
    this.data = data;
    this.nodeType = 3;
  }
  get textContent() {
    return this.data;
  }
  set textContent(s) {
    this.data = String(s);
  }
  get nodeValue() {
    return this.data;
  }
  set nodeValue(s) {
    this.data = String(s);
  }
  get length() {
    return this.data.length;
  }
  get wholeText() {
    return this.data;
  }
  cloneNode() {
    return new Text2(this.ownerDocument, this.data);
  }
}

class ParentNode2 extends Node2 {
  constructor(doc) {
    super(doc);
    this.children = new LiveList();
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  get lastElementChild() {
    return this.children[this.children.length - 1] ?? null;
  }
  get childElementCount() {
    return this.children.length;
  }
  $sync() {
    const els = this.childNodes.filter((n) => n instanceof Element2);
    this.children.length = 0;
    for (const e of els) this.children.push(e);
  }
  $insertAt(n, i) {
    this.childNodes.$insert(i, n);
    n.parentNode = this;
    if (n instanceof Element2) {
      let at = i === this.childNodes.length - 1 ? this.children.length : 0;
      if (at === 0) for (let k = 0; k < i; k++) if (this.childNodes[k] instanceof Element2) at++;
      this.children.$insert(at, n);
    }
  }
  insertBefore(n, ref) {
    if (!(n instanceof Node2)) throw new TypeError("insertBefore: parameter 1 is not of type 'Node'");
    if (n.contains(this)) throw new DOMException2("The new child element contains the parent.", "HierarchyRequestError");
    if (n instanceof Fragment2) {
      for (const c of [...n.childNodes]) this.insertBefore(c, ref);
      return n;
    }
    if (ref === n) ref = n.nextSibling;
    if (ref && ref.parentNode !== this) {
      throw new DOMException2("The node before which the new node is to be inserted is not a child of this node.", "NotFoundError");
    }
    n.parentNode?.removeChild(n);
    this.$insertAt(n, ref ? this.childNodes.indexOf(ref) : this.childNodes.length);
    return n;
  }
  appendChild(n) {
    return this.insertBefore(n, null);
  }
  removeChild(n) {
    if (!n || n.parentNode !== this) {
      throw new DOMException2("The node to be removed is not a child of this node.", "NotFoundError");
    }
    this.childNodes.$delete(this.childNodes.indexOf(n));
    if (n instanceof Element2) this.children.$delete(this.children.indexOf(n));
    n.parentNode = null;
    return n;
  }
  replaceChild(n, old) {
    this.insertBefore(n, old);
    return this.removeChild(old);
  }
  append(...nodes) {
    for (const n of nodes) this.insertBefore(toNode(this.ownerDocument, n), null);
  }
  prepend(...nodes) {
    const ref = this.firstChild;
    for (const n of nodes) this.insertBefore(toNode(this.ownerDocument, n), ref);
  }
  replaceChildren(...nodes) {
    for (const c of [...this.childNodes]) this.removeChild(c);
    this.append(...nodes);
  }
  *$walk() {
    for (const c of this.children) {
      yield c;
      yield* c.$walk();
    }
  }
  querySelectorAll(sel) {
    const m = selector(sel);
    const r = new LiveList();
    for (const e of this.$walk()) if (m(e)) r.push(e);
    return r;
  }
  querySelector(sel) {
    const m = selector(sel);
    for (const e of this.$walk()) if (m(e)) return e;
    return null;
  }
  getElementsByClassName(names) {
    const want = names.split(/\s+/).filter((x) => x);
    const r = new LiveList();
    for (const e of this.$walk()) if (want.every((c) => hasClass(e, c))) r.push(e);
    return r;
  }
  getElementsByTagName(name) {
    const r = new LiveList();
    for (const e of this.$walk()) if (name === "*" || e.localName === name.toLowerCase() || e.localName === name) r.push(e);
    return r;
  }
  get textContent() {
    return this.childNodes.map((c) => c.textContent).join("");
  }
  set textContent(s) {
    for (const c of [...this.childNodes]) this.removeChild(c);
    if (s !== null && s !== undefined && String(s) !== "") this.append(String(s));
  }
}

class Fragment2 extends ParentNode2 {
  cloneNode(deep) {
    const f = new Fragment2(this.ownerDocument);
    if (deep) for (const c of this.childNodes) f.appendChild(c.cloneNode(true));
    return f;
  }
}

/// Compound selectors with descendant and child combinators.
function selector(text) {
  const alts = text.split(",").map((alt) => {
    const parts = alt.trim().replace(/\s*>\s*/g, " > ").split(/\s+/);
    const steps = [];
    let child = false;
    for (const p of parts) {
      if (p === ">") {
        child = true;
        continue;
      }
      const tests = [];
      const re = /([.#]?)([\w-]+|\*)|\[([\w-]+)(?:([~^$*]?=)"?([^"\]]*)"?)?\]|:(first-child|last-child)/gy;
      let m;
      let at = 0;
      while ((m = re.exec(p))) {
        at = re.lastIndex;
        if (m[3]) {
          const [, , , name, op, val] = m;
          if (op === undefined) tests.push((e) => e.hasAttribute(name));
          else if (op === "=") tests.push((e) => e.getAttribute(name) === val);
          else if (op === "^=") tests.push((e) => (e.getAttribute(name) || "").startsWith(val));
          else if (op === "$=") tests.push((e) => (e.getAttribute(name) || "").endsWith(val));
          else if (op === "*=") tests.push((e) => (e.getAttribute(name) || "").includes(val));
          else tests.push((e) => (e.getAttribute(name) || "").split(/\s+/).includes(val));
        } else if (m[6]) {
          const first = m[6] === "first-child";
          tests.push((e) => e.parentNode && (first ? e.parentNode.firstElementChild : e.parentNode.lastElementChild) === e);
        } else if (m[1] === ".") {
          const c = m[2];
          tests.push((e) => hasClass(e, c));
        } else if (m[1] === "#") {
          const c = m[2];
          tests.push((e) => e.id === c);
        } else if (m[2] !== "*") {
          const c = m[2];
          tests.push((e) => e.localName === c || (e.$html && e.localName === c.toLowerCase()));
        }
      }
      if (at !== p.length) throw new DOMException2(`'${text}' is not a valid selector.`, "SyntaxError");
      steps.push({ test: (e) => tests.every((t) => t(e)), child });
      child = false;
    }
    return steps;
  });
  const match = (e, steps, i) => {
    if (!steps[i].test(e)) return false;
    if (i === 0) return true;
    for (let p = e.parentElement; p; p = p.parentElement) {
      if (match(p, steps, i - 1)) return true;
      if (steps[i].child) break;
    }
    return false;
  };
  return (e) => alts.some((steps) => match(e, steps, steps.length - 1));
}

const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
const kebab = (s) => s.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());

function styleOf(el) {
  const props = new Map();
  const text = () => [...props].map(([k, v]) => `${k}: ${v};`).join(" ");
  const write = () => {
    if (props.size || el.hasAttribute("style")) el.$setAttr("style", text());
  };
  const api = {
    $read(value) {
      props.clear();
      for (const d of String(value || "").split(";")) {
        const i = d.indexOf(":");
        if (i > 0) props.set(d.slice(0, i).trim(), d.slice(i + 1).trim());
      }
    },
    setProperty(k, v) {
      // a value a browser cannot parse leaves the declaration as it was
      if (/\bNaN/.test(String(v))) return;
      if (v === "" || v === null || v === undefined) props.delete(k);
      else props.set(k, String(v));
      write();
    },
    removeProperty(k) {
      const old = props.get(k) ?? "";
      props.delete(k);
      write();
      return old;
    },
    getPropertyValue(k) {
      return props.get(k) ?? "";
    },
    get length() {
      return props.size;
    },
    get cssText() {
      return text();
    },
    set cssText(v) {
      api.$read(v);
      write();
    },
  };
  return new Proxy(api, {
    get: (t, k) => (k in t || typeof k === "symbol" ? t[k] : props.get(kebab(k)) ?? ""),
    set: (t, k, v) => {
      if (k === "cssText") t.cssText = v;
      else t.setProperty(kebab(k), v);
      return true;
    },
  });
}

class ClassList {
  constructor(el) {
    this.el = el;
  }
  get $list() {
    const c = this.el.getAttribute("class");
    return c ? c.split(/\s+/).filter((x) => x) : [];
  }
  set $list(l) {
    this.el.setAttribute("class", l.join(" "));
  }
  contains(c) {
    return hasClass(this.el, c);
  }
  add(...cs) {
    this.$list = [...new Set([...this.$list, ...cs])];
  }
  remove(...cs) {
    const l = this.$list;
    if (l.length || this.el.hasAttribute("class")) this.$list = l.filter((c) => !cs.includes(c));
  }
  toggle(c, force) {
    const on = force ?? !this.contains(c);
    if (on) this.add(c);
    else this.remove(c);
    return on;
  }
  replace(a, b) {
    if (!this.contains(a)) return false;
    this.$list = this.$list.map((x) => (x === a ? b : x));
    return true;
  }
  item(i) {
    return this.$list[i] ?? null;
  }
  get length() {
    return this.$list.length;
  }
  get value() {
    return this.el.getAttribute("class") || "";
  }
  set value(v) {
    this.el.setAttribute("class", v);
  }
  [Symbol.iterator]() {
    return this.$list[Symbol.iterator]();
  }
  forEach(f) {
    this.$list.forEach(f);
  }
  values() {
    return this.$list.values();
  }
  keys() {
    return this.$list.keys();
  }
  entries() {
    return this.$list.entries();
  }
  toString() {
    return this.value;
  }
}

function hasClass(el, c) {
  const v = el.getAttribute("class");
  if (v === null || v.length < c.length) return false;
  return v === c || (v.includes(c) && v.split(/\s+/).includes(c));
}

const VOID = new Set(["br", "img", "input", "link", "meta", "hr"]);
const SVG = "http://www.w3.org/2000/svg";
const HTML = "http://www.w3.org/1999/xhtml";

class Element2 extends ParentNode2 {
  constructor(doc, name, ns) {
    super(doc);
    this.nodeType = 1;
    this.namespaceURI = ns;
    this.$html = ns === HTML;
    this.localName = name;
    this.attributes = new AttrList();
    this.attributes.owner = this;
  }
  get classList() {
    return (this.$classList ??= new ClassList(this));
  }
  get style() {
    if (!this.$style) {
      this.$style = styleOf(this);
      if (this.hasAttribute("style")) this.$style.$read(this.getAttribute("style"));
    }
    return this.$style;
  }
  set style(v) {
    this.style.cssText = v;
  }
  get tagName() {
    return this.$html ? this.localName.toUpperCase() : this.localName;
  }
  get nodeName() {
    return this.tagName;
  }
  get id() {
    return this.getAttribute("id") || "";
  }
  set id(v) {
    this.setAttribute("id", v);
  }
  get className() {
    return this.getAttribute("class") || "";
  }
  set className(v) {
    this.setAttribute("class", v);
  }
  get dataset() {
    return new Proxy(
      {},
      {
        get: (_, k) => this.getAttribute("data-" + kebab(String(k))) ?? undefined,
        set: (_, k, v) => (this.setAttribute("data-" + kebab(String(k)), v), true),
        has: (_, k) => this.hasAttribute("data-" + kebab(String(k))),
        deleteProperty: (_, k) => (this.removeAttribute("data-" + kebab(String(k))), true),
      }
    );
  }
  $setAttr(name, value) {
    const a = this.attributes.getNamedItem(name);
    if (a) a.value = String(value);
    else this.attributes.push({ name, localName: name, value: String(value) });
  }
  getAttribute(name) {
    const l = this.attributes;
    for (let i = 0; i < l.length; i++) if (l[i].name === name) return l[i].value;
    return null;
  }
  getAttributeNS(_ns, name) {
    return this.getAttribute(name);
  }
  getAttributeNames() {
    return this.attributes.map((a) => a.name);
  }
  getAttributeNode(name) {
    return this.attributes.getNamedItem(name);
  }
  hasAttribute(name) {
    return this.getAttribute(name) !== null;
  }
  hasAttributes() {
    return this.attributes.length > 0;
  }
  setAttribute(name, value) {
    this.$setAttr(name, value);
    if (name === "style") this.$style?.$read(value);
  }
  setAttributeNS(_ns, name, value) {
    this.setAttribute(name, value);
  }
  removeAttribute(name) {
    const i = this.attributes.findIndex((a) => a.name === name);
    if (i >= 0) this.attributes.$delete(i);
    if (name === "style") this.$style?.$read("");
  }
  toggleAttribute(name, force) {
    const on = force ?? !this.hasAttribute(name);
    if (on) this.setAttribute(name, this.getAttribute(name) ?? "");
    else this.removeAttribute(name);
    return on;
  }
  get nextElementSibling() {
    const l = this.parentNode?.children;
    return l ? l[l.indexOf(this) + 1] ?? null : null;
  }
  get previousElementSibling() {
    const l = this.parentNode?.children;
    return l ? l[l.indexOf(this) - 1] ?? null : null;
  }
  matches(sel) {
    return selector(sel)(this);
  }
  closest(sel) {
    const m = selector(sel);
    for (let at = this; at; at = at.parentElement) if (m(at)) return at;
    return null;
  }
  insertAdjacentElement(where, e) {
    if (where === "beforebegin") this.before(e);
    else if (where === "afterbegin") this.prepend(e);
    else if (where === "beforeend") this.append(e);
    else this.after(e);
    return e;
  }
  insertAdjacentHTML(where, html) {
    for (const n of parse(this.ownerDocument, html, this.namespaceURI)) this.insertAdjacentElement(where, n);
  }
  cloneNode(deep) {
    const e = this.ownerDocument.$create(this.localName, this.namespaceURI);
    for (const a of this.attributes) e.setAttribute(a.name, a.value);
    if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
    return e;
  }
  get innerHTML() {
    return this.childNodes.map(serialize).join("");
  }
  set innerHTML(html) {
    for (const c of [...this.childNodes]) this.removeChild(c);
    for (const n of parse(this.ownerDocument, html, this.namespaceURI)) this.appendChild(n);
  }
  get outerHTML() {
    return serialize(this);
  }
  get innerText() {
    return this.textContent;
  }
  set innerText(v) {
    this.textContent = v;
  }
  isEqualNode(o) {
    return this.outerHTML === o?.outerHTML;
  }
  getBoundingClientRect() {
    const r = this.ownerDocument.$layout?.(this) || this.$rect || this.ownerDocument.$rect || { left: 0, top: 0, width: 0, height: 0 };
    return { ...r, x: r.left, y: r.top, right: r.left + r.width, bottom: r.top + r.height };
  }
  get transform() {
    const m = /translate\(([-0-9.e]+)[ ,]+([-0-9.e]+)\)/.exec(this.getAttribute("transform") || "");
    return { baseVal: { consolidate: () => m && { matrix: { a: 1, b: 0, c: 0, d: 1, e: Number(m[1]), f: Number(m[2]) } } } };
  }
  get offsetWidth() {
    return (this.$rect || this.ownerDocument.$rect)?.width ?? 0;
  }
  get offsetHeight() {
    return (this.$rect || this.ownerDocument.$rect)?.height ?? 0;
  }
  get clientWidth() {
    return (this.$rect || this.ownerDocument.$rect)?.width ?? 0;
  }
  get clientHeight() {
    return (this.$rect || this.ownerDocument.$rect)?.height ?? 0;
  }
  get scrollTop() {
    return 0;
  }
  scrollIntoView() {}
  focus() {}
  click() {
    this.dispatchEvent({ type: "click" });
  }
  get sheet() {
    if (this.localName !== "style") return null;
    if (!this.$sheet || this.$sheetText !== this.textContent) {
      this.$sheetText = this.textContent;
      this.$sheet = new Sheet(this.textContent);
    }
    return this.$sheet;
  }
}

class Sheet {
  constructor(text) {
    this.cssRules = new LiveList();
    for (const m of text.matchAll(/([^{}]+)\{([^{}]*)\}/g)) {
      this.cssRules.push({ cssText: `${m[1].trim()} { ${m[2].trim()} }` });
    }
  }
  insertRule(text, index = 0) {
    if (index > this.cssRules.length) throw new DOMException2("index", "IndexSizeError");
    const m = /^([^{}]+)\{([^{}]*)\}$/.exec(text.trim());
    if (!m) throw new DOMException2("Failed to parse the rule", "SyntaxError");
    this.cssRules.splice(index, 0, { cssText: `${m[1].trim()} { ${m[2].trim()} }` });
    return index;
  }
  deleteRule(i) {
    this.cssRules.splice(i, 1);
  }
}

/// A canvas records what was painted on it; changing its size clears it.
class Canvas2 extends Element2 {
  get width() {
    return Number.parseInt(this.getAttribute("width") ?? "300");
  }
  set width(v) {
    this.setAttribute("width", String(Math.floor(v)));
    this.$pixels = undefined;
  }
  get height() {
    return Number.parseInt(this.getAttribute("height") ?? "150");
  }
  set height(v) {
    this.setAttribute("height", String(Math.floor(v)));
    this.$pixels = undefined;
  }
  getContext() {
    return (this.$context ||= { canvas: this, clearRect: () => (this.$pixels = undefined), measureText: (s) => ({ width: s.length }) });
  }
}

class Document2 extends ParentNode2 {
  constructor() {
    super(null);
    this.ownerDocument = this;
    this.nodeType = 9;
    this.documentElement = this.createElement("html");
    this.appendChild(this.documentElement);
    this.head = this.createElement("head");
    this.body = this.createElement("body");
    this.documentElement.append(this.head, this.body);
    this.implementation = { createHTMLDocument: () => new Document2() };
  }
  $create(name, ns) {
    return ns === HTML && name === "canvas" ? new Canvas2(this, name, ns) : new Element2(this, name, ns);
  }
  createElement(name) {
    return this.$create(name.toLowerCase(), HTML);
  }
  createElementNS(ns, name) {
    return this.$create(name, ns || "");
  }
  createTextNode(s) {
    return new Text2(this, String(s));
  }
  createDocumentFragment() {
    return new Fragment2(this);
  }
  importNode(n, deep) {
    return n.cloneNode(deep);
  }
  adoptNode(n) {
    n.remove();
    return n;
  }
  getElementById(id) {
    for (const e of this.$walk()) if (e.id === id) return e;
    return null;
  }
}

const esc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const unesc = (s) => !s.includes("&") ? s : s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&amp;/g, "&");

function serialize(n) {
  if (n instanceof Text2) return esc(n.data);
  const attrs = n.attributes.map((a) => ` ${a.name}="${esc(a.value).replace(/"/g, "&quot;")}"`).join("");
  if (n.$html && VOID.has(n.localName)) return `<${n.localName}${attrs}>`;
  return `<${n.localName}${attrs}>${n.childNodes.map(serialize).join("")}</${n.localName}>`;
}

/// Parses well-formed markup; `svg` switches the namespace, `foreignObject` back.
function parse(doc, text, ns = HTML) {
  const root = new Fragment2(doc);
  const stack = [[root, ns === SVG ? SVG : HTML]];
  const re = /<!--[\s\S]*?-->|<\/([\w:-]+)\s*>|<([\w:-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'))?)*)\s*(\/?)>|([^<]+)/gy;
  let m;
  let at = 0;
  while ((m = re.exec(text))) {
    at = re.lastIndex;
    const [top, space] = stack[stack.length - 1];
    if (m[5] !== undefined) {
      top.appendChild(new Text2(doc, unesc(m[5])));
    } else if (m[2] !== undefined) {
      const inner = m[2] === "svg" ? SVG : space;
      const e = doc.$create(inner === HTML ? m[2].toLowerCase() : m[2], inner);
      for (const a of m[3].matchAll(/([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'))?/g)) {
        e.setAttribute(a[1], unesc(a[2] ?? a[3] ?? ""));
      }
      top.appendChild(e);
      if (!m[4] && !(inner === HTML && VOID.has(m[2]))) stack.push([e, m[2] === "foreignObject" ? HTML : inner]);
    } else if (m[1] !== undefined && stack.length > 1) {
      stack.pop();
    }
  }
  if (at !== text.length) throw new Error("mini dom: markup not understood: " + text.slice(at, at + 80));
  return [...root.childNodes];
}

export { Document2 as Document, Node2 as Node, Text2 as Text, Element2 as Element, Canvas2 as Canvas, EventTarget2 as EventTarget, SVG, HTML };
