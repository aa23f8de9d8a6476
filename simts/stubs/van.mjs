// Stand-in for vanjs-core 1.2: states call their derivations at once, the document is
// updated in one batch from a timer, and what belongs to removed nodes is forgotten.
let changed, deps, derives, toCollect;
const always = { isConnected: true };
const schedule = (set, x, f, ms) => (set ?? (setTimeout(f, ms), new Set())).add(x);
const connected = (l) => l.filter((b) => b.dom?.isConnected);

function capture(f, d, arg) {
  const prev = deps;
  deps = d;
  try {
    return f(arg);
  } catch (e) {
    console.error(e);
    return arg;
  } finally {
    deps = prev;
  }
}

function collectLater(s) {
  toCollect = schedule(toCollect, s, () => {
    for (const x of toCollect) {
      x.bindings = connected(x.bindings);
      x.listeners = connected(x.listeners);
    }
    toCollect = undefined;
  }, 1000);
}

class State {
  constructor(v) {
    this.rawVal = this.old = v;
    this.bindings = [];
    this.listeners = [];
  }
  get val() {
    deps?.get.add(this);
    return this.rawVal;
  }
  get oldVal() {
    deps?.get.add(this);
    return this.old;
  }
  set val(v) {
    deps?.set.add(this);
    if (v === this.rawVal) return;
    this.rawVal = v;
    this.listeners = connected(this.listeners);
    for (const l of [...this.listeners]) {
      const dom = l.dom;
      l.dom = undefined;
      derive(l.f, l.s, dom);
    }
    if (this.bindings.length) changed = schedule(changed, this, update);
    else this.old = v;
  }
}

const state = (v) => new State(v);

function register(d, list, x) {
  for (const s of d.get) {
    if (d.set.has(s)) continue;
    collectLater(s);
    s[list].push(x);
  }
}

function bind(f, dom) {
  const d = { get: new Set(), set: new Set() };
  const binding = { f };
  const prev = derives;
  derives = [];
  let node = capture(f, d, dom);
  node = (node ?? document).nodeType ? node : document.createTextNode(String(node));
  register(d, "bindings", binding);
  for (const l of derives) l.dom = node;
  derives = prev;
  return (binding.dom = node);
}

function derive(f, s = state(), dom) {
  const d = { get: new Set(), set: new Set() };
  const listener = { f, s };
  if (dom) listener.dom = dom;
  else if (derives) derives.push(listener);
  else listener.dom = always;
  s.val = capture(f, d, s.rawVal);
  register(d, "listeners", listener);
  return s;
}

const isState = (x) => x instanceof State;

function add(dom, ...children) {
  for (const c of children.flat(Infinity)) {
    const child = isState(c) ? bind(() => c.val) : typeof c === "function" ? bind(c) : c;
    if (child !== undefined && child !== null) dom.append(child);
  }
  return dom;
}

const PROPS = new Set(["value", "readOnly", "innerHTML", "textContent", "autofocus", "id", "rows", "placeholder"]);

function tag(name, ns) {
  return (...args) => {
    const [props, ...children] = args[0] && !args[0].nodeType && Object.getPrototypeOf(args[0]) === Object.prototype ? args : [{}, ...args];
    const dom = ns ? document.createElementNS(ns, name) : document.createElement(name);
    for (const [k, v] of Object.entries(props)) {
      const on = k.startsWith("on");
      const set = on || PROPS.has(k) ? (x) => (dom[k] = x) : (x) => dom.setAttribute(k, x);
      if (isState(v)) bind(() => (set(v.val), dom));
      else if (!on && typeof v === "function") bind(() => (set(v()), dom));
      else set(v);
    }
    return add(dom, ...children);
  };
}

function update() {
  const states = [...changed].filter((s) => s.rawVal !== s.old);
  changed = undefined;
  for (const b of new Set(states.flatMap((s) => (s.bindings = connected(s.bindings))))) {
    const dom = b.dom;
    b.dom = undefined;
    const next = bind(b.f, dom);
    if (next !== dom) {
      if (next && next !== document) dom.replaceWith(next);
      else dom.remove();
    }
  }
  for (const s of states) s.old = s.rawVal;
}

const of = (ns) => new Proxy({}, { get: (_, k) => tag(k, ns) });
export default { tags: of(), tagsNS: of, state, derive, add };
