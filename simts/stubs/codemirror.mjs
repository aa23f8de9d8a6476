// Stand-in for the parts of CodeMirror 6 the editor uses: a text, transactions and
// update listeners.
export class ChangeSet {
  constructor(length) {
    this.length = length;
  }
  static empty(length) {
    return new ChangeSet(length);
  }
}
const facet = (kind) => ({ of: (value) => ({ kind, value }) });
const flat = (l) => (Array.isArray(l) ? l.flatMap(flat) : [l]);

class Doc {
  constructor(text) {
    this.text = text;
    this.length = text.length;
  }
  toString() {
    return this.text;
  }
  sliceString(from, to) {
    return this.text.slice(from, to);
  }
  eq(other) {
    return this.text === other.text;
  }
}

export class EditorState {
  constructor(text, extensions) {
    this.doc = new Doc(text);
    this.extensions = extensions;
  }
  sliceDoc(from, to) {
    return this.doc.text.slice(from, to);
  }
  static create({ doc = "", extensions = [] } = {}) {
    return new EditorState(String(doc), flat(extensions));
  }
}

function apply(text, changes) {
  const list = [];
  for (const c of flat(changes)) {
    if (c instanceof ChangeSet) {
      if (c.length !== text.length) throw new RangeError(`Mismatched change set length (got ${c.length}, doc length ${text.length})`);
      continue;
    }
    const { from, to = from, insert = "" } = c;
    if (from > to || from < 0 || to > text.length) throw new RangeError(`Invalid change range ${from} to ${to} (in doc of length ${text.length})`);
    if (from !== to || insert) list.push({ from, to, insert: String(insert), n: list.length });
  }
  list.sort((a, b) => b.from - a.from || b.n - a.n);
  for (const c of list) text = text.slice(0, c.from) + c.insert + text.slice(c.to);
  return [text, list.length > 0];
}

export class EditorView {
  constructor({ state, doc, extensions }) {
    this.state = state ?? EditorState.create({ doc, extensions });
    this.dom = document.createElement("div");
    this.contentDOM = document.createElement("div");
    this.dom.append(this.contentDOM);
    this.visibleRanges = [];
    window.$sim.editor(this);
  }
  dispatch(...specs) {
    if (this.updating) throw new Error("Calls to EditorView.update are not allowed while an update is in progress");
    const [text, docChanged] = apply(this.state.doc.text, specs.flatMap((s) => (s.changes === undefined ? [] : [s.changes])));
    this.state = new EditorState(text, this.state.extensions);
    this.contentDOM.textContent = text;
    this.updating = true;
    try {
      for (const e of this.state.extensions) {
        if (e?.kind !== "updateListener") continue;
        try {
          e.value({ docChanged, viewportChanged: false, state: this.state, view: this });
        } catch (x) {
          console.error(x);
        }
      }
    } finally {
      this.updating = false;
    }
  }
  static updateListener = facet("updateListener");
  static contentAttributes = facet("attributes");
  static darkTheme = facet("dark");
  static theme = () => ({ kind: "theme" });
  static lineWrapping = { kind: "wrap" };
}
export const ViewPlugin = { define: () => ({ kind: "plugin" }) };
export const Decoration = { mark: () => ({ range: (a, b) => [a, b] }), none: [], set: (l) => l };
export const syntaxHighlighting = () => ({ kind: "highlight" });
export const defaultHighlightStyle = {};
export const StreamLanguage = { define: () => ({ kind: "language" }) };
export const syntaxTree = () => ({ iterate() {} });
export const stex = {};
export const Range = class {};
export class EditorSDK {}
export const init = () => window.$sim.grammarly();
const mark = { of: (value) => ({ value }), define: () => mark };
export const Annotation = mark;
export const StateEffect = mark;
export class Compartment {
  of(e) {
    return e;
  }
  reconfigure() {}
}
