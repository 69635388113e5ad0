// Stand-ins for the editor and for the interval tree, which is not installed here.
module.exports = ({ or, and, lt, le, eq, ite }) => {
  // anything else of the editor: accepts every call and does nothing
  const inert = () => new Proxy(function () {}, { get: (_, k) => (k === "then" || typeof k === "symbol" ? undefined : inert()), apply: () => inert(), construct: () => inert() });
  const open = (o) => new Proxy(o, { get: (o, k) => (k in o || typeof k === "symbol" ? o[k] : (o[k] = inert())) });
  const listeners = { edit: [], save: [], select: [] };
  const on = (kind) => (f) => {
    listeners[kind].push(f);
    return { dispose: () => { listeners[kind] = listeners[kind].filter((g) => g !== f); } };
  };
  class Position {
    constructor(line, character) { this.line = line; this.character = character; }
    isEqual(o) { return $op("===", this.line, o.line) && $op("===", this.character, o.character); }
    isBefore(o) { return $op("<", this.line, o.line) || ($op("===", this.line, o.line) && $op("<", this.character, o.character)); }
    isAfter(o) { return o.isBefore(this); }
    isBeforeOrEqual(o) { return !o.isBefore(this); }
    isAfterOrEqual(o) { return !this.isBefore(o); }
    compareTo(o) { return this.isBefore(o) ? -1 : o.isBefore(this) ? 1 : 0; }
    with(line = this.line, character = this.character) { return new Position(line, character); }
    translate(l = 0, c = 0) { return new Position($op("+", this.line, l), $op("+", this.character, c)); }
  }
  class Range {
    constructor(a, b, c, d) {
      if (c !== undefined) [a, b] = [new Position(a, b), new Position(c, d)];
      const ordered = or(lt(a.line, b.line), and(eq(a.line, b.line), le(a.character, b.character)));
      const first = (a, b) => new Position(ite(ordered, a.line, b.line), ite(ordered, a.character, b.character));
      this.start = first(a, b);
      this.end = first(b, a);
    }
    get isEmpty() { return this.start.isEqual(this.end); }
    get isSingleLine() { return $op("===", this.start.line, this.end.line); }
    isEqual(o) { return this.start.isEqual(o.start) && this.end.isEqual(o.end); }
    contains(o) { return o instanceof Range ? this.contains(o.start) && this.contains(o.end) : !o.isBefore(this.start) && !this.end.isBefore(o); }
    intersection(o) {
      const start = this.start.isBefore(o.start) ? o.start : this.start, end = this.end.isBefore(o.end) ? this.end : o.end;
      return end.isBefore(start) ? undefined : new Range(start, end);
    }
    union(o) { return new Range(this.start.isBefore(o.start) ? this.start : o.start, this.end.isBefore(o.end) ? o.end : this.end); }
  }
  class Selection extends Range {
    constructor(a, b, c, d) {
      super(a, b, c, d);
      if (c !== undefined) [a, b] = [new Position(a, b), new Position(c, d)];
      this.anchor = a;
      this.active = b;
    }
    get isReversed() { return this.active.isBefore(this.anchor); }
  }
  const window = open({
    activeTextEditor: undefined,
    createTextEditorDecorationType: (options) => ({ options, dispose() {} }),
    onDidChangeTextEditorSelection: on("select"),
    showErrorMessage: async () => undefined,
  });
  class ThemeColor { constructor(id) { this.id = id; } }
  const vscode = open({
    commands: open({}),
    Position, Range, Selection, ThemeColor, window,
    workspace: open({
      workspaceFolders: [{ uri: { fsPath: "/ws" } }],
      onDidChangeTextDocument: on("edit"),
      onDidSaveTextDocument: on("save"),
    }),
    Uri: { parse: (x) => x, file: (x) => x },
    __esModule: true,
    version: "1.0",
  });
  vscode.default = vscode;

  // documented behaviour: all entries that share at least an endpoint with the query, in the order of their keys
  class IntervalTree {
    constructor() { this.items = []; }
    insert(key, value = key) {
      const k = { low: key[0], high: key[1] };
      const less = (a, b) => $op("<", a.low, b.low) || ($op("===", a.low, b.low) && $op("<", a.high, b.high));
      let i = this.items.length;
      while (i > 0 && less(k, this.items[i - 1][0])) i--;
      this.items.splice(i, 0, [k, value]);
    }
    search([low, high], map = (v, k) => (v === undefined ? k : v)) {
      return this.items.filter(([k]) => !($op("<", k.high, low) || $op("<", high, k.low))).map(([k, v]) => map(v, k));
    }
    get size() { return this.items.length; }
    get keys() { return this.items.map(([k]) => [k.low, k.high]); }
    get values() { return this.items.map(([, v]) => v); }
    isEmpty() { return this.items.length === 0; }
    forEach(f) { this.items.forEach(([k, v]) => f(k, v)); }
  }
  const tree = { default: IntervalTree, IntervalTree };
  Object.defineProperty(tree, "__esModule", { value: true });
  return { vscode, tree, listeners };
};
