// Runs the editor extension of /repo/ide/src in plain Node, with stand-ins for the editor and for processes.
const fs = require("fs"), path = require("path"), zlib = require("zlib"), { EventEmitter } = require("events");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const _ = require("/opt/veriftools/quint/node_modules/lodash");
const SRC = path.resolve("ide/src");
Object.assign(globalThis, { VERSION: "1", TOOLCHAIN: { channel: "nightly", components: [] } });
for (const m of ["log", "debug", "info"]) console[m] = () => {};
const inert = () => new Proxy(function () {}, { get: (o, k) => (k === "then" || typeof k === "symbol" ? undefined : inert()), apply: () => inert(), construct: () => inert() });
const open = (o) => new Proxy(o, { get: (o, k) => (k in o || typeof k === "symbol" ? o[k] : inert()) });
const settle = async () => { for (let i = 0; i < 10; i++) await new Promise((f) => setImmediate(f)); };

// text: the document; answer(args) -> {value} | {exit, stderr, stdout} or a promise of it
exports.start = async ({ text = "", answer, version = "1", cargo = () => true, file = "/ws/src/main.rs", run }) => {
  const listeners = { edit: [], save: [], select: [] };
  const on = (k) => (f) => (listeners[k].push(f), { dispose: () => (listeners[k] = listeners[k].filter((g) => g !== f)) });
  class Position { constructor(l, c) { this.line = l; this.character = c; } }
  class Range {
    constructor(a, b, c, d) {
      if (c !== undefined) [a, b] = [new Position(a, b), new Position(c, d)];
      [this.start, this.end] = a.line < b.line || (a.line === b.line && a.character <= b.character) ? [a, b] : [b, a];
    }
  }
  class Selection extends Range { constructor(a, b) { super(a, b); this.anchor = a; this.active = b; } }
  const lines = text.split("\n");
  const doc = {
    fileName: file, languageId: "rust", isDirty: false, uri: { fsPath: file },
    offsetAt: (p) => lines.slice(0, p.line).reduce((n, l) => n + l.length + 1, 0) + p.character,
    positionAt: (o) => { let l = 0; while (l < lines.length - 1 && o > lines[l].length) o -= lines[l++].length + 1; return new Position(l, o); },
    save: async () => { if (doc.isDirty) { doc.isDirty = false; listeners.save.forEach((f) => f(doc)); } return true; },
  };
  const shown = new Map(), commands = {}, x = { dialogs: [], pane: false, ran: [] };
  const editor = { document: doc, selection: new Selection(new Position(0, 0), new Position(0, 0)), setDecorations: (t, r) => shown.set(t, r) };
  const bar = { show() {} };
  const vscode = open({
    Position, Range, Selection, ThemeColor: class {}, __esModule: true, version: "1",
    Uri: { parse: (x) => x, file: (x) => x },
    commands: { registerCommand: (n, f) => (commands[n] = f) },
    window: open({ activeTextEditor: editor, visibleTextEditors: [editor], createTextEditorDecorationType: (o) => ({ o }), onDidChangeTextEditorSelection: on("select"), createStatusBarItem: () => bar,
      showErrorMessage: async (m) => void x.dialogs.push(m), showTextDocument: async () => ((x.pane = true), { hide: () => (x.pane = false) }) }),
    workspace: open({ workspaceFolders: [{ uri: { fsPath: "/ws" } }], onDidChangeTextDocument: on("edit"), onDidSaveTextDocument: on("save"),
      fs: { stat: async (u) => { if (!cargo(path.dirname(u))) throw new Error("no such file"); } } }),
  });
  vscode.default = vscode;
  class Tree {
    constructor() { this.items = []; }
    insert([low, high], v) { this.items.push([{ low, high }, v]); this.items.sort(([a], [b]) => a.low - b.low || a.high - b.high); }
    search([low, high], f) { return this.items.filter(([k]) => k.low <= high && low <= k.high).map(([k, v]) => f(v, k)); }
  }
  const spawn = (cmd, args, options) => {
    const p = Object.assign(new EventEmitter(), { stdout: new EventEmitter(), stderr: new EventEmitter(), exitCode: null });
    p.stdout.setEncoding = p.stderr.setEncoding = () => {};
    x.ran.push([cmd, ...args].join(" ") + " in " + options?.cwd);
    const rest = args.filter((a) => !a.startsWith("+"));
    const r = run?.(cmd, rest) ?? (cmd === "rustup" ? { stdout: "rustc" } : cmd === "rustc" ? { stdout: "/lib\n/sys" } : rest[1] === "-V" ? { stdout: version } : rest[0] === "install" || rest[1] === "preload" ? {} : answer(rest.slice(1)));
    Promise.resolve(r).then(({ exit = 0, stdout, stderr, value }) => setImmediate(() => {
      if (value !== undefined) stdout = zlib.gzipSync(JSON.stringify(value)).toString("base64");
      if (stderr) p.stderr.emit("data", stderr);
      if (stdout) p.stdout.emit("data", Buffer.from(stdout));
      p.exitCode = exit;
      p.emit("close", exit);
    }));
    return p;
  };
  const externals = {
    vscode, lodash: _, "@flatten-js/interval-tree": { __esModule: true, default: Tree }, open: async () => {}, "new-github-issue-url": () => "",
    child_process: { spawn, execSync: () => "", exec: (_, f) => f(null, { stdout: "host: x" }) }, fs: { promises: { chmod: async () => {} } },
    "adm-zip": class { extractAllTo() {} }, got: { get: () => ({ buffer: async () => { throw new Error("offline"); } }) },
  };
  const cache = new Map();
  const req = (from) => (name) => {
    if (name in externals) return externals[name];
    if (!name.startsWith(".")) return require(name);
    const f = path.resolve(path.dirname(from), name) + ".ts";
    if (!fs.existsSync(f)) return {};
    if (!cache.has(f)) {
      const m = { exports: {} };
      cache.set(f, m);
      const js = ts.transpileModule(fs.readFileSync(f, "utf8"), { compilerOptions: { module: "commonjs", target: "es2022", esModuleInterop: true } }).outputText;
      new Function("exports", "require", "module", js)(m.exports, req(f), m);
    }
    return cache.get(f).exports;
  };
  const store = new Map();
  await req(SRC + "/x.ts")("./extension").activate({ subscriptions: [], workspaceState: { get: (k) => store.get(k), update: (k, v) => store.set(k, v) } });
  const dec = req(SRC + "/x.ts")("./decorations");
  // offsets [start, end) shown with a type of decoration
  const ranges = (t) => (shown.get(dec[t]) || []).map((r) => [doc.offsetAt(r.start), doc.offsetAt(r.end)]);
  const points = (t) => { const s = new Set(); ranges(t).forEach(([a, b]) => { for (let i = a; i < b; i++) s.add(i); }); return [...s].sort((a, b) => a - b); };
  const range = (a, b) => { const s = doc.positionAt(a), e = doc.positionAt(b); return { start: { line: s.line, column: s.character }, end: { line: e.line, column: e.character }, filename: file }; };
  return Object.assign(x, {
    doc, editor, bar, commands, ranges, points, range, settle,
    command: async (n) => { commands["flowistry." + n](); await settle(); },
    select: async (a, b) => { editor.selection = new Selection(doc.positionAt(a), doc.positionAt(b)); listeners.select.forEach((f) => f({})); await settle(); },
    edit: async () => { doc.isDirty = true; listeners.edit.forEach((f) => f({ document: doc })); await settle(); },
    save: async () => { await doc.save(); await settle(); },
  });
};
exports.expect = (what, got, want) => {
  if (JSON.stringify(got) !== JSON.stringify(want)) { console.error(`${what}: ${JSON.stringify(got)}, not ${JSON.stringify(want)}`); process.exit(1); }
};
