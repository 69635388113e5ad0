// The scenarios: symbolic inputs, the extension's own code, and what it must have shown.
const makeStubs = require("./stubs.js");
const LINES = 3;

exports.environment = ({ rt, inputs, concrete, Abandoned }) => {
  const { Sym, trace, term, val } = rt;
  const mk = (c, t) => (concrete ? c : new Sym(c, t));
  // terms that are not branched on
  const add = (a, b) => (a === 0 ? b : b === 0 ? a : mk(val(a) + val(b), ["+", term(a), term(b)]));
  const sub = (a, b) => mk(val(a) - val(b), ["-", term(a), term(b)]);
  const ite = (p, a, b) => mk(p.c ? val(a) : val(b), ["ite", p.t, term(a), term(b)]);
  const B = (c, t) => ({ c, t });
  const le = (a, b) => B(val(a) <= val(b), ["<=", term(a), term(b)]);
  const lt = (a, b) => B(val(a) < val(b), ["<", term(a), term(b)]);
  const eq = (a, b) => B(val(a) === val(b), ["=", term(a), term(b)]);
  const and = (...ps) => B(ps.every((p) => p.c), ["and", ...ps.map((p) => p.t)]);
  const or = (...ps) => B(ps.some((p) => p.c), ["or", ...ps.map((p) => p.t)]);
  const not = (p) => B(!p.c, ["not", p.t]);
  const iff = (p, q) => B(p.c === q.c, ["iff", p.t, q.t]);
  const sym = (name, lo, hi) => {
    const c = inputs[name] ?? lo;
    trace.vars[name] = [lo, hi];
    return mk(c, name);
  };
  const assume = (p) => {
    trace.path.push([p.t, p.c]);
    if (!p.c) throw new Abandoned();
  };
  const check = (name, p) => trace.asserts.push([name, p.t, trace.path.length, p.c]);
  // one of n, decided by the solver like everything else
  const choose = (name, n) => {
    const x = sym(name, 0, n - 1);
    for (let i = 0; i + 1 < n; i++) {
      const p = eq(x, i);
      trace.path.push([p.t, p.c]);
      if (p.c) return i;
    }
    return n - 1;
  };

  // a document of LINES lines of any lengths
  const lens = [...Array(LINES).keys()].map((i) => sym(`len${i}`, 0, 200));
  const starts = [0];
  for (let i = 1; i <= LINES; i++) starts.push(add(add(starts[i - 1], lens[i - 1]), 1));
  const total = add(starts[LINES], -1);
  const pick = (line, xs) => xs.slice(1).reduce((acc, x, i) => ite(le(i + 1, line), x, acc), xs[0]);
  const doc = {
    fileName: "/ws/src/main.rs", languageId: "rust", isDirty: false, lineCount: LINES, uri: { fsPath: "/ws/src/main.rs" },
    offsetAt: (p) => add(pick(p.line, starts.slice(0, LINES)), p.character),
    positionAt: (o) => {
      const line = starts.slice(1, LINES).reduce((acc, s, i) => ite(le(s, o), i + 1, acc), 0);
      const at = pick(line, starts.slice(0, LINES));
      return new stubs.vscode.Position(line, mk(val(o) - val(at), ["-", term(o), term(at)]));
    },
  };
  const stubs = makeStubs({ or, and, lt, le, eq, ite });
  const position = (name) => {
    const line = sym(`${name}.line`, 0, LINES - 1), column = sym(`${name}.column`, 0, 200);
    assume(le(column, pick(line, lens)));
    return { line, column };
  };
  const off = (p) => doc.offsetAt({ line: p.line, character: p.column ?? p.character });
  const range = (name) => {
    const start = position(`${name}.start`), end = position(`${name}.end`);
    assume(le(off(start), off(end)));
    return { start, end, filename: doc.fileName };
  };
  doc.save = async () => {
    // saving a document without changes does nothing
    if (doc.isDirty) {
      doc.isDirty = false;
      doc.onSave?.();
      for (const f of stubs.listeners.save) f(doc);
    }
    return true;
  };
  const shown = new Map(); // decoration type -> vscode ranges
  const editor = { document: doc, selection: null, selections: null, setDecorations: (type, ranges) => shown.set(type, ranges) };
  const covers = (rs, x) => or(...rs.map((r) => and(le(off(r.start), x), lt(x, off(r.end)))));
  const inside = (a, b) => and(le(off(b.start), off(a.start)), le(off(a.end), off(b.end)));
  const height = (r) => sub(r.end.line, r.start.line), width = (r) => sub(r.end.column, r.start.column);
  const smaller = (a, b) => or(lt(height(a), height(b)), and(eq(height(a), height(b)), lt(width(a), width(b))));
  return { smaller, parse: rt.parse, B, lens, sub, le, lt, eq, and, or, not, iff, sym, assume, check, choose, doc, stubs, position, off, range, shown, editor, covers, inside, total };
};

const TRUE = { c: true, t: ["and"] };
const TYPES = ["hide_type", "slice_type", "select_type", "emphasis_type"];
const fact = (c) => ({ c, t: [c ? "and" : "or"] });

// The extension as the editor starts it: activated, with its commands registered, and `answer(command, arguments)`
// deciding what `cargo flowistry` does: a promise of {exit: code, stderr, stdout} or of {value} to be encoded.
const start = async (env, load, answer, system = {}) => {
  const { stubs } = env;
  env.status = null;
  env.pane = null; // what the error pane shows
  env.dialogs = [];
  env.commands = {};
  const commands = env.commands;
  let provider;
  Object.assign(stubs.vscode.commands, { registerCommand: (name, f) => ((commands[name] = f), { dispose() {} }) });
  Object.assign(stubs.vscode.window, {
    activeTextEditor: env.editor,
    visibleTextEditors: [env.editor],
    createStatusBarItem: () => (env.status = { show() {}, hide() {}, dispose() {} }),
    showTextDocument: async () => ((env.pane = () => provider.provideTextDocumentContent()), { hide: () => void (env.pane = null) }),
    showErrorMessage: async (m, ...buttons) => (env.dialogs.push(m), system.press?.(buttons)),
  });
  if ("editor" in system) stubs.vscode.window.activeTextEditor = system.editor;
  Object.assign(stubs.vscode.workspace, {
    registerTextDocumentContentProvider: (_, p) => ((provider = p), { dispose() {} }),
    fs: { stat: async (uri) => { if (system.exists && !system.exists(uri)) throw new Error("no such file"); return {}; } },
  });
  if (system.folders) stubs.vscode.workspace.workspaceFolders = system.folders.map((fsPath) => ({ uri: { fsPath } }));
  const { EventEmitter } = require("events");
  const spawn = (cmd, args, options) => {
    const proc = new EventEmitter();
    proc.exitCode = null;
    proc.stdout = new EventEmitter();
    proc.stderr = new EventEmitter();
    proc.stdout.setEncoding = proc.stderr.setEncoding = () => {};
    const finish = ({ exit = 0, failure, stderr, stdout, value }) => {
      if (system.sequential) env.check("while something runs, the status bar says so, and what", fact(statusOf(env) === "loading" && !!env.status.tooltip));
      if (failure) return proc.emit("error", new Error(failure));
      if (value !== undefined) stdout = require("zlib").gzipSync(JSON.stringify(value)).toString("base64");
      if (stderr) proc.stderr.emit("data", stderr);
      // in pieces, as a pipe delivers it
      const bytes = Buffer.from(stdout || ""), half = bytes.length >> 1;
      for (const b of [bytes.subarray(0, half), bytes.subarray(half)]) if (b.length) proc.stdout.emit("data", b);
      proc.exitCode = exit;
      proc.emit("exit", exit);
      proc.emit("close", exit);
    };
    const [first, ...rest] = args.filter((a) => !a.startsWith("+"));
    const done = system.run?.(cmd, args, options);
    if (done) setImmediate(finish, done);
    else if (cmd === "cargo" && first === "flowistry" && rest[0] === "-V") setImmediate(finish, { stdout: "0\n" });
    else if (cmd === "cargo" && first === "flowistry") Promise.resolve(answer(rest)).then(finish);
    else setImmediate(finish, { stdout: args.includes("which") ? "rustc\n" : "/lib\n/sysroot\n" });
    return proc;
  };
  const req = load({
    vscode: stubs.vscode, "@flatten-js/interval-tree": stubs.tree, "./app.scss": {},
    // (nothing outside is touched)
    child_process: { spawn, execSync: () => "", exec: (_, done) => setImmediate(done, null, { stdout: "rustc 1.0\nhost: x86_64-unknown-linux-gnu\n" }) },
    fs: { promises: { chmod: async () => {} } },
    "adm-zip": class { extractAllTo() {} },
    got: { get: (url) => ({ buffer: async () => system.download?.(url) }) },
    open: async () => {}, "new-github-issue-url": () => "",
  });
  const storage = new Map();
  await req("./extension").activate({ subscriptions: [], workspaceState: { get: (k) => storage.get(k), update: async (k, v) => void storage.set(k, v) } });
  const dec = req("./decorations");
  const command = (name) => { const f = commands[`flowistry.${name}`]; if (!f) throw new Error(`no command ${name}; ${env.dialogs}`); return f(); };
  return { command, dec };
};
// what the status bar says: found by its colour and icon
const statusOf = (env) => {
  const { text, backgroundColor } = env.status;
  return { "$(check) flowistry": "active", "$(circle-slash) flowistry": "unsaved", "$(x) flowistry": "error", "$(sync~spin) flowistry": "loading", "$(question) flowistry": "notfound" }[text] || "idle";
};

// `types` of decoration against the ranges they must cover, at an arbitrary point of the document
const compare = (env, dec, what, want) => {
  const { check, iff, covers, shown, sym } = env;
  const x = sym("point", 0, 1000);
  for (const [type, expected] of Object.entries(want)) check(`${what}: ${type}`, iff(covers(shown.get(dec[type]) || [], x), expected(x)));
};
const greyed = (env, containers, pieces) => (x) =>
  env.or(...containers.map((c) => env.and(env.covers([c], x), ...pieces.map(([p, present]) => env.not(env.and(present, env.inside(p, c), env.covers([p], x)))))));
const select = (env, name) => {
  const r = env.range(name);
  const at = (p) => new env.stubs.vscode.Position(p.line, p.column);
  env.editor.selection = new env.stubs.vscode.Selection(at(r.start), at(r.end));
  return r;
};
// until everything the extension started is done
const settle = async () => { for (let i = 0; i < 6; i++) await new Promise((f) => setImmediate(f)); };
const tell = async (env, kind, event) => {
  env.stubs.listeners[kind].forEach((f) => f(event));
  await settle();
};
const ok = (value) => ({ value: { Ok: value } });
const whole = (env) => {
  const end = env.doc.positionAt(env.total);
  return { start: { line: 0, column: 0 }, end: { line: end.line, column: end.character }, filename: env.doc.fileName };
};

// Given a slice, what is highlighted and greyed out (P17).
const grey = (containers, pieces) => async (env, load) => {
  const cs = [...Array(containers).keys()].map((i) => env.range(`container${i}`));
  const ps = [...Array(pieces).keys()].map((i) => env.range(`piece${i}`));
  const seed = env.range("seed"), direct = env.range("direct");
  const all = whole(env);
  const { command, dec } = await start(env, load, async ([cmd]) =>
    cmd === "preload" ? {} : ok(cmd === "spans" ? { spans: [all] } : { place_info: [{ range: all, ranges: [seed], slice: ps, direct_influence: [direct] }], containers: cs }));
  env.assume(env.lt(0, env.total));
  const at = new env.stubs.vscode.Position(0, 0);
  env.editor.selection = new env.stubs.vscode.Selection(at, at);
  await command("focus");
  await settle();
  compare(env, dec, "slice", {
    hide_type: greyed(env, cs, ps.map((p) => [p, TRUE])),
    slice_type: (x) => env.covers(ps, x),
    select_type: (x) => env.covers([seed], x),
    emphasis_type: (x) => env.covers([direct], x),
  });
  await command("focus");
  await settle();
  compare(env, dec, "switched off", Object.fromEntries(TYPES.map((t) => [t, () => ({ c: false, t: ["or"] })])));
};

// Given what the analysis says about each expression, what a selection shows (P18).
const selection = (places, marked) => async (env, load) => {
  const { and, or, not, le, smaller, off, inside, assume } = env;
  const body = whole(env);
  assume(le(10 * places, env.lens[0]));
  const infos = [...Array(places).keys()].map((i) => {
    const range = env.range(`place${i}`);
    // each its own
    const at = (a, b) => ({ start: { line: 0, column: 10 * i + a }, end: { line: 0, column: 10 * i + b }, filename: env.doc.fileName });
    return { range, ranges: [range], slice: [at(0, 2), at(4, 8)], direct_influence: [at(4, 6)] };
  });
  // expressions nest, and each is present once
  infos.forEach((a, i) =>
    infos.slice(0, i).forEach((b) => {
      const [x, y] = [a.range, b.range];
      assume(not(and(inside(x, y), inside(y, x))));
      assume(or(inside(x, y), inside(y, x), le(off(x.end), off(y.start)), le(off(y.end), off(x.start))));
    })
  );
  const { command, dec } = await start(env, load, async ([cmd]) => (cmd === "preload" ? {} : ok(cmd === "spans" ? { spans: [body] } : { place_info: infos, containers: [body] })));
  const expect = (what, q) => {
    const meets = infos.map(({ range: r }) => and(le(off(r.start), off(q.end)), le(off(q.start), off(r.end))));
    const contained = infos.map(({ range: r }) => inside(r, q));
    const containing = infos.map(({ range: r }) => and(inside(q, r), not(inside(r, q))));
    const some = or(...contained);
    const shows = infos.map((a, i) =>
      or(
        and(some, contained[i]),
        and(not(some), meets[i], not(containing[i])),
        // the smallest of those around the selection
        and(not(some), containing[i], ...infos.map((b, j) => (i === j ? TRUE : not(and(containing[j], smaller(b.range, a.range))))))
      )
    );
    // which of several equally small ones is shown does not matter, so there are none
    infos.forEach((a, i) => infos.forEach((b, j) => i < j && assume(not(and(containing[i], containing[j], not(smaller(a.range, b.range)), not(smaller(b.range, a.range)))))));
    const any = or(...shows);
    const of = (get) => (x) => or(...infos.map((a, i) => and(shows[i], env.covers(get(a), x))));
    const hidden = greyed(env, [body], infos.flatMap((a, i) => a.slice.map((s) => [s, shows[i]])));
    compare(env, dec, what, {
      slice_type: of((a) => a.slice), select_type: of((a) => a.ranges), emphasis_type: of((a) => a.direct_influence),
      hide_type: (x) => and(any, hidden(x)),
    });
    return { shows, any };
  };
  // with only a cursor, everything of a selection's size included
  const q = select(env, "selection");
  assume(not(and(inside(body, q)))); // (selecting the whole function selects no function)
  await command("focus");
  await settle();
  expect("focus", q);
  if (marked) {
    await command("focus_mark");
    const q2 = select(env, "second");
    assume(not(and(inside(body, q2))));
    await tell(env, "select", {});
    expect("marked, moved", q);
    await command("focus_unmark");
    await settle();
    const { shows, any } = expect("unmarked", q2);
    env.editor.selections = null;
    await command("focus_select");
    await settle();
    const x = env.sym("point", 0, 1000);
    const got = env.editor.selections;
    env.check("select: selects iff something is shown", env.iff(any, { c: got !== null, t: got !== null ? ["and"] : ["or"] }));
    if (got) env.check("select: the slice", env.iff(env.covers(got, x), or(...infos.map((a, i) => and(shows[i], env.covers(a.slice, x))))));
  }
};

// Which function's slice is shown, and that it is computed once for each (P18).
const bodies = (n, selections) => async (env, load) => {
  const { and, or, not, le, eq, off, inside, assume, check } = env;
  assume(le(60, env.lens[0]));
  const spans = [...Array(n).keys()].map((i) => env.range(`body${i}`));
  spans.forEach((a, i) =>
    spans.slice(0, i).forEach((b) => {
      assume(not(and(inside(a, b), inside(b, a))));
      assume(or(inside(a, b), inside(b, a), le(off(a.end), off(b.start)), le(off(b.end), off(a.start))));
    })
  );
  // the function asked about is the innermost around the anchor; each answer is told apart by its slice
  const asked = [];
  const { command, dec } = await start(env, load, async ([cmd, file, line, column]) => {
    if (cmd === "preload") return {};
    check("the file is the document's", { c: file === env.doc.fileName, t: [file === env.doc.fileName ? "and" : "or"] });
    if (cmd === "spans") return ok({ spans });
    const k = asked.length;
    asked.push({ line: env.parse(line), column: env.parse(column) });
    const all = whole(env), at = { start: { line: 0, column: 10 * k }, end: { line: 0, column: 10 * k + 2 }, filename: file };
    return ok({ place_info: [{ range: all, ranges: [all], slice: [at], direct_influence: [at] }], containers: [all] });
  });
  const strictly = (q, b) => and(inside(q, b), not(inside(b, q)));
  const around = (q, i) => and(strictly(q, spans[i]), ...spans.map((b, j) => (i === j ? TRUE : not(and(strictly(q, b), env.smaller(b, spans[i]))))));
  let shown = [];
  const had = []; // the functions asked about so far
  for (let s = 0; s < selections; s++) {
    const q = select(env, `selection${s}`);
    // which of two equally small functions is meant does not matter, so there is one
    spans.forEach((a, i) => spans.forEach((b, j) => i < j && assume(not(and(strictly(q, a), strictly(q, b), not(env.smaller(a, b)), not(env.smaller(b, a)))))));
    const before = asked.length;
    if (s === 0) { await command("focus"); await settle(); } else await tell(env, "select", {});
    const after = env.shown.get(dec.slice_type) || [];
    const ids = after.map((r) => { const c = r.start.character; return (c instanceof Object ? c.c : c) / 10; });
    const none = not(or(...spans.map((_, i) => around(q, i))));
    const same = (a, b) => or(...spans.map((_, i) => and(around(a, i), around(b, i))));
    // outside of all functions nothing changes
    check(`selection ${s}: outside`, or(not(none), fact(asked.length === before && JSON.stringify(ids) === JSON.stringify(shown))));
    const known = or(...had.map((h) => same(h, q)));
    check(`selection ${s}: computed iff needed`, or(none, env.iff(fact(asked.length > before), not(known))));
    check(`selection ${s}: computed once`, fact(asked.length <= before + 1));
    if (asked.length > before) {
      had.push(q);
      check(`selection ${s}: asked about the selection`, and(eq(asked[before].line, q.start.line), eq(asked[before].column, q.start.column)));
    }
    check(`selection ${s}: shows its function`, or(none, ...ids.map((k) => (k < had.length ? same(had[k], q) : fact(false)))));
    check(`selection ${s}: shows one`, or(none, fact(ids.length === 1)));
    shown = ids;
  }
};

// Whatever is highlighted was computed from the text as it is now, whatever happens in which order (P19).
const history = (length) => async (env, load) => {
  const { assume, le, choose, check } = env;
  assume(le(60, env.lens[0]));
  const all = whole(env);
  let text = 0; // the version of the text
  let saved = 0;
  env.doc.onSave = () => void (saved = text);
  const pending = [];
  let made = 0;
  const version = new Map(); // what was computed -> from which version of the text
  const { command, dec } = await start(env, load, ([cmd]) => cmd === "preload" ? {} : new Promise((done) => {
    const from = saved; // the analysis sees the file on disk
    pending.push(() => {
      if (cmd === "spans") return done(ok({ spans: [all] }));
      const at = { start: { line: 0, column: made }, end: { line: 0, column: made + 1 }, filename: env.doc.fileName };
      version.set(made++, from);
      done(ok({ place_info: [{ range: all, ranges: [all], slice: [at], direct_influence: [at] }], containers: [all] }));
    });
  }));
  select(env, "selection");
  assume(env.not(env.inside(all, { start: env.editor.selection.start, end: env.editor.selection.end })));
  const col = (r) => { const c = r.start.character; return c instanceof Object ? c.c : c; };
  const current = () => (env.shown.get(dec.slice_type) || []).map(col);
  let on = false;
  for (let i = 0; i < length; i++) {
    const event = ["toggle", "edit", "save", "select", "answer", "late"][choose(`event${i}`, 6)];
    if ((event === "answer" && !pending.length) || (event === "late" && pending.length < 2)) continue;
    switch (event) {
      case "toggle": command("focus"); on = !on; break; // does not wait for the analysis
      case "edit": text++; env.doc.isDirty = true; await tell(env, "edit", { document: env.doc }); break;
      case "save": if (env.doc.isDirty) await env.doc.save(); else await tell(env, "save", env.doc); break;
      case "select": await tell(env, "select", {}); break;
      case "answer": pending.shift()(); break;
      case "late": pending.pop()(); break; // (of two analyses running, the later one ends first)
    }
    await settle();
    check(`after ${i + 1} events: nothing outdated is shown`, fact(current().every((k) => version.get(k) === text)));
    if (!on || env.doc.isDirty) check(`after ${i + 1} events: nothing is shown while ${on ? "unsaved" : "off"}`, fact(!current().length));
  }
  // when all is said and done, an active focus mode shows the current text's slice
  while (pending.length) { pending.shift()(); await settle(); }
  check("finally: nothing outdated is shown", fact(current().every((k) => version.get(k) === text)));
  check("finally: the status is what was asked for", fact(statusOf(env) === (!on ? "idle" : env.doc.isDirty ? "unsaved" : "active")));
  check("finally: a slice is shown iff active", fact(current().length === (on && !env.doc.isDirty ? 1 : 0)));
};

// The same with two documents side by side, of which one is active.
const documents = (length) => async (env, load) => {
  const { assume, le, choose, check } = env;
  assume(le(60, env.lens[0]));
  const all = whole(env);
  const docs = ["a", "b"].map((name) => {
    const d = { text: 0, saved: 0, shown: new Map() };
    d.file = `/ws/src/${name}.rs`;
    d.doc = Object.assign(Object.create(env.doc), { fileName: d.file, uri: { fsPath: d.file }, isDirty: false, onSave: () => void (d.saved = d.text) });
    const at = new env.stubs.vscode.Position(0, 0);
    d.editor = { document: d.doc, selection: new env.stubs.vscode.Selection(at, at), setDecorations: (type, ranges) => d.shown.set(type, ranges) };
    return d;
  });
  docs.forEach((d) => (d.doc.save = async () => {
    if (d.doc.isDirty) {
      d.doc.isDirty = false;
      d.saved = d.text;
      for (const f of env.stubs.listeners.save) f(d.doc);
    }
    return true;
  }));
  let active = docs[0];
  env.editor = active.editor;
  const pending = [];
  const made = [];
  const { window } = env.stubs.vscode;
  const { command, dec } = await start(env, load, ([cmd, file]) => cmd === "preload" ? {} : new Promise((done) => {
    const from = docs.map((d) => d.saved);
    pending.push(() => {
      if (cmd === "spans") return done(ok({ spans: [{ ...all, filename: file }] }));
      const k = made.length;
      made.push({ file, version: from[docs.findIndex((d) => d.file === file)] });
      const at = { start: { line: 0, column: k }, end: { line: 0, column: k + 1 }, filename: file };
      done(ok({ place_info: [{ range: all, ranges: [all], slice: [at], direct_influence: [at] }], containers: [all] }));
    });
  }));
  window.visibleTextEditors = docs.map((d) => d.editor);
  let on = false;
  const verify = (what) => docs.forEach((d) => {
    const now = (d.shown.get(dec.slice_type) || []).map((r) => made[r.start.character]);
    check(`${what}: nothing outdated is shown`, fact(now.every((m) => m.file === d.file && m.version === d.text)));
    if (!on) check(`${what}: nothing is shown while off`, fact(TYPES.every((t) => !(d.shown.get(dec[t]) || []).length)));
    if (d.doc.isDirty) check(`${what}: nothing is shown in an unsaved document`, fact(!now.length));
  });
  for (let i = 0; i < length; i++) {
    const event = ["toggle", "edit", "save", "select", "answer", "switch"][choose(`event${i}`, 6)];
    if (event === "answer" && !pending.length) continue;
    switch (event) {
      case "toggle": command("focus"); on = !on; break;
      case "edit": active.text++; active.doc.isDirty = true; await tell(env, "edit", { document: active.doc }); break;
      case "save": if (active.doc.isDirty) await active.doc.save(); else await tell(env, "save", active.doc); break;
      case "select": await tell(env, "select", {}); break;
      case "answer": pending.shift()(); break;
      case "switch":
        active = docs[active === docs[0] ? 1 : 0];
        window.activeTextEditor = active.editor;
        break;
    }
    await settle();
    verify(`after ${i + 1} events`);
  }
  while (pending.length) { pending.shift()(); await settle(); }
  verify("finally");
};

// A failing analysis is reported, and nothing is shown as its result (P20).
const failures = (length) => async (env, load) => {
  const { assume, le, choose, check, sym } = env;
  assume(le(60, env.lens[0]));
  const all = whole(env);
  const results = new Set();
  let requests = 0, failed = [], made = 0, build = null;
  const { command, dec } = await start(env, load, async ([cmd]) => {
    if (cmd === "preload") return {};
    const k = requests++;
    const message = `message-${made++}`;
    const kind = ["ok", "build", "killed", "no cargo", "analysis", "garbage", "not found"][choose(`outcome${made - 1}`, 7)];
    if (kind !== "ok") failed.push({ cmd, kind, message });
    if (["build", "killed", "no cargo"].includes(kind)) build = message;
    switch (kind) {
      case "ok": {
        if (cmd === "spans") return ok({ spans: [all] });
        results.add(made);
        const at = { start: { line: 0, column: made }, end: { line: 0, column: made + 1 }, filename: env.doc.fileName };
        return ok({ place_info: [{ range: all, ranges: [all], slice: [at], direct_influence: [at] }], containers: [all] });
      }
      case "build": return { exit: sym(`exit${k}`, 1, 255), stderr: message };
      case "killed": return { exit: null, stderr: message };
      case "no cargo": return { failure: message };
      case "analysis": return { value: { Err: { type: "AnalysisError", error: message } } };
      case "garbage": return { stdout: "garbage" };
      case "not found": return { value: { Err: { type: "FileNotFound" } } };
    }
  }, { sequential: true });
  const at = new env.stubs.vscode.Position(0, 0);
  env.editor.selection = new env.stubs.vscode.Selection(at, at);
  const current = () => (env.shown.get(dec.slice_type) || []).map((r) => r.start.character);
  let on = false;
  for (let i = 0; i < length; i++) {
    const event = ["toggle", "select", "edit and save", "mark", "last error"][choose(`event${i}`, 5)];
    const before = current();
    [requests, failed, env.dialogs] = [0, [], []];
    switch (event) {
      case "toggle": on = !on; await command("focus"); break;
      case "mark": on = true; await command("focus_mark"); break;
      case "select": await tell(env, "select", {}); break;
      case "edit and save":
        env.doc.isDirty = true;
        await tell(env, "edit", { document: env.doc });
        await env.doc.save();
        break;
      case "last error": await command("last_error"); break;
    }
    await settle();
    const what = `after ${i + 1} events`;
    const now = current();
    const user = event === "toggle" || event === "mark";
    check(`${what}: off when switched off`, fact(on || (statusOf(env) === "idle" && !now.length && (event !== "toggle" || !env.pane))));
    check(`${what}: only results are shown`, fact(now.every((k) => results.has(k))));
    if (failed.length) {
      const { kind, message } = failed[0];
      check(`${what}: nothing is shown as the result of a failure`, fact(now.every((k) => before.includes(k))));
      check(`${what}: the failure is visible in the status bar`, fact(statusOf(env) === (kind === "not found" && failed[0].cmd === "spans" ? "notfound" : "error")));
      if (user && ["build", "killed", "no cargo"].includes(kind)) check(`${what}: the build's errors are shown`, fact(!!env.pane && env.pane().includes(message)));
      if (user && kind === "analysis") check(`${what}: the analysis' error is shown`, fact(env.dialogs.some((d) => String(d).includes(message))));
      if (user && kind === "garbage") check(`${what}: the undecodable answer is reported`, fact(env.dialogs.length > 0));
    } else if (requests) {
      check(`${what}: success is shown`, fact(statusOf(env) === "active" && now.length === 1 && !env.pane));
    }
    if (event === "last error" && build) check(`${what}: the last build's errors are shown on demand`, fact(!!env.pane && env.pane().includes(build)));
  }
};

// Which directory is analysed, by which version (P21).
const activation = (depth) => async (env, load) => {
  const { choose, check } = env;
  const yes = (name) => choose(name, 2) === 1;
  const folder = "/ws", names = ["a", "b", "c", "d", "e"].slice(0, depth);
  const dirs = names.map((_, i) => [folder, ...names.slice(0, i + 1)].join("/"));
  const memo = new Map();
  const once = (name, f) => { if (!memo.has(name)) memo.set(name, f(name)); return memo.get(name); };
  const has = (dir) => once(`Cargo.toml in ${dir}`, yes);
  const ran = [];
  const opened = ["folder", "none"][choose("folders", 2)] === "folder";
  const editor = yes("editor");
  env.editor.document.fileName = [folder, ...names, "x.rs"].join("/");
  const version = ["right", "other", "missing"][choose("version", 3)];
  const root = !opened ? undefined : has(folder) ? folder : editor ? dirs.find(has) : undefined;
  let installed = version === "right", rustup = true, pressed = false;
  await start(env, load, async ([cmd]) => (ran.push(cmd), {}), {
    editor: editor ? env.editor : undefined,
    folders: opened ? [folder] : [],
    exists: (uri) => { const p = typeof uri === "string" ? uri : uri.fsPath; return p.endsWith("/Cargo.toml") && has(p.slice(0, -"/Cargo.toml".length)); },
    sequential: true,
    press: (buttons) => { if (yes("show fix")) { pressed = true; return buttons[0]; } return yes("dismiss") ? buttons[1] : undefined; },
    download: () => { if (!yes("download works")) throw new Error("offline"); installed = true; },
    run: (cmd, args, options) => {
      if (cmd === "rustup" && args.includes("install")) {
        rustup = yes("rustup works");
        return rustup ? {} : { exit: 1, stderr: "no" };
      }
      if (cmd === "cargo" && args.includes("install")) {
        check("the matching version is installed", fact(args[args.indexOf("--version") + 1] === "0" && args.includes("flowistry_ide")));
        installed = yes("cargo install works");
        return installed ? {} : { exit: 1, stderr: "no" };
      }
      if (cmd === "cargo" && args.includes("flowistry")) {
        check("in the project of the open file", fact(root !== undefined && options?.cwd === root));
        if (args.includes("-V")) return version === "missing" ? { exit: 101, stderr: "no such command" } : { stdout: version === "right" ? "0\n" : "0.0\n" };
        check("only the matching version runs", fact(installed));
      }
    },
  });
  await settle();
  check("commands exist iff there is a project, and the matching version", fact(!!env.commands["flowistry.focus"] === (root !== undefined && installed && (rustup || pressed))));
  check("nothing is installed when the version matches", fact(version !== "right" || !["rustup works", "download works", "cargo install works"].some((n) => memo.has(n))));
};

exports.scenarios = {
  documents4: documents(4), documents5: documents(5), documents6: documents(6), documents7: documents(7),
  failures2: failures(2), failures3: failures(3), failures4: failures(4), activation1: activation(1), activation3: activation(3), activation4: activation(4), activation5: activation(5), grey3x2: grey(2, 3),
  bodies1: bodies(1, 2), bodies2: bodies(2, 2), bodies2x3: bodies(2, 3), bodies3: bodies(3, 2),
  history3: history(3), history4: history(4), history5: history(5), history6: history(6),
  grey2: grey(1, 2), grey2x2: grey(2, 2), grey3: grey(1, 3), grey4: grey(1, 4),
  select1: selection(1, false), select2: selection(2, false), select3: selection(3, false), mark1: selection(1, true), mark2: selection(2, true),
};
