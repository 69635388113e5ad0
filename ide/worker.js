// Runs one scenario of scenarios.js per line of input: {"scenario", "inputs", "concrete"} -> the recorded run.
const fs = require("fs"), path = require("path"), vm = require("vm"), readline = require("readline");
const { compile } = require("./instrument.js");
const rt = require("./runtime.js");
const SRC = process.env.IDE_SRC || "/repo/ide/src";
const LODASH = "/opt/veriftools/quint/node_modules/lodash/lodash.js";
const log = console.log;
Object.assign(globalThis, { VERSION: "0", TOOLCHAIN: { channel: "nightly", components: [] } }); // defined by the build
for (const m of ["log", "debug", "info", "warn", "error"]) console[m] = () => {};

const code = new Map();
const compiled = (file, instrumented) => {
  const key = file + instrumented;
  if (!code.has(key)) {
    const js = compile(fs.readFileSync(file, "utf8"), file, instrumented);
    code.set(key, new vm.Script(`(function (exports, require, module) {${js}\n})`, { filename: file }));
  }
  return code.get(key);
};
const evaluate = (file, instrumented, req, module = { exports: {} }) => {
  compiled(file, instrumented).runInThisContext()(module.exports, req, module);
  return module.exports;
};
const lodash = {};

// a fresh copy of the extension's modules for every run, as they may hold state
const load = (instrumented, stubs) => {
  const cache = new Map();
  const req = (from) => (name) => {
    if (name in stubs) return stubs[name];
    if (name === "lodash") return (lodash[instrumented] ??= evaluate(LODASH, instrumented, require));
    if (!name.startsWith(".")) return ["path", "os", "zlib", "util", "fs", "assert", "events"].includes(name) ? require(name) : { default: () => {} };
    const file = path.resolve(path.dirname(from), name) + ".ts";
    if (!fs.existsSync(file)) return {};
    if (!cache.has(file)) {
      const module = { exports: {} };
      cache.set(file, module);
      evaluate(file, instrumented, req(file), module);
    }
    return cache.get(file).exports;
  };
  return req(path.join(SRC, "x.ts"));
};

let unhandled = null;
process.on("unhandledRejection", (e) => (unhandled ??= e));
class Abandoned extends Error {}
const run = async ({ scenario, inputs, concrete }) => {
  rt.reset();
  unhandled = null;
  const mode = require("./scenarios.js");
  const env = mode.environment({ rt, inputs, concrete: !!concrete, Abandoned });
  try {
    await mode.scenarios[scenario](env, (stubs) => load(!concrete, stubs));
  } catch (e) {
    if (!(e instanceof Abandoned)) return { ...rt.trace, error: String(e && e.stack || e).slice(0, 1500) };
    return { ...rt.trace, abandoned: true };
  }
  return { ...rt.trace, ...(unhandled ? { error: String(unhandled.stack || unhandled).slice(0, 1500) } : {}) };
};

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const out = await run(JSON.parse(line));
    log(JSON.stringify(out));
  }
})();
