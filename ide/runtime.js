// Concolic values. A symbolic number carries the value of this run and a term over the inputs.
const trace = { path: [], asserts: [], vars: {} };
const tokens = [];
const parse = (s) => (s.startsWith("\u00a7") ? tokens[+s.slice(1)] : +s);
class Sym {
  constructor(c, t) { this.c = c; this.t = t; }
  // whatever looks at the value itself fixes it: recorded, so that other values are explored too
  fix() { if (!Array.isArray(this.t) && typeof this.t !== "string") return this.c; branch(["=", this.t, this.c], true); return this.c; }
  [Symbol.toPrimitive]() { return this.fix(); }
  // a token that scenarios can read back; nothing in it depends on the value
  toString() { tokens.push(this); return `\u00a7${tokens.length - 1}`; }
  toJSON() { return this.toString(); }
}
const term = (x) => (x instanceof Sym ? x.t : x);
const val = (x) => (x instanceof Sym ? x.c : x);
const branch = (t, taken) => { trace.path.push([t, taken]); return taken; };
const REL = { "<": (a, b) => a < b, "<=": (a, b) => a <= b, ">": (a, b) => a > b, ">=": (a, b) => a >= b, "=": (a, b) => a === b };
const raw = (o, a, b) => {
  switch (o) {
    case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b;
    case "<": return a < b; case "<=": return a <= b; case ">": return a > b; case ">=": return a >= b;
    case "==": return a == b; case "===": return a === b; case "!=": return a != b; case "!==": return a !== b;
  }
};
const num = (x) => typeof x === "number" || x instanceof Sym;
const $op = (o, a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym)) return raw(o, a, b);
  if (o === "===" || o === "!==" || o === "==" || o === "!=") {
    const eq = num(a) && num(b) ? branch(["=", term(a), term(b)], val(a) === val(b)) : o.length === 3 ? false : raw("==", val(a), val(b));
    return o[0] === "=" ? eq : !eq;
  }
  if (!num(a) || !num(b)) return raw(o, a instanceof Sym ? a.fix() : a, b instanceof Sym ? b.fix() : b);
  if (!Number.isFinite(val(a)) || !Number.isFinite(val(b))) return raw(o, val(a), val(b));
  if (REL[o]) return branch([o, term(a), term(b)], REL[o](val(a), val(b)));
  if (o === "+" || o === "-" || o === "*") return new Sym(raw(o, a.c ?? a, b.c ?? b), [o, term(a), term(b)]);
  return raw(o, a instanceof Sym ? a.fix() : a, b instanceof Sym ? b.fix() : b);
};
const $v = (x) => (x instanceof Sym ? (branch(["=", x.t, 0], x.c === 0) ? 0 : x) : x);
const $typeof = (x) => (x instanceof Sym ? "number" : typeof x);
const $u = (x) => (x instanceof Sym ? x.fix() : x); // for `switch`
const $plus = (x) => (x instanceof Sym ? x : +x);
Object.assign(globalThis, { $op, $v, $typeof, $u, $plus });

// natives that would otherwise look at the values unrecorded
const conc = (x) => (x instanceof Sym ? x.fix() : x);
for (const [name, less] of [["max", (a, b) => $op("<", a, b)], ["min", (a, b) => $op(">", a, b)]]) {
  const native = Math[name];
  Math[name] = (...xs) => (xs.some((x) => x instanceof Sym) ? xs.reduce((a, b) => (less(a, b) ? b : a)) : native(...xs));
}
for (const name of ["floor", "ceil", "round", "trunc"]) {
  const native = Math[name];
  Math[name] = (x) => (x instanceof Sym ? x : native(x)); // all terms are integers
}
const abs = Math.abs;
Math.abs = (x) => (x instanceof Sym ? ($op("<", x, 0) ? $op("-", 0, x) : x) : abs(x));
const isInteger = Number.isInteger, isFinite_ = Number.isFinite, isNaN_ = Number.isNaN;
Number.isInteger = (x) => x instanceof Sym || isInteger(x);
Number.isFinite = (x) => x instanceof Sym || isFinite_(x);
Number.isNaN = (x) => !(x instanceof Sym) && isNaN_(x);
const has = (a) => { for (let i = 0; i < a.length; i++) if (a[i] instanceof Sym) return true; return false; };
const sort = Array.prototype.sort;
const patch = (proto, name, value) => Object.defineProperty(proto, name, { value, writable: true, configurable: true, enumerable: false });
patch(Array.prototype, "sort", function (cmp) {
  if (!cmp || this.length > 16) return sort.call(this, cmp);
  for (let i = 1; i < this.length; i++)
    for (let j = i; j > 0 && $op(">", cmp(this[j - 1], this[j]), 0); j--) [this[j - 1], this[j]] = [this[j], this[j - 1]];
  return this;
});
patch(Array.prototype, "toSorted", function (cmp) { return [...this].sort(cmp); });
const indexOf = Array.prototype.indexOf;
patch(Array.prototype, "indexOf", function (x, from) {
  if (!(x instanceof Sym) && !has(this)) return indexOf.apply(this, arguments);
  for (let i = from || 0; i < this.length; i++) if ($op("===", this[i], x)) return i;
  return -1;
});
const includes = Array.prototype.includes;
patch(Array.prototype, "includes", function (x) { return x instanceof Sym || has(this) ? this.indexOf(x) >= 0 : includes.apply(this, arguments); });
for (const C of [Map, Set])
  for (const m of ["get", "has", "set", "add", "delete"])
    if (C.prototype[m]) { const native = C.prototype[m]; patch(C.prototype, m, function (k, ...r) { return native.call(this, conc(k), ...r); }); }
// callbacks whose answer is used as a truth value
for (const m of ["filter", "some", "every", "find", "findIndex", "findLast", "findLastIndex"]) {
  const native = Array.prototype[m];
  patch(Array.prototype, m, function (f, self) { return native.call(this, function (...a) { return $v(f.apply(self, a)); }); });
}

// numbers that were written out come back
const json = JSON.parse;
JSON.parse = (s, f) => json(s, f || ((_, v) => (typeof v === "string" && v.startsWith("\u00a7") ? parse(v) : v)));

exports.reset = () => { tokens.length = 0; Object.assign(trace, { path: [], asserts: [], vars: {} }); };
exports.Sym = Sym;
exports.parse = parse;
exports.trace = trace;
exports.term = term;
exports.val = val;
