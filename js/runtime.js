// Symbolic values, the path being executed, and the solver.
'use strict';
const fs = require('fs'), cp = require('child_process'), path = require('path'), os = require('os');
class Unsupported extends Error {}
class Dead extends Error {}
let P = null; // the path being executed
function unsupported(what) { if (P) P.unsupported ||= what; throw new Unsupported(what) }
class Sym {
  constructor(sort, e) { this.sort = sort; this.e = e; Object.freeze(this) }
  [Symbol.toPrimitive]() { unsupported('a symbolic value in a native operation') }
  toJSON() { unsupported('a symbolic value in a native operation') }
}
const num = e => new Sym('int', e), bool = e => new Sym('bool', e);
const lit = n => n < 0 ? `(- ${-n})` : String(n);
const isInt = x => typeof x === 'number' && Number.isSafeInteger(x);

// ---- the solver: one z3 per process, talked to through pipes
class Solver {
  constructor(bin) {
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'jsym-'));
    const [i, o] = [this.dir + '/i', this.dir + '/o'];
    cp.execFileSync('mkfifo', [i, o]);
    this.child = cp.spawn('sh', ['-c', `exec ${bin} -in -t:60000 < ${i} > ${o}`], { stdio: 'ignore' });
    this.w = fs.openSync(i, 'w'); this.r = fs.openSync(o, 'r');
    this.buf = ''; this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, seconds: 0, max: 0 };
    fs.rmSync(this.dir, { recursive: true });
  }
  put(s) { fs.writeSync(this.w, s + '\n') }
  line() {
    for (;;) {
      const at = this.buf.indexOf('\n');
      if (at >= 0) { const l = this.buf.slice(0, at); this.buf = this.buf.slice(at + 1); return l }
      const b = Buffer.alloc(65536), n = fs.readSync(this.r, b);
      if (!n) throw new Error('the solver ended');
      this.buf += b.toString('utf8', 0, n);
    }
  }
  check(extra) {
    const t = process.hrtime.bigint();
    this.put(extra ? `(push)(assert ${extra})(check-sat)` : '(check-sat)');
    const r = this.line();
    const s = Number(process.hrtime.bigint() - t) / 1e9;
    const st = this.stats; st.queries++; st.seconds += s; st.max = Math.max(st.max, s);
    if (r !== 'sat' && r !== 'unsat') { if (r !== 'unknown' && r !== 'timeout') throw new Error('solver: ' + r); st.unknown++; P.unsupported ||= 'the solver gave up'; }
    else st[r]++;
    return r;
  }
  model(vars) {
    const m = [];
    for (const x of vars) { this.put(`(get-value (${x}))`); const g = /\(\(\S+ (.*)\)\)/.exec(this.line()); m.push(BigInt(g[1].replace(/[()\s]/g, ''))) }
    return m;
  }
}
// ---- a path
class Path {
  constructor(solver, prefix) {
    this.solver = solver; this.prefix = prefix; this.taken = []; this.pending = []; this.vars = []; this.inputs = []; this.asserted = [];
    this.violations = []; this.asserts = 0; this.symbolic = 0; this.covers = {}; this.log = []; this.forks = 0; this.steps = 0; this.unsupported = null; this.dead = false;
    if (solver) solver.put('(push)');
  }
  end() { if (this.solver) this.solver.put('(pop)') }
  /** which of n, without a condition */
  choose(n) {
    if (n < 2) return 0;
    let c;
    if (this.taken.length < this.prefix.length) c = this.prefix[this.taken.length];
    else { c = 0; this.forks++; for (let i = n - 1; i > 0; i--) this.pending.push([...this.taken, i]) }
    this.taken.push(c);
    this.inputs.push({ c });
    return c;
  }
  fresh(lo, hi) {
    const x = 'x' + this.vars.length;
    this.vars.push(x); this.inputs.push({ v: x });
    this.solver.put(`(declare-const ${x} Int)(assert (and (<= ${lit(lo)} ${x}) (<= ${x} ${lit(hi)})))`);
    return num(x);
  }
  take(e, yes) { const a = yes ? e : `(not ${e})`; this.asserted.push(a); this.solver.put(`(assert ${a})`) }
  /** whether a condition holds: both, if both are possible */
  decide(e) {
    if (this.dead) return false;
    let c;
    if (this.taken.length < this.prefix.length) c = this.prefix[this.taken.length];
    else {
      const yes = this.solver.check(e) !== 'unsat'; this.solver.put('(pop)');
      const no = !yes || (() => { const r = this.solver.check(`(not ${e})`) !== 'unsat'; this.solver.put('(pop)'); return r })();
      if (yes && no) { this.forks++; this.pending.push([...this.taken, 0]) }
      c = yes ? 1 : 0;
    }
    this.taken.push(c);
    this.take(e, c === 1);
    return c === 1;
  }
  assume(x) {
    if (typeof x === 'boolean') { if (!x) this.dead = true; return }
    const r = this.solver.check(x.e); this.solver.put('(pop)');
    if (r === 'unsat') this.dead = true; else this.take(x.e, true);
  }
  values() { const m = new Map(this.vars.map((x, i) => [x, i])); const r = this.solver.check(''); if (r !== 'sat') return null; const v = this.solver.model(this.vars); return this.inputs.map(i => 'c' in i ? i : { v: v[m.get(i.v)].toString() }) }
  check(x, msg) {
    if (this.dead || this.violations.length) return;
    this.asserts++;
    if (x instanceof Sym) {
      this.symbolic++;
      const r = this.solver.check(`(not ${x.e})`);
      if (r === 'sat') { const v = this.solver.model(this.vars); const at = new Map(this.vars.map((x, i) => [x, i])); this.violations.push({ msg, input: this.inputs.map(i => 'c' in i ? i : { v: v[at.get(i.v)].toString() }) }) }
      this.solver.put('(pop)');
      if (r === 'unsat') this.take(x.e, true);
    } else if (!x) this.violations.push({ msg, input: this.values() });
  }
}
// ---- concrete execution of one input
class Replay {
  constructor(input) { this.input = input; this.at = 0; this.violations = []; this.covers = {}; this.log = []; this.asserts = 0; this.dead = false }
  next(k) { const i = this.input[this.at++]; if (!i || !(k in i)) throw new Error('the input does not fit'); return i[k] }
  choose(n) { return n < 2 ? 0 : this.next('c') }
  fresh() { return Number(this.next('v')) }
  assume(x) { if (!x) this.dead = true }
  check(x, msg) { this.asserts++; if (!this.dead && !x && !this.violations.length) this.violations.push({ msg }) }
}
// ---- what instrumented code calls
const flip = { '<': '>', '>': '<', '<=': '>=', '>=': '<=' };
const MARK = /\uE000([^\uE001]*)\uE001/;
const marked = s => typeof s === 'string' && MARK.test(s);
function native(op, a, b) {
  switch (op) {
    case '==': return a == b; case '!=': return a != b; case '===': return a === b; case '!==': return a !== b;
    case '<': return a < b; case '>': return a > b; case '<=': return a <= b; case '>=': return a >= b;
    case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b;
    case '&': return a & b; case '|': return a | b; case '^': return a ^ b; case '<<': return a << b; case '>>': return a >> b; case '>>>': return a >>> b;
    case 'in': return a in b; case 'instanceof': return a instanceof b;
  }
  throw new Error(op);
}
const ex = x => x instanceof Sym ? x.e : lit(x);
const $ = {
  fn(n) { if (P && P.fns) { P.steps++; P.fns.add(n) } },
  bin(op, a, b) {
    const sa = a instanceof Sym, sb = b instanceof Sym;
    if (!sa && !sb) {
      if (marked(a) || marked(b)) { if (op === '+' ) return a + b; if ((op[0] === '=' || op[0] === '!') && (typeof a !== 'string' || typeof b !== 'string')) return native(op, a, b); if (a === b && (op === '===' || op === '==')) return true; unsupported('comparison of texts with symbolic parts') }
      return native(op, a, b);
    }
    if (op === 'in' && sa) return $.keyOf(b, a) !== undefined;
    if (op === 'instanceof') return false;
    const ia = sa && a.sort === 'int' || isInt(a), ib = sb && b.sort === 'int' || isInt(b);
    switch (op) {
      case '==': case '===': case '!=': case '!==': {
        const neg = op[0] === '!';
        if (ia && ib) { const e = `(= ${ex(a)} ${ex(b)})`; return bool(neg ? `(not ${e})` : e) }
        if (sa && sb && a.sort === b.sort) { const e = `(= ${a.e} ${b.e})`; return bool(neg ? `(not ${e})` : e) }
        const o = sa ? b : a;
        if (op.length === 3 || o === undefined || o === null || typeof o === 'number' && !isInt(o)) return neg;
        unsupported('loose comparison with ' + typeof o);
      }
      case '<': case '>': case '<=': case '>=': if (ia && ib) return bool(`(${op} ${ex(a)} ${ex(b)})`); break;
      case '+': case '-': if (ia && ib) return num(`(${op} ${ex(a)} ${ex(b)})`); if (op === '+' && (typeof a === 'string' || typeof b === 'string')) return $.text([a, b]); break;
    }
    unsupported('symbolic ' + op);
  },
  neg(a) { return a instanceof Sym ? num(`(- ${a.e})`) : -a },
  first(a) { return a },
  /** a value as a condition */
  v(a) {
    if (!(a instanceof Sym)) return a;
    if (a.sort === 'bool') return P.decide(a.e);
    return P.decide(`(not (= ${a.e} 0))`) ? a : 0;
  },
  type(a) { return a instanceof Sym ? (a.sort === 'int' ? 'number' : 'boolean') : typeof a },
  text(parts) { return parts.map(p => p instanceof Sym ? `\uE000${p.e}\uE001` : typeof p === 'symbol' ? unsupported('symbol') : `${p}`).join('') },
  /** the own key equal to a symbolic one */
  keyOf(o, k) { for (const x of Object.keys(o)) if (/^(0|[1-9]\d{0,14})$/.test(x) && $.v($.bin('===', k, Number(x)))) return x; return undefined },
  get(o, k) { if (!(k instanceof Sym)) return o[k]; if (o === null || o === undefined) return o[0]; const x = $.keyOf(o, k); return x === undefined ? undefined : o[x] },
  set(o, k, v) { if (!(k instanceof Sym)) return o[k] = v; const x = $.keyOf(o, k); if (x === undefined) unsupported('a symbolic key is added'); return o[x] = v },
  del(o, k) { if (!(k instanceof Sym)) return delete o[k]; const x = $.keyOf(o, k); return x === undefined ? true : delete o[x] },
  invoke(o, k, a) { const g = $.get(o, k); return g.apply(o, a) },
};
const eq = (a, b) => $.v($.bin('===', a, b));
class SymMap {
  constructor(it) { this.es = []; if (it) for (const [k, v] of it) this.set(k, v) }
  find(k) { for (const e of this.es) if (e.live && (e.k === k || (k instanceof Sym || e.k instanceof Sym) && $.v($.bin('===', e.k, k)) || k !== k && e.k !== e.k)) return e; }
  get(k) { return this.find(k)?.v } has(k) { return !!this.find(k) }
  set(k, v) { const e = this.find(k); if (e) e.v = v; else this.es.push({ k, v, live: true }); return this }
  delete(k) { const e = this.find(k); if (!e) return false; e.live = false; return true }
  clear() { for (const e of this.es) e.live = false }
  get size() { return this.es.filter(e => e.live).length }
  *entries() { for (let i = 0; i < this.es.length; i++) if (this.es[i].live) yield [this.es[i].k, this.es[i].v] }
  *keys() { for (const [k] of this.entries()) yield k } *values() { for (const [, v] of this.entries()) yield v }
  forEach(f, t) { for (const [k, v] of this.entries()) f.call(t, v, k, this) }
  [Symbol.iterator]() { return this.entries() }
}
class SymSet {
  constructor(it) { this.m = new SymMap(); if (it) for (const k of it) this.add(k) }
  has(k) { return this.m.has(k) } add(k) { this.m.set(k, k); return this } delete(k) { return this.m.delete(k) } clear() { this.m.clear() }
  get size() { return this.m.size } values() { return this.m.keys() } keys() { return this.m.keys() } *entries() { for (const k of this.m.keys()) yield [k, k] }
  forEach(f, t) { for (const k of this.m.keys()) f.call(t, k, k, this) }
  [Symbol.iterator]() { return this.m.keys() }
}
const SymJSON = {
  stringify(v, r, s) {
    if (r || v instanceof Sym && false) unsupported('JSON.stringify with a replacer');
    const t = JSON.stringify(v, function (k, x) { return this[k] instanceof Sym ? `\uE000${this[k].e}\uE001` : x }, s);
    return t === undefined ? t : t.replace(/"(\uE000[^\uE001]*\uE001)"/g, '$1');
  },
  parse(t, r) {
    if (typeof t !== 'string' || !MARK.test(t)) return JSON.parse(t, r);
    if (r) unsupported('JSON.parse with a reviver');
    // outside of quotes it is a number
    let out = '', q = false;
    for (let i = 0; i < t.length; i++) {
      const c = t[i];
      if (c === '\uE000') { const j = t.indexOf('\uE001', i); out += q ? t.slice(i, j + 1) : JSON.stringify('\uE002' + t.slice(i + 1, j)); i = j; continue }
      if (c === '"') q = !q; else if (q && c === '\\') { out += c + t[++i]; continue }
      out += c;
    }
    return JSON.parse(out, (k, x) => typeof x === 'string' && x[0] === '\uE002' ? num(x.slice(1)) : x);
  },
};
Sym.prototype.toJSON = undefined;
// natives that compare values
for (const name of ['includes', 'indexOf']) {
  const own = Array.prototype[name];
  Object.defineProperty(Array.prototype, name, { configurable: true, writable: true, value: function (x, ...r) {
    if (P && !r.length && (x instanceof Sym || this.some?.(y => y instanceof Sym))) { for (let i = 0; i < this.length; i++) if (this[i] === x || (this[i] instanceof Sym || x instanceof Sym) && eq(this[i], x)) return name === 'includes' ? true : i; return name === 'includes' ? false : -1 }
    return own.call(this, x, ...r);
  } });
}
const SymNumber = new Proxy(Number, { apply(t, s, [x]) { return x instanceof Sym ? x : Number(x) }, get(t, k) { if (['isInteger', 'isSafeInteger', 'isFinite'].includes(k)) return x => x instanceof Sym ? x.sort === 'int' : Number[k](x); if (k === 'isNaN') return x => x instanceof Sym ? false : Number.isNaN(x); return t[k] } });
const SymString = new Proxy(String, { apply(t, s, a) { return a[0] instanceof Sym ? $.text([a[0]]) : String(...a) } });
const SymObject = new Proxy(Object, { get(t, k) { if (k === 'is') return (a, b) => a instanceof Sym || b instanceof Sym ? $.bin('===', a, b) : Object.is(a, b); return t[k] } });
module.exports = { $, Sym, Path, Replay, Solver, Unsupported, unsupported, natives: { Map: SymMap, Set: SymSet, JSON: SymJSON, Number: SymNumber, String: SymString, Object: SymObject }, enter(p) { P = p }, bool, num };
