// node main.js SCRIPT HARNESS ENTRY OUT [PARAM..]      explores every path of an entry
// node main.js --replay SCRIPT HARNESS ENTRY INPUT [PARAM..]   runs one input without instrumentation
'use strict';
const fs = require('fs'), cp = require('child_process'), os = require('os'), path = require('path');
const { instrument, strip } = require('./instrument.js');
const R = require('./runtime.js');
const drain = () => new Promise(r => setImmediate(r));
process.on('unhandledRejection', () => {}); // a browser reports these, and goes on
function load(script, harness, symbolic, names) {
  const js = strip(fs.readFileSync(script, 'utf8'));
  const H = require(path.resolve(__dirname, harness));
  const env = symbolic ? R.natives : { Map, Set, JSON, Number, String, Object };
  const args = ['$', 'exports', 'require', 'module', ...Object.keys(env), ...H.globals];
  const body = '"use strict";\n' + (symbolic ? instrument(js, names) : js);
  return { H, make: (exports, require, globals) => new Function(...args, body)(R.$, exports, require, { exports }, ...Object.values(env), ...H.globals.map(g => globals[g])), JSON: env.JSON };
}
async function one(L, entry, params, p) {
  R.enter(p);
  try { await L.H[entry](new World(L, p), ...params) }
  catch (e) { if (!(e instanceof R.Unsupported)) { p.unsupported ||= 'harness: ' + (e && e.stack || e) } }
  await drain();
  R.enter(null);
}
class World {
  constructor(L, p) { this.L = L; this.p = p; this.JSON = L.JSON; this.$ = R.$ }
  choose(n) { return this.p.choose(n) } int(lo, hi) { return this.p.fresh(lo, hi) } assume(x) { this.p.assume(x) } check(x, m) { this.p.check(x, m) } cover(n) { this.p.covers[n] = (this.p.covers[n] || 0) + 1 }
  note(s) { this.p.log.push(s) } drain() { return drain() }
  get over() { return this.p.dead || this.p.violations.length > 0 || !!this.p.unsupported }
  is(a, b) { return this.$.v(this.$.bin('===', a, b)) } // forks
  equal(a, b) { return this.$.bin('===', a, b) }
}
const zero = () => ({ paths: 0, forks: 0, steps: 0, asserts: 0, asserts_symbolic: 0, covers: {}, ended: {}, errors: [], violations: [], samples: [], functions: {}, max_vars: 0 });
async function worker(script, harness, entry, params) {
  const names = new Set(), L = load(script, harness, true, names), solver = new R.Solver('z3');
  process.on('message', async ({ prefix, budget }) => {
    const todo = [prefix], t = zero();
    while (todo.length && budget-- > 0) {
      const p = new R.Path(solver, todo.pop());
      p.fns = new Set();
      await one(L, entry, params, p);
      todo.push(...p.pending);
      t.forks += p.forks; t.steps += p.steps; t.asserts += p.asserts; t.asserts_symbolic += p.symbolic; t.max_vars = Math.max(t.max_vars, p.vars.length);
      for (const n of p.fns) t.functions[n] = (t.functions[n] || 0) + 1;
      const how = p.unsupported ? 'unsupported' : p.violations.length ? 'violation' : p.dead ? 'assume' : 'done';
      t.ended[how] = (t.ended[how] || 0) + 1;
      if (p.unsupported && !p.dead) { if (t.errors.length < 5) t.errors.push('not supported by the check: ' + p.unsupported) }
      else if (p.violations.length) { for (const v of p.violations) if (t.violations.length < 3) t.violations.push(v) }
      else if (!p.dead) {
        t.paths++;
        for (const k in p.covers) t.covers[k] = (t.covers[k] || 0) + 1;
        if (t.paths % 97 === 1 && t.samples.length < 2) { const input = p.values(); if (input) t.samples.push({ input, obs: Buffer.from(p.log.join('\n')).toString('hex') }) }
      }
      p.end();
    }
    const s = solver.stats; solver.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, seconds: 0, max: 0 };
    process.send({ todo, t, s });
  });
  process.send({ ready: true });
}
async function explore(script, harness, entry, out, params) {
  const t0 = Date.now(), tot = { ...zero(), queries: 0, sat: 0, unsat: 0, unknown: 0, solver_seconds: 0, max_query_seconds: 0, cache_hits: 0, domain_decisions: 0 };
  try { load(script, harness, true, new Set()) }
  catch (e) { if (!String(e.message).startsWith(NOTS)) throw e; tot.violations.push({ msg: e.message, input: '5b5d', stack: '' }); fs.writeFileSync(out, JSON.stringify({ ...tot, wall_seconds: 0 })); return }
  const queue = [[]]; let busy = 0, stop = false;
  const limit = Number(process.env.JSYM_SECS || 600) * 1000;
  const ws = []; for (let i = 0; i < os.cpus().length; i++) ws.push(cp.fork(__filename, ['--worker', script, harness, entry, ...params.map(String)]));
  await new Promise((done, fail) => {
    const idle = new Set();
    const feed = () => {
      if (Date.now() - t0 > limit && queue.length) { tot.errors.push('out of time'); queue.length = 0 }
      for (const w of idle) { if (!queue.length) break; idle.delete(w); busy++; w.send({ prefix: queue.shift(), budget: queue.length < 32 ? 8 : 200 }) }
      if (!busy && !queue.length && idle.size === ws.length) done();
    };
    for (const w of ws) {
      w.on('exit', (c, sig) => { if (!stop) fail(new Error('a worker ended: ' + c + sig)) });
      w.on('message', m => {
        if (m.ready) { idle.add(w); return feed() }
        busy--; idle.add(w);
        if (!stop) queue.unshift(...m.todo);
        for (const k of ['paths', 'forks', 'steps', 'asserts', 'asserts_symbolic']) tot[k] += m.t[k];
        for (const k of ['covers', 'ended', 'functions']) for (const x in m.t[k]) tot[k][x] = (tot[k][x] || 0) + m.t[k][x];
        tot.errors.push(...m.t.errors.slice(0, Math.max(0, 20 - tot.errors.length))); tot.violations.push(...m.t.violations.slice(0, Math.max(0, 3 - tot.violations.length))); tot.samples.push(...m.t.samples);
        tot.max_vars = Math.max(tot.max_vars, m.t.max_vars);
        tot.queries += m.s.queries; tot.sat += m.s.sat; tot.unsat += m.s.unsat; tot.unknown += m.s.unknown; tot.solver_seconds += m.s.seconds; tot.max_query_seconds = Math.max(tot.max_query_seconds, m.s.max);
        if (tot.violations.length >= 3) queue.length = 0;
        feed();
      });
    }
  });
  stop = true; for (const w of ws) w.kill();
  tot.samples = tot.samples.slice(0, 6);
  // what was sampled and what was found is run again, uninstrumented
  const hex = x => Buffer.from(JSON.stringify(x)).toString('hex');
  for (const s of tot.samples) s.input = hex(s.input);
  for (const v of tot.violations) { v.input = hex(v.input); v.stack = '' }
  tot.wall_seconds = (Date.now() - t0) / 1000; tot.processes = ws.length;
  fs.writeFileSync(out, JSON.stringify(tot));
}
async function replay(script, harness, entry, input, params) {
  const L = load(script, harness, false), p = new R.Replay(JSON.parse(fs.readFileSync(input, 'utf8')));
  await one(L, entry, params, p);
  if (process.env.ZSYM_OBS) fs.writeFileSync(process.env.ZSYM_OBS, p.log.join('\n'));
  if (process.env.JSYM_LOG) console.log(p.log.join('\n'));
  for (const v of p.violations) process.stderr.write('ZSYM-VIOLATION ' + v.msg + '\n');
  if (p.unsupported) { process.stderr.write(p.unsupported + '\n'); process.exit(3) }
  process.exit(p.violations.length ? 77 : p.dead ? 4 : 0);
}
const [, , a, ...r] = process.argv;
const NOTS = 'the generated client is no TypeScript';
const fatal = e => { if (a === '--replay' && String(e && e.message).startsWith(NOTS)) { process.stderr.write('ZSYM-VIOLATION ' + e.message + '\n'); process.exit(77) } process.stderr.write(String(e && e.stack || e) + '\n'); process.exit(3) };
if (a === '--worker') worker(r[0], r[1], r[2], r.slice(3).map(Number)).catch(fatal);
else if (a === '--replay') replay(r[0], r[1], r[2], r[3], r.slice(4).map(Number)).catch(fatal);
else explore(a, r[0], r[1], r[2], r.slice(3).map(Number)).then(() => process.exit(0), fatal);
