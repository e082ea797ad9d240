// R11: the generated client against a server and a network that do anything.
'use strict';
const METHODS = [['Alpha', 'zero', 0], ['Alpha', 'add', 2], ['Alpha', 'same', 1], ['Beta_2', 'same', 2]];
const STREAMS = [['Alpha', 'count', 1], ['Beta_2', 'count', 2]];
const globals = ['WebSocket', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'console', 'performance', 'Date', 'Math', 'window', 'globalThis', 'self', 'queueMicrotask'];

/** the browser: sockets, timers, and the generated client loaded into it */
function browser(w) {
  const sockets = [], timers = [];
  class WebSocket {
    constructor(url) { this.url = url; this.readyState = 0; this.no = sockets.length; this.sent = []; this.listeners = {}; this.failed = false; sockets.push(this); w.note('socket') }
    addEventListener(k, f) { (this.listeners[k] ||= []).push(f) }
    removeEventListener(k, f) { this.listeners[k] = (this.listeners[k] || []).filter(g => g !== f) }
    send(t) {
      if (this.readyState === 0) throw new Error('InvalidStateError');
      if (this.readyState === 1) { this.sent.push(t); w.note('send'); b.onsend(this, t) }
    }
    close() { if (this.readyState === 0) { this.failed = true; this.readyState = 2 } else if (this.readyState === 1) this.readyState = 2 }
    fire(k, e) {
      e = { type: k, target: this, currentTarget: this, ...e };
      for (const f of [this['on' + k], ...(this.listeners[k] || [])]) if (typeof f === 'function') { try { f.call(this, e) } catch (err) { w.note('thrown') } }
    }
  }
  for (const [k, v] of [['CONNECTING', 0], ['OPEN', 1], ['CLOSING', 2], ['CLOSED', 3]]) { WebSocket[k] = v; WebSocket.prototype[k] = v }
  const setTimeout = (f, ms, ...a) => { timers.push({ f, a, live: true }); w.note('timer'); return timers.length };
  const clearTimeout = n => { if (timers[n - 1]) timers[n - 1].live = false };
  const silent = new Proxy({}, { get: () => () => {} });
  let now = 0;
  const clock = { now: () => ++now };
  class FakeDate { static now() { return ++now } getTime() { return ++now } valueOf() { return now } }
  // what zod is asked to judge, it accepts or refuses
  let refuse = () => false;
  const schema = new Proxy(function () {}, { get: (t, k) => k === 'parse' ? a => { if (refuse()) throw new Error('ZodError'); return a } : k === 'safeParse' ? a => refuse() ? { success: false, error: new Error('ZodError') } : { success: true, data: a } : k === 'then' ? undefined : k === 'tuple' ? (() => schema) : schema, apply: () => schema });
  const glob = { WebSocket, setTimeout, clearTimeout, setInterval: setTimeout, clearInterval: clearTimeout, console: silent, performance: clock, Date: FakeDate, Math: Object.assign(Object.create(Math), { random: () => 0.5 }), queueMicrotask };
  glob.window = glob.globalThis = glob.self = glob;
  const exports = {}, b = { sockets, timers, exports, onsend() {}, refuseWhen(f) { refuse = f } };
  try { w.L.make(exports, n => { if (n === 'zod') return Object.assign(Object.create(null), { __esModule: true, z: schema, default: schema, number: schema, string: schema, object: schema, ...Object.fromEntries(['tuple', 'lazy', 'union', 'array', 'literal', 'number', 'string', 'boolean', 'object', 'any', 'unknown', 'null', 'undefined', 'discriminatedUnion', 'intersection', 'map', 'set', 'record', 'enum', 'optional', 'nullable', 'void', 'never', 'bigint'].map(k => [k, (...a) => schema]))}); throw new Error('no module ' + n) }, glob) }
  catch (e) { if (e.constructor.name === 'Unsupported') throw e; w.check(false, 'the generated client does not load: ' + e.message) }
  return b;
}

/** `steps` free steps of the user, the server and the network; at most `calls` calls and `subs` streams */
async function session(w, steps, calls, subs, mode) {
  const b = browser(w);
  const cs = [], ss = [], ids = [], seen = [];
  let closures = 0, opened = 0;
  const symarg = () => w.int(-1000, 1000);
  const same = (x, y) => typeof x === 'object' && x && y && typeof y === 'object' && x.constructor.name !== 'Sym' ? null : w.equal(x, y);
  b.onsend = (sock, text) => {
    if (w.over) return;
    let m; try { m = w.JSON.parse(text) } catch { return w.check(false, 'what the client sends is no JSON') }
    if (m && m.cancelStream) {
      const s = ss.find(s => s.id !== undefined && !(s.id instanceof Object) && s.id === m.cancelStream.id);
      w.check(s ? s.closed : ss.some(s => s.closed && !s.sent), 'the client cancels a stream that was not closed');
      if (s) { w.check(!s.cancelled, 'the client cancels a stream twice'); s.cancelled = true; w.cover(7) }
      return;
    }
    const r = m && m.exec;
    if (!r) return w.check(false, 'the client sends something that is no request');
    const i = [...cs, ...ss].findIndex(c => c.ns === r.namespace && c.method === r.method && Array.isArray(r.args) && r.args.length === c.args.length && (c.args.length < 1 ? c.accepted && (!c.sent || c.id === r.id) : r.args[0] === c.args[0]));
    if (i < 0) return w.check(false, 'the client sends a request that nobody made');
    const c = [...cs, ...ss][i];
    w.check(c.accepted, 'a call with refused arguments is sent');
    for (let k = 1; k < c.args.length; k++) w.check(w.equal(r.args[k], c.args[k]), 'a request carries another argument');
    w.check(typeof r.id === 'number' && Number.isSafeInteger(r.id) && r.id >= 0, 'the id of a request is no number');
    w.check(!ids.some(x => x.id === r.id && x.c !== c), 'a request has the id of another');
    if (c.sent) w.check(c.kind === 'stream' && c.sock !== sock && c.id === r.id, 'a request is sent twice');
    // nobody answers under an id that was not used yet
    for (const x of seen) if (x.before) w.assume(w.$.bin('!==', x.id, r.id));
    ids.push({ id: r.id, c }); c.id = r.id; c.sent = true; c.sock = sock; w.cover(1);
  };
  const made = (kind, list, at) => {
    const [ns, method, n] = list[at];
    const args = []; for (let k = 0; k < n; k++) args.push(k ? symarg() : 5000 + cs.length * 10 + ss.length);
    return { kind, ns, method, args, accepted: mode & 1 ? w.choose(2) === 0 : true, sent: false, lost: false, settled: null, want: null, got: [], subs: [] };
  };
  const invoke = c => { let at = 0; b.refuseWhen(() => !c.accepted); try { return b.exports[c.ns][c.method](...c.args) } finally { b.refuseWhen(() => false) } };
  const acts = () => {
    const a = [];
    if (cs.length < calls) for (let k = 0; k < (mode & 1 ? METHODS.length : 1); k++) a.push(() => {
      const c = made('method', METHODS, mode & 1 ? k : 1 + cs.length % 3); cs.push(c); w.note('call');
      let p; try { p = invoke(c) } catch { w.check(false, 'a call throws instead of rejecting'); return }
      w.check(p && typeof p.then === 'function', 'a call gives no promise');
      p.then(x => { w.check(!c.settled, 'a promise is settled twice'); c.settled = 'resolved'; c.value = x; w.note('resolved') }, e => { c.settled = 'rejected'; w.note('rejected') });
    });
    if (ss.length < subs) for (let k = 0; k < (mode & 1 ? STREAMS.length : 1); k++) a.push(() => {
      const c = made('stream', STREAMS, mode & 1 ? k : ss.length % 2); ss.push(c); w.note('stream');
      let st; try { st = invoke(c) } catch { w.check(!c.accepted, 'a stream with accepted arguments throws'); c.gone = true; return }
      w.check(c.accepted, 'a stream with refused arguments does not throw');
      c.store = st; listen(c);
    });
    ss.forEach(c => { if (c.store) {
      if (c.subs.length < 2 && mode & 2) a.push(() => { w.note('listen'); listen(c) });
      c.subs.forEach(s => { if (s.on) a.push(() => { s.on = false; w.note('unlisten'); s.off() }) });
      if (!c.closed && mode & 4) a.push(() => { c.closed = true; w.note('close'); c.store.close(); });
    } });
    b.sockets.forEach(s => {
      if (s.readyState === 0) { a.push(() => { s.readyState = 1; opened++; w.note('open'); s.fire('open') }); if (mode & 8) a.push(() => fail(s)) }
      if (s.readyState === 1) { a.push(() => answer(s)); if (mode & 8) a.push(() => { for (const c of [...cs, ...ss]) c.lost = true; closures++; w.note('lost'); s.readyState = 3; s.fire('close') }) }
      if (s.readyState === 2) a.push(() => { w.note('closed'); if (s.failed) fail(s, true); else { s.readyState = 3; s.fire('close') } });
    });
    b.timers.forEach(t => { if (t.live) a.push(() => { t.live = false; w.note('fire'); t.f(...t.a) }) });
    return a;
  };
  const fail = (s, own) => { if (!own) { for (const c of [...cs, ...ss]) c.lost = true; closures++ } w.note('fail'); s.readyState = 3; s.fire('error'); s.fire('close') };
  const listen = c => { const s = { on: true, got: [], want: [] }; c.subs.push(s); s.off = c.store.subscribe(x => { w.check(s.on, 'a store passes an item to a subscriber that left'); s.got.push(x) }); w.check(typeof s.off === 'function', 'a store gives no way to unsubscribe') };
  const answer = s => {
    const kind = w.choose(mode & 16 ? 5 : 3);
    if (kind === 3) { w.note('junk'); s.fire('message', { data: ['', 'null', '7', '{}', '[]', '{"other":{}}', '"method"', '{"method":null}'][w.choose(8)] }); return }
    if (kind === 4) { w.note('nobody'); s.fire('message', { data: w.JSON.stringify({ error: { id: null, data: 'x' } }) }); return }
    const id = w.int(0, 9007199254740991), data = mode & 16 && w.choose(2) ? null : w.int(-1000, 1000);
    // whose it is
    let to = null;
    for (const x of ids) if (!to && w.is(id, x.id)) to = x.c;
    if (!to && mode & 32) { w.assume(false); return }
    // a server answers calls with results and streams with items
    if (to && kind !== 2 && (to.kind === 'method') !== (kind === 0)) { w.assume(false); return }
    seen.push({ id, before: !to });
    w.note(['method', 'stream', 'error'][kind]);
    if (to) w.cover(2 + kind); else w.cover(5);
    if (to && to.kind === 'method' && !to.want) to.want = kind === 0 ? { ok: true, data } : { ok: false };
    if (to && to.kind === 'stream' && kind === 1) for (const x of to.subs) if (x.on) x.want.push(data);
    s.fire('message', { data: w.JSON.stringify(kind === 0 ? { method: { id, data } } : kind === 1 ? { stream: { id, data } } : { error: { id, data: 'failed' } }) });
  };
  const judge = () => {
    for (const c of cs) {
      // an answer under the id of a request that was never sent is nobody's fault
      if (c.settled && !c.sent && !c.want && c.accepted && seen.some(x => x.before)) { w.assume(false); return }
      if (!c.accepted) { w.check(c.settled === 'rejected', 'a call with refused arguments is not rejected'); continue }
      if (c.want && c.want.ok) { w.check(c.settled === 'resolved', 'a call is not resolved by its response'); if (c.settled === 'resolved' && !c.judged) { c.judged = true; w.check(w.equal(c.value, c.want.data), 'a call is resolved with other data than its response has') } }
      else if (c.want) w.check(c.settled === 'rejected', 'a call that the server answers with an error is not rejected');
      else { w.check(c.settled !== 'resolved', 'a call is resolved without its response'); w.check(c.settled !== 'rejected' || c.lost, 'a call is rejected though nothing failed') }
    }
    for (const c of ss) for (const s of c.subs) {
      if (!c.sent && s.got.length > s.want.length && seen.some(x => x.before)) { w.assume(false); return }
      w.check(s.got.length === s.want.length, s.got.length < s.want.length ? 'a store does not pass an item' : 'a store passes something that is no item of its stream');
      for (; (s.judged || 0) < s.got.length && !w.over; s.judged = (s.judged || 0) + 1) w.check(w.equal(s.got[s.judged || 0], s.want[s.judged || 0]), 'a store passes another item than the stream has');
    }
    const last = b.sockets[b.sockets.length - 1];
    for (const c of [...cs, ...ss]) if (c.accepted && !c.sent && !c.lost && !c.gone) {
      w.check(!!last, 'no socket is opened for a request');
      if (!last) return;
      w.check(last.readyState !== 1, 'a request is not sent though the socket is open');
    }
    for (const c of ss) if (c.closed && !c.lost && last && last.readyState === 1 && c.sock === last) w.check(c.cancelled, 'a closed stream is not cancelled');
  };
  for (let i = 0; i < steps && !w.over; i++) {
    // a stream nobody listens to need not be started
    for (const c of ss) if (!c.sent && !c.subs.some(s => s.on)) c.lost = true;
    const a = acts();
    if (!a.length) break;
    a[w.choose(a.length)]();
    await w.drain(); await w.drain();
    judge();
  }
  if (opened > 1) w.cover(6);
}
module.exports = { globals, session };
