import fc from 'fast-check';
import { arbNet, arbV, arbBad, Prop, Out, NexoClient, quiet, short, bump, Fault } from './common';
import { Broker, Net, tick, Batch, Conn } from './broker';
import { fresh, run, settle, problems, clock, later } from './sim';
import { OP, V, seen, same, payload, value } from './proto';

/** What the program does with a message on its n-th delivery. */
export type Act = { how: string; ms: number };
export type Step = { gap: number; k: string; n: number; v: V; acts: Act[]; prio: number };
type Case = { net: Net; opts: { batchSize?: number; waitMs?: number; concurrency?: number }; vis: number; max: number; steps: Step[]; faults: Fault[]; end: string; pre: number };
export const arbAct: fc.Arbitrary<Act> = fc.record({ how: fc.oneof({ weight: 6, arbitrary: fc.constant('ok') }, { weight: 1, arbitrary: fc.constantFrom('throw', 'reject', 'rejectText', 'rejectNone', 'sync') }), ms: fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 0, max: 20 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 800 }) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 3500 }) }) });

/** A payload of its own for every message, so that a callback can be told which one it got. */
export function unique(i: number, v: V): V {
  switch (v.t) {
    case 'json': return { t: 'json', j: JSON.stringify({ i, v: JSON.parse(v.j) }) };
    case 'text': return { t: 'text', s: `${i}:${v.s}` };
    case 'raw': return { t: 'raw', h: i.toString(16).padStart(8, '0') + v.h };
    case 'undef': return { t: 'json', j: String(i) };
    default: return v;
  }
}
type Del = { b: Batch; k: number; id: string; msg: number; calls: number; start: number; end: number; startAt: number; endAt: number; act?: Act; outcome?: string; acks: any[]; nacks: any[] };
export function act(a: Act, label: string): any {
  const fail = () => { throw a.how === 'rejectText' ? `text ${label}` : a.how === 'rejectNone' ? undefined : new Error(`boom ${label}`); };
  if (a.how === 'sync') return 1;
  if (a.how === 'throw') fail();
  return new Promise<void>((ok, no) => { later(a.ms, () => { if (a.how === 'ok') ok(); else { try { fail(); } catch (e) { no(e); } } }); });
}
export const why = (a: Act, label: string) => a.how === 'rejectText' ? `text ${label}` : a.how === 'rejectNone' ? 'undefined' : `boom ${label}`;
export const good = (a: Act) => a.how === 'ok' || a.how === 'sync';

async function runCase(c: Case): Promise<Out> {
  fresh();
  const l: Record<string, number> = {};
  const done = (fail?: string): Out => ({ fail, nontrivial: (l['callbacks'] ?? 0) >= 2, labels: l });
  const b = new Broker(c.net), Q = 'jobs';
  b.mkq(Q, c.vis, c.max);
  const conc = c.opts.concurrency ?? 5, wait = c.opts.waitMs ?? 20000;
  let client: any; NexoClient.connect(quiet).then((x: any) => { client = x; }, () => {});
  await run(100);
  if (!client) return done('connecting to a server that accepts did not succeed within 100 ms');
  const msgs: { v: V; bad: boolean; acts: Act[]; calls: number; id: string }[] = [];
  const byKey = new Map<string, number>(), byId = new Map<string, number>();
  const push = (s: Step) => {
    if (!b.queues.has(Q)) return;
    const i = msgs.length, bad = s.v.t === 'bad', v = bad ? s.v : unique(i, s.v);
    if (bad) bump(l, 'messages nobody can read');
    byKey.set(payload(v).toString('hex'), i);
    msgs.push({ v, bad, acts: s.acts, calls: 0, id: '' });
    const id = b.push(Q, payload(v), s.prio); msgs[i].id = id; byId.set(id, i);
  };
  type Run = { n: number; started: number; stopCalled: number; stopCalledAt: number; stopped: number; stoppedAt: number; stop?: () => any };
  const runs: Run[] = [];
  let running = 0, wrong: string | null = null, discTick = Infinity, discAt = Infinity, maxRun = 0;
  const calls: { msg: number; run: Run; start: number; startAt: number; end: number; endAt: number; a: Act; label: string; running: number }[] = [];
  const callback = (r: Run) => (data: any): any => {
    let i = -1; for (let j = 0; j < msgs.length; j++) if (!msgs[j].bad && same(data, seen(msgs[j].v))) { i = j; break; }
    if (i < 0) { wrong ??= `the callback got ${short(data)}, which nobody pushed`; return; }
    const n = msgs[i].calls++, a = msgs[i].acts[n] ?? { how: 'ok', ms: 0 }, label = `${i}.${n}`;
    const k = { msg: i, run: r, start: tick(), startAt: clock.now, end: Infinity, endAt: Infinity, a, label, running: ++running };
    calls.push(k); maxRun = Math.max(maxRun, running); bump(l, 'callbacks');
    if (r.stopped < Infinity) wrong ??= `a callback began after stop() had ended (message ${i})`;
    if (discTick < Infinity && discAt < clock.now) wrong ??= `a callback began ${clock.now - discAt} ms after disconnect()`;
    const fin = () => { k.end = tick(); k.endAt = clock.now; running--; };
    let x: any; try { x = act(a, label); } catch (e) { fin(); throw e; }
    if (a.how === 'sync') { fin(); return x; }
    return x.then((y: any) => { fin(); return y; }, (e: any) => { fin(); throw e; });
  };
  let subPending = 0;
  const active = () => runs.find(r => r.stopped === Infinity);
  const subscribe = () => {
    const r: Run = { n: runs.length, started: Infinity, stopCalled: Infinity, stopCalledAt: Infinity, stopped: Infinity, stoppedAt: Infinity };
    const taken = !!active(), rival = subPending > 0, missing = !b.queues.has(Q);
    subPending++;
    const t = clock.now;
    client.queue(Q).subscribe(callback(r), c.opts).then((h: any) => {
      subPending--;
      r.started = tick(); r.stop = h.stop;
      if (taken || active()) wrong ??= `subscribing a second time was accepted${rival ? ' (both calls at once)' : ''}`;
      else bump(l, 'subscribed');
      runs.push(r);
    }, (e: any) => { subPending--; bump(l, taken || rival ? 'second subscriptions' : 'subscriptions that failed'); if (!taken && !rival && !missing && b.conns.some(x => x.upAt < t && x.downAt > clock.now) && b.queues.has(Q) && clock.now < discAt) wrong ??= `subscribing failed: ${e}`; });
  };
  const stop = (r: Run) => {
    if (!r.stop || r.stopCalled < Infinity) return;
    r.stopCalled = tick(); r.stopCalledAt = clock.now; bump(l, 'stops');
    Promise.resolve(r.stop()).then(() => { r.stopped = tick(); r.stoppedAt = clock.now; }, (e: any) => { wrong ??= `stop() failed: ${e}`; });
  };
  for (let i = 0; i < c.pre; i++) push({ gap: 0, k: 'push', n: 0, v: { t: 'undef' }, acts: [], prio: 0 });
  const total = c.steps.reduce((a, s) => a + s.gap, 0);
  const downs: { to: number }[] = [];
  for (const f of c.faults) later(Math.min(f.at, total + 500), () => {
    if (clock.now >= discAt) return;
    if (b.live) bump(l, 'connections lost');
    b.drop(f.kind);
    if (f.down > 0) { b.accepting = false; const d = { to: clock.now + f.down }; downs.push(d); later(f.down, () => { b.accepting = downs.every(x => x.to <= clock.now); }); }
  });
  let gone = 0;
  for (const s of [{ gap: 0, k: 'sub' } as Step, ...c.steps]) {
    await run(s.gap);
    if (problems.length) return done(problems[0]);
    switch (s.k) {
      case 'push': for (let i = 0; i < s.n; i++) push({ ...s, v: i ? { t: 'undef' } : s.v, acts: i ? [] : s.acts }); break;
      case 'sub': subscribe(); break;
      case 'twice': subscribe(); subscribe(); break;
      case 'stop': { const r = active(); if (r) stop(r); break; }
      case 'restart': { const r = active(); if (r) { stop(r); for (let i = 0; i < 80 && r.stopped === Infinity; i++) await run(500); if (problems.length) return done(problems[0]); if (r.stopped === Infinity) break; subscribe(); } break; }
      case 'gone': { const q = b.queues.get(Q); if (q && !gone) { gone++; for (const w of q.waiters) { clock.clear(w.timer); b.reply(w.conn, w.id, 3, Buffer.alloc(4)); } q.waiters = []; b.queues.delete(Q); later(s.n * 500, () => { if (!b.queues.has(Q)) b.queues.set(Q, q); }); bump(l, 'queue gone for a while'); } break; }
    }
  }
  if (c.end === 'disconnect') {
    await run(c.pre % 3 * 40);
    const up = running;
    discTick = tick(); discAt = clock.now; client.disconnect(); bump(l, 'disconnects'); if (up) bump(l, 'disconnects amid callbacks');
    for (const r of runs) if (c.pre % 2) stop(r);
    await run(60000);
    for (const r of runs) if (r.stopCalled < Infinity && r.stopped === Infinity) return done('after disconnect() stop() never ended');
    if (problems.length) return done(problems[0]);
    if (b.live) return done('after disconnect() there is a connection');
    if (clock.alive()) return done('60 s after disconnect() timers of the consumer keep the process alive');
  } else {
    // heal: everything pushed must be dealt with
    for (const r of runs) if (r.stopCalled < Infinity) for (let i = 0; i < 80 && r.stopped === Infinity; i++) await run(500);
    await run(20000);
    if (problems.length) return done(problems[0]);
    if (!b.live) return done('20 s after the last disturbance the client has no connection');
    if (!active() && !subPending) { subscribe(); await run(1000); if (!active() && !wrong) return done('at rest the queue cannot be subscribed to'); }
    const q = b.queues.get(Q)!;
    for (let i = 0; i < 60 && (q.ready.length || q.inflight.size); i++) { await run(2500); if (problems.length) return done(problems[0]); }
    if (!wrong && (q.ready.length || q.inflight.size)) return done(`150 s after the last disturbance a subscribed consumer has left ${q.ready.length} messages waiting and ${q.inflight.size} unanswered`);
    const r = active()!;
    if (r && !wrong) {
      stop(r);
      for (let i = 0; i < 80 && r.stopped === Infinity; i++) await run(500);
      if (r.stopped === Infinity) return done('stop() never ended');
      const n = calls.length; push({ gap: 0, k: 'push', n: 1, v: { t: 'undef' }, acts: [], prio: 0 });
      await run(5000);
      if (calls.length !== n) return done('a message pushed after stop() had ended was handed to the callback');
    }
    client.disconnect(); await run(30000);
    if (clock.alive()) return done('30 s after disconnect() timers of the consumer keep the process alive');
  }
  await settle();
  if (problems.length) return done(problems[0]);
  if (wrong) return done(wrong);
  if (maxRun > Math.max(1, conc)) return done(`${maxRun} callbacks ran at once with concurrency ${conc}`);
  for (const r of runs) if (r.stopCalled < Infinity && r.stopped < Infinity) {
    const busy = calls.filter(k => k.run === r && k.start < r.stopCalled && k.end > r.stopCalled).reduce((m, k) => Math.max(m, k.endAt - r.stopCalledAt), 0);
    if (r.stoppedAt - r.stopCalledAt > Math.max(busy, wait + 8000) + 3000) return done(`stop() took ${r.stoppedAt - r.stopCalledAt} ms (waitMs ${wait}, longest callback ${busy} ms)`);
    const late = calls.find(k => k.run === r && k.end > r.stopped);
    if (late) return done(`stop() ended while the callback for message ${late.msg} was still running`);
  }
  // every delivery, in order, against the callbacks, acks and nacks
  const dels: Del[] = [];
  for (const x of b.batches.filter(x => x.arrived).sort((p, q) => p.arrived - q.arrived)) x.items.forEach((it, k) => dels.push({ b: x, k, id: it.id, msg: byId.get(it.id)!, calls: 0, start: Infinity, end: Infinity, startAt: 0, endAt: Infinity, acks: [], nacks: [] }));
  for (const k of calls) {
    const ds = dels.filter(d => d.msg === k.msg && d.b.arrived < k.start);
    // one consumer asks again only after its batch: the latest delivery is the one being handed over
    const d = ds[ds.length - 1];
    if (!d || d.calls) return done(`message ${k.msg} was handed to the callback more often than it was delivered (${ds.length} times)`);
    d.calls = 1; d.start = k.start; d.end = k.end; d.startAt = k.startAt; d.endAt = k.endAt; d.act = k.a; d.outcome = k.label;
  }
  const up = (cn: Conn, t: number) => cn.upTick < t && t < cn.downTick && t < discTick;
  for (const q of b.reqs) if (q.op === OP.QACK || q.op === OP.QNACK) {
    if (q.name !== Q) return done(`an answer for a message of "${Q}" names "${q.name}"`);
    if (!byId.has(q.uuid!)) return done(`the client answered a message nobody delivered: ${q.uuid}`);
    const ds = dels.filter(d => d.id === q.uuid && d.b.arrived < q.tick).reverse();
    if (!ds.length) return done(`message ${byId.get(q.uuid!)} was answered before it was delivered`);
    const ack = q.op === OP.QACK;
    let d: Del | undefined;
    if (ack) { d = ds.find(d => !d.acks.length && !d.nacks.length && d.end < q.tick && d.act && good(d.act)); if (!d) return done(`message ${ds[0].msg} was acknowledged though no callback had succeeded for it`); d.acks.push(q); bump(l, 'acknowledged'); }
    else {
      d = ds.find(d => !d.acks.length && !d.nacks.length && d.end < q.tick && d.act && !good(d.act) && q.reason === why(d.act, d.outcome!)) ?? ds.find(d => !d.acks.length && !d.nacks.length && !d.calls);
      if (!d) return done(`message ${ds[0].msg} was refused with "${q.reason}", which no callback said`);
      d.nacks.push(q); bump(l, d.act ? 'refused by the callback' : 'handed back');
    }
  }
  for (const d of dels) {
    const m = msgs[d.msg], cn = d.b.conn, what = `message ${d.msg} (delivery ${d.b.items[d.k].attempt})`;
    const r = runs.find(r => r.started < d.b.made && d.b.made < r.stopped) ?? runs.find(r => d.b.arrived < r.stopped && r.started < d.b.arrived);
    if (d.act && d.end < Infinity) {
      const n = d.acks.length + d.nacks.length;
      if (up(cn, d.end) && n !== 1) return done(`${what}: the callback ${good(d.act) ? 'succeeded' : 'failed'} and the server was told ${n} times`);
      const a = d.acks[0] ?? d.nacks[0];
      if (a && a.at - d.endAt > 50 && up(cn, d.end)) return done(`${what}: the server heard of its end only ${a.at - d.endAt} ms later`);
    }
    if (!d.calls && cn.downTick === Infinity && discTick === Infinity) {
      // whole life on one connection
      if (m.bad) { if (d.nacks.length !== 1) return done(`${what} cannot be read and was not handed back`); bump(l, 'unreadable messages handed back'); continue; }
      if (!d.nacks.length) return done(`${what} reached the client and was neither handed to the callback nor handed back`);
      if (!(r && r.stopCalled < d.nacks[0].tick)) return done(`${what} was handed back (${short(d.nacks[0].reason)}) without a callback although the consumer was not stopped`);
    }
  }
  if (conc <= 1) {
    for (const x of b.batches) {
      const ds = dels.filter(d => d.b === x && d.calls);
      for (let i = 1; i < ds.length; i++) if (ds[i].start < ds[i - 1].end) { if (x.conn.downTick === Infinity) return done(`with concurrency 1, message ${ds[i].msg} began before message ${ds[i - 1].msg} of the same batch had ended`); }
    }
  }
  for (const q of b.reqs) if (q.op === OP.QCONSUME) { const w = { batchSize: c.opts.batchSize ?? 50, waitMs: wait }; if (!same(q.opts, w)) return done(`asked for messages with ${short(q.opts)}, not ${short(w)}`); }
  return done();
}
const step: fc.Arbitrary<Step> = fc.record({
  gap: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 10 }) }, { weight: 3, arbitrary: fc.integer({ min: 0, max: 400 }) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 4000 }) }),
  k: fc.oneof({ weight: 8, arbitrary: fc.constant('push') }, { weight: 1, arbitrary: fc.constantFrom('sub', 'twice', 'stop', 'stop', 'restart', 'gone') }),
  n: fc.integer({ min: 1, max: 4 }), v: fc.oneof({ weight: 12, arbitrary: arbV }, { weight: 1, arbitrary: arbBad }), acts: fc.array(arbAct, { minLength: 1, maxLength: 4 }), prio: fc.integer({ min: 0, max: 2 }),
});
const fat = fc.oneof(fc.integer({ min: 0, max: 200 }), fc.integer({ min: 0, max: 5000 }));
export const c32: Prop = {
  id: 'C32', quick: 40000, thorough: 1500000,
  rule: 'a case is a subscribed queue and up to 15 pushes, stops, restarts, second subscriptions and outages, callbacks that take time and fail as generated, connections lost at generated moments; non-trivial: at least 2 callbacks ran',
  note: 'virtual time; every delivery is followed from the server\'s answer through its callback to the acknowledgement or refusal the server receives',
  arb: fc.record({
    net: arbNet(100), opts: fc.record({ batchSize: fc.integer({ min: 1, max: 6 }), waitMs: fc.constantFrom(0, 50, 1000, 20000).map(x => x || 100), concurrency: fc.integer({ min: 1, max: 4 }) }, { requiredKeys: [] }),
    vis: fc.constantFrom(6000, 10000, 30000), max: fc.integer({ min: 1, max: 4 }), steps: fc.array(step, { minLength: 1, maxLength: 15 }),
    faults: fc.oneof(fc.constant([] as Fault[]), fc.array(fc.record({ at: fat, kind: fc.constantFrom('reset', 'close'), down: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 5000 })) }), { maxLength: 3 })),
    end: fc.constantFrom('heal', 'heal', 'disconnect'), pre: fc.integer({ min: 0, max: 5 }),
  }),
  run: runCase,
};
