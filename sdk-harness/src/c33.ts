import fc from 'fast-check';
import { arbNet, arbV, arbBad, Prop, Out, NexoClient, quiet, short, bump, Fault } from './common';
import { Broker, Net, tick, Batch, Conn } from './broker';
import { fresh, run, settle, problems, clock, later } from './sim';
import { OP, V, seen, same, payload } from './proto';
import { Act, arbAct, act, good, unique } from './c32';

type Step = { gap: number; k: string; g: number; n: number; v: V; acts: Act[]; acts2: Act[] };
type Case = { net: Net; opts: { batchSize?: number; waitMs?: number; concurrency?: number }[]; ackWait: number; max: number; steps: Step[]; faults: Fault[]; end: string; pre: number };
type Del = { b: Batch; k: number; msg: number; calls: number; start: number; end: number; endAt: number; act?: Act; acks: any[] };

async function runCase(c: Case): Promise<Out> {
  fresh();
  const l: Record<string, number> = {};
  const done = (fail?: string): Out => ({ fail, nontrivial: (l['callbacks'] ?? 0) >= 2, labels: l });
  const b = new Broker(c.net), S = 'events';
  b.mks(S, c.ackWait, c.max); b.append(S, payload({ t: 'json', j: '"first"' }));
  let client: any; NexoClient.connect(quiet).then((x: any) => { client = x; }, () => {});
  await run(100);
  if (!client) return done('connecting to a server that accepts did not succeed within 100 ms');
  const msgs: { v: V; bad: boolean; acts: Act[][]; calls: number[] }[] = [{ v: { t: 'json', j: '"first"' }, bad: false, acts: [[], []], calls: [0, 0] }];
  const push = (s: Step, first: boolean) => {
    if (!b.streams.has(S)) return;
    const raw = first ? s.v : ({ t: 'undef' } as V), bad = raw.t === 'bad', v = bad ? raw : unique(msgs.length, raw);
    if (bad) bump(l, 'messages nobody can read');
    msgs.push({ v, bad, acts: first ? [s.acts, s.acts2] : [[], []], calls: [0, 0] });
    b.append(S, payload(v));
  };
  type Run = { g: number; called: number; started: number; stopCalled: number; stopCalledAt: number; stopped: number; stoppedAt: number; stop?: () => any };
  const runs: Run[] = [], pending = [0, 0], running = [0, 0], maxRun = [0, 0];
  let wrong: string | null = null, discTick = Infinity, discAt = Infinity;
  const calls: { msg: number; run: Run; start: number; end: number; endAt: number; a: Act }[] = [];
  const callback = (r: Run) => (data: any): any => {
    let i = -1; for (let j = 0; j < msgs.length; j++) if (!msgs[j].bad && same(data, seen(msgs[j].v))) { i = j; break; }
    if (i < 0) { wrong ??= `the callback got ${short(data)}, which nobody published`; return; }
    const n = msgs[i].calls[r.g]++, a = msgs[i].acts[r.g][n] ?? { how: 'ok', ms: 0 };
    const k = { msg: i, run: r, start: tick(), end: Infinity, endAt: Infinity, a };
    calls.push(k); running[r.g]++; maxRun[r.g] = Math.max(maxRun[r.g], running[r.g]); bump(l, 'callbacks'); if (n) bump(l, 'callbacks for a message seen before');
    if (r.stopped < Infinity) wrong ??= `a callback began after stop() had ended (message ${i})`;
    if (discAt < clock.now) wrong ??= `a callback began ${clock.now - discAt} ms after disconnect()`;
    const fin = () => { k.end = tick(); k.endAt = clock.now; running[r.g]--; };
    let x: any; try { x = act(a, String(i)); } catch (e) { fin(); throw e; }
    if (a.how === 'sync') { fin(); return x; }
    return x.then((y: any) => { fin(); return y; }, (e: any) => { fin(); throw e; });
  };
  const opt = (g: number) => c.opts[g] ?? {};
  const active = (g: number) => runs.find(r => r.g === g && r.stopped === Infinity);
  const subscribe = (g: number) => {
    // one consumer per group at a time: sharing a group is between the server and its members
    if (active(g) || pending[g]) return;
    const r: Run = { g, called: tick(), started: Infinity, stopCalled: Infinity, stopCalledAt: Infinity, stopped: Infinity, stoppedAt: Infinity };
    const t = clock.now, missing = !b.streams.has(S);
    pending[g]++;
    client.stream(S).subscribe('g' + g, callback(r), opt(g)).then((h: any) => { pending[g]--; r.started = tick(); r.stop = h.stop; bump(l, 'subscribed'); runs.push(r); if (missing && !b.streams.has(S)) wrong ??= 'subscribing to a stream that is not there was accepted'; },
      (e: any) => { pending[g]--; bump(l, 'subscriptions that failed'); if (!missing && b.streams.has(S) && b.conns.some(x => x.upAt < t && x.downAt > clock.now) && clock.now < discAt) wrong ??= `subscribing failed: ${e}`; });
  };
  const members = (g: number) => { const s = b.streams.get(S), gr = s?.groups.get('g' + g); return gr ? [...gr.members.values()].filter(m => m.up).length : 0; };
  const stop = (r: Run) => {
    if (!r.stop || r.stopCalled < Infinity) return;
    r.stopCalled = tick(); r.stopCalledAt = clock.now; bump(l, 'stops');
    Promise.resolve(r.stop()).then(() => {
      r.stopped = tick(); r.stoppedAt = clock.now;
      if (members(r.g)) wrong ??= `after stop() had ended the server still counts the consumer as a member of its group`;
    }, (e: any) => { wrong ??= `stop() failed: ${e}`; });
  };
  for (let i = 0; i < c.pre; i++) push({} as any, false);
  const total = c.steps.reduce((a, s) => a + s.gap, 0);
  const downs: { to: number }[] = [];
  for (const f of c.faults) later(Math.min(f.at, total + 500), () => {
    if (clock.now >= discAt) return;
    if (b.live) bump(l, 'connections lost');
    b.drop(f.kind);
    if (f.down > 0) { b.accepting = false; const d = { to: clock.now + f.down }; downs.push(d); later(f.down, () => { b.accepting = downs.every(x => x.to <= clock.now); }); }
  });
  let gone = 0; const both = [0, 1].slice(0, Math.max(1, c.opts.length)), rewinds = [0, 0];
  const waitStop = async (r: Run) => { for (let i = 0; i < 80 && r.stopped === Infinity && !problems.length; i++) await run(500); };
  for (const s of [...both.map(g => ({ gap: 0, k: 'sub', g } as Step)), ...c.steps]) {
    await run(s.gap);
    if (problems.length) return done(problems[0]);
    const g = both[s.g % both.length];
    switch (s.k) {
      case 'push': for (let i = 0; i < s.n; i++) push(s, i === 0); break;
      case 'sub': subscribe(g); break;
      case 'stop': { const r = active(g); if (r) stop(r); break; }
      case 'quick': { subscribe(g); await run(s.n); const r = active(g); if (r) stop(r); break; }
      case 'restart': { const r = active(g); if (r) { stop(r); await waitStop(r); if (r.stopped === Infinity) break; subscribe(g); } break; }
      case 'fence': { const st = b.streams.get(S); if (st) { b.fence(st, b.group(st, 'g' + g)); bump(l, 'fenced'); } break; }
      case 'fencestop': { const st = b.streams.get(S); if (st) { b.fence(st, b.group(st, 'g' + g)); bump(l, 'fenced'); await run(s.n - 1); const r = active(g); if (r) { stop(r); bump(l, 'stops while rejoining'); } } break; }
      case 'seek': if (rewinds[g]++ < 2) { client.stream(S).seek('g' + g, s.n % 2 ? 'beginning' : 'end').catch(() => {}); bump(l, 'seeks'); } break;
      case 'gone': { const st = b.streams.get(S); if (st && !gone) { gone++; for (const gr of st.groups.values()) { for (const w of gr.waiters) { clock.clear(w.timer); b.reply(w.conn, w.id, 3, Buffer.alloc(4)); } gr.waiters = []; b.fence(st, gr); } b.streams.delete(S); later(s.n * 500, () => { if (!b.streams.has(S)) b.streams.set(S, st); }); bump(l, 'stream gone for a while'); } break; }
    }
  }
  if (c.end === 'disconnect') {
    await run(c.pre % 3 * 40);
    const up = running[0] + running[1];
    discTick = tick(); discAt = clock.now; client.disconnect(); bump(l, 'disconnects'); if (up) bump(l, 'disconnects amid callbacks');
    for (const r of runs) if (c.pre % 2) stop(r);
    await run(60000);
    for (const r of runs) if (r.stopCalled < Infinity && r.stopped === Infinity) return done('after disconnect() stop() never ended');
    if (problems.length) return done(problems[0]);
    if (b.live) return done('after disconnect() there is a connection');
    if (clock.alive()) return done('60 s after disconnect() timers of the consumer keep the process alive');
  } else {
    for (const r of runs) if (r.stopCalled < Infinity) await waitStop(r);
    await run(20000);
    if (problems.length) return done(problems[0]);
    if (!b.live) return done('20 s after the last disturbance the client has no connection');
    for (const g of both) if (!active(g)) { subscribe(g); await run(1500); if (!active(g) && !wrong) return done('at rest the stream cannot be subscribed to'); }
    const st = b.streams.get(S)!;
    const left = () => both.map(g => { const x = b.group(st, 'g' + g); return st.log.length - x.next + x.again.length + x.pend.size; });
    for (let i = 0; i < 80 && left().some(n => n); i++) { await run(2500); if (problems.length) return done(problems[0]); }
    if (!wrong && left().some(n => n)) return done(`200 s after the last disturbance a subscribed consumer has left ${short(left())} messages of its groups unfinished`);
    if (!wrong) for (const g of both) if (members(g) !== 1) return done(`at rest the server counts ${members(g)} members for one consumer`);
    for (const g of both) {
      const r = active(g); if (!r || wrong) continue;
      stop(r); await waitStop(r);
      if (r.stopped === Infinity) return done('stop() never ended');
    }
    if (!wrong) {
      const n = calls.length; push({} as any, false); await run(5000);
      if (calls.length !== n) return done('a message published after stop() had ended was handed to the callback');
    }
    client.disconnect(); await run(30000);
    if (clock.alive()) return done('30 s after disconnect() timers of the consumer keep the process alive');
  }
  await settle();
  if (problems.length) return done(problems[0]);
  if (wrong) return done(wrong);
  for (const g of both) { const k = opt(g).concurrency ?? 1; if (maxRun[g] > k) return done(`${maxRun[g]} callbacks ran at once with concurrency ${k}`); }
  for (const r of runs) if (r.stopCalled < Infinity && r.stopped < Infinity) {
    const wait = opt(r.g).waitMs ?? 20000;
    const busy = calls.filter(k => k.run === r && k.start < r.stopCalled && k.end > r.stopCalled).reduce((m, k) => Math.max(m, k.endAt - r.stopCalledAt), 0);
    if (r.stoppedAt - r.stopCalledAt > Math.max(busy, wait + 8000) + 3000) return done(`stop() took ${r.stoppedAt - r.stopCalledAt} ms (waitMs ${wait}, longest callback ${busy} ms)`);
    const late = calls.find(k => k.run === r && k.end > r.stopped);
    if (late) return done(`stop() ended while the callback for message ${late.msg} was still running`);
  }
  const dels: Del[] = [];
  for (const x of b.batches.filter(x => x.arrived).sort((p, q) => p.arrived - q.arrived)) x.items.forEach((it, k) => dels.push({ b: x, k, msg: Number(it.id), calls: 0, start: Infinity, end: Infinity, endAt: Infinity, acks: [] }));
  for (const k of calls) {
    const ds = dels.filter(d => d.msg === k.msg && d.b.group === 'g' + k.run.g && d.b.arrived < k.start), d = ds[ds.length - 1];
    if (!d || d.calls) return done(`message ${k.msg} was handed to the callback more often than it was delivered (${ds.length} times)`);
    d.calls = 1; d.start = k.start; d.end = k.end; d.endAt = k.endAt; d.act = k.a;
  }
  const up = (cn: Conn, t: number) => cn.upTick < t && t < cn.downTick && t < discTick;
  for (const q of b.reqs) if (q.op === OP.SACK) {
    const d = dels.filter(d => d.msg === Number(q.seq) && d.b.group === q.group && d.b.who === q.consumer && d.b.gen === q.gen && d.end < q.tick && d.act && good(d.act) && !d.acks.length).pop();
    if (q.name !== S || !d) return done(`message ${q.seq} of group ${q.group} was acknowledged by ${q.consumer}/${q.gen} though no callback had succeeded for that delivery`);
    d.acks.push(q); bump(l, 'acknowledged');
  }
  for (const d of dels) {
    const m = msgs[d.msg], cn = d.b.conn, what = `message ${d.msg} of ${d.b.group} (delivery ${d.b.items[d.k].attempt})`;
    if (d.act && d.end < Infinity && good(d.act)) {
      if (up(cn, d.end) && d.acks.length !== 1) return done(`${what}: the callback succeeded and was not acknowledged`);
      if (d.acks[0] && up(cn, d.end) && d.acks[0].at - d.endAt > 50) return done(`${what}: acknowledged only ${d.acks[0].at - d.endAt} ms after its callback ended`);
    }
    if (!d.calls && !m.bad && cn.downTick === Infinity && discTick === Infinity) {
      const r = runs.find(r => 'g' + r.g === d.b.group && r.called < d.b.made && d.b.made < r.stopped);
      const next = Math.min(...dels.filter(x => x.b === d.b && x.calls && x.k > d.k).map(x => x.start), Infinity);
      if (!r || r.stopCalled === Infinity || next < Infinity) return done(`${what} reached the client and was never handed to the callback`);
    }
    if (m.bad && d.act) return done(`${what} cannot be read, yet the callback ran`);
  }
  for (const g of both) if ((opt(g).concurrency ?? 1) <= 1) for (const x of b.batches) {
    if (x.group !== 'g' + g) continue;
    const ds = dels.filter(d => d.b === x && d.calls);
    for (let i = 1; i < ds.length; i++) if (ds[i].start < ds[i - 1].end) return done(`with concurrency 1, message ${ds[i].msg} began before message ${ds[i - 1].msg} of the same batch had ended`);
  }
  for (const q of b.reqs) if (q.op === OP.SFETCH) { const o = opt(Number(q.group!.slice(1))); if (q.limit !== (o.batchSize ?? 100) || q.wait !== (o.waitMs ?? 20000)) return done(`asked for messages with limit ${q.limit} and wait ${q.wait}, not ${short(o)}`); }
  return done();
}
const acts = fc.array(arbAct, { minLength: 1, maxLength: 3 });
const step: fc.Arbitrary<Step> = fc.record({
  gap: fc.oneof({ weight: 3, arbitrary: fc.integer({ min: 0, max: 10 }) }, { weight: 3, arbitrary: fc.integer({ min: 0, max: 400 }) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 4000 }) }),
  k: fc.oneof({ weight: 7, arbitrary: fc.constant('push') }, { weight: 2, arbitrary: fc.constantFrom('sub', 'stop', 'quick', 'restart', 'gone', 'fence', 'fence', 'fencestop', 'seek') }),
  g: fc.integer({ min: 0, max: 1 }), n: fc.integer({ min: 1, max: 4 }), v: fc.oneof({ weight: 12, arbitrary: arbV }, { weight: 1, arbitrary: arbBad }), acts, acts2: acts,
});
const fat = fc.oneof(fc.integer({ min: 0, max: 200 }), fc.integer({ min: 0, max: 5000 }));
const opts = fc.record({ batchSize: fc.integer({ min: 1, max: 6 }), waitMs: fc.constantFrom(100, 1000, 20000), concurrency: fc.integer({ min: 1, max: 3 }) }, { requiredKeys: [] });
export const c33: Prop = {
  id: 'C33', quick: 40000, thorough: 1500000,
  rule: 'a case is a stream with one or two subscribed groups and up to 15 messages, stops, restarts, seeks, fencings and outages, callbacks that take time and fail as generated, connections lost at generated moments; non-trivial: at least 2 callbacks ran',
  note: 'virtual time; every delivery is followed from the server\'s answer through its callback to the acknowledgement the server receives',
  arb: fc.record({
    net: arbNet(100), opts: fc.array(opts, { minLength: 1, maxLength: 2 }), ackWait: fc.constantFrom(3000, 8000, 20000), max: fc.integer({ min: 2, max: 5 }), steps: fc.array(step, { minLength: 1, maxLength: 15 }),
    faults: fc.oneof(fc.constant([] as Fault[]), fc.array(fc.record({ at: fat, kind: fc.constantFrom('reset', 'close'), down: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 5000 })) }), { maxLength: 3 })),
    end: fc.constantFrom('heal', 'heal', 'disconnect'), pre: fc.integer({ min: 0, max: 5 }),
  }),
  run: runCase,
};
