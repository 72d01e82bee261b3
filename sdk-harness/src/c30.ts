import fc from 'fast-check';
import { arbNet, arbFault, Fault, arbV, Prop, Out, NexoClient, quiet, short, bump } from './common';
import { Broker, Net, tick } from './broker';
import { world } from './fakenet';
import { fresh, run, settle, problems, clock, later } from './sim';
import { OP, OK, ERR, NULL, DATA, u8, u32, str, cat, frame, payload, V } from './proto';

type Call = { gap: number; k: string; a: string; d: number };
type Case = { net: Net; refuse: boolean; id: number; calls: Call[]; faults: Fault[]; disc: number | null; noise: { at: number; v: V; sub: boolean }[] };
const kinds = ['get', 'get', 'set', 'del', 'pub', 'qcreate', 'qpush', 'qexists', 'qdelete', 'peek', 'move', 'purge', 'screate', 'spub', 'seek', 'sexists', 'sdelete', 'bad'];
const LIMIT = 15000, SWEEP = 2000, BACK = 6000;
const call: fc.Arbitrary<Call> = fc.record({
  gap: fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 0, max: 5 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 400 }) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 4000 }) }),
  k: fc.constantFrom(...kinds),
  a: fc.oneof({ weight: 7, arbitrary: fc.constant('ok') }, { weight: 1, arbitrary: fc.constant('err') }, { weight: 1, arbitrary: fc.constant('never') }),
  d: fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 0, max: 40 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 3000 }) }, { weight: 1, arbitrary: fc.constantFrom(14000, 14900, 14990, 15500, 16000, 18000, 30000) }),
});

async function runCase(c: Case): Promise<Out> {
  fresh();
  const l: Record<string, number> = {};
  const b = new Broker(c.net);
  const counts: number[] = [], arrived: { t: number; tick: number; conn: number }[] = [];
  b.hook = (q, cn) => {
    const nm = String(q.key ?? q.name), m = /^n(\d+)$/.exec(nm);
    if (!m) { problems.push(`the client sent a request for ${short(nm)}, which nobody asked for`); return true; }
    const i = Number(m[1]), s = c.calls[i]; counts[i] = (counts[i] ?? 0) + 1;
    if (s.a === 'never') return true;
    let st = OK, d = Buffer.alloc(0);
    if (s.a === 'err') { st = ERR; d = str(`refused ${i}`); }
    else if (q.op === OP.GET) { st = DATA; d = payload({ t: 'text', s: `value ${i}` }); }
    else if (q.op === OP.QPEEK) { st = DATA; d = cat(u32(i + 7), u32(0)); }
    else if (q.op === OP.QMOVE) { st = DATA; d = u8(i % 2); }
    else if (q.op === OP.QPURGE) { st = DATA; d = u32(i + 7); }
    b.reply(cn, q.id, st, d, () => { arrived[i] = { t: clock.now, tick: tick(), conn: cn.n }; }, s.d);
    return true;
  };
  const done = (fail?: string): Out => ({ fail, nontrivial: c.refuse || c.calls.length >= 3, labels: l });
  if (c.refuse) {
    b.accepting = false;
    let st = 0; const p = NexoClient.connect(quiet); p.then(() => { st = 1; }, () => { st = 2; });
    await run(500);
    if (problems.length) return done(problems[0]);
    if (st !== 2) return done(`connecting to a server that refuses ${st ? 'succeeded' : 'did not end'}`);
    b.accepting = true;
    await run(30000);
    bump(l, 'first connection refused');
    if (b.conns.length) return done('after connect() was rejected the client connected in the background, with nobody holding it');
    if (clock.alive()) return done('after connect() was rejected timers keep the process alive for ever');
    return done(problems[0]);
  }
  let client: any; NexoClient.connect(quiet).then((x: any) => { client = x; }, () => {});
  await run(100);
  if (!client) return done('connecting to a server that accepts did not succeed within 100 ms');
  const conn = client.conn;
  if (c.id && conn && typeof conn.nextId === 'number') { conn.nextId = c.id; bump(l, 'ids near their end'); }
  // the program
  const calls: { i: number; t: number; tick: number; end?: { t: number; tick: number; ok: boolean; v: any } }[] = [];
  let at = clock.now, discTick = Infinity, discT = Infinity, sockets = 0;
  const make = (i: number): Promise<any> => {
    const n = 'n' + i;
    switch (c.calls[i].k) {
      case 'get': return client.store.map.get(n);
      case 'set': return client.store.map.set(n, i);
      case 'del': return client.store.map.del(n);
      case 'pub': return client.pubsub(n).publish({ i });
      case 'qcreate': return client.queue(n).create();
      case 'qpush': return client.queue(n).push('x');
      case 'qexists': return client.queue(n).exists();
      case 'qdelete': return client.queue(n).delete();
      case 'peek': return client.queue(n).dlq.peek();
      case 'move': return client.queue(n).dlq.moveToQueue('00112233445566778899aabbccddeeff');
      case 'purge': return client.queue(n).dlq.purge();
      case 'screate': return client.stream(n).create();
      case 'spub': return client.stream(n).publish([i]);
      case 'seek': return client.stream(n).seek('g', 'end');
      case 'sexists': return client.stream(n).exists();
      case 'sdelete': return client.stream(n).delete();
      default: return client.store.map.set(n, 10n as any);
    }
  };
  c.calls.forEach((s, i) => {
    at += s.gap;
    later(at - clock.now, () => {
      const r: any = { i, t: clock.now, tick: tick() }; calls.push(r);
      let p: Promise<any>;
      try { p = make(i); } catch (e) { r.end = { t: clock.now, tick: tick(), ok: false, v: e, sync: true }; return; }
      p.then(v => { r.end = { t: clock.now, tick: tick(), ok: true, v }; }, v => { r.end = { t: clock.now, tick: tick(), ok: false, v }; });
    });
  });
  const downs: { from: number; to: number }[] = [];
  for (const f of c.faults) later(f.at, () => {
    if (clock.now >= discT) return;
    const before = b.live; b.drop(f.kind); if (before) bump(l, 'connections lost');
    if (f.down > 0) { b.accepting = false; const d = { from: clock.now, to: clock.now + f.down }; downs.push(d); later(f.down, () => { b.accepting = downs.every(x => x.to <= clock.now); }); }
  });
  for (const n of c.noise) later(n.at, () => { if (b.live) { b.emit(b.live, n.sub ? frame(2, DATA, 0xfffffff0, payload(n.v)) : frame(3, 0, 0, cat(str('nobody/' + n.at), payload(n.v)))); bump(l, 'frames nobody asked for'); } });
  if (c.disc !== null) later(c.disc, () => { discTick = tick(); discT = clock.now; sockets = world.all.length; client.disconnect(); bump(l, 'disconnects'); });
  const span = Math.max(at - clock.now, c.disc ?? 0, ...c.faults.map(f => f.at + f.down), 0) + 35000;
  // connectivity watched once a second
  let lonely = 0, opened = 0;
  for (let t = 0; t < span; t += 500) {
    await run(Math.min(500, span - t));
    if (problems.length) return done(problems[0]);
    if (clock.now < discT && b.accepting && !b.live && b.conns.length === opened) { lonely += 500; if (lonely >= BACK) return done(`the server accepts connections again, but after ${BACK} ms the client has none`); } else lonely = 0;
    opened = b.conns.length;
  }
  if (b.most > 1) return done(`the client held ${b.most} connections at once`);
  for (const r of calls.sort((x, y) => x.i - y.i)) {
    const s = c.calls[r.i], what = `call ${r.i} (${s.k}, made at ${r.t} ms)`, e = r.end, n = counts[r.i] ?? 0;
    const cn = r.tick > discTick ? undefined : b.conns.find(x => x.upTick < r.tick && r.tick < x.downTick);
    if (!e) return done(`${what} never ended`);
    if ((e as any).sync) return done(`${what} threw instead of returning a rejected promise: ${e.v}`);
    const ex = s.k === 'qexists' || s.k === 'sexists', failed = ex ? !(e.ok && e.v === true) : !e.ok;
    if (s.k === 'bad') { if (e.ok) return done(`${what}: a value that cannot be written down was accepted`); if (n) return done(`${what}: a request was sent for a value that cannot be written down`); bump(l, 'unwritable values'); continue; }
    if (n > (cn ? 1 : 0)) return done(`${what}: its request reached the server ${n} times${cn ? '' : ' though there was no connection'}`);
    if (!cn) { if (!failed) return done(`${what} was made without a connection and yet succeeded`); if (e.t - r.t > 100) return done(`${what} was made without a connection and failed only after ${e.t - r.t} ms`); bump(l, 'calls without a connection'); continue; }
    if (n !== 1) return done(`${what}: its request never reached the server`);
    const a = arrived[r.i] && arrived[r.i].conn === cn.n && arrived[r.i].tick < discTick ? arrived[r.i] : undefined;
    const lostAt = Math.min(cn.downAt, discT);
    const rightly = (): string | null => {
      if (s.a === 'err') return ex ? (failed ? null : 'is true though the server said no') : e.ok ? 'succeeded though the server refused it' : String(e.v?.message ?? e.v).includes(`refused ${r.i}`) ? null : `failed with ${short(String(e.v?.message ?? e.v))}, not with the server's reason`;
      if (!e.ok) return `failed (${e.v}) though the server answered`;
      const want: any = s.k === 'get' ? `value ${r.i}` : s.k === 'purge' ? r.i + 7 : s.k === 'move' ? r.i % 2 === 1 : ex ? true : undefined;
      if (s.k === 'peek') return e.v?.total === r.i + 7 ? null : `got another answer: ${short(e.v)}`;
      return want === undefined || e.v === want ? null : `got ${short(e.v)}, not ${short(want)}`;
    };
    const late = a && a.t > r.t + LIMIT;
    if (a && !late) {
      if (e.t !== a.t) return done(`${what} was answered at ${a.t} ms but ended at ${e.t} ms (${e.ok ? 'ok' : e.v})`);
      const m = rightly(); if (m) return done(`${what} ${m}`);
      bump(l, s.a === 'err' ? 'refused' : 'answered'); continue;
    }
    // no answer in time
    const due = Math.min(lostAt, r.t + LIMIT + SWEEP);
    if (a && e.t >= a.t && !failed) { const m = rightly(); if (m) return done(`${what} ${m}`); if (e.t > a.t) return done(`${what} was answered at ${a.t} ms but ended at ${e.t} ms`); bump(l, 'answered late'); continue; }
    if (!failed) return done(`${what} succeeded without an answer`);
    if (e.t > due) return done(`${what} had no answer${lostAt < Infinity ? `, its connection ended at ${lostAt} ms` : ''}, and ended only at ${e.t} ms`);
    if (e.t < Math.min(lostAt, r.t + LIMIT)) return done(`${what} failed at ${e.t} ms (${e.v}), before its time limit and with its connection alive`);
    bump(l, lostAt <= r.t + LIMIT ? 'failed with the connection' : 'timed out');
  }
  if (discT < Infinity) {
    if (b.live) return done('after disconnect() there is a connection');
    if (world.all.length > sockets) return done('after disconnect() the client opened a connection');
    if (clock.alive()) return done('after disconnect() timers keep the process alive');
  } else {
    // still usable
    b.hook = () => false;
    let v: any; client.store.map.set('last', 5).then(() => client.store.map.get('last')).then((x: any) => { v = x; }, (e: any) => { v = e; });
    await run(2000);
    if (v !== 5) return done(`at the end, connected, a set and a get gave ${short(v instanceof Error ? String(v) : v)}`);
    client.disconnect(); await settle(); await run(60000);
    if (clock.alive()) return done('after disconnect() timers keep the process alive');
    if (b.live) return done('after disconnect() there is a connection');
  }
  return done(problems[0]);
}
const at = fc.oneof(fc.integer({ min: 0, max: 60 }), fc.integer({ min: 0, max: 6000 }), fc.integer({ min: 0, max: 25000 }));
export const c30: Prop = {
  id: 'C30', quick: 60000, thorough: 2000000,
  rule: 'a case is up to 25 calls made at generated moments, each answered after a generated time, refused or never answered, over a connection cut into pieces, lost and refused at generated moments, with disconnect() at a generated moment; non-trivial: at least 3 calls, or a refused first connection',
  note: 'virtual time; a call must end at the instant its own answer is complete, at the loss of its connection, or within the sweep after its time limit',
  arb: fc.record({
    net: arbNet(0), refuse: fc.integer({ min: 0, max: 29 }).map(x => x === 7), id: fc.oneof({ weight: 5, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: fc.constantFrom(2147483645, 2147483647, 4294967293, 4294967295) }),
    calls: fc.array(call, { minLength: 1, maxLength: 25 }),
    faults: fc.oneof({ weight: 1, arbitrary: fc.constant([] as Fault[]) }, { weight: 2, arbitrary: fc.array(fc.record({ at, kind: fc.constantFrom('reset', 'close'), down: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 8000 })) }), { maxLength: 4 }) }),
    disc: fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: at }),
    noise: fc.array(fc.record({ at, v: arbV, sub: fc.boolean() }), { maxLength: 3 }),
  }),
  run: runCase,
};
