import fc from 'fast-check';
import { arbNet, arbV, arbBad, Prop, Out, NexoClient, quiet, short, bump, Fault } from './common';
import { Broker, Net, matches, tick } from './broker';
import { fresh, run, settle, problems, clock, later } from './sim';
import { OP, ERR, V, seen, same, payload, str } from './proto';

const PATTERNS = ['a', 'a/b', 'a/b/c', 'x', '', 'a/', '+', '+/b', 'a/+', 'a/+/c', '#', 'a/#', 'a/b/#', '+/+', '+/b/#', 'x/#'];
const TOPICS = ['a', 'a/b', 'a/b/c', 'a/x/c', 'x', 'x/y/z', '', 'a/', '/b', 'b'];
type Step = { gap: number; k: string; p: number; v: V; refuse: boolean; wait: boolean };
type Case = { net: Net; steps: Step[]; faults: Fault[]; boom: number[]; disc: boolean };

type Sub = { p: string; h: number; called: number; ok: number; no: number; unsubs: { called: number; ok: number; no: number }[]; got: { v: any; tick: number; push: number }[] };

async function runCase(c: Case): Promise<Out> {
  fresh();
  const l: Record<string, number> = {};
  const done = (fail?: string): Out => ({ fail, nontrivial: !!l['pushes'] && (l['subscribed'] ?? 0) > 0, labels: l });
  const b = new Broker(c.net);
  let client: any; NexoClient.connect(quiet).then((x: any) => { client = x; }, () => {});
  await run(100);
  if (!client) return done('connecting to a server that accepts did not succeed within 100 ms');
  const subs: Sub[] = [], refuse = new Map<string, number>();
  b.hook = (q, cn) => {
    if ((q.op === OP.SUB || q.op === OP.UNSUB) && (refuse.get(q.name!) ?? 0) > 0) { refuse.set(q.name!, refuse.get(q.name!)! - 1); b.reply(cn, q.id, ERR, str('refused')); return true; }
    return false;
  };
  // what arrives, in order; handlers note themselves under the push being handed over
  const pushes: { topic: string; v: V; tick: number; got: Map<number, any[]>; next: number }[] = [];
  const pool = new Map<string, V>();
  let serial = 0, wrong: string | null = null;
  b.onPush = (_c, topic, p) => { pushes.push({ topic, v: pool.get(p.toString('hex')) ?? { t: 'bad', h: p.toString('hex') }, tick: tick(), got: new Map(), next: Infinity }); if (pushes.length > 1) pushes[pushes.length - 2].next = pushes[pushes.length - 1].tick; bump(l, 'pushes'); };
  const handler = (s: Sub) => (v: any) => { let i = pushes.length - 1; while (i >= 0 && (pushes[i].v.t === 'bad' || !same(v, seen(pushes[i].v)))) i--; s.got.push({ v, tick: tick(), push: i }); if (c.boom.includes(s.h % 4)) { bump(l, 'handlers that throw'); throw new Error('handler'); } };
  const doSub = (p: string, bad: boolean) => {
    const cn = b.conns.some(x => x.up);
    if (bad && cn) refuse.set(p, (refuse.get(p) ?? 0) + 1);
    const s: Sub = { p, h: subs.length, called: tick(), ok: Infinity, no: Infinity, unsubs: [], got: [] };
    const busy = subs.some(o => o.p === p && held(o));
    const connected = !!b.live;
    if (busy) { if (bad && cn) refuse.set(p, refuse.get(p)! - 1); }
    subs.push(s);
    return client.pubsub(p).subscribe(handler(s)).then(() => { s.ok = tick(); bump(l, 'subscribed'); if (busy) wrong ??= `subscribing to "${p}" a second time was accepted`; if (!connected) wrong ??= `subscribing to "${p}" without a connection was accepted`; }, () => { s.no = tick(); bump(l, busy ? 'second subscriptions' : 'subscriptions that failed'); });
  };
  /** Could this subscription still be there? */
  const held = (s: Sub) => s.no === Infinity && !s.unsubs.some(u => u.ok < Infinity);
  const doUnsub = (p: string, bad: boolean) => {
    const mine = subs.filter(s => s.p === p && held(s));
    const cn = !!b.live;
    if (bad && cn && mine.length) refuse.set(p, (refuse.get(p) ?? 0) + 1);
    const u = { called: tick(), ok: Infinity, no: Infinity };
    for (const s of mine) s.unsubs.push(u);
    return client.pubsub(p).unsubscribe().then(() => { u.ok = tick(); bump(l, mine.length ? 'unsubscribed' : 'unsubscribed from nothing'); }, () => { u.no = tick(); bump(l, 'unsubscriptions that failed'); if (!mine.length) wrong ??= `unsubscribing from "${p}", never subscribed, failed`; });
  };
  const pub = (topic: string, v: V, own: boolean) => {
    // a well-formed payload no other push has, so that calls can be told apart
    let x: V = v;
    if (v.t !== 'bad') x = { t: 'json', j: JSON.stringify({ n: ++serial, v: v.t === 'raw' ? v.h : v.t === 'undef' ? null : v.t === 'json' ? JSON.parse(v.j) : (v as any).s }) };
    if (v.t === 'raw') x = { t: 'raw', h: (++serial).toString(16).padStart(8, '0') + v.h };
    if (v.t === 'text') x = { t: 'text', s: `${++serial}:${v.s}` };
    const bytes = payload(x);
    if (x.t !== 'bad') pool.set(bytes.toString('hex'), x); else bump(l, 'pushes nobody can read');
    if (own && x.t !== 'bad') { const val = x.t === 'json' ? JSON.parse(x.j) : x.t === 'text' ? x.s : Buffer.from((x as any).h, 'hex'); client.pubsub(topic).publish(val).catch(() => {}); }
    else b.publish(topic, bytes);
  };
  const downs: { to: number }[] = [];
  const total = c.steps.reduce((a, s) => a + s.gap, 0);
  for (const f of c.faults) later(Math.min(f.at, total + 500), () => {
    if (b.live) bump(l, 'connections lost');
    b.drop(f.kind);
    if (f.down > 0) { b.accepting = false; const d = { to: clock.now + f.down }; downs.push(d); later(f.down, () => { b.accepting = downs.every(x => x.to <= clock.now); }); }
  });
  const inflight = new Map<string, Promise<any>>();
  for (const s of c.steps) {
    await run(s.gap);
    if (problems.length) return done(problems[0]);
    if (s.k === 'sub' || s.k === 'unsub') {
      let p = PATTERNS[s.p % PATTERNS.length];
      if (s.k === 'unsub' && s.p % 3 !== 0) { const h = [...new Set(subs.filter(x => x.ok < Infinity && held(x)).map(x => x.p))]; if (h.length) p = h[s.p % h.length]; }
      // one program does not race itself over one topic: the server answers requests of one connection in any order
      if (inflight.has(p)) continue;
      const pr = (s.k === 'sub' ? doSub(p, s.refuse) : doUnsub(p, s.refuse)).finally(() => { inflight.delete(p); refuse.delete(p); });
      inflight.set(p, pr);
      if (s.wait) for (let i = 0; i < 40 && inflight.has(p); i++) await run(50);
    } else pub(TOPICS[s.p % TOPICS.length], s.v, s.k === 'own' && s.v.t !== 'bad');
  }
  // heal, then see who hears what
  await run(30000);
  if (problems.length) return done(problems[0]);
  if (inflight.size) return done(`subscribe/unsubscribe on ${short([...inflight.keys()])} never ended`);
  if (!b.live) return done('30 s after the last disturbance the client has no connection');
  const want = [...new Set(subs.filter(s => s.ok < Infinity && held(s)).map(s => s.p))].sort(), has = [...b.live.subs].sort();
  if (JSON.stringify(want) !== JSON.stringify(has)) return done(`at rest the program is subscribed to ${short(want)} and the server has it subscribed to ${short(has)}`);
  for (const t of TOPICS) pub(t, { t: 'json', j: '"end"' }, false);
  await run(3000);
  if (c.disc) {
    const n = subs.map(s => s.got.length);
    const cn = b.live; client.disconnect(); bump(l, 'disconnects');
    if (cn) cn.sock.feed(Buffer.alloc(0));
    await run(20000);
    if (subs.some((s, i) => s.got.length !== n[i])) return done('a handler was called after disconnect()');
    if (b.live) return done('after disconnect() there is a connection');
    if (clock.alive()) return done('after disconnect() timers keep the process alive');
  } else client.disconnect();
  await settle();
  if (problems.length) return done(problems[0]);
  if (wrong) return done(wrong);
  // the verdict
  for (const s of subs) {
    const off = Math.min(...s.unsubs.filter(u => u.ok < Infinity).map(u => u.ok), s.no);
    const offCall = Math.min(...s.unsubs.filter(u => u.ok < Infinity).map(u => u.called), Infinity);
    const name = `handler ${s.h} of "${s.p}"`;
    let before = -1;
    for (const g of s.got) {
      const pu = pushes[g.push];
      if (!pu) return done(`${name} was called with ${short(g.v)}, which nobody pushed`);
      if (g.push < before) return done(`${name} was called for the pushes in another order than they came`);
      before = g.push;
      if (!matches(s.p, pu.topic)) return done(`${name} was called with ${short(g.v)}, pushed on "${pu?.topic}"`);
      if (g.tick < s.called || g.tick > off) return done(`${name} was called for a push on "${pu.topic}" ${g.tick > off ? 'after its unsubscribe() or failed subscribe() had ended' : 'before it subscribed'}`);
    }
    pushes.forEach((pu, i) => {
      if (wrong) return;
      const n = s.got.filter(g => g.push === i).length;
      const unsure = s.unsubs.some(u => u.ok === Infinity && pu.tick > u.called && pu.tick < u.no);
      const must = pu.v.t !== 'bad' && matches(s.p, pu.topic) && s.ok < pu.tick && pu.tick < offCall && !unsure;
      if (n > 1) wrong = `${name} was called ${n} times for one push on "${pu.topic}"`;
      if (must && n !== 1) wrong = `${name} was never called for the push of ${short(seen(pu.v))} on "${pu.topic}"`;
      if (must) bump(l, 'pushes handled'); if (must && /[+#]/.test(s.p)) bump(l, 'pushes handled by a pattern');
    });
    if (wrong) return done(wrong);
  }
  return done();
}
const step: fc.Arbitrary<Step> = fc.record({
  gap: fc.oneof({ weight: 4, arbitrary: fc.integer({ min: 0, max: 6 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 300 }) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 3000 }) }),
  k: fc.oneof({ weight: 4, arbitrary: fc.constant('sub') }, { weight: 3, arbitrary: fc.constant('unsub') }, { weight: 5, arbitrary: fc.constant('pub') }, { weight: 1, arbitrary: fc.constant('own') }),
  p: fc.oneof({ weight: 2, arbitrary: fc.integer({ min: 0, max: 3 }) }, { weight: 3, arbitrary: fc.integer({ min: 0, max: 31 }) }),
  v: fc.oneof({ weight: 9, arbitrary: arbV }, { weight: 1, arbitrary: arbBad }),
  refuse: fc.integer({ min: 0, max: 9 }).map(x => x === 3), wait: fc.boolean(),
});
const fat = fc.oneof(fc.integer({ min: 0, max: 60 }), fc.integer({ min: 0, max: 3000 }), fc.integer({ min: 0, max: 12000 }));
export const c31: Prop = {
  id: 'C31', quick: 60000, thorough: 2000000,
  rule: 'a case is up to 25 subscribes, unsubscribes and messages on 16 patterns and 10 topics, with refusals, lost connections and unreadable payloads at generated moments; non-trivial: a subscription was made and a message was pushed',
  note: 'virtual time; each push that reaches the client must call exactly the handlers subscribed to a matching pattern at that moment, once each; at rest the server must know exactly the subscriptions the program has',
  arb: fc.record({ net: arbNet(100), steps: fc.array(step, { minLength: 1, maxLength: 25 }), faults: fc.oneof(fc.constant([] as Fault[]), fc.array(fc.record({ at: fat, kind: fc.constantFrom('reset', 'close'), down: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 5000 })) }), { maxLength: 3 })), boom: fc.array(fc.integer({ min: 0, max: 3 }), { maxLength: 2 }), disc: fc.boolean() }),
  run: runCase,
};
