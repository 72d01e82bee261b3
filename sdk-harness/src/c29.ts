import fc from 'fast-check';
import { arbNet, arbV, arbBig, arbBad, text, Prop, Out, NexoClient, quiet, short, bump } from './common';
import { Broker, Net } from './broker';
import { fresh, run, settle, problems, clock } from './sim';
import { OP, OK, NULL, DATA, V, value, payload, seen, same, says, u8, u32, str, blob, hex, cat, frame, Req } from './proto';

type Step = { k: string; name: string; v: V; n: number; m: number; b: boolean; back: V; items: { id: string; v: V; att: number; why: string }[]; uform: number };
const id32 = fc.string({ unit: fc.constantFrom(...'0123456789abcdef'), minLength: 32, maxLength: 32 });
const u32s = fc.oneof(fc.constantFrom(0, 1, 10, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295), fc.integer({ min: 0, max: 4294967295 }));
const anyV = fc.oneof({ weight: 12, arbitrary: arbV }, { weight: 1, arbitrary: arbBig });
const kinds = ['set', 'setttl', 'get', 'getnone', 'del', 'qcreate', 'qpush', 'qpushp', 'qexists', 'qdelete', 'peek', 'peekd', 'move', 'dlqdel', 'purge', 'pub', 'pubr', 'handler', 'screate', 'spub', 'seek', 'sexists', 'sdelete'];
const step: fc.Arbitrary<Step> = fc.record({
  k: fc.constantFrom(...kinds), name: text, v: anyV, n: u32s, m: u32s, b: fc.boolean(), back: anyV,
  items: fc.array(fc.record({ id: id32, v: fc.oneof({ weight: 15, arbitrary: anyV }, { weight: 1, arbitrary: arbBad }), att: u32s, why: text }), { maxLength: 4 }), uform: fc.integer({ min: 0, max: 3 }),
});
type Case = { net: Net; steps: Step[] };

function uform(h: string, f: number): string { const d = `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`; return [h, d, h.toUpperCase(), d.toUpperCase()][f]; }

async function runCase(c: Case): Promise<Out> {
  fresh();
  const l: Record<string, number> = {};
  const b = new Broker(c.net);
  let answer: (q: Req) => { s: number; d: Buffer } = () => ({ s: OK, d: Buffer.alloc(0) });
  b.hook = (q, cn) => { const a = answer(q); b.reply(cn, q.id, a.s, a.d); return true; };
  const p = NexoClient.connect(quiet);
  let client: any; p.then((x: any) => { client = x; }, () => {});
  await run(200);
  const out = (fail?: string): Out => ({ fail, nontrivial: c.steps.length >= 3, labels: l });
  if (!client) return out('connecting to a server that accepts did not succeed within 200 ms');
  try {
    for (let i = 0; i < c.steps.length; i++) {
      const s = c.steps[i], from = b.reqs.length;
      const none = { s: OK, d: Buffer.alloc(0) };
      let pr: Promise<any>, op = 0, want: any = undefined, fields: Partial<Req> = {}, ret: (x: any) => string | null = x => null;
      const eq = (w: any) => (x: any) => (same(x, w) ? null : `gave ${short(x)} for ${short(w)}`);
      answer = () => none;
      let pv: V | null = null, opts: any = null;
      const uid = s.items.length ? s.items[0].id : '0123456789abcdef0123456789ABCDEF'.toLowerCase();
      switch (s.k) {
        case 'set': pr = client.store.map.set(s.name, value(s.v)); op = OP.SET; fields = { key: s.name }; pv = s.v; opts = {}; break;
        case 'setttl': pr = client.store.map.set(s.name, value(s.v), { ttl: s.n }); op = OP.SET; fields = { key: s.name }; pv = s.v; opts = { ttl: s.n }; break;
        case 'get': answer = () => ({ s: DATA, d: payload(s.back) }); pr = client.store.map.get(s.name); op = OP.GET; fields = { key: s.name }; ret = eq(seen(s.back)); break;
        case 'getnone': answer = () => ({ s: NULL, d: Buffer.alloc(0) }); pr = client.store.map.get(s.name); op = OP.GET; fields = { key: s.name }; ret = eq(null); break;
        case 'del': pr = client.store.map.del(s.name); op = OP.DEL; fields = { key: s.name }; break;
        case 'qcreate': { const o: any = s.b ? { visibilityTimeoutMs: s.n, maxRetries: s.m } : { maxRetries: s.m }; pr = client.queue(s.name).create(o); op = OP.QCREATE; fields = { name: s.name }; opts = o; break; }
        case 'qpush': pr = client.queue(s.name).push(value(s.v)); op = OP.QPUSH; fields = { name: s.name }; pv = s.v; opts = {}; break;
        case 'qpushp': pr = client.queue(s.name).push(value(s.v), { priority: s.n & 255 }); op = OP.QPUSH; fields = { name: s.name }; pv = s.v; opts = { priority: s.n & 255 }; break;
        case 'qexists': pr = client.queue(s.name).exists(); op = OP.QEXISTS; fields = { name: s.name }; ret = eq(true); break;
        case 'qdelete': pr = client.queue(s.name).delete(); op = OP.QDELETE; fields = { name: s.name }; break;
        case 'peek': case 'peekd': {
          answer = () => ({ s: DATA, d: cat(u32(s.n), u32(s.items.length), ...s.items.map(m => cat(hex(m.id), blob(payload(m.v)), u32(m.att), str(m.why)))) });
          pr = s.k === 'peek' ? client.queue(s.name).dlq.peek(s.n, s.m) : client.queue(s.name).dlq.peek();
          op = OP.QPEEK; fields = s.k === 'peek' ? { name: s.name, limit: s.n, offset: s.m } : { name: s.name, limit: 10, offset: 0 };
          ret = x => {
            if (!x || x.total !== s.n || !Array.isArray(x.items) || x.items.length !== s.items.length) return `gave ${short(x)} for ${s.items.length} of ${s.n}`;
            for (let j = 0; j < s.items.length; j++) {
              const a = x.items[j], w = s.items[j];
              if (String(a.id).replace(/-/g, '').toLowerCase() !== w.id || (w.v.t !== 'bad' && !same(a.data, seen(w.v))) || a.attempts !== w.att || a.failureReason !== w.why) return `item ${j} is ${short(a)} for ${short(w)}`;
            }
            return null;
          };
          break;
        }
        case 'move': answer = () => ({ s: DATA, d: u8(s.b ? 1 : 0) }); pr = client.queue(s.name).dlq.moveToQueue(uform(uid, s.uform)); op = OP.QMOVE; fields = { name: s.name, uuid: uid }; ret = eq(s.b); break;
        case 'dlqdel': answer = () => ({ s: DATA, d: u8(s.b ? 1 : 0) }); pr = client.queue(s.name).dlq.delete(uform(uid, s.uform)); op = OP.QDELDLQ; fields = { name: s.name, uuid: uid }; ret = eq(s.b); break;
        case 'purge': answer = () => ({ s: DATA, d: u32(s.n) }); pr = client.queue(s.name).dlq.purge(); op = OP.QPURGE; fields = { name: s.name }; ret = eq(s.n); break;
        case 'pub': pr = client.pubsub(s.name).publish(value(s.v)); op = OP.PUB; fields = { name: s.name }; pv = s.v; opts = {}; break;
        case 'pubr': pr = client.pubsub(s.name).publish(value(s.v), { retain: s.b }); op = OP.PUB; fields = { name: s.name }; pv = s.v; opts = { retain: s.b }; break;
        case 'handler': {
          const topic = s.name.replace(/[+#]/g, '_') + '/' + i, got: any[] = [];
          pr = client.pubsub(topic).subscribe((x: any) => { got.push(x); }); op = OP.SUB; fields = { name: topic };
          await run(700); await settle();
          if (b.live) b.emit(b.live, frame(3, 0, 0, cat(str(topic), payload(s.back))));
          await run(1500);
          if (got.length !== 1 || !same(got[0], seen(s.back))) return out(`step ${i}: a push of ${short(seen(s.back))} on ${short(topic)} reached the handler as ${short(got)}`);
          bump(l, 'push');
          break;
        }
        case 'screate': { const o: any = s.b ? { retention: { maxAgeMs: s.n, maxBytes: s.m } } : {}; pr = client.stream(s.name).create(o); op = OP.SCREATE; fields = { name: s.name }; opts = o; break; }
        case 'spub': pr = client.stream(s.name).publish(value(s.v)); op = OP.SPUB; fields = { name: s.name }; pv = s.v; break;
        case 'seek': pr = client.stream(s.name).seek('g' + s.name, s.b ? 'beginning' : 'end'); op = OP.SSEEK; fields = { name: s.name, group: 'g' + s.name, target: s.b ? 0 : 1 }; break;
        case 'sexists': pr = client.stream(s.name).exists(); op = OP.SEXISTS; fields = { name: s.name }; ret = eq(true); break;
        default: pr = client.stream(s.name).delete(); op = OP.SDELETE; fields = { name: s.name }; break;
      }
      let done = false, res: any, bad: any;
      pr!.then(x => { done = true; res = x; }, e => { done = true; bad = e ?? new Error('?'); });
      await run(1500);
      bump(l, s.k); if (pv && pv.t === 'big') bump(l, 'large value'); if (s.back.t === 'big') bump(l, 'large answer');
      const what = `step ${i} (${s.k} ${short(s.name)}${pv ? ' ' + short(value(pv)) : ''})`;
      if (problems.length) return out(`${what}: ${problems[0]}`);
      const made = b.reqs.slice(from);
      if (made.length !== 1) return out(`${what}: ${made.length} requests reached the server${b.leftovers() ? ', and ' + b.leftovers() : ''}`);
      const q = made[0];
      if (q.op !== op) return out(`${what}: request 0x${q.op.toString(16)} instead of 0x${op.toString(16)}`);
      for (const [f, w] of Object.entries(fields)) if ((q as any)[f] !== w) return out(`${what}: field ${f} is ${short((q as any)[f])}, not ${short(w)}`);
      if (opts && !same(q.opts, opts)) return out(`${what}: options ${short(q.opts)}, not ${short(opts)}`);
      if (pv) { const e = says(q.payload!, pv); if (e) return out(`${what}: the payload is ${e}: ${short(q.payload)}`); }
      if (!done) return out(`${what}: answered, but the call did not end`);
      if (bad) return out(`${what}: answered, but the call failed: ${bad}`);
      const e = ret(res); if (e) return out(`${what}: ${e}`);
    }
    if (b.leftovers()) return out(`at the end: ${b.leftovers()}`);
  } finally { client.disconnect(); await settle(); }
  return out(problems[0]);
}
export const c29: Prop = {
  id: 'C29', quick: 40000, thorough: 1500000,
  rule: 'a case is up to 12 client calls with arbitrary names, values, options and answers over a connection cut into arbitrary pieces; non-trivial: at least 3 calls',
  note: 'every request is parsed by an independent reading of the protocol and compared with what was asked; every answer, push and dead-letter page is compared with what the client hands over',
  arb: fc.record({ net: arbNet(50), steps: fc.array(step, { minLength: 1, maxLength: 12 }) }),
  run: runCase,
};
