// A server for the client under test: the brokers' documented behaviour in a few lines, in virtual time, with every request recorded.
import { Socket, Peer, world } from './fakenet';
import { clock, later, problems } from './sim';
import { OP, OK, ERR, NULL, DATA, u8, u32, u64, str, blob, hex, cat, frame, parse, Req } from './proto';

export type Net = { delay: number[]; cut: number[]; gap: number[]; conn: number[]; ack: number[] };
let ticks = 0;
/** A strictly growing stamp: orders what happens at one instant. */
export const tick = () => ++ticks;
export class Conn {
  n: number; inb = Buffer.alloc(0); out: Buffer[] = []; outLen = 0; fed = 0; made = 0; floor = 0; pumping = false;
  done: { at: number; f: () => void }[] = [];
  up = true; upTick = tick(); downTick = Infinity; upAt = clock.now; downAt = Infinity;
  subs = new Set<string>();
  constructor(public sock: Socket, n: number) { this.n = n; }
}
type QMsg = { id: string; payload: Buffer; prio: number; attempts: number; reason: string; ord: number };
type Queue = { vis: number; max: number; ready: QMsg[]; inflight: Map<string, { m: QMsg; timer: number; conn: Conn }>; dlq: QMsg[]; waiters: { conn: Conn; id: number; batch: number; timer: number }[] };
type Group = { gen: bigint; members: Map<string, Conn>; next: number; pend: Map<number, { who: string; until: number; gen: bigint }>; again: number[]; tries: Map<number, number>; acked: Set<number>; waiters: { conn: Conn; id: number; who: string; limit: number; timer: number }[] };
type Stream = { log: Buffer[]; groups: Map<string, Group>; ackWait: number; maxDel: number };
/** What one consume or fetch handed over: `arrived` once its last byte is with the client. */
export type Batch = { conn: Conn; name: string; group?: string; who?: string; gen?: bigint; items: { id: string; payload: Buffer; attempt: number }[]; made: number; madeAt: number; arrived: number; arrivedAt: number };

export class Broker implements Peer {
  conns: Conn[] = []; live: Conn | null = null; most = 0; accepting = true;
  reqs: (Req & { conn: Conn; tick: number })[] = [];
  open_(q: any) {}
  /** Case-specific answers; return true when handled. */
  hook: (q: Req, c: Conn) => boolean = () => false;
  store = new Map<string, Buffer>(); queues = new Map<string, Queue>(); streams = new Map<string, Stream>();
  batches: Batch[] = [];
  private di = 0; private ci = 0; private gi = 0; private ki = 0; private uuids = 0; private ords = 0; private ids = 0;
  constructor(public net: Net) {
    world.all.length = 0;
    world.peer = this; world.accept = () => this.accepting;
    world.connectMs = () => this.cyc(net.conn, this.ki++, 1); world.ackMs = () => 0;
  }
  private cyc(a: number[], i: number, d: number) { return a.length ? a[i % a.length] : d; }
  // --- connections
  open(s: Socket) {
    const c = new Conn(s, this.conns.length); this.conns.push(c); (s as any).conn_ = c;
    const up = this.conns.filter(x => x.up).length; this.most = Math.max(this.most, up);
    this.live = c;
  }
  gone(s: Socket) { const c = (s as any).conn_ as Conn; if (c && c.up) this.lost(c); }
  end(_s: Socket) {}
  private lost(c: Conn) {
    c.up = false; c.downTick = tick(); c.downAt = clock.now; c.out = []; c.outLen = 0; c.done = [];
    if (this.live === c) this.live = null;
    c.subs.clear();
    for (const q of this.queues.values()) q.waiters = q.waiters.filter(w => { if (w.conn === c) { clock.clear(w.timer); return false; } return true; });
    for (const s of this.streams.values()) for (const g of s.groups.values()) for (const [m, k] of [...g.members]) if (k === c) this.dropMember(s, g, m);
  }
  drop(kind: string) { const c = this.live; if (!c) return; if (kind === 'close') c.sock.finish(); else c.sock.reset(); }
  /** The server is gone and comes back: connections and group members vanish, the data stays. */
  bytes(s: Socket, b: Buffer) {
    const c = (s as any).conn_ as Conn; if (!c || !c.up) return;
    c.inb = c.inb.length ? Buffer.concat([c.inb, b]) : b;
    while (c.inb.length >= 10) {
      const n = c.inb.readUInt32BE(6);
      if (c.inb[0] !== 1) { problems.push(`the client sent a frame of type ${c.inb[0]}`); return; }
      if (n > 64 << 20) { problems.push(`the client sent a frame of ${n} bytes`); return; }
      if (c.inb.length < 10 + n) break;
      const op = c.inb[1], id = c.inb.readUInt32BE(2), body = Buffer.from(c.inb.subarray(10, 10 + n));
      c.inb = c.inb.subarray(10 + n);
      let q: Req;
      try { q = parse(op, id, body, clock.now); } catch (e: any) { problems.push(`the client sent a request that is none: opcode 0x${op.toString(16)} (${e.message}) ${body.subarray(0, 60).toString('hex')}`); return; }
      if (id === 0) { problems.push('the client used request id 0'); return; }
      const r = Object.assign(q, { conn: c, tick: tick() }); this.reqs.push(r);
      if (!this.hook(q, c)) this.serve(q, c);
    }
  }
  /** Everything the client began to send must have been whole frames. */
  leftovers(): string | null { for (const c of this.conns) if (c.up && c.inb.length) return `${c.inb.length} bytes of an unfinished request`; return null; }
  delay() { return this.cyc(this.net.delay, this.di++, 0); }
  reply(c: Conn, id: number, status: number, body: Buffer, arrived?: () => void, ms?: number) {
    later(ms ?? this.delay(), () => this.emit(c, frame(2, status, id, body), arrived));
  }
  emit(c: Conn, f: Buffer, arrived?: () => void) {
    if (!c.up) return;
    c.out.push(f); c.made += f.length; c.outLen += f.length; c.floor = Math.ceil(c.outLen / 200);
    if (arrived) c.done.push({ at: c.made, f: arrived });
    if (!c.pumping) this.pump(c);
  }
  private pump(c: Conn) {
    c.pumping = true;
    while (c.up && c.outLen > 0) {
      const cut = this.cyc(this.net.cut, this.ci++, 0), n = cut <= 0 ? c.outLen : Math.min(Math.max(cut, c.floor), c.outLen);
      const all = c.out.length === 1 ? c.out[0] : Buffer.concat(c.out);
      const piece = all.subarray(0, n); c.out = n < all.length ? [all.subarray(n)] : []; c.outLen -= n;
      c.fed += n;
      const ready = []; while (c.done.length && c.done[0].at <= c.fed) ready.push(c.done.shift()!);
      // stamped before the client can react to them
      for (const d of ready) d.f();
      c.sock.feed(piece);
      const gap = this.cyc(this.net.gap, this.gi++, 0);
      if (c.outLen > 0) { later(gap, () => { this.pump(c); }); return; }
    }
    c.pumping = false;
  }
  // --- the brokers
  uuid() { return (++this.uuids).toString(16).padStart(8, '0') + 'abcdef0123456789abcdef01'; }
  serve(q: Req, c: Conn) {
    const ok = (b = Buffer.alloc(0)) => this.reply(c, q.id, b.length ? DATA : OK, b);
    const data = (b: Buffer) => this.reply(c, q.id, DATA, b);
    const err = (m: string) => this.reply(c, q.id, ERR, str(m));
    switch (q.op) {
      case OP.SET: this.store.set(q.key!, q.payload!); return ok();
      case OP.GET: { const v = this.store.get(q.key!); return v ? data(v) : this.reply(c, q.id, NULL, Buffer.alloc(0)); }
      case OP.DEL: this.store.delete(q.key!); return ok();
      case OP.PUB: this.publish(q.name!, q.payload!); return ok();
      case OP.SUB: c.subs.add(q.name!); return ok();
      case OP.UNSUB: c.subs.delete(q.name!); return ok();
      case OP.QCREATE: if (!this.queues.has(q.name!)) this.mkq(q.name!, q.opts.visibilityTimeoutMs ?? 30000, q.opts.maxRetries ?? 5); return ok();
      case OP.SCREATE: if (!this.streams.has(q.name!)) this.mks(q.name!, 5000, 5); return ok();
      case OP.SEXISTS: return this.streams.has(q.name!) ? ok() : err('Stream not found');
      case OP.SDELETE: this.streams.delete(q.name!); return ok();
      case OP.QEXISTS: return this.queues.has(q.name!) ? ok() : err('Queue not found');
    }
    const Q = this.queues.get(q.name!);
    if (q.op >= 0x10 && q.op <= 0x1a) {
      if (!Q) return err(`Queue '${q.name}' not found`);
      switch (q.op) {
        case OP.QPUSH: this.push(q.name!, q.payload!, q.opts.priority ?? 0); return ok();
        case OP.QDELETE: this.queues.delete(q.name!); return ok();
        case OP.QCONSUME: {
          const batch = q.opts.batchSize ?? 10, wait = q.opts.waitMs ?? 20000;
          if (Q.ready.length || wait <= 0) return this.serveConsume(Q, q.name!, c, q.id, batch);
          const w = { conn: c, id: q.id, batch, timer: 0 };
          w.timer = later(wait, () => { Q.waiters = Q.waiters.filter(x => x !== w); this.serveConsume(Q, q.name!, c, q.id, batch); });
          Q.waiters.push(w); return;
        }
        case OP.QACK: { const f = Q.inflight.get(q.uuid!); if (!f) return err('not in flight'); clock.clear(f.timer); Q.inflight.delete(q.uuid!); return ok(); }
        case OP.QNACK: { const f = Q.inflight.get(q.uuid!); if (!f) return err('not in flight'); clock.clear(f.timer); Q.inflight.delete(q.uuid!); this.failed(Q, q.name!, f.m, q.reason!); return ok(); }
        case OP.QPEEK: { const l = Q.dlq.slice(q.offset!, q.offset! + q.limit!); return data(cat(u32(Q.dlq.length), u32(l.length), ...l.map(m => cat(hex(m.id), blob(m.payload), u32(m.attempts), str(m.reason))))); }
        case OP.QMOVE: { const i = Q.dlq.findIndex(m => m.id === q.uuid); if (i < 0) return data(u8(0)); const [m] = Q.dlq.splice(i, 1); m.attempts = 0; Q.ready.push(m); this.wake(Q, q.name!); return data(u8(1)); }
        case OP.QDELDLQ: { const i = Q.dlq.findIndex(m => m.id === q.uuid); if (i < 0) return data(u8(0)); Q.dlq.splice(i, 1); return data(u8(1)); }
        case OP.QPURGE: { const n = Q.dlq.length; Q.dlq = []; return data(u32(n)); }
      }
    }
    const S = this.streams.get(q.name!);
    if (!S) return err(`Topic '${q.name}' not found`);
    switch (q.op) {
      case OP.SPUB: this.append(q.name!, q.payload!); return ok();
      case OP.SJOIN: { const g = this.group(S, q.group!); const who = `c${++this.ids}`; g.members.set(who, c); return data(cat(u64(0), u64(g.gen), str(who))); }
      case OP.SLEAVE: { const g = this.group(S, q.group!); if (q.gen !== g.gen) return err('FENCED'); if (!g.members.has(q.consumer!)) return err('NOT_MEMBER'); this.dropMember(S, g, q.consumer!); return ok(); }
      case OP.SSEEK: { const g = this.group(S, q.group!); this.fence(S, g); g.next = q.target === 0 ? 0 : S.log.length; g.again = []; g.tries.clear(); g.acked = new Set(); return ok(); }
      case OP.SACK: { const g = this.group(S, q.group!); if (q.gen !== g.gen) return err('FENCED'); const p = g.pend.get(Number(q.seq)); if (!p || p.who !== q.consumer) return err('NOT_PENDING'); g.pend.delete(Number(q.seq)); g.acked.add(Number(q.seq)); return ok(); }
      case OP.SFETCH: {
        const g = this.group(S, q.group!);
        if (q.gen !== g.gen) return err('FENCED');
        if (g.members.get(q.consumer!) !== c) return err('NOT_MEMBER');
        if (g.again.length || g.next < S.log.length || q.wait! <= 0) return this.serveFetch(S, q.name!, g, q.group!, c, q.id, q.consumer!, q.limit!);
        const w = { conn: c, id: q.id, who: q.consumer!, limit: q.limit!, timer: 0 };
        w.timer = later(q.wait!, () => { g.waiters = g.waiters.filter(x => x !== w); this.serveFetch(S, q.name!, g, q.group!, c, q.id, w.who, w.limit); });
        g.waiters.push(w); return;
      }
    }
    err('unknown');
  }
  // pub/sub
  onPush: (c: Conn, topic: string, payload: Buffer) => void = () => {};
  publish(topic: string, payload: Buffer) {
    for (const c of this.conns) if (c.up && [...c.subs].some(p => matches(p, topic))) later(this.cyc(this.net.delay, 0, 0), () => { if (c.up) this.emit(c, frame(3, 0, 0, cat(str(topic), payload)), () => this.onPush(c, topic, payload)); });
  }
  // queues
  mkq(name: string, vis: number, max: number) { this.queues.set(name, { vis, max, ready: [], inflight: new Map(), dlq: [], waiters: [] }); }
  push(name: string, payload: Buffer, prio = 0): string { const Q = this.queues.get(name)!; const m = { id: this.uuid(), payload, prio, attempts: 0, reason: '', ord: this.ords++ }; Q.ready.push(m); this.wake(Q, name); return m.id; }
  private wake(Q: Queue, name: string) { while (Q.waiters.length && Q.ready.length) { const w = Q.waiters.shift()!; clock.clear(w.timer); this.serveConsume(Q, name, w.conn, w.id, w.batch); } }
  private serveConsume(Q: Queue, name: string, c: Conn, id: number, batch: number) {
    Q.ready.sort((a, b) => b.prio - a.prio || a.ord - b.ord);
    const got = Q.ready.splice(0, batch);
    for (const m of got) { m.attempts++; const f = { m, conn: c, timer: 0 }; f.timer = later(Q.vis, () => { if (Q.inflight.get(m.id) === f) { Q.inflight.delete(m.id); this.failed(Q, name, m, 'timeout'); } }); Q.inflight.set(m.id, f); }
    const b: Batch = { conn: c, name, items: got.map(m => ({ id: m.id, payload: m.payload, attempt: m.attempts })), made: tick(), madeAt: clock.now, arrived: 0, arrivedAt: 0 };
    if (got.length) this.batches.push(b);
    this.reply(c, id, DATA, cat(u32(got.length), ...got.map(m => cat(hex(m.id), blob(m.payload)))), () => { b.arrived = tick(); b.arrivedAt = clock.now; });
  }
  private failed(Q: Queue, name: string, m: QMsg, reason: string) { m.reason = reason; if (m.attempts >= Q.max) Q.dlq.unshift(m); else { m.ord = this.ords++; Q.ready.push(m); this.wake(Q, name); } }
  // streams
  mks(name: string, ackWait: number, maxDel: number) { this.streams.set(name, { log: [], groups: new Map(), ackWait, maxDel }); }
  group(S: Stream, n: string): Group { let g = S.groups.get(n); if (!g) { g = { gen: 1n, members: new Map(), next: 0, pend: new Map(), again: [], tries: new Map(), acked: new Set(), waiters: [] }; S.groups.set(n, g); } return g; }
  append(name: string, payload: Buffer) { const S = this.streams.get(name)!; S.log.push(payload); for (const [n, g] of S.groups) this.wakeG(S, name, g, n); }
  private wakeG(S: Stream, name: string, g: Group, gn: string) { while (g.waiters.length && (g.again.length || g.next < S.log.length)) { const w = g.waiters.shift()!; clock.clear(w.timer); this.serveFetch(S, name, g, gn, w.conn, w.id, w.who, w.limit); } }
  private dropMember(S: Stream, g: Group, who: string) {
    g.members.delete(who);
    for (const [s, p] of [...g.pend]) if (p.who === who) { g.pend.delete(s); g.again.push(s); }
    g.again.sort((a, b) => a - b);
    for (const w of g.waiters.filter(w => w.who === who)) { clock.clear(w.timer); this.reply(w.conn, w.id, DATA, u32(0)); }
    g.waiters = g.waiters.filter(w => w.who !== who);
    for (const [n, s] of this.streams) if (s === S) for (const [gn, gg] of s.groups) if (gg === g) this.wakeG(S, n, g, gn);
  }
  fence(S: Stream, g: Group) {
    g.gen++;
    for (const s of g.pend.keys()) g.again.push(s);
    g.again.sort((a, b) => a - b); g.pend.clear(); g.members.clear();
    for (const w of g.waiters) { clock.clear(w.timer); this.reply(w.conn, w.id, ERR, str('FENCED')); }
    g.waiters = [];
  }
  private serveFetch(S: Stream, name: string, g: Group, gn: string, c: Conn, id: number, who: string, limit: number) {
    const seqs: number[] = [];
    while (seqs.length < limit && g.again.length) { const s = g.again.shift()!; if ((g.tries.get(s) ?? 0) >= S.maxDel) { g.acked.add(s); continue; } seqs.push(s); }
    while (seqs.length < limit && g.next < S.log.length) seqs.push(g.next++);
    for (const s of seqs) {
      g.tries.set(s, (g.tries.get(s) ?? 0) + 1);
      const p = { who, until: clock.now + S.ackWait, gen: g.gen }; g.pend.set(s, p);
      later(S.ackWait, () => { if (g.pend.get(s) === p) { g.pend.delete(s); g.again.push(s); g.again.sort((a, b) => a - b); this.wakeG(S, name, g, gn); } });
    }
    const b: Batch = { conn: c, name, group: gn, who, gen: g.gen, items: seqs.map(s => ({ id: String(s), payload: S.log[s], attempt: g.tries.get(s)! })), made: tick(), madeAt: clock.now, arrived: 0, arrivedAt: 0 };
    if (seqs.length) this.batches.push(b);
    this.reply(c, id, DATA, cat(u32(seqs.length), ...seqs.map(s => cat(u64(s), u64(1700000000000 + s), blob(S.log[s])))), () => { b.arrived = tick(); b.arrivedAt = clock.now; });
  }
}
export function matches(p: string, t: string): boolean {
  const a = p.split('/'), b = t.split('/');
  for (let i = 0; i < a.length; i++) { if (a[i] === '#') return true; if (i >= b.length || (a[i] !== '+' && a[i] !== b[i])) return false; }
  return a.length === b.length;
}
