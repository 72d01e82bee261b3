// The wire protocol, written from its description (docs/guide/binary.md, frame.rs), independent of the client's codec.
export const OP = { SET: 0x02, GET: 0x03, DEL: 0x04, QCREATE: 0x10, QPUSH: 0x11, QCONSUME: 0x12, QACK: 0x13, QEXISTS: 0x14, QDELETE: 0x15, QPEEK: 0x16, QMOVE: 0x17, QDELDLQ: 0x18, QPURGE: 0x19, QNACK: 0x1a, PUB: 0x21, SUB: 0x22, UNSUB: 0x23, SCREATE: 0x30, SPUB: 0x31, SFETCH: 0x32, SJOIN: 0x33, SACK: 0x34, SEXISTS: 0x35, SDELETE: 0x36, SSEEK: 0x38, SLEAVE: 0x39 };
export const OK = 0, ERR = 1, NULL = 2, DATA = 3;
export const u8 = (n: number) => Buffer.from([n]);
export const u32 = (n: number) => { const b = Buffer.alloc(4); b.writeUInt32BE(n >>> 0); return b; };
export const u64 = (n: bigint | number) => { const b = Buffer.alloc(8); b.writeBigUInt64BE(BigInt(n)); return b; };
export const str = (s: string) => { const b = Buffer.from(s, 'utf8'); return Buffer.concat([u32(b.length), b]); };
export const blob = (b: Buffer) => Buffer.concat([u32(b.length), b]);
export const hex = (h: string) => Buffer.from(h.replace(/-/g, ''), 'hex');
export const cat = (...b: Buffer[]) => Buffer.concat(b);
export const frame = (type: number, meta: number, id: number, body: Buffer) => cat(u8(type), u8(meta), u32(id), u32(body.length), body);

/** A program's value as a program would write it down. */
export type V = { t: 'json'; j: string } | { t: 'text'; s: string } | { t: 'raw'; h: string } | { t: 'undef' } | { t: 'big'; n: number; k: number; c: number } | { t: 'bad'; h: string };
/** `pad`: bytes to reach a size. */
export function value(v: V): any {
  switch (v.t) { case 'json': return JSON.parse(v.j); case 'text': return v.s; case 'raw': return Buffer.from(v.h, 'hex'); case 'undef': return undefined; case 'big': return big(v); case 'bad': throw new Error('no value'); }
}
/** Its bytes on the wire. */
export function payload(v: V): Buffer {
  switch (v.t) {
    case 'json': { const x = JSON.parse(v.j); return typeof x === 'string' ? cat(u8(1), Buffer.from(x)) : cat(u8(2), Buffer.from(JSON.stringify(x))); }
    case 'text': return cat(u8(1), Buffer.from(v.s));
    case 'raw': return cat(u8(0), Buffer.from(v.h, 'hex'));
    case 'big': { const x = big(v); return Buffer.isBuffer(x) ? cat(u8(0), x) : typeof x === 'string' ? cat(u8(1), Buffer.from(x)) : cat(u8(2), Buffer.from(JSON.stringify(x))); }
    case 'undef': return cat(u8(2), Buffer.from('null'));
    case 'bad': return Buffer.from(v.h, 'hex');
  }
}
function big(v: { n: number; k: number; c: number }): any {
  if (v.k === 0) return Buffer.alloc(v.n, v.c & 255);
  const unit = ['x', 'é', '語', '😀', '"\\\n'][v.c % 5], s = unit.repeat(Math.ceil(v.n / unit.length));
  return v.k === 1 ? s : { s, n: v.c };
}
/** Is this payload, as sent, this value? (Any JSON text for it will do.) */
export function says(p: Buffer, v: V): string | null {
  const x = value(v);
  if (p.length < 1) return 'no type byte';
  if (Buffer.isBuffer(x)) return p[0] === 0 && Buffer.compare(p.subarray(1), x) === 0 ? null : 'not the bytes given';
  if (typeof x === 'string') return p[0] === 1 && p.subarray(1).toString('utf8') === x ? null : 'not the text given';
  if (p[0] !== 2) return `type ${p[0]} for a JSON value`;
  try { return same(JSON.parse(p.subarray(1).toString('utf8')), x === undefined ? null : x) ? null : 'not the value given'; } catch { return 'no JSON'; }
}
/** What a reader must see. */
export function seen(v: V): any { const x = value(v); return x === undefined ? null : x; }
export function same(a: any, b: any): boolean {
  if (Buffer.isBuffer(a) || Buffer.isBuffer(b)) return Buffer.isBuffer(a) && Buffer.isBuffer(b) && Buffer.compare(a, b) === 0;
  if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object') return Object.is(a, b) || (a === 0 && b === 0);
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && same(a[k], b[k]));
}
export class Rd {
  o = 0;
  constructor(public b: Buffer) {}
  need(n: number) { if (this.o + n > this.b.length) throw new Error('request too short'); }
  u8() { this.need(1); return this.b[this.o++]; }
  u32() { this.need(4); const v = this.b.readUInt32BE(this.o); this.o += 4; return v; }
  u64() { this.need(8); const v = this.b.readBigUInt64BE(this.o); this.o += 8; return v; }
  str() { const n = this.u32(); this.need(n); const s = this.b.toString('utf8', this.o, this.o + n); this.o += n; return s; }
  uuid() { this.need(16); const s = this.b.toString('hex', this.o, this.o + 16); this.o += 16; return s; }
  rest() { const r = this.b.subarray(this.o); this.o = this.b.length; return Buffer.from(r); }
  end() { if (this.o !== this.b.length) throw new Error(`${this.b.length - this.o} bytes too many`); }
}
export type Req = { op: number; id: number; at: number; body: Buffer; name?: string; key?: string; opts?: any; payload?: Buffer; uuid?: string; reason?: string; limit?: number; offset?: number; group?: string; consumer?: string; gen?: bigint; seq?: bigint; wait?: number; target?: number };
/** Reads a request by the protocol; throws if it is not one. */
export function parse(op: number, id: number, body: Buffer, at: number): Req {
  const r = new Rd(body), q: Req = { op, id, at, body };
  const json = () => { const o = JSON.parse(r.str()); if (o === null || typeof o !== 'object' || Array.isArray(o)) throw new Error('options are no object'); return o; };
  switch (op) {
    case OP.SET: q.key = r.str(); q.opts = json(); q.payload = r.rest(); break;
    case OP.GET: case OP.DEL: q.key = r.str(); r.end(); break;
    case OP.QCREATE: q.name = r.str(); q.opts = json(); r.end(); break;
    case OP.QPUSH: q.name = r.str(); q.opts = json(); q.payload = r.rest(); break;
    case OP.QCONSUME: q.name = r.str(); q.opts = json(); r.end(); break;
    case OP.QACK: q.uuid = r.uuid(); q.name = r.str(); r.end(); break;
    case OP.QNACK: q.uuid = r.uuid(); q.name = r.str(); q.reason = r.str(); r.end(); break;
    case OP.QEXISTS: case OP.QDELETE: case OP.QPURGE: q.name = r.str(); r.end(); break;
    case OP.QPEEK: q.name = r.str(); q.limit = r.u32(); q.offset = r.u32(); r.end(); break;
    case OP.QMOVE: case OP.QDELDLQ: q.name = r.str(); q.uuid = r.uuid(); r.end(); break;
    case OP.PUB: q.name = r.str(); q.opts = json(); q.payload = r.rest(); break;
    case OP.SUB: case OP.UNSUB: q.name = r.str(); r.end(); break;
    case OP.SCREATE: q.name = r.str(); q.opts = json(); r.end(); break;
    case OP.SPUB: q.name = r.str(); q.payload = r.rest(); break;
    case OP.SFETCH: q.name = r.str(); q.group = r.str(); q.consumer = r.str(); q.gen = r.u64(); q.limit = r.u32(); q.wait = r.u32(); r.end(); break;
    case OP.SJOIN: q.group = r.str(); q.name = r.str(); r.end(); break;
    case OP.SACK: q.name = r.str(); q.group = r.str(); q.consumer = r.str(); q.gen = r.u64(); q.seq = r.u64(); r.end(); break;
    case OP.SEXISTS: case OP.SDELETE: q.name = r.str(); r.end(); break;
    case OP.SSEEK: q.name = r.str(); q.group = r.str(); q.target = r.u8(); r.end(); break;
    case OP.SLEAVE: q.name = r.str(); q.group = r.str(); q.consumer = r.str(); q.gen = r.u64(); r.end(); break;
    default: throw new Error('unknown opcode 0x' + op.toString(16));
  }
  return q;
}
