import fc from 'fast-check';
import { V } from './proto';
import { Net } from './broker';
// @ts-ignore: the client under test
import * as sdk from 'nexo-sdk';
export const NexoClient = (sdk as any).NexoClient;
export type Out = { fail?: string; nontrivial: boolean; labels: Record<string, number> };
export interface Prop { id: string; rule: string; note: string; quick: number; thorough: number; arb: fc.Arbitrary<any>; run(c: any): Promise<Out> }

const text = fc.oneof({ weight: 3, arbitrary: fc.string({ unit: 'grapheme', maxLength: 12 }) }, { weight: 1, arbitrary: fc.string({ unit: 'binary', maxLength: 12 }) }, { weight: 1, arbitrary: fc.constantFrom('', 'null', '{"a":1}', '\u0000', '0', 'ÿ', '😀', 'a/b', '__proto__') }).filter(s => (s as any).isWellFormed());
export { text };
export const arbV: fc.Arbitrary<V> = fc.oneof(
  { weight: 4, arbitrary: fc.jsonValue({ maxDepth: 3, stringUnit: 'grapheme' } as any).map(x => ({ t: 'json' as const, j: JSON.stringify(x) })) },
  { weight: 2, arbitrary: fc.constantFrom('null', 'true', 'false', '0', '-1', '1e308', '5e-324', '9007199254740993', '{}', '[]', '""', '[null]', '{"":[]}', '{"__proto__":1}').map(j => ({ t: 'json' as const, j })) },
  { weight: 2, arbitrary: text.map(s => ({ t: 'text' as const, s })) },
  { weight: 2, arbitrary: fc.uint8Array({ maxLength: 24 }).map(b => ({ t: 'raw' as const, h: Buffer.from(b).toString('hex') })) },
  { weight: 1, arbitrary: fc.constant({ t: 'undef' as const }) },
);
export const arbBig: fc.Arbitrary<V> = fc.record({ t: fc.constant('big' as const), n: fc.oneof(fc.integer({ min: 200, max: 300 }), fc.integer({ min: 0, max: 70000 }), fc.constantFrom(255, 256, 257, 65535, 65536, 65537, 300000)), k: fc.integer({ min: 0, max: 2 }), c: fc.integer({ min: 0, max: 255 }) });
/** Payloads no reader can make sense of (any other program may send them). */
export const arbBad: fc.Arbitrary<V> = fc.constantFrom('', '02', '027b', '02ff', '0222', '025b312c').filter(h => h !== '02').map(h => ({ t: 'bad' as const, h }));
const small = fc.integer({ min: 0, max: 3 });
export const arbNet = (slow = 200): fc.Arbitrary<Net> => fc.record({
  delay: fc.array(fc.oneof({ weight: 4, arbitrary: small }, { weight: 1, arbitrary: fc.integer({ min: 0, max: slow }) }), { maxLength: 6 }),
  cut: fc.oneof(fc.constant([] as number[]), fc.array(fc.oneof(fc.constant(0), fc.integer({ min: 1, max: 14 }), fc.integer({ min: 1, max: 4000 })), { maxLength: 6 })),
  gap: fc.array(small, { maxLength: 4 }),
  conn: fc.array(fc.integer({ min: 0, max: 60 }), { maxLength: 3 }),
  ack: fc.constant([] as number[]),
});
export const arbFault = (span: number) => fc.record({ at: fc.integer({ min: 0, max: span }), kind: fc.constantFrom('reset', 'close'), down: fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 8000 })) });
export type Fault = { at: number; kind: string; down: number };
export const quiet = { host: '127.0.0.1', port: 7654, logger: () => {} };
export function short(x: any): string { let s: string; try { s = Buffer.isBuffer(x) ? 'Buffer ' + x.subarray(0, 40).toString('hex') + ` (${x.length})` : typeof x === 'bigint' ? x + 'n' : JSON.stringify(x) ?? String(x); } catch { s = String(x); } return s.length > 160 ? s.slice(0, 160) + '…' : s; }
export const bump = (l: Record<string, number>, k: string, n = 1) => { if (n > 0) l[k] = (l[k] ?? 0) + n; };
