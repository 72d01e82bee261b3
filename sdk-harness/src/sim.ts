// Virtual time: replaces the global timers and clocks, so that a case is a pure function of its input.
export type Timer = { id: number; at: number; fn: (...a: any[]) => void; args: any[]; every?: number; sdk: boolean; ref: boolean };
const real = { setTimeout: globalThis.setTimeout, setInterval: globalThis.setInterval, clearTimeout: globalThis.clearTimeout, clearInterval: globalThis.clearInterval, setImmediate: globalThis.setImmediate, now: Date.now.bind(Date) };
export { real };
const EPOCH = 1_700_000_000_000;

export class Clock {
  now = 0;
  private seq = 1;
  private heap: Timer[] = [];
  timers = new Map<number, Timer>();
  add(fn: any, ms: number, args: any[], every: boolean, sdk: boolean): number {
    const d = Math.min(Math.max(Number(ms) || 0, 1), 2147483647);
    const t: Timer = { id: this.seq++, at: this.now + (sdk ? d : Math.max(Number(ms) || 0, 0)), fn, args, every: every ? d : undefined, sdk, ref: true };
    this.push(t);
    return t.id;
  }
  private push(t: Timer) {
    this.timers.set(t.id, t);
    const h = this.heap; h.push(t);
    let i = h.length - 1;
    while (i > 0) { const p = (i - 1) >> 1; if (this.less(h[i], h[p])) { [h[i], h[p]] = [h[p], h[i]]; i = p; } else break; }
  }
  private less(a: Timer, b: Timer) { return a.at < b.at || (a.at === b.at && a.id < b.id); }
  private pop(): Timer | undefined {
    const h = this.heap;
    const top = h[0]; const last = h.pop();
    if (top === undefined) return undefined;
    if (h.length > 0 && last !== top) {
      h[0] = last!; let i = 0;
      for (;;) { let m = i; const l = 2 * i + 1, r = l + 1; if (l < h.length && this.less(h[l], h[m])) m = l; if (r < h.length && this.less(h[r], h[m])) m = r; if (m === i) break; [h[i], h[m]] = [h[m], h[i]]; i = m; }
    }
    return top;
  }
  peek(): Timer | undefined {
    while (this.heap.length && this.timers.get(this.heap[0].id) !== this.heap[0]) this.pop();
    return this.heap[0];
  }
  clear(id: number) { this.timers.delete(id); }
  /** Fires the next timer (if due by `until`); false if there is none. */
  step(until: number): boolean {
    const t = this.peek();
    if (!t || t.at > until) { this.now = Math.max(this.now, until); return false; }
    this.pop();
    this.now = Math.max(this.now, t.at);
    if (t.every !== undefined) { this.timers.delete(t.id); const again = { ...t, at: this.now + t.every }; this.push(again); }
    else this.timers.delete(t.id);
    guard(() => t.fn(...t.args));
    return true;
  }
  /** Timers of the code under test that would keep a process alive. */
  alive(): number { let n = 0; for (const t of this.timers.values()) if (t.sdk && t.ref) n++; return n; }
}

export let clock = new Clock();
export const problems: string[] = [];
export function guard(f: () => void) {
  try { f(); } catch (e: any) { problems.push('an exception nobody handles (the program would end): ' + (e?.stack || e)); }
}
process.on('uncaughtException', (e: any) => { problems.push('an exception nobody handles (the program would end): ' + (e?.stack || e)); });
process.on('unhandledRejection', (e: any) => { problems.push('a rejection nobody handles (the program would end): ' + (e?.stack || e)); });

class Handle {
  constructor(public id: number, private c: Clock) {}
  ref() { const t = this.c.timers.get(this.id); if (t) t.ref = true; return this; }
  unref() { const t = this.c.timers.get(this.id); if (t) t.ref = false; return this; }
  hasRef() { return this.c.timers.get(this.id)?.ref ?? false; }
  refresh() { return this; }
  close() { this.c.clear(this.id); return this; }
  [Symbol.toPrimitive]() { return this.id; }
}
const clear = (h: any) => { if (h == null) return; if (h instanceof Handle) h.close(); else clock.clear(Number(h)); };
(globalThis as any).setTimeout = (fn: any, ms: any, ...a: any[]) => new Handle(clock.add(fn, ms, a, false, true), clock);
(globalThis as any).setInterval = (fn: any, ms: any, ...a: any[]) => new Handle(clock.add(fn, ms, a, true, true), clock);
(globalThis as any).clearTimeout = clear;
(globalThis as any).clearInterval = clear;
(Date as any).now = () => EPOCH + Math.floor(clock.now);
(performance as any).now = () => clock.now;

export function fresh() { clock = new Clock(); problems.length = 0; }
/** Lets everything that can run at this instant run. */
export async function settle() { for (let i = 0; i < 3; i++) await new Promise<void>(r => real.setImmediate(r)); }
/** A harness timer (not of the code under test). */
export function later(ms: number, fn: () => void): number { return clock.add(fn, ms, [], false, false); }
export async function run(ms: number) {
  const until = clock.now + ms;
  await settle();
  let n = 0;
  while (clock.step(until)) { await settle(); if (++n > 200_000) throw new Error('harness: too many timers'); if (problems.length) return; }
}
