import * as fs from 'fs';
import * as path from 'path';
import { spawn, ChildProcess } from 'child_process';
import { createHash } from 'crypto';
import fc from 'fast-check';
import { real, problems } from './sim';
import { Prop, Out } from './common';
import { c29 } from './c29';
import { c30 } from './c30';
import { c31 } from './c31';
import { c32 } from './c32';
import { c33 } from './c33';
const PROPS: Record<string, Prop> = Object.fromEntries([c29, c30, c31, c32, c33].map(p => [p.id, p]));
const V = process.env.PBT_VERIF || '/verif';
const sleep = (ms: number) => new Promise<void>(r => real.setTimeout(r, ms));
const hash = (s: string) => createHash('sha256').update(s).digest('hex').slice(0, 16);
type WOut = { evaluations: number; nontrivial: number; distinct: string[]; labels: Record<string, [number, number]>; samples: any[]; violation?: { case: any; msg: string }; known: string[]; error?: string; shrinks: number; stopped: boolean };

function known(id: string): string[] {
  let t = ''; try { t = fs.readFileSync(path.join(V, 'known_findings.txt'), 'utf8'); } catch { }
  return t.split('\n').filter(x => x.startsWith(`open: property=${id} `)).map(x => x.slice(`open: property=${id} `.length).trim());
}
async function one(p: Prop, c: any): Promise<Out> {
  const o = await p.run(c);
  if (!o.fail && problems.length) o.fail = problems[0];
  return o;
}
async function worker(p: Prop, seed: number, w: number, n: number, dir: string, deadline: number) {
  const o: WOut = { evaluations: 0, nontrivial: 0, distinct: [], labels: {}, samples: [], known: [], shrinks: 0, stopped: false };
  const seen = new Set<string>(), ks = known(p.id), cur = path.join(dir, `w${w}.case`);
  let failing = false, shrinkEnd = 0, last: { case: any; msg: string } | undefined;
  try {
    const r = await fc.check(fc.asyncProperty(p.arb, async c => {
      if (failing) { if (++o.shrinks > 3000 || real.now() > shrinkEnd) return; }
      else if (o.stopped || real.now() > deadline || (o.evaluations % 64 === 0 && fs.existsSync(path.join(dir, 'stop')))) { o.stopped = true; return; }
      const js = JSON.stringify(c);
      fs.writeFileSync(cur, js);
      const r = await one(p, c);
      if (!failing) {
        o.evaluations++;
        for (const [k, v] of Object.entries(r.labels)) { const e = (o.labels[k] ??= [0, 0]); e[0]++; e[1] += v; }
        if (r.nontrivial) { o.nontrivial++; seen.add(hash(js)); if (o.samples.length < 1) o.samples.push({ case: js.length > 1500 ? js.slice(0, 1500) + '...' : js, labels: r.labels }); }
      }
      if (r.fail) {
        const k = ks.find(k => r.fail!.includes(k.split(' -- ')[0]));
        if (k) { if (!o.known.includes(k)) o.known.push(k); return; }
        if (!failing) { failing = true; shrinkEnd = real.now() + 60000; fs.writeFileSync(path.join(dir, 'stop'), ''); }
        last = { case: JSON.parse(js), msg: r.fail };
        throw new Error(r.fail);
      }
    }), { seed: (seed * 1000003 + w * 7919) | 0, numRuns: n });
    if (r.failed && last) o.violation = last;
    else if (r.failed) o.error = String(r.errorInstance ?? 'fast-check failed');
  } catch (e: any) { o.error = 'harness: ' + (e?.stack || e); }
  o.distinct = [...seen];
  fs.writeFileSync(path.join(dir, `w${w}.out`), JSON.stringify(o));
  process.exit(0);
}
async function check(p: Prop, tier: string): Promise<number> {
  const t0 = real.now(), seed = Number(process.env.VERIF_SEED || 1) || 1;
  const dir = fs.mkdtempSync(path.join(fs.existsSync('/dev/shm') ? '/dev/shm' : '/tmp', 'nexo-sdk-'));
  const nw = Number(process.env.PBT_WORKERS || 8), total = Number(process.env.PBT_CASES || (tier === 'quick' ? p.quick : p.thorough));
  const deadline = t0 + (tier === 'quick' ? 400e3 : 3 * 3600e3);
  const all: WOut = { evaluations: 0, nontrivial: 0, distinct: [], labels: {}, samples: [], known: [], shrinks: 0, stopped: false };
  const distinct = new Set<string>();
  try {
    const kids: { p: ChildProcess; w: number; code: number | null | undefined; sig?: string | null }[] = [];
    for (let w = 0; w < nw; w++) {
      const k = { p: spawn(process.execPath, ['--max-old-space-size=2000', process.argv[1], 'worker', p.id, String(seed), String(w), String(Math.ceil(total / nw)), dir, String(deadline)], { stdio: ['ignore', 'ignore', 'pipe'] }), w, code: undefined as any, sig: undefined as any };
      let err = ''; k.p.stderr!.on('data', (d: Buffer) => { if (err.length < 4000) err += d; (k as any).err = err; });
      k.p.on('exit', (c, s) => { k.code = c; k.sig = s; });
      kids.push(k);
    }
    const seenAt: number[] = [], before: string[] = [];
    for (;;) {
      await sleep(200);
      let busy = false;
      for (const k of kids) {
        if (k.code !== undefined) continue;
        busy = true;
        let m = ''; try { const s = fs.statSync(path.join(dir, `w${k.w}.case`)); m = `${s.mtimeMs}/${s.size}`; } catch { }
        if (m !== before[k.w]) { before[k.w] = m; seenAt[k.w] = real.now(); }
        else if (real.now() - seenAt[k.w] > 40e3) { (k as any).stuck = true; k.p.kill('SIGKILL'); }
      }
      if (!busy) break;
    }
    for (const k of kids) {
      let o: WOut | null = null; try { o = JSON.parse(fs.readFileSync(path.join(dir, `w${k.w}.out`), 'utf8')); } catch { }
      if (!o) {
        let c: any = null; try { c = JSON.parse(fs.readFileSync(path.join(dir, `w${k.w}.case`), 'utf8')); } catch { }
        const why = (k as any).stuck ? 'the client never came to rest (busy for 40 s of real time)' : `the client's process ended (${k.sig || k.code}) ${((k as any).err || '').split('\n').filter((x: string) => /Error|FATAL/.test(x)).slice(0, 2).join(' ')}`;
        if (c && !all.violation && ((k as any).stuck || /heap|memory/i.test((k as any).err || ''))) all.violation = { case: c, msg: why };
        else if (!all.violation && !all.error) all.error = 'worker: ' + why + ' ' + ((k as any).err || '').slice(0, 1500);
        continue;
      }
      all.evaluations += o.evaluations; all.nontrivial += o.nontrivial; all.shrinks += o.shrinks; all.stopped ||= o.stopped;
      for (const d of o.distinct) distinct.add(d);
      for (const [n, [a, b]] of Object.entries(o.labels)) { const e = (all.labels[n] ??= [0, 0]); e[0] += a; e[1] += b; }
      if (all.samples.length < 5) all.samples.push(...o.samples);
      for (const x of o.known) if (!all.known.includes(x)) all.known.push(x);
      if (o.violation && (!all.violation || JSON.stringify(o.violation.case).length < JSON.stringify(all.violation.case).length)) all.violation = o.violation;
      if (o.error) all.error ??= o.error;
    }
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  const wall = (real.now() - t0) / 1000;
  const dist = Object.fromEntries(Object.entries(all.labels).sort().map(([k, [c, t]]) => [k, { cases: c, total: t }]));
  fs.mkdirSync(path.join(V, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(V, 'evidence', p.id + '.json'), JSON.stringify({ property: p.id, tier, seed, level: 'exploration', coverage: { evaluations: all.evaluations, distinct_nontrivial: distinct.size, rule: p.rule, samples: all.samples, distribution: dist, nontrivial: all.nontrivial, planned: total, shrink_evaluations: all.shrinks, cut_short: all.stopped, note: p.note }, wall_s: wall }, null, 1));
  console.log(`${p.id}: ${all.evaluations} cases, ${distinct.size} distinct non-trivial, ${wall.toFixed(1)} s`);
  if (process.env.PBT_STATS) for (const [k, v] of Object.entries(dist)) console.log(`   ${k.padEnd(40)} cases ${String(v.cases).padStart(6)} total ${String(v.total).padStart(8)}`);
  for (const k of all.known) console.log(`KNOWN-FINDING: property=${p.id} ${k}`);
  if (all.violation) {
    fs.mkdirSync(path.join(V, 'replays'), { recursive: true });
    const f = path.join(V, 'replays', `${p.id}-${hash(JSON.stringify(all.violation.case))}.json`);
    fs.writeFileSync(f, JSON.stringify({ property: p.id, message: all.violation.msg, case: all.violation.case }, null, 1));
    console.log(all.violation.msg);
    console.log(`VIOLATION property=${p.id} replay=${f}`);
    return 1;
  }
  if (all.error) { console.log(`ERROR ${p.id}: ${all.error}`); return 3; }
  return 0;
}
async function main() {
  const [cmd, a, b] = process.argv.slice(2);
  if (cmd === 'worker') { const x = process.argv.slice(3); return worker(PROPS[x[0]], Number(x[1]), Number(x[2]), Number(x[3]), x[4], Number(x[5])); }
  if (cmd === 'check' && PROPS[a]) process.exit(await check(PROPS[a], b === 'thorough' ? 'thorough' : 'quick'));
  if (cmd === 'replay') {
    const v = JSON.parse(fs.readFileSync(a, 'utf8')), o = await one(PROPS[v.property], v.case);
    console.log(`${v.property}: ${o.fail ? 'violation ' + o.fail : 'ok'}`); if (process.env.PBT_STATS) console.log(o.labels);
    process.exit(o.fail ? 1 : 0);
  }
  console.error('usage: check ID [quick|thorough] | replay FILE'); process.exit(2);
}
main();
