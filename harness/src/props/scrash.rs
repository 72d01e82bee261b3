//! C18, C19: streams and group positions after crashes at generated disk writes, over several lives.
use super::gen::*;
use super::stream::{config, gname, now, tname, Cfg, UNLIMITED};
use crate::eng::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Create(usize), Delete(usize),
    Pub(usize, Pay), PubMany(usize, u8, u16, u32),
    Join(usize, usize), Fetch(usize, usize, u32), Ack(usize, usize, usize), AckAll(usize, usize), Drop(usize, usize), Seek(usize, usize, bool),
    Wait(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Life { ops: Vec<Op>, gaps: Vec<(u64, Option<u16>)>, pick: usize, down: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { topics: usize, groups: usize, cfg: Cfg, lives: Vec<Life> }

#[derive(Clone, Debug)]
struct Rec { payload: Vec<u8>, lo: u64, hi: u64 }
/// Floor, call that brought it about (`lo`, numbered) and the time that call ended (`hi`).
#[derive(Clone, Debug)]
struct Ver { floor: u64, lo: u64, hi: u64 }
#[derive(Clone, Debug, Default)]
struct Grp { next: u64, pend: BTreeSet<u64>, red: BTreeSet<u64>, vers: Vec<Ver>, made: u64, member: Option<(String, u64)> }
impl Grp {
    fn floor(&self) -> u64 { self.vers.last().unwrap().floor }
    fn set(&mut self, floor: u64, lo: u64) { self.vers.push(Ver { floor, lo, hi: now() }); }
    fn settle(&mut self, lo: u64) {
        let mut f = self.floor();
        while f + 1 < self.next && !self.pend.contains(&(f + 1)) && !self.red.contains(&(f + 1)) { f += 1; }
        if f != self.floor() { self.set(f, lo); }
    }
}
#[derive(Clone, Debug)]
struct Topic { recs: Vec<Rec>, groups: BTreeMap<usize, Grp> }
/// One name: the stream now, those before it (first and last call of their life), calls that create or delete.
#[derive(Clone, Debug, Default)]
struct Slot { cur: Option<Topic>, since: u64, old: Vec<(u64, u64, Topic)>, flux: Vec<u64> }
/// Where a crash hit: virtual time and number of the last call begun; whether that call had ended.
#[derive(Clone, Copy, Debug)]
struct At { vt: u64, call: u64, ended: bool }

struct Model<'a> { slots: Vec<Slot>, cfg: Cfg, groups: usize, call: u64, cx: &'a mut Cx }

async fn read_all(s: &Srv, t: &str) -> Result<Vec<SMsg>, String> {
    let mut v: Vec<SMsg> = vec![];
    for _ in 0..20_000 {
        let from = v.last().map_or(1, |m| m.seq + 1);
        let got = tokio::time::timeout(std::time::Duration::from_millis(ANSWER_MS), s.eng.stream.read(t, from, 500)).await.map_err(|_| format!("read of {t:?} from {from}: no answer"))?;
        if got.is_empty() { return Ok(v); }
        for m in got {
            if m.seq < from { return Err(format!("read of {t:?} from {from} returns seq {}", m.seq)); }
            v.push(SMsg { seq: m.seq, ts: m.timestamp, payload: m.payload.to_vec() });
        }
    }
    Err(format!("reading {t:?} never ends"))
}
async fn floors(s: &Srv, t: &str) -> Option<(u64, BTreeMap<String, u64>)> {
    s.eng.stream.get_snapshot().await.topics.into_iter().find(|x| x.name == t).map(|x| (x.last_seq, x.groups.into_iter().map(|g| (g.id, g.ack_floor)).collect()))
}

impl Model<'_> {
    /// A call begins.
    fn begin(&mut self) -> u64 { self.call += 1; ip::MARKS[0].store(self.call * 2, std::sync::atomic::Ordering::SeqCst); self.call }
    /// It was answered.
    fn end(&self) { ip::MARKS[0].store(self.call * 2 + 1, std::sync::atomic::Ordering::SeqCst); }
    fn quiet(&self) -> u64 { 12 * self.cfg.flush + 40 }
    async fn publish(&mut self, s: &Srv, at: &str, t: usize, b: Vec<u8>) -> Result<(), String> {
        let lo = self.begin();
        let r = s.s_pub(&tname(t), &b).await?;
        self.end();
        let Some(top) = &mut self.slots[t].cur else { return if r.is_ok() { Err(format!("{at}: publish to an absent stream confirmed")) } else { Ok(()) } };
        let n = r.map_err(|e| format!("{at}: publish refused: {e}"))?;
        top.recs.push(Rec { payload: b, lo, hi: now() });
        if n != top.recs.len() as u64 { return Err(format!("{at}: publish got seq {n}, expected {}", top.recs.len())); }
        self.cx.label("publish");
        Ok(())
    }
    async fn fetch(&mut self, s: &Srv, at: &str, t: usize, g: usize, limit: u32) -> Result<Vec<u64>, String> {
        let Some(gr) = self.slots[t].cur.as_mut().and_then(|x| x.groups.get_mut(&g)) else { return Ok(vec![]) };
        let Some((id, gen)) = gr.member.clone() else { return Ok(vec![]) };
        let r = s.s_fetch("c", &tname(t), &gname(g), &id, gen, limit, 0).await?.map_err(|e| format!("{at}: fetch refused: {e}"))?;
        let top = self.slots[t].cur.as_mut().unwrap();
        let gr = top.groups.get_mut(&g).unwrap();
        let mut v = vec![];
        for m in r {
            let what = format!("{at}: fetch for group {:?} delivers seq {}", gname(g), m.seq);
            let Some(rec) = top.recs.get((m.seq as usize).wrapping_sub(1)) else { return Err(format!("{what} of {}", top.recs.len())) };
            if rec.payload != m.payload { return Err(format!("{what} as {}, published was {}", short(&m.payload), short(&rec.payload))); }
            if gr.pend.contains(&m.seq) { return Err(format!("{what}, which is outstanding")); }
            if !gr.red.remove(&m.seq) {
                if m.seq != gr.next { return Err(format!("{what}, next is {}", gr.next)); }
                gr.next += 1;
            }
            gr.pend.insert(m.seq);
            v.push(m.seq);
        }
        Ok(v)
    }
    async fn ack(&mut self, s: &Srv, at: &str, t: usize, g: usize, seq: u64) -> Result<(), String> {
        let (id, gen) = self.slots[t].cur.as_ref().unwrap().groups[&g].member.clone().unwrap();
        let lo = self.begin();
        s.s_ack("c", &tname(t), &gname(g), &id, gen, seq).await?.map_err(|e| format!("{at}: ack of seq {seq} refused: {e}"))?;
        self.end();
        let gr = self.slots[t].cur.as_mut().unwrap().groups.get_mut(&g).unwrap();
        gr.pend.remove(&seq);
        gr.settle(lo);
        self.cx.label("ack");
        Ok(())
    }
    async fn join(&mut self, s: &Srv, at: &str, t: usize, g: usize) -> Result<(), String> {
        let lo = self.begin();
        let r = s.s_join("c", &gname(g), &tname(t)).await?;
        self.end();
        let Some(top) = &mut self.slots[t].cur else { return if r.is_ok() { Err(format!("{at}: join on an absent stream")) } else { Ok(()) } };
        let j = r.map_err(|e| format!("{at}: join refused: {e}"))?;
        let gr = top.groups.entry(g).or_insert_with(|| Grp { next: 1, made: now(), vers: vec![Ver { floor: 0, lo, hi: now() }], ..Default::default() });
        if j.floor != gr.floor() { return Err(format!("{at}: join of group {:?} reports ack floor {}, it is {}", gname(g), j.floor, gr.floor())); }
        if gr.member.is_none() { gr.member = Some((j.consumer, j.gen)); }
        Ok(())
    }
    async fn step(&mut self, s: &Srv, i: usize, o: &Op) -> Result<(), String> {
        let at = format!("op {i}");
        let at = at.as_str();
        match o {
            Op::Create(t) => {
                let lo = self.begin();
                if self.slots[*t].cur.is_none() { self.slots[*t].flux.push(lo); }
                s.s_create(&tname(*t), Some(0), Some(0)).await?.map_err(|e| format!("{at}: create refused: {e}"))?;
                self.end();
                if self.slots[*t].cur.is_none() { self.slots[*t].cur = Some(Topic { recs: vec![], groups: BTreeMap::new() }); self.slots[*t].since = lo; }
            }
            Op::Delete(t) => {
                let lo = self.begin();
                if self.slots[*t].cur.is_some() { self.slots[*t].flux.push(lo); }
                s.s_delete(&tname(*t)).await?.ok();
                self.end();
                let sl = &mut self.slots[*t];
                if let Some(top) = sl.cur.take() { sl.old.push((sl.since, lo, top)); self.cx.label("delete"); }
            }
            Op::Pub(t, b) => self.publish(s, at, *t, b.bytes()).await?,
            Op::PubMany(t, n, len, tag) => for j in 0..*n as u32 {
                let l = (*len as u32).wrapping_mul(1 + (tag >> (j % 7) & 3)) / 2;
                self.publish(s, at, *t, Pay::Run(tag.wrapping_add(j), l).bytes()).await?;
            },
            Op::Join(t, g) => self.join(s, at, *t, *g).await?,
            Op::Fetch(t, g, l) => { self.fetch(s, at, *t, *g, *l).await?; }
            Op::Ack(t, g, k) => {
                let v: Vec<u64> = self.slots[*t].cur.as_ref().and_then(|x| x.groups.get(g)).map_or(vec![], |g| g.pend.iter().copied().collect());
                if !v.is_empty() { self.ack(s, at, *t, *g, v[k % v.len()]).await?; }
            }
            Op::AckAll(t, g) => {
                let v: Vec<u64> = self.slots[*t].cur.as_ref().and_then(|x| x.groups.get(g)).map_or(vec![], |g| g.pend.iter().copied().collect());
                for q in v { self.ack(s, at, *t, *g, q).await?; }
            }
            Op::Drop(t, g) => {
                if let Some(gr) = self.slots[*t].cur.as_mut().and_then(|x| x.groups.get_mut(g)) {
                    if let Some((id, gen)) = gr.member.take() {
                        s.s_leave("c", &tname(*t), &gname(*g), &id, gen).await?.map_err(|e| format!("{at}: leave refused: {e}"))?;
                        let p = std::mem::take(&mut gr.pend);
                        gr.red.extend(p);
                    }
                }
            }
            Op::Seek(t, g, end) => {
                let lo = self.begin();
                let r = s.s_seek("c", &tname(*t), &gname(*g), *end).await?;
                self.end();
                if let Some(top) = &mut self.slots[*t].cur {
                    r.map_err(|e| format!("{at}: seek refused: {e}"))?;
                    let f = if *end { top.recs.len() as u64 } else { 0 };
                    let gr = top.groups.entry(*g).or_insert_with(|| Grp { next: 1, made: now(), vers: vec![Ver { floor: 0, lo, hi: now() }], ..Default::default() });
                    if gr.floor() > f { self.cx.label("seek-back"); }
                    gr.set(f, lo);
                    gr.next = f + 1;
                    gr.pend.clear();
                    gr.red.clear();
                    gr.member = None;
                }
            }
            Op::Wait(ms) => sleep_ms(*ms).await,
        }
        Ok(())
    }
    /// What a server started on an image taken at `vt` shows; the model becomes exactly that.
    async fn recovered(&mut self, s: &Srv, what: &str, p: At) -> Result<(), String> {
        let vt = p.vt;
        let flush = (self.cfg.flush + 20) * 1_000_000;
        let save = (10 * self.cfg.flush + 20) * 1_000_000;
        for t in 0..self.slots.len() {
            let name = tname(t);
            let what = format!("{what}: stream {name:?}");
            let there = s.s_exists(&name).await??;
            let snap = floors(s, &name).await;
            if snap.is_some() != there { return Err(format!("{what}: exists answers {there}, the listing {}", snap.is_some())); }
            if !p.ended && self.slots[t].flux.contains(&p.call) {
                // in the middle of a create or delete: anything may be left, but the name must be usable
                s.s_delete(&name).await?.map_err(|e| format!("{what}: delete refused: {e}"))?;
                s.s_create(&name, Some(0), Some(0)).await?.map_err(|e| format!("{what}: create refused: {e}"))?;
                self.slots[t] = Slot { cur: Some(Topic { recs: vec![], groups: BTreeMap::new() }), ..Default::default() };
                self.cx.label("recovered-flux");
                continue;
            }
            let sl = std::mem::take(&mut self.slots[t]);
            self.slots[t].cur = match sl.old.into_iter().find(|o| o.0 <= p.call && p.call < o.1) { Some(o) => Some(o.2), None => sl.cur.filter(|_| sl.since <= p.call) };
            let Some(top) = self.slots[t].cur.as_mut() else {
                if there { return Err(format!("{what} was deleted before, now it exists")); }
                continue;
            };
            let Some((last, groups)) = snap else { return Err(format!("{what} is gone")) };
            // the log
            let got = read_all(s, &name).await.map_err(|e| format!("{what}: {e}"))?;
            for (k, m) in got.iter().enumerate() {
                if m.seq != k as u64 + 1 { return Err(format!("{what}: seq {} where {} belongs", m.seq, k + 1)); }
                match top.recs.get(k) {
                    Some(r) if r.lo <= p.call => if r.payload != m.payload { return Err(format!("{what}: seq {} is {}, published was {}", m.seq, short(&m.payload), short(&r.payload))) },
                    _ => return Err(format!("{what}: seq {} was never published", m.seq)),
                }
            }
            let n = got.len();
            if last != n as u64 { return Err(format!("{what}: {n} messages can be read, the last sequence number shown is {last}")); }
            if let Some(r) = top.recs.get(n).filter(|r| r.lo <= p.call) {
                if r.hi.saturating_add(flush) <= vt { return Err(format!("{what}: seq {} of {} is lost although it was confirmed {} ms before the crash", n + 1, top.recs.len(), (vt - r.hi) / 1_000_000)); }
                self.cx.label("tail-lost");
            }
            if n > 0 { self.cx.label("recovered-log"); }
            for r in &mut top.recs { r.lo = 0; r.hi = 0; }
            top.recs.truncate(n);
            // group positions
            for (id, f) in &groups {
                let Some(g) = (0..self.groups).find(|g| gname(*g) == *id) else { return Err(format!("{what}: unknown group {id:?}")) };
                let Some(gr) = top.groups.get_mut(&g) else { return Err(format!("{what}: group {id:?} was never used")) };
                let mut ok: Vec<u64> = vec![];
                for (k, v) in gr.vers.iter().enumerate() {
                    let until = gr.vers.get(k + 1).map_or(u64::MAX, |v| v.hi);
                    if v.lo <= p.call && until.saturating_add(save) >= vt { ok.push(v.floor.min(n as u64)); if v.floor > n as u64 { self.cx.label("floor-beyond-log"); } }
                }
                if !ok.contains(f) { return Err(format!("{what}: group {id:?} resumes after seq {f}; within the save interval before the crash it stood at {ok:?} (log up to {n})")); }
                if *f > 0 { self.cx.label("recovered-floor"); }
                if ok.len() > 1 { self.cx.label("floor-in-window"); }
                let made = 0;
                *gr = Grp { next: f + 1, made, vers: vec![Ver { floor: *f, lo: 0, hi: 0 }], ..Default::default() };
            }
            let lost: Vec<usize> = top.groups.keys().copied().filter(|g| !groups.contains_key(&gname(*g))).collect();
            for g in lost {
                let gr = top.groups.remove(&g).unwrap();
                if gr.made.saturating_add(save) <= vt { return Err(format!("{what}: group {:?} is gone; it was made {} ms before the crash and stood at {}", gname(g), (vt - gr.made) / 1_000_000, gr.floor())); }
                self.cx.label("young-group-lost");
            }
        }
        Ok(())
    }
    /// New publishes and all groups work on.
    async fn go_on(&mut self, s: &Srv, what: &str) -> Result<(), String> {
        for t in 0..self.slots.len() {
            if self.slots[t].cur.is_none() { continue; }
            let at = format!("{what}: stream {:?}", tname(t));
            self.publish(s, &at, t, Pay::Run(77 + t as u32, 40).bytes()).await?;
            for g in self.slots[t].cur.as_ref().unwrap().groups.keys().copied().collect::<Vec<_>>() {
                self.join(s, &at, t, g).await?;
                let mut empty = 0;
                for _ in 0..10_000 {
                    let v = self.fetch(s, &at, t, g, 7).await?;
                    if v.is_empty() { empty += 1; if empty > 1 { break; } }
                    for q in v { self.ack(s, &at, t, g, q).await?; }
                }
                let (last, gr) = { let x = self.slots[t].cur.as_ref().unwrap(); (x.recs.len() as u64, &x.groups[&g]) };
                if gr.next != last + 1 { return Err(format!("{at}: group {:?} gets nothing more at seq {}, published are {last}", gname(g), gr.next)); }
                self.cx.label("group-resumed");
            }
            self.publish(s, &at, t, Pay::Run(78 + t as u32, 3).bytes()).await?;
        }
        Ok(())
    }
}

fn sub<'b>(m: &Model, cx: &'b mut Cx) -> Model<'b> { Model { slots: m.slots.clone(), cfg: m.cfg.clone(), groups: m.groups, call: m.call, cx } }

pub fn history(case: &Case, cx: &mut Cx) -> Result<(), String> {
    let root = cx.root.clone();
    let mut sub_cx = Cx { root: root.clone(), ..Default::default() };
    let mut m = Model { slots: vec![Slot::default(); case.topics], cfg: case.cfg.clone(), groups: case.groups, call: 0, cx };
    let mut sim = Sim::new();
    let mut from = At { vt: 0, call: 0, ended: true };
    for (k, life) in case.lives.iter().enumerate() {
        let dir = format!("{root}/life{k}");
        let cfg = config(&case.cfg, &dir, &root);
        let first = k == 0;
        sim.run(async {
            let s = Srv::start(&cfg).await;
            settle().await;
            if first { for t in 0..case.topics { m.step(&s, t, &Op::Create(t)).await?; } } else { m.recovered(&s, &format!("life {k}"), from).await?; }
            ip::fs_crash_points(&dir, &format!("{root}/snap{k}-"), life.gaps.clone());
            for (i, o) in life.ops.iter().enumerate() { m.step(&s, i, o).await?; }
            sleep_ms(case.cfg.flush + 20).await;
            Ok::<_, String>(())
        })?;
        let end = sim.vt;
        ip::unhooked(|| ip::image(&dir, &format!("{root}/end{k}")));
        let (snaps, total) = ip::fs_take_snaps();
        m.cx.add("disk-writes", total);
        let mut pts: Vec<(String, At, String)> = snaps.iter().map(|sn| {
            m.cx.label("crash-point");
            if sn.torn { m.cx.label("torn-write"); }
            (sn.dir.clone(), At { vt: sn.vt, call: sn.marks[0] / 2, ended: sn.marks[0] % 2 == 1 }, format!("life {k}, crash at disk write {} ({} {}{}, {} ms), down {} ms", sn.at_write, sn.op, sn.path.trim_start_matches(&dir), if sn.torn { ", torn" } else { "" }, sn.vt / 1_000_000, life.down))
        }).collect();
        pts.push((format!("{root}/end{k}"), At { vt: end, call: m.call, ended: true }, format!("life {k}, crash at the end ({} ms)", end / 1_000_000)));
        let next = life.pick % pts.len();
        for (j, (d, vt, what)) in pts.iter().enumerate() {
            if j == next && k + 1 < case.lives.len() { continue; }
            let mut p = sub(&m, &mut sub_cx);
            let mut s2 = Sim::at(vt.vt);
            s2.down(life.down);
            let cfg = config(&case.cfg, d, &root);
            let (q, d2) = (p.quiet(), format!("{d}x"));
            let before = s2.run(async {
                let s = Srv::start(&cfg).await;
                settle().await;
                p.recovered(&s, what, *vt).await?;
                p.go_on(&s, what).await?;
                sleep_ms(q).await;
                ip::image(d, &d2);
                Ok::<_, String>(At { vt: now(), call: p.call, ended: true })
            })?;
            // and once more, quietly
            let cfg = config(&case.cfg, &d2, &root);
            s2.run(async {
                let s = Srv::start(&cfg).await;
                settle().await;
                let want: Vec<_> = p.slots.iter().map(|s| s.cur.as_ref().map(|t| t.recs.len())).collect();
                p.recovered(&s, &format!("{what}, used on, restarted"), before).await?;
                let got: Vec<_> = p.slots.iter().map(|s| s.cur.as_ref().map(|t| t.recs.len())).collect();
                if want != got { return Err(format!("{what}, used on, restarted: {got:?} messages of {want:?}")); }
                p.go_on(&s, &format!("{what}, used on, restarted")).await
            })?;
            for x in [d, &d2] { let _ = ip::unhooked(|| std::fs::remove_dir_all(x)); }
        }
        if k + 1 < case.lives.len() {
            ip::unhooked(|| std::fs::rename(&pts[next].0, format!("{root}/life{}", k + 1))).map_err(|e| format!("harness: {e}"))?;
            from = pts[next].1;
            sim = Sim::at(from.vt);
            sim.down(life.down);
            m.cx.label("next-life");
        }
    }
    for (l, n) in sub_cx.labels { m.cx.add(&l, n); }
    Ok(())
}

fn op(nt: usize, ng: usize, w: [u32; 6]) -> BoxedStrategy<Op> {
    let [admin, publ, fetch, ack, seek, wait] = w;
    pick_one(vec![
        (admin, (0..nt).prop_map(Op::Create).boxed()),
        (admin, (0..nt).prop_map(Op::Delete).boxed()),
        (publ, (0..nt, pay()).prop_map(|(t, p)| Op::Pub(t, p)).boxed()),
        (publ, (0..nt, 1u8..20, prop_oneof![4 => 0u16..40, 4 => 40u16..300, 1 => 3000u16..9000], any::<u32>()).prop_map(|(t, n, l, x)| Op::PubMany(t, n, l, x)).boxed()),
        (fetch, (0..nt, 0..ng).prop_map(|(t, g)| Op::Join(t, g)).boxed()),
        (fetch * 2, (0..nt, 0..ng, 1u32..12).prop_map(|(t, g, l)| Op::Fetch(t, g, l)).boxed()),
        (ack, (0..nt, 0..ng, 0usize..64).prop_map(|(t, g, k)| Op::Ack(t, g, k)).boxed()),
        (ack, (0..nt, 0..ng).prop_map(|(t, g)| Op::AckAll(t, g)).boxed()),
        (fetch / 4, (0..nt, 0..ng).prop_map(|(t, g)| Op::Drop(t, g)).boxed()),
        (seek, (0..nt, 0..ng, any::<bool>()).prop_map(|(t, g, e)| Op::Seek(t, g, e)).boxed()),
        (wait, prop_oneof![3 => 1u64..30, 3 => 30u64..300, 1 => 300u64..3000].prop_map(Op::Wait).boxed()),
    ])
}
fn case(i: u64, w: [u32; 6]) -> BoxedStrategy<Case> {
    let len = if i % 8 == 0 { 90usize } else { 30 };
    let cfg = (prop_oneof![Just(10u64), Just(50), Just(100)], prop_oneof![4 => 30u64..600, 2 => 600u64..6000, 1 => Just(100_000_000u64)], prop_oneof![Just(1usize), Just(2), Just(256)], prop_oneof![Just(0usize), 1usize..12, Just(1000)], prop_oneof![Just(20u64), Just(500)])
        .prop_map(|(flush, seg, files, ram, evict)| Cfg { flush, seg, files, ram, evict, map: 10_000, ack_wait: 1 << 40, maxdel: 1000, rchk: UNLIMITED, age: 1 << 50, bytes: 1 << 50 });
    (1usize..4, 1usize..3, cfg).prop_flat_map(move |(topics, groups, cfg)| {
        let torn = || prop_oneof![1 => Just(None), 1 => any::<u16>().prop_map(Some)];
        let gaps = (prop_oneof![1 => 0u64..6, 2 => 6u64..60], torn(), proptest::collection::vec((prop_oneof![2 => 0u64..3, 3 => 3u64..30], torn()), 0..5)).prop_map(|(a, b, mut v)| { v.insert(0, (a, b)); v });
        let life = (proptest::collection::vec(op(topics, groups, w), 1..len), gaps, any::<usize>(), prop_oneof![Just(0u64), 1u64..5000]).prop_map(|(ops, gaps, pick, down)| Life { ops, gaps, pick, down });
        (Just(topics), Just(groups), Just(cfg), proptest::collection::vec(life, 1..4))
    }).prop_map(|(topics, groups, cfg, lives)| Case { topics, groups, cfg, lives }).boxed()
}

pub struct C18;
impl Prop for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "a crash hit a disk write with messages not yet on disk (part of the tail was lost), and a further life continued from a crash image";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 100_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 12, 2, 2, 0, 8]) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, cx)?;
        cx.nontrivial = cx.has("tail-lost") && cx.has("recovered-log") && cx.has("next-life");
        Ok(())
    }
}
pub struct C19;
impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "a group was recovered at a position above zero at a crash point inside the save interval of another position";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 100_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 5, 8, 10, 2, 9]) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, cx)?;
        cx.nontrivial = cx.has("recovered-floor") && cx.has("floor-in-window");
        Ok(())
    }
}
