//! C21: parallel publishers, readers and group consumers of streams.
use crate::eng::*;
use crate::par::*;
use crate::runner::*;
use crate::sched;
use crate::sim::*;
use crate::wire::{op, Rd, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Pub(usize, u16), Read(usize, u64, u32), Join(usize), Leave, Gone, Fetch(u32, u32), Ack(bool, usize), Seek(usize, bool) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round { clients: Vec<Vec<Op>>, jumps: Vec<(u32, u64)>, gap: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sch: Sch, flush: u64, evict: u64, soft: usize, seg: u64, files: usize, max_pending: usize, ack_wait: u64, joined: u8, warm: u8, rounds: Vec<Round> }
pub struct C21;

const T: [&str; 3] = ["s0", "s1", "s2"];
const G: [&str; 2] = ["g0", "g1"];
const SLACK: u64 = 300;

#[derive(Clone, Debug)]
enum What {
    Pub { t: usize, id: usize, seq: u64 },
    Read { t: usize, from: u64, limit: u32, got: Vec<SMsg> },
    Join { g: usize, j: Joined },
    /// the membership ended
    End { consumer: String },
    Fetch { g: usize, consumer: String, gen: u64, limit: u32, wait: u32, got: Result<Vec<SMsg>, String> },
    Ack { g: usize, consumer: String, seq: u64, ok: Result<(), String> },
    Seek { g: usize },
}
#[derive(Clone, Debug)]
struct Ev { what: What, a: u64, b: u64, ta: u64, tb: u64, who: usize, stall: bool }
/// What a client remembers between rounds.
#[derive(Clone, Default)]
struct Mine { member: Option<(usize, Joined)>, held: Vec<u64>, inc: usize }

type Pool = Arc<Mutex<Vec<u64>>>;
fn one(s: &Srv, clock: &Clock, pool: &Pool, me: &mut Mine, who: usize, o: &Op, id: usize) -> Result<Option<Ev>, String> {
    let cl = Cl::new(s, &format!("c{who}-{}", me.inc));
    let (a, ta) = (clock.tick(), now_ms());
    let what = match o {
        Op::Pub(t, pad) => {
            let mut p = format!("{id}.").into_bytes();
            p.resize(p.len() + *pad as usize, b'x');
            match cl.raw(op::S_PUB, W::new().s(T[*t]).raw(&p).0) {
                Reply::Data(d) => { let mut r = Rd::new(&d); let seq = r.u64()?; r.end()?; What::Pub { t: *t, id, seq } }
                x => return Err(format!("publish answered {x:?}")),
            }
        }
        Op::Read(t, from, limit) => {
            let got = block_on(s.eng.stream.read(T[*t], *from, *limit as usize));
            What::Read { t: *t, from: *from, limit: *limit, got: got.into_iter().map(|m| SMsg { seq: m.seq, ts: m.timestamp, payload: m.payload.to_vec() }).collect() }
        }
        Op::Join(g) => {
            if me.member.is_some() { return Ok(None); }
            match cl.raw(op::S_JOIN, W::new().s(G[*g]).s(T[0]).0) {
                Reply::Data(d) => { let mut r = Rd::new(&d); let j = Joined { floor: r.u64()?, gen: r.u64()?, consumer: r.string()? }; r.end()?; me.member = Some((*g, j.clone())); What::Join { g: *g, j } }
                x => return Err(format!("join answered {x:?}")),
            }
        }
        Op::Leave => {
            let Some((g, j)) = me.member.take() else { return Ok(None) };
            me.held.clear();
            match cl.raw(op::S_LEAVE, W::new().s(T[0]).s(G[g]).s(&j.consumer).u64(j.gen).0) { Reply::Ok => {} Reply::Err(e) if e.contains("FENCED") => {} x => return Err(format!("leave answered {x:?}")) }
            What::End { consumer: j.consumer }
        }
        Op::Gone => {
            block_on(s.disconnect(&cl.id));
            me.inc += 1;
            me.held.clear();
            let Some((_, j)) = me.member.take() else { return Ok(None) };
            What::End { consumer: j.consumer }
        }
        Op::Fetch(limit, wait) => {
            let Some((g, j)) = me.member.clone() else { return Ok(None) };
            let got = match cl.raw(op::S_FETCH, Srv::fetch_payload(T[0], G[g], &j.consumer, j.gen, *limit, *wait)) { Reply::Data(d) => Ok(parse_smsgs(&d)?), Reply::Err(e) => Err(e), x => return Err(format!("fetch answered {x:?}")) };
            if let Ok(v) = &got { let mut p = pool.lock().unwrap(); for m in v { p.push(m.seq); me.held.push(m.seq); } }
            What::Fetch { g, consumer: j.consumer, gen: j.gen, limit: *limit, wait: *wait, got }
        }
        Op::Ack(own, k) => {
            let Some((g, j)) = me.member.clone() else { return Ok(None) };
            let seq = if *own { if me.held.is_empty() { return Ok(None); } let i = k % me.held.len(); me.held.remove(i) } else { let p = pool.lock().unwrap(); if p.is_empty() { return Ok(None); } p[p.len() - 1 - k % p.len()] };
            let ok = match cl.raw(op::S_ACK, W::new().s(T[0]).s(G[g]).s(&j.consumer).u64(j.gen).u64(seq).0) { Reply::Ok => Ok(()), Reply::Err(e) => Err(e), x => return Err(format!("ack answered {x:?}")) };
            What::Ack { g, consumer: j.consumer, seq, ok }
        }
        Op::Seek(g, end) => match cl.raw(op::S_SEEK, W::new().s(T[0]).s(G[*g]).u8(*end as u8).0) { Reply::Ok => What::Seek { g: *g }, x => return Err(format!("seek answered {x:?}")) },
    };
    Ok(Some(Ev { what, a, b: clock.tick(), ta, tb: now_ms(), who, stall: false }))
}
fn id_of(m: &SMsg) -> Option<usize> { let s = std::str::from_utf8(&m.payload).ok()?; let (n, x) = s.split_once('.')?; if x.bytes().all(|c| c == b'x') { n.parse().ok() } else { None } }

async fn whole(s: &Srv, t: &str) -> Result<Vec<SMsg>, String> {
    let (mut v, mut from): (Vec<SMsg>, u64) = (vec![], 1);
    for _ in 0..1000 {
        let got = tokio::time::timeout(std::time::Duration::from_millis(ANSWER_MS), s.eng.stream.read(t, from, 64)).await.map_err(|_| format!("read of {t} from {from}: no answer"))?;
        let Some(l) = got.last() else { break };
        if l.seq < from { return Err(format!("reading {t} from {from} returned records up to {}", l.seq)); }
        from = l.seq + 1;
        v.extend(got.into_iter().map(|m| SMsg { seq: m.seq, ts: m.timestamp, payload: m.payload.to_vec() }));
    }
    Ok(v)
}

/// Where each record is: (topic, sequence number) -> (message, time stamp).
type Log = BTreeMap<(usize, u64), (usize, Option<u64>)>;
fn record(log: &mut Log, t: usize, m: &SMsg, at: &str) -> Result<(), String> {
    let id = id_of(m).ok_or_else(|| format!("{at}: record {} of {} has bytes nobody published ({})", m.seq, T[t], String::from_utf8_lossy(&m.payload).chars().take(40).collect::<String>()))?;
    match log.get_mut(&(t, m.seq)) {
        None => Err(format!("{at}: record {} of {} (message {id}), but no publish was confirmed with that number", m.seq, T[t])),
        Some((i, _)) if *i != id => Err(format!("{at}: record {} of {} is message {id}; its publisher was told message {i} has that number", m.seq, T[t])),
        Some((_, ts)) => match ts { None => { *ts = Some(m.ts); Ok(()) } Some(x) if *x == m.ts => Ok(()), Some(x) => Err(format!("{at}: record {} of {} has time stamp {} and had {x}", m.seq, T[t], m.ts)) },
    }
}

fn check(evs: &[Ev], log: &mut Log, case: &Case, cx: &mut Cx) -> Result<(), String> {
    let over = |x: &Ev, y: &Ev| x.who != y.who && x.a < y.b && y.a < x.b;
    for t in 0..T.len() {
        let mut ps: Vec<(&Ev, u64, usize)> = evs.iter().filter_map(|e| if let What::Pub { t: u, seq, id } = e.what { (u == t).then_some((e, seq, id)) } else { None }).collect();
        ps.sort_by_key(|p| p.1);
        for (k, (_, seq, id)) in ps.iter().enumerate() {
            if *seq != k as u64 + 1 { return Err(format!("{}: the {} confirmed publishes got the numbers {:?}", T[t], ps.len(), ps.iter().map(|p| p.1).collect::<Vec<_>>())); }
            log.insert((t, *seq), (*id, None));
        }
        for w in ps.windows(2) { if over(w[0].0, w[1].0) { cx.nontrivial = true; cx.label("publishes-overlap"); } }
        let mut latest = 0;
        for (e, seq, id) in &ps { if e.b < latest { return Err(format!("{}: message {id} got number {seq} although a publish that started after it was confirmed got a lower one", T[t])); } latest = latest.max(e.a); }
    }
    for e in evs {
        match &e.what {
            What::Read { t, from, limit, got } => {
                let at = format!("client {} reading {} from {from} limit {limit}", e.who, T[*t]);
                if got.len() > *limit as usize { return Err(format!("{at}: {} records", got.len())); }
                for (k, m) in got.iter().enumerate() {
                    if m.seq != from.max(&1) + k as u64 { return Err(format!("{at}: returned numbers {:?}", got.iter().map(|m| m.seq).collect::<Vec<_>>())); }
                    record(log, *t, m, &at)?;
                }
                let there = evs.iter().any(|p| matches!(p.what, What::Pub { t: u, seq, .. } if u == *t && seq == *from.max(&1)) && p.b < e.a);
                if there && got.is_empty() && *limit > 0 { return Err(format!("{at}: nothing, although record {from} was confirmed before")); }
                if there { cx.label("read"); }
                if evs.iter().any(|p| matches!(p.what, What::Pub { t: u, .. } if u == *t) && over(p, e)) { cx.label("read-overlaps-publish"); }
            }
            What::Fetch { g, got: Ok(got), limit, .. } => {
                let at = format!("client {} fetching of {}", e.who, G[*g]);
                if got.len() > *limit as usize { return Err(format!("{at}: {} records for limit {limit}", got.len())); }
                let mut seen = HashSet::new();
                for m in got { record(log, 0, m, &at)?; if !seen.insert(m.seq) { return Err(format!("{at}: record {} twice in one answer", m.seq)); } }
            }
            _ => {}
        }
    }
    for g in 0..G.len() { group(evs, g, case, cx)?; }
    Ok(())
}

fn group(evs: &[Ev], g: usize, case: &Case, cx: &mut Cx) -> Result<(), String> {
    let seeks: Vec<&Ev> = evs.iter().filter(|e| matches!(e.what, What::Seek { g: h } if h == g)).collect();
    let joins: HashMap<&str, &Ev> = evs.iter().filter_map(|e| match &e.what { What::Join { g: h, j } if *h == g => Some((j.consumer.as_str(), e)), _ => None }).collect();
    let ends: HashMap<&str, &Ev> = evs.iter().filter_map(|e| match &e.what { What::End { consumer } => Some((consumer.as_str(), e)), _ => None }).collect();
    // (delivery, consumer, seq), (ack, consumer, seq)
    let mut dels: Vec<(&Ev, &str, u64)> = vec![];
    let mut acks: Vec<(&Ev, &str, u64, bool)> = vec![];
    for e in evs {
        match &e.what {
            What::Fetch { g: h, consumer, got, .. } if *h == g => {
                let fenced = seeks.iter().any(|s| s.a > joins[consumer.as_str()].b && s.b < e.a);
                if fenced { cx.label("fetch-after-seek"); }
                match got {
                    Ok(v) => {
                        if fenced && !v.is_empty() { return Err(format!("client {} received records {:?} of {} with a membership from before a seek", e.who, v.iter().map(|m| m.seq).collect::<Vec<_>>(), G[g])); }
                        for m in v { dels.push((e, consumer, m.seq)); }
                    }
                    Err(x) => if !seeks.iter().any(|s| s.b > joins[consumer.as_str()].a && s.a < e.b) { return Err(format!("client {}'s fetch of {} was refused: {x}", e.who, G[g])); }
                }
            }
            What::Ack { g: h, consumer, seq, ok } if *h == g => {
                if ok.is_ok() && seeks.iter().any(|s| s.a > joins[consumer.as_str()].b && s.b < e.a) { return Err(format!("client {}'s ack of {seq} was accepted with a membership from before a seek", e.who)); }
                acks.push((e, consumer, *seq, ok.is_ok()));
            }
            _ => {}
        }
    }
    if !seeks.is_empty() { cx.label("seek"); return Ok(()); }
    // may the holder of d have lost the record before e ended?
    let free = |d: &(&Ev, &str, u64), e: &Ev| ends.get(d.1).is_some_and(|x| x.a < e.b) || d.0.ta.saturating_add(case.ack_wait) <= e.tb;
    let mut by: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (i, d) in dels.iter().enumerate() { by.entry(d.2).or_default().push(i); }
    for (seq, is) in &by {
        for (k, i) in is.iter().enumerate() { for j in &is[k + 1..] {
            let (x, y) = (&dels[*i], &dels[*j]);
            cx.label("redelivered");
            let fwd = x.0.a < y.0.b && free(x, y.0);
            let back = y.0.a < x.0.b && free(y, x.0);
            if !fwd && !back { return Err(format!("record {seq} was handed to client {} [{}..{}] {}..{} ms and to client {} [{}..{}] {}..{} ms of {} at once", x.0.who, x.0.a, x.0.b, x.0.ta, x.0.tb, y.0.who, y.0.a, y.0.b, y.0.ta, y.0.tb, G[g])); }
        } }
    }
    for (e, c, seq, ok) in &acks {
        let mine: Vec<&(&Ev, &str, u64)> = dels.iter().filter(|d| d.2 == *seq && d.1 == *c).collect();
        if *ok {
            if !mine.iter().any(|d| d.0.a < e.b) { return Err(format!("client {}'s ack of {seq} was accepted although it was never handed that record", e.who)); }
            if let Some(d) = dels.iter().find(|d| d.2 == *seq && d.0.a > e.b) { return Err(format!("record {seq} of {} was handed to client {} after its ack was confirmed", G[g], d.0.who)); }
            if acks.iter().filter(|x| x.2 == *seq && x.3).count() > 1 { return Err(format!("record {seq} of {} was acknowledged twice", G[g])); }
        } else if mine.iter().any(|d| d.0.b < e.a && d.0.ta.saturating_add(case.ack_wait) > e.tb.saturating_add(1)) && !acks.iter().any(|x| x.2 == *seq && x.3) {
            return Err(format!("client {} holds record {seq} of {} and its ack was refused", e.who, G[g]));
        }
    }
    // too much handed out?
    let end = evs.iter().map(|e| e.tb).max().unwrap_or(0);
    let held: BTreeSet<u64> = dels.iter().filter(|d| !ends.contains_key(d.1) && d.0.ta.saturating_add(case.ack_wait) > end && !acks.iter().any(|x| x.2 == d.2 && x.3)).map(|d| d.2).collect();
    if held.len() > case.max_pending { return Err(format!("{} records of {} are out, {} are allowed", held.len(), G[g], case.max_pending)); }
    // waited in vain?
    for e in evs {
        let What::Fetch { g: h, got: Ok(v), wait, limit, .. } = &e.what else { continue };
        if *h != g || !v.is_empty() || *wait == 0 || *limit == 0 || e.stall { continue; }
        if e.tb > e.ta + *wait as u64 + SLACK { return Err(format!("client {}'s fetch of {} with {wait} ms to wait was answered after {} ms", e.who, G[g], e.tb - e.ta)); }
        if e.tb + 1 < e.ta + *wait as u64 { cx.label("fetch-cut-short"); continue; }
        cx.label("waited-in-vain");
        for p in evs {
            let What::Pub { t: 0, seq, .. } = p.what else { continue };
            if p.tb + SLACK < e.tb && p.tb > e.ta && !dels.iter().any(|d| d.2 == seq && d.0.a < e.b) { return Err(format!("client {}'s fetch of {} waited {wait} ms in vain although record {seq} was published {} ms before and nobody had it", e.who, G[g], e.tb - p.tb)); }
        }
    }
    if dels.iter().any(|x| dels.iter().any(|y| over2(x.0, y.0))) { cx.nontrivial = true; cx.label("fetches-overlap"); }
    Ok(())
}
fn over2(x: &Ev, y: &Ev) -> bool { x.who != y.who && x.a < y.b && y.a < x.b }

impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "two publishes to one stream, or two fetches of one group that handed out records, overlapped in time";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 8000 } else { 150_000 } }
    fn strategy(_t: Tier, _i: u64) -> BoxedStrategy<Case> {
        let conf = (prop_oneof![Just(20u64), Just(50)], prop_oneof![Just(10u64), Just(500)], prop_oneof![2 => Just(10_000usize), 1 => Just(0usize), 3 => 1usize..6], prop_oneof![2 => Just(1u64 << 20), 3 => 30u64..200], prop_oneof![Just(50usize), Just(1)],
            prop_oneof![3 => Just(1000usize), 2 => 1usize..5], prop_oneof![3 => Just(3_600_000u64), 1 => 300u64..1500], prop_oneof![Just(0u8), Just(15), any::<u8>()], prop_oneof![Just(0u8), 1u8..9]);
        (sch(), conf, 2usize..5, 1usize..=T.len(), prop_oneof![4 => Just(0u32), 1 => Just(1)]).prop_flat_map(|(sch, (flush, evict, soft, seg, files, max_pending, ack_wait, joined, warm), clients, nt, seek)| {
            let pad = prop_oneof![5 => 0u16..20, 1 => 0u16..300];
            let wait = prop_oneof![2 => Just(0u32), 2 => 1u32..900];
            let limit = prop_oneof![3 => Just(1u32), 3 => 2u32..5, 2 => Just(100u32)];
            let op = prop_oneof![9 => (0..nt, pad).prop_map(|(t, p)| Op::Pub(t, p)), 4 => (0..nt, prop_oneof![Just(1u64), 1u64..12], limit.clone()).prop_map(|(t, f, l)| Op::Read(t, f, l)), 3 => (0..G.len()).prop_map(|g| Op::Join(g / 2)), 1 => (0..G.len()).prop_map(Op::Join),
                1 => Just(Op::Leave), 1 => Just(Op::Gone), 9 => (limit, wait).prop_map(|(l, w)| Op::Fetch(l, w)), 5 => (proptest::bool::weighted(0.8), 0usize..6).prop_map(|(o, k)| Op::Ack(o, k)), seek => (0..G.len(), any::<bool>()).prop_map(|(g, e)| Op::Seek(g, e))];
            let jump = (0u32..60, prop_oneof![1u64..60, 1u64..700]);
            let gap = prop_oneof![2 => Just(0u64), 3 => 1u64..200, 1 => 200u64..2500];
            let round = (proptest::collection::vec(proptest::collection::vec(op, 1..8), clients..=clients), prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(jump, 1..4)], gap).prop_map(|(clients, jumps, gap)| Round { clients, jumps, gap });
            proptest::collection::vec(round, 1..6).prop_map(move |rounds| Case { sch: sch.clone(), flush, evict, soft, seg, files, max_pending, ack_wait, joined, warm, rounds })
        }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        let c = &mut cfg.stream;
        (c.default_flush_ms, c.eviction_interval_ms, c.ram_soft_limit, c.max_segment_size, c.max_open_files) = (case.flush, case.evict, case.soft, case.seg, case.files);
        (c.max_ack_pending, c.ack_wait_ms, c.max_deliveries, c.default_retention_age_ms, c.default_retention_bytes) = (case.max_pending, case.ack_wait, 1_000_000, 1 << 40, 1 << 40);
        let mut sim = Sim::new();
        let (mut log, floors) = world(case.sch.seed as u64, cx, |cx| sim.run(async {
            let s = Srv::start(&cfg).await;
            for t in T { s.s_create(t, None, None).await??; }
            let clock = Clock::default();
            let pools: Vec<Pool> = vec![Pool::default(), Pool::default()];
            let mut mine: Vec<Mine> = vec![];
            let mut evs: Vec<Ev> = vec![];
            // nobody joins a group that does not exist yet at the first record: make both now
            for g in G { let j = s.s_join("first", g, T[0]).await??; s.s_leave("first", T[0], g, &j.consumer, j.gen).await??; }
            mine.resize(case.rounds[0].clients.len(), Mine::default());
            for (w, m) in mine.iter_mut().enumerate() { if case.joined >> w & 1 == 1 { evs.extend(one(&s, &clock, &pools[0], m, w, &Op::Join(0), 0)?); } }
            for i in 0..case.warm { evs.extend(one(&s, &clock, &pools[0], &mut Mine::default(), 50, &Op::Pub(0, 5), 900_000 + i as usize)?); }
            for (r, round) in case.rounds.iter().enumerate() {
                if round.gap > 0 { sleep_ms(round.gap).await; }
                mine.resize(round.clients.len(), Mine::default());
                let mut jobs: Vec<Job<Result<(Vec<Ev>, Mine), String>>> = vec![];
                for (w, ops) in round.clients.iter().enumerate() {
                    let (s, clock, ops, pools, mut me) = (s.clone(), clock.clone(), ops.clone(), pools.clone(), mine[w].clone());
                    jobs.push(Box::new(move || {
                        let mut v = vec![];
                        for (i, o) in ops.iter().enumerate() { let p = pools[me.member.as_ref().map_or(0, |m| m.0)].clone(); v.extend(one(&s, &clock, &p, &mut me, w, o, r * 1000 + w * 100 + i)?); }
                        Ok((v, me))
                    }));
                }
                for (w, x) in par(case.sch.mean as u64, case.sch.freeze, jobs, &round.jumps).await?.into_iter().enumerate() { let (v, m) = x?; evs.extend(v.into_iter().map(|e| Ev { stall: !round.jumps.is_empty(), ..e })); mine[w] = m; }
            }
            evs.sort_by_key(|e| e.a);
            sched::stop();
            let mut log = Log::new();
            check(&evs, &mut log, case, cx)?;
            // the log as it is now
            let n: Vec<u64> = (0..T.len()).map(|t| evs.iter().filter(|e| matches!(e.what, What::Pub { t: u, .. } if u == t)).count() as u64).collect();
            for (t, name) in T.iter().enumerate() {
                let v = whole(&s, name).await?;
                for m in &v { record(&mut log, t, m, "in the end")?; }
                if v.iter().map(|m| m.seq).collect::<Vec<_>>() != (1..=n[t]).collect::<Vec<_>>() { return Err(format!("{name} has records {:?}, {} were confirmed", v.iter().map(|m| m.seq).collect::<Vec<_>>(), n[t])); }
            }
            // everybody leaves, one consumer takes what is left
            for (w, m) in mine.iter().enumerate() { s.disconnect(&format!("c{w}-{}", m.inc)).await; }
            let mut floors = vec![];
            for (g, name) in G.iter().enumerate() {
                let seek = evs.iter().any(|e| matches!(e.what, What::Seek { g: h } if h == g));
                if seek { s.s_seek("drain", T[0], name, false).await??; }
                let done: BTreeSet<u64> = evs.iter().filter_map(|e| match &e.what { What::Ack { g: h, seq, ok: Ok(()), .. } if *h == g && !seek => Some(*seq), _ => None }).collect();
                let j = s.s_join("drain", name, T[0]).await??;
                let want = (1..).take_while(|q| done.contains(q)).count() as u64;
                if j.floor != want { return Err(format!("{name} has position {}, acknowledged were {done:?}", j.floor)); }
                let mut rest = BTreeSet::new();
                for _ in 0..10_000 {
                    let v = s.s_fetch("drain", T[0], name, &j.consumer, j.gen, 7, 0).await??;
                    if v.is_empty() { break; }
                    for m in v {
                        record(&mut log, 0, &m, "the last consumer")?;
                        if done.contains(&m.seq) { return Err(format!("record {} of {name} was handed out after its ack was confirmed", m.seq)); }
                        if !rest.insert(m.seq) { return Err(format!("record {} of {name} was handed to the last consumer twice", m.seq)); }
                        s.s_ack("drain", T[0], name, &j.consumer, j.gen, m.seq).await?.map_err(|e| format!("the last consumer's ack of {} was refused: {e}", m.seq))?;
                    }
                }
                let miss: Vec<u64> = (1..=n[0]).filter(|q| !done.contains(q) && !rest.contains(q)).collect();
                if !miss.is_empty() { return Err(format!("{name} never hands out records {miss:?} of {} (acknowledged {done:?}, handed to the last consumer {rest:?})", n[0])); }
                if !rest.is_empty() { cx.label("drained"); }
                s.disconnect("drain").await;
                floors.push(n[0]);
            }
            sleep_ms(case.flush * 25 + 100).await;
            Ok::<_, String>((log, floors))
        }))?;
        sim.run(async {
            let s = Srv::start(&cfg).await;
            for (t, name) in T.iter().enumerate() {
                let v = whole(&s, name).await?;
                for m in &v { record(&mut log, t, m, "after the restart")?; }
                let n = log.keys().filter(|k| k.0 == t).count() as u64;
                if v.iter().map(|m| m.seq).collect::<Vec<_>>() != (1..=n).collect::<Vec<_>>() { return Err(format!("after the restart {name} has records {:?}, {n} were confirmed", v.iter().map(|m| m.seq).collect::<Vec<_>>())); }
            }
            for (g, name) in G.iter().enumerate() {
                let j = s.s_join("again", name, T[0]).await??;
                if j.floor != floors[g] { return Err(format!("after the restart {name} has position {}, all {} records were acknowledged", j.floor, floors[g])); }
            }
            Ok(())
        })
    }
}
