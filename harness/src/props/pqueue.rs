//! C12: parallel queue clients: every message's life must be explainable, and the disk must agree with memory.
use crate::eng::*;
use crate::http::{enc, Http};
use crate::par::*;
use crate::runner::*;
use crate::sched;
use crate::sim::*;
use crate::wire::{op, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Pick { Own, Any(usize) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Push(u8), Consume(u64, u64), Ack(Pick), Nack(Pick), Move(Pick), Del(Pick), Purge }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round { clients: Vec<Vec<Op>>, jumps: Vec<(u32, u64)>, gap: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sch: Sch, vis: u64, max: u32, flush: u64, wbatch: u64, rounds: Vec<Round> }
pub struct C12;

#[derive(Clone, Debug)]
enum What { Push { m: usize, pri: u8 }, Take { ids: Vec<(u128, usize)>, want: u64, wait: u64 }, Ack(u128, bool), Nack(u128, bool), Move(u128, bool), Del(u128, bool), Purge(u32) }
/// `stall`: time may have passed while the client's thread was held up.
#[derive(Clone, Debug)]
struct Ev { what: What, a: u64, b: u64, ta: u64, tb: u64, who: usize, stall: bool }
const SLACK: u64 = 300;
const Q: &str = "q";

fn one(c: &Cl, clock: &Clock, pool: &Mutex<Vec<u128>>, own: &mut Vec<u128>, who: usize, o: &Op, id: usize) -> Result<Option<Ev>, String> {
    let pick = |p: &Pick, own: &Vec<u128>| -> Option<u128> {
        match p { Pick::Own => own.last().copied(), Pick::Any(k) => { let g = pool.lock().unwrap(); if g.is_empty() { None } else { Some(g[g.len() - 1 - k % g.len()]) } } }
    };
    let (a, ta) = (clock.tick(), now_ms());
    let done = |r: Reply, what: &str| match r { Reply::Ok => Ok(true), Reply::Err(_) => Ok(false), x => Err(format!("{what} answered {x:?}")) };
    let flag = |r: Reply, what: &str| match r { Reply::Data(d) if d == [0] => Ok(false), Reply::Data(d) if d == [1] => Ok(true), x => Err(format!("{what} answered {x:?}")) };
    let what = match o {
        Op::Push(pri) => {
            if !done(c.raw(op::Q_PUSH, Srv::q_push_payload(Q, Some(*pri), format!("m{id}").as_bytes())), "push")? { return Err("a push was refused".into()); }
            What::Push { m: id, pri: *pri }
        }
        Op::Consume(want, wait) => {
            let d = match c.raw(op::Q_CONSUME, Srv::q_consume_payload(Q, Some(*want), Some(*wait))) { Reply::Data(d) => d, x => return Err(format!("consume answered {x:?}")) };
            let mut ids = vec![];
            for m in parse_msgs(&d)? {
                let n = std::str::from_utf8(&m.payload).ok().and_then(|s| s.strip_prefix('m')).and_then(|s| s.parse().ok()).ok_or("a consumer received a payload nobody pushed")?;
                ids.push((m.id, n));
            }
            let mut g = pool.lock().unwrap();
            for (i, _) in &ids { own.push(*i); if !g.contains(i) { g.push(*i); } }
            What::Take { ids, want: *want, wait: *wait }
        }
        Op::Ack(p) => { let Some(i) = pick(p, own) else { return Ok(None) }; own.retain(|x| *x != i); What::Ack(i, done(c.raw(op::Q_ACK, W::new().raw(&i.to_be_bytes()).s(Q).0), "ack")?) }
        Op::Nack(p) => { let Some(i) = pick(p, own) else { return Ok(None) }; own.retain(|x| *x != i); What::Nack(i, done(c.raw(op::Q_NACK, W::new().raw(&i.to_be_bytes()).s(Q).s("no").0), "nack")?) }
        Op::Move(p) => { let Some(i) = pick(p, own) else { return Ok(None) }; What::Move(i, flag(c.raw(op::Q_MOVE, W::new().s(Q).raw(&i.to_be_bytes()).0), "replay")?) }
        Op::Del(p) => { let Some(i) = pick(p, own) else { return Ok(None) }; What::Del(i, flag(c.raw(op::Q_DELDLQ, W::new().s(Q).raw(&i.to_be_bytes()).0), "delete")?) }
        Op::Purge => match c.raw(op::Q_PURGE, W::new().s(Q).0) { Reply::Data(d) if d.len() == 4 => What::Purge(u32::from_be_bytes(d.try_into().unwrap())), x => return Err(format!("purge answered {x:?}")) },
    };
    Ok(Some(Ev { what, a, b: clock.tick(), ta, tb: now_ms(), who, stall: false }))
}

/// What one call did to one message.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act { Push, Take, Ack(bool), Nack(bool), Move(bool), Del(bool), Purge, Seen(Place, u32) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize)]
enum Place { None, Wait, Fly, Dlq }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct St { p: Place, n: u32, lo: u64, hi: u64, new: bool }
#[derive(Clone, Debug)]
struct Step { act: Act, a: u64, b: u64, ta: u64, tb: u64, who: usize }

/// Is there an order of these calls, with timeouts in between, that explains what they answered?
fn life(steps: &[Step], vis: u64, max: u32) -> bool {
    let n = steps.len();
    let failed = |s: St| if s.n >= max { St { p: Place::Dlq, ..s } } else { St { p: Place::Wait, ..s } };
    let mut seen: HashSet<(u64, St)> = HashSet::new();
    let mut stack = vec![(0u64, St { p: Place::None, n: 0, lo: 0, hi: 0, new: true })];
    while let Some((mask, st)) = stack.pop() {
        if !seen.insert((mask, st)) { continue; }
        if mask.count_ones() as usize == n { return true; }
        let first_end = (0..n).filter(|i| mask & (1 << i) == 0).map(|i| steps[i].b).min().unwrap();
        for (i, e) in steps.iter().enumerate() {
            if mask & (1 << i) != 0 || e.a > first_end { continue; }
            let mut froms = vec![];
            // a delivery may time out before this call, and must have if its time is long over
            if st.p == Place::Fly && e.tb >= st.lo { froms.push(failed(st)); }
            if st.p != Place::Fly || e.ta <= st.hi.saturating_add(SLACK) { froms.push(st); }
            for f in froms {
                let mut to: Vec<St> = vec![];
                let gone = St { p: Place::None, new: false, ..f };
                match (e.act, f.p) {
                    (Act::Push, Place::None) if f.new => to.push(St { p: Place::Wait, n: 0, lo: 0, hi: 0, new: false }),
                    (Act::Take, Place::Wait) => to.push(St { p: Place::Fly, n: f.n + 1, lo: e.ta.saturating_add(vis), hi: e.tb.saturating_add(vis).saturating_add(1), new: false }),
                    (Act::Ack(true), Place::Fly) => to.push(gone),
                    (Act::Ack(true), Place::Wait) if f.n > 0 => to.push(gone),
                    (Act::Ack(false), Place::Wait | Place::Dlq | Place::None) => to.push(f),
                    (Act::Nack(true), Place::Fly) => to.push(failed(f)),
                    (Act::Nack(true), Place::Wait) if f.n > 0 => to.push(failed(f)),
                    (Act::Nack(false), Place::Wait | Place::Dlq | Place::None) => to.push(f),
                    // a replayed message that was never delivered since
                    (Act::Ack(true), Place::Wait) => to.push(gone),
                    (Act::Nack(true), Place::Wait) => to.push(failed(f)),
                    (Act::Move(true), Place::Dlq) => to.push(St { p: Place::Wait, n: 0, ..f }),
                    (Act::Move(false), Place::Wait | Place::Fly | Place::None) => to.push(f),
                    (Act::Del(true), Place::Dlq) => to.push(gone),
                    (Act::Del(false), Place::Wait | Place::Fly | Place::None) => to.push(f),
                    (Act::Purge, Place::Dlq) => to.push(gone),
                    (Act::Purge, _) => to.push(f),
                    (Act::Seen(p, k), q) if p == q && (p == Place::None || k == f.n) => to.push(f),
                    _ => {}
                }
                for t in to { stack.push((mask | 1 << i, t)); }
            }
        }
    }
    false
}

/// A message as the dashboard and the dead-letter peek show it.
#[derive(Clone, Debug, PartialEq)]
struct Shown { m: usize, id: u128, place: Place, attempts: u32, pri: u8, reason: String }
async fn shown(s: &Srv, h: &Http) -> Result<Vec<Shown>, String> {
    let mut v = vec![];
    for (place, name) in [(Place::Wait, "pending"), (Place::Fly, "inflight")] {
        let j = h.json(&format!("/api/queue/{}/messages?state={name}&limit=1000", enc(Q))).await?;
        for x in j["messages"].as_array().ok_or("no message list")? {
            let m = x["payload"].as_str().and_then(|s| s.strip_prefix('m')).and_then(|s| s.parse().ok()).ok_or(format!("{name} message with foreign payload {}", x["payload"]))?;
            let id = x["id"].as_str().and_then(|s| uuid::Uuid::parse_str(s).ok()).ok_or("bad id")?.as_u128();
            v.push(Shown { m, id, place, attempts: x["attempts"].as_u64().unwrap_or(9999) as u32, pri: x["priority"].as_u64().unwrap_or(999) as u8, reason: String::new() });
        }
    }
    let (_, d) = s.q_peek(Q, u32::MAX, 0).await??;
    for x in d {
        let m = std::str::from_utf8(&x.payload).ok().and_then(|s| s.strip_prefix('m')).and_then(|s| s.parse().ok()).ok_or("a dead-lettered message with foreign payload")?;
        v.push(Shown { m, id: x.id, place: Place::Dlq, attempts: x.attempts, pri: 0, reason: x.reason });
    }
    Ok(v)
}

fn check(evs: &[Ev], end: &[Shown], vis: u64, max: u32, stop: u64, cx: &mut Cx) -> Result<(), String> {
    let mut id_of: HashMap<usize, u128> = HashMap::new();
    let mut learn = |m: usize, id: u128| -> Result<(), String> { if *id_of.entry(m).or_insert(id) != id { return Err(format!("message m{m} has two ids")); } Ok(()) };
    for e in evs { if let What::Take { ids, .. } = &e.what { for (i, m) in ids { learn(*m, *i)?; } } }
    for s in end { learn(s.m, s.id)?; }
    let mut at: BTreeMap<usize, Vec<Step>> = BTreeMap::new();
    let mut pri: HashMap<usize, u8> = HashMap::new();
    for e in evs { if let What::Push { m, pri: p } = e.what { at.insert(m, vec![]); pri.insert(m, p); } }
    let by_id: HashMap<u128, usize> = id_of.iter().map(|(m, i)| (*i, *m)).collect();
    if by_id.len() != id_of.len() { return Err("two messages share an id".into()); }
    for e in evs {
        let step = |act: Act| Step { act, a: e.a, b: e.b, ta: e.ta, tb: e.tb, who: e.who };
        let mut add = |i: &u128, act: Act| -> Result<(), String> { at.get_mut(by_id.get(i).ok_or("unknown id")?).ok_or("a message nobody pushed was delivered")?.push(step(act)); Ok(()) };
        match &e.what {
            What::Push { m, .. } => at.get_mut(m).unwrap().push(step(Act::Push)),
            What::Take { ids, .. } => for (i, _) in ids { add(i, Act::Take)?; },
            What::Ack(i, ok) => add(i, Act::Ack(*ok))?,
            What::Nack(i, ok) => add(i, Act::Nack(*ok))?,
            What::Move(i, ok) => add(i, Act::Move(*ok))?,
            What::Del(i, ok) => add(i, Act::Del(*ok))?,
            What::Purge(n) => for v in at.values_mut() { if *n > 0 { v.push(step(Act::Purge)); } },
        }
    }
    let mut purged = 0u32;
    for (m, v) in at.iter_mut() {
        let f: Vec<&Shown> = end.iter().filter(|s| s.m == *m).collect();
        if f.len() > 1 { return Err(format!("in the end m{m} is in {:?} at once", f.iter().map(|s| s.place).collect::<Vec<_>>())); }
        if let Some(s) = f.first() { if s.place != Place::Dlq && s.pri != pri[m] { return Err(format!("m{m} was pushed with priority {} and has {}", pri[m], s.pri)); } }
        let over = v.iter().any(|x| v.iter().any(|y| x.who != y.who && x.a < y.b && y.a < x.b));
        if over { cx.nontrivial = true; cx.label("overlap-on-message"); }
        if f.is_empty() && !v.iter().any(|s| matches!(s.act, Act::Ack(true) | Act::Del(true))) { purged += 1; }
        v.push(Step { act: match f.first() { None => Act::Seen(Place::None, 0), Some(s) => Act::Seen(s.place, s.attempts) }, a: u64::MAX - 1, b: u64::MAX, ta: stop, tb: stop, who: 99 });
        if v.len() > 40 { cx.label("long-history-skipped"); continue; }
        if !life(v, vis, max) {
            return Err(format!("nothing explains what happened to m{m} (visibility {vis} ms, {max} retries): {:?}", v.iter().map(|s| format!("client {} {:?} [{}..{}] {}..{} ms", s.who, s.act, s.a, s.b, s.ta, s.tb)).collect::<Vec<_>>()));
        }
    }
    if let Some(s) = end.iter().find(|s| !at.contains_key(&s.m)) { return Err(format!("m{} appeared without being pushed", s.m)); }
    let reported: u32 = evs.iter().map(|e| if let What::Purge(n) = e.what { n } else { 0 }).sum();
    if reported != purged { return Err(format!("purges reported {reported} removed messages, {purged} went away without ack or delete")); }
    // order between messages: only never delivered ones, by their push and first delivery
    struct Fresh { m: usize, pri: u8, pa: u64, pb: u64, ca: u64, cb: u64, pos: Option<usize> }
    let before = |y: &Fresh, x: &Fresh| y.cb < x.ca || y.ca == x.ca && matches!((y.pos, x.pos), (Some(p), Some(q)) if p < q);
    let mut fresh: Vec<Fresh> = vec![];
    for e in evs { if let What::Push { m, pri } = e.what {
        // the first delivery lies between the earliest start and the earliest end of a call that took the message
        let took: Vec<&Ev> = evs.iter().filter(|x| matches!(&x.what, What::Take { ids, .. } if ids.iter().any(|i| i.1 == m))).collect();
        let first = took.iter().min_by_key(|x| x.a);
        let cb = took.iter().map(|x| x.b).min().unwrap_or(u64::MAX);
        let pos = first.filter(|f| f.b == cb).map(|f| if let What::Take { ids, .. } = &f.what { ids.iter().position(|i| i.1 == m).unwrap() } else { 0 });
        fresh.push(Fresh { m, pri, pa: e.a, pb: e.b, ca: first.map_or(u64::MAX, |f| f.a), cb, pos });
    } }
    for x in &fresh { for y in &fresh {
        if x.m == y.m || y.ca == u64::MAX || x.pb >= y.pa && x.pri == y.pri { continue; }
        if x.pri == y.pri && before(y, x) { return Err(format!("m{} was pushed before m{} with the same priority {} and came out after it", x.m, y.m, x.pri)); }
        if x.pri > y.pri && x.pb < y.ca && before(y, x) { return Err(format!("m{} of priority {} was delivered while m{} of priority {} was waiting", y.m, y.pri, x.m, x.pri)); }
    } }
    for e in evs {
        let What::Take { ids, want, wait } = &e.what else { continue };
        if ids.len() as u64 > *want { return Err(format!("a consume of {want} returned {} messages", ids.len())); }
        if ids.is_empty() && e.tb + 1 < e.ta + wait { return Err(format!("a consume with {wait} ms to wait answered empty after {} ms: {e:?}", e.tb - e.ta)); }
        if !e.stall && e.tb > e.ta + wait + SLACK { return Err(format!("a consume with {wait} ms to wait answered after {} ms", e.tb - e.ta)); }
        if ids.len() as u64 == *want { continue; }
        // at some moment of the call (in the end of its waiting time) nothing was waiting
        let (mut a, b) = (e.a, e.b);
        if ids.is_empty() && *wait > 0 && !e.stall { a = evs.iter().filter(|x| x.tb + 1 < e.ta + wait).map(|x| x.b).max().unwrap_or(0).max(a); cx.label("waited-in-vain"); }
        if ids.is_empty() { cx.label("empty"); } else if e.tb > e.ta { cx.label("woken"); }
        let mut cover: Vec<(u64, u64)> = fresh.iter().filter(|f| f.pb <= a.max(f.pb) && f.ca != e.a).map(|f| (f.pb, f.ca)).filter(|(x, y)| x < y && *x < b && *y > a).collect();
        cover.sort();
        let mut at = a;
        for (x, y) in cover { if x > at { break; } at = at.max(y); }
        if at >= b { return Err(format!("client {}'s consume of {want} [{}..{}] {}..{} ms (wait {wait} ms) returned {} messages although messages were waiting all the time", e.who, e.a, e.b, e.ta, e.tb, ids.len())); }
    }
    Ok(())
}

impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "calls of two clients on the same message overlapped in time";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 12000 } else { 150_000 } }
    fn strategy(_t: Tier, _i: u64) -> BoxedStrategy<Case> {
        (sch(), prop_oneof![2 => Just(3_600_000u64), 3 => 20u64..900], 0u32..4, prop_oneof![Just(100u64), Just(20)], prop_oneof![2 => Just(50_000u64), 1 => 1u64..4], 2usize..5).prop_flat_map(|(sch, vis, max, flush, wbatch, clients)| {
            let pick = || prop_oneof![3 => Just(Pick::Own), 2 => (0usize..4).prop_map(Pick::Any)];
            let wait = prop_oneof![3 => Just(0u64), 2 => 1u64..400];
            let op = prop_oneof![7 => (0u8..2).prop_map(Op::Push), 8 => (prop_oneof![4 => Just(1u64), 2 => 2u64..4, 1 => Just(100)], wait).prop_map(|(b, w)| Op::Consume(b, w)), 4 => pick().prop_map(Op::Ack), 5 => pick().prop_map(Op::Nack), 3 => pick().prop_map(Op::Move), 1 => pick().prop_map(Op::Del), 1 => Just(Op::Purge)];
            let jump = (0u32..60, prop_oneof![1u64..60, 1u64..900]);
            let gap = prop_oneof![3 => Just(0u64), 2 => 1u64..200, 1 => 200u64..1500];
            let round = (proptest::collection::vec(proptest::collection::vec(op, 1..7), clients..=clients), proptest::collection::vec(jump, 0..3), gap).prop_map(|(clients, jumps, gap)| Round { clients, jumps, gap });
            proptest::collection::vec(round, 1..5).prop_map(move |rounds| Case { sch: sch.clone(), vis, max, flush, wbatch, rounds })
        }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        cfg.queue.default_flush_ms = case.flush;
        cfg.queue.writer_batch_size = case.wbatch as usize;
        let mut sim = Sim::new();
        let before = world(case.sch.seed as u64, cx, |cx| sim.run(async {
            let s = Srv::start(&cfg).await;
            s.q_create(Q, &QOpts { vis_ms: Some(case.vis), max_retries: Some(case.max) }).await??;
            let clock = Clock::default();
            let pool = Arc::new(Mutex::new(vec![]));
            let mut own: Vec<Vec<u128>> = vec![];
            let mut evs: Vec<Ev> = vec![];
            for (r, round) in case.rounds.iter().enumerate() {
                if round.gap > 0 { sleep_ms(round.gap).await; }
                own.resize(round.clients.len(), vec![]);
                let mut jobs: Vec<Job<Result<(Vec<Ev>, Vec<u128>), String>>> = vec![];
                for (w, ops) in round.clients.iter().enumerate() {
                    let (cl, clock, ops, pool, mut mine) = (Cl::new(&s, &format!("c{w}")), clock.clone(), ops.clone(), pool.clone(), own[w].clone());
                    jobs.push(Box::new(move || {
                        let mut v = vec![];
                        for (i, o) in ops.iter().enumerate() { v.extend(one(&cl, &clock, &pool, &mut mine, w, o, r * 1000 + w * 100 + i)?); }
                        Ok((v, mine))
                    }));
                }
                for (w, x) in par(case.sch.mean as u64, case.sch.freeze, jobs, &round.jumps).await?.into_iter().enumerate() { let (v, mine) = x?; evs.extend(v.into_iter().map(|e| Ev { stall: !round.jumps.is_empty(), ..e })); own[w] = mine; }
            }
            evs.sort_by_key(|e| e.a);
            sched::stop();
            let h = Http::start(&s).await;
            let a = shown(&s, &h).await?;
            check(&evs, &a, case.vis, case.max, now_ms(), cx)?;
            if case.vis < 100_000 { sleep_ms(case.vis + SLACK).await; } // nothing times out around the stop
            let mut last = vec![];
            for _ in 0..60 {
                let a = shown(&s, &h).await?;
                sleep_ms(case.flush + 120).await;
                let b = shown(&s, &h).await?;
                if a == b { return Ok(b); }
                last = b;
            }
            Ok::<_, String>(last)
        }))?;
        // what a restart brings back
        let after = sim.run(async {
            let s = Srv::start(&cfg).await;
            let h = Http::start(&s).await;
            shown(&s, &h).await
        })?;
        let key = |v: &[Shown]| { let mut k: Vec<String> = v.iter().map(|s| format!("m{} {:?} {} deliveries {}", s.m, s.place, s.attempts, s.reason)).collect(); k.sort(); k };
        let (x, y) = (key(&before), key(&after));
        if x != y { return Err(format!("after the restart the queue differs; only before: {:?}; only after: {:?}", x.iter().filter(|s| !y.contains(s)).collect::<Vec<_>>(), y.iter().filter(|s| !x.contains(s)).collect::<Vec<_>>())); }
        let ord = |v: &[Shown], d: bool| v.iter().filter(|s| if d { s.place == Place::Dlq } else { s.place == Place::Wait && s.attempts == 0 }).map(|s| s.m).collect::<Vec<_>>();
        for d in [false, true] { if ord(&before, d) != ord(&after, d) { return Err(format!("after the restart the order of {} messages differs: {:?} before, {:?} after", if d { "dead-lettered" } else { "waiting" }, ord(&before, d), ord(&after, d))); } }
        for p in [Place::Wait, Place::Fly, Place::Dlq] { if before.iter().any(|s| s.place == p) { cx.label(match p { Place::Wait => "restored-waiting", Place::Fly => "restored-inflight", _ => "restored-dead" }); } }
        Ok(())
    }
}
