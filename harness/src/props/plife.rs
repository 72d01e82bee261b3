//! C28: queues and streams created, deleted and used by several clients at once.
use crate::eng::*;
use crate::par::*;
use crate::runner::*;
use crate::sched;
use crate::sim::*;
use crate::wire::{op, Rd, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Create(usize, u8), Delete(usize), Put(usize), Get(usize, u32), Join(usize, u8), Exists(usize) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round { clients: Vec<Vec<Op>>, gap: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sch: Sch, stream: bool, flush: u64, rounds: Vec<Round> }
pub struct C28;

const N: [&str; 2] = ["a", "b"];

/// An object as clients can see it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Ob { setting: u64, log: Vec<usize>, gone: BTreeSet<usize>, groups: BTreeSet<u8> }
type St = Option<Ob>;

#[derive(Clone, Debug)]
enum What { Create(u64), Delete, Put(usize, Result<u64, String>), Get(u32, Result<Vec<usize>, String>), Join(u8, bool), Exists(bool), Is(St) }
#[derive(Clone, Debug)]
struct Ev { k: usize, what: What, a: u64, b: u64, who: usize }

/// The state after the operation, if it can have been answered like this in this state.
fn apply(stream: bool, s: &St, e: &What) -> Option<St> {
    match e {
        What::Create(x) => Some(Some(s.clone().unwrap_or(Ob { setting: *x, ..Ob::default() }))),
        What::Delete => Some(None),
        What::Put(id, r) => match (s, r) {
            (Some(o), Ok(q)) => { if stream && *q != o.log.len() as u64 + 1 { return None; } let mut o = o.clone(); o.log.push(*id); Some(Some(o)) }
            (None, Err(_)) => Some(None),
            _ => None,
        },
        What::Get(n, r) => match (s, r) {
            (Some(o), Ok(v)) if stream => (v[..] == o.log[..o.log.len().min(*n as usize)]).then(|| s.clone()),
            (None, Ok(v)) if stream => v.is_empty().then_some(None),
            (Some(o), Ok(v)) => {
                let want: Vec<usize> = o.log.iter().filter(|i| !o.gone.contains(i)).take(*n as usize).cloned().collect();
                if *v != want { return None; }
                let mut o = o.clone();
                o.gone.extend(v.iter().cloned());
                Some(Some(o))
            }
            (None, Err(_)) => Some(None),
            _ => None,
        },
        What::Join(g, ok) => match (s, ok) { (Some(o), true) => { let mut o = o.clone(); o.groups.insert(*g); Some(Some(o)) } (None, false) => Some(None), _ => None },
        What::Exists(_) => Some(s.clone()),
        What::Is(x) => (x == s).then(|| s.clone()),
    }
}
/// Some order of the operations, each between its begin and its end, explains all answers.
fn explain(stream: bool, first: &St, evs: &[Ev]) -> bool {
    fn go(stream: bool, s: &St, evs: &[Ev], done: u32, seen: &mut HashSet<(u32, St)>) -> bool {
        if done == (1 << evs.len()) - 1 { return true; }
        if !seen.insert((done, s.clone())) { return false; }
        let lim = evs.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.b).min().unwrap();
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 1 || e.a > lim { continue; }
            if let Some(n) = apply(stream, s, &e.what) { if go(stream, &n, evs, done | 1 << i, seen) { return true; } }
        }
        false
    }
    go(stream, first, evs, 0, &mut HashSet::new())
}

fn one(s: &Srv, stream: bool, clock: &Clock, who: usize, o: &Op, id: usize) -> Result<Ev, String> {
    let cl = Cl::new(s, &format!("c{who}"));
    let a = clock.tick();
    let k = match o { Op::Create(k, _) | Op::Delete(k) | Op::Put(k) | Op::Get(k, _) | Op::Join(k, _) | Op::Exists(k) => *k };
    let n = N[k];
    let body = format!("{id}").into_bytes();
    let what = match o {
        Op::Create(_, x) => { let x = *x as u64 + 1_000_000; match if stream { cl.raw(op::S_CREATE, Srv::s_create_payload(n, None, Some(x))) } else { cl.raw(op::Q_CREATE, Srv::q_create_payload(n, &QOpts { vis_ms: Some(x * 1000), max_retries: None })) } { Reply::Ok => What::Create(x), r => return Err(format!("create answered {r:?}")) } }
        Op::Delete(_) => match cl.raw(if stream { op::S_DELETE } else { op::Q_DELETE }, W::new().s(n).0) { Reply::Ok => What::Delete, r => return Err(format!("delete answered {r:?}")) },
        Op::Put(_) => What::Put(id, if stream { match cl.raw(op::S_PUB, W::new().s(n).raw(&body).0) { Reply::Data(d) => { let mut r = Rd::new(&d); Ok(r.u64()?) } Reply::Err(e) => Err(e), r => return Err(format!("publish answered {r:?}")) } } else { match cl.raw(op::Q_PUSH, Srv::q_push_payload(n, None, &body)) { Reply::Ok => Ok(0), Reply::Err(e) => Err(e), r => return Err(format!("push answered {r:?}")) } }),
        Op::Get(_, c) => What::Get(*c, if stream { ids(block_on(s.eng.stream.read(n, 1, *c as usize)).iter().map(|m| m.payload.to_vec())).map(Ok)? } else { match cl.raw(op::Q_CONSUME, Srv::q_consume_payload(n, Some(*c as u64), Some(0))) { Reply::Data(d) => Ok(ids(parse_msgs(&d)?.into_iter().map(|m| m.payload))?), Reply::Err(e) => Err(e), r => return Err(format!("consume answered {r:?}")) } }),
        Op::Join(_, g) => What::Join(*g, match cl.raw(op::S_JOIN, W::new().s(&format!("g{g}")).s(n).0) { Reply::Data(_) => true, Reply::Err(_) => false, r => return Err(format!("join answered {r:?}")) }),
        Op::Exists(_) => What::Exists(match cl.raw(if stream { op::S_EXISTS } else { op::Q_EXISTS }, W::new().s(n).0) { Reply::Ok | Reply::Data(_) => true, Reply::Null | Reply::Err(_) => false }),
    };
    Ok(Ev { k, what, a, b: clock.tick(), who })
}
fn ids(v: impl Iterator<Item = Vec<u8>>) -> Result<Vec<usize>, String> { v.map(|b| std::str::from_utf8(&b).ok().and_then(|s| s.parse().ok()).ok_or("a record has bytes nobody sent".to_string())).collect() }

/// The object now; what consumers hold is not visible.
async fn look(s: &Srv, stream: bool, k: usize) -> Result<Option<(u64, Vec<usize>, BTreeSet<u8>)>, String> {
    let n = N[k];
    if stream {
        let sn = s.eng.stream.get_snapshot().await;
        let Some(t) = sn.topics.iter().find(|t| t.name == n) else { return Ok(None) };
        let log = ids(s.eng.stream.read(n, 1, 10_000).await.iter().map(|m| m.payload.to_vec()))?;
        if t.last_seq != log.len() as u64 { return Err(format!("stream {n} says its last number is {} and has {} records", t.last_seq, log.len())); }
        Ok(Some((t.config.retention.max_bytes.unwrap_or(0), log, t.groups.iter().map(|g| g.id[1..].parse().unwrap_or(99)).collect())))
    } else {
        let sn = s.eng.queue.get_snapshot().await;
        let Some(q) = sn.iter().find(|q| q.name == n) else { return Ok(None) };
        let (_, ms) = s.eng.queue.get_messages(n.to_string(), "pending".into(), 0, 10_000, None).await.ok_or(format!("queue {n} is listed and has no messages page"))?;
        Ok(Some((q.config.visibility_timeout_ms / 1000, ids(ms.iter().map(|m| m.payload.to_vec()))?, BTreeSet::new())))
    }
}

impl Prop for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "a create or a delete overlapped another operation on the same object that changed or read it";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 14000 } else { 150_000 } }
    fn strategy(_t: Tier, i: u64) -> BoxedStrategy<Case> {
        let stream = i % 3 != 0;
        (sch(), prop_oneof![Just(20u64), Just(50)], 2usize..5, prop_oneof![3 => Just(1usize), 1 => Just(2)]).prop_flat_map(move |(sch, flush, clients, nn)| {
            let k = move || 0..nn;
            let op = super::gen::pick_one(vec![(4, (k(), 0u8..4).prop_map(|(k, x)| Op::Create(k, x)).boxed()), (4, k().prop_map(Op::Delete).boxed()), (6, k().prop_map(Op::Put).boxed()), (3, (k(), prop_oneof![Just(1u32), Just(100)]).prop_map(|(k, c)| Op::Get(k, c)).boxed()), (if stream { 2 } else { 0 }, (k(), 0u8..3).prop_map(|(k, g)| Op::Join(k, g)).boxed()), (1, k().prop_map(Op::Exists).boxed())]);
            let gap = prop_oneof![2 => Just(0u64), 2 => 1u64..200, 1 => 200u64..1500];
            let par = (proptest::collection::vec(proptest::collection::vec(op.clone(), 1..4), clients..=clients), gap.clone()).prop_map(|(clients, gap)| Round { clients, gap });
            let pre = (proptest::collection::vec(prop_oneof![2 => k().prop_map(Op::Put), 1 => op], 0..6), gap).prop_map(|(mut v, gap)| { v.insert(0, Op::Create(0, 9)); Round { clients: vec![v], gap } });
            proptest::collection::vec((pre, par), 1..5).prop_map(move |v| Case { sch: sch.clone(), stream, flush, rounds: v.into_iter().flat_map(|(a, b)| [a, b]).collect() })
        }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        (cfg.stream.default_flush_ms, cfg.queue.default_flush_ms) = (case.flush, case.flush);
        let stream = case.stream;
        let mut sim = Sim::new();
        let left = world(case.sch.seed as u64, cx, |cx| sim.run(async {
            let s = Srv::start(&cfg).await;
            let clock = Clock::default();
            let mut now: Vec<St> = vec![None; N.len()];
            for (r, round) in case.rounds.iter().enumerate() {
                if round.gap > 0 { sleep_ms(round.gap).await; }
                let mut jobs: Vec<Job<Result<Vec<Ev>, String>>> = vec![];
                for (w, ops) in round.clients.iter().enumerate() {
                    let (s, clock, ops) = (s.clone(), clock.clone(), ops.clone());
                    jobs.push(Box::new(move || { let mut v = vec![]; for (i, o) in ops.iter().enumerate() { v.push(one(&s, stream, &clock, w, o, r * 1000 + w * 100 + i)?); } Ok(v) }));
                }
                let mut evs = vec![];
                for x in par(case.sch.mean as u64, case.sch.freeze, jobs, &[]).await? { evs.extend(x?); }
                evs.sort_by_key(|e| e.a);
                for k in 0..N.len() {
                    let mine: Vec<Ev> = evs.iter().filter(|e| e.k == k).cloned().collect();
                    let over = |x: &Ev, y: &Ev| x.who != y.who && x.a < y.b && y.a < x.b;
                    let big = |e: &Ev| matches!(e.what, What::Create(_) | What::Delete);
                    for x in &mine { for y in &mine { if over(x, y) && big(x) && !matches!(y.what, What::Exists(_)) { cx.nontrivial = true; cx.label(match (&x.what, &y.what) { (What::Delete, What::Create(_)) => "delete overlaps create", (What::Delete, What::Delete) => "delete overlaps delete", (What::Create(_), What::Create(_)) => "create overlaps create", (What::Delete, _) => "delete overlaps use", _ => "create overlaps use" }); } } }
                    let obs = look(&s, stream, k).await?;
                    // an exists answer counts where nothing creates or deletes meanwhile
                    let mut ok = None;
                    let end = clock.tick();
                    let mut cands: Vec<St> = vec![];
                    match &obs {
                        None => cands.push(None),
                        Some((set, log, groups)) if stream => cands.push(Some(Ob { setting: *set, log: log.clone(), gone: BTreeSet::new(), groups: groups.clone() })),
                        Some(_) => {}
                    }
                    if let (false, Some((set, ready, _))) = (stream, &obs) {
                        // the end state of a queue is known up to what is held: search for any end that shows this
                        if finals(&now[k], &mine).into_iter().any(|f| f.as_ref().is_some_and(|o| { if o.setting == *set && o.log.iter().filter(|i| !o.gone.contains(i)).eq(ready.iter()) { ok = Some(f.clone()); true } else { false } })) {}
                    }
                    for c in cands { let mut v = mine.clone(); v.push(Ev { k, what: What::Is(c.clone()), a: end, b: end + 1, who: 99 }); if explain(stream, &now[k], &v) { ok = Some(c); } }
                    let Some(next) = ok else { return Err(format!("round {r}: no order explains what happened to {} {}, which was {:?} before and is {obs:?} now: {}", if stream { "stream" } else { "queue" }, N[k], now[k], mine.iter().map(|e| format!("client {} [{}..{}] {:?}", e.who, e.a, e.b, e.what)).collect::<Vec<_>>().join("; "))) };
                    if mine.iter().all(|e| !big(e)) { for e in &mine { if let What::Exists(x) = e.what { if x != now[k].is_some() { return Err(format!("round {r}: {} exists answered {x}", N[k])); } } } }
                    now[k] = next;
                    let x = exists_now(&s, stream, k).await?; if x != now[k].is_some() { return Err(format!("round {r}: exists of {} answers {x}, the object is {:?}", N[k], now[k])); }
                }
            }
            sleep_ms(case.flush * 25 + 200).await;
            sched::stop();
            for k in 0..N.len() { let o = look(&s, stream, k).await?; if o.is_some() != now[k].is_some() { return Err(format!("after a while {} is {o:?}", N[k])); } }
            Ok::<_, String>(now)
        }))?;
        sim.run(async {
            let s = Srv::start(&cfg).await;
            for k in 0..N.len() {
                let o = look(&s, stream, k).await?;
                let want = left[k].as_ref().map(|o| (o.setting, o.log.iter().filter(|i| !o.gone.contains(i)).cloned().collect::<Vec<_>>(), o.groups.clone()));
                if o != want { return Err(format!("after the restart {} {} is {o:?} (setting, contents, groups), it was {want:?}", if stream { "stream" } else { "queue" }, N[k])); }
                if o.is_some() { cx.label("there after the restart"); if !left[k].as_ref().unwrap().log.is_empty() { cx.label("with contents"); } } else { cx.label("absent after the restart"); }
                // still usable
                if stream && o.is_some() {
                    let q = s.s_pub(N[k], b"77").await?.map_err(|e| format!("after the restart publish to {} refused: {e}", N[k]))?;
                    if q != left[k].as_ref().unwrap().log.len() as u64 + 1 { return Err(format!("after the restart a publish to {} got number {q}", N[k])); }
                }
            }
            Ok(())
        })
    }
}
async fn exists_now(s: &Srv, stream: bool, k: usize) -> Result<bool, String> { Ok(if stream { s.eng.stream.exists(N[k]).await } else { s.eng.queue.exists(N[k]).await }) }
/// All states some explaining order of a queue's operations can end in.
fn finals(first: &St, evs: &[Ev]) -> Vec<St> {
    fn go(s: &St, evs: &[Ev], done: u32, seen: &mut HashSet<(u32, St)>, out: &mut Vec<St>) {
        if !seen.insert((done, s.clone())) { return; }
        if done == (1 << evs.len()) - 1 { out.push(s.clone()); return; }
        let lim = evs.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.b).min().unwrap();
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 1 || e.a > lim { continue; }
            if let Some(n) = apply(false, s, &e.what) { go(&n, evs, done | 1 << i, seen, out); }
        }
    }
    let mut out = vec![];
    go(first, evs, 0, &mut HashSet::new(), &mut out);
    out
}
