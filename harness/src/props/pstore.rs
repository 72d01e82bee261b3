//! C02: parallel store clients against per-key linearizability.
use crate::eng::*;
use crate::par::*;
use crate::runner::*;
use crate::sim::*;
use crate::wire::{op, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Set(usize, Option<u64>), Get(usize), Del(usize), Scan }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round { clients: Vec<Vec<Op>>, jumps: Vec<(u32, u64)>, gap: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sch: Sch, keys: usize, cleanup: u64, default_ttl: u64, rounds: Vec<Round> }
pub struct C02;

#[derive(Clone, Debug)]
enum What { Set(u32, u64), Get(Option<u32>), Del }
/// One call: key, what, order stamps and virtual times (ms) of call and answer.
#[derive(Clone, Debug)]
struct Ev { key: usize, what: What, a: u64, b: u64, ta: u64, tb: u64, who: usize }
/// Value present: (value, earliest and latest moment its time runs out, ms).
type St = Option<(u32, u64, u64)>;

/// All states the key can be in after these overlapping calls; empty: no order explains the answers.
fn lin(from: &BTreeSet<St>, evs: &[Ev]) -> BTreeSet<St> {
    let n = evs.len();
    let mut out = BTreeSet::new();
    let mut seen: HashSet<(u32, St)> = HashSet::new();
    let mut stack: Vec<(u32, St)> = from.iter().map(|s| (0u32, *s)).collect();
    while let Some((mask, st)) = stack.pop() {
        if !seen.insert((mask, st)) { continue; }
        if mask == (1u32 << n) - 1 { out.insert(st); continue; }
        // a call can come next if no other remaining call had ended before it began
        let first_end = (0..n).filter(|i| mask & (1 << i) == 0).map(|i| evs[i].b).min().unwrap();
        for i in 0..n {
            if mask & (1 << i) != 0 || evs[i].a > first_end { continue; }
            let e = &evs[i];
            let next = match &e.what {
                What::Set(v, ttl) => Some(Some((*v, e.ta.saturating_add(*ttl), e.tb.saturating_add(*ttl).saturating_add(1)))),
                What::Del => Some(None),
                What::Get(None) => match st { None => Some(None), Some((_, lo, _)) if e.tb.saturating_add(1) >= lo => Some(st), _ => None },
                What::Get(Some(v)) => match st { Some((w, _, hi)) if w == *v && e.ta <= hi => Some(st), _ => None },
            };
            if let Some(s) = next { stack.push((mask | 1 << i, s)); }
        }
    }
    out
}

fn one(c: &Cl, clock: &Clock, who: usize, o: &Op, id: u32, default_ttl: u64, keys: usize) -> Result<Vec<Ev>, String> {
    let key = |k: usize| format!("key{k}");
    let (a, ta) = (clock.tick(), now_ms());
    let val = |d: Vec<u8>| -> Result<u32, String> { d.try_into().map(u32::from_be_bytes).map_err(|d: Vec<u8>| format!("a GET returned {} bytes that nobody stored", d.len())) };
    let (k, what) = match o {
        Op::Set(k, ttl) => {
            let o = match ttl { None => "{}".to_string(), Some(t) => format!("{{\"ttl\":{t}}}") };
            match c.raw(op::SET, W::new().s(&key(*k)).s(&o).raw(&id.to_be_bytes()).0) { Reply::Ok => {} x => return Err(format!("SET answered {x:?}")) }
            (*k, What::Set(id, match ttl { None | Some(0) => default_ttl, Some(t) => *t } .saturating_mul(1000)))
        }
        Op::Get(k) => match c.raw(op::GET, W::new().s(&key(*k)).0) {
            Reply::Data(d) => (*k, What::Get(Some(val(d)?))),
            Reply::Null => (*k, What::Get(None)),
            x => return Err(format!("GET answered {x:?}")),
        },
        Op::Del(k) => match c.raw(op::DEL, W::new().s(&key(*k)).0) { Reply::Ok | Reply::Null => (*k, What::Del), x => return Err(format!("DEL answered {x:?}")) },
        Op::Scan => {
            let mut v = vec![];
            for k in 0..keys { v.extend(one(c, clock, who, &Op::Get(k), id, default_ttl, keys)?); }
            return Ok(v);
        }
    };
    Ok(vec![Ev { key: k, what, a, b: clock.tick(), ta, tb: now_ms(), who }])
}

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "two clients' calls on one key overlapped and at least one of them was a SET or DEL";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 20000 } else { 250_000 } }
    fn strategy(_t: Tier, _i: u64) -> BoxedStrategy<Case> {
        (sch(), 1usize..4, 1u64..4, 1u64..4, 2usize..5).prop_flat_map(|(s, keys, cleanup, default_ttl, clients)| {
            let op = prop_oneof![4 => (0..keys, prop_oneof![4 => Just(None), 3 => (1u64..4).prop_map(Some), 1 => Just(Some(100_000u64))]).prop_map(|(k, t)| Op::Set(k, t)), 5 => (0..keys).prop_map(Op::Get), 2 => (0..keys).prop_map(Op::Del), 1 => Just(Op::Scan)];
            let gap = prop_oneof![3 => Just(0u64), 3 => 1u64..1500, 2 => (1u64..4).prop_map(|s| s * 1000), 1 => (1u64..4).prop_map(|s| s * 1000 + 1), 1 => (1u64..4).prop_map(|s| s * 1000 - 1)];
            let jump = (0u32..60, prop_oneof![Just(1u64), 1u64..1200, Just(1000)]);
            let round = (proptest::collection::vec(proptest::collection::vec(op, 1..5), clients..=clients), proptest::collection::vec(jump, 0..3), gap).prop_map(|(clients, jumps, gap)| Round { clients, jumps, gap });
            (Just(s), Just(keys), Just(cleanup), Just(default_ttl), proptest::collection::vec(round, 1..14))
        }).prop_map(|(sch, keys, cleanup, default_ttl, rounds)| Case { sch, keys, cleanup, default_ttl, rounds }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        cfg.store.default_ttl_secs = case.default_ttl;
        cfg.store.cleanup_interval_secs = case.cleanup;
        world(case.sch.seed as u64, cx, |cx| Sim::new().run(async {
            let s = Srv::start(&cfg).await;
            let clock = Clock::default();
            let mut states: Vec<BTreeSet<St>> = vec![BTreeSet::from([None]); case.keys];
            let mut names: BTreeMap<u32, String> = BTreeMap::new();
            for (r, round) in case.rounds.iter().enumerate() {
                if round.gap > 0 { sleep_ms(round.gap).await; }
                let mut jobs: Vec<Job<Result<Vec<Ev>, String>>> = vec![];
                for (w, ops) in round.clients.iter().enumerate() {
                    let (cl, clock, ops) = (Cl::new(&s, &format!("c{w}")), clock.clone(), ops.clone());
                    for i in 0..ops.len() { names.insert((r * 1000 + w * 100 + i) as u32, format!("round {r} client {w} op {i}")); }
                    let (d, keys) = (case.default_ttl, case.keys);
                    jobs.push(Box::new(move || {
                        let mut v = vec![];
                        for (i, o) in ops.iter().enumerate() { v.extend(one(&cl, &clock, w, o, (r * 1000 + w * 100 + i) as u32, d, keys)?); }
                        Ok(v)
                    }));
                }
                let mut evs = vec![];
                for x in par(case.sch.mean as u64, case.sch.freeze, jobs, &round.jumps).await? { evs.extend(x?); }
                for k in 0..case.keys {
                    let v: Vec<Ev> = evs.iter().filter(|e| e.key == k).cloned().collect();
                    if v.is_empty() { continue; }
                    if v.len() > 20 { return Ok(()); }
                    let over = v.iter().any(|x| !matches!(x.what, What::Get(_)) && v.iter().any(|y| x.who != y.who && x.a < y.b && y.a < x.b));
                    if over { cx.nontrivial = true; cx.label("overlap"); }
                    if v.iter().any(|x| matches!(x.what, What::Get(None))) && states[k].iter().all(|s| s.is_some()) { cx.label("expired-or-deleted-under-load"); }
                    let next = lin(&states[k], &v);
                    if next.is_empty() {
                        return Err(format!("round {r}: no order of these calls on key{k} explains their answers; before: {:?}; calls (value, order of call/answer, ms): {:?}", states[k],
                            v.iter().map(|e| format!("client {} {:?} [{}..{}] {}..{} ms", e.who, e.what, e.a, e.b, e.ta, e.tb)).collect::<Vec<_>>()));
                    }
                    if next.len() > 1 { cx.label("several-outcomes"); }
                    states[k] = next;
                }
            }
            Ok(())
        }))
    }
}
