//! C04: parallel pub/sub clients against interval rules of delivery.
use super::pubsub::matches;
use crate::eng::*;
use crate::http::Http;
use crate::par::*;
use crate::runner::*;
use crate::sched;
use crate::sim::*;
use crate::wire::{op, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

const T: [&str; 5] = ["a", "a/b", "a/c", "b", "b/c/a"];
/// Topics published with the retain flag.
const RT: [&str; 3] = ["r", "r/a", "q/a"];
const P: [&str; 16] = ["a", "a/b", "a/+", "a/#", "#", "+", "+/b", "+/+", "b/#", "b/+/a", "b", "r", "r/+", "r/#", "q/a", "+/a"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Sub(usize, usize), Unsub(usize, usize), Pub(usize), Ret(usize, bool), Gone(usize, bool), Conn(usize) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sch: Sch, conns: usize, first: Vec<(usize, usize)>, rounds: Vec<Vec<Vec<Op>>> }
pub struct C04;

#[derive(Clone, Debug)]
enum What { Sub(usize, usize), Unsub(usize, usize), Gone(usize), Pub { topic: &'static str, id: u32, retain: bool, clear: bool, by: usize } }
#[derive(Clone, Debug)]
struct Ev { what: What, a: u64, b: u64 }

struct Slot { inc: Option<usize> }
#[derive(Default)]
struct World { slots: Vec<Slot>, push: Vec<Option<Push>>, dropped: BTreeSet<usize> }
fn name(inc: usize) -> String { format!("conn-{inc}") }

fn one(s: &Srv, w: &Arc<Mutex<World>>, clock: &Clock, who: usize, o: &Op, id: u32) -> Result<Option<Ev>, String> {
    let inc_of = |c: usize| w.lock().unwrap().slots[c].inc;
    let okay = |r: Reply, what: &str| match r { Reply::Err(e) => Err(format!("{what} answered with an error: {e}")), _ => Ok(()) };
    let what;
    let a;
    match o {
        Op::Sub(c, p) | Op::Unsub(c, p) => {
            a = clock.tick();
            let Some(i) = inc_of(*c) else { return Ok(None) };
            let sub = matches!(o, Op::Sub(..));
            okay(Cl::new(s, &name(i)).raw(if sub { op::SUB } else { op::UNSUB }, W::new().s(P[*p]).0), "SUB/UNSUB")?;
            what = if sub { What::Sub(i, *p) } else { What::Unsub(i, *p) };
        }
        Op::Pub(t) => {
            a = clock.tick();
            okay(Cl::new(s, &format!("publisher-{who}")).raw(op::PUB, Srv::pub_payload(T[*t], Some(false), None, &id.to_be_bytes())), "PUB")?;
            what = What::Pub { topic: T[*t], id, retain: false, clear: false, by: who };
        }
        Op::Ret(t, clear) => {
            a = clock.tick();
            let b = if *clear { vec![] } else { id.to_be_bytes().to_vec() };
            okay(Cl::new(s, &format!("publisher-{who}")).raw(op::PUB, Srv::pub_payload(RT[*t], Some(true), Some(1_000_000), &b)), "PUB")?;
            what = What::Pub { topic: RT[*t], id, retain: true, clear: *clear, by: who };
        }
        Op::Gone(c, drop) => {
            a = clock.tick();
            let Some(i) = w.lock().unwrap().slots[*c].inc.take() else { return Ok(None) };
            if *drop { let p = { let mut g = w.lock().unwrap(); g.dropped.insert(i); g.push[i].take() }; std::mem::drop(p); }
            block_on(s.disconnect(&name(i)));
            what = What::Gone(i);
        }
        Op::Conn(c) => {
            let i = { let mut g = w.lock().unwrap(); if g.slots[*c].inc.is_some() { return Ok(None); } g.push.push(None); g.push.len() - 1 };
            let p = s.connect(&name(i));
            let mut g = w.lock().unwrap();
            g.push[i] = Some(p);
            if g.slots[*c].inc.is_none() { g.slots[*c].inc = Some(i); return Ok(None); }
            std::mem::drop(g);
            a = clock.tick();
            block_on(s.disconnect(&name(i)));
            what = What::Gone(i);
        }
    }
    Ok(Some(Ev { what, a, b: clock.tick() }))
}

fn check(evs: &[Ev], got: &BTreeMap<usize, Vec<(String, Vec<u8>)>>, cx: &mut Cx) -> Result<(), String> {
    let pubs: BTreeMap<u32, &Ev> = evs.iter().filter_map(|e| match &e.what { What::Pub { id, .. } => Some((*id, e)), _ => None }).collect();
    for (inc, msgs) in got {
        let subs: Vec<(&Ev, usize)> = evs.iter().filter_map(|e| match e.what { What::Sub(i, p) if i == *inc => Some((e, p)), _ => None }).collect();
        let unsubs: Vec<(&Ev, usize)> = evs.iter().filter_map(|e| match e.what { What::Unsub(i, p) if i == *inc => Some((e, p)), _ => None }).collect();
        let gone = evs.iter().find(|e| matches!(e.what, What::Gone(i) if i == *inc));
        let mut count: BTreeMap<u32, usize> = BTreeMap::new();
        let mut last: BTreeMap<usize, u32> = BTreeMap::new();
        for (t, b) in msgs {
            if b.is_empty() { continue; } // a cleared retained value, told to subscribers
            let id = b.clone().try_into().map(u32::from_be_bytes).map_err(|_| format!("conn {inc} received bytes nobody published"))?;
            let Some(What::Pub { topic, by, retain, .. }) = pubs.get(&id).map(|e| &e.what) else { return Err(format!("conn {inc} received message {id} nobody published")) };
            if topic != t { return Err(format!("message {id} of topic {topic} was received under {t}")); }
            *count.entry(id).or_default() += 1;
            if !retain {
                if let Some(l) = last.get(by) { if *l > id { return Err(format!("conn {inc} received message {id} of publisher {by} after its later message {l}")); } }
                last.insert(*by, id);
            }
        }
        for (id, e) in &pubs {
            let What::Pub { topic, retain, clear, .. } = &e.what else { continue };
            if *clear { continue; }
            let n = count.get(id).copied().unwrap_or(0);
            let m: Vec<&(&Ev, usize)> = subs.iter().filter(|(_, p)| matches(P[*p], topic)).collect();
            let sure = gone.is_none_or(|g| g.a > e.b) && m.iter().any(|(s, p)| s.b < e.a && !unsubs.iter().any(|(u, q)| q == p && u.b > s.a && u.a < e.b));
            let maybe = m.iter().any(|(s, p)| (*retain || s.a < e.b) && !unsubs.iter().any(|(u, q)| q == p && u.a > s.b && u.b < e.a)) && gone.is_none_or(|g| g.b > e.a);
            let overlap = m.iter().any(|(s, _)| s.a < e.b && s.b > e.a) || unsubs.iter().any(|(u, p)| matches(P[*p], topic) && u.a < e.b && u.b > e.a) || gone.is_some_and(|g| g.a < e.b && g.b > e.a);
            if overlap && !m.is_empty() { cx.nontrivial = true; cx.label("publish-overlaps-change"); }
            let most = if *retain { 1 + m.iter().filter(|(s, _)| s.b > e.a).count() } else { 1 };
            if sure && n == 0 { return Err(format!("conn {inc} was subscribed throughout the publish of message {id} ({topic}) and did not receive it [publish {}..{}, subscribed by {:?}]", e.a, e.b, m.iter().map(|(s, p)| (P[*p], s.a, s.b)).collect::<Vec<_>>())); }
            if !maybe && n > 0 { return Err(format!("conn {inc} received message {id} ({topic}) without a matching subscription at that time [publish {}..{}, gone {:?}]", e.a, e.b, gone.map(|g| (g.a, g.b)))); }
            if n > most { return Err(format!("conn {inc} received message {id} ({topic}) {n} times")); }
            if sure { cx.add("certain-deliveries", 1); }
        }
    }
    Ok(())
}

impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "a publish overlapped in time with a matching subscribe, unsubscribe or disconnect";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 20000 } else { 300_000 } }
    fn strategy(_t: Tier, _i: u64) -> BoxedStrategy<Case> {
        (sch(), 1usize..4, 2usize..5, prop_oneof![2 => Just(P.len()), 1 => 1usize..5]).prop_flat_map(|(s, conns, threads, np)| {
            let pat = move || 0..np;
            let op = prop_oneof![5 => (0..conns, pat()).prop_map(|(c, p)| Op::Sub(c, p)), 4 => (0..conns, pat()).prop_map(|(c, p)| Op::Unsub(c, p)), 7 => (0..T.len()).prop_map(Op::Pub),
                3 => (0..RT.len(), prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(t, c)| Op::Ret(t, c)), 2 => (0..conns, any::<bool>()).prop_map(|(c, d)| Op::Gone(c, d)), 2 => (0..conns).prop_map(Op::Conn)];
            let round = proptest::collection::vec(proptest::collection::vec(op, 1..6), threads..=threads);
            (Just(s), Just(conns), proptest::collection::vec((0..conns, pat()), 0..6), proptest::collection::vec(round, 1..6))
        }).prop_map(|(sch, conns, first, rounds)| Case { sch, conns, first, rounds }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let cfg = base_config(&cx.root);
        world(case.sch.seed as u64, cx, |cx| Sim::new().run(async {
            let s = Srv::start(&cfg).await;
            let clock = Clock::default();
            let w = Arc::new(Mutex::new(World::default()));
            let mut evs = vec![];
            for c in 0..case.conns { let p = s.connect(&name(c)); let mut g = w.lock().unwrap(); g.push.push(Some(p)); g.slots.push(Slot { inc: Some(c) }); }
            for (c, p) in &case.first { evs.extend(one(&s, &w, &clock, 0, &Op::Sub(*c, *p), 0)?); }
            for (r, round) in case.rounds.iter().enumerate() {
                let mut jobs: Vec<Job<Result<Vec<Ev>, String>>> = vec![];
                for (t, ops) in round.iter().enumerate() {
                    let (s, w, clock, ops) = (s.clone(), w.clone(), clock.clone(), ops.clone());
                    jobs.push(Box::new(move || {
                        let mut v = vec![];
                        for (i, o) in ops.iter().enumerate() { v.extend(one(&s, &w, &clock, t, o, (r * 10_000 + t * 100 + i + 1) as u32)?); }
                        Ok(v)
                    }));
                }
                for x in par(case.sch.mean as u64, case.sch.freeze, jobs, &[]).await? { evs.extend(x?); }
            }
            // the retained values in the end
            let mut look = s.connect("look");
            let mut last: BTreeMap<&str, Option<u32>> = BTreeMap::new();
            for t in RT {
                s.sub("look", t).await?.map_err(|e| format!("SUB: {e}"))?;
                let d = look.drain()?;
                if d.len() > 1 { return Err(format!("a new subscriber of {t} received {} retained messages", d.len())); }
                let v = d.first().map(|(_, b)| b.clone().try_into().map(u32::from_be_bytes).map_err(|_| "a retained value nobody published".to_string())).transpose()?;
                let ps: Vec<&Ev> = evs.iter().filter(|e| matches!(e.what, What::Pub { topic, .. } if topic == t)).collect();
                let can: BTreeSet<Option<u32>> = ps.iter().filter(|p| !ps.iter().any(|q| q.a > p.b)).map(|p| match p.what { What::Pub { id, clear, .. } => if clear { None } else { Some(id) }, _ => None }).collect();
                if !(can.contains(&v) || ps.is_empty() && v.is_none()) { return Err(format!("{t} retains message {v:?} although the last publishes were {can:?}")); }
                last.insert(t, v);
            }
            s.disconnect("look").await;
            let (mut got, live) = {
                let mut g = w.lock().unwrap();
                let live: Vec<usize> = g.slots.iter().filter_map(|x| x.inc).collect();
                let mut got = BTreeMap::new();
                for (i, p) in g.push.iter_mut().enumerate() { if let Some(p) = p { got.insert(i, p.drain()?); } }
                for d in g.dropped.clone() { got.remove(&d); }
                (got, live)
            };
            for i in &live {
                for (t, v) in &last {
                    let Some(v) = v else { continue };
                    let holds = evs.iter().any(|e| matches!(e.what, What::Sub(c, p) if c == *i && matches(P[p], t) && !evs.iter().any(|u| matches!(u.what, What::Unsub(d, q) if d == *i && q == p && u.b > e.a))));
                    if holds {
                        cx.add("subscriber-of-retained", 1);
                        if !got[i].iter().any(|(_, b)| *b == v.to_be_bytes()) { return Err(format!("conn {i} is subscribed to {t} and never received its retained message {v}, neither on publishing nor on subscribing")); }
                    }
                }
            }
            check(&evs, &got, cx)?;
            // everybody leaves: nothing may stay behind
            got.clear();
            for i in live { s.disconnect(&name(i)).await; }
            sched::stop();
            let h = Http::start(&s).await;
            let v = h.json("/api/pubsub?limit=500").await?;
            if v["active_clients"] != 0 { return Err(format!("all clients have gone, the dashboard shows {} active", v["active_clients"])); }
            for t in v["topics"].as_array().ok_or("topics is no list")? { if t["subscribers"] != 0 { return Err(format!("all clients have gone, {} still has {} subscribers", t["full_path"], t["subscribers"])); } }
            for k in ["multi_level", "single_level"] { if v["wildcards"][k].as_array().is_some_and(|a| !a.is_empty()) { return Err(format!("all clients have gone, wildcards remain: {}", v["wildcards"][k])); } }
            Ok(())
        }))
    }
}
