//! C07, C08, C09, C11: queues against a model of messages with state, order, attempts and timeouts.
use super::gen::*;
use crate::eng::*;
use crate::http::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::SeqCst;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Pick { Fly, Wait, Dlq, Gone, Foreign, Random }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Create(usize, Option<u64>, Option<u32>), Delete(usize),
    Push(usize, Option<u8>, Pay), PushMany(usize, u8, u8, u32),
    Consume(usize, Option<u64>),
    Ack(usize, Pick, usize), Nack(usize, Pick, usize, u8),
    Peek(usize, u32, u32), Move(usize, Pick, usize), DelDlq(usize, Pick, usize), Purge(usize),
    Wait(u64), Jump(u64), /// until just after the next timeout
    WaitTimeout(usize),
    Restart { down: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { qs: Vec<String>, vis: u64, max: u32, batch: u64, flush: u64, wbatch: u64, ops: Vec<Op>, crash: Vec<(u64, Option<u16>)>, down: u64 }

#[derive(Clone, Debug, PartialEq)]
pub enum St { Absent, Wait, Fly(u64), Dlq, Gone }
#[derive(Clone, Debug)]
pub struct Ver { lo: u64, hi: u64, st: St, attempts: u32, reason: String, fresh: bool }
#[derive(Clone, Debug)]
pub struct Msg { inc: usize, pri: u8, payload: Vec<u8>, id: Option<u128>, st: St, attempts: u32, fresh: bool, reason: String, fail: (u64, u64), fail_serial: Option<u64>, pub hist: Vec<Ver> }
/// One incarnation of a queue name.
#[derive(Clone, Debug)]
pub struct Inc { name: usize, vis: u64, max: u32, made: (u64, u64), gone: Option<(u64, u64)> }

const SLACK: u64 = 250;
pub struct Model { incs: Vec<Inc>, cur: Vec<Option<usize>>, msgs: Vec<Msg>, by_id: HashMap<u128, usize>, serial: u64, op: u64, unique: bool }

fn qname() -> BoxedStrategy<String> { prop_oneof![4 => "[a-z]{1,6}", 1 => "[a-zA-Z0-9_.-]{1,10}".prop_filter("", |s| !s.starts_with('.') && !s.ends_with(".db")), 1 => Just("q é".to_string())].boxed() }
fn pick(w: [u32; 6]) -> BoxedStrategy<Pick> {
    prop_oneof![w[0] => Just(Pick::Fly), w[1] => Just(Pick::Wait), w[2] => Just(Pick::Dlq), w[3] => Just(Pick::Gone), w[4] => Just(Pick::Foreign), w[5] => Just(Pick::Random)].boxed()
}
fn pri() -> BoxedStrategy<Option<u8>> { prop_oneof![2 => Just(None), 6 => (0u8..3).prop_map(Some), 1 => any::<u8>().prop_map(Some), 1 => Just(Some(255))].boxed() }
fn vis() -> BoxedStrategy<Option<u64>> { prop_oneof![2 => Just(None), 6 => (20u64..3000).prop_map(Some), 2 => (3000u64..100_000).prop_map(Some), 1 => Just(Some(0)), 1 => prop_oneof![Just(u64::MAX), any::<u64>()].prop_map(Some)].boxed() }
fn batch() -> BoxedStrategy<Option<u64>> { prop_oneof![3 => Just(None), 4 => Just(Some(1)), 6 => (2u64..12).prop_map(Some), 1 => Just(Some(0)), 2 => Just(Some(1000)), 1 => prop_oneof![Just(u64::MAX), Just(1u64 << 40)].prop_map(Some)].boxed() }

/// weights: create delete push consume ack nack peek move deldlq purge wait jump restart
fn op(nq: usize, w: [u32; 13]) -> BoxedStrategy<Op> {
    pick_one(vec![
        (w[0], (0..nq, vis(), prop_oneof![1 => Just(None), 4 => (0u32..5).prop_map(Some)]).prop_map(|(q, v, m)| Op::Create(q, v, m)).boxed()),
        (w[1], (0..nq).prop_map(Op::Delete).boxed()),
        (w[2], prop_oneof![5 => (0..nq, pri(), pay()).prop_map(|(q, p, b)| Op::Push(q, p, b)), 2 => (0..nq, 0u8..3, 1u8..20, any::<u32>()).prop_map(|(q, p, n, t)| Op::PushMany(q, p, n, t))].boxed()),
        (w[3], (0..nq, batch()).prop_map(|(q, b)| Op::Consume(q, b)).boxed()),
        (w[4], (0..nq, pick([12, 1, 1, 1, 1, 1]), 0usize..64).prop_map(|(q, p, k)| Op::Ack(q, p, k)).boxed()),
        (w[5], (0..nq, pick([12, 1, 1, 1, 1, 1]), 0usize..64, any::<u8>()).prop_map(|(q, p, k, r)| Op::Nack(q, p, k, r)).boxed()),
        (w[6], (0..nq, prop_oneof![2 => 0u32..5, 1 => Just(1000), 1 => Just(u32::MAX)], prop_oneof![2 => Just(0u32), 2 => 0u32..6, 1 => Just(u32::MAX)]).prop_map(|(q, l, o)| Op::Peek(q, l, o)).boxed()),
        (w[7], (0..nq, pick([1, 1, 12, 1, 1, 1]), 0usize..64).prop_map(|(q, p, k)| Op::Move(q, p, k)).boxed()),
        (w[8], (0..nq, pick([1, 1, 12, 1, 1, 1]), 0usize..64).prop_map(|(q, p, k)| Op::DelDlq(q, p, k)).boxed()),
        (w[9], (0..nq).prop_map(Op::Purge).boxed()),
        (w[10], prop_oneof![2 => (1u64..300).prop_map(Op::Wait), 2 => (300u64..4000).prop_map(Op::Wait), 3 => (0..nq).prop_map(Op::WaitTimeout)].boxed()),
        (w[11], (200u64..50_000).prop_map(Op::Jump).boxed()),
        (w[12], prop_oneof![Just(0u64), 1u64..500, 500u64..5000, 5000u64..200_000].prop_map(|down| Op::Restart { down }).boxed()),
    ])
}
fn case(i: u64, w: [u32; 13], crash: bool) -> BoxedStrategy<Case> {
    let len = if i % 8 == 0 { 220usize } else { 60 };
    let crash: BoxedStrategy<Vec<(u64, Option<u16>)>> = if crash {
        let torn = || prop_oneof![1 => Just(None), 1 => any::<u16>().prop_map(Some)];
        ((prop_oneof![1 => 0u64..60, 4 => 60u64..260], torn()), proptest::collection::vec((prop_oneof![2 => 0u64..4, 3 => 4u64..70], torn()), 0..7)).prop_map(|(f, mut v)| { v.insert(0, f); v }).boxed()
    } else { Just(vec![]).boxed() };
    (proptest::collection::btree_set(qname(), 1..4), 200u64..4000, 0u32..5, 1u64..12, prop_oneof![Just(100u64), Just(30), Just(400)], prop_oneof![2 => Just(50_000u64), 1 => 1u64..8], crash, prop_oneof![Just(0u64), 1u64..5000])
        .prop_flat_map(move |(qs, vis, max, batch, flush, wbatch, crash, down)| {
            let qs: Vec<String> = qs.into_iter().collect();
            // names that differ by case only are two names
            let n = qs.len();
            proptest::collection::vec(op(n, w), 1..len).prop_map(move |ops| Case { qs: qs.clone(), vis, max, batch, flush, wbatch, ops, crash: crash.clone(), down })
        }).boxed()
}

fn now() -> u64 { ip::vt_now() }
fn unix(ns: u64) -> u64 { ip::BASE_REAL as u64 * 1000 + ns / 1_000_000 }
fn timeout_reason(r: &str) -> bool { let r = r.to_lowercase(); r.contains("time") || r.contains("expire") }

impl Model {
    fn new(case: &Case) -> Model { Model { incs: vec![], cur: vec![None; case.qs.len()], msgs: vec![], by_id: HashMap::new(), serial: 0, op: 0, unique: false } }
    fn put(&mut self, k: usize, st: St, lo: u64) {
        let m = &mut self.msgs[k];
        m.st = st.clone();
        let v = Ver { lo, hi: now(), st, attempts: m.attempts, reason: m.reason.clone(), fresh: m.fresh };
        m.hist.push(v);
    }
    fn of(&self, inc: usize, st: fn(&St) -> bool) -> Vec<usize> { (0..self.msgs.len()).filter(|k| self.msgs[*k].inc == inc && st(&self.msgs[*k].st)).collect() }
    fn waiting(&self, inc: usize) -> Vec<usize> { self.of(inc, |s| *s == St::Wait) }
    fn dlq(&self, inc: usize) -> Vec<usize> { self.of(inc, |s| *s == St::Dlq) }
    /// Let timeouts that are due take effect, on both sides.
    async fn settle(&mut self, cx: &mut Cx) {
        loop {
            let t = unix(now());
            let due = self.msgs.iter().filter_map(|m| if let St::Fly(u) = m.st { (u <= t).then_some(u) } else { None }).max();
            let Some(u) = due else { return };
            if t < u.saturating_add(SLACK) { sleep_ms(u + SLACK - t).await; continue; }
            for k in 0..self.msgs.len() {
                if let St::Fly(u) = self.msgs[k].st {
                    if u > t { continue; }
                    let max = self.incs[self.msgs[k].inc].max;
                    let lo = (u.saturating_sub(ip::BASE_REAL as u64 * 1000)) * 1_000_000;
                    if self.msgs[k].attempts >= max {
                        self.msgs[k].reason = String::from("\u{0}timeout");
                        self.msgs[k].fail = (u, unix(now()));
                        self.msgs[k].fail_serial = None;
                        self.put(k, St::Dlq, lo);
                        cx.label("timeout-dlq");
                    } else { self.put(k, St::Wait, lo); cx.label("timeout-requeue"); }
                }
            }
        }
    }
    fn choose(&self, q: usize, p: &Pick, k: usize) -> u128 {
        let inc = self.cur[q];
        let c: Vec<u128> = self.msgs.iter().filter(|m| match (p, inc) {
            (Pick::Fly, Some(i)) => m.inc == i && matches!(m.st, St::Fly(_)),
            (Pick::Wait, Some(i)) => m.inc == i && m.st == St::Wait,
            (Pick::Dlq, Some(i)) => m.inc == i && m.st == St::Dlq,
            (Pick::Gone, Some(i)) => m.inc == i && m.st == St::Gone,
            (Pick::Foreign, Some(i)) => m.inc != i,
            _ => false,
        }).filter_map(|m| m.id).collect();
        if c.is_empty() { 0xdead_beef_0000_0000_0000_0000_0000_0000u128 + k as u128 } else { c[k % c.len()] }
    }
    /// A batch handed out by queue incarnation `inc`; `want` = requested size.
    pub fn delivered(&mut self, what: &str, inc: usize, got: &[QMsg], want: u64, t0: u64, cx: &mut Cx) -> Result<(), String> {
        self.taken(what, inc, got, want, t0, unix(now()), true, cx)
    }
    /// `strict`: nobody else could take messages at the same time, so order and batch size are exact.
    #[allow(clippy::too_many_arguments)]
    pub fn taken(&mut self, what: &str, inc: usize, got: &[QMsg], want: u64, t0: u64, at: u64, strict: bool, cx: &mut Cx) -> Result<(), String> {
        let waiting = self.waiting(inc).len() as u64;
        if got.len() as u64 > want { return Err(format!("{what}: {} messages although at most {want} were asked for", got.len())); }
        if strict && (got.len() as u64) < want.min(waiting) { return Err(format!("{what}: only {} of {want} requested messages although {waiting} are waiting", got.len())); }
        for (n, g) in got.iter().enumerate() {
            let what = format!("{what}, message {n} ({})", short(&g.payload));
            let w = self.waiting(inc);
            let k = match self.by_id.get(&g.id) {
                Some(k) => {
                    let m = &self.msgs[*k];
                    if m.inc != inc { return Err(format!("{what}: this id belongs to another queue")); }
                    if m.st != St::Wait { return Err(format!("{what}: delivered although it is {:?} (now {})", m.st, unix(now()))); }
                    if m.payload != g.payload { return Err(format!("{what}: payload changed, it was {}", short(&m.payload))); }
                    cx.label("redelivered");
                    *k
                }
                None => {
                    let mut front: BTreeMap<u8, usize> = BTreeMap::new();
                    for k in &w { let m = &self.msgs[*k]; if m.fresh && (strict || m.payload == g.payload) { front.entry(m.pri).or_insert(*k); } }
                    let Some(k) = front.values().rev().find(|k| self.msgs[**k].payload == g.payload).copied() else {
                        return Err(match w.iter().find(|k| self.msgs[**k].fresh && self.msgs[**k].payload == g.payload) {
                            Some(k) => format!("{what}: delivered before {} of the same priority {}, which was pushed earlier", short(&self.msgs[front[&self.msgs[*k].pri]].payload), self.msgs[*k].pri),
                            None => format!("{what}: no waiting message has this id or payload"),
                        });
                    };
                    if w.iter().filter(|j| self.msgs[**j].fresh && self.msgs[**j].pri == self.msgs[k].pri).count() > 1 { cx.label("fifo-choice"); }
                    self.by_id.insert(g.id, k);
                    self.msgs[k].id = Some(g.id);
                    k
                }
            };
            let p = self.msgs[k].pri;
            if let Some(j) = w.iter().find(|j| strict && self.msgs[**j].pri > p) { return Err(format!("{what}: priority {p} delivered while {} of priority {} is waiting", short(&self.msgs[*j].payload), self.msgs[*j].pri)); }
            if w.iter().any(|j| self.msgs[*j].pri < p) { cx.label("priority-choice"); }
            self.msgs[k].attempts += 1;
            self.msgs[k].fresh = false;
            let u = at.saturating_add(self.incs[inc].vis);
            self.put(k, St::Fly(u), t0);
        }
        if got.len() > 1 { cx.label("batch"); }
        Ok(())
    }
    fn check_page(&self, what: &str, inc: usize, total: u32, page: &[DlqMsg], limit: u32, offset: u32, cx: &mut Cx) -> Result<(), String> {
        let d = self.dlq(inc);
        if total as usize != d.len() { return Err(format!("{what}: total {total}, but {} messages are dead-lettered", d.len())); }
        let want = (d.len() as u64).saturating_sub(offset as u64).min(limit as u64) as usize;
        if page.len() != want { return Err(format!("{what}: {} messages on the page, expected {want} (limit {limit}, offset {offset}, total {total})", page.len())); }
        let mut seen: Vec<usize> = vec![];
        for g in page {
            let Some(k) = self.by_id.get(&g.id).filter(|k| d.contains(k)) else { return Err(format!("{what}: {} is not dead-lettered (model: {:?})", short(&g.payload), self.by_id.get(&g.id).map(|k| &self.msgs[*k].st))); };
            let m = &self.msgs[*k];
            if seen.contains(k) { return Err(format!("{what}: {} listed twice", short(&g.payload))); }
            if m.payload != g.payload { return Err(format!("{what}: payload {} was {}", short(&g.payload), short(&m.payload))); }
            if m.attempts != g.attempts { return Err(format!("{what}: {} shows {} deliveries, it had {}", short(&g.payload), g.attempts, m.attempts)); }
            let okr = if m.reason == "\u{0}timeout" { timeout_reason(&g.reason) } else { m.reason == g.reason };
            if !okr { return Err(format!("{what}: {} shows reason {:?}, it failed with {:?}", short(&g.payload), g.reason, m.reason)); }
            seen.push(*k);
        }
        let older = |a: usize, b: usize| { // a surely failed before b
            let (a, b) = (&self.msgs[a], &self.msgs[b]);
            match (a.fail_serial, b.fail_serial) { (Some(x), Some(y)) => x < y, _ => a.fail.1 < b.fail.0 }
        };
        for i in 0..seen.len() { for j in i + 1..seen.len() { if older(seen[i], seen[j]) { return Err(format!("{what}: {} is listed before {}, which failed later", short(&self.msgs[seen[i]].payload), short(&self.msgs[seen[j]].payload))); } } }
        for (n, k) in seen.iter().enumerate() {
            let pos = offset as usize + n;
            let newer = d.iter().filter(|x| older(*k, **x)).count();
            let elder = d.iter().filter(|x| older(**x, *k)).count();
            if newer > pos || elder > d.len() - 1 - pos { return Err(format!("{what}: {} is at position {pos} of {}, but {newer} failed later and {elder} earlier", short(&self.msgs[*k].payload), d.len())); }
        }
        if page.len() > 1 { cx.label("peek-several"); } else if page.len() == 1 { cx.label("peek-one"); }
        Ok(())
    }
    async fn step(&mut self, s: &Srv, case: &Case, i: usize, o: &Op, cx: &mut Cx) -> Result<(), String> {
        self.settle(cx).await;
        self.op += 1;
        let t0 = now();
        let at = format!("op {i} at {} ms", t0 / 1_000_000);
        match o {
            Op::Create(q, v, m) => {
                s.q_create(&case.qs[*q], &QOpts { vis_ms: *v, max_retries: *m }).await?.map_err(|e| format!("{at}: create {:?} refused: {e}", case.qs[*q]))?;
                if self.cur[*q].is_none() {
                    self.cur[*q] = Some(self.incs.len());
                    self.incs.push(Inc { name: *q, vis: v.unwrap_or(case.vis), max: m.unwrap_or(case.max), made: (self.op, self.op), gone: None });
                } else { cx.label("create-existing"); }
            }
            Op::Delete(q) => {
                s.q_delete(&case.qs[*q]).await?.ok();
                if let Some(inc) = self.cur[*q].take() {
                    self.incs[inc].gone = Some((self.op, self.op));
                    for k in 0..self.msgs.len() { if self.msgs[k].inc == inc && self.msgs[k].st != St::Gone { self.put(k, St::Gone, t0); } }
                    cx.label("delete");
                }
            }
            Op::Push(q, p, b) => self.push(s, case, &at, *q, *p, b.bytes(), t0, cx).await?,
            Op::PushMany(q, p, n, tag) => for j in 0..*n {
                let pr = p.wrapping_add((tag >> (j % 13) & 1) as u8);
                self.push(s, case, &at, *q, Some(pr), Pay::Run(tag.wrapping_add(j as u32), 4 + (tag % 5) * 8).bytes(), t0, cx).await?;
            },
            Op::Consume(q, b) => {
                let r = s.q_consume(&case.qs[*q], *b, None).await?;
                let Some(inc) = self.cur[*q] else {
                    if let Ok(v) = r { return Err(format!("{at}: consume from the absent queue {:?} answered {} messages", case.qs[*q], v.len())); }
                    return Ok(());
                };
                let got = r.map_err(|e| format!("{at}: consume refused: {e}"))?;
                if now() > t0 + 100_000_000 { return Err(format!("{at}: consume without wait time took {} ms", (now() - t0) / 1_000_000)); }
                cx.label(if got.is_empty() { "consume-empty" } else { "consume" });
                self.delivered(&at, inc, &got, b.unwrap_or(case.batch), t0, cx)?;
            }
            Op::Ack(q, p, k) => {
                let id = self.choose(*q, p, *k);
                let r = s.q_ack(&case.qs[*q], id).await?;
                match self.target(*q, id) {
                    Some((k, St::Fly(_))) => { r.map_err(|e| format!("{at}: ack of an outstanding delivery refused: {e}"))?; self.put(k, St::Gone, t0); cx.label("ack"); }
                    Some((k, St::Wait)) => { cx.label("late-ack"); if r.is_ok() { self.put(k, St::Gone, t0); } }
                    x => if r.is_ok() { return Err(format!("{at}: ack of {x:?} was confirmed")); } else { cx.label("ack-refused"); }
                }
            }
            Op::Nack(q, p, k, reason) => {
                let id = self.choose(*q, p, *k);
                let reason = match reason % 4 { 0 => String::new(), 1 => "because".into(), 2 => format!("reason {reason}"), _ => format!("é{}", "x".repeat(*reason as usize)) };
                let tgt = self.target(*q, id);
                if let Some((k, St::Wait)) = &tgt { if self.msgs[*k].attempts >= self.incs[self.msgs[*k].inc].max { return Ok(()); } }
                let r = s.q_nack(&case.qs[*q], id, &reason).await?;
                match tgt {
                    Some((k, St::Fly(_))) => {
                        r.map_err(|e| format!("{at}: nack of an outstanding delivery refused: {e}"))?;
                        let max = self.incs[self.msgs[k].inc].max;
                        if self.msgs[k].attempts >= max {
                            self.msgs[k].reason = reason;
                            self.msgs[k].fail = (unix(t0), unix(now()));
                            self.serial += 1;
                            self.msgs[k].fail_serial = Some(self.serial);
                            self.put(k, St::Dlq, t0);
                            cx.label("nack-dlq");
                        } else { self.put(k, St::Wait, t0); cx.label("nack-requeue"); }
                    }
                    Some((_, St::Wait)) => cx.label("late-nack"),
                    x => if r.is_ok() { return Err(format!("{at}: nack of {x:?} was confirmed")); } else { cx.label("nack-refused"); }
                }
            }
            Op::Peek(q, l, off) => {
                let r = s.q_peek(&case.qs[*q], *l, *off).await?;
                match (self.cur[*q], r) {
                    (None, Ok(_)) => return Err(format!("{at}: peek of an absent queue answered")),
                    (None, Err(_)) => {}
                    (Some(inc), r) => { let (t, p) = r.map_err(|e| format!("{at}: peek refused: {e}"))?; self.check_page(&format!("{at}: peek"), inc, t, &p, *l, *off, cx)?; }
                }
            }
            Op::Move(q, p, k) | Op::DelDlq(q, p, k) => {
                let mv = matches!(o, Op::Move(..));
                let id = self.choose(*q, p, *k);
                let r = if mv { s.q_move(&case.qs[*q], id).await? } else { s.q_deldlq(&case.qs[*q], id).await? };
                let word = if mv { "replay" } else { "delete from the dead-letter queue" };
                if self.cur[*q].is_none() { if r.is_ok() { return Err(format!("{at}: {word} on an absent queue answered")); } return Ok(()); }
                let done = r.map_err(|e| format!("{at}: {word} refused: {e}"))?;
                match self.target(*q, id) {
                    Some((k, St::Dlq)) => {
                        if !done { return Err(format!("{at}: {word} reports that the dead-lettered {} is not there", short(&self.msgs[k].payload))); }
                        if mv { self.msgs[k].attempts = 0; self.put(k, St::Wait, t0); cx.label("replay"); } else { self.put(k, St::Gone, t0); cx.label("dlq-delete"); }
                    }
                    x => if done { return Err(format!("{at}: {word} reports success for {x:?}")); }
                }
            }
            Op::Purge(q) => {
                let r = s.q_purge(&case.qs[*q]).await?;
                let Some(inc) = self.cur[*q] else { if r.is_ok() { return Err(format!("{at}: purge of an absent queue answered")); } return Ok(()); };
                let n = r.map_err(|e| format!("{at}: purge refused: {e}"))?;
                let d = self.dlq(inc);
                if n as usize != d.len() { return Err(format!("{at}: purge reports {n} messages, {} were dead-lettered", d.len())); }
                if n > 0 { cx.label("purge"); }
                for k in d { self.put(k, St::Gone, t0); }
            }
            Op::Wait(ms) => sleep_ms(*ms).await,
            Op::Jump(ms) => { if case.crash.is_empty() { jump_ms(*ms).await } else { sleep_ms(*ms).await } cx.label("jump"); }
            Op::WaitTimeout(q) => if let Some(inc) = self.cur[*q] {
                let t = unix(now());
                if let Some(u) = self.msgs.iter().filter(|m| m.inc == inc).filter_map(|m| if let St::Fly(u) = m.st { Some(u) } else { None }).filter(|u| *u < t + 3_600_000).min() {
                    // first: just before, nothing may come back early
                    if u > t + 5 { sleep_ms(u - t - 5).await; self.settle(cx).await; let t0 = now(); let got = s.q_consume(&case.qs[*q], Some(1000), None).await?.map_err(|e| format!("{at}: consume refused: {e}"))?; self.delivered(&format!("{at}: 5 ms before a visibility timeout"), inc, &got, 1000, t0, cx)?; }
                    let t = unix(now());
                    if u >= t { sleep_ms(u - t + SLACK).await; }
                    cx.label("wait-timeout");
                }
            }
            Op::Restart { .. } => unreachable!(),
        }
        Ok(())
    }
    fn target(&self, q: usize, id: u128) -> Option<(usize, St)> {
        let inc = self.cur[q]?;
        self.by_id.get(&id).filter(|k| self.msgs[**k].inc == inc).map(|k| (*k, self.msgs[*k].st.clone()))
    }
    #[allow(clippy::too_many_arguments)]
    async fn push(&mut self, s: &Srv, case: &Case, at: &str, q: usize, p: Option<u8>, mut b: Vec<u8>, t0: u64, cx: &mut Cx) -> Result<(), String> {
        if self.unique { let mut v = format!("m{}:", self.msgs.len()).into_bytes(); v.extend(b); b = v; }
        let inc = self.cur[q];
        if let Some(inc) = inc {
            let mut m = Msg { inc, pri: p.unwrap_or(0), payload: b.clone(), id: None, st: St::Absent, attempts: 0, fresh: true, reason: String::new(), fail: (0, 0), fail_serial: None, hist: vec![] };
            m.hist.push(Ver { lo: 0, hi: 0, st: St::Absent, attempts: 0, reason: String::new(), fresh: true });
            self.msgs.push(m);
        }
        let r = s.q_push(&case.qs[q], p, &b).await?;
        match (inc, r) {
            (None, Ok(())) => return Err(format!("{at}: push to the absent queue {:?} was confirmed", case.qs[q])),
            (None, Err(_)) => cx.label("push-absent"),
            (Some(_), r) => { r.map_err(|e| format!("{at}: push refused: {e}"))?; let k = self.msgs.len() - 1; self.put(k, St::Wait, t0); cx.label("push"); }
        }
        Ok(())
    }
    /// Every message is where it should be: waiting ones come out, dead ones are listed, timed-out ones come back.
    async fn drain(&mut self, s: &Srv, case: &Case, cx: &mut Cx) -> Result<(), String> {
        self.settle(cx).await;
        for q in 0..case.qs.len() {
            let name = &case.qs[q];
            let ex = s.q_exists(name).await??;
            if ex != self.cur[q].is_some() { return Err(format!("at the end: exists({name:?}) answers {ex}")); }
            let Some(inc) = self.cur[q] else { continue };
            for round in 0..3 {
                self.settle(cx).await;
                let (t, p) = s.q_peek(name, u32::MAX, 0).await?.map_err(|e| format!("peek refused: {e}"))?;
                self.check_page(&format!("at the end, round {round}: peek of {name:?}"), inc, t, &p, u32::MAX, 0, cx)?;
                let t0 = now();
                let got = s.q_consume(name, Some(100_000), None).await?.map_err(|e| format!("consume refused: {e}"))?;
                self.delivered(&format!("at the end, round {round}: consume of {name:?}"), inc, &got, 100_000, t0, cx)?;
                let t = unix(now());
                let Some(u) = self.msgs.iter().filter(|m| m.inc == inc).filter_map(|m| if let St::Fly(u) = m.st { Some(u) } else { None }).filter(|u| *u < t + 86_400_000).max() else { break };
                // long sleeps would run through every 50 ms tick
                if u > t + 30_000 { jump_ms(u - t).await; }
                sleep_ms(u.saturating_sub(unix(now())) + SLACK).await;
            }
        }
        Ok(())
    }
}

fn config(case: &Case, dir: &str, root: &str) -> nexo::config::Config {
    let mut cfg = base_config(root);
    cfg.queue.persistence_path = dir.to_string();
    cfg.queue.visibility_timeout_ms = case.vis;
    cfg.queue.max_retries = case.max;
    cfg.queue.default_batch_size = case.batch as usize;
    cfg.queue.default_wait_ms = 0;
    cfg.queue.default_flush_ms = case.flush;
    cfg.queue.writer_batch_size = case.wbatch as usize;
    cfg
}

/// The whole history, with stops after a quiet flush.
fn history(case: &Case, cx: &mut Cx) -> Result<Model, String> {
    let root = cx.root.clone();
    let mut m = Model::new(case);
    m.unique = !case.crash.is_empty();
    let mut sim = Sim::new();
    let (mut i, mut gen) = (0, 0);
    if !case.crash.is_empty() { ip::fs_crash_points(&format!("{root}/q0"), &format!("{root}/snap"), case.crash.clone()); }
    // every history starts with its queues
    let mut ops: Vec<Op> = (0..case.qs.len()).map(|q| Op::Create(q, if q == 0 { None } else { Some(150 + 400 * q as u64) }, if q == 0 { None } else { Some(q as u32) })).collect();
    ops.extend(case.ops.iter().cloned());
    while i <= ops.len() {
        let dir = format!("{root}/q{gen}");
        let cfg = config(case, &dir, &root);
        let down = sim.run(async {
            let s = Srv::start(&cfg).await;
            while i < ops.len() {
                if let Op::Restart { down } = &ops[i] {
                    m.settle(cx).await;
                    sleep_ms(2 * case.flush + 20).await;
                    ip::image(&dir, &format!("{root}/q{}", gen + 1));
                    return Ok(Some(*down));
                }
                ip::MARKS[0].store(i as u64 + 1, SeqCst);
                m.step(&s, case, i, &ops[i], cx).await?;
                ip::MARKS[1].store(i as u64 + 1, SeqCst);
                i += 1;
            }
            if case.crash.is_empty() { m.drain(&s, case, cx).await?; } else { sleep_ms(2 * case.flush).await; }
            Ok::<_, String>(None)
        })?;
        i += 1;
        if let Some(down) = down { sim.down(down); gen += 1; cx.label("restart"); }
    }
    Ok(m)
}

pub struct C07;
impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "some delivery had to choose among several never-delivered messages of one priority, another among priorities, and some batch held several messages";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 1, 24, 20, 5, 5, 0, 1, 0, 0, 3, 1, 1], false) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, cx)?;
        cx.nontrivial = cx.has("fifo-choice") && cx.has("priority-choice") && cx.has("batch");
        Ok(())
    }
}
pub struct C08;
impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a message was redelivered, another acked, and a visibility timeout ran out";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 1, 12, 20, 12, 7, 0, 1, 0, 0, 10, 2, 1], false) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, cx)?;
        cx.nontrivial = cx.has("redelivered") && cx.has("ack") && (cx.has("timeout-requeue") || cx.has("timeout-dlq"));
        Ok(())
    }
}
pub struct C09;
impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "messages were dead-lettered and a page of the dead-letter queue held some, and one was replayed, deleted or purged";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [2, 1, 8, 20, 3, 16, 6, 5, 3, 1, 8, 1, 1], false) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, cx)?;
        cx.nontrivial = (cx.has("nack-dlq") || cx.has("timeout-dlq")) && (cx.has("peek-one") || cx.has("peek-several")) && (cx.has("replay") || cx.has("dlq-delete") || cx.has("purge"));
        Ok(())
    }
}

// ---------------------------------------------------------------- C10
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum WOp {
    /// queue, batch, wait
    Ask(usize, Option<u64>, Option<u64>),
    /// the asking client goes away
    Abort(usize),
    Push(usize, Option<u8>, u32), Burst(usize, u8, u32), Ack(usize), Nack(usize), Move(usize), Wait(u64), WaitTimeout,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct WCase { vis: Vec<(u64, u32)>, default_wait: u64, batch: u64, ops: Vec<WOp> }
struct Waiter { p: Option<Pending>, inc: usize, want: u64, start: u64, wait: u64 }

struct Wake<'a> { m: Model, w: Vec<Waiter>, cx: &'a mut Cx }
impl Wake<'_> {
    /// Timeouts that were due at unix time `t`.
    fn due(&mut self, t: u64) {
        for k in 0..self.m.msgs.len() {
            if let St::Fly(u) = self.m.msgs[k].st {
                if u > t { continue; }
                if self.m.msgs[k].attempts >= self.m.incs[self.m.msgs[k].inc].max { self.m.put(k, St::Dlq, 0); } else { self.m.put(k, St::Wait, 0); self.cx.label("timeout-requeue"); }
            }
        }
    }
    async fn collect(&mut self, at: &str) -> Result<(), String> {
        settle().await;
        let mut done = vec![];
        for w in &mut self.w {
            if w.p.as_ref().is_some_and(|p| p.done()) {
                let (r, t) = w.p.take().unwrap().get(1000).await?;
                done.push((t + ip::BASE_REAL as u64 * 1000, r, w.inc, w.want, w.start, w.wait));
            }
        }
        done.sort_by_key(|d| d.0);
        for (t, r, inc, want, start, wait) in done {
            let what = format!("{at}: consume of queue {inc} (asked at {start}, wait {wait} ms) answered at {t}");
            let b = match r { Reply::Data(b) => b, x => return Err(format!("{what}: {x:?}")) };
            let got = parse_msgs(&b)?;
            if got.is_empty() {
                if t + 1 < start.saturating_add(wait) { return Err(format!("{what}: empty before its wait time was over")); }
                if t > start.saturating_add(wait).saturating_add(SLACK) { return Err(format!("{what}: empty, {} ms late", t - start - wait)); }
                self.cx.label(if wait == 0 { "empty-at-once" } else { "waited-in-vain" });
            } else {
                if t > start.saturating_add(wait).saturating_add(SLACK) { return Err(format!("{what}: {} ms late", t - start - wait)); }
                self.due(t);
                let kind = if t > start { "woken" } else { "served-at-once" };
                self.m.taken(&what, inc, &got, want, 0, t, false, self.cx)?;
                self.cx.label(kind);
                if t > start && got.iter().any(|g| self.m.msgs[self.m.by_id[&g.id]].attempts > 1) { self.cx.label("woken-by-return"); }
            }
        }
        let t = unix(now());
        self.due(t.saturating_sub(SLACK));
        for w in &self.w {
            if w.p.is_none() { continue; }
            let late = t.saturating_sub(w.start.saturating_add(w.wait));
            if late > SLACK { return Err(format!("{at}: consume of queue {} asked at {} with wait {} ms is still not answered at {t}", w.inc, w.start, w.wait)); }
            let ready = self.m.waiting(w.inc);
            if late == 0 && !ready.is_empty() { return Err(format!("{at}: at {t} a consumer has been waiting on queue {} since {} (wait {} ms) although {} message(s) are ready, e.g. {}", w.inc, w.start, w.wait, ready.len(), short(&self.m.msgs[ready[0]].payload))); }
        }
        self.w.retain(|w| w.p.is_some());
        Ok(())
    }
    async fn advance(&mut self, at: &str, ms: u64) -> Result<(), String> {
        let end = unix(now()) + ms;
        loop {
            let t = unix(now());
            if t >= end { return Ok(()); }
            let mut next = end;
            for m in &self.m.msgs { if let St::Fly(u) = m.st { if u.saturating_add(SLACK) > t { next = next.min(u + SLACK + 1); } } }
            for w in &self.w { if w.p.is_some() { let d = w.start.saturating_add(w.wait); if d > t { next = next.min(d); } else { next = next.min(d + SLACK + 1); } } }
            sleep_ms(next.max(t + 1) - t).await;
            self.collect(at).await?;
        }
    }
}
pub struct C10;
impl Prop for C10 {
    type Case = WCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "a waiting consumer was woken by a message, one of them returned by a nack, timeout or replay, and another consumer waited in vain for its whole time";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 8000 } else { 200_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<WCase> {
        let len = if i % 8 == 0 { 150usize } else { 40 };
        let wait = || prop_oneof![1 => Just(None), 2 => Just(Some(0u64)), 8 => (1u64..6000).prop_map(Some), 2 => (6000u64..60_000).prop_map(Some), 1 => prop_oneof![Just(u64::MAX), Just(i64::MAX as u64), any::<u64>()].prop_map(Some)];
        proptest::collection::vec((600u64..4000, 0u32..6), 1..3).prop_flat_map(move |vis| {
            let n = vis.len();
            let op = pick_one(vec![
                (8, (0..n, prop_oneof![2 => Just(None), 4 => Just(Some(1u64)), 4 => (2u64..6).prop_map(Some), 1 => Just(Some(1_000_000))], wait()).prop_map(|(q, b, w)| WOp::Ask(q, b, w)).boxed()),
                (1, (0usize..8).prop_map(WOp::Abort).boxed()),
                (4, (0..n, prop_oneof![Just(None), (0u8..4).prop_map(Some)], any::<u32>()).prop_map(|(q, p, t)| WOp::Push(q, p, t)).boxed()),
                (2, (0..n, 2u8..6, any::<u32>()).prop_map(|(q, k, t)| WOp::Burst(q, k, t)).boxed()),
                (2, (0usize..16).prop_map(WOp::Ack).boxed()),
                (3, (0usize..16).prop_map(WOp::Nack).boxed()),
                (2, (0usize..16).prop_map(WOp::Move).boxed()),
                (4, prop_oneof![1u64..200, 200u64..3000].prop_map(WOp::Wait).boxed()),
                (2, Just(WOp::WaitTimeout).boxed()),
            ]);
            (Just(vis), prop_oneof![2 => Just(0u64), 1 => 100u64..3000], 1u64..6, proptest::collection::vec(op, 1..len))
        }).prop_map(|(vis, default_wait, batch, ops)| WCase { vis, default_wait, batch, ops }).boxed()
    }
    fn run(case: &WCase, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root.clone());
        cfg.queue.default_batch_size = case.batch as usize;
        cfg.queue.default_wait_ms = case.default_wait;
        let n = case.vis.len();
        let mut r = Wake { m: Model { incs: vec![], cur: vec![], msgs: vec![], by_id: HashMap::new(), serial: 0, op: 0, unique: false }, w: vec![], cx };
        Sim::new().run(async {
            let s = Srv::start(&cfg).await;
            for (q, (v, m)) in case.vis.iter().enumerate() {
                s.q_create(&format!("q{q}"), &QOpts { vis_ms: Some(*v), max_retries: Some(*m) }).await??;
                r.m.incs.push(Inc { name: q, vis: *v, max: *m, made: (0, 0), gone: None });
                r.m.cur.push(Some(q));
            }
            let known = |m: &Model, st: fn(&St) -> bool, k: usize| -> Option<usize> {
                let v: Vec<usize> = (0..m.msgs.len()).filter(|j| m.msgs[*j].id.is_some() && st(&m.msgs[*j].st)).collect();
                if v.is_empty() { None } else { Some(v[k % v.len()]) }
            };
            for (i, o) in case.ops.iter().enumerate() {
                let at = format!("op {i}");
                // keep clear of the moment at which a timeout takes effect
                loop {
                    let t = unix(now());
                    let soon = r.m.msgs.iter().filter_map(|m| if let St::Fly(u) = m.st { (u < t + 20 && u + SLACK + 1 > t).then_some(u + SLACK + 1 - t) } else { None }).max();
                    match soon { Some(d) => r.advance(&at, d).await?, None => break }
                }
                match o {
                    WOp::Ask(q, b, w) => {
                        let p = s.begin(&format!("c{i}"), crate::wire::op::Q_CONSUME, Srv::q_consume_payload(&format!("q{q}"), *b, *w));
                        r.w.push(Waiter { p: Some(p), inc: *q, want: b.unwrap_or(case.batch), start: unix(now()), wait: w.unwrap_or(case.default_wait) });
                    }
                    WOp::Abort(k) => if !r.w.is_empty() { let k = k % r.w.len(); r.w[k].p.take().unwrap().abort(); r.w.remove(k); r.cx.label("abort"); },
                    WOp::Push(q, p, t) => { r.m.push_one(&s, *q, *p, *t).await?; if !r.w.is_empty() { r.cx.label("push-to-waiting"); } }
                    WOp::Burst(q, k, t) => for j in 0..*k { r.m.push_one(&s, *q, Some(j % 3), t.wrapping_add(j as u32)).await?; },
                    WOp::Ack(k) => if let Some(k) = known(&r.m, |s| matches!(s, St::Fly(_)), *k) {
                        s.q_ack(&format!("q{}", r.m.msgs[k].inc), r.m.msgs[k].id.unwrap()).await?.map_err(|e| format!("{at}: ack of {:?} at {} refused: {e}", r.m.msgs[k].st, unix(now())))?;
                        r.m.put(k, St::Gone, 0);
                    },
                    WOp::Nack(k) => if let Some(k) = known(&r.m, |s| matches!(s, St::Fly(_)), *k) {
                        let inc = r.m.msgs[k].inc;
                        s.q_nack(&format!("q{inc}"), r.m.msgs[k].id.unwrap(), "no").await?.map_err(|e| format!("{at}: nack refused: {e}"))?;
                        if r.m.msgs[k].attempts >= r.m.incs[inc].max { r.m.put(k, St::Dlq, 0); } else { r.m.put(k, St::Wait, 0); r.cx.label("nack-requeue"); }
                    },
                    WOp::Move(k) => if let Some(k) = known(&r.m, |s| *s == St::Dlq, *k) {
                        if !s.q_move(&format!("q{}", r.m.msgs[k].inc), r.m.msgs[k].id.unwrap()).await?.map_err(|e| format!("{at}: replay refused: {e}"))? { return Err(format!("{at}: replay did not find the dead-lettered message")); }
                        r.m.msgs[k].attempts = 0;
                        r.m.put(k, St::Wait, 0);
                        r.cx.label("replay");
                    },
                    WOp::Wait(ms) => r.advance(&at, *ms).await?,
                    WOp::WaitTimeout => { let t = unix(now()); if let Some(u) = r.m.msgs.iter().filter_map(|m| if let St::Fly(u) = m.st { Some(u) } else { None }).min() { r.advance(&at, (u + SLACK + 1).saturating_sub(t)).await?; } }
                }
                r.collect(&at).await?;
            }
            // all answers come in the end
            for k in 0..r.w.len() { if r.w[k].wait > 100_000_000 { if let Some(p) = r.w[k].p.take() { p.abort(); } } }
            r.w.retain(|w| w.p.is_some());
            while let Some(d) = r.w.iter().map(|w| w.start + w.wait + SLACK + 2).max() { let t = unix(now()); r.advance("end", d.saturating_sub(t).max(1)).await?; }
            Ok::<(), String>(())
        })?;
        let _ = n;
        cx.nontrivial = cx.has("woken") && cx.has("woken-by-return") && cx.has("waited-in-vain");
        Ok(())
    }
}
impl Model {
    async fn push_one(&mut self, s: &Srv, q: usize, p: Option<u8>, t: u32) -> Result<(), String> {
        let b = format!("m{}-{t}", self.msgs.len()).into_bytes();
        s.q_push(&format!("q{q}"), p, &b).await?.map_err(|e| format!("push refused: {e}"))?;
        self.msgs.push(Msg { inc: q, pri: p.unwrap_or(0), payload: b, id: None, st: St::Wait, attempts: 0, fresh: true, reason: String::new(), fail: (0, 0), fail_serial: None, hist: vec![] });
        Ok(())
    }
}

// ---------------------------------------------------------------- C11
pub struct C11;
struct Found { place: &'static str, attempts: u32, pri: Option<u8>, id: u128, reason: String }
fn tag(payload: &str) -> Option<usize> { payload.strip_prefix('m')?.split(':').next()?.parse().ok() }

impl C11 {
    /// Compare a server started from a crash image with what the messages may look like.
    fn recovered(sim: &mut Sim, cfg: &nexo::config::Config, case: &Case, m: &Model, sn: &ip::Snap, w: u64, what: &str, cx: &mut Cx) -> Result<(), String> {
        let (started, confirmed) = (sn.marks[0], sn.marks[1]);
        let boot = unix(sim.vt);
        sim.run(async {
            let s = Srv::start(cfg).await;
            let h = Http::start(&s).await;
            let list = h.json("/api/queue").await?;
            let list = list.as_array().ok_or(format!("{what}: queue list is not a list"))?;
            for q in list { let n = q["name"].as_str().unwrap_or(""); if !case.qs.iter().any(|x| x == n) { return Err(format!("{what}: a queue {n:?} appeared")); } }
            for (qi, name) in case.qs.iter().enumerate() {
                let ex = s.q_exists(name).await??;
                // incarnations this name may have at the crash
                let may: Vec<usize> = (0..m.incs.len()).filter(|k| m.incs[*k].name == qi && m.incs[*k].made.0 <= started && m.incs[*k].gone.is_none_or(|g| g.0 > confirmed)).collect();
                let must = may.iter().any(|k| m.incs[*k].made.0 <= confirmed && m.incs[*k].gone.is_none_or(|g| g.0 > started));
                if !ex {
                    if must { return Err(format!("{what}: the queue {name:?} is gone")); }
                    continue;
                }
                if may.is_empty() { return Err(format!("{what}: the deleted or never created queue {name:?} exists")); }
                let inc = may[0];
                let ic = &m.incs[inc];
                let summary = list.iter().find(|q| q["name"] == name.as_str()).ok_or(format!("{what}: {name:?} is missing in the queue list"))?;
                let firm = ic.made.0 <= confirmed;
                let (v, r) = (summary["config"]["visibility_timeout_ms"].as_u64(), summary["config"]["max_retries"].as_u64());
                if firm && (v != Some(ic.vis) || r != Some(ic.max as u64)) { return Err(format!("{what}: {name:?} came back with settings {v:?}/{r:?}, it was created with {}/{}", ic.vis, ic.max)); }
                let mut found: HashMap<usize, Vec<Found>> = HashMap::new();
                for place in ["pending", "inflight"] {
                    let v = h.json(&format!("/api/queue/{}/messages?state={place}&limit=1000", enc(name))).await?;
                    for x in v["messages"].as_array().ok_or("no messages")? {
                        let p = x["payload"].as_str().unwrap_or("");
                        let k = tag(p).ok_or(format!("{what}: {name:?} holds a {place} message with foreign payload {p:?}"))?;
                        let id = x["id"].as_str().and_then(|s| uuid::Uuid::parse_str(s).ok()).ok_or("bad id")?.as_u128();
                        found.entry(k).or_default().push(Found { place, attempts: x["attempts"].as_u64().unwrap_or(9999) as u32, pri: x["priority"].as_u64().map(|p| p as u8), id, reason: String::new() });
                    }
                }
                let (total, dl) = s.q_peek(name, u32::MAX, 0).await??;
                if total as usize != dl.len() { return Err(format!("{what}: peek lists {} of {total}", dl.len())); }
                for d in dl {
                    let k = tag(&String::from_utf8_lossy(&d.payload)).ok_or(format!("{what}: foreign dead-lettered payload {}", short(&d.payload)))?;
                    if m.msgs.get(k).is_none_or(|x| x.payload != d.payload) { return Err(format!("{what}: dead-lettered payload {} differs", short(&d.payload))); }
                    found.entry(k).or_default().push(Found { place: "dlq", attempts: d.attempts, pri: None, id: d.id, reason: d.reason });
                }
                let tb = unix(now());
                let mut still_fresh: Vec<usize> = vec![];
                let mut flying: HashMap<usize, Vec<u64>> = HashMap::new();
                let mut pending = 0;
                for k in 0..m.msgs.len() {
                    let msg = &m.msgs[k];
                    let f = found.remove(&k).unwrap_or_default();
                    if msg.inc != inc { if !f.is_empty() { return Err(format!("{what}: message {k} of another queue or incarnation appeared in {name:?}")); } continue; }
                    if f.len() > 1 { return Err(format!("{what}: message {k} is in {:?} at once", f.iter().map(|f| f.place).collect::<Vec<_>>())); }
                    let f = f.first();
                    let all: Vec<&Ver> = msg.hist.iter().collect();
                    let ok: Vec<&Ver> = (0..all.len()).filter(|j| all[*j].lo <= sn.vt && all.get(j + 1).is_none_or(|n| n.hi + w >= sn.vt)).map(|j| all[j]).collect();
                    let fits = |v: &&Ver| -> bool {
                        match (&v.st, f) {
                            (St::Absent | St::Gone, None) => true,
                            (St::Wait, Some(f)) => f.place == "pending" && f.attempts == v.attempts,
                            (St::Fly(u), Some(f)) => f.attempts == v.attempts && match f.place {
                                "inflight" => true,
                                "pending" => *u <= tb && v.attempts < ic.max,
                                _ => *u <= tb && v.attempts >= ic.max && timeout_reason(&f.reason),
                            },
                            (St::Dlq, Some(f)) => f.place == "dlq" && f.attempts == v.attempts && if v.reason == "\u{0}timeout" { timeout_reason(&f.reason) } else { f.reason == v.reason },
                            _ => false,
                        }
                    };
                    let hit: Vec<&&Ver> = ok.iter().filter(|v| fits(v)).collect();
                    if hit.is_empty() {
                        return Err(format!("{what}: message {k} ({}) is {} now, but since the last flush it was only {:?}", short(&msg.payload), f.map(|f| format!("{} with {} deliveries {:?}", f.place, f.attempts, f.reason)).unwrap_or("nowhere".into()),
                            ok.iter().map(|v| (&v.st, v.attempts, v.lo / 1_000_000)).collect::<Vec<_>>()));
                    }
                    if let Some(f) = f {
                        if f.pri.is_some_and(|p| p != msg.pri) { return Err(format!("{what}: message {k} has priority {:?}, it was pushed with {}", f.pri, msg.pri)); }
                        if msg.id.is_some_and(|i| i != f.id) { return Err(format!("{what}: message {k} changed its id")); }
                        match f.place {
                            "pending" => { pending += 1; cx.label("recovered-waiting"); if hit.iter().all(|v| v.fresh) { still_fresh.push(k); } }
                            "inflight" => { flying.insert(k, hit.iter().filter_map(|v| if let St::Fly(u) = v.st { Some(u) } else { None }).collect()); cx.label("recovered-inflight"); }
                            _ => cx.label("recovered-dead"),
                        }
                    } else if hit.iter().any(|v| v.st == St::Gone) { cx.label("stays-gone"); }
                }
                if let Some(k) = found.keys().next() { return Err(format!("{what}: unknown message {k} in {name:?}")); }
                // waiting messages come out, never-delivered ones in push order within their priority
                let t0 = unix(now());
                let got = s.q_consume(name, Some(100_000), None).await?.map_err(|e| format!("{what}: consume refused: {e}"))?;
                let mut order: Vec<usize> = vec![];
                let (mut lastp, mut seen) = (255u8, 0);
                for g in &got {
                    let k = tag(&String::from_utf8_lossy(&g.payload)).filter(|k| m.msgs.get(*k).is_some_and(|x| x.payload == g.payload)).ok_or(format!("{what}: delivered payload {} was never pushed", short(&g.payload)))?;
                    if let Some(us) = flying.remove(&k) { if !us.iter().any(|u| *u <= unix(now())) { return Err(format!("{what}: message {k} delivered at {t0}, still invisible until {us:?}")); } } else { seen += 1; }
                    if m.msgs[k].pri > lastp { return Err(format!("{what}: message {k} of priority {} came after priority {lastp}", m.msgs[k].pri)); }
                    lastp = m.msgs[k].pri;
                    if still_fresh.contains(&k) { order.push(k); }
                    s.q_ack(name, g.id).await?.map_err(|e| format!("{what}: ack refused: {e}"))?;
                }
                if seen != pending { return Err(format!("{what}: {pending} messages were listed as waiting, {seen} of them were delivered")); }
                for a in order.windows(2) { if m.msgs[a[0]].pri == m.msgs[a[1]].pri && a[0] > a[1] { return Err(format!("{what}: message {} came before {}, which was pushed earlier with the same priority", a[0], a[1])); } }
                if order.len() > 1 { cx.label("recovered-order"); }
                // invisible ones come back when their time is over
                flying.retain(|_, us| us.iter().all(|u| *u < boot + 400_000));
                while !flying.is_empty() {
                    let last = flying.values().flatten().max().unwrap() + SLACK;
                    let t = unix(now());
                    if t > last { break; }
                    let got = s.q_consume(name, Some(1), Some(last - t + 1)).await?.map_err(|e| format!("{what}: consume refused: {e}"))?;
                    for g in &got {
                        let k = tag(&String::from_utf8_lossy(&g.payload)).filter(|k| m.msgs.get(*k).is_some_and(|x| x.payload == g.payload)).ok_or(format!("{what}: delivered payload {} was never pushed", short(&g.payload)))?;
                        let t = unix(now());
                        let us = flying.remove(&k).ok_or(format!("{what}: message {k} was delivered twice"))?;
                        if !us.iter().any(|u| *u <= t && t <= (*u).max(boot) + SLACK) { return Err(format!("{what}: message {k} delivered at {t}, its invisibility ended at {us:?}")); }
                        cx.label("invisibility-kept");
                        s.q_ack(name, g.id).await?.map_err(|e| format!("{what}: ack refused: {e}"))?;
                    }
                }
                if !flying.is_empty() {
                    let (_, dl) = s.q_peek(name, u32::MAX, 0).await??;
                    for k in flying.keys() {
                        if !dl.iter().any(|d| d.payload == m.msgs[*k].payload && timeout_reason(&d.reason)) { return Err(format!("{what}: message {k} was invisible until {:?} and is still not delivered or dead-lettered", flying[k])); }
                    }
                }
            }
            Ok(())
        })
    }
}
impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "at some crash point a waiting message, and an in-flight or dead-lettered one, were recovered and an acked or deleted one stayed away";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 120_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 1, 14, 14, 8, 8, 0, 3, 1, 1, 8, 0, 0], true) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let m = history(case, cx)?;
        let (snaps, total) = ip::fs_take_snaps();
        cx.add("disk-writes", total);
        let w = (case.flush + 20) * 1_000_000;
        for sn in snaps {
            cx.label("crash-point");
            if sn.torn { cx.label("torn-write"); }
            let cfg = config(case, &sn.dir, &root);
            let mut s2 = Sim::at(sn.vt);
            s2.down(case.down);
            let what = format!("crash at disk write {} ({} {}{}, {} ms, op {}), down {} ms", sn.at_write, sn.op, sn.path.rsplit('/').next().unwrap_or(""), if sn.torn { ", torn" } else { "" }, sn.vt / 1_000_000, sn.marks[0], case.down);
            Self::recovered(&mut s2, &cfg, case, &m, &sn, w, &what, cx)?;
        }
        cx.nontrivial = cx.has("recovered-waiting") && (cx.has("recovered-inflight") || cx.has("recovered-dead")) && cx.has("stays-gone");
        Ok(())
    }
}
