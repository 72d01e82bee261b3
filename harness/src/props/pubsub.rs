//! C03, C05, C06: pub/sub against a model of patterns and retained values.
use super::gen::*;
use crate::eng::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// Pattern semantics of the documentation, written from scratch.
pub fn matches(pat: &str, topic: &str) -> bool {
    fn go(p: &[&str], t: &[&str]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some(&"#") => true,
            Some(&"+") => !t.is_empty() && go(&p[1..], &t[1..]),
            Some(x) => t.first() == Some(x) && go(&p[1..], &t[1..]),
        }
    }
    go(&pat.split('/').collect::<Vec<_>>(), &topic.split('/').collect::<Vec<_>>())
}

fn seg() -> BoxedStrategy<String> {
    prop_oneof![
        12 => "[abc]".prop_map(String::from), 2 => Just(String::new()), 1 => "[a-z]{2,8}".prop_map(String::from),
        1 => prop_oneof![Just("a+".to_string()), Just("#b".to_string()), Just("++".to_string()), Just("a b".to_string()), Just("$x".to_string()), Just("é".to_string()), Just("*".to_string()), Just("A".to_string()), Just("%".to_string())],
    ].boxed()
}
pub fn topic() -> BoxedStrategy<String> {
    proptest::collection::vec(seg(), 1..5).prop_map(|v| v.join("/")).boxed()
}
pub fn pattern() -> BoxedStrategy<String> {
    (proptest::collection::vec(prop_oneof![3 => seg(), 1 => Just("+".to_string())], 0..4), prop_oneof![2 => Just(false), 1 => Just(true)])
        .prop_map(|(mut v, h)| { if h { v.push("#".into()); } else if v.is_empty() { v.push("a".into()); } v.join("/") }).boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Connect(usize), Disconnect(usize), DropRx(usize),
    Sub(usize, usize), Unsub(usize, usize),
    /// by, topic, payload, retain flag, ttl
    Pub(usize, usize, Pay, Option<bool>, Option<u64>),
    Wait(u64), Jump(u64),
    /// stop after a quiet flush / at a disk write; down time in ms
    Restart { flush_first: bool, down: u64 },
    /// a fresh client subscribes to everything and leaves again
    Look,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { pub topics: Vec<String>, pub pats: Vec<String>, pub default_ttl: u64, pub cleanup: u64, pub flush: u64, pub ops: Vec<Op>,
    /// writes between disk images, torn fraction
    pub crash: Vec<(u64, Option<u16>)>, pub down: u64 }

const NC: usize = 4;
fn rttl() -> BoxedStrategy<Option<u64>> {
    prop_oneof![3 => Just(None), 6 => (1u64..8).prop_map(Some), 2 => (8u64..500).prop_map(Some), 1 => prop_oneof![Just(u64::MAX), Just(i64::MAX as u64), Just(u64::MAX - 1_800_000_000), any::<u64>().prop_map(|x| x.max(1))].prop_map(Some)].boxed()
}
fn rpay() -> BoxedStrategy<Pay> { prop_oneof![5 => pay(), 1 => Just(Pay::B(vec![]))].boxed() }

fn op(nt: usize, np: usize, w: [u32; 10]) -> BoxedStrategy<Op> {
    let ret = prop_oneof![3 => Just(Some(true)), 1 => Just(Some(false)), 1 => Just(None)];
    let wait = || prop_oneof![1u64..50, 50u64..600, 600u64..3000, Just(1000), Just(999), Just(1001)];
    prop_oneof![
        w[0] => (0..NC).prop_map(Op::Connect),
        w[1] => (0..NC).prop_map(Op::Disconnect),
        w[2] => (0..NC).prop_map(Op::DropRx),
        w[3] => (0..NC, 0..np).prop_map(|(c, p)| Op::Sub(c, p)),
        w[4] => (0..NC, 0..np).prop_map(|(c, p)| Op::Unsub(c, p)),
        w[5] => (0..NC, 0..nt, rpay(), ret, rttl()).prop_map(|(c, t, p, r, l)| Op::Pub(c, t, p, r, l)),
        w[6] => wait().prop_map(Op::Wait),
        w[7] => (1000u64..200_000).prop_map(Op::Jump),
        w[8] => (any::<bool>(), prop_oneof![Just(0u64), 1u64..3000, 3000u64..10_000, 10_000u64..500_000]).prop_map(|(f, d)| Op::Restart { flush_first: f, down: d }),
        w[9] => Just(Op::Look),
    ].boxed()
}
fn case(i: u64, w: [u32; 10], crash: bool) -> BoxedStrategy<Case> {
    let len = if i % 4 == 0 { 220usize } else { 70 };
    let crash: BoxedStrategy<Vec<(u64, Option<u16>)>> = if crash {
        proptest::collection::vec((0u64..25, prop_oneof![1 => Just(None), 1 => any::<u16>().prop_map(Some)]), 1..8).boxed()
    } else { Just(vec![]).boxed() };
    (proptest::collection::btree_set(topic(), 1..7), proptest::collection::btree_set(pattern(), 1..7), 2u64..9, 1u64..5, prop_oneof![Just(500u64), Just(100), Just(1500)], crash, prop_oneof![Just(0u64), 1u64..3000, 3000u64..20_000], any::<u32>())
        .prop_flat_map(move |(t, p, default_ttl, cleanup, flush, crash, down, mix)| {
            let topics: Vec<String> = t.into_iter().collect();
            // some patterns are the topics themselves
            let mut pats: Vec<String> = p.into_iter().collect();
            // and some are topics with segments replaced by wildcards
            for (j, t) in topics.iter().enumerate() {
                let sg: Vec<&str> = t.split('/').collect();
                let mask = mix.rotate_right(5 * j as u32);
                let cut = (mask >> 8) as usize % (2 * sg.len() + 2);
                let mut v: Vec<&str> = sg.iter().enumerate().map(|(k, s)| if mask >> k & 1 == 1 { "+" } else { s }).take(if cut <= sg.len() { cut } else { sg.len() }).collect();
                if cut <= sg.len() { v.push("#"); }
                let p = v.join("/");
                if !pats.contains(&p) && mask & 0x40 == 0 { pats.push(p); }
            }
            for t in topics.iter().take(3) { if !pats.contains(t) { pats.push(t.clone()); } }
            let (nt, np) = (topics.len(), pats.len());
            proptest::collection::vec(op(nt, np, w), 1..len).prop_map(move |ops| Case { topics: topics.clone(), pats: pats.clone(), default_ttl, cleanup, flush, ops, crash: crash.clone(), down })
        }).boxed()
}

/// One retained value in force from `from` on; None = cleared or never set.
#[derive(Clone, Debug)]
struct Ver { from: u128, val: Option<(Vec<u8>, u128)> }

struct Cl { id: String, push: Option<Push>, subs: BTreeSet<usize>, alive: bool }

struct Model { retained: BTreeMap<usize, Vec<Ver>>, serial: usize, /// expiry may be off by this many ns for values loaded from disk
    loaded: BTreeMap<usize, ()> }

pub struct Run<'a> { case: &'a Case, cx: &'a mut Cx, cl: Vec<Cl>, m: Model, check_retained: bool, /// let time pass timer by timer (a jump would delay the flush itself)
    smooth: bool }

const SEC: u128 = 1_000_000_000;
fn now() -> u128 { ip::vt_now() as u128 }

/// What a subscriber may see of one topic at `t`: Ok(Some(bytes))/Ok(None) exact, Err(bytes) either.
fn view(v: Option<&Ver>, slack: u128, t: u128) -> Result<Option<Vec<u8>>, Vec<u8>> {
    match v.and_then(|v| v.val.clone()) {
        None => Ok(None),
        Some((b, exp)) => {
            if t + 2_000_000 >= exp.saturating_sub(slack) && t <= exp + slack.min(SEC) + 2_000_000 { Err(b) } else if t < exp { Ok(Some(b)) } else { Ok(None) }
        }
    }
}

impl<'a> Run<'a> {
    fn new(case: &'a Case, cx: &'a mut Cx, check_retained: bool) -> Self {
        Run { case, cx, cl: (0..NC).map(|i| Cl { id: format!("client-{i}"), push: None, subs: BTreeSet::new(), alive: false }).collect(),
            m: Model { retained: BTreeMap::new(), serial: 0, loaded: BTreeMap::new() }, check_retained, smooth: false }
    }
    fn quiet(&mut self, i: usize) -> Result<(), String> {
        for c in &mut self.cl {
            if let Some(p) = c.push.as_mut() {
                let d = p.drain()?;
                if !d.is_empty() { return Err(format!("op {i}: {} received {:?} although nothing was due", c.id, d.iter().map(|x| &x.0).collect::<Vec<_>>())); }
            }
        }
        Ok(())
    }
    fn expect_retained(&mut self, i: usize, pat: &str, got: Vec<(String, Vec<u8>)>) -> Result<(), String> {
        let mut by: BTreeMap<&str, &Vec<u8>> = BTreeMap::new();
        for (t, p) in &got {
            if by.insert(t, p).is_some() { return Err(format!("op {i}: subscribing to {pat:?} delivered topic {t:?} twice")); }
            if !self.case.topics.contains(t) { return Err(format!("op {i}: subscribing to {pat:?} delivered topic {t:?}, to which nobody published")); }
        }
        for (k, t) in self.case.topics.iter().enumerate() {
            let g = by.get(t.as_str()).map(|b| (*b).clone());
            let v = self.m.retained.get(&k).and_then(|v| v.last());
            let slack = if self.m.loaded.contains_key(&k) { SEC + 200_000_000 } else { 0 };
            let want = if matches(pat, t) { view(v, slack, now()) } else { Ok(None) };
            match (&want, &g) {
                (Ok(w), g) if w == g => { if w.is_some() { self.cx.label("retained-hit"); } else if v.is_some_and(|v| v.val.is_some()) && matches(pat, t) { self.cx.label("retained-expired"); } else if v.is_some() && matches(pat, t) { self.cx.label("retained-cleared"); } }
                (Err(_), None) => self.cx.label("retained-edge"),
                (Err(w), Some(g)) if w == g => self.cx.label("retained-edge"),
                _ => return Err(format!("op {i}: subscribing to {pat:?} at {} ms: topic {t:?} delivered {}, retained should be {:?} (expires at {:?} ms)", now() / 1_000_000,
                    g.as_ref().map(|b| short(b)).unwrap_or("nothing".into()), want.as_ref().map(|o| o.as_ref().map(|b| short(b))).map_err(|b| short(b)), v.and_then(|v| v.val.as_ref().map(|x| x.1 / 1_000_000)))),
            }
        }
        Ok(())
    }
    async fn look(&mut self, s: &Srv, i: usize, pat: &str) -> Result<(), String> {
        self.m.serial += 1;
        let id = format!("look-{}", self.m.serial);
        let mut p = s.connect(&id);
        s.sub(&id, pat).await?.map_err(|e| format!("op {i}: SUB refused: {e}"))?;
        let got = p.drain()?;
        s.disconnect(&id).await;
        self.expect_retained(i, pat, got)
    }
    async fn step(&mut self, s: &Srv, i: usize, o: &Op) -> Result<(), String> {
        match o {
            Op::Connect(c) => {
                if self.cl[*c].alive { return Ok(()); }
                self.m.serial += 1;
                let id = format!("client-{c}-{}", self.m.serial);
                let p = s.connect(&id);
                self.cl[*c] = Cl { id, push: Some(p), subs: BTreeSet::new(), alive: true };
            }
            Op::Disconnect(c) => {
                let id = self.cl[*c].id.clone();
                s.disconnect(&id).await;
                self.cl[*c].alive = false; self.cl[*c].push = None;
                if !self.cl[*c].subs.is_empty() { self.cx.label("disconnect-subscribed"); }
                self.cl[*c].subs.clear();
            }
            Op::DropRx(c) => { self.cl[*c].alive = false; self.cl[*c].push = None; self.cl[*c].subs.clear(); }
            Op::Sub(c, p) => {
                if !self.cl[*c].alive { return Ok(()); }
                let id = self.cl[*c].id.clone();
                let pat = self.case.pats[*p].clone();
                s.sub(&id, &pat).await?.map_err(|e| format!("op {i}: SUB {pat:?} refused: {e}"))?;
                self.cl[*c].subs.insert(*p);
                let got = self.cl[*c].push.as_mut().unwrap().drain()?;
                if self.check_retained { self.expect_retained(i, &pat, got)?; }
            }
            Op::Unsub(c, p) => {
                if !self.cl[*c].alive { return Ok(()); }
                let id = self.cl[*c].id.clone();
                s.unsub(&id, &self.case.pats[*p]).await?.map_err(|e| format!("op {i}: UNSUB refused: {e}"))?;
                if self.cl[*c].subs.remove(p) { self.cx.label("unsub-held"); }
            }
            Op::Pub(c, t, p, r, ttl) => {
                let (topic, b) = (self.case.topics[*t].clone(), p.bytes());
                let id = if self.cl[*c].alive { self.cl[*c].id.clone() } else { "outsider".into() };
                let t0 = now();
                let res = s.publish(&id, &topic, *r, *ttl, &b).await?;
                if let Err(e) = res {
                    if ttl.is_some_and(|t| t > 1_000_000_000) { self.cx.label("ttl-rejected"); return self.quiet(i); }
                    return Err(format!("op {i}: PUB {topic:?} refused: {e}"));
                }
                if *r == Some(true) {
                    let val = if b.is_empty() { None } else { Some((b.clone(), t0 + ttl.unwrap_or(self.case.default_ttl) as u128 * SEC)) };
                    self.cx.label(if val.is_some() { "retain-set" } else { "retain-clear" });
                    self.m.retained.entry(*t).or_default().push(Ver { from: t0, val });
                    self.m.loaded.remove(t);
                } else if self.m.retained.contains_key(t) { self.cx.label("plain-over-retained"); }
                for k in 0..self.cl.len() {
                    if !self.cl[k].alive { continue; }
                    let n = self.cl[k].subs.iter().filter(|p| matches(&self.case.pats[**p], &topic)).count();
                    let got = self.cl[k].push.as_mut().unwrap().drain()?;
                    let want: Vec<(String, Vec<u8>)> = if n > 0 { vec![(topic.clone(), b.clone())] } else { vec![] };
                    if got != want {
                        let subs: Vec<_> = self.cl[k].subs.iter().map(|p| &self.case.pats[*p]).collect();
                        return Err(format!("op {i}: publish to {topic:?} delivered {} message(s) {:?} to {} with subscriptions {subs:?}, expected {}", got.len(), got.iter().map(|x| (&x.0, short(&x.1))).collect::<Vec<_>>(), self.cl[k].id, want.len()));
                    }
                    match n { 0 => self.cx.label("not-delivered"), 1 => self.cx.label("delivered"), _ => { self.cx.label("delivered"); self.cx.label("delivered-overlapping") } }
                }
            }
            Op::Wait(ms) => sleep_ms(*ms).await,
            Op::Jump(ms) => if self.smooth { sleep_ms(*ms).await } else { jump_ms(*ms).await },
            Op::Look => {
                if self.check_retained {
                    self.look(s, i, "#").await?;
                    for t in self.case.topics.clone() { self.look(s, i, &t).await?; }
                    for p in self.case.pats.clone() { self.look(s, i, &p).await?; }
                }
            }
            Op::Restart { .. } => unreachable!(),
        }
        self.quiet(i)
    }
    fn gone(&mut self) { for c in &mut self.cl { c.alive = false; c.push = None; c.subs.clear(); } }
}

fn config(case: &Case, root: &str, gen: usize) -> nexo::config::Config {
    let mut cfg = base_config(root);
    cfg.pubsub.persistence_path = format!("{root}/ps{gen}");
    cfg.pubsub.cleanup_interval_seconds = case.cleanup;
    cfg.pubsub.retained_flush_ms = case.flush;
    cfg.pubsub.default_retained_ttl_seconds = case.default_ttl;
    cfg
}
fn env(case: &Case) -> Vec<(String, String)> { vec![("PUBSUB_DEFAULT_RETAINED_TTL_SECS".into(), case.default_ttl.to_string())] }

fn simple(case: &Case, cx: &mut Cx, check_retained: bool) -> Result<(), String> {
    let cfg = config(case, &cx.root.clone(), 0);
    let mut run = Run::new(case, cx, check_retained);
    Sim::new().run(async {
        let s = Srv::start(&cfg).await;
        for (i, o) in case.ops.iter().enumerate() { run.step(&s, i, o).await?; }
        // all gone: nobody is left registered
        for c in 0..NC { run.step(&s, usize::MAX, &Op::Disconnect(c)).await?; }
        if !case.ops.iter().any(|o| matches!(o, Op::DropRx(_))) {
            let snap = s.eng.pubsub.scan_topics(1000, 0, None);
            if snap.active_clients != 0 || snap.topics.iter().any(|t| t.subscribers != 0) { return Err(format!("after everyone left the server still lists {} clients and subscribed topics {:?}", snap.active_clients, snap.topics.iter().filter(|t| t.subscribers > 0).map(|t| &t.full_path).collect::<Vec<_>>())); }
        }
        Ok(())
    })
}

pub struct C03;
impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "some publish reached a client through two or more overlapping patterns, some connected client correctly did not get one, and a held subscription was removed";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 16000 } else { 400_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [6, 1, 1, 10, 5, 16, 1, 1, 0, 0], false) }
    fn env(c: &Case) -> Vec<(String, String)> { env(c) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        simple(case, cx, false)?;
        cx.nontrivial = cx.has("delivered-overlapping") && cx.has("not-delivered") && (cx.has("unsub-held") || cx.has("disconnect-subscribed"));
        Ok(())
    }
}
pub struct C05;
impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "a subscriber got a retained value and another subscription met a cleared or expired one";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 14000 } else { 300_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [5, 1, 0, 8, 2, 14, 4, 1, 0, 4], false) }
    fn env(c: &Case) -> Vec<(String, String)> { env(c) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        simple(case, cx, true)?;
        cx.nontrivial = cx.has("retained-hit") && (cx.has("retained-expired") || cx.has("retained-cleared"));
        Ok(())
    }
}

pub struct C06;
impl C06 {
    /// Subscribe to everything on a server started from `dir` and compare each topic with the values it may hold.
    fn recovered(sim: &mut Sim, cfg: &nexo::config::Config, case: &Case, allowed: &BTreeMap<usize, Vec<Ver>>, what: &str, cx: &mut Cx) -> Result<BTreeMap<usize, Ver>, String> {
        let got = sim.run(async {
            let s = Srv::start(cfg).await;
            let mut p = s.connect("reader");
            s.sub("reader", "#").await?.map_err(|e| format!("SUB refused: {e}"))?;
            p.drain()
        })?;
        let t = now();
        let mut by: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (k, v) in got {
            if !case.topics.contains(&k) { return Err(format!("{what}: retained topic {k:?} appeared, to which nobody published")); }
            if by.insert(k.clone(), v).is_some() { return Err(format!("{what}: topic {k:?} delivered twice")); }
        }
        let mut out = BTreeMap::new();
        for (k, name) in case.topics.iter().enumerate() {
            let g = by.get(name);
            let none = vec![Ver { from: 0, val: None }];
            let al = allowed.get(&k).unwrap_or(&none);
            // a value loaded from disk expires up to a second early (stored in whole seconds)
            let hit = al.iter().rev().find(|v| match (view(Some(v), SEC + 200_000_000, t), g) { (Ok(w), g) => w.as_ref() == g, (Err(_), None) => true, (Err(w), Some(g)) => w == *g });
            match hit {
                Some(v) => {
                    if g.is_some() { cx.label("survived"); } else if v.val.is_some() { cx.label("expired-by-restart"); } else if allowed.contains_key(&k) { cx.label("cleared-stays"); }
                    out.insert(k, v.clone());
                }
                None => return Err(format!("{what} (at {} ms): topic {name:?} now retains {}, but only these were current: {:?}", t / 1_000_000, g.map(|b| short(b)).unwrap_or("nothing".into()),
                    al.iter().map(|v| (v.from / 1_000_000, v.val.as_ref().map(|x| (short(&x.0), x.1 / 1_000_000)))).collect::<Vec<_>>())),
            }
        }
        Ok(out)
    }
    /// Versions that were in force at some time in [t - window, t].
    fn window(m: &BTreeMap<usize, Vec<Ver>>, t: u128, w: u128) -> BTreeMap<usize, Vec<Ver>> {
        m.iter().map(|(k, v)| {
            let mut all = vec![Ver { from: 0, val: None }];
            all.extend(v.iter().filter(|x| x.from <= t).cloned());
            let start = all.iter().rposition(|x| x.from + w <= t).unwrap_or(0);
            (*k, all[start..].to_vec())
        }).collect()
    }
}
impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "after a restart or at a crash point some retained value survived, and some topic had been overwritten, cleared or had expired";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 120_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, [1, 0, 0, 1, 0, 16, 6, 1, if i % 2 == 0 { 3 } else { 0 }, 2], i % 2 == 1) }
    fn env(c: &Case) -> Vec<(String, String)> { env(c) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut sim = Sim::new();
        let mut gen = 0;
        let mut ops = case.ops.clone();
        ops.push(Op::Look);
        let mut run = Run::new(case, cx, true);
        run.smooth = true;
        let w = (case.flush as u128 + 20) * 1_000_000;
        let mut i = 0;
        if !case.crash.is_empty() {
            let data = format!("{root}/ps0");
            ip::fs_crash_points(&data, &format!("{root}/snap"), case.crash.clone());
        }
        while i < ops.len() {
            let cfg = config(case, &root, gen);
            let (mut restart, mut slack) = (None, 0);
            sim.run(async {
                let s = Srv::start(&cfg).await;
                while i < ops.len() {
                    if let Op::Restart { flush_first, down } = &ops[i] {
                        if *flush_first { sleep_ms(case.flush + 20).await; } else { slack = w; }
                        restart = Some(*down);
                        ip::image(&cfg.pubsub.persistence_path, &format!("{root}/ps{}", gen + 1));
                        return Ok(());
                    }
                    run.step(&s, i, &ops[i]).await?;
                    i += 1;
                }
                Ok::<(), String>(())
            })?;
            if let Some(down) = restart {
                let t = now();
                let allowed = if slack == 0 { run.m.retained.iter().map(|(k, v)| (*k, vec![v.last().unwrap().clone()])).collect() } else { Self::window(&run.m.retained, t, slack) };
                run.gone();
                sim.down(down);
                gen += 1;
                run.cx.label("restart");
                // look first on a copy, so that the run continues from untouched files
                let copy = format!("{root}/look{gen}");
                ip::image(&format!("{root}/ps{gen}"), &copy);
                let mut c2 = config(case, &root, gen);
                c2.pubsub.persistence_path = copy;
                let mut s2 = Sim::at(sim.vt);
                let now_held = Self::recovered(&mut s2, &c2, case, &allowed, &format!("op {i}: restart after {down} ms"), run.cx)?;
                let t = now();
                let _ = t;
                ip::vt_set(sim.vt);
                for (k, v) in now_held { run.m.loaded.insert(k, ()); run.m.retained.insert(k, vec![v]); }
                i += 1;
            }
        }
        if !case.crash.is_empty() {
            let (snaps, total) = ip::fs_take_snaps();
            run.cx.add("disk-writes", total);
            for sn in snaps {
                run.cx.label("crash-point");
                if sn.torn { run.cx.label("torn-write"); }
                let allowed = Self::window(&run.m.retained, sn.vt as u128, w);
                let mut c2 = config(case, &root, 0);
                c2.pubsub.persistence_path = sn.dir.clone();
                let mut s2 = Sim::at(sn.vt);
                s2.down(case.down);
                Self::recovered(&mut s2, &c2, case, &allowed, &format!("crash at disk write {} ({} {}{}, {} ms), down {} ms", sn.at_write, sn.op, sn.path.rsplit('/').next().unwrap_or(""), if sn.torn { ", torn" } else { "" }, sn.vt / 1_000_000, case.down), run.cx)?;
            }
        }
        cx.nontrivial = cx.has("survived") && (cx.has("cleared-stays") || cx.has("expired-by-restart") || cx.get("retain-set") > 2) && (cx.has("restart") || cx.has("crash-point"));
        Ok(())
    }
}
