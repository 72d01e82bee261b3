//! C25: however a connection ends, what it held is released at once and nobody else notices.
use super::pubsub::matches;
use crate::conn::*;
use crate::eng::*;
use crate::http::*;
use crate::runner::*;
use crate::sim::*;
use crate::wire::{op, Rd, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;

const FOREVER: u64 = 36_000_000;
const TOPICS: [&str; 4] = ["a", "a/b", "c", "c/d/e"];
const PATS: [&str; 8] = ["a", "a/b", "a/+", "#", "+", "+/b", "c/#", "c/d/e"];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Last { Sub(usize), Join(usize, usize), Fetch(usize), WaitFetch(usize), WaitPop(usize), Echo(u32), Pub(usize), Ack(usize) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How { Close, Reset, ShutdownWrite, Half(u16), Oversize }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    Connect,
    Sub { k: usize, p: usize, off: bool },
    Join { k: usize, t: usize, g: usize },
    Leave { k: usize, m: usize },
    Append { t: usize, n: u8 },
    Fetch { k: usize, m: usize, limit: u32 },
    Ack { k: usize, i: usize },
    WaitFetch { k: usize, m: usize, limit: u32 },
    WaitPop { k: usize, q: usize },
    Push { q: usize },
    Publish { topic: usize, n: u8, len: u32 },
    Wait(u64),
    End { k: usize, how: How, last: Vec<Last>, unread: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { chan: u32, groups: usize, steps: Vec<Step> }

/// One membership of a connection.
#[derive(Clone)]
struct Mem { t: usize, g: usize, consumer: String, gen: u64 }
/// A waiting fetch may be answered with nothing once a member of its group is gone (the flag).
enum Wait { Fetch(Mem, bool), Pop(usize) }
struct Cn { p: Peer, subs: BTreeSet<usize>, mems: Vec<Mem>, held: Vec<(Mem, u64)>, waits: BTreeMap<u32, Wait>, pushes: Vec<(String, Vec<u8>)>, next: u32 }

struct R<'a> {
    s: Srv, h: Http, l: Listener, cn: Vec<Option<Cn>>, n: u32,
    /// per stream: how many records
    len: [u64; 2],
    /// per stream and group: acked; created
    acked: BTreeMap<(usize, usize), BTreeSet<u64>>,
    dead: Vec<Mem>,
    /// queue -> messages that should be there
    queued: [Vec<Vec<u8>>; 3],
    cx: &'a mut Cx,
}
fn st(t: usize) -> String { format!("s{}", t % 2) }
fn gr(g: usize) -> String { format!("g{}", g % 3) }

impl R<'_> {
    fn pick(&self, k: usize) -> Option<usize> {
        let live: Vec<usize> = (0..self.cn.len()).filter(|i| self.cn[*i].is_some()).collect();
        if live.is_empty() { None } else { Some(live[k % live.len()]) }
    }
    async fn req(&mut self, k: usize, o: u8, p: Vec<u8>) -> Result<Reply, String> {
        let c = self.cn[k].as_mut().unwrap();
        c.next += 1;
        let id = c.next;
        c.p.call(id, o, &p, 20_000).await.map_err(|e| format!("connection {k}: {e}"))
    }
    /// A message of a stream may be held by one live connection at a time.
    fn hold(&mut self, k: usize, m: &Mem, d: &[u8]) -> Result<usize, String> {
        let ms = parse_smsgs(d)?;
        for x in &ms {
            let holder = self.cn.iter().enumerate().find(|(_, c)| c.as_ref().is_some_and(|c| c.held.iter().any(|h| (h.0.t, h.0.g, h.1) == (m.t, m.g, x.seq))));
            if let Some((i, _)) = holder { return Err(format!("record {} of {} went to connection {k} in {} while connection {i} holds it", x.seq, st(m.t), gr(m.g))); }
            if self.acked.get(&(m.t, m.g)).is_some_and(|a| a.contains(&x.seq)) { return Err(format!("record {} of {} was delivered again in {} after its ack", x.seq, st(m.t), gr(m.g))); }
            self.cn[k].as_mut().unwrap().held.push((m.clone(), x.seq));
        }
        Ok(ms.len())
    }
    /// Take in what has arrived on every live connection: answers of waiting requests and pushes.
    async fn gather(&mut self) -> Result<(), String> {
        for _ in 0..3 {
            settle_io().await;
            for k in 0..self.cn.len() {
                let Some(c) = self.cn[k].as_mut() else { continue };
                c.p.flush();
                c.p.read(usize::MAX);
                if let Some(e) = &c.p.eof { return Err(format!("connection {k}, which nobody ended, is gone: {e}")); }
                let frames: Vec<Frame> = c.p.frames.drain(..).collect();
                for f in frames {
                    let c = self.cn[k].as_mut().unwrap();
                    match f {
                        Frame::Push(t, _) if t == "zz" => {}
                        Frame::Push(t, d) => {
                            if c.pushes.first() != Some(&(t.clone(), d.clone())) { return Err(format!("connection {k} got a push on {t:?} that is not the next one due ({} due)", c.pushes.len())); }
                            c.pushes.remove(0);
                        }
                        Frame::Resp(id, r) => match (c.waits.remove(&id), r) {
                            (Some(Wait::Fetch(m, shaken)), Reply::Data(d)) => {
                                if self.hold(k, &m, &d)? == 0 && !shaken { return Err(format!("the fetch waiting on connection {k} was answered with nothing, {} has {} records", st(m.t), self.len[m.t])); }
                                self.cx.label("waiting fetch answered");
                            }
                            (Some(Wait::Pop(q)), Reply::Data(d)) => {
                                let ms = parse_msgs(&d)?;
                                if ms.len() != 1 { return Err(format!("the consume waiting on connection {k} got {} messages", ms.len())); }
                                match self.queued[q].iter().position(|x| *x == ms[0].payload) { Some(i) => { self.queued[q].remove(i); } None => return Err(format!("connection {k} got a message of q{q} that was not there")) }
                                self.s.q_ack(&format!("q{q}"), ms[0].id).await??;
                                self.cx.label("waiting consume answered");
                            }
                            (w, r) => return Err(format!("connection {k}: answer to request {id}{}: {r:?}", if w.is_some() { ", which waits" } else { ", which is not open" })),
                        },
                        Frame::Bad(e) => return Err(e),
                    }
                }
            }
        }
        Ok(())
    }
    /// Pushes may take a while to pass the socket.
    async fn all_pushes(&mut self) -> Result<(), String> {
        for i in 0..400 {
            self.gather().await?;
            if self.cn.iter().flatten().all(|c| c.pushes.is_empty()) { return Ok(()); }
            tokio::task::spawn_blocking(|| crate::interpose::real_nap_us(3_000)).await.ok();
            if i % 100 == 99 { sleep_ms(500).await; }
        }
        let (k, c) = self.cn.iter().enumerate().find_map(|(k, c)| c.as_ref().filter(|c| !c.pushes.is_empty()).map(|c| (k, c))).unwrap();
        Err(format!("connection {k} misses {} pushes, the first on {:?}", c.pushes.len(), c.pushes[0].0))
    }
    async fn fetch(&mut self, k: usize, m: &Mem, limit: u32) -> Result<usize, String> {
        match self.req(k, op::S_FETCH, Srv::fetch_payload(&st(m.t), &gr(m.g), &m.consumer, m.gen, limit, 0)).await? {
            Reply::Data(d) => self.hold(k, m, &d),
            r => Err(format!("member of {} on connection {k}: fetch answered {r:?}", gr(m.g))),
        }
    }
    async fn join(&mut self, k: usize, t: usize, g: usize) -> Result<Mem, String> {
        match self.req(k, op::S_JOIN, W::new().s(&gr(g)).s(&st(t)).0).await? {
            Reply::Data(d) => {
                let mut r = Rd::new(&d);
                let _floor = r.u64()?;
                let gen = r.u64()?;
                let m = Mem { t, g, consumer: r.string()?, gen };
                r.end()?;
                self.acked.entry((t, g)).or_default();
                self.cn[k].as_mut().unwrap().mems.push(m.clone());
                Ok(m)
            }
            r => Err(format!("join of {} on connection {k}: {r:?}", gr(g))),
        }
    }
    fn shake(&mut self, t: usize, g: usize) { for w in self.cn.iter_mut().flatten().flat_map(|c| c.waits.values_mut()) { if let Wait::Fetch(m, s) = w { if m.t == t && m.g == g { *s = true; } } } }
    fn waiting(&self, t: usize, g: usize) -> usize { self.cn.iter().flatten().flat_map(|c| c.waits.values()).filter(|w| matches!(w, Wait::Fetch(m, _) if m.t == t && m.g == g)).count() }
    /// Records of a stream that nobody in the group holds and that are not acked.
    fn free(&self, t: usize, g: usize) -> BTreeSet<u64> {
        let a = self.acked.get(&(t, g)).cloned().unwrap_or_default();
        let held: BTreeSet<u64> = self.cn.iter().flatten().flat_map(|c| c.held.iter()).filter(|h| h.0.t == t && h.0.g == g).map(|h| h.1).collect();
        (1..=self.len[t]).filter(|x| !a.contains(x) && !held.contains(x)).collect()
    }
    async fn checks(&mut self, all: bool) -> Result<(), String> {
        self.gather().await?;
        // subscriptions
        let v = self.h.json("/api/pubsub?limit=500").await?;
        let live = self.cn.iter().flatten().count();
        if v["active_clients"].as_u64() != Some(live as u64) { return Err(format!("{live} clients are connected, {} are shown", v["active_clients"])); }
        let mut want: BTreeMap<String, u64> = BTreeMap::new();
        for p in self.cn.iter().flatten().flat_map(|c| c.subs.iter()) { *want.entry(PATS[*p].to_string()).or_insert(0) += 1; }
        let mut got: BTreeMap<String, u64> = BTreeMap::new();
        for t in v["topics"].as_array().into_iter().flatten() { let n = t["subscribers"].as_u64().unwrap_or(0); 
            let path = t["full_path"].as_str().unwrap_or("").to_string();
            // wildcard levels are listed here as well as under wildcards
            if path.contains(['+', '#']) { if n > *want.get(&path).unwrap_or(&0) { return Err(format!("{path} is shown with {n} subscribers, connected clients have {:?}", want.get(&path))); } }
            else if n > 0 { *got.entry(path).or_insert(0) += n; }
        }
        for w in ["multi_level", "single_level"] { for t in v["wildcards"][w].as_array().into_iter().flatten() { *got.entry(t["pattern"].as_str().unwrap_or("").to_string()).or_insert(0) += 1; } }
        if got != want { return Err(format!("subscriptions are {got:?}, those of the connected clients are {want:?}")); }
        // groups
        let gs: Vec<(usize, usize)> = self.acked.keys().cloned().collect();
        for (t, g) in gs {
            let mut free = self.free(t, g);
            for i in 0..200 {
                if self.waiting(t, g) == 0 || free.is_empty() { break; }
                // the answer may still be under way
                tokio::task::spawn_blocking(|| crate::interpose::real_nap_us(3_000)).await.ok();
                if i % 50 == 49 { sleep_ms(50).await; }
                self.gather().await?;
                free = self.free(t, g);
            }
            if self.waiting(t, g) > 0 && !free.is_empty() { return Err(format!("records {free:?} of {} are free in {}, but a fetch of it keeps waiting", st(t), gr(g))); }
            if !all { continue; }
            let m = self.cn.iter().enumerate().find_map(|(k, c)| c.as_ref().and_then(|c| c.mems.iter().find(|m| m.t == t && m.g == g).map(|m| (k, m.clone()))));
            let (k, m) = match m { Some(x) => x, None => { let Some(k) = self.pick(t + g) else { continue }; (k, self.join(k, t, g).await?) } };
            self.fetch(k, &m, 10_000).await.map_err(|e| format!("after the end of a connection: {e}"))?;
            let rest = self.free(t, g);
            if !rest.is_empty() { return Err(format!("records {rest:?} of {} are neither acked nor held by a connected member of {}, yet a fetch does not get them", st(t), gr(g))); }
            if !free.is_empty() { self.cx.add("record released by an end", free.len() as u64); }
        }
        // dead members
        for m in self.dead.clone() {
            let r = self.s.call("x", op::S_FETCH, Srv::fetch_payload(&st(m.t), &gr(m.g), &m.consumer, m.gen, 1, 0)).await?;
            if !matches!(r, Reply::Err(_)) { return Err(format!("the member of {} whose connection ended still fetches: {r:?}", gr(m.g))); }
        }
        Ok(())
    }
    async fn step(&mut self, x: &Step) -> Result<(), String> {
        match x {
            Step::Connect => {
                if self.cn.iter().flatten().count() < 4 {
                    let mut p = self.l.connect(if self.cn.len() % 2 == 0 { None } else { Some(16_384) }).await?;
                    p.patient = true;
                    self.cn.push(Some(Cn { p, subs: BTreeSet::new(), mems: vec![], held: vec![], waits: BTreeMap::new(), pushes: vec![], next: 0 }));
                }
            }
            Step::Sub { k, p, off } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let p = p % PATS.len();
                let r = self.req(k, if *off { op::UNSUB } else { op::SUB }, W::new().s(PATS[p]).0).await?;
                if r != Reply::Ok { return Err(format!("subscribe answered {r:?}")); }
                let c = self.cn[k].as_mut().unwrap();
                if *off { c.subs.remove(&p); } else { c.subs.insert(p); }
            }
            Step::Join { k, t, g } => { let Some(k) = self.pick(*k) else { return Ok(()) }; if self.cn[k].as_ref().unwrap().mems.len() < 5 { self.join(k, t % 2, *g).await?; } }
            Step::Leave { k, m } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = self.cn[k].as_ref().unwrap();
                if c.mems.is_empty() { return Ok(()); }
                let m = c.mems[m % c.mems.len()].clone();
                if c.waits.values().any(|w| matches!(w, Wait::Fetch(x, _) if x.consumer == m.consumer)) { return Ok(()); }
                let r = self.req(k, op::S_LEAVE, W::new().s(&st(m.t)).s(&gr(m.g)).s(&m.consumer).u64(m.gen).0).await?;
                if r != Reply::Ok { return Err(format!("leave answered {r:?}")); }
                let c = self.cn[k].as_mut().unwrap();
                c.mems.retain(|x| x.consumer != m.consumer);
                c.held.retain(|x| x.0.consumer != m.consumer);
                self.shake(m.t, m.g);
                self.dead.push(m);
            }
            Step::Append { t, n } => {
                for _ in 0..*n { self.n += 1; self.len[t % 2] += 1; let b = format!("r{}", self.n).into_bytes(); if self.s.s_pub(&st(*t), &b).await?? != self.len[t % 2] { return Err("a record got another number".into()); } }
                self.gather().await?;
                self.checks(false).await?;
            }
            Step::Fetch { k, m, limit } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = self.cn[k].as_ref().unwrap();
                if c.mems.is_empty() { return Ok(()); }
                let m = c.mems[m % c.mems.len()].clone();
                let want = (self.free(m.t, m.g).len()).min(*limit as usize);
                let n = self.fetch(k, &m, *limit).await?;
                if n != want { return Err(format!("a fetch of up to {limit} records by {} got {n}, {want} are free", gr(m.g))); }
                self.cx.add("record held", n as u64);
            }
            Step::Ack { k, i } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = self.cn[k].as_mut().unwrap();
                if c.held.is_empty() { return Ok(()); }
                let i = i % c.held.len();
                let (m, seq) = c.held.remove(i);
                let r = self.req(k, op::S_ACK, W::new().s(&st(m.t)).s(&gr(m.g)).s(&m.consumer).u64(m.gen).u64(seq).0).await?;
                if r != Reply::Ok { return Err(format!("ack of record {seq} by its holder answered {r:?}")); }
                self.acked.get_mut(&(m.t, m.g)).unwrap().insert(seq);
            }
            Step::WaitFetch { k, m, limit } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = self.cn[k].as_ref().unwrap();
                if c.mems.is_empty() || c.waits.len() > 3 { return Ok(()); }
                let m = c.mems[m % c.mems.len()].clone();
                if !self.free(m.t, m.g).is_empty() { return Ok(()); }
                let c = self.cn[k].as_mut().unwrap();
                c.next += 1;
                c.p.write(&request(c.next, op::S_FETCH, &Srv::fetch_payload(&st(m.t), &gr(m.g), &m.consumer, m.gen, (*limit).max(1), FOREVER as u32)));
                c.waits.insert(c.next, Wait::Fetch(m, false));
                self.cx.label("fetch left waiting");
            }
            Step::WaitPop { k, q } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                let c = self.cn[k].as_mut().unwrap();
                if c.waits.len() > 3 { return Ok(()); }
                c.next += 1;
                c.p.write(&request(c.next, op::Q_CONSUME, &Srv::q_consume_payload(&format!("q{}", q % 3), Some(1), Some(FOREVER))));
                c.waits.insert(c.next, Wait::Pop(q % 3));
                self.cx.label("consume left waiting");
            }
            Step::Push { q } => {
                self.gather().await?;
                self.n += 1;
                let (q, b) = (q % 3, format!("m{}", self.n).into_bytes());
                self.queued[q].push(b.clone());
                self.s.q_push(&format!("q{q}"), None, &b).await??;
                let waiting = self.cn.iter().flatten().flat_map(|c| c.waits.values()).any(|w| matches!(w, Wait::Pop(x) if *x == q));
                if waiting {
                    for i in 0..60 { self.gather().await?; if self.queued[q].is_empty() { break; } if i > 4 { tokio::task::spawn_blocking(|| crate::interpose::real_nap_us(5_000)).await.ok(); sleep_ms(20).await; } }
                    if !self.queued[q].is_empty() { return Err(format!("a message pushed to q{q} did not reach the connected client that waits for one")); }
                } else {
                    let ms = self.s.q_consume(&format!("q{q}"), Some(10), Some(0)).await??;
                    if ms.len() != 1 || ms[0].payload != b { return Err(format!("nobody waits on q{q}, a message pushed there is gone: {ms:?}")); }
                    self.s.q_ack(&format!("q{q}"), ms[0].id).await??;
                    self.queued[q].clear();
                }
            }
            Step::Publish { topic, n, len } => {
                for _ in 0..*n {
                    self.n += 1;
                    let (t, mut b) = (TOPICS[topic % TOPICS.len()], format!("p{}.", self.n).into_bytes());
                    b.resize(b.len() + *len as usize, b'x');
                    self.s.publish("x", t, None, None, &b).await??;
                    for c in self.cn.iter_mut().flatten() { if c.subs.iter().any(|p| matches(PATS[*p], t)) { c.pushes.push((t.to_string(), b.clone())); } }
                }
                self.all_pushes().await?;
            }
            Step::Wait(ms) => { sleep_ms(*ms).await; self.gather().await?; }
            Step::End { k, how, last, unread } => {
                let Some(k) = self.pick(*k) else { return Ok(()) };
                self.gather().await?;
                let mut c = self.cn[k].take().unwrap();
                if !c.mems.is_empty() { self.cx.label("member ended"); }
                if !c.held.is_empty() { self.cx.label("holder ended"); }
                if !c.waits.is_empty() { self.cx.label("end with requests waiting"); }
                for m in c.mems.clone() { self.shake(m.t, m.g); }
                for r in last { if let Last::Join(t, g) = r { self.shake(t % 2, *g); } }
                let n = self.l.open.load(SeqCst);
                if *unread && !c.subs.is_empty() {
                    // more pushes than the network takes while the client does not read
                    let t = TOPICS.iter().find(|t| c.subs.iter().any(|p| matches(PATS[*p], t))).unwrap();
                    let b = vec![b'x'; 60_000];
                    for i in 0..90 {
                        self.s.publish("x", t, None, None, &b).await??;
                        for c in self.cn.iter_mut().flatten() { if c.subs.iter().any(|p| matches(PATS[*p], t)) { c.pushes.push((t.to_string(), b.clone())); } }
                        if i % 10 == 0 { self.all_pushes().await?; }
                    }
                    self.all_pushes().await?;
                    self.cx.label("ended with unread pushes");
                }
                for r in last {
                    c.next += 1;
                    let id = c.next;
                    self.cx.label("request right before the end");
                    match r {
                        Last::Sub(p) => c.p.write(&request(id, op::SUB, &W::new().s(PATS[p % PATS.len()]).0)),
                        Last::Join(t, g) => { self.acked.entry((t % 2, *g)).or_default(); c.p.write(&request(id, op::S_JOIN, &W::new().s(&gr(*g)).s(&st(*t)).0)) }
                        Last::Fetch(m) | Last::WaitFetch(m) => if !c.mems.is_empty() {
                            let m = &c.mems[m % c.mems.len()];
                            c.p.write(&request(id, op::S_FETCH, &Srv::fetch_payload(&st(m.t), &gr(m.g), &m.consumer, m.gen, 3, if matches!(r, Last::Fetch(_)) { 0 } else { FOREVER as u32 })));
                        },
                        Last::WaitPop(q) => c.p.write(&request(id, op::Q_CONSUME, &Srv::q_consume_payload(&format!("q{}", q % 3), Some(1), Some(FOREVER)))),
                        Last::Echo(n) => c.p.write(&request(id, op::ECHO, &vec![7; *n as usize])),
                        // survivors may see it or not: only on a topic nobody can be subscribed to
                        Last::Pub(_) => c.p.write(&request(id, op::PUB, &W::new().s("zz").s("{\"retain\":true}").raw(b"last").0)),
                        Last::Ack(_) => {}
                    }
                }
                match how {
                    How::Close => { drop(c.p); self.cx.label("end: close"); }
                    How::Reset => { c.p.reset(); self.cx.label("end: reset"); }
                    How::ShutdownWrite => {
                        c.p.shutdown_write();
                        self.cx.label("end: half close");
                        c.p.until(3_000, |p| p.eof.as_deref().is_some_and(|e| e.starts_with("closed") || e.starts_with("read"))).await;
                        drop(c.p);
                    }
                    How::Half(n) => {
                        let f = request(9, op::ECHO, &[1; 100]);
                        let n = 1 + *n as usize * (f.len() - 1) / 65536;
                        c.p.write(&f[..n.min(f.len() - 1)]);
                        settle_io().await;
                        drop(c.p);
                        self.cx.label("end: inside a frame");
                    }
                    How::Oversize => {
                        let mut h = vec![1, op::ECHO, 0, 0, 0, 9];
                        h.extend(u32::MAX.to_be_bytes());
                        c.p.write(&h);
                        if !c.p.until(3_000, |p| p.eof.is_some()).await && c.p.eof.is_none() { return Err("an oversized frame did not end the connection".into()); }
                        drop(c.p);
                        self.cx.label("end: frame over the limit");
                    }
                }
                let open = self.l.open.clone();
                if !wait_for(60_000, || open.load(SeqCst) < n).await { return Err(format!("a minute after connection {k} ended its session is still open")); }
                self.dead.extend(c.mems.iter().cloned());
                settle().await;
                self.gather().await?;
                self.checks(true).await?;
                self.all_pushes().await?;
            }
        }
        Ok(())
    }
}

fn step() -> BoxedStrategy<Step> {
    let last = prop_oneof![2 => (0usize..8).prop_map(Last::Sub), 3 => (0usize..2, 0usize..3).prop_map(|(t, g)| Last::Join(t, g)), 2 => (0usize..4).prop_map(Last::Fetch), 2 => (0usize..4).prop_map(Last::WaitFetch), 2 => (0usize..3).prop_map(Last::WaitPop), 1 => (0u32..50_000).prop_map(Last::Echo), 1 => (0usize..4).prop_map(Last::Pub)];
    let how = prop_oneof![2 => Just(How::Close), 2 => Just(How::Reset), 1 => Just(How::ShutdownWrite), 2 => any::<u16>().prop_map(How::Half), 2 => Just(How::Oversize)];
    prop_oneof![
        5 => Just(Step::Connect),
        6 => (0usize..4, 0usize..8, proptest::bool::weighted(0.2)).prop_map(|(k, p, off)| Step::Sub { k, p, off }),
        7 => (0usize..4, 0usize..2, 0usize..3).prop_map(|(k, t, g)| Step::Join { k, t, g }),
        1 => (0usize..4, 0usize..4).prop_map(|(k, m)| Step::Leave { k, m }),
        6 => (0usize..2, 1u8..6).prop_map(|(t, n)| Step::Append { t, n }),
        8 => (0usize..4, 0usize..4, prop_oneof![1u32..4, 4u32..50]).prop_map(|(k, m, limit)| Step::Fetch { k, m, limit }),
        3 => (0usize..4, 0usize..20).prop_map(|(k, i)| Step::Ack { k, i }),
        4 => (0usize..4, 0usize..4, 1u32..5).prop_map(|(k, m, limit)| Step::WaitFetch { k, m, limit }),
        4 => (0usize..4, 0usize..3).prop_map(|(k, q)| Step::WaitPop { k, q }),
        4 => (0usize..3).prop_map(|q| Step::Push { q }),
        4 => (0usize..4, 1u8..4, prop_oneof![4 => 0u32..40, 1 => Just(20_000u32)]).prop_map(|(topic, n, len)| Step::Publish { topic, n, len }),
        1 => prop_oneof![1u64..200, 200u64..5_000].prop_map(Step::Wait),
        6 => (0usize..4, how, proptest::collection::vec(last, 0..4), proptest::bool::weighted(0.12)).prop_map(|(k, how, last, unread)| Step::End { k, how, last, unread }),
    ].boxed()
}

pub struct C25;
impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "a connection with a subscription or membership ended while at least one other lived, and it held records, had requests waiting or ended otherwise than by an orderly close";
    const NOTE: &'static str = "real loopback connections ended by close, reset, half close, a cut frame or an oversized frame, with unread pushes and unanswered requests";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5_000 } else { 50_000 } }
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 40 } else { 80 };
        let chan = [1024, 1, 2, 8][(i % 4) as usize];
        proptest::collection::vec(step(), 6..n).prop_map(move |mut steps| { steps.splice(0..0, [Step::Connect, Step::Connect]); Case { chan, groups: 3, steps } }).boxed()
    }
    fn env(c: &Case) -> Vec<(String, String)> { vec![("CHANNEL_CAPACITY_SOCKET_WRITE".into(), c.chan.to_string()), ("MAX_PAYLOAD_SIZE".into(), "100000".into())] }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut sim = Sim::new();
        sim.run(async {
            let mut cfg = base_config(&root);
            cfg.stream.ack_wait_ms = 360_000_000;
            cfg.stream.max_ack_pending = 100_000;
            cfg.stream.max_deliveries = 1_000_000;
            let s = Srv::start(&cfg).await;
            for t in 0..2 { s.s_create(&st(t), None, None).await??; }
            for q in 0..3 { s.q_create(&format!("q{q}"), &QOpts { vis_ms: Some(360_000_000), max_retries: Some(1000) }).await??; }
            let h = Http::start(&s).await;
            let l = Listener::start(&s).await?;
            let mut r = R { s: s.clone(), h, l, cn: vec![], n: 0, len: [0; 2], acked: BTreeMap::new(), dead: vec![], queued: Default::default(), cx };
            for (i, x) in case.steps.iter().enumerate() {
                r.step(x).await.map_err(|e| format!("step {i}: {e}"))?;
                if let Some(p) = server_panics().first() { return Err(format!("step {i}: panic in the server at {}: {}", p.0, p.1)); }
            }
            settle().await;
            r.checks(true).await.map_err(|e| format!("at the end: {e}"))?;
            r.all_pushes().await.map_err(|e| format!("at the end: {e}"))?;
            let cx = &mut *r.cx;
            let odd = cx.has("end: reset") || cx.has("end: inside a frame") || cx.has("end: frame over the limit") || cx.has("holder ended") || cx.has("end with requests waiting");
            cx.nontrivial = odd && (cx.has("member ended") || cx.has("record released by an end")) && r.cn.iter().any(|c| c.is_some());
            Ok::<(), String>(())
        })?;
        if let Some(p) = server_panics().first() { return Err(format!("panic in the server at {}: {}", p.0, p.1)); }
        Ok(())
    }
}
