//! C14..C17, C20, C22: streams and consumer groups against a model of log, groups and waiting fetches.
use super::gen::*;
use crate::eng::*;
use crate::http::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Which { Mine, Pend, Other, Done, Future, Zero, Huge }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Pos { At(u64), Head, End, Zero, Huge, Back(u64) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Create(usize, Option<u64>, Option<u64>), Delete(usize),
    Pub(usize, Pay), PubMany(usize, u8, u16, u32),
    Join { conn: usize, g: usize, t: usize },
    /// member, limit, wait
    Fetch(usize, u32, u32),
    /// several members at the same instant
    FetchAll(usize, u32, u32),
    Ack(usize, Which, usize), AckAll(usize),
    Leave(usize), Disconnect(usize),
    Seek { g: usize, t: usize, end: bool },
    /// a fetch with a seek (0/1), leave (2), disconnect (3) or vanishing client (4) `n` scheduling steps later
    Race { m: usize, limit: u32, wait: u32, n: u8, what: u8 },
    Read(usize, Pos, u32),
    Wait(u64), Jump(u64), WaitAck,
    Check,
    Restart { down: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cfg { pub flush: u64, pub seg: u64, pub files: usize, pub ram: usize, pub evict: u64, pub map: usize, pub ack_wait: u64, pub maxdel: u32, pub rchk: u64, pub age: u64, pub bytes: u64 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { pub topics: usize, pub conns: usize, pub groups: usize, pub cfg: Cfg, pub ops: Vec<Op> }

const SLACK: u64 = 250;
pub const UNLIMITED: u64 = 600_000;

pub fn config(c: &Cfg, dir: &str, root: &str) -> nexo::config::Config {
    let mut cfg = base_config(root);
    let s = &mut cfg.stream;
    s.persistence_path = dir.to_string();
    s.default_flush_ms = c.flush;
    s.max_segment_size = c.seg;
    s.max_open_files = c.files;
    s.ram_soft_limit = c.ram;
    s.eviction_interval_ms = c.evict;
    s.max_ack_pending = c.map;
    s.ack_wait_ms = c.ack_wait;
    s.max_deliveries = c.maxdel;
    s.retention_check_interval_ms = c.rchk;
    s.default_retention_age_ms = c.age;
    s.default_retention_bytes = c.bytes;
    cfg
}

pub fn now() -> u64 { ip::vt_now() }
pub fn unix() -> u64 { ip::vt_unix_ms() }

#[derive(Clone, Debug)]
pub struct Rec { pub payload: Vec<u8>, pub lo: u64, pub hi: u64, pub ts: Option<u64> }
impl Rec { pub fn size(&self) -> u64 { 24 + self.payload.len() as u64 } }
#[derive(Clone, Debug)]
struct Out { c: usize, at: u64, n: u32 }
#[derive(Clone, Debug, Default)]
pub struct Grp {
    pub floor: u64, pub next: u64, next_hi: u64,
    pend: BTreeMap<u64, Out>,
    red: BTreeMap<u64, u32>,
    att: BTreeMap<u64, u32>,
    gen: Option<u64>, old_gen: Option<u64>,
    members: BTreeSet<usize>,
    serial: u64,
}
impl Grp {
    fn at_head(head: u64) -> Grp { Grp { floor: head - 1, next: head, next_hi: head, ..Default::default() } }
    fn settle(&mut self) { while self.floor + 1 < self.next && !self.pend.contains_key(&(self.floor + 1)) && !self.red.contains_key(&(self.floor + 1)) { self.floor += 1; } }
    /// An unacknowledged delivery ends; it comes back unless it was the last one. True: parked.
    fn release(&mut self, seq: u64, maxdel: u32) -> bool {
        let o = self.pend.remove(&seq).unwrap();
        if o.n >= maxdel { self.att.remove(&seq); self.settle(); return true; }
        self.red.insert(seq, o.n);
        self.settle();
        false
    }
    fn head(&mut self, head: u64) {
        let before = (self.floor, self.next, self.pend.len(), self.red.len());
        self.floor = self.floor.max(head - 1);
        self.next = self.next.max(head);
        self.next_hi = self.next_hi.max(self.next);
        self.pend = self.pend.split_off(&head);
        self.red = self.red.split_off(&head);
        self.att = self.att.split_off(&head);
        self.settle();
        if before != (self.floor, self.next, self.pend.len(), self.red.len()) { self.serial += 1; }
    }
    fn ready(&self, last: u64) -> bool { !self.red.is_empty() || self.next <= last }
    fn drop_member(&mut self, c: usize, maxdel: u32) -> (usize, usize) {
        self.members.remove(&c);
        self.serial += 1;
        let v: Vec<u64> = self.pend.iter().filter(|(_, o)| o.c == c).map(|x| *x.0).collect();
        let parked = v.iter().filter(|s| self.release(**s, maxdel)).count();
        (v.len() - parked, parked)
    }
    fn seek(&mut self, floor: u64) {
        *self = Grp { floor, next: floor + 1, next_hi: floor + 1, gen: None, old_gen: self.gen.or(self.old_gen), serial: self.serial + 1, ..Default::default() };
    }
}
#[derive(Clone, Debug)]
pub struct Topic { pub inc: u64, pub head: u64, pub msgs: Vec<Rec>, pub groups: BTreeMap<usize, Grp>, pub age: Option<u64>, pub bytes: Option<u64> }
impl Topic {
    pub fn last(&self) -> u64 { self.msgs.len() as u64 }
    pub fn rec(&self, seq: u64) -> Option<&Rec> { if seq == 0 { None } else { self.msgs.get(seq as usize - 1) } }
    /// Compare one message that was read or delivered.
    pub fn same(&mut self, what: &str, m: &SMsg) -> Result<(), String> {
        let head = self.head;
        if m.seq < head || m.seq > self.last() { return Err(format!("{what}: seq {} (oldest {head}, last {})", m.seq, self.last())); }
        let r = &mut self.msgs[m.seq as usize - 1];
        if r.payload != m.payload { return Err(format!("{what}: seq {} carries {}, published was {}", m.seq, short(&m.payload), short(&r.payload))); }
        match r.ts {
            Some(t) if t != m.ts => return Err(format!("{what}: seq {} has timestamp {} now, it had {t}", m.seq, m.ts)),
            None if m.ts < r.lo || m.ts > r.hi => return Err(format!("{what}: seq {} has timestamp {}, it was published in {}..{}", m.seq, m.ts, r.lo, r.hi)),
            _ => r.ts = Some(m.ts),
        }
        Ok(())
    }
}
#[derive(Clone, Debug)]
struct Cons { t: usize, inc: u64, g: usize, conn: usize, id: String, gen: u64 }
struct Waiter { p: Option<Pending>, c: usize, limit: u32, start: u64, wait: u64, serial: u64, batch: u64 }

pub struct Model<'a> { pub cur: Vec<Option<Topic>>, cons: Vec<Cons>, w: Vec<Waiter>, incs: u64, pub cfg: Cfg, boot: u64, seen_tick: u64, pub cx: &'a mut Cx, batch: u64, names: Vec<String>, gnames: Vec<String>, check_each: bool, lenient: bool }

pub fn tname(t: usize) -> String { ["t", "t.a", "T", "t-b"][t % 4].to_string() }
pub fn gname(g: usize) -> String { ["g", "g2", "G", "é "][g % 4].to_string() }

impl Model<'_> {
    pub fn new<'b>(case: &Case, cx: &'b mut Cx) -> Model<'b> { Model { cur: vec![None; case.topics], cons: vec![], w: vec![], incs: 0, cfg: case.cfg.clone(), boot: 0, seen_tick: 0, cx, batch: 0, names: (0..case.topics).map(tname).collect(), gnames: (0..case.groups).map(gname).collect(), check_each: false, lenient: false } }
    fn conn(c: usize) -> String { format!("conn{c}") }
    fn alive(&self, c: usize) -> bool {
        let k = &self.cons[c];
        self.cur[k.t].as_ref().is_some_and(|t| t.inc == k.inc && t.groups.get(&k.g).is_some_and(|g| g.members.contains(&c) && g.gen == Some(k.gen)))
    }
    fn grp(&mut self, c: usize) -> Option<&mut Grp> {
        let k = self.cons[c].clone();
        self.cur[k.t].as_mut().filter(|t| t.inc == k.inc)?.groups.get_mut(&k.g)
    }
    /// Outstanding deliveries whose ack wait was over SLACK ago at unix time `t` are surely released.
    fn due(&mut self, t: u64) {
        let (aw, md) = (self.cfg.ack_wait, self.cfg.maxdel);
        for top in self.cur.iter_mut().flatten() { for g in top.groups.values_mut() {
            let v: Vec<u64> = g.pend.iter().filter(|(_, o)| o.at.saturating_add(aw) + SLACK <= t).map(|x| *x.0).collect();
            for s in v { if g.release(s, md) { self.cx.label("parked"); } else { self.cx.label("timed-out"); } }
        } }
    }
    fn pends(&self) -> impl Iterator<Item = u64> + '_ { let aw = self.cfg.ack_wait; self.cur.iter().flatten().flat_map(|t| t.groups.values()).flat_map(|g| g.pend.values()).map(move |o| o.at.saturating_add(aw)) }
    fn tick(&self) -> u64 { (unix() - self.boot) / self.cfg.rchk }

    async fn observe_heads(&mut self, s: &Srv, at: &str) -> Result<(), String> {
        if self.tick() == self.seen_tick && self.seen_tick != u64::MAX { return Ok(()); }
        let past = (unix() - self.boot) % self.cfg.rchk;
        if past < 3 { sleep_ms(3 - past).await; }
        self.seen_tick = self.tick();
        let t = unix();
        let c = self.boot + self.tick() * self.cfg.rchk;
        let lenient = std::mem::take(&mut self.lenient);
        for k in 0..self.cur.len() {
            if self.cur[k].is_none() { continue; }
            let got = s.eng.stream.read(&self.names[k], 1, 1).await;
            let cfg = self.cfg.clone();
            let top = self.cur[k].as_mut().unwrap();
            let what = format!("{at}: {:?} after a retention check", self.names[k]);
            if top.msgs.is_empty() { if !got.is_empty() { return Err(format!("{what}: the empty stream has a message")); } continue; }
            let Some(m) = got.first() else { return Err(format!("{what}: reading from 1 gives nothing, {} messages were published", top.last())); };
            let (h0, h1) = (top.head, m.seq);
            if h1 < h0 { return Err(format!("{what}: seq {h1} is back, the oldest was {h0}")); }
            if h1 > top.last() { return Err(format!("{what}: seq {h1} of {}", top.last())); }
            let cap = top.msgs.iter().map(|m| m.size()).max().unwrap_or(0).max(cfg.seg);
            let from = |s: u64| -> u64 { top.msgs[s as usize - 1..].iter().map(|m| m.size()).sum() };
            if h1 > h0 {
                let r = top.rec(h1 - 1).unwrap();
                let by_size = top.bytes.is_some_and(|b| from(h1 - 1).saturating_add(cap) > b);
                let by_age = top.age.is_some_and(|a| r.lo.saturating_add(a) < t);
                if !by_size && !by_age { return Err(format!("{what}: seq {} is gone; it is {} ms old (limit {:?}), and {} bytes from there on (limit {:?}, segments up to {cap})", h1 - 1, t - r.lo, top.age, from(h1 - 1), top.bytes)); }
                self.cx.label(if by_size { "dropped-by-size" } else { "dropped-by-age" });
                if top.groups.values().any(|g| g.next < h1) { self.cx.label("group-overtaken"); }
            }
            let fl = cfg.flush + 30;
            if let (false, Some(b)) = (lenient, top.bytes) {
                let kept: u64 = top.msgs[h1 as usize - 1..].iter().filter(|m| m.hi + fl <= c).map(|m| m.size()).sum();
                if kept > b.max(cap) { return Err(format!("{what}: {kept} bytes from seq {h1} on are still kept, limit {b}, segments up to {cap}")); }
                if kept > b / 2 { self.cx.label("kept-within-size"); }
            }
            if let (false, Some(a)) = (lenient, top.age) {
                let (mut n, mut e) = (0, h1);
                while e < top.last() && n <= cap { e += 1; n += top.rec(e).unwrap().size(); }
                if n > cap && top.rec(e).unwrap().hi.saturating_add(a).saturating_add(fl) < c { return Err(format!("{what}: seq {h1} is still kept although even seq {e}, {n} bytes later, is {} ms old, limit {a}", t - top.rec(e).unwrap().hi)); }
            }
            top.head = h1;
            for g in top.groups.values_mut() { g.head(h1); }
        }
        Ok(())
    }

    /// Take up all answers given so far; then nobody may still wait who need not.
    async fn collect(&mut self, s: &Srv, at: &str) -> Result<(), String> {
        settle().await;
        self.observe_heads(s, at).await?;
        let mut done = vec![];
        for w in &mut self.w {
            if w.p.as_ref().is_some_and(|p| p.done()) {
                let (r, t) = w.p.take().unwrap().get(1000).await?;
                let got = match r { Reply::Data(b) => Ok(parse_smsgs(&b)?), Reply::Err(e) => Err(e), x => return Err(format!("{at}: fetch answered {x:?}")) };
                let fresh = got.as_ref().ok().and_then(|v| v.iter().map(|m| m.seq).max()).unwrap_or(u64::MAX);
                done.push((t + ip::BASE_REAL as u64 * 1000, fresh, got, Waiter { p: None, c: w.c, limit: w.limit, start: w.start, wait: w.wait, serial: w.serial, batch: w.batch }));
            }
        }
        self.w.retain(|w| w.p.is_some());
        done.sort_by_key(|d| (d.0, d.1));
        let others: Vec<(u64, u64, usize, u64)> = done.iter().map(|d| (d.0, d.3.start, d.3.c, d.3.batch)).collect();
        for (n, (t, _, got, w)) in done.into_iter().enumerate() {
            let k = self.cons[w.c].clone();
            let what = format!("{at}: fetch by member {} of group {:?} (asked at {}, wait {} ms, limit {}) answered at {t}", w.c, self.gnames[k.g], w.start, w.wait, w.limit);
            if t > w.start + w.wait + SLACK { return Err(format!("{what}: {} ms late", t - w.start - w.wait)); }
            let alive = self.alive(w.c);
            match got {
                Err(e) => {
                    if alive { return Err(format!("{what}: refused: {e}")); }
                    self.cx.label("fetch-refused");
                }
                Ok(v) if !v.is_empty() => {
                    if !alive { return Err(format!("{what}: {} messages although this member is gone or fenced", v.len())); }
                    self.deliver(&what, w.c, w.limit, &v, t)?;
                    if t > w.start + 1 { self.cx.label("woken"); if v.iter().any(|m| self.cur[k.t].as_ref().unwrap().groups[&k.g].att[&m.seq] > 1) { self.cx.label("woken-by-return"); } }
                }
                Ok(_) => {
                    if !alive { self.cx.label("stale-empty"); continue; }
                    self.due(t);
                    let map = self.cfg.map;
                    let last = self.cur[k.t].as_ref().unwrap().last();
                    let tdue = self.cfg.ack_wait;
                    let g = self.grp(w.c).unwrap();
                    let unsure = g.pend.values().filter(|o| o.at.saturating_add(tdue) <= t).count();
                    let full = g.pend.len() - unsure >= map;
                    let moved = g.serial != w.serial;
                    let (ready, limit) = (g.ready(last), w.limit > 0);
                    let with = others.iter().enumerate().any(|(j, o)| j != n && self.cons[o.2].g == k.g && self.cons[o.2].t == k.t && (o.0 == t || o.3 == w.batch))
                        || self.w.iter().any(|x| self.cons[x.c].g == k.g && self.cons[x.c].t == k.t && x.batch == w.batch);
                    let early = t + 1 < w.start + w.wait;
                    if early && limit && !full && !moved && !with { return Err(format!("{what}: empty before its wait time was over")); }
                    if w.wait == 0 && ready && limit && !full && !moved && !with { return Err(format!("{what}: nothing, although {} is deliverable", self.pending_text(w.c))); }
                    if full { self.cx.label("at-limit"); }
                    if w.wait == 0 { self.cx.label("empty-at-once"); } else if !early { self.cx.label("waited-in-vain"); }
                }
            }
        }
        let t = unix();
        self.due(t);
        for j in 0..self.w.len() {
            let (c, start, wait, limit) = { let w = &self.w[j]; (w.c, w.start, w.wait, w.limit) };
            let k = self.cons[c].clone();
            let what = format!("{at}: at {t} a fetch by member {c} of group {:?} (asked at {start}, wait {wait} ms) is still waiting", self.gnames[k.g]);
            if t > start + wait + SLACK { return Err(format!("{what} after its time")); }
            if !self.alive(c) { return Err(format!("{what} although this member is gone or fenced")); }
            let last = self.cur[k.t].as_ref().unwrap().last();
            let map = self.cfg.map;
            let g = self.grp(c).unwrap();
            if limit > 0 && g.ready(last) && g.pend.len() < map { let x = self.pending_text(c); return Err(format!("{what} although {x} is deliverable")); }
        }
        Ok(())
    }
    fn pending_text(&mut self, c: usize) -> String {
        let last = self.cur[self.cons[c].t].as_ref().unwrap().last();
        let g = self.grp(c).unwrap();
        match g.red.keys().next() { Some(s) => format!("returned seq {s}"), None => format!("seq {} (last {last})", g.next) }
    }
    fn deliver(&mut self, what: &str, c: usize, limit: u32, v: &[SMsg], t: u64) -> Result<(), String> {
        if v.len() > limit as usize { return Err(format!("{what}: {} messages", v.len())); }
        let (aw, md, map) = (self.cfg.ack_wait, self.cfg.maxdel, self.cfg.map);
        let k = self.cons[c].clone();
        let top = self.cur[k.t].as_mut().unwrap();
        if v.len() > 1 { self.cx.label("batch"); }
        for m in v {
            top.same(what, m)?;
            let g = top.groups.get_mut(&k.g).unwrap();
            let seq = m.seq;
            if let Some(o) = g.pend.get(&seq) {
                if o.at.saturating_add(aw) > t { return Err(format!("{what}: seq {seq} was delivered to member {} at {} and is unacknowledged within the ack wait of {aw} ms", o.c, o.at)); }
                if g.release(seq, md) { return Err(format!("{what}: seq {seq} delivered again after {md} deliveries")); }
            }
            if g.red.remove(&seq).is_some() { self.cx.label("redelivered"); }
            else if seq == g.next { g.next += 1; g.next_hi = g.next_hi.max(g.next); self.cx.label("delivered"); }
            else if seq > g.next && seq <= g.next_hi { for x in g.next..seq { g.red.insert(x, 0); } g.next = seq + 1; g.next_hi = g.next_hi.max(g.next); }
            else if seq > g.next { return Err(format!("{what}: seq {seq} delivered before {}", g.next)); }
            else { return Err(format!("{what}: seq {seq} delivered although it was acknowledged, parked or skipped before")); }
            let n = g.att.get(&seq).copied().unwrap_or(0) + 1;
            if n > md { return Err(format!("{what}: delivery {n} of seq {seq}, allowed are {md}")); }
            g.att.insert(seq, n);
            g.pend.insert(seq, Out { c, at: t, n });
            if g.pend.values().filter(|o| o.at.saturating_add(aw) > t).count() > map { return Err(format!("{what}: {} deliveries outstanding, allowed are {map}", g.pend.len())); }
        }
        Ok(())
    }
    /// Let `ms` pass, stopping at everything that is due in between.
    async fn advance(&mut self, s: &Srv, at: &str, ms: u64) -> Result<(), String> {
        let end = unix() + ms;
        loop {
            let t = unix();
            if t >= end { return Ok(()); }
            let mut next = end;
            for d in self.pends() { let d = d.saturating_add(SLACK + 1); if d > t { next = next.min(d); } }
            for w in &self.w { let d = w.start + w.wait; if d > t { next = next.min(d); } else { next = next.min(d + SLACK + 1); } }
            let tk = self.boot + (self.tick() + 1) * self.cfg.rchk + 3;
            next = next.min(tk);
            sleep_ms(next.max(t + 1) - t).await;
            self.collect(s, at).await?;
        }
    }
    /// Keep clear of moments at which an ack wait ends.
    async fn clear(&mut self, s: &Srv, at: &str) -> Result<(), String> {
        loop {
            let t = unix();
            let left = self.cfg.rchk - (t - self.boot) % self.cfg.rchk;
            if left <= 15 { self.advance(s, at, left + 4).await?; continue; }
            let Some(d) = self.pends().filter(|d| *d < t + 20 && d + SLACK + 1 > t).max() else { return Ok(()) };
            self.advance(s, at, d + SLACK + 1 - t).await?;
        }
    }
    /// Long enough for everything to reach the disk: data after a flush tick, groups after ten; a
    /// retention check moves groups too, so none may fall into the wait.
    pub async fn quiet(&mut self, s: &Srv, at: &str) -> Result<(), String> {
        let q = 12 * self.cfg.flush + 40;
        let left = self.cfg.rchk - (unix() - self.boot) % self.cfg.rchk;
        if left <= q + 10 { self.advance(s, at, left + 4).await?; }
        self.advance(s, at, q).await
    }
    fn begin(&mut self, s: &Srv, c: usize, limit: u32, wait: u32) {
        let k = self.cons[c].clone();
        let p = s.begin(&Self::conn(k.conn), crate::wire::op::S_FETCH, Srv::fetch_payload(&self.names[k.t], &self.gnames[k.g], &k.id, k.gen, limit, wait));
        let serial = self.grp(c).map_or(0, |g| g.serial);
        self.w.push(Waiter { p: Some(p), c, limit, start: unix(), wait: wait as u64, serial, batch: self.batch });
        if !self.alive(c) { self.cx.label("fetch-stale"); }
    }
    async fn disconnect(&mut self, s: &Srv, conn: usize) {
        s.disconnect(&Self::conn(conn)).await;
        self.gone_conn(conn);
    }
    fn gone_conn(&mut self, conn: usize) {
        let md = self.cfg.maxdel;
        for c in 0..self.cons.len() {
            if self.cons[c].conn != conn { continue; }
            if !self.grp(c).is_some_and(|g| g.members.contains(&c)) { continue; }
            let (back, parked) = self.grp(c).unwrap().drop_member(c, md);
            self.cx.add("returned-by-disconnect", back as u64);
            self.cx.add("parked", parked as u64);
        }
    }
    async fn publish(&mut self, s: &Srv, at: &str, t: usize, b: Vec<u8>) -> Result<(), String> {
        let lo = unix();
        let r = s.s_pub(&self.names[t], &b).await?;
        match (&mut self.cur[t], r) {
            (None, Ok(n)) => return Err(format!("{at}: publish to an absent stream was confirmed with seq {n}")),
            (None, Err(_)) => {}
            (Some(top), r) => {
                let n = r.map_err(|e| format!("{at}: publish refused: {e}"))?;
                if n != top.last() + 1 { return Err(format!("{at}: publish got seq {n}, expected {}", top.last() + 1)); }
                top.msgs.push(Rec { payload: b, lo, hi: unix(), ts: None });
                self.cx.label("publish");
            }
        }
        Ok(())
    }
    async fn read(&mut self, s: &Srv, at: &str, t: usize, from: u64, limit: u32) -> Result<(), String> {
        let got = tokio::time::timeout(std::time::Duration::from_millis(ANSWER_MS), s.eng.stream.read(&self.names[t], from, limit as usize)).await.map_err(|_| format!("{at}: read: no answer"))?;
        let what = format!("{at}: read of {:?} from {from}, limit {limit}", self.names[t]);
        let ram = self.cfg.ram as u64;
        let Some(top) = &mut self.cur[t] else { if !got.is_empty() { return Err(format!("{what}: {} messages of an absent stream", got.len())); } return Ok(()) };
        if got.len() > limit as usize { return Err(format!("{what}: {} messages", got.len())); }
        let start = from.max(top.head);
        if got.is_empty() && limit > 0 && start <= top.last() { return Err(format!("{what}: nothing (oldest {}, last {})", top.head, top.last())); }
        for (n, m) in got.iter().enumerate() {
            let m = SMsg { seq: m.seq, ts: m.timestamp, payload: m.payload.to_vec() };
            if m.seq != start + n as u64 { return Err(format!("{what}: seq {} where {} was expected", m.seq, start + n as u64)); }
            top.same(&what, &m)?;
        }
        if !got.is_empty() { self.cx.label("read"); if top.last() > start + ram + 1 { self.cx.label("read-old"); } }
        Ok(())
    }
    /// Positions and counts shown for every group.
    pub async fn check(&mut self, h: &Http, at: &str) -> Result<(), String> {
        let v = h.json("/api/stream").await?;
        let list = v["topics"].as_array().ok_or(format!("{at}: no topic list"))?;
        for (k, top) in self.cur.iter().enumerate() {
            let x: Vec<_> = list.iter().filter(|x| x["name"] == self.names[k].as_str()).collect();
            let Some(top) = top else { if !x.is_empty() { return Err(format!("{at}: absent stream {:?} is listed", self.names[k])); } continue };
            if x.len() != 1 { return Err(format!("{at}: stream {:?} is listed {} times", self.names[k], x.len())); }
            if x[0]["last_seq"] != top.last() { return Err(format!("{at}: stream {:?} shows last_seq {}, published were {}", self.names[k], x[0]["last_seq"], top.last())); }
            let gs = x[0]["groups"].as_array().ok_or("no groups")?;
            if gs.len() != top.groups.len() { return Err(format!("{at}: stream {:?} shows groups {:?}, expected {:?}", self.names[k], gs.iter().map(|g| &g["id"]).collect::<Vec<_>>(), top.groups.keys().map(|g| &self.gnames[*g]).collect::<Vec<_>>())); }
            for (g, gr) in &top.groups {
                let x = gs.iter().find(|x| x["id"] == self.gnames[*g].as_str()).ok_or(format!("{at}: group {:?} is missing", self.gnames[*g]))?;
                if x["ack_floor"] != gr.floor { return Err(format!("{at}: group {:?} shows ack floor {}, but it is {} (next {}, outstanding {:?}, returned {:?})", self.gnames[*g], x["ack_floor"], gr.floor, gr.next, gr.pend.keys().collect::<Vec<_>>(), gr.red.keys().collect::<Vec<_>>())); }
                if x["pending_count"] != gr.pend.len() { return Err(format!("{at}: group {:?} shows {} pending, outstanding are {:?}", self.gnames[*g], x["pending_count"], gr.pend.keys().collect::<Vec<_>>())); }
                if !gr.pend.is_empty() || !gr.red.is_empty() { self.cx.label("check-open"); if gr.pend.keys().chain(gr.red.keys()).min().is_some_and(|m| (*m..gr.next).any(|s| !gr.pend.contains_key(&s) && !gr.red.contains_key(&s))) { self.cx.label("check-gap"); } }
                if gr.floor > 0 { self.cx.label("check-floor"); }
            }
        }
        Ok(())
    }
    async fn step(&mut self, s: &Srv, i: usize, o: &Op) -> Result<(), String> {
        let at = format!("op {i} at {} ms", now() / 1_000_000);
        let at = at.as_str();
        self.observe_heads(s, at).await?;
        self.clear(s, at).await?;
        self.batch += 1;
        let md = self.cfg.maxdel;
        let living: Vec<usize> = (0..self.cons.len()).filter(|c| self.alive(*c)).collect();
        let pick = |m: usize, n: usize| if n == 0 { None } else { Some(if m < 1000 && !living.is_empty() { living[m % living.len()] } else { m % n }) };
        match o {
            Op::Create(t, a, b) => {
                s.s_create(&self.names[*t], *a, *b).await?.map_err(|e| format!("{at}: create refused: {e}"))?;
                if self.cur[*t].is_none() {
                    self.incs += 1;
                    let lim = |v: &Option<u64>, d: u64| match v { None => Some(d), Some(0) => None, Some(x) => Some(*x) };
                    self.cur[*t] = Some(Topic { inc: self.incs, head: 1, msgs: vec![], groups: BTreeMap::new(), age: lim(a, self.cfg.age), bytes: lim(b, self.cfg.bytes) });
                } else { self.cx.label("create-existing"); }
            }
            Op::Delete(t) => {
                s.s_delete(&self.names[*t]).await?.ok();
                if self.cur[*t].take().is_some() {
                    for w in &self.w { if self.cons[w.c].t == *t { w.p.as_ref().unwrap().abort(); } }
                    let t = *t;
                    let cons = &self.cons;
                    self.w.retain(|w| cons[w.c].t != t);
                    self.cx.label("delete");
                }
            }
            Op::Pub(t, b) => self.publish(s, at, *t, b.bytes()).await?,
            Op::PubMany(t, n, len, tag) => for j in 0..*n as u32 {
                let l = (*len as u32).wrapping_mul(1 + (tag >> (j % 7) & 3)) / 2;
                self.publish(s, at, *t, Pay::Run(tag.wrapping_add(j), l).bytes()).await?;
            },
            Op::Join { conn, g, t } => {
                let r = s.s_join(&Self::conn(*conn), &self.gnames[*g], &self.names[*t]).await?;
                let n = self.cons.len();
                let Some(top) = &mut self.cur[*t] else { if r.is_ok() { return Err(format!("{at}: join on an absent stream succeeded")); } return Ok(()) };
                let j = r.map_err(|e| format!("{at}: join refused: {e}"))?;
                let head = top.head;
                let new = !top.groups.contains_key(g);
                let gr = top.groups.entry(*g).or_insert_with(|| Grp::at_head(head));
                if j.floor != gr.floor { return Err(format!("{at}: join of {} group reports ack floor {}, expected {}", if new { "a new" } else { "an existing" }, j.floor, gr.floor)); }
                match gr.gen { Some(x) if x != j.gen => return Err(format!("{at}: join reports generation {}, another member has {x}", j.gen)), _ => {} }
                if gr.old_gen == Some(j.gen) { return Err(format!("{at}: generation {} is the one from before the seek", j.gen)); }
                if self.cons.iter().any(|c| c.id == j.consumer) { return Err(format!("{at}: consumer id {} was given before", j.consumer)); }
                gr.gen = Some(j.gen);
                gr.members.insert(n);
                self.cons.push(Cons { t: *t, inc: top.inc, g: *g, conn: *conn, id: j.consumer, gen: j.gen });
                if !new { self.cx.label("join-existing"); }
                if head > 1 && new { self.cx.label("join-after-removal"); }
            }
            Op::Fetch(m, l, w) => if let Some(c) = pick(*m, self.cons.len()) { self.begin(s, c, *l, *w); },
            Op::FetchAll(m, l, w) => if let Some(c) = pick(*m, self.cons.len()) {
                let (t, g) = (self.cons[c].t, self.cons[c].g);
                let v: Vec<usize> = (0..self.cons.len()).filter(|x| self.cons[*x].t == t && self.cons[*x].g == g && self.alive(*x)).collect();
                for c in v { self.begin(s, c, *l, *w); }
            },
            Op::Ack(m, w, k) => if let Some(c) = pick(*m, self.cons.len()) { self.ack(s, at, c, w, *k).await?; },
            Op::AckAll(m) => if let Some(c) = pick(*m, self.cons.len()) {
                for _ in 0..self.grp(c).map_or(0, |g| g.pend.values().filter(|o| o.c == c).count()) { self.ack(s, at, c, &Which::Mine, 0).await?; }
            },
            Op::Leave(m) => if let Some(c) = pick(*m, self.cons.len()) { self.leave(s, at, c).await?; },
            Op::Disconnect(conn) => {
                let had = self.w.iter().any(|w| self.cons[w.c].conn == *conn);
                if had { self.cx.label("disconnect-waiting"); }
                if i % 2 == 0 { for w in &self.w { if self.cons[w.c].conn == *conn { w.p.as_ref().unwrap().abort(); } } let cons = &self.cons; self.w.retain(|w| cons[w.c].conn != *conn); }
                self.disconnect(s, *conn).await;
            }
            Op::Seek { g, t, end } => self.seek(s, at, *g, *t, *end).await?,
            Op::Race { m, limit, wait, n, what } => if let Some(c) = pick(*m, self.cons.len()) {
                if self.w.iter().any(|w| self.cons[w.c].g == self.cons[c].g && self.cons[w.c].t == self.cons[c].t) { return Ok(()); }
                let k = self.cons[c].clone();
                if self.cur[k.t].as_ref().is_none_or(|t| t.inc != k.inc) { return Ok(()); }
                let was = self.alive(c);
                let last = self.cur[k.t].as_ref().unwrap().last();
                let open = self.grp(c).is_some_and(|g| g.ready(last));
                self.begin(s, c, *limit, *wait);
                // blocking file reads finish in real time
                for j in 0..*n { tokio::task::yield_now().await; if j > 5 { std::thread::sleep(std::time::Duration::from_micros(30)); } }
                let mid = !self.w.last().unwrap().p.as_ref().unwrap().done();
                if mid && open && was { self.cx.label("race-in-flight"); }
                match what {
                    0 | 1 => {
                        // an answer given before the seek took effect belongs before it
                        self.seek_call(s, at, k.g, k.t, *what == 1).await?;
                        self.early(at, c, *limit, was, true).await?;
                        self.seek_model(k.g, k.t, *what == 1);
                        self.cx.label("race-seek");
                    }
                    2 => {
                        let r = s.s_leave(&Self::conn(k.conn), &self.names[k.t], &self.gnames[k.g], &k.id, k.gen).await?;
                        if was != r.is_ok() { return Err(format!("{at}: leave by {} answered {r:?}", if was { "a member" } else { "a stranger" })); }
                        self.early(at, c, *limit, was, true).await?;
                        if was { self.grp(c).unwrap().drop_member(c, md); self.cx.label("race-leave"); }
                    }
                    3 => {
                        s.disconnect(&Self::conn(k.conn)).await;
                        self.early(at, c, *limit, was, true).await?;
                        self.gone_conn(k.conn);
                        self.cx.label("race-disconnect");
                    }
                    _ => {
                        let w = self.w.pop().unwrap();
                        w.p.unwrap().abort();
                        for w in &self.w { if self.cons[w.c].conn == k.conn { w.p.as_ref().unwrap().abort(); } }
                        let cons = &self.cons;
                        self.w.retain(|w| cons[w.c].conn != k.conn);
                        tokio::task::yield_now().await;
                        // what the lost answer held is unknown
                        if let (true, Some(g)) = (was, self.grp(c)) {
                            g.next_hi = (g.next.max(g.next_hi) + *limit as u64).min(last + 1).max(g.next);
                            let lo = g.floor + 1;
                            for s in lo..g.next_hi { if !g.pend.contains_key(&s) { g.att.remove(&s); } }
                        }
                        self.disconnect(s, k.conn).await;
                        self.cx.label("vanished");
                        if mid && open { self.cx.label("vanished-in-fetch"); }
                    }
                }
            },
            Op::Read(t, f, l) => {
                let (head, last) = self.cur[*t].as_ref().map_or((1, 0), |t| (t.head, t.last()));
                let f = match f { Pos::At(k) => head.saturating_sub(2) + k % (last + 3), Pos::Head => head, Pos::End => last, Pos::Zero => 0, Pos::Huge => u64::MAX, Pos::Back(k) => last.saturating_sub(*k) };
                self.read(s, at, *t, f, *l).await?;
            }
            Op::Wait(ms) => self.advance(s, at, *ms).await?,
            Op::Jump(ms) => if self.w.is_empty() { jump_ms(*ms).await; self.seen_tick = u64::MAX; self.lenient = true; self.collect(s, at).await?; self.advance(s, at, 120).await?; self.due(unix()); self.cx.label("jump"); } else { self.advance(s, at, *ms % 5000).await? },
            Op::WaitAck => { let t = unix(); if let Some(d) = self.pends().filter(|d| *d > t && *d < t + 3_600_000).min() { self.advance(s, at, d + SLACK + 1 - t).await?; } }
            Op::Check | Op::Restart { .. } => {}
        }
        self.collect(s, at).await
    }
    /// The answer to the raced fetch, if it was given already.
    async fn early(&mut self, at: &str, c: usize, limit: u32, was: bool, pop: bool) -> Result<(), String> {
        let fin = self.w.last().unwrap().p.as_ref().unwrap().done();
        // let an in-flight disk read finish before looking: its outcome decides
        settle().await;
        let w = self.w.last_mut().unwrap();
        if !w.p.as_ref().unwrap().done() { return Err(format!("{at}: a fetch is still waiting although its member is gone or fenced")); }
        if pop {
            let w = self.w.pop().unwrap();
            let (r, t) = w.p.unwrap().get(1000).await?;
            if let Reply::Data(b) = r {
                let v = parse_smsgs(&b)?;
                if !v.is_empty() {
                    if !was { return Err(format!("{at}: {} messages for a member that is gone or fenced", v.len())); }
                    if !fin && !v.is_empty() { return Err(format!("{at}: a fetch in progress answered with {} messages after its member was gone or fenced", v.len())); }
                    self.deliver(at, c, limit, &v, t + ip::BASE_REAL as u64 * 1000)?;
                    self.cx.label("race-answered-before");
                } else { self.cx.label("race-cut"); }
            }
        }
        Ok(())
    }
    async fn ack(&mut self, s: &Srv, at: &str, c: usize, w: &Which, k: usize) -> Result<(), String> {
        let n = self.cons[c].clone();
        let last = self.cur[n.t].as_ref().map_or(0, |t| t.last());
        let (mine, other, done): (Vec<u64>, Vec<u64>, Vec<u64>) = match self.grp(c) {
            None => (vec![], vec![], vec![]),
            Some(g) => (g.pend.iter().filter(|x| x.1.c == c).map(|x| *x.0).collect(), g.pend.iter().filter(|x| x.1.c != c).map(|x| *x.0).collect(), (1..g.next).filter(|x| !g.pend.contains_key(x)).collect()),
        };
        let f = |v: &[u64]| if v.is_empty() { last + 1 } else { v[k % v.len()] };
        let seq = match w { Which::Mine => f(&mine), Which::Pend => f(&[mine.clone(), other.clone()].concat()), Which::Other => f(&other), Which::Done => f(&done), Which::Future => last + 1 + k as u64, Which::Zero => 0, Which::Huge => u64::MAX };
        let r = s.s_ack(&Self::conn(n.conn), &self.names[n.t], &self.gnames[n.g], &n.id, n.gen, seq).await?;
        let alive = self.alive(c);
        if alive && mine.contains(&seq) {
            r.map_err(|e| format!("{at}: ack of seq {seq} by its holder {c} refused: {e}"))?;
            let g = self.grp(c).unwrap();
            let ooo = g.pend.keys().any(|x| *x < seq) || g.red.keys().any(|x| *x < seq);
            g.pend.remove(&seq);
            g.att.remove(&seq);
            g.settle();
            self.cx.label("ack");
            if ooo { self.cx.label("ack-out-of-order"); }
        } else {
            if r.is_ok() { return Err(format!("{at}: ack of seq {seq} by member {c} was confirmed, but {}", if !alive { "it is gone or fenced" } else { "it does not hold it" })); }
            self.cx.label(if alive { "ack-refused" } else { "ack-stale" });
        }
        Ok(())
    }
    async fn leave(&mut self, s: &Srv, at: &str, c: usize) -> Result<(), String> {
        let n = self.cons[c].clone();
        let was = self.alive(c);
        let r = s.s_leave(&Self::conn(n.conn), &self.names[n.t], &self.gnames[n.g], &n.id, n.gen).await?;
        if was != r.is_ok() { return Err(format!("{at}: leave by {} answered {r:?}", if was { "a member" } else { "a stranger" })); }
        if was {
            let md = self.cfg.maxdel;
            let (b, p) = self.grp(c).unwrap().drop_member(c, md);
            self.cx.add("returned-by-leave", b as u64);
            self.cx.add("parked", p as u64);
        }
        Ok(())
    }
    async fn seek_call(&mut self, s: &Srv, at: &str, g: usize, t: usize, end: bool) -> Result<(), String> {
        let r = s.s_seek("c", &self.names[t], &self.gnames[g], end).await?;
        match (&self.cur[t], r) {
            (None, Ok(())) => Err(format!("{at}: seek on an absent stream succeeded")),
            (None, _) => Ok(()),
            (Some(_), r) => r.map_err(|e| format!("{at}: seek refused: {e}")),
        }
    }
    fn seek_model(&mut self, g: usize, t: usize, end: bool) {
        if let Some(top) = &mut self.cur[t] {
            let (head, last) = (top.head, top.last());
            let gr = top.groups.entry(g).or_insert_with(|| Grp::at_head(head));
            if !gr.members.is_empty() { self.cx.label("seek-fences"); }
            gr.seek(if end { last } else { head - 1 });
        }
    }
    async fn seek(&mut self, s: &Srv, at: &str, g: usize, t: usize, end: bool) -> Result<(), String> {
        self.seek_call(s, at, g, t, end).await?;
        self.seek_model(g, t, end);
        Ok(())
    }
    pub fn restarted(&mut self) {
        let boot = unix();
        self.boot = boot;
        self.seen_tick = u64::MAX;
        for top in self.cur.iter_mut().flatten() { for g in top.groups.values_mut() { *g = Grp { floor: g.floor, next: g.floor + 1, next_hi: g.floor + 1, serial: g.serial + 1, ..Default::default() }; } }
    }
    /// Nothing is lost: every group gives out all that is left, every position is readable.
    async fn drain(&mut self, s: &Srv) -> Result<(), String> {
        let at = "at the end";
        for w in self.w.drain(..) { w.p.unwrap().abort(); }
        settle().await;
        for conn in 0..8 { self.disconnect(s, conn).await; }
        self.collect(s, at).await?;
        for t in 0..self.cur.len() {
            let ex = s.s_exists(&self.names[t]).await??;
            if ex != self.cur[t].is_some() { return Err(format!("{at}: exists({:?}) answers {ex}", self.names[t])); }
            let Some(top) = &self.cur[t] else { continue };
            let (mut f, last) = (top.head, top.last());
            while f <= last { self.read(s, at, t, f, 500).await?; f += 500.min(last - f + 1).min(if f + 500 > last { u64::MAX } else { 1 + (f % 97) }); }
            for g in self.cur[t].as_ref().unwrap().groups.keys().copied().collect::<Vec<_>>() {
                self.step(s, 90_000 + g, &Op::Join { conn: 7, g, t }).await?;
                let c = self.cons.len() - 1;
                for n in 0.. {
                    let open = { let g = self.grp(c).unwrap(); g.ready(last) };
                    if !open { break; }
                    if n > 100_000 { return Err(format!("{at}: the group never gets everything")); }
                    self.batch += 1;
                    self.clear(s, at).await?;
                    self.begin(s, c, 1000, 0);
                    self.collect(s, at).await?;
                    for _ in 0..self.grp(c).unwrap().pend.len() { self.ack(s, at, c, &Which::Mine, 0).await?; }
                }
                self.leave(s, at, c).await?;
                if self.cur[t].as_ref().unwrap().groups[&g].floor != last { return Err(format!("harness: group {g} floor {} of {last}", self.cur[t].as_ref().unwrap().groups[&g].floor)); }
                self.cx.label("drained");
            }
        }
        Ok(())
    }
}

/// The whole history with quiet restarts.
pub fn history(case: &Case, check_each: bool, cx: &mut Cx) -> Result<(), String> {
    let root = cx.root.clone();
    let mut m = Model::new(case, cx);
    m.check_each = check_each;
    let mut sim = Sim::new();
    let (mut i, mut gen) = (0, 0);
    let mut ops: Vec<Op> = vec![];
    if case.cfg.rchk == UNLIMITED { for t in 0..case.topics { ops.push(Op::Create(t, None, None)); } }
    ops.extend(case.ops.iter().cloned());
    while i <= ops.len() {
        let dir = format!("{root}/s{gen}");
        let cfg = config(&case.cfg, &dir, &root);
        m.boot = ip::BASE_REAL as u64 * 1000 + sim.vt / 1_000_000;
        let down = sim.run(async {
            let s = Srv::start(&cfg).await;
            let h = Http::start(&s).await;
            settle().await;
            m.observe_heads(&s, "after start").await?;
            if gen > 0 { m.check(&h, "after a restart").await?; }
            while i < ops.len() {
                let at = format!("op {i}");
                if let Op::Restart { down } = &ops[i] {
                    for w in m.w.drain(..) { w.p.unwrap().abort(); }
                    settle().await;
                    for c in 0..8 { m.disconnect(&s, c).await; }
                    m.clear(&s, &at).await?;
                    m.quiet(&s, &at).await?;
                    ip::image(&dir, &format!("{root}/s{}", gen + 1));
                    return Ok(Some(*down));
                }
                m.step(&s, i, &ops[i]).await?;
                if m.check_each || matches!(ops[i], Op::Check) { m.clear(&s, &at).await?; m.check(&h, &at).await?; }
                i += 1;
            }
            m.clear(&s, "end").await?;
            m.check(&h, "at the end").await?;
            m.drain(&s).await?;
            m.check(&h, "at the very end").await?;
            Ok::<_, String>(None)
        })?;
        i += 1;
        if let Some(down) = down { sim.down(down); ip::vt_set(sim.vt); m.restarted(); gen += 1; m.cx.label("restart"); }
    }
    Ok(())
}

// ---------------------------------------------------------------- generators
fn spay() -> BoxedStrategy<Pay> { prop_oneof![4 => pay(), 1 => (any::<u32>(), 0u32..60).prop_map(|(t, n)| Pay::Run(t, n)), 1 => (any::<u32>(), prop_oneof![Just(8192u32), Just(8168), 1000u32..20_000]).prop_map(|(t, n)| Pay::Run(t, n))].boxed() }
fn lim() -> BoxedStrategy<u32> { prop_oneof![3 => Just(1u32), 6 => 2u32..8, 3 => 8u32..40, 1 => Just(0), 1 => Just(1000), 1 => Just(u32::MAX)].boxed() }
#[derive(Clone, Copy)]
struct Wt { create: u32, delete: u32, publ: u32, join: u32, fetch: u32, all: u32, ack: u32, ackall: u32, leave: u32, disc: u32, seek: u32, race: u32, read: u32, wait: u32, jump: u32, waitack: u32, check: u32, restart: u32, longpoll: bool, stale: u32, limits: bool }
const W0: Wt = Wt { create: 0, delete: 0, publ: 0, join: 0, fetch: 0, all: 0, ack: 0, ackall: 0, leave: 0, disc: 0, seek: 0, race: 0, read: 0, wait: 0, jump: 0, waitack: 0, check: 0, restart: 0, longpoll: false, stale: 0, limits: false };
fn op(nt: usize, nc: usize, ng: usize, w: Wt) -> BoxedStrategy<Op> {
    let who = move || if w.stale > 0 { prop_oneof![8 => 0usize..40, w.stale => 1000usize..2000].boxed() } else { (0usize..40).boxed() };
    let wt = move || if w.longpoll { prop_oneof![2 => Just(0u32), 6 => 1u32..5000, 2 => 5000u32..60_000].boxed() } else { Just(0u32).boxed() };
    let which = prop_oneof![16 => Just(Which::Mine), 2 => Just(Which::Pend), 1 => Just(Which::Other), 1 => Just(Which::Done), 1 => Just(Which::Future), 1 => prop_oneof![Just(Which::Zero), Just(Which::Huge)]];
    let limits = w.limits;
    let age = move || if limits { prop_oneof![2 => Just(None), 2 => Just(Some(0u64)), 6 => (300u64..30_000).prop_map(Some), 1 => prop_oneof![Just(u64::MAX), any::<u64>()].prop_map(Some)].boxed() } else { Just(None).boxed() };
    let bytes = move || if limits { prop_oneof![2 => Just(None), 2 => Just(Some(0u64)), 6 => (1u64..9_000).prop_map(Some), 1 => any::<u64>().prop_map(Some)].boxed() } else { Just(None).boxed() };
    pick_one(vec![
        (w.create, (0..nt, age(), bytes()).prop_map(|(t, a, b)| Op::Create(t, a, b)).boxed()),
        (w.delete, (0..nt).prop_map(Op::Delete).boxed()),
        (w.publ, prop_oneof![3 => (0..nt, spay()).prop_map(|(t, p)| Op::Pub(t, p)), 3 => (0..nt, 1u8..30, prop_oneof![0u16..40, 40u16..300], any::<u32>()).prop_map(|(t, n, l, x)| Op::PubMany(t, n, l, x))].boxed()),
        (w.join, (0..nc, 0..ng, 0..nt).prop_map(|(conn, g, t)| Op::Join { conn, g, t }).boxed()),
        (w.fetch, (who(), lim(), wt()).prop_map(|(m, l, w)| Op::Fetch(m, l, w)).boxed()),
        (w.all, (who(), lim(), wt()).prop_map(|(m, l, w)| Op::FetchAll(m, l, w)).boxed()),
        (w.ack, (who(), which, 0usize..64).prop_map(|(m, w, k)| Op::Ack(m, w, k)).boxed()),
        (w.ackall, who().prop_map(Op::AckAll).boxed()),
        (w.leave, who().prop_map(Op::Leave).boxed()),
        (w.disc, (0..nc).prop_map(Op::Disconnect).boxed()),
        (w.seek, (0..ng, 0..nt, any::<bool>()).prop_map(|(g, t, end)| Op::Seek { g, t, end }).boxed()),
        (w.race, (who(), lim(), wt(), 0u8..24, prop_oneof![Just(0u8), Just(1), Just(2), Just(3), Just(4)]).prop_map(|(m, limit, wait, n, what)| Op::Race { m, limit, wait, n, what }).boxed()),
        (w.read, (0..nt, prop_oneof![8 => any::<u16>().prop_map(|k| Pos::At(k as u64)), 2 => (0u64..40).prop_map(Pos::Back), 1 => Just(Pos::Head), 1 => Just(Pos::End), 1 => Just(Pos::Zero), 1 => Just(Pos::Huge)], lim()).prop_map(|(t, f, l)| Op::Read(t, f, l)).boxed()),
        (w.wait, prop_oneof![3 => 1u64..200, 3 => 200u64..3000, 1 => 3000u64..20_000].prop_map(Op::Wait).boxed()),
        (w.jump, (200u64..50_000).prop_map(Op::Jump).boxed()),
        (w.waitack, Just(Op::WaitAck).boxed()),
        (w.check, Just(Op::Check).boxed()),
        (w.restart, prop_oneof![Just(0u64), 1u64..5000, 5000u64..200_000].prop_map(|down| Op::Restart { down }).boxed()),
    ])
}
fn cfg(limits: bool, maxdel: BoxedStrategy<u32>) -> BoxedStrategy<Cfg> {
    let rt = if limits { (200u64..4000, 1000u64..30_000, prop_oneof![Just(1u64 << 40), 200u64..8000]).boxed() } else { Just((UNLIMITED, 604_800_000u64, 1u64 << 30)).boxed() };
    (
        (prop_oneof![Just(10u64), Just(50), Just(200)], prop_oneof![2 => 30u64..400, 2 => 400u64..4000, 1 => Just(100_000_000u64)], prop_oneof![Just(1usize), Just(2), Just(256)], prop_oneof![1 => Just(0usize), 4 => 1usize..12, 2 => Just(1000)], prop_oneof![Just(20u64), Just(500), Just(50)]),
        (prop_oneof![2 => 1usize..6, 3 => 6usize..30, 2 => Just(10_000)], 400u64..8000, maxdel, rt),
    ).prop_map(|((flush, seg, files, ram, evict), (map, ack_wait, maxdel, (rchk, age, bytes)))| Cfg { rchk: rchk.max(13 * flush + 120), flush, seg, files, ram, evict, map, ack_wait, maxdel, age, bytes }).boxed()
}
fn case(i: u64, w: Wt, nt: std::ops::Range<usize>, maxdel: BoxedStrategy<u32>) -> BoxedStrategy<Case> {
    let len = if i % 8 == 0 { 200usize } else { 60 };
    let lims = (proptest::option::weighted(0.7, prop_oneof![4 => Just(0u64), 6 => 300u64..30_000, 1 => Just(u64::MAX), 1 => any::<u64>()]), proptest::option::weighted(0.7, prop_oneof![3 => Just(0u64), 6 => 1u64..9_000, 1 => any::<u64>()]));
    (nt, 1usize..5, 1usize..4, cfg(w.limits, maxdel), proptest::collection::vec(lims, 4)).prop_flat_map(move |(topics, conns, groups, cfg, lims)| {
        let limits = w.limits;
        let made = (0..topics).filter(move |_| limits).map(move |t| Op::Create(t, lims[t].0, lims[t].1)).collect::<Vec<_>>();
        let pre = (0..topics).flat_map(move |t| (0..conns.min(3)).map(move |c| Op::Join { conn: c, g: (c / 2) % groups, t })).collect::<Vec<_>>();
        let joins = w.join > 0;
        proptest::collection::vec(op(topics, conns, groups, w), 1..len).prop_map(move |ops| {
            let mut v = made.clone();
            if joins { v.extend(pre.clone()); }
            v.extend(ops);
            Case { topics, conns, groups, cfg: cfg.clone(), ops: v }
        })
    }).boxed()
}
fn del() -> BoxedStrategy<u32> { prop_oneof![4 => 1u32..5, 1 => Just(1000)].boxed() }

pub struct C14;
impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "a position older than the memory window was read after at least 20 publishes";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 1, delete: 1, publ: 20, join: 1, fetch: 3, ackall: 2, read: 30, wait: 10, jump: 1, restart: 1, ..W0 }, 1..5, del()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, false, cx)?;
        cx.nontrivial = cx.has("read-old") && cx.get("publish") >= 20;
        Ok(())
    }
}
pub struct C15;
impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "messages were delivered, acknowledged and redelivered, and a member went away holding some";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 1, delete: 0, publ: 12, join: 4, fetch: 22, all: 1, ack: 14, ackall: 3, leave: 2, disc: 2, seek: 1, read: 0, wait: 6, jump: 1, waitack: 5, check: 2, restart: 1, stale: 1, ..W0 }, 1..3, del()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, false, cx)?;
        cx.nontrivial = cx.has("delivered") && cx.has("ack") && cx.has("redelivered") && (cx.has("returned-by-leave") || cx.has("returned-by-disconnect"));
        Ok(())
    }
}
pub struct C16;
impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "the floor was compared while acknowledged messages lay above unacknowledged ones, and messages were parked";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5000 } else { 100_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 1, delete: 1, publ: 9, join: 4, fetch: 20, ack: 22, ackall: 3, leave: 2, disc: 1, seek: 3, wait: 4, waitack: 8, check: 0, restart: 1, stale: 1, ..W0 }, 1..3, prop_oneof![3 => 1u32..3, 1 => 3u32..6].boxed()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, true, cx)?;
        cx.nontrivial = cx.has("check-gap") && cx.has("parked");
        Ok(())
    }
}
pub struct C17;
impl Prop for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "a seek fenced members and an old member then fetched or acknowledged, and a seek, leave or disconnect met a fetch in progress";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 8000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 1, delete: 1, publ: 12, join: 10, fetch: 16, all: 2, ack: 10, ackall: 3, leave: 4, disc: 2, seek: 6, race: 14, wait: 5, waitack: 2, check: 4, restart: 1, longpoll: true, stale: 6, ..W0 }, 1..3, Just(1000).boxed()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, false, cx)?;
        cx.nontrivial = cx.has("seek-fences") && (cx.has("fetch-stale") || cx.has("ack-stale")) && cx.has("race-in-flight");
        Ok(())
    }
}
pub struct C20;
impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "retention removed data that a group had not read yet";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 3, delete: 1, publ: 20, join: 3, fetch: 10, ack: 4, ackall: 3, leave: 1, disc: 1, seek: 2, read: 8, wait: 16, jump: 1, waitack: 1, check: 2, restart: 1, limits: true, ..W0 }, 1..4, Just(1000).boxed()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, false, cx)?;
        cx.nontrivial = cx.has("group-overtaken");
        Ok(())
    }
}
pub struct C22;
impl Prop for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    const RULE: &'static str = "a waiting fetch was woken, another waited in vain, one was woken by a returned message or a client vanished in the middle of a fetch";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 8000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> { case(i, Wt { create: 1, publ: 10, join: 6, fetch: 20, all: 6, ack: 6, ackall: 4, leave: 4, disc: 3, seek: 1, race: 8, wait: 10, waitack: 3, check: 1, longpoll: true, ..W0 }, 1..3, Just(1000).boxed()) }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        history(case, false, cx)?;
        cx.nontrivial = cx.has("woken") && cx.has("waited-in-vain") && (cx.has("woken-by-return") || cx.has("vanished-in-fetch"));
        Ok(())
    }
}
