//! C23: any bytes as a request get one answer; malformed or absent is an error that changes nothing.
use crate::conn::*;
use crate::eng::*;
use crate::http::*;
use crate::runner::*;
use crate::sim::*;
use crate::wire::{op, Rd, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// A request field as generated; references are resolved when the request is sent.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum F {
    /// one of the case's names
    Name(usize),
    Text(String),
    /// a name of `n` bytes
    Long(u32, char),
    /// a topic of `n` levels
    Deep(u32, String),
    Json(String),
    N8(u8), N32(u32), N64(u64),
    /// the id of the k-th message ever delivered, or any id
    Id(usize), AnyId([u8; 16]),
    /// consumer / generation of the k-th join
    Consumer(usize), Gen(usize),
    Raw(Vec<u8>),
    /// a text whose length field says something else
    Lie(String, u32),
    BadText(Vec<u8>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Mut { Cut(u16), Grow(Vec<u8>), Xor(u16, u8), Ins(u16, u8), Del(u16) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Rq { cl: usize, op: u8, fields: Vec<F>, muts: Vec<Mut>, ty: u8 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step { Rq(Rq), Wait(u64), Probe }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { tcp: bool, restart: bool, warm: bool, names: Vec<String>, steps: Vec<Step> }

// ------------------------------------------------------------------ the request grammar
#[derive(Clone, Copy)]
enum G { S, J(&'static [(&'static str, K)]), U8, U32, U64, Id, Rest }
#[derive(Clone, Copy, PartialEq)]
enum K { U8, U32, U64, Bool, Ret }
fn grammar(o: u8) -> Option<&'static [G]> {
    use G::*;
    Some(match o {
        op::ECHO => &[Rest],
        op::SET => &[S, J(&[("ttl", K::U64)]), Rest],
        op::GET | op::DEL => &[S],
        op::Q_CREATE => &[S, J(&[("visibilityTimeoutMs", K::U64), ("maxRetries", K::U32)])],
        op::Q_PUSH => &[S, J(&[("priority", K::U8)]), Rest],
        op::Q_CONSUME => &[S, J(&[("batchSize", K::U64), ("waitMs", K::U64)])],
        op::Q_ACK => &[Id, S],
        op::Q_NACK => &[Id, S, S],
        op::Q_EXISTS | op::Q_DELETE | op::Q_PURGE => &[S],
        op::Q_PEEK => &[S, U32, U32],
        op::Q_MOVE | op::Q_DELDLQ => &[S, Id],
        op::PUB => &[S, J(&[("retain", K::Bool), ("ttl", K::U64)]), Rest],
        op::SUB | op::UNSUB => &[S],
        op::S_CREATE => &[S, J(&[("retention", K::Ret)])],
        op::S_PUB => &[S, Rest],
        op::S_FETCH => &[S, S, S, U64, U32, U32],
        op::S_JOIN => &[S, S],
        op::S_ACK => &[S, S, S, U64, U64],
        op::S_EXISTS | op::S_DELETE => &[S],
        op::S_SEEK => &[S, S, U8],
        op::S_LEAVE => &[S, S, S, U64],
        _ => return None,
    })
}
#[derive(Clone, Debug, PartialEq)]
enum V { S(String), N(u64), Id(u128), O(serde_json::Map<String, serde_json::Value>), R(Vec<u8>) }
#[derive(Clone, Debug, PartialEq)]
enum Cls { Bad(String), Fine(Vec<V>), Unsure(Vec<V>) }

/// None: cannot be read at all. Some(None): the server may accept or refuse it.
fn options(t: &str, spec: &[(&str, K)]) -> Result<Option<serde_json::Map<String, serde_json::Value>>, String> {
    let odd = t.matches(['[', '{']).count() > 60 || spec.iter().any(|(k, _)| t.matches(&format!("\"{k}\"")).count() > 1)
        || ["maxAgeMs", "maxBytes"].iter().any(|k| t.matches(&format!("\"{k}\"")).count() > 1);
    let v: serde_json::Value = match serde_json::from_str(t) { Ok(v) => v, Err(_) if odd || t.contains(['e', 'E', '\\']) && t.ends_with('}') => return Ok(None), Err(_) => return Err("options are not JSON".into()) };
    let m = match v { serde_json::Value::Object(m) => m, serde_json::Value::Array(_) => return Ok(None), _ => return Err("options are not an object".into()) };
    for (k, kind) in spec {
        let Some(v) = m.get(*k) else { continue };
        if v.is_null() { continue; }
        let num = |v: &serde_json::Value, max: u64| v.is_null() || v.as_u64().is_some_and(|n| n <= max);
        let good = match kind {
            K::U8 => num(v, 255), K::U32 => num(v, u32::MAX as u64), K::U64 => num(v, u64::MAX), K::Bool => v.is_boolean(),
            K::Ret => match v {
                serde_json::Value::Object(r) => ["maxAgeMs", "maxBytes"].iter().all(|k| r.get(*k).is_none_or(|v| num(v, u64::MAX))),
                serde_json::Value::Array(_) => return Ok(None),
                _ => false,
            },
        };
        if !good { return if odd { Ok(None) } else { Err(format!("option {k} is {v}")) }; }
    }
    if odd || m.keys().any(|k| !spec.iter().any(|s| s.0 == k)) { return Ok(None); }
    if let Some(r) = m.get("retention").and_then(|r| r.as_object()) { if r.keys().any(|k| k != "maxAgeMs" && k != "maxBytes") { return Ok(None); } }
    Ok(Some(m))
}
fn classify(o: u8, ty: u8, p: &[u8]) -> Cls {
    if ty != 1 { return Cls::Bad(format!("frame type {ty}")); }
    let Some(g) = grammar(o) else { return Cls::Bad("unknown opcode".into()) };
    let mut r = Rd::new(p);
    let mut vs = vec![];
    let mut sure = true;
    for f in g {
        let v = match f {
            G::S => r.string().map(V::S).map_err(|_| "text field cut off or not UTF-8".to_string()),
            G::J(spec) => r.string().map_err(|_| "options cut off or not UTF-8".to_string()).and_then(|t| options(&t, spec)).map(|m| V::O(m.unwrap_or_else(|| { sure = false; Default::default() }))),
            G::U8 => r.u8().map(|v| V::N(v as u64)).map_err(|_| "number cut off".into()),
            G::U32 => r.u32().map(|v| V::N(v as u64)).map_err(|_| "number cut off".into()),
            G::U64 => r.u64().map(V::N).map_err(|_| "number cut off".into()),
            G::Id => r.uuid().map(V::Id).map_err(|_| "id cut off".into()),
            G::Rest => { let mut v = vec![]; while let Ok(b) = r.u8() { v.push(b); } Ok(V::R(v)) }
        };
        match v { Ok(v) => vs.push(v), Err(e) => return Cls::Bad(e) }
    }
    if o == op::S_SEEK { if let Some(V::N(n)) = vs.get(2) { if *n > 1 { return Cls::Bad(format!("seek target {n}")); } } }
    if r.end().is_err() { sure = false; }
    if sure { Cls::Fine(vs) } else { Cls::Unsure(vs) }
}
fn nm(vs: &[V], i: usize) -> &str { match &vs[i] { V::S(s) => s, _ => "" } }
/// Index of the queue or stream name of a request.
fn obj(o: u8) -> Option<usize> {
    match o {
        op::Q_CREATE | op::Q_PUSH | op::Q_CONSUME | op::Q_EXISTS | op::Q_DELETE | op::Q_PURGE | op::Q_PEEK | op::Q_MOVE | op::Q_DELDLQ => Some(0),
        op::Q_ACK | op::Q_NACK => Some(1),
        op::S_CREATE | op::S_PUB | op::S_FETCH | op::S_ACK | op::S_EXISTS | op::S_DELETE | op::S_SEEK | op::S_LEAVE => Some(0),
        op::S_JOIN => Some(1),
        _ => None,
    }
}

// ------------------------------------------------------------------ what exists
#[derive(Default)]
struct M {
    queues: BTreeSet<String>, streams: BTreeSet<String>, groups: BTreeSet<(String, String)>,
    /// objects whose existence a refused or odd request left open
    open: BTreeSet<String>,
    ids: Vec<u128>, joins: Vec<(String, u64)>,
    deleted_q: BTreeSet<String>,
}
impl M {
    fn queue_op(o: u8) -> bool { (0x10..0x20).contains(&o) }
    fn must_fail(&self, o: u8, vs: &[V]) -> Option<String> {
        let n = nm(vs, obj(o)?);
        if matches!(o, op::Q_CREATE | op::Q_DELETE | op::S_CREATE | op::S_DELETE) { return None; }
        if self.open.contains(n) { return None; }
        if Self::queue_op(o) {
            if !self.queues.contains(n) { return Some(format!("queue {n:?} does not exist")); }
            if matches!(o, op::Q_ACK | op::Q_NACK) { if let V::Id(id) = vs[0] { if !self.ids.contains(&id) { return Some("no message has this id".into()); } } }
            return None;
        }
        if !self.streams.contains(n) { return Some(format!("stream {n:?} does not exist")); }
        let g = match o { op::S_FETCH | op::S_ACK | op::S_LEAVE => nm(vs, 1), _ => return None };
        if !self.groups.contains(&(n.to_string(), g.to_string())) { return Some(format!("group {g:?} does not exist")); }
        if o == op::S_ACK && !self.joins.iter().any(|j| j.0 == nm(vs, 2)) { return Some("no such group member".into()); }
        None
    }
    /// Well-formed, refers to existing things, plain values: it has to work.
    fn must_work(&self, o: u8, vs: &[V]) -> bool {
        let plain = |s: &str| s.len() <= 200;
        if !vs.iter().all(|v| match v { V::S(s) => plain(s), _ => true }) { return false; }
        if let Some(i) = obj(o) {
            let n = nm(vs, i);
            if self.open.contains(n) || !is_plain(n) { return false; }
            let there = if Self::queue_op(o) { self.queues.contains(n) } else { self.streams.contains(n) };
            match o {
                op::Q_CREATE | op::S_CREATE => return matches!(&vs[1], V::O(m) if m.values().all(|v| v.is_null() || v.as_u64().is_some_and(|n| n < 1 << 40))),
                op::Q_PUSH | op::Q_EXISTS | op::Q_PURGE | op::Q_PEEK | op::Q_MOVE | op::Q_DELDLQ | op::S_PUB | op::S_EXISTS | op::S_SEEK | op::Q_CONSUME => return there,
                op::S_JOIN => return there && is_plain(nm(vs, 0)),
                _ => return false,
            }
        }
        matches!(o, op::SET | op::GET | op::DEL | op::ECHO)
    }
    fn learn(&mut self, o: u8, vs: &[V], sure: bool, r: &Reply) {
        let ok = !matches!(r, Reply::Err(_));
        match o {
            op::Q_CREATE if ok => { self.queues.insert(nm(vs, 0).into()); }
            op::S_CREATE if ok => { self.streams.insert(nm(vs, 0).into()); }
            op::Q_DELETE if ok => { self.queues.remove(nm(vs, 0)); self.deleted_q.insert(nm(vs, 0).into()); }
            op::S_DELETE if ok => { let n = nm(vs, 0).to_string(); self.streams.remove(&n); self.groups.retain(|g| g.0 != n); }
            op::S_JOIN if ok => {
                self.groups.insert((nm(vs, 1).into(), nm(vs, 0).into()));
                if let Reply::Data(d) = r { let mut r = Rd::new(d); if let (Ok(_), Ok(g), Ok(c)) = (r.u64(), r.u64(), r.string()) { self.joins.push((c, g)); } }
            }
            op::S_SEEK if ok => { self.groups.insert((nm(vs, 0).into(), nm(vs, 1).into())); }
            op::Q_CONSUME => if let Reply::Data(d) = r { if let Ok(ms) = parse_msgs(d) { self.ids.extend(ms.iter().map(|m| m.id)); } },
            _ => {}
        }
        let _ = sure;
    }
}
/// The answer has the form its request promises.
fn shape(o: u8, vs: &[V], r: &Reply) -> Result<(), String> {
    let d = match r {
        Reply::Err(_) => return Ok(()),
        Reply::Ok => return if matches!(o, op::ECHO | op::GET | op::Q_CONSUME | op::Q_PEEK | op::Q_MOVE | op::Q_DELDLQ | op::Q_PURGE | op::S_PUB | op::S_FETCH | op::S_JOIN) { Err("answered OK without the data asked for".into()) } else { Ok(()) },
        Reply::Null => return if matches!(o, op::GET | op::PUB) { Ok(()) } else { Err("answered with nothing".into()) },
        Reply::Data(d) => d,
    };
    match o {
        op::ECHO => if let V::R(p) = &vs[0] { if p != d { return Err(format!("echo of {} bytes came back as {} others", p.len(), d.len())); } },
        op::GET => {}
        op::Q_CONSUME => { let ms = parse_msgs(d)?; if let V::O(m) = &vs[1] { if let Some(b) = m.get("batchSize").and_then(|b| b.as_u64()) { if ms.len() as u64 > b { return Err(format!("{} messages for a batch of {b}", ms.len())); } } } }
        op::S_FETCH => { let ms = parse_smsgs(d)?; if let V::N(l) = vs[4] { if ms.len() as u64 > l { return Err(format!("{} messages for a limit of {l}", ms.len())); } } }
        op::Q_PEEK => {
            let mut r = Rd::new(d);
            let (total, n) = (r.u32()?, r.u32()?);
            for _ in 0..n { r.uuid()?; r.bytes()?; r.u32()?; r.string()?; }
            r.end()?;
            if let V::N(l) = vs[1] { if n as u64 > l || n > total { return Err(format!("{n} of {total} dead letters for a limit of {l}")); } }
        }
        op::Q_MOVE | op::Q_DELDLQ => if d.as_slice() != [0] && d.as_slice() != [1] { return Err(format!("answer {d:?}")); },
        op::Q_PURGE => { let mut r = Rd::new(d); r.u32()?; r.end()?; }
        op::S_PUB => { let mut r = Rd::new(d); r.u64()?; r.end()?; }
        op::S_JOIN => { let mut r = Rd::new(d); r.u64()?; r.u64()?; r.string()?; r.end()?; }
        _ => return Err(format!("{} bytes of data nobody asked for", d.len())),
    }
    Ok(())
}

/// Names that are no paths: the containment of names is another property.
fn is_plain(n: &str) -> bool { !n.is_empty() && n.len() <= 60 && n.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-') }

fn canon(v: serde_json::Value) -> serde_json::Value {
    match v {
        serde_json::Value::Array(a) => { let mut a: Vec<_> = a.into_iter().map(canon).collect(); a.sort_by_key(|x| x.to_string()); serde_json::Value::Array(a) }
        serde_json::Value::Object(m) => serde_json::Value::Object(m.into_iter().map(|(k, v)| (k, canon(v))).collect()),
        v => v,
    }
}
/// Everything the dashboard shows about the state.
async fn shot(h: &Http) -> Result<BTreeMap<String, String>, String> {
    let mut out = BTreeMap::new();
    let mut st = canon(h.json("/api/store?limit=100000").await?);
    if let Some(k) = st["keys"].as_array_mut() { for e in k { if let Some(o) = e.as_object_mut() { o.remove("exp_at"); } } }
    out.insert("store".into(), st.to_string());
    let q = canon(h.json("/api/queue").await?);
    for e in q.as_array().into_iter().flatten() {
        let n = e["name"].as_str().unwrap_or("");
        out.insert(format!("queue {n}"), e.to_string());
        for s in ["pending", "inflight", "dlq"] { out.insert(format!("queue {n} {s}"), h.json(&format!("/api/queue/{}/messages?state={s}&limit=1000", enc(n))).await?.to_string()); }
    }
    let s = canon(h.json("/api/stream").await?);
    for e in s["topics"].as_array().into_iter().flatten() { out.insert(format!("stream {}", e["name"].as_str().unwrap_or("")), e.to_string()); }
    out.insert("pubsub".into(), canon(h.json("/api/pubsub?limit=500").await?).to_string());
    Ok(out)
}
fn differ(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    let cut = |s: Option<&String>| s.map_or("nothing".to_string(), |s| s.chars().take(300).collect());
    a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).map(|k| format!("{k}: {} became {}", cut(a.get(k)), cut(b.get(k))))
}

enum Link { Direct(String), Tcp(Box<Peer>) }
struct Run<'a> { s: Srv, h: Http, cl: Vec<Link>, m: M, cx: &'a mut Cx, next: u32, waiting: Vec<(Pending, u8, Vec<V>)>, tcp_wait: Vec<(usize, u32, u8, Vec<V>)> }

fn build(names: &[String], m: &M, fields: &[F], muts: &[Mut]) -> Vec<u8> {
    let mut w = W::new();
    for f in fields {
        w = match f {
            F::Name(k) => w.s(&names[k % names.len()]),
            F::Text(t) | F::Json(t) => w.s(t),
            F::Long(n, c) => w.s(&c.to_string().repeat(*n as usize / c.len_utf8())),
            F::Deep(n, t) => w.s(&vec![t.as_str(); *n as usize].join("/")),
            F::N8(n) => w.u8(*n), F::N32(n) => w.u32(*n), F::N64(n) => w.u64(*n),
            F::Id(k) => { let id = if m.ids.is_empty() { 7 } else { m.ids[m.ids.len() - 1 - k % m.ids.len()] }; w.raw(&id.to_be_bytes()) }
            F::AnyId(b) => w.raw(b),
            F::Consumer(k) => { let c = if m.joins.is_empty() { "none".to_string() } else { m.joins[m.joins.len() - 1 - k % m.joins.len()].0.clone() }; w.s(&c) }
            F::Gen(k) => { let g = if m.joins.is_empty() { 1 } else { m.joins[m.joins.len() - 1 - k % m.joins.len()].1 }; w.u64(g) }
            F::Raw(b) => w.raw(b),
            F::Lie(t, n) => { let mut x = w.u32(*n); x.0.extend(t.as_bytes()); x }
            F::BadText(b) => w.u32(b.len() as u32).raw(b),
        };
    }
    let mut p = w.0;
    for x in muts {
        let at = |n: u16, len: usize| if len == 0 { 0 } else { n as usize * len / 65536 };
        match x {
            Mut::Cut(n) => { let k = at(*n, p.len()); p.truncate(k); }
            Mut::Grow(b) => p.extend(b),
            Mut::Xor(n, b) => { let l = p.len(); if l > 0 { p[at(*n, l)] ^= b; } }
            Mut::Ins(n, b) => { let k = at(*n, p.len()); p.insert(k, *b); }
            Mut::Del(n) => { let l = p.len(); if l > 0 { p.remove(at(*n, l)); } }
        }
    }
    p
}

impl Run<'_> {
    /// None: a request that waits, not answered yet.
    async fn send(&mut self, cl: usize, ty: u8, o: u8, p: &[u8], vs: &[V]) -> Result<Option<Reply>, String> {
        match &mut self.cl[cl] {
            Link::Direct(c) => {
                let pd = self.s.begin(c, o, p.to_vec());
                for _ in 0..60 { if pd.done() { break; } tokio::task::yield_now().await; }
                let mut left = 400;
                while !pd.done() && left > 0 { sleep_ms(2).await; left -= 2; }
                if pd.done() { return Ok(Some(pd.get(1000).await?.0)); }
                self.waiting.push((pd, o, vs.to_vec()));
                Ok(None)
            }
            Link::Tcp(peer) => {
                self.next = self.next.wrapping_mul(0x9E37_79B1).wrapping_add(1);
                let id = self.next;
                peer.write(&frame(ty, o, id, p));
                match peer.answer(id, 400).await {
                    Ok(r) => Ok(Some(r)),
                    Err(e) => {
                        if peer.eof.is_some() { return Err(e); }
                        self.tcp_wait.push((cl, id, o, vs.to_vec()));
                        Ok(None)
                    }
                }
            }
        }
    }
    /// What came for requests that were waiting.
    async fn collect(&mut self) -> Result<(), String> {
        let mut i = 0;
        while i < self.waiting.len() {
            if self.waiting[i].0.done() {
                let (p, o, vs) = self.waiting.remove(i);
                let r = p.get(1000).await?.0;
                shape(o, &vs, &r).map_err(|e| format!("request 0x{o:02X}: {e}"))?;
                self.m.learn(o, &vs, true, &r);
            } else { i += 1; }
        }
        let Run { cl, tcp_wait, m, .. } = self;
        for (k, c) in cl.iter_mut().enumerate() {
            let Link::Tcp(p) = c else { continue };
            p.read(usize::MAX);
            if let Some(e) = &p.eof { return Err(format!("connection {k} ended by the server: {e}")); }
            if let Some(e) = p.bad() { return Err(e); }
            p.pushes();
            while let Some(f) = p.frames.pop_front() {
                let Frame::Resp(id, r) = f else { continue };
                let Some(i) = tcp_wait.iter().position(|w| w.0 == k && w.1 == id) else { return Err(format!("an answer to request {id}, which was answered before or never sent: {r:?}")) };
                let (_, _, o, vs) = tcp_wait.remove(i);
                shape(o, &vs, &r).map_err(|e| format!("request 0x{o:02X}: {e}"))?;
                m.learn(o, &vs, true, &r);
            }
        }
        Ok(())
    }
    async fn step(&mut self, names: &[String], rq: &Rq) -> Result<(), String> {
        let cl = rq.cl % self.cl.len();
        let ty = if matches!(self.cl[cl], Link::Tcp(_)) { rq.ty } else { 1 };
        let p = build(names, &self.m, &rq.fields, &rq.muts);
        let cls = classify(rq.op, ty, &p);
        if let Cls::Fine(vs) | Cls::Unsure(vs) = &cls {
            // names of stored objects stay plain here; they and the guarded objects are not touched
            if let Some(i) = obj(rq.op) { let n = nm(vs, i); if !is_plain(n) || n.starts_with("keep") { self.cx.label("skipped: path-like or guarded name"); return Ok(()); } }
            if matches!(rq.op, op::SET | op::DEL | op::PUB) && nm(vs, 0).starts_with("keep") { return Ok(()); }
            if rq.op == op::PUB && nm(vs, 0).split('/').any(|l| l == "+" || l == "#") { self.cx.label("skipped: publish to a pattern"); return Ok(()); }
        }
        let what = || format!("request 0x{:02X} (frame type {ty}, {} bytes {})", rq.op, p.len(), hex(&p));
        let (vs, why) = match &cls {
            Cls::Bad(e) => (vec![], Some(e.clone())),
            Cls::Fine(v) => (v.clone(), self.m.must_fail(rq.op, v)),
            Cls::Unsure(v) => (v.clone(), None),
        };
        settle().await;
        self.collect().await?;
        let look = why.is_some() || matches!(cls, Cls::Unsure(_));
        let before = if look { Some((shot(&self.h).await?, now_ms())) } else { None };
        let r = self.send(cl, ty, rq.op, &p, &vs).await.map_err(|e| format!("{}: {e}", what()))?;
        let Some(r) = r else {
            let waits = matches!(&vs[..], [V::S(_), V::O(m)] if rq.op == op::Q_CONSUME && m.get("waitMs").is_none_or(|w| w.as_u64() != Some(0)))
                || (rq.op == op::S_FETCH && matches!(vs.get(5), Some(V::N(n)) if *n > 0)) || (rq.op == op::Q_CONSUME && matches!(cls, Cls::Unsure(_)));
            if why.is_some() || !waits { return Err(format!("{}: no answer", what())); }
            self.cx.label("request waits");
            return Ok(());
        };
        if let Some(w) = &why {
            if !matches!(r, Reply::Err(_)) { return Err(format!("{}: answered {} although {w}", what(), brief(&r))); }
            self.cx.label(if matches!(cls, Cls::Bad(_)) { "malformed request refused" } else { "absent object refused" });
        } else {
            shape(rq.op, &vs, &r).map_err(|e| format!("{}: {e}", what()))?;
            if matches!(cls, Cls::Fine(_)) && self.m.must_work(rq.op, &vs) && matches!(r, Reply::Err(_)) { return Err(format!("{}: refused: {}", what(), brief(&r))); }
            self.cx.label(if matches!(r, Reply::Err(_)) { "odd request refused" } else { "request served" });
        }
        if let (Reply::Err(_), Some((b, t))) = (&r, &before) {
            let a = shot(&self.h).await?;
            if now_ms() == *t {
                if let Some(d) = differ(b, &a) { return Err(format!("{}: refused, but {d}", what())); }
                self.cx.label("state compared around a refusal");
            }
        }
        if !matches!(cls, Cls::Bad(_)) { self.m.learn(rq.op, &vs, matches!(cls, Cls::Fine(_)), &r); }
        Ok(())
    }
    /// Other clients are served, background work goes on.
    async fn probe(&mut self, n: u32) -> Result<(), String> {
        let s = self.s.clone();
        let tag = format!("p{n}").into_bytes();
        s.set("keep-p", &tag, None).await??;
        if s.get("keep-p").await?? != Some(tag.clone()) { return Err("the store lost a fresh value".into()); }
        let taken = self.tcp_wait.iter().any(|w| w.2 == op::Q_CONSUME) || self.waiting.iter().any(|w| w.1 == op::Q_CONSUME);
        let qs: Vec<String> = self.m.queues.iter().filter(|q| !self.m.open.contains(*q)).cloned().collect();
        for q in &qs {
            s.q_push(q, Some(255), &tag).await?.map_err(|e| format!("queue {q:?} no longer takes messages: {e}"))?;
            let mut got = false;
            for _ in 0..4 {
                let ms = s.q_consume(q, Some(100_000), Some(0)).await?.map_err(|e| format!("queue {q:?}: {e}"))?;
                self.m.ids.extend(ms.iter().map(|m| m.id));
                if let Some(m) = ms.iter().find(|m| m.payload == tag) { s.q_ack(q, m.id).await?.map_err(|e| format!("queue {q:?}: ack refused: {e}"))?; got = true; break; }
                settle().await;
                self.collect().await?;
            }
            // a request that was waiting for a message may have taken it
            if !got && !taken { return Err(format!("queue {q:?} does not deliver a new message")); }
        }
        let ss: Vec<String> = self.m.streams.iter().filter(|q| !self.m.open.contains(*q)).cloned().collect();
        for t in &ss {
            let seq = s.s_pub(t, &tag).await?.map_err(|e| format!("stream {t:?} no longer takes messages: {e}"))?;
            let ms = s.eng.stream.read(t, seq, 10).await;
            if !ms.iter().any(|m| m.seq == seq && m.payload == tag) { return Err(format!("stream {t:?} does not have message {seq} it just confirmed")); }
        }
        Ok(())
    }
}
fn hex(p: &[u8]) -> String { let mut s: String = p.iter().take(60).map(|b| format!("{b:02x}")).collect(); if p.len() > 60 { s.push_str(".."); } s }
fn brief(r: &Reply) -> String { match r { Reply::Data(d) => format!("{} bytes {}", d.len(), hex(d)), r => { let s = format!("{r:?}"); s.chars().take(200).collect() } } }

async fn keep_setup(s: &Srv) -> Result<Push, String> {
    s.set("keep-k", b"\x01kept", Some(1_000_000)).await??;
    s.q_create("keep-q", &QOpts { vis_ms: Some(3_600_000), max_retries: Some(0) }).await??;
    s.q_push("keep-q", Some(9), b"dead").await??;
    let m = s.q_consume("keep-q", Some(1), Some(0)).await??;
    s.q_nack("keep-q", m[0].id, "because").await??;
    for (p, b) in [(1u8, b"low".as_slice()), (200, b"high"), (1, b"low2")] { s.q_push("keep-q", Some(p), b).await??; }
    s.s_create("keep-s", None, None).await??;
    for i in 0..5u8 { s.s_pub("keep-s", &[b'r', i]).await??; }
    let j = s.s_join("keeper", "keep-g", "keep-s").await??;
    let ms = s.s_fetch("keeper", "keep-s", "keep-g", &j.consumer, j.gen, 2, 0).await??;
    for m in ms { s.s_ack("keeper", "keep-s", "keep-g", &j.consumer, j.gen, m.seq).await??; }
    let p = s.connect("keeper");
    s.sub("keeper", "keep/+").await??;
    s.publish("x", "keep/r", Some(true), Some(1_000_000), b"retained").await??;
    Ok(p)
}
/// What no other request may have touched.
async fn keep_check(s: &Srv, h: &Http, restarted: bool) -> Result<(), String> {
    if !restarted && s.get("keep-k").await?? != Some(b"\x01kept".to_vec()) { return Err("store key keep-k changed".into()); }
    let v = h.json("/api/queue/keep-q/messages?state=pending").await?;
    let mut got: Vec<String> = v["messages"].as_array().into_iter().flatten().map(|m| format!("{}:{}", m["priority"], m["payload"])).collect();
    got.sort();
    if got != ["1:\"low\"", "1:\"low2\"", "200:\"high\""] { return Err(format!("queue keep-q holds {got:?}")); }
    let (n, d) = s.q_peek("keep-q", 10, 0).await??;
    if n != 1 || d.len() != 1 || d[0].payload != b"dead" || d[0].reason != "because" { return Err(format!("dead letters of keep-q are {d:?}")); }
    let ms = s.eng.stream.read("keep-s", 1, 100).await;
    if ms.iter().map(|m| m.payload.to_vec()).collect::<Vec<_>>() != (0..5u8).map(|i| vec![b'r', i]).collect::<Vec<_>>() { return Err(format!("stream keep-s holds {} records, or others", ms.len())); }
    let j = s.s_join("keeper2", "keep-g", "keep-s").await??;
    if j.floor != 2 { return Err(format!("group keep-g is at {}, it was at 2", j.floor)); }
    let mut p = s.connect("keeper2");
    s.sub("keeper2", "keep/r").await??;
    if p.drain()? != [("keep/r".to_string(), b"retained".to_vec())] { return Err("retained message of keep/r is gone or another".into()); }
    s.disconnect("keeper2").await;
    Ok(())
}

fn num() -> BoxedStrategy<u64> { prop_oneof![4 => 0u64..6, 2 => Just(u64::MAX), 1 => Just(u64::MAX - 1), 1 => Just(i64::MAX as u64), 1 => Just(i64::MAX as u64 + 1), 1 => Just(u32::MAX as u64), 1 => Just(u32::MAX as u64 + 1), 1 => Just(256u64), 1 => any::<u64>(), 1 => (0u32..64).prop_map(|s| 1u64 << s), 1 => Just(u64::MAX / 1000), 1 => Just(8_210_000_000_000u64)].boxed() }
fn junk_value() -> BoxedStrategy<String> {
    prop_oneof![
        6 => num().prop_map(|n| n.to_string()),
        1 => Just("18446744073709551616".to_string()), 1 => Just("-1".to_string()), 1 => Just("1.5".to_string()), 1 => Just("5.0".to_string()), 1 => Just("1e3".to_string()), 1 => Just("-0".to_string()),
        1 => Just("null".to_string()), 1 => Just("true".to_string()), 1 => Just("\"5\"".to_string()), 1 => Just("[]".to_string()), 1 => Just("{}".to_string()), 1 => Just("[1]".to_string()), 1 => Just("1e400".to_string()), 1 => Just("\"\\ud800\"".to_string()),
    ].boxed()
}
fn json(o: u8) -> BoxedStrategy<String> {
    let keys: Vec<&'static str> = match o {
        op::SET => vec!["ttl"], op::Q_CREATE => vec!["visibilityTimeoutMs", "maxRetries"], op::Q_PUSH => vec!["priority"],
        op::Q_CONSUME => vec!["batchSize", "waitMs"], op::PUB => vec!["retain", "ttl"], _ => vec!["retention"],
    };
    let plain: BoxedStrategy<String> = match o {
        op::Q_CREATE => (0u32..4, 50u64..20_000).prop_map(|(r, v)| format!("{{\"maxRetries\":{r},\"visibilityTimeoutMs\":{v}}}")).boxed(),
        op::Q_PUSH => (0u8..=255).prop_map(|p| format!("{{\"priority\":{p}}}")).boxed(),
        op::Q_CONSUME => (0u64..5, 0u64..3).prop_map(|(b, w)| format!("{{\"batchSize\":{b},\"waitMs\":{}}}", w * 100)).boxed(),
        op::PUB => (any::<bool>(), 1u64..100).prop_map(|(r, t)| format!("{{\"retain\":{r},\"ttl\":{t}}}")).boxed(),
        op::S_CREATE => (num(), num()).prop_map(|(a, b)| format!("{{\"retention\":{{\"maxAgeMs\":{a},\"maxBytes\":{b}}}}}")).boxed(),
        _ => (0u64..50).prop_map(|t| format!("{{\"ttl\":{t}}}")).boxed(),
    };
    let ks = keys.clone();
    prop_oneof![
        5 => Just("{}".to_string()),
        8 => plain,
        5 => (proptest::sample::select(ks.clone()), junk_value()).prop_map(|(k, v)| format!("{{\"{k}\":{v}}}")),
        2 => (proptest::sample::select(vec!["maxAgeMs", "maxBytes"]), junk_value()).prop_map(move |(k, v)| if o == op::S_CREATE { format!("{{\"retention\":{{\"{k}\":{v}}}}}") } else { format!("{{\"{k}\":{v}}}") }),
        1 => (proptest::sample::select(ks.clone()), junk_value(), junk_value()).prop_map(|(k, a, b)| format!("{{\"{k}\":{a},\"{k}\":{b}}}")),
        1 => (proptest::sample::select(ks), junk_value(), "[a-z]{1,6}", junk_value()).prop_map(|(k, a, u, b)| format!("{{\"{k}\":{a},\"{u}\":{b}}}")),
        3 => proptest::sample::select(vec!["", "{", "}", "null", "[]", "5", "\"{}\"", "{}{}", "{} x", " {}\n", "{\"a\"}", "{a:1}", "tru", "\u{0}", "{\"ttl\":}", "[1,2,3]", "{\"\":{}}", "[\"x\"]"]).prop_map(str::to_string),
        1 => (1usize..4000).prop_map(|n| "[".repeat(n)),
        1 => (50usize..3000).prop_map(|n| format!("{{\"x\":{}{}}}", "[".repeat(n), "]".repeat(n))),
    ].boxed()
}
fn name() -> BoxedStrategy<F> { prop_oneof![14 => (0usize..4).prop_map(F::Name), 1 => "[a-z]{1,4}".prop_map(F::Text), 1 => proptest::collection::vec(any::<u8>(), 1..8).prop_map(F::BadText), 1 => ("[a-z]{0,6}", prop_oneof![Just(u32::MAX), Just(0u32), 1u32..12, Just(0x7FFF_FFFF), Just(0xFFFF_FFFC), any::<u32>()]).prop_map(|(t, n)| F::Lie(t, n))].boxed() }
/// Free text: keys, groups, reasons, topics.
fn words() -> BoxedStrategy<F> {
    prop_oneof![10 => (0usize..4).prop_map(F::Name), 2 => "\\PC{0,8}".prop_map(F::Text), 1 => Just(F::Text(String::new())),
        1 => (prop_oneof![Just(65535u32), Just(65536), 1u32..70_000, Just(255u32), Just(256u32)], proptest::sample::select(vec!['x', 'é', '\u{0}'])).prop_map(|(n, c)| F::Long(n, c)),
        1 => proptest::collection::vec(any::<u8>(), 1..8).prop_map(F::BadText), 1 => ("[a-z]{0,6}", any::<u32>()).prop_map(|(t, n)| F::Lie(t, n))].boxed()
}
fn topic() -> BoxedStrategy<F> {
    prop_oneof![6 => words(), 3 => proptest::sample::select(vec!["a/b", "a/+", "#", "+/+", "a/#", "/", "//", "a//b", "a/b/c", "+"]).prop_map(|t| F::Text(t.into())),
        1 => (prop_oneof![2u32..30, 30u32..2000, Just(20_000u32), Just(120_000u32)], proptest::sample::select(vec!["a", "", "+", "b"])).prop_map(|(n, t)| F::Deep(n, t.into()))].boxed()
}
fn n32() -> BoxedStrategy<F> { prop_oneof![5 => (0u32..8).prop_map(F::N32), 1 => Just(F::N32(u32::MAX)), 1 => any::<u32>().prop_map(F::N32), 1 => Just(F::N32(1 << 31))].boxed() }
fn n64() -> BoxedStrategy<F> { num().prop_map(F::N64).boxed() }
fn mid() -> BoxedStrategy<F> { prop_oneof![4 => (0usize..6).prop_map(F::Id), 1 => any::<[u8; 16]>().prop_map(F::AnyId)].boxed() }
fn body() -> BoxedStrategy<F> { proptest::collection::vec(any::<u8>(), 0..20).prop_map(F::Raw).boxed() }
fn fields(o: u8) -> BoxedStrategy<Vec<F>> {
    let consumer = prop_oneof![5 => (0usize..4).prop_map(F::Consumer), 1 => words()].boxed();
    let gen = prop_oneof![5 => (0usize..4).prop_map(F::Gen), 1 => n64()].boxed();
    let j = json(o).prop_map(F::Json).boxed();
    let l: Vec<BoxedStrategy<F>> = match o {
        op::SET => vec![words(), j, body()], op::GET | op::DEL => vec![words()],
        op::Q_CREATE => vec![name(), j], op::Q_PUSH => vec![name(), j, body()], op::Q_CONSUME => vec![name(), j],
        op::Q_ACK => vec![mid(), name()], op::Q_NACK => vec![mid(), name(), words()],
        op::Q_EXISTS | op::Q_DELETE | op::Q_PURGE | op::S_EXISTS | op::S_DELETE => vec![name()],
        op::Q_PEEK => vec![name(), n32(), n32()], op::Q_MOVE | op::Q_DELDLQ => vec![name(), mid()],
        op::PUB => vec![topic(), j, body()], op::SUB | op::UNSUB => vec![topic()],
        op::S_CREATE => vec![name(), j], op::S_PUB => vec![name(), body()],
        op::S_FETCH => vec![name(), words(), consumer, gen, n32(), prop_oneof![4 => Just(F::N32(0)), 2 => (1u32..300).prop_map(F::N32), 1 => n32()].boxed()],
        op::S_JOIN => vec![words(), name()], op::S_ACK => vec![name(), words(), consumer, gen, n64()],
        op::S_SEEK => vec![name(), words(), prop_oneof![4 => (0u8..2).prop_map(F::N8), 1 => any::<u8>().prop_map(F::N8)].boxed()],
        op::S_LEAVE => vec![name(), words(), consumer, gen],
        _ => vec![body(), body()],
    };
    l.into_iter().fold(Just(vec![]).boxed(), |acc: BoxedStrategy<Vec<F>>, f| (acc, f).prop_map(|(mut v, f)| { v.push(f); v }).boxed())
}
const OPS: &[(u32, u8)] = &[(2, op::ECHO), (4, op::SET), (3, op::GET), (2, op::DEL), (7, op::Q_CREATE), (8, op::Q_PUSH), (8, op::Q_CONSUME), (5, op::Q_ACK), (6, op::Q_NACK), (2, op::Q_EXISTS), (1, op::Q_DELETE),
    (3, op::Q_PEEK), (3, op::Q_MOVE), (3, op::Q_DELDLQ), (2, op::Q_PURGE), (6, op::PUB), (5, op::SUB), (3, op::UNSUB), (6, op::S_CREATE), (6, op::S_PUB), (8, op::S_FETCH), (6, op::S_JOIN), (6, op::S_ACK), (2, op::S_EXISTS), (1, op::S_DELETE), (4, op::S_SEEK), (4, op::S_LEAVE)];
fn request() -> BoxedStrategy<Rq> {
    let o = prop_oneof![40 => proptest::strategy::Union::new_weighted(OPS.iter().map(|(w, o)| (*w, Just(*o))).collect::<Vec<_>>()), 1 => any::<u8>(), 1 => proptest::sample::select(vec![0x01u8, 0x05, 0x0F, 0x1B, 0x1F, 0x20, 0x24, 0x2F, 0x37, 0x3A, 0x3F, 0x40, 0xFF])].boxed();
    let m = prop_oneof![3 => any::<u16>().prop_map(Mut::Cut), 1 => proptest::collection::vec(any::<u8>(), 1..6).prop_map(Mut::Grow), 3 => (any::<u16>(), prop_oneof![any::<u8>(), Just(0x80u8), Just(1u8)]).prop_map(|(a, b)| Mut::Xor(a, b)), 1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Mut::Ins(a, b)), 1 => any::<u16>().prop_map(Mut::Del)];
    let muts = prop_oneof![7 => Just(vec![]), 3 => proptest::collection::vec(m, 1..3)];
    (0usize..3, o, muts, prop_oneof![30 => Just(1u8), 1 => any::<u8>(), 1 => 2u8..4]).prop_flat_map(|(cl, o, muts, ty)| fields(o).prop_map(move |fields| Rq { cl, op: o, fields, muts: muts.clone(), ty })).boxed()
}

pub struct C23;
impl Prop for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "at least two malformed requests or requests for absent things were sent and compared around, and at least three requests were served";
    const NOTE: &'static str = "requests built from an independent grammar of every opcode with field and byte mutations, over the dispatcher and over real connections; names that are paths are left to C26, topics published to are no patterns";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5_000 } else { 60_000 } }
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 30 } else { 60 };
        let step = prop_oneof![20 => request().prop_map(Step::Rq), 1 => prop_oneof![1u64..60, 100u64..2_000].prop_map(Step::Wait), 1 => Just(Step::Probe)];
        (proptest::collection::vec("[a-z]{1,3}|[A-Z_]{1,2}|é[0-9]", 2..4), proptest::collection::vec(step, 4..n)).prop_map(move |(mut names, steps)| { names.sort(); names.dedup(); Case { tcp: i % 2 == 1, restart: i % 4 < 2, warm: i % 8 < 6, names, steps } }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut sim = Sim::new();
        let restart = case.restart;
        sim.run(async {
            let s = Srv::start(&base_config(&root)).await;
            let h = Http::start(&s).await;
            let mut keeper = keep_setup(&s).await?;
            let l = Listener::start(&s).await?;
            let mut cl = vec![];
            let mut held = vec![];
            for k in 0..3 {
                if case.tcp && k > 0 { cl.push(Link::Tcp(Box::new(l.connect(None).await?))); } else { held.push(s.connect(&format!("c{k}"))); cl.push(Link::Direct(format!("c{k}"))); }
            }
            let mut r = Run { s: s.clone(), h, cl, m: M::default(), cx, next: 1, waiting: vec![], tcp_wait: vec![] };
            if case.warm {
                let nn = |k: usize| case.names[k % case.names.len()].clone();
                let go = [
                    (op::Q_CREATE, W::new().s(&nn(0)).s("{\"maxRetries\":1}").0), (op::Q_CREATE, W::new().s(&nn(1)).s("{}").0),
                    (op::Q_PUSH, W::new().s(&nn(0)).s("{}").raw(b"a").0), (op::Q_PUSH, W::new().s(&nn(0)).s("{}").raw(b"b").0), (op::Q_PUSH, W::new().s(&nn(0)).s("{\"priority\":7}").raw(b"c").0),
                    (op::Q_CONSUME, W::new().s(&nn(0)).s("{\"batchSize\":2,\"waitMs\":0}").0),
                    (op::S_CREATE, W::new().s(&nn(0)).s("{}").0), (op::S_PUB, W::new().s(&nn(0)).raw(b"x").0), (op::S_PUB, W::new().s(&nn(0)).raw(b"y").0), (op::S_PUB, W::new().s(&nn(0)).raw(b"z").0),
                    (op::S_JOIN, W::new().s(&nn(1)).s(&nn(0)).0), (op::S_JOIN, W::new().s(&nn(0)).s(&nn(0)).0),
                ];
                for (o, p) in go {
                    let vs = match classify(o, 1, &p) { Cls::Fine(v) => v, x => return Err(format!("harness: {x:?}")) };
                    let reply = r.send(0, 1, o, &p, &vs).await?.ok_or("no answer to a plain request")?;
                    if matches!(reply, Reply::Err(_)) { return Err(format!("plain request 0x{o:02X} refused: {}", brief(&reply))); }
                    r.m.learn(o, &vs, true, &reply);
                }
            }
            for (i, st) in case.steps.iter().enumerate() {
                let e = match st {
                    Step::Rq(rq) => r.step(&case.names, rq).await,
                    Step::Wait(ms) => { sleep_ms(*ms).await; r.collect().await }
                    Step::Probe => { r.cx.label("probe"); r.probe(i as u32).await }
                };
                e.map_err(|e| format!("step {i}: {e}"))?;
                if let Some(p) = server_panics().first() { return Err(format!("step {i}: panic in the server at {}: {}", p.0, p.1)); }
            }
            settle().await;
            r.collect().await?;
            for w in &r.waiting { w.0.abort(); }
            sleep_ms(3_000).await;
            r.probe(9_999).await.map_err(|e| format!("at the end: {e}"))?;
            s.publish("x", "keep/z", None, None, b"live").await??;
            settle().await;
            let got = keeper.drain()?;
            if got != [("keep/r".to_string(), b"retained".to_vec()), ("keep/z".to_string(), b"live".to_vec())] { return Err(format!("subscriber of keep/+ got {got:?}")); }
            keep_check(&s, &r.h, false).await.map_err(|e| format!("at the end: {e}"))?;
            let refused = r.cx.get("state compared around a refusal");
            r.cx.nontrivial = refused >= 2 && r.cx.get("request served") >= 3;
            if restart { sleep_ms(3_000).await; }
            Ok::<(), String>(())
        })?;
        if restart {
            cx.label("restart");
            sim.run(async {
                let s = Srv::start(&base_config(&root)).await;
                let h = Http::start(&s).await;
                keep_check(&s, &h, true).await.map_err(|e| format!("after a restart: {e}"))
            })?;
        }
        if let Some(p) = server_panics().first() { return Err(format!("panic in the server at {}: {}", p.0, p.1)); }
        Ok(())
    }
}
