//! Typed client calls through the same dispatcher a TCP connection uses.
use crate::wire::{op, Rd, W};
use bytes::Bytes;
use nexo::brokers::pub_sub::{ClientId, PubSubMessage};
use nexo::config::Config;
use nexo::transport::tcp::dispatcher::Dispatcher;
use nexo::transport::tcp::protocol::Response;
use nexo::NexoEngine;
use std::sync::Arc;
use std::time::Duration;

/// Outer error: the property is broken (malformed, missing answer). Inner error: the server said no.
pub type R<T> = Result<Result<T, String>, String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Reply { Ok, Null, Data(Vec<u8>), Err(String) }

#[derive(Clone)]
pub struct Srv { pub eng: NexoEngine }

/// Virtual time after which a request that takes no wait time counts as unanswered.
pub const ANSWER_MS: u64 = 30_000;

pub fn base_config(root: &str) -> Config {
    let mut c = Config::global().clone();
    c.queue.persistence_path = format!("{root}/queues");
    c.stream.persistence_path = format!("{root}/streams");
    c.pubsub.persistence_path = format!("{root}/pubsub");
    c
}

pub async fn raw_call(eng: NexoEngine, cid: String, opcode: u8, payload: Vec<u8>) -> Reply {
    let c = ClientId(cid);
    match Dispatcher::new(&eng, &c).dispatch(opcode, Bytes::from(payload)).await {
        Response::Ok => Reply::Ok,
        Response::Null => Reply::Null,
        Response::Data(d) => Reply::Data(d.to_vec()),
        Response::Error(e) => Reply::Err(e),
    }
}

pub struct Pending { h: tokio::task::JoinHandle<(Reply, u64)>, what: String }
impl Pending {
    pub fn done(&self) -> bool { self.h.is_finished() }
    pub fn abort(&self) { self.h.abort(); }
    /// Reply and virtual time (ms) at which it was given.
    pub async fn get(self, max_ms: u64) -> Result<(Reply, u64), String> {
        let mut h = self.h;
        match tokio::time::timeout(Duration::from_millis(max_ms), &mut h).await {
            Err(_) => { h.abort(); Err(format!("{}: no answer within {} ms", self.what, max_ms)) }
            Ok(Err(e)) => Err(format!("{}: the request died without an answer ({})", self.what, if e.is_panic() { "panic in the server" } else { "cancelled" })),
            Ok(Ok(r)) => Ok(r),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct QMsg { pub id: u128, pub payload: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub struct DlqMsg { pub id: u128, pub payload: Vec<u8>, pub attempts: u32, pub reason: String }
#[derive(Clone, Debug, PartialEq)]
pub struct SMsg { pub seq: u64, pub ts: u64, pub payload: Vec<u8> }
#[derive(Clone, Debug, PartialEq)]
pub struct Joined { pub floor: u64, pub gen: u64, pub consumer: String }

fn ok(r: Reply, what: &str) -> R<()> {
    match r { Reply::Ok => Ok(Ok(())), Reply::Err(e) => Ok(Err(e)), x => Err(format!("{what}: unexpected answer {x:?}")) }
}
fn data(r: Reply, what: &str) -> R<Vec<u8>> {
    match r { Reply::Data(d) => Ok(Ok(d)), Reply::Err(e) => Ok(Err(e)), x => Err(format!("{what}: unexpected answer {x:?}")) }
}
fn yes(b: Vec<u8>, what: &str) -> Result<bool, String> {
    match b.as_slice() { [0] => Ok(false), [1] => Ok(true), x => Err(format!("{what}: unexpected answer {x:?}")) }
}
pub fn parse_msgs(b: &[u8]) -> Result<Vec<QMsg>, String> {
    let mut r = Rd::new(b);
    let n = r.u32()?;
    let mut v = Vec::new();
    for _ in 0..n { v.push(QMsg { id: r.uuid()?, payload: r.bytes()? }); }
    r.end()?;
    Ok(v)
}
pub fn parse_smsgs(b: &[u8]) -> Result<Vec<SMsg>, String> {
    let mut r = Rd::new(b);
    let n = r.u32()?;
    let mut v = Vec::new();
    for _ in 0..n { v.push(SMsg { seq: r.u64()?, ts: r.u64()?, payload: r.bytes()? }); }
    r.end()?;
    Ok(v)
}

#[derive(Clone, Debug, Default)]
pub struct QOpts { pub vis_ms: Option<u64>, pub max_retries: Option<u32> }

impl Srv {
    pub async fn start(cfg: &Config) -> Srv { Srv { eng: NexoEngine::new(cfg).await } }

    /// Start a request; it runs like one a connection spawned.
    pub fn begin(&self, cid: &str, opcode: u8, payload: Vec<u8>) -> Pending {
        let (e, c) = (self.eng.clone(), cid.to_string());
        let what = format!("request 0x{opcode:02X}");
        Pending { h: tokio::spawn(async move { let r = raw_call(e, c, opcode, payload).await; (r, crate::sim::now_ms()) }), what }
    }
    pub async fn call(&self, cid: &str, opcode: u8, payload: Vec<u8>) -> Result<Reply, String> {
        Ok(self.begin(cid, opcode, payload).get(ANSWER_MS).await?.0)
    }
    pub async fn call_long(&self, cid: &str, opcode: u8, payload: Vec<u8>, wait: u64) -> Result<Reply, String> {
        Ok(self.begin(cid, opcode, payload).get(ANSWER_MS + wait).await?.0)
    }

    // ------------------------------------------------ store
    pub async fn set(&self, key: &str, val: &[u8], ttl: Option<u64>) -> R<()> {
        let o = match ttl { None => "{}".to_string(), Some(t) => format!("{{\"ttl\":{t}}}") };
        ok(self.call("c", op::SET, W::new().s(key).s(&o).raw(val).0).await?, "SET")
    }
    pub async fn get(&self, key: &str) -> R<Option<Vec<u8>>> {
        match self.call("c", op::GET, W::new().s(key).0).await? {
            Reply::Data(d) => Ok(Ok(Some(d))), Reply::Null => Ok(Ok(None)), Reply::Err(e) => Ok(Err(e)),
            x => Err(format!("GET: unexpected answer {x:?}")),
        }
    }
    pub async fn del(&self, key: &str) -> R<()> { ok(self.call("c", op::DEL, W::new().s(key).0).await?, "DEL") }

    // ------------------------------------------------ queue
    pub fn q_create_payload(q: &str, o: &QOpts) -> Vec<u8> {
        let mut m = serde_json::Map::new();
        if let Some(v) = o.vis_ms { m.insert("visibilityTimeoutMs".into(), v.into()); }
        if let Some(v) = o.max_retries { m.insert("maxRetries".into(), v.into()); }
        W::new().s(q).s(&serde_json::Value::Object(m).to_string()).0
    }
    pub async fn q_create(&self, q: &str, o: &QOpts) -> R<()> { ok(self.call("c", op::Q_CREATE, Self::q_create_payload(q, o)).await?, "Q_CREATE") }
    pub fn q_push_payload(q: &str, pri: Option<u8>, p: &[u8]) -> Vec<u8> {
        let o = match pri { None => "{}".to_string(), Some(x) => format!("{{\"priority\":{x}}}") };
        W::new().s(q).s(&o).raw(p).0
    }
    pub async fn q_push(&self, q: &str, pri: Option<u8>, p: &[u8]) -> R<()> { ok(self.call("c", op::Q_PUSH, Self::q_push_payload(q, pri, p)).await?, "Q_PUSH") }
    pub fn q_consume_payload(q: &str, batch: Option<u64>, wait: Option<u64>) -> Vec<u8> {
        let mut m = serde_json::Map::new();
        if let Some(v) = batch { m.insert("batchSize".into(), v.into()); }
        if let Some(v) = wait { m.insert("waitMs".into(), v.into()); }
        W::new().s(q).s(&serde_json::Value::Object(m).to_string()).0
    }
    pub async fn q_consume(&self, q: &str, batch: Option<u64>, wait: Option<u64>) -> R<Vec<QMsg>> {
        let r = self.call_long("c", op::Q_CONSUME, Self::q_consume_payload(q, batch, wait), wait.unwrap_or(0)).await?;
        match data(r, "Q_CONSUME")? { Ok(d) => Ok(Ok(parse_msgs(&d)?)), Err(e) => Ok(Err(e)) }
    }
    pub async fn q_ack(&self, q: &str, id: u128) -> R<()> { ok(self.call("c", op::Q_ACK, W::new().raw(&id.to_be_bytes()).s(q).0).await?, "Q_ACK") }
    pub async fn q_nack(&self, q: &str, id: u128, reason: &str) -> R<()> {
        ok(self.call("c", op::Q_NACK, W::new().raw(&id.to_be_bytes()).s(q).s(reason).0).await?, "Q_NACK")
    }
    pub async fn q_exists(&self, q: &str) -> R<bool> { exists(self.call("c", op::Q_EXISTS, W::new().s(q).0).await?, "Q_EXISTS") }
    pub async fn q_delete(&self, q: &str) -> R<()> { ok(self.call("c", op::Q_DELETE, W::new().s(q).0).await?, "Q_DELETE") }
    pub async fn q_peek(&self, q: &str, limit: u32, offset: u32) -> R<(u32, Vec<DlqMsg>)> {
        let r = self.call("c", op::Q_PEEK, W::new().s(q).u32(limit).u32(offset).0).await?;
        let d = match data(r, "Q_PEEK")? { Ok(d) => d, Err(e) => return Ok(Err(e)) };
        let mut r = Rd::new(&d);
        let total = r.u32()?;
        let n = r.u32()?;
        let mut v = Vec::new();
        for _ in 0..n { v.push(DlqMsg { id: r.uuid()?, payload: r.bytes()?, attempts: r.u32()?, reason: r.string()? }); }
        r.end()?;
        Ok(Ok((total, v)))
    }
    pub async fn q_move(&self, q: &str, id: u128) -> R<bool> { self.yesno(op::Q_MOVE, q, id).await }
    pub async fn q_deldlq(&self, q: &str, id: u128) -> R<bool> { self.yesno(op::Q_DELDLQ, q, id).await }
    async fn yesno(&self, o: u8, q: &str, id: u128) -> R<bool> {
        let r = self.call("c", o, W::new().s(q).raw(&id.to_be_bytes()).0).await?;
        match data(r, "DLQ")? { Ok(d) => Ok(Ok(yes(d, "DLQ")?)), Err(e) => Ok(Err(e)) }
    }
    pub async fn q_purge(&self, q: &str) -> R<u32> {
        match data(self.call("c", op::Q_PURGE, W::new().s(q).0).await?, "Q_PURGE")? {
            Ok(d) => { let mut r = Rd::new(&d); let n = r.u32()?; r.end()?; Ok(Ok(n)) }
            Err(e) => Ok(Err(e)),
        }
    }

    // ------------------------------------------------ pub/sub
    pub fn connect(&self, cid: &str) -> Push {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        self.eng.pubsub.connect(ClientId(cid.into()), tx);
        Push { rx }
    }
    /// What a connection does when its client goes away.
    pub async fn disconnect(&self, cid: &str) {
        self.eng.pubsub.disconnect(&ClientId(cid.into()));
        self.eng.stream.disconnect(cid.to_string()).await;
    }
    pub fn pub_payload(topic: &str, retain: Option<bool>, ttl: Option<u64>, p: &[u8]) -> Vec<u8> {
        let mut m = serde_json::Map::new();
        if let Some(v) = retain { m.insert("retain".into(), v.into()); }
        if let Some(v) = ttl { m.insert("ttl".into(), v.into()); }
        W::new().s(topic).s(&serde_json::Value::Object(m).to_string()).raw(p).0
    }
    pub async fn publish(&self, cid: &str, topic: &str, retain: Option<bool>, ttl: Option<u64>, p: &[u8]) -> R<()> {
        let r = self.call(cid, op::PUB, Self::pub_payload(topic, retain, ttl, p)).await?;
        match r { Reply::Ok | Reply::Null | Reply::Data(_) => Ok(Ok(())), Reply::Err(e) => Ok(Err(e)) }
    }
    pub async fn sub(&self, cid: &str, pat: &str) -> R<()> { ok(self.call(cid, op::SUB, W::new().s(pat).0).await?, "SUB") }
    pub async fn unsub(&self, cid: &str, pat: &str) -> R<()> { ok(self.call(cid, op::UNSUB, W::new().s(pat).0).await?, "UNSUB") }

    // ------------------------------------------------ stream
    pub fn s_create_payload(t: &str, age: Option<u64>, bytes: Option<u64>) -> Vec<u8> {
        let mut m = serde_json::Map::new();
        if let Some(v) = age { m.insert("maxAgeMs".into(), v.into()); }
        if let Some(v) = bytes { m.insert("maxBytes".into(), v.into()); }
        let o = if m.is_empty() { serde_json::json!({}) } else { serde_json::json!({ "retention": m }) };
        W::new().s(t).s(&o.to_string()).0
    }
    pub async fn s_create(&self, t: &str, age: Option<u64>, bytes: Option<u64>) -> R<()> { ok(self.call("c", op::S_CREATE, Self::s_create_payload(t, age, bytes)).await?, "S_CREATE") }
    pub async fn s_pub(&self, t: &str, p: &[u8]) -> R<u64> {
        match data(self.call("c", op::S_PUB, W::new().s(t).raw(p).0).await?, "S_PUB")? {
            Ok(d) => { let mut r = Rd::new(&d); let n = r.u64()?; r.end()?; Ok(Ok(n)) }
            Err(e) => Ok(Err(e)),
        }
    }
    pub fn fetch_payload(t: &str, g: &str, consumer: &str, gen: u64, limit: u32, wait: u32) -> Vec<u8> {
        W::new().s(t).s(g).s(consumer).u64(gen).u32(limit).u32(wait).0
    }
    pub async fn s_fetch(&self, cid: &str, t: &str, g: &str, consumer: &str, gen: u64, limit: u32, wait: u32) -> R<Vec<SMsg>> {
        let r = self.call_long(cid, op::S_FETCH, Self::fetch_payload(t, g, consumer, gen, limit, wait), wait as u64).await?;
        match data(r, "S_FETCH")? { Ok(d) => Ok(Ok(parse_smsgs(&d)?)), Err(e) => Ok(Err(e)) }
    }
    pub async fn s_join(&self, cid: &str, g: &str, t: &str) -> R<Joined> {
        match data(self.call(cid, op::S_JOIN, W::new().s(g).s(t).0).await?, "S_JOIN")? {
            Ok(d) => { let mut r = Rd::new(&d); let j = Joined { floor: r.u64()?, gen: r.u64()?, consumer: r.string()? }; r.end()?; Ok(Ok(j)) }
            Err(e) => Ok(Err(e)),
        }
    }
    pub async fn s_ack(&self, cid: &str, t: &str, g: &str, consumer: &str, gen: u64, seq: u64) -> R<()> {
        ok(self.call(cid, op::S_ACK, W::new().s(t).s(g).s(consumer).u64(gen).u64(seq).0).await?, "S_ACK")
    }
    pub async fn s_exists(&self, t: &str) -> R<bool> { exists(self.call("c", op::S_EXISTS, W::new().s(t).0).await?, "S_EXISTS") }
    pub async fn s_delete(&self, t: &str) -> R<()> { ok(self.call("c", op::S_DELETE, W::new().s(t).0).await?, "S_DELETE") }
    pub async fn s_seek(&self, cid: &str, t: &str, g: &str, end: bool) -> R<()> { ok(self.call(cid, op::S_SEEK, W::new().s(t).s(g).u8(end as u8).0).await?, "S_SEEK") }
    pub async fn s_leave(&self, cid: &str, t: &str, g: &str, consumer: &str, gen: u64) -> R<()> {
        ok(self.call(cid, op::S_LEAVE, W::new().s(t).s(g).s(consumer).u64(gen).0).await?, "S_LEAVE")
    }
}
/// Exists answers: nothing or an error means absent.
fn exists(r: Reply, what: &str) -> R<bool> {
    match r {
        Reply::Ok => Ok(Ok(true)),
        Reply::Null | Reply::Err(_) => Ok(Ok(false)),
        Reply::Data(d) => Ok(Ok(yes(d, what)?)),
    }
}

/// The push side of a connected client.
pub struct Push { rx: tokio::sync::mpsc::UnboundedReceiver<Arc<PubSubMessage>> }
impl Push {
    /// Everything pushed so far, decoded from the network packet the client would get.
    pub fn drain(&mut self) -> Result<Vec<(String, Vec<u8>)>, String> {
        let mut v = Vec::new();
        while let Ok(m) = self.rx.try_recv() {
            let pkt = m.get_network_packet().to_vec();
            let mut r = Rd::new(&pkt);
            let t = r.string()?;
            let rest = r.take(pkt.len() - 4 - t.len())?.to_vec();
            v.push((t, rest));
        }
        Ok(v)
    }
}
