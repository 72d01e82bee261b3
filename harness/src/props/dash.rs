//! C27: the dashboard API against a model of what the clients did.
use super::gen::*;
use super::pubsub::{pattern, topic};
use crate::eng::*;
use crate::http::*;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// A stored value: a type byte (or none, or an unknown one) and content.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Val { Text(String), Json(String), Raw(Vec<u8>), Any(Vec<u8>), Deep(u16) }
impl Val {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Text(s) => [&[1u8][..], s.as_bytes()].concat(),
            Val::Json(s) => [&[2u8][..], s.as_bytes()].concat(),
            Val::Raw(b) => [&[0u8][..], b].concat(),
            Val::Any(b) => b.clone(),
            Val::Deep(n) => [&[2u8][..], "[".repeat(*n as usize).as_bytes(), "]".repeat(*n as usize).as_bytes()].concat(),
        }
    }
}
/// How the dashboard shows a payload, as its format is documented: type byte, then content.
fn shown(b: &[u8]) -> Value {
    let lossy = |c: &[u8]| Value::String(String::from_utf8_lossy(c).into_owned());
    let json = |c: &[u8]| serde_json::from_slice::<Value>(c).map(|v| serde_json::from_str(&v.to_string()).unwrap()).unwrap_or_else(|_| lossy(c));
    match b.first() {
        None => Value::Null,
        Some(0) => Value::String(format!("0x{}", b[1..].iter().map(|x| format!("{x:02x}")).collect::<String>())),
        Some(1) => lossy(&b[1..]),
        Some(2) => json(&b[1..]),
        _ => json(b),
    }
}
fn val() -> BoxedStrategy<Val> {
    let json = prop_oneof![
        Just("null".to_string()), Just("true".into()), Just("\"a\\u0000b\\ud83d\\ude00\"".into()), Just("\"\\ud800\"".into()), Just("{}".into()), Just("{\"a\":1,\"a\":2}".into()), Just("1e400".into()), Just("-0".into()), Just("123456789012345678901234567890".into()),
        Just("18446744073709551615".into()), Just("0.1".into()), Just("[1,{\"b\":[null,\"x\"]}]".into()), Just("{\"a\":".into()), Just("NaN".into()), Just(" 1 ".into()), Just("1 2".into()), any::<f64>().prop_map(|x| x.to_string()), any::<i64>().prop_map(|x| x.to_string()), "[\\[\\]{},:\"0-9a ]{0,12}"
    ];
    prop_oneof![
        4 => text().prop_map(Val::Text), 4 => json.prop_map(Val::Json), 2 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(Val::Raw),
        3 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(Val::Any), 1 => "[ -~]{0,9}".prop_map(|s| Val::Any(s.into_bytes())),
        1 => prop_oneof![1u16..110, 140u16..3000].prop_map(Val::Deep),
    ].boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Num { No, N(u64), Bad(String) }
impl Num {
    fn get(&self, def: u64) -> Option<u64> { match self { Num::No => Some(def), Num::N(n) => Some(*n), Num::Bad(_) => None } }
    fn put(&self, k: &str, v: &mut Vec<String>) { match self { Num::No => {} Num::N(n) => v.push(format!("{k}={n}")), Num::Bad(s) => v.push(format!("{k}={}", enc(s))) } }
}
fn num() -> BoxedStrategy<Num> {
    prop_oneof![4 => Just(Num::No), 8 => (0u64..8).prop_map(Num::N), 4 => (8u64..70).prop_map(Num::N), 2 => proptest::sample::select(vec![499u64, 500, 501, 999, 1000, 1001, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX]).prop_map(Num::N), 1 => proptest::sample::select(vec!["", "-1", "a", "1.5", "18446744073709551616", " 1", "0x1", "1e3"]).prop_map(|s| Num::Bad(s.into()))].boxed()
}
fn off() -> BoxedStrategy<Num> { prop_oneof![8 => Just(Num::No), 5 => (0u64..4).prop_map(Num::N), 4 => num()].boxed() }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Set(usize, Val, Option<u64>), Del(usize), FillKeys(u32),
    QCreate(usize, u32, u64), Push(usize, Val, u8), FillQ(usize, u32), Take(usize, u32), Ack(usize), Nack(usize, String), MoveDlq(usize, usize), DelDlq(usize, usize),
    SCreate(usize), SPub(usize, Val), FillS(usize, u32), SDelete(usize), QDelete(usize),
    /// join the group if need be and fetch so many
    Fetch(usize, usize, u32), SAck(usize, usize, usize),
    Connect(usize), Gone(usize), Sub(usize, usize), Unsub(usize, usize), Retain(usize, Val, Option<u64>), Clear(usize),
    Wait(u64),
    /// endpoint, object, limit, offset, search (index into generated texts)
    StoreQ(Num, Num, Option<String>), QueueQ(usize, String, Num, Num, Option<String>), StreamQ(usize, Num, Num), PubQ(Num, Num, Option<String>), Lists,
    /// walk through all pages of: store, queue state, stream, pubsub
    Walk(u8, usize, u64), Other(String, String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { keys: Vec<String>, names: Vec<String>, topics: Vec<String>, pats: Vec<String>, ram: usize, ops: Vec<Op> }

#[derive(Clone, Debug)]
struct M { b: Vec<u8>, pri: u8, attempts: u32, at: u64, id: Option<u128> }
struct Qm { ready: Vec<M>, fly: Vec<(u64, M)>, dlq: Vec<M>, retries: u32, vis: u64 }
#[derive(Default)]
struct Gm { join: Option<Joined>, next: u64, pending: BTreeSet<u64>, acked: BTreeSet<u64> }
impl Gm { fn floor(&self) -> u64 { let mut f = 0; while self.acked.contains(&(f + 1)) { f += 1; } f } }
#[derive(Default)]
struct Sm { log: Vec<(Vec<u8>, u64)>, groups: BTreeMap<String, Gm>, last_pub: u64 }

struct R<'a> {
    s: Srv, h: Http, cx: &'a mut Cx, c: &'a Case,
    kv: BTreeMap<String, (Vec<u8>, Option<u64>)>,
    q: BTreeMap<String, Qm>, st: BTreeMap<String, Sm>,
    cl: BTreeMap<String, (Push, BTreeSet<String>)>,
    ret: BTreeMap<String, (Vec<u8>, Option<u64>)>,
    bulk: u32,
}
fn wall() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64 }
/// Milliseconds since 1970 of an RFC 3339 time in UTC.
fn rfc(s: &str) -> Option<i64> {
    let (neg, t) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    let (date, time) = t.split_once('T')?;
    let mut d = date.split('-');
    let (y, m, dd): (i64, i64, i64) = (d.next()?.parse().ok()?, d.next()?.parse().ok()?, d.next()?.parse().ok()?);
    let y = if neg { -y } else { y };
    let time = time.strip_suffix("+00:00").or(time.strip_suffix('Z'))?;
    let mut p = time.split(':');
    let (hh, mm, ss): (i64, i64, f64) = (p.next()?.parse().ok()?, p.next()?.parse().ok()?, p.next()?.parse().ok()?);
    let yy = if m <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + dd - 1;
    let days = era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    Some(((days * 24 + hh) * 60 + mm) * 60_000 + (ss * 1000.0).round() as i64)
}
const TOL: u64 = 50;
/// Grace between a timeout and the moment the server must have acted on it.
const SLACK: u64 = 250;
const FAR: u64 = 8_000_000_000;

fn cut(v: &Value) -> String { let s = v.to_string(); if s.len() > 300 { format!("{}..", s.chars().take(300).collect::<String>()) } else { s } }
fn count<T: Ord>(v: impl IntoIterator<Item = T>) -> BTreeMap<T, usize> { let mut m = BTreeMap::new(); for x in v { *m.entry(x).or_insert(0) += 1; } m }

impl R<'_> {
    fn qn(&self, k: usize) -> String { self.c.names[k % self.c.names.len()].clone() }
    fn key(&self, k: usize) -> String { self.c.keys[k % self.c.keys.len()].clone() }
    /// Messages whose holder's time is over go back or to the dead letters.
    fn expire(&mut self) {
        let now = wall();
        for q in self.q.values_mut() {
            while let Some(i) = (0..q.fly.len()).filter(|i| q.fly[*i].0 <= now).min_by_key(|i| q.fly[*i].0) {
                let (_, m) = q.fly.remove(i);
                if m.attempts >= q.retries { q.dlq.push(m); } else { q.ready.push(m); }
            }
        }
    }
    /// No timeout, expiry or end of life within the grace: otherwise wait it out.
    async fn clear(&mut self) {
        for _ in 0..200 {
            let now = wall();
            let near = |t: u64| t.saturating_add(SLACK) > now && t < now + SLACK;
            let busy = self.q.values().flat_map(|q| q.fly.iter().map(|f| f.0)).chain(self.kv.values().filter_map(|v| v.1)).chain(self.ret.values().filter_map(|v| v.1)).any(near);
            if !busy { break; }
            sleep_ms(SLACK / 2).await;
        }
        self.expire();
        let now = wall();
        self.kv.retain(|_, v| v.1.map_or(true, |t| t > now));
        self.ret.retain(|_, v| v.1.map_or(true, |t| t > now));
        for (p, _) in self.cl.values_mut() { p.drain().ok(); }
    }
    fn item_ok(&self, what: &str, x: &Value, m: &M, state: Option<&str>) -> bool {
        let _ = what;
        x["payload"] == shown(&m.b) && x["attempts"] == m.attempts && match state { Some(s) => x["priority"] == m.pri && x["state"] == s, None => x["created_at"].as_u64().is_some_and(|t| t.abs_diff(m.at) <= TOL) } && m.id.map_or(true, |id| x["id"].as_str() == Some(uuid_text(id).as_str()))
    }
    fn sig(&self, x: &Value) -> (String, u64, u64) { (x["payload"].to_string(), x["priority"].as_u64().unwrap_or(999), x["attempts"].as_u64().unwrap_or(999)) }

    async fn get(&mut self, path: &str) -> Result<(u16, Value, String), String> {
        let (st, b) = self.h.get(path).await?;
        let t = String::from_utf8(b).map_err(|_| format!("GET {path}: body is not UTF-8"))?;
        let v = if st == 200 { serde_json::from_str(&t).map_err(|e| format!("GET {path}: not JSON ({e})"))? } else { Value::Null };
        Ok((st, v, t))
    }
    /// The answer to a query whose parameters are fine or not.
    async fn query(&mut self, path: &str, fine: bool) -> Result<Option<Value>, String> {
        let (st, v, t) = self.get(path).await?;
        if fine {
            if st != 200 { return Err(format!("GET {path}: status {st}: {}", t.chars().take(200).collect::<String>())); }
            Ok(Some(v))
        } else {
            self.cx.label("bad parameter refused");
            if st != 400 { return Err(format!("GET {path}: status {st} for a parameter that is not a number")); }
            Ok(None)
        }
    }
    fn arr<'v>(&self, path: &str, v: &'v Value, f: &str) -> Result<&'v Vec<Value>, String> { v[f].as_array().ok_or_else(|| format!("GET {path}: no list \"{f}\": {}", cut(v))) }

    // -------------------------------------------------- store
    fn store_item(&self, path: &str, x: &Value) -> Result<String, String> {
        let k = x["key"].as_str().ok_or_else(|| format!("GET {path}: entry without key: {}", cut(x)))?;
        let Some((b, exp)) = self.kv.get(k) else { return Err(format!("GET {path}: shows key {k:?}, which does not exist")) };
        if x["value"] != shown(b) { return Err(format!("GET {path}: key {k:?} shown as {}, stored {}", cut(&x["value"]), cut(&shown(b)))); }
        let e = x["exp_at"].as_str().unwrap_or("?");
        match exp {
            Some(t) if *t < FAR * 1000 => { if !rfc(e).is_some_and(|g| g >= 0 && (g as u64).abs_diff(*t) <= TOL) { return Err(format!("GET {path}: key {k:?} shown to expire at {e:?}, expected {t} ms")); } }
            _ => {}
        }
        Ok(k.to_string())
    }
    async fn store_q(&mut self, l: &Num, o: &Num, search: &Option<String>) -> Result<(), String> {
        let mut ps = vec![];
        l.put("limit", &mut ps); o.put("offset", &mut ps);
        if let Some(s) = search { ps.push(format!("search={}", enc(s))); }
        let path = format!("/api/store?{}", ps.join("&"));
        let (lim, off) = (l.get(500), o.get(0));
        let Some(v) = self.query(&path, lim.is_some() && off.is_some()).await? else { return Ok(()) };
        let mut seen = BTreeSet::new();
        for x in self.arr(&path, &v, "keys")? {
            let k = self.store_item(&path, x)?;
            if let Some(s) = search { if !k.contains(s.as_str()) { return Err(format!("GET {path}: key {k:?} does not contain the text")); } }
            if !seen.insert(k.clone()) { return Err(format!("GET {path}: key {k:?} twice on a page")); }
        }
        if seen.len() as u64 > lim.unwrap() { return Err(format!("GET {path}: {} entries", seen.len())); }
        if off == Some(0) && lim.unwrap() >= 100_000 {
            let want = self.kv.keys().filter(|k| search.as_ref().map_or(true, |s| k.contains(s.as_str()))).count();
            if want != seen.len() { return Err(format!("GET {path}: {} entries, {want} match", seen.len())); }
        }
        let total = v["total"].as_u64().unwrap_or(u64::MAX);
        if total < self.kv.len() as u64 && search.is_none() || total == u64::MAX { return Err(format!("GET {path}: total {}, there are {} keys", v["total"], self.kv.len())); }
        if !seen.is_empty() { self.cx.label("store page with entries"); }
        Ok(())
    }
    async fn store_walk(&mut self, page: u64, search: Option<String>) -> Result<(), String> {
        let mut seen = BTreeMap::new();
        let mut off = 0;
        loop {
            let path = format!("/api/store?limit={page}&offset={off}{}", search.as_ref().map_or(String::new(), |s| format!("&search={}", enc(s))));
            let v = self.query(&path, true).await?.unwrap();
            for x in self.arr(&path, &v, "keys")? { *seen.entry(self.store_item(&path, x)?).or_insert(0) += 1; }
            off += page;
            if off >= v["total"].as_u64().unwrap_or(0) || off > 100_000 { break; }
        }
        let want: BTreeMap<String, i32> = self.kv.keys().filter(|k| search.as_ref().map_or(true, |s| k.contains(s.as_str()))).map(|k| (k.clone(), 1)).collect();
        if seen != want {
            let d: Vec<_> = seen.iter().filter(|(k, n)| want.get(*k) != Some(n)).map(|(k, n)| format!("{k:?} {n} times")).chain(want.keys().filter(|k| !seen.contains_key(*k)).map(|k| format!("{k:?} never"))).take(5).collect();
            return Err(format!("paging through /api/store in pages of {page}{}: {}", search.map_or(String::new(), |s| format!(", search {s:?}")), d.join(", ")));
        }
        if want.len() as u64 > page { self.cx.label("several pages"); }
        Ok(())
    }
    // -------------------------------------------------- queue
    fn q_state(&self, n: &str, state: &str) -> Option<Vec<M>> {
        let q = self.q.get(n)?;
        Some(match state { "pending" => q.ready.clone(), "inflight" => q.fly.iter().map(|f| f.1.clone()).collect(), "dlq" => q.dlq.clone(), _ => vec![] })
    }
    async fn queue_q(&mut self, k: usize, state: &str, l: &Num, o: &Num, search: &Option<String>) -> Result<(), String> {
        let n = if k >= 90 { "no such".to_string() } else { self.qn(k) };
        let mut ps = vec![format!("state={}", enc(state))];
        l.put("limit", &mut ps); o.put("offset", &mut ps);
        if let Some(s) = search { ps.push(format!("search={}", enc(s))); }
        let path = format!("/api/queue/{}/messages?{}", enc(&n), ps.join("&"));
        let (lim, off) = (l.get(50), o.get(0));
        let low = state.to_lowercase();
        let want = self.q_state(&n, &low);
        if want.is_none() && lim.is_some() && off.is_some() {
            let (st, _, _) = self.get(&path).await?;
            if st != 404 { return Err(format!("GET {path}: status {st}, the queue does not exist")); }
            return Ok(());
        }
        let Some(v) = self.query(&path, lim.is_some() && off.is_some()).await? else { return Ok(()) };
        let mut want = want.unwrap();
        if let (Some(s), true) = (search, low != "dlq") { want.retain(|m| String::from_utf8_lossy(&m.b).contains(s.as_str())); }
        let total = want.len() as u64;
        let have = (total.saturating_sub(off.unwrap())).min(lim.unwrap().min(1000));
        let items = self.arr(&path, &v, "messages")?.clone();
        if v["total"] != total || items.len() as u64 != have { return Err(format!("GET {path}: {} of total {}, expected {have} of {total}", items.len(), v["total"])); }
        let st = if low == "dlq" { None } else { Some(low.as_str()) };
        for x in &items {
            let Some(i) = want.iter().position(|m| self.item_ok(&path, x, m, st)) else { return Err(format!("GET {path}: shows {}, which is not there (or twice)", cut(x))) };
            want.remove(i);
        }
        if !items.is_empty() { self.cx.label(match low.as_str() { "pending" => "pending shown", "inflight" => "inflight shown", _ => "dead letters shown" }); }
        Ok(())
    }
    async fn queue_walk(&mut self, k: usize, page: u64, which: usize) -> Result<(), String> {
        let n = self.qn(k);
        let state = ["pending", "inflight", "dlq"][which % 3];
        let Some(want) = self.q_state(&n, state) else { return Ok(()) };
        let page = page.min(1000);
        let (mut ids, mut sigs, mut off) = (BTreeSet::new(), vec![], 0);
        loop {
            let path = format!("/api/queue/{}/messages?state={state}&limit={page}&offset={off}", enc(&n));
            let v = self.query(&path, true).await?.unwrap();
            for x in self.arr(&path, &v, "messages")? {
                if !ids.insert(x["id"].to_string()) { return Err(format!("paging through {state} of queue {n:?} in pages of {page}: message {} twice", x["id"])); }
                sigs.push(self.sig(x));
            }
            off += page;
            if off >= v["total"].as_u64().unwrap_or(0) { break; }
        }
        let w: Vec<_> = want.iter().map(|m| (shown(&m.b).to_string(), if state == "dlq" { 999 } else { m.pri as u64 }, m.attempts as u64)).collect();
        if w.len() as u64 > page { self.cx.label("several pages"); }
        if count(sigs) != count(w) { return Err(format!("paging through {state} of queue {n:?} in pages of {page}: {} messages, not those of the {} there", ids.len(), want.len())); }
        if state == "dlq" {
            let path = format!("/api/queue/{}/messages?state=dlq&limit=1000", enc(&n));
            let v = self.query(&path, true).await?.unwrap();
            let (total, peek) = self.s.q_peek(&n, 1000, 0).await??;
            let a: Vec<String> = self.arr(&path, &v, "messages")?.iter().map(|x| format!("{} {} {}", x["id"].as_str().unwrap_or("?"), x["failure_reason"], x["attempts"])).collect();
            let b: Vec<String> = peek.iter().map(|m| format!("{} {} {}", uuid_text(m.id), Value::String(m.reason.clone()), m.attempts)).collect();
            if a != b || v["total"] != total { return Err(format!("GET {path}: {a:?} of {}, a client is shown {b:?} of {total}", v["total"])); }
        }
        Ok(())
    }
    // -------------------------------------------------- stream
    async fn stream_q(&mut self, k: usize, f: &Num, l: &Num) -> Result<(), String> {
        let n = if k >= 90 { "no such".to_string() } else { self.qn(k) };
        let mut ps = vec![];
        f.put("from", &mut ps); l.put("limit", &mut ps);
        let path = format!("/api/stream/{}/messages?{}", enc(&n), ps.join("&"));
        let (lim, from) = (l.get(50), f.get(0));
        if !self.st.contains_key(&n) && lim.is_some() && from.is_some() {
            let (st, _, _) = self.get(&path).await?;
            if st != 404 { return Err(format!("GET {path}: status {st}, the stream does not exist")); }
            return Ok(());
        }
        let Some(v) = self.query(&path, lim.is_some() && from.is_some()).await? else { return Ok(()) };
        let lim = lim.unwrap().min(500);
        let sm = &self.st[&n];
        let last = sm.log.len() as u64;
        if v["last_seq"] != last { return Err(format!("GET {path}: last_seq {}, {last} were published", v["last_seq"])); }
        let at = match f { Num::No => last.saturating_sub(lim.saturating_sub(1)).max(1), _ => from.unwrap().max(1) };
        let want: Vec<u64> = (at..=last).take(lim as usize).collect();
        let mut got = vec![];
        for x in self.arr(&path, &v, "messages")? {
            let q = x["seq"].as_u64().unwrap_or(0);
            let Some((b, t)) = sm.log.get((q as usize).wrapping_sub(1)) else { return Err(format!("GET {path}: shows number {q}, there are {last}")) };
            if x["payload"] != shown(b) { return Err(format!("GET {path}: number {q} shown as {}, published {}", cut(&x["payload"]), cut(&shown(b)))); }
            if !x["timestamp"].as_str().and_then(rfc).is_some_and(|g| (g as u64).abs_diff(*t) <= TOL) { return Err(format!("GET {path}: number {q} shown at {}, published at {t} ms", x["timestamp"])); }
            got.push(q);
        }
        got.reverse();
        // an unwritten tail can be missing behind a part that is only on disk
        let settled = wall() > sm.last_pub + 2_000;
        let fine = got == want || !settled && !got.is_empty() && want.starts_with(&got);
        if !fine { return Err(format!("GET {path}: numbers {:?} of {} shown, expected {:?} of {} (newest first)", &got[..got.len().min(5)], got.len(), &want[..want.len().min(5)], want.len())); }
        if !got.is_empty() { self.cx.label("stream page with messages"); }
        Ok(())
    }
    async fn stream_walk(&mut self, k: usize, page: u64) -> Result<(), String> {
        let n = self.qn(k);
        let Some(last) = self.st.get(&n).map(|s| s.log.len() as u64) else { return Ok(()) };
        if wall() < self.st[&n].last_pub + 2_000 { sleep_ms(2_000).await; }
        let page = page.min(500);
        let (mut at, mut seen) = (1, vec![]);
        while at <= last {
            let path = format!("/api/stream/{}/messages?from={at}&limit={page}", enc(&n));
            let v = self.query(&path, true).await?.unwrap();
            let mut p: Vec<u64> = self.arr(&path, &v, "messages")?.iter().filter_map(|x| x["seq"].as_u64()).collect();
            p.reverse();
            seen.extend(p);
            at += page;
        }
        if seen != (1..=last).collect::<Vec<_>>() { return Err(format!("paging through stream {n:?} in pages of {page}: {} numbers, there are {last}", seen.len())); }
        if last > page { self.cx.label("several pages"); }
        Ok(())
    }
    // -------------------------------------------------- pub/sub
    /// What must be listed: path, subscribers, value.
    fn pub_want(&self, search: Option<&str>) -> BTreeMap<String, (usize, Value)> {
        let mut m: BTreeMap<String, (usize, Value)> = BTreeMap::new();
        for (_, subs) in self.cl.values() { for p in subs { m.entry(p.clone()).or_insert((0, Value::Null)).0 += 1; } }
        for (t, (b, _)) in &self.ret { m.entry(t.clone()).or_insert((0, Value::Null)).1 = shown(b); }
        m.retain(|k, _| search.map_or(true, |s| k.contains(s)));
        m
    }
    async fn pub_page(&mut self, path: &str, v: &Value, want: &BTreeMap<String, (usize, Value)>, search: Option<&str>) -> Result<Vec<String>, String> {
        if v["active_clients"] != self.cl.len() { return Err(format!("GET {path}: {} active clients, {} are connected", v["active_clients"], self.cl.len())); }
        let mut out: Vec<String> = vec![];
        for x in self.arr(path, v, "topics")? {
            let p = x["full_path"].as_str().unwrap_or("?").to_string();
            let got = (x["subscribers"].as_u64().unwrap_or(999) as usize, x["retained_value"].clone());
            match want.get(&p) {
                Some(w) if *w == got => {}
                Some(w) => return Err(format!("GET {path}: topic {p:?} shown with {} subscribers, value {}; expected {} and {}", got.0, cut(&got.1), w.0, cut(&w.1))),
                // a value that is over but not swept yet
                None if got == (0, Value::Null) && search.map_or(true, |s| p.contains(s)) && self.c.topics.contains(&p) => {}
                None => return Err(format!("GET {path}: topic {p:?} shown, nobody subscribes and nothing is retained")),
            }
            out.push(p);
        }
        for (f, multi) in [("multi_level", true), ("single_level", false)] {
            let got: Vec<(String, String)> = v["wildcards"][f].as_array().ok_or_else(|| format!("GET {path}: no wildcards.{f}"))?.iter().map(|x| (x["pattern"].as_str().unwrap_or("?").to_string(), x["client_id"].as_str().unwrap_or("?").to_string())).collect();
            let is = |p: &str, w: &str| p.split('/').any(|s| s == w);
            let all: BTreeSet<(String, String)> = self.cl.iter().flat_map(|(c, (_, s))| s.iter().map(|p| (p.clone(), c.clone()))).filter(|(p, _)| search.map_or(true, |s| p.contains(s))).collect();
            let must: BTreeSet<_> = all.iter().filter(|(p, _)| if multi { is(p, "#") } else { is(p, "+") && !p.contains('#') }).cloned().collect();
            let set: BTreeSet<_> = got.iter().cloned().collect();
            if set.len() != got.len() || !must.is_subset(&set) || set.iter().any(|x| !all.contains(x) || !x.0.contains(['+', '#'])) { return Err(format!("GET {path}: wildcards.{f} {got:?}, expected {must:?}")); }
        }
        Ok(out)
    }
    async fn pub_q(&mut self, l: &Num, o: &Num, search: &Option<String>) -> Result<(), String> {
        let mut ps = vec![];
        l.put("limit", &mut ps); o.put("offset", &mut ps);
        if let Some(s) = search { ps.push(format!("search={}", enc(s))); }
        let path = format!("/api/pubsub?{}", ps.join("&"));
        let (lim, off) = (l.get(50), o.get(0));
        let Some(v) = self.query(&path, lim.is_some() && off.is_some()).await? else { return Ok(()) };
        let want = self.pub_want(search.as_deref());
        let got = self.pub_page(&path, &v, &want, search.as_deref()).await?;
        let total = v["total_topics"].as_u64().unwrap_or(u64::MAX);
        let extra = got.iter().filter(|p| !want.contains_key(*p)).count() as u64;
        let have = total.saturating_sub(off.unwrap()).min(lim.unwrap().min(500));
        if (total as usize) < want.len() || total > want.len() as u64 + self.c.topics.len() as u64 || got.len() as u64 != have || extra > total - want.len() as u64 { return Err(format!("GET {path}: {} of total {total}, {} match", got.len(), want.len())); }
        if !got.is_empty() { self.cx.label("pub/sub page with topics"); }
        Ok(())
    }
    async fn pub_walk(&mut self, page: u64) -> Result<(), String> {
        let page = page.min(500);
        let want = self.pub_want(None);
        let (mut seen, mut off) = (vec![], 0);
        loop {
            let path = format!("/api/pubsub?limit={page}&offset={off}");
            let v = self.query(&path, true).await?.unwrap();
            seen.extend(self.pub_page(&path, &v, &want, None).await?);
            off += page;
            if off >= v["total_topics"].as_u64().unwrap_or(0) { break; }
        }
        let set: BTreeSet<_> = seen.iter().cloned().collect();
        if set.len() != seen.len() || want.keys().any(|k| !set.contains(k)) { return Err(format!("paging through /api/pubsub in pages of {page}: {seen:?}, expected {:?}", want.keys().collect::<Vec<_>>())); }
        if seen.len() as u64 > page { self.cx.label("several pages"); }
        Ok(())
    }
    async fn lists(&mut self) -> Result<(), String> {
        let v = self.query("/api/queue", true).await?.unwrap();
        let got: BTreeMap<String, (u64, u64, u64, u64, u64)> = v.as_array().ok_or("GET /api/queue: not a list")?.iter().map(|x| (x["name"].as_str().unwrap_or("?").into(), (x["pending"].as_u64().unwrap_or(999), x["inflight"].as_u64().unwrap_or(999), x["dlq"].as_u64().unwrap_or(999), x["config"]["max_retries"].as_u64().or(x["config"]["maxRetries"].as_u64()).unwrap_or(999), x["config"]["visibility_timeout_ms"].as_u64().or(x["config"]["visibilityTimeoutMs"].as_u64()).unwrap_or(999)))).collect();
        let want: BTreeMap<String, _> = self.q.iter().map(|(n, q)| (n.clone(), (q.ready.len() as u64, q.fly.len() as u64, q.dlq.len() as u64, q.retries as u64, q.vis))).collect();
        if got != want || v.as_array().unwrap().len() != want.len() { return Err(format!("GET /api/queue: {got:?} (pending, in flight, dead, retries, timeout), expected {want:?}")); }
        let v = self.query("/api/stream", true).await?.unwrap();
        let ts = self.arr("/api/stream", &v, "topics")?;
        let got: BTreeSet<String> = ts.iter().filter_map(|x| x["name"].as_str().map(str::to_string)).collect();
        let want: BTreeSet<String> = self.st.keys().cloned().collect();
        if got != want || ts.len() != want.len() { return Err(format!("GET /api/stream: {got:?}, expected {want:?}")); }
        for t in ts {
            let n = t["name"].as_str().unwrap();
            let m = &self.st[n];
            let gs: BTreeMap<String, (u64, u64)> = t["groups"].as_array().into_iter().flatten().map(|g| (g["id"].as_str().unwrap_or("?").into(), (g["ack_floor"].as_u64().unwrap_or(999), g["pending_count"].as_u64().unwrap_or(999)))).collect();
            let want: BTreeMap<String, (u64, u64)> = m.groups.iter().map(|(g, x)| (g.clone(), (x.floor(), x.pending.len() as u64))).collect();
            if t["last_seq"] != m.log.len() || gs != want { return Err(format!("GET /api/stream: {n:?} at {} with groups {gs:?} (floor, pending), expected {} and {want:?}", t["last_seq"], m.log.len())); }
            if !gs.is_empty() { self.cx.label("group shown"); }
        }
        Ok(())
    }

    // -------------------------------------------------- clients
    async fn step(&mut self, o: &Op) -> Result<(), String> {
        let s = self.s.clone();
        match o {
            Op::Set(k, v, ttl) => { let k = self.key(*k); let b = v.bytes(); s.set(&k, &b, *ttl).await??; let def = ttl.unwrap_or(3_000_000); self.kv.insert(k, (b, Some(def.saturating_mul(1000).saturating_add(wall())))); }
            Op::Del(k) => { let k = self.key(*k); s.del(&k).await?.ok(); self.kv.remove(&k); }
            Op::FillKeys(n) => for _ in 0..*n { self.bulk += 1; let k = format!("bulk-{}", self.bulk); s.set(&k, b"\x01v", None).await??; self.kv.insert(k, (b"\x01v".to_vec(), Some(3_000_000_000 + wall()))); },
            Op::QCreate(k, retries, vis) => { let n = self.qn(*k); s.q_create(&n, &QOpts { vis_ms: Some(*vis), max_retries: Some(*retries) }).await??; self.q.entry(n).or_insert(Qm { ready: vec![], fly: vec![], dlq: vec![], retries: *retries, vis: *vis }); }
            Op::QDelete(k) => { let n = self.qn(*k); s.q_delete(&n).await?.ok(); self.q.remove(&n); }
            Op::Push(k, v, p) => { let n = self.qn(*k); let b = v.bytes(); if self.q.contains_key(&n) { s.q_push(&n, Some(*p), &b).await??; self.q.get_mut(&n).unwrap().ready.push(M { b, pri: *p, attempts: 0, at: wall(), id: None }); } }
            Op::FillQ(k, c) => { let n = self.qn(*k); if self.q.contains_key(&n) { for _ in 0..*c { self.bulk += 1; let b = format!("\x01bulk {}", self.bulk).into_bytes(); s.q_push(&n, None, &b).await??; self.q.get_mut(&n).unwrap().ready.push(M { b, pri: 0, attempts: 0, at: wall(), id: None }); } } }
            Op::Take(k, c) => {
                let n = self.qn(*k);
                if self.q.contains_key(&n) {
                    self.clear().await;
                    let ms = s.q_consume(&n, Some(*c as u64), Some(0)).await??;
                    let q = self.q.get_mut(&n).unwrap();
                    if ms.len() != q.ready.len().min(*c as usize) { return Err(format!("consume of {c} from {n:?} with {} ready gave {}", q.ready.len(), ms.len())); }
                    for m in ms {
                        // equal payloads are told apart by their identity where it is known
                        let Some(i) = q.ready.iter().position(|x| x.id == Some(m.id)).or_else(|| (0..q.ready.len()).filter(|i| q.ready[*i].id.is_none() && q.ready[*i].b == m.payload).max_by_key(|i| (q.ready[*i].pri, std::cmp::Reverse(*i)))) else { return Err(format!("consume of {n:?} gave {}, which is not ready", short(&m.payload))) };
                        let mut x = q.ready.remove(i);
                        x.id = Some(m.id);
                        x.attempts += 1;
                        q.fly.push((wall() + q.vis, x));
                    }
                }
            }
            Op::Ack(k) | Op::Nack(k, _) => {
                self.clear().await;
                let n = self.qn(*k);
                if let Some(q) = self.q.get_mut(&n) {
                    if !q.fly.is_empty() {
                        let (t, mut m) = q.fly.remove(k / 7 % q.fly.len());
                        let _ = t;
                        let id = m.id.unwrap();
                        if let Op::Nack(_, why) = o { s.q_nack(&n, id, why).await??; if m.attempts >= q.retries { q.dlq.push(m); } else { m.at = m.at; q.ready.push(m); } } else { s.q_ack(&n, id).await??; }
                    }
                }
            }
            Op::MoveDlq(k, i) | Op::DelDlq(k, i) => {
                self.clear().await;
                let n = self.qn(*k);
                if let Some(q) = self.q.get_mut(&n) {
                    if !q.dlq.is_empty() {
                        let mut m = q.dlq.remove(i % q.dlq.len());
                        let id = m.id.unwrap();
                        if matches!(o, Op::MoveDlq(..)) { if !s.q_move(&n, id).await?? { return Err(format!("dead letter of {n:?} could not be moved")); } m.attempts = 0; q.ready.push(m); } else if !s.q_deldlq(&n, id).await?? { return Err(format!("dead letter of {n:?} could not be deleted")); }
                    }
                }
            }
            Op::SCreate(k) => { let n = self.qn(*k); s.s_create(&n, None, None).await??; self.st.entry(n).or_default(); }
            Op::SDelete(k) => { let n = self.qn(*k); s.s_delete(&n).await?.ok(); self.st.remove(&n); }
            Op::SPub(k, v) => { let n = self.qn(*k); let b = v.bytes(); if self.st.contains_key(&n) { let q = s.s_pub(&n, &b).await??; let m = self.st.get_mut(&n).unwrap(); m.log.push((b, wall())); m.last_pub = wall(); if q != m.log.len() as u64 { return Err(format!("publish to {n:?} got number {q}, expected {}", m.log.len())); } } }
            Op::FillS(k, c) => { let n = self.qn(*k); if self.st.contains_key(&n) { for _ in 0..*c { self.bulk += 1; let b = format!("\x01bulk {}", self.bulk).into_bytes(); s.s_pub(&n, &b).await??; let m = self.st.get_mut(&n).unwrap(); m.log.push((b, wall())); m.last_pub = wall(); } } }
            Op::Fetch(k, g, c) => {
                let (n, g) = (self.qn(*k), format!("g{}", g % 3));
                if self.st.contains_key(&n) {
                    if wall() < self.st[&n].last_pub + 2_000 { sleep_ms(2_000).await; }
                    let m = self.st.get_mut(&n).unwrap();
                    let gm = m.groups.entry(g.clone()).or_default();
                    if gm.join.is_none() { gm.join = Some(s.s_join("w", &g, &n).await??); }
                    let j = gm.join.clone().unwrap();
                    let ms = s.s_fetch("w", &n, &g, &j.consumer, j.gen, *c, 0).await??;
                    for x in &ms {
                        if x.seq != gm.next + 1 { return Err(format!("group {g} of {n:?} got {} after {}", x.seq, gm.next)); }
                        gm.next = x.seq;
                        gm.pending.insert(x.seq);
                    }
                }
            }
            Op::SAck(k, g, i) => {
                let (n, g) = (self.qn(*k), format!("g{}", g % 3));
                if let Some(gm) = self.st.get_mut(&n).and_then(|m| m.groups.get_mut(&g)) {
                    if !gm.pending.is_empty() {
                        let q = *gm.pending.iter().nth(i % gm.pending.len()).unwrap();
                        let j = gm.join.clone().unwrap();
                        s.s_ack("w", &n, &g, &j.consumer, j.gen, q).await??;
                        gm.pending.remove(&q);
                        gm.acked.insert(q);
                    }
                }
            }
            Op::Connect(c) => { let id = format!("client {c}"); if !self.cl.contains_key(&id) { let p = s.connect(&id); self.cl.insert(id, (p, BTreeSet::new())); } }
            Op::Gone(c) => { let id = format!("client {c}"); if self.cl.remove(&id).is_some() { s.disconnect(&id).await; } }
            Op::Sub(c, p) => { let id = format!("client {c}"); let p = self.c.pats[p % self.c.pats.len()].clone(); if let Some(x) = self.cl.get_mut(&id) { s.sub(&id, &p).await??; x.1.insert(p); } }
            Op::Unsub(c, p) => { let id = format!("client {c}"); let p = self.c.pats[p % self.c.pats.len()].clone(); if let Some(x) = self.cl.get_mut(&id) { s.unsub(&id, &p).await?.ok(); x.1.remove(&p); } }
            Op::Retain(t, v, ttl) => {
                let t = self.c.topics[t % self.c.topics.len()].clone();
                let b = v.bytes();
                s.publish("w", &t, Some(true), *ttl, &b).await??;
                if b.is_empty() { self.ret.remove(&t); } else { self.ret.insert(t, (b, ttl.map(|x| wall() + x * 1000))); }
            }
            Op::Clear(t) => { let t = self.c.topics[t % self.c.topics.len()].clone(); s.publish("w", &t, Some(true), None, b"").await??; self.ret.remove(&t); }
            Op::Wait(ms) => { sleep_ms(*ms).await; }
            Op::StoreQ(l, f, t) => { self.clear().await; self.store_q(l, f, t).await?; }
            Op::QueueQ(k, st, l, f, t) => { self.clear().await; self.queue_q(*k, st, l, f, t).await?; }
            Op::StreamQ(k, f, l) => { self.clear().await; self.stream_q(*k, f, l).await?; }
            Op::PubQ(l, f, t) => { self.clear().await; self.pub_q(l, f, t).await?; }
            Op::Lists => { self.clear().await; self.lists().await?; }
            Op::Walk(w, k, p) => {
                self.clear().await;
                let p = *p.max(&1);
                match w % 6 { 0 => self.store_walk(p, None).await?, 1 => { let s = self.key(*k); self.store_walk(p, Some(s.chars().take(1).collect())).await? } 2 | 3 => self.queue_walk(*k, p, k / 5).await?, 4 => self.stream_walk(*k, p).await?, _ => self.pub_walk(p).await? }
            }
            Op::Other(m, p) => {
                let (st, _) = self.h.req(m, p).await?;
                if st >= 500 && !(st == 501 || st == 505) { return Err(format!("{m} {p}: status {st}")); }
                self.cx.label("other request");
            }
        }
        Ok(())
    }
    /// Client-visible state once more, after all the looking.
    async fn finish(&mut self) -> Result<(), String> {
        self.clear().await;
        self.lists().await?;
        self.store_walk(7, None).await?;
        self.pub_walk(3).await?;
        let s = self.s.clone();
        for (k, (b, _)) in &self.kv { if s.get(k).await??.as_ref() != Some(b) { return Err(format!("at the end key {k:?} is not what was stored")); } }
        for (n, m) in &self.st {
            let got = s.eng.stream.read(n, 1, 1_000_000).await;
            if got.len() < m.log.len() && wall() > m.last_pub + 2_000 && m.log.len() <= self.c.ram || got.iter().zip(&m.log).any(|(a, b)| a.payload[..] != b.0[..]) { return Err(format!("at the end stream {n:?} does not hold what was published")); }
        }
        let names: Vec<String> = self.q.keys().cloned().collect();
        for n in names {
            self.clear().await;
            let q = self.q.get_mut(&n).unwrap();
            let ms = s.q_consume(&n, Some(100_000), Some(0)).await??;
            let (a, b) = (count(ms.iter().map(|m| m.payload.clone())), count(q.ready.iter().map(|m| m.b.clone())));
            q.fly = vec![];
            q.ready = vec![];
            if a != b { return Err(format!("at the end queue {n:?} gave {} messages, not those of the {} ready", ms.len(), b.values().sum::<usize>())); }
        }
        Ok(())
    }
}
fn uuid_text(id: u128) -> String { let h = format!("{id:032x}"); format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]) }

pub struct C27;
impl Prop for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "pages with items were shown for at least two brokers";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 5_000 } else { 50_000 } }
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Case> {
        let len = if t == Tier::Quick { 140usize } else { 250 };
        let big = i % 40 == 0;
        let k = || 0usize..30;
        let search = || prop_oneof![5 => Just(None), 3 => "[a-c]{1,2}".prop_map(Some), 1 => proptest::sample::select(vec!["", "/", "+", "#", "1", "bulk", "é", " ", "\"", "%", "&", "k&limit=0", "\u{0}", "\u{1}", "\u{2}"]).prop_map(|s| Some(s.to_string())), 1 => text().prop_map(Some)].prop_map(|s: Option<String>| s.filter(|s| !s.contains('\u{fffd}')));
        let state = || prop_oneof![6 => Just("pending".to_string()), 5 => Just("inflight".to_string()), 4 => Just("dlq".to_string()), 1 => proptest::sample::select(vec!["PENDING", "InFlight", "DLQ", "", "scheduled", "pend"]).prop_map(str::to_string)];
        let none = prop_oneof![1 => 90usize..91, 12 => 0usize..30];
        let only = i % 5;
        let w = |b: u64, x: u32| if only == 4 || only == b { x * if only == b { 2 } else { 1 } } else { x / 2 };
        let bulk = if big { 2 } else { 0 };
        let op = pick_one(vec![
            (w(0, 8), (k(), val(), prop_oneof![5 => Just(None), 2 => (1u64..9).prop_map(Some), 1 => (9u64..100_000).prop_map(Some), 1 => any::<u64>().prop_map(|x| Some(x.max(1)))]).prop_map(|(a, b, c)| Op::Set(a, b, c)).boxed()),
            (w(0, 1), k().prop_map(Op::Del).boxed()), (bulk, (1u32..700).prop_map(Op::FillKeys).boxed()),
            (w(1, 4), (k(), 0u32..4, prop_oneof![3 => Just(360_000_000u64), 1 => 600u64..9_000]).prop_map(|(a, b, c)| Op::QCreate(a, b, c)).boxed()),
            (w(1, 12), (k(), val(), prop_oneof![3 => Just(0u8), 1 => any::<u8>(), 3 => 0u8..3]).prop_map(|(a, b, c)| Op::Push(a, b, c)).boxed()),
            (bulk, (k(), 1u32..1100).prop_map(|(a, b)| Op::FillQ(a, b)).boxed()),
            (w(1, 8), (k(), 1u32..9).prop_map(|(a, b)| Op::Take(a, b)).boxed()), (w(1, 2), k().prop_map(Op::Ack).boxed()), (w(1, 12), (k(), text()).prop_map(|(a, b)| Op::Nack(a, b)).boxed()),
            (w(1, 2), (k(), k()).prop_map(|(a, b)| Op::MoveDlq(a, b)).boxed()), (w(1, 1), (k(), k()).prop_map(|(a, b)| Op::DelDlq(a, b)).boxed()), (1, k().prop_map(Op::QDelete).boxed()),
            (w(2, 4), k().prop_map(Op::SCreate).boxed()), (w(2, 14), (k(), val()).prop_map(|(a, b)| Op::SPub(a, b)).boxed()), (bulk, (k(), 1u32..700).prop_map(|(a, b)| Op::FillS(a, b)).boxed()), (1, k().prop_map(Op::SDelete).boxed()),
            (w(2, 5), (k(), k(), 1u32..8).prop_map(|(a, b, c)| Op::Fetch(a, b, c)).boxed()), (w(2, 7), (k(), k(), k()).prop_map(|(a, b, c)| Op::SAck(a, b, c)).boxed()),
            (w(3, 5), (0usize..4).prop_map(Op::Connect).boxed()), (w(3, 1), (0usize..4).prop_map(Op::Gone).boxed()), (w(3, 9), (0usize..4, k()).prop_map(|(a, b)| Op::Sub(a, b)).boxed()), (w(3, 3), (0usize..4, k()).prop_map(|(a, b)| Op::Unsub(a, b)).boxed()),
            (w(3, 7), (k(), val(), prop_oneof![3 => Just(None), 2 => (1u64..20).prop_map(Some)]).prop_map(|(a, b, c)| Op::Retain(a, b, c)).boxed()), (w(3, 1), k().prop_map(Op::Clear).boxed()),
            (3, prop_oneof![1u64..400, 400u64..4_000].prop_map(Op::Wait).boxed()),
            (w(0, 4), (num(), off(), search()).prop_map(|(a, b, c)| Op::StoreQ(a, b, c)).boxed()), (w(1, 16), (none.clone(), state(), num(), off(), search()).prop_map(|(a, b, c, d, e)| Op::QueueQ(a, b, c, d, e)).boxed()),
            (w(2, 5), (none, off(), num()).prop_map(|(a, b, c)| Op::StreamQ(a, b, c)).boxed()), (w(3, 4), (num(), off(), search()).prop_map(|(a, b, c)| Op::PubQ(a, b, c)).boxed()),
            (3, Just(Op::Lists).boxed()), (4, (any::<u8>(), k(), prop_oneof![4 => 1u64..6, 1 => 6u64..60, 1 => Just(500u64), 1 => Just(1000)]).prop_map(move |(a, b, p)| Op::Walk(a, b, if big { p.max(97) } else { p })).boxed()),
            (1, (proptest::sample::select(vec!["POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"]), proptest::sample::select(vec!["/api/store", "/api/queue", "/api/stream", "/api/pubsub", "/api/queue/a/messages?state=pending", "/api/stream/a/messages", "/api/store?search=%FF", "/api/store?limit=1&limit=2", "/api/queue/%FF/messages?state=dlq", "/api/queue/a/messages", "/api/nothing", "/../../etc/passwd", "/%2e%2e/%2e%2e/etc/passwd", "/"]), any::<bool>()).prop_map(|(m, p, g)| Op::Other(if g { "GET".into() } else { m.into() }, p.into())).boxed()),
        ]);
        let nm = prop_oneof![4 => "[a-c]{1,2}".prop_map(String::from), 1 => proptest::sample::select(vec!["x y", "é", "q?x=1", "a%20b", "a+b", "#", "\"q\"", "a&b"]).prop_map(str::to_string)];
        let key = prop_oneof![3 => "[a-c]{1,3}", 1 => text(), 1 => ident()];
        (proptest::collection::btree_set(key, 1..30), proptest::collection::btree_set(nm, 1..4), proptest::collection::btree_set(topic(), 1..12), proptest::collection::btree_set(pattern(), 1..8), prop_oneof![2 => Just(10_000usize), 1 => 4usize..40], proptest::collection::vec(op, 10..len))
            .prop_map(|(k, n, t, p, ram, mut ops)| {
                // most objects are there from the start
                for (j, _) in n.iter().enumerate() { if j != 1 { ops.insert(0, Op::QCreate(j, j as u32, if ram % 3 == 0 { 2_500 } else { 360_000_000 })); ops.insert(0, Op::SCreate(j)); ops.insert(0, Op::Connect(j)); } }
                let t: Vec<String> = t.into_iter().collect(); let mut p: Vec<String> = p.into_iter().collect(); p.extend(t.iter().take(4).cloned()); p.sort(); p.dedup(); Case { keys: k.into_iter().collect(), names: n.into_iter().collect(), topics: t, pats: p, ram, ops } }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        cfg.store.default_ttl_secs = 3_000_000;
        cfg.stream.ram_soft_limit = case.ram;
        cfg.stream.eviction_interval_ms = 200;
        cfg.stream.ack_wait_ms = 360_000_000;
        cfg.stream.max_ack_pending = 10_000;
        cfg.pubsub.default_retained_ttl_seconds = 3_000_000;
        Sim::new().run(async {
            let s = Srv::start(&cfg).await;
            let h = Http::start(&s).await;
            let mut r = R { s, h, cx, c: case, kv: Default::default(), q: Default::default(), st: Default::default(), cl: Default::default(), ret: Default::default(), bulk: 0 };
            for (i, o) in case.ops.iter().enumerate() {
                r.step(o).await.map_err(|e| format!("step {i}: {e}"))?;
                if let Some(p) = server_panics().first() { return Err(format!("step {i}: panic in the server at {}: {}", p.0, p.1)); }
            }
            r.finish().await?;
            let shown = ["store page with entries", "stream page with messages", "pub/sub page with topics"].iter().filter(|l| r.cx.has(l)).count() + ["pending shown", "inflight shown", "dead letters shown"].iter().any(|l| r.cx.has(l)) as usize;
            r.cx.nontrivial = shown >= 2;
            if let Some(p) = server_panics().first() { return Err(format!("panic in the server at {}: {}", p.0, p.1)); }
            Ok(())
        })
    }
}
