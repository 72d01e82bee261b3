//! C13: which queues and streams exist, with which settings and contents.
use super::gen::*;
use crate::eng::*;
use crate::http::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    QCreate(usize, Option<u64>, Option<u32>), QDelete(usize), QPush(usize, Pay), QDead(usize),
    SCreate(usize, Option<u64>, Option<u64>), SDelete(usize), SPub(usize, Pay), SJoin(usize, usize, bool),
    /// every operation that needs the object, if it is absent
    Poke(usize),
    Wait(u64),
    /// restart, with the data directories moved or not, and possibly other system defaults
    Restart { down: u64, moved: bool, defaults: Option<(u64, u32, u64, u64)> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { names: Vec<String>, flush: u64, ops: Vec<Op> }

#[derive(Clone, Debug)]
struct Q { vis: u64, max: u32, msgs: Vec<Vec<u8>>, dead: Vec<Vec<u8>> }
#[derive(Clone, Debug)]
struct S { age: Option<u64>, bytes: Option<u64>, msgs: Vec<Vec<u8>>, groups: BTreeMap<usize, u64> }

fn files(dir: &str) -> BTreeSet<String> {
    fn walk(d: &std::path::Path, base: &std::path::Path, out: &mut BTreeSet<String>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned());
            if p.is_dir() { walk(&p, base, out); }
        }
    }
    let mut out = BTreeSet::new();
    ip::unhooked(|| walk(std::path::Path::new(dir), std::path::Path::new(dir), &mut out));
    out
}

struct M<'a> { names: &'a [String], q: BTreeMap<usize, Q>, s: BTreeMap<usize, S>, def: (u64, u32, u64, u64), cx: &'a mut Cx }
impl M<'_> {
    async fn check(&mut self, s: &Srv, h: &Http, at: &str) -> Result<(), String> {
        for (k, n) in self.names.iter().enumerate() {
            let e = s.q_exists(n).await??;
            if e != self.q.contains_key(&k) { return Err(format!("{at}: queue {n:?}: exists answers {e}")); }
            let e = s.s_exists(n).await??;
            if e != self.s.contains_key(&k) { return Err(format!("{at}: stream {n:?}: exists answers {e}")); }
        }
        let v = h.json("/api/queue").await?;
        let list = v.as_array().ok_or("queue list")?;
        if list.len() != self.q.len() { return Err(format!("{at}: queues listed: {:?}, expected {:?}", list.iter().map(|x| &x["name"]).collect::<Vec<_>>(), self.q.keys().map(|k| &self.names[*k]).collect::<Vec<_>>())); }
        for (k, q) in &self.q {
            let n = &self.names[*k];
            let x = list.iter().find(|x| x["name"] == n.as_str()).ok_or(format!("{at}: queue {n:?} is not listed"))?;
            if x["config"]["visibility_timeout_ms"] != q.vis || x["config"]["max_retries"] != q.max { return Err(format!("{at}: queue {n:?} has settings {}, it was created with {} ms and {} retries", x["config"], q.vis, q.max)); }
            if x["pending"] != q.msgs.len() || x["inflight"] != 0 || x["dlq"] != q.dead.len() { return Err(format!("{at}: queue {n:?} shows {} waiting, {} in flight, {} dead, expected {}, 0, {}", x["pending"], x["inflight"], x["dlq"], q.msgs.len(), q.dead.len())); }
            let (_, d) = s.q_peek(n, 1000, 0).await?.map_err(|e| format!("{at}: peek {n:?}: {e}"))?;
            let (mut a, mut b): (Vec<_>, Vec<_>) = (d.into_iter().map(|m| m.payload).collect(), q.dead.clone());
            a.sort(); b.sort();
            if a != b { return Err(format!("{at}: queue {n:?} holds other dead letters")); }
        }
        let v = h.json("/api/stream").await?;
        let list = v["topics"].as_array().ok_or("stream list")?;
        if list.len() != self.s.len() { return Err(format!("{at}: streams listed: {:?}, expected {:?}", list.iter().map(|x| &x["name"]).collect::<Vec<_>>(), self.s.keys().map(|k| &self.names[*k]).collect::<Vec<_>>())); }
        for (k, st) in &self.s {
            let n = &self.names[*k];
            let x = list.iter().find(|x| x["name"] == n.as_str()).ok_or(format!("{at}: stream {n:?} is not listed"))?;
            let want = serde_json::json!([st.age, st.bytes]);
            let r = &x["config"]["retention"];
            let pick = |a: &str, b: &str| if r[a].is_null() { r[b].clone() } else { r[a].clone() };
            let got = serde_json::json!([pick("max_age_ms", "maxAgeMs"), pick("max_bytes", "maxBytes")]);
            if got != want { return Err(format!("{at}: stream {n:?} has retention {r}, it was created with {want}")); }
            if x["last_seq"] != st.msgs.len() { return Err(format!("{at}: stream {n:?} shows last_seq {}, published were {}", x["last_seq"], st.msgs.len())); }
            let mut gs: Vec<(String, u64)> = x["groups"].as_array().ok_or("groups")?.iter().map(|g| (g["id"].as_str().unwrap_or("").to_string(), g["ack_floor"].as_u64().unwrap_or(9999))).collect();
            gs.sort();
            let mut ws: Vec<(String, u64)> = st.groups.iter().map(|(g, f)| (format!("g{g}"), *f)).collect();
            ws.sort();
            if gs != ws { return Err(format!("{at}: stream {n:?} shows groups {gs:?}, expected {ws:?}")); }
            let got = s.eng.stream.read(n, 1, 10_000).await;
            if got.iter().map(|m| m.payload.to_vec()).ne(st.msgs.iter().cloned()) { return Err(format!("{at}: stream {n:?} holds {} messages or other bytes, published were {}", got.len(), st.msgs.len())); }
        }
        Ok(())
    }
    async fn poke(&mut self, s: &Srv, at: &str, k: usize) -> Result<(), String> {
        let n = &self.names[k];
        if !self.q.contains_key(&k) {
            let r = [
                ("push", s.q_push(n, None, b"x").await?.is_ok()), ("consume", s.q_consume(n, None, None).await?.is_ok()),
                ("waiting consume", s.q_consume(n, Some(1), Some(50)).await?.is_ok()),
                ("ack", s.q_ack(n, 7).await?.is_ok()), ("nack", s.q_nack(n, 7, "r").await?.is_ok()), ("peek", s.q_peek(n, 10, 0).await?.is_ok()),
                ("replay", s.q_move(n, 7).await?.is_ok()), ("delete dead letter", s.q_deldlq(n, 7).await?.is_ok()), ("purge", s.q_purge(n).await?.is_ok()),
            ];
            for (w, ok) in r { if ok { return Err(format!("{at}: {w} on the absent queue {n:?} succeeded")); } }
            self.cx.label("poke-queue");
        }
        if !self.s.contains_key(&k) {
            let r = [
                ("publish", s.s_pub(n, b"x").await?.is_ok()), ("join", s.s_join("c", "g0", n).await?.is_ok()), ("fetch", s.s_fetch("c", n, "g0", "m", 1, 10, 0).await?.is_ok()),
                ("ack", s.s_ack("c", n, "g0", "m", 1, 1).await?.is_ok()), ("seek", s.s_seek("c", n, "g0", true).await?.is_ok()), ("leave", s.s_leave("c", n, "g0", "m", 1).await?.is_ok()),
            ];
            for (w, ok) in r { if ok { return Err(format!("{at}: {w} on the absent stream {n:?} succeeded")); } }
            if !s.eng.stream.read(n, 1, 10).await.is_empty() { return Err(format!("{at}: the absent stream {n:?} has messages")); }
            self.cx.label("poke-stream");
        }
        Ok(())
    }
    async fn step(&mut self, s: &Srv, at: &str, o: &Op) -> Result<(), String> {
        match o {
            Op::QCreate(k, v, m) => {
                s.q_create(&self.names[*k], &QOpts { vis_ms: *v, max_retries: *m }).await?.map_err(|e| format!("{at}: create refused: {e}"))?;
                if self.q.contains_key(k) { self.cx.label("create-existing"); }
                let d = self.def;
                self.q.entry(*k).or_insert(Q { vis: v.unwrap_or(d.0), max: m.unwrap_or(d.1), msgs: vec![], dead: vec![] });
            }
            Op::QDelete(k) => { s.q_delete(&self.names[*k]).await?.ok(); if let Some(q) = self.q.remove(k) { self.cx.label("delete"); if !q.msgs.is_empty() { self.cx.label("delete-full"); } } }
            Op::QPush(k, b) => if let Some(q) = self.q.get_mut(k) { s.q_push(&self.names[*k], None, &b.bytes()).await?.map_err(|e| format!("{at}: push refused: {e}"))?; q.msgs.push(b.bytes()); },
            Op::QDead(k) => if let Some(q) = self.q.get_mut(k) {
                // first waiting message becomes a dead letter
                if q.msgs.is_empty() || q.max > 3 { return Ok(()); }
                let n = &self.names[*k];
                let want = q.msgs.remove(0);
                for _ in 0..=q.max {
                    let got = s.q_consume(n, Some(10_000), Some(0)).await?.map_err(|e| format!("{at}: consume refused: {e}"))?;
                    let mut it = None;
                    for m in got {
                        if m.payload == want && it.is_none() { it = Some(m.id); }
                        else { s.q_ack(n, m.id).await?.map_err(|e| format!("{at}: ack refused: {e}"))?; }
                    }
                    let Some(id) = it else { break };
                    s.q_nack(n, id, "bad").await?.map_err(|e| format!("{at}: nack refused: {e}"))?;
                }
                q.msgs.clear();
                q.dead.push(want);
                self.cx.label("dead");
            },
            Op::SCreate(k, a, b) => {
                s.s_create(&self.names[*k], *a, *b).await?.map_err(|e| format!("{at}: create refused: {e}"))?;
                if self.s.contains_key(k) { self.cx.label("create-existing"); }
                let lim = |v: &Option<u64>, d: u64| match v { None => Some(d), Some(0) => None, Some(x) => Some(*x) };
                let d = self.def;
                self.s.entry(*k).or_insert(S { age: lim(a, d.2), bytes: lim(b, d.3), msgs: vec![], groups: BTreeMap::new() });
            }
            Op::SDelete(k) => { s.s_delete(&self.names[*k]).await?.ok(); if let Some(t) = self.s.remove(k) { self.cx.label("delete"); if !t.msgs.is_empty() || !t.groups.is_empty() { self.cx.label("delete-full"); } } }
            Op::SPub(k, b) => if let Some(t) = self.s.get_mut(k) {
                let n = s.s_pub(&self.names[*k], &b.bytes()).await?.map_err(|e| format!("{at}: publish refused: {e}"))?;
                t.msgs.push(b.bytes());
                if n != t.msgs.len() as u64 { return Err(format!("{at}: publish got seq {n}, expected {}", t.msgs.len())); }
            },
            Op::SJoin(k, g, end) => if let Some(t) = self.s.get_mut(k) {
                s.s_seek("c", &self.names[*k], &format!("g{g}"), *end).await?.map_err(|e| format!("{at}: seek refused: {e}"))?;
                t.groups.insert(*g, if *end { t.msgs.len() as u64 } else { 0 });
            },
            Op::Poke(k) => self.poke(s, at, *k).await?,
            Op::Wait(ms) => sleep_ms(*ms).await,
            Op::Restart { .. } => {}
        }
        Ok(())
    }
}

pub struct C13;
impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "an object with contents was deleted, one was created that existed, and a restart restored what was there";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 8000 } else { 150_000 } }
    fn strategy(_: Tier, i: u64) -> BoxedStrategy<Case> {
        let len = if i % 8 == 0 { 60usize } else { 20 };
        let base = prop_oneof![4 => "[a-z]{1,4}", 1 => "[a-zA-Z0-9_.-]{1,8}".prop_filter("dots", |s| s != "." && s != ".."), 1 => Just("é ü".to_string()), 1 => Just("n".repeat(200)), 1 => Just("con fig%20".to_string())];
        let names = (base, proptest::collection::btree_set(0usize..14, 2..5)).prop_map(|(b, v)| {
            let mut out: Vec<String> = vec![];
            for k in v {
                let n = match k { 0 => b.clone(), 1 => format!("{b}.db"), 2 => format!("{b}.db.db"), 3 => b.to_uppercase(), 4 => format!("{b} "), 5 => format!("{b}x"), 6 => format!("{b}.config.json"), 7 => format!(".{b}"), 8 => format!("{b}.db-wal"), 9 => format!("{b}."), 10 => "groups.log".into(), 11 => "1.log".into(), 12 => format!("{b}.config.json.db"), _ => format!("{b}.b") };
                if !out.contains(&n) && n != ".." { out.push(n); }
            }
            out
        });
        (names, prop_oneof![Just(20u64), Just(100)]).prop_flat_map(move |(names, flush)| {
            let n = names.len();
            let op = prop_oneof![
                5 => (0..n, proptest::option::of(prop_oneof![3600_000u64..7_200_000, Just(u64::MAX >> 1)]), proptest::option::of(prop_oneof![0u32..4, Just(u32::MAX)])).prop_map(|(k, v, m)| Op::QCreate(k, v, m)),
                3 => (0..n).prop_map(Op::QDelete),
                6 => (0..n, pay()).prop_map(|(k, p)| Op::QPush(k, p)),
                2 => (0..n).prop_map(Op::QDead),
                5 => (0..n, proptest::option::of(prop_oneof![Just(0u64), 1u64 << 40..1u64 << 50]), proptest::option::of(prop_oneof![Just(0u64), 1u64 << 40..1u64 << 50])).prop_map(|(k, a, b)| Op::SCreate(k, a, b)),
                3 => (0..n).prop_map(Op::SDelete),
                6 => (0..n, pay()).prop_map(|(k, p)| Op::SPub(k, p)),
                2 => (0..n, 0usize..3, any::<bool>()).prop_map(|(k, g, e)| Op::SJoin(k, g, e)),
                2 => (0..n).prop_map(Op::Poke),
                2 => prop_oneof![1u64..50, 50u64..2000].prop_map(Op::Wait),
                3 => (prop_oneof![Just(0u64), 1u64..100_000], any::<bool>(), proptest::option::of((3600_000u64..7_200_000, 0u32..4, 1u64 << 40..1u64 << 50, 1u64 << 40..1u64 << 50))).prop_map(|(down, moved, defaults)| Op::Restart { down, moved, defaults }),
            ];
            proptest::collection::vec(op, 1..len).prop_map(move |ops| Case { names: names.clone(), flush, ops })
        }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut def = (7_000_000u64, 2u32, 1u64 << 41, 1u64 << 41);
        let mut m = M { names: &case.names, q: BTreeMap::new(), s: BTreeMap::new(), def, cx };
        let mut sim = Sim::new();
        let (mut i, mut gen, mut last) = (0, 0, false);
        loop {
            let (qd, sd) = (format!("{root}/q{gen}"), format!("{root}/s{gen}"));
            let mut cfg = base_config(&root);
            cfg.queue.persistence_path = qd.clone();
            cfg.stream.persistence_path = sd.clone();
            cfg.queue.default_flush_ms = case.flush;
            cfg.stream.default_flush_ms = case.flush;
            (cfg.queue.visibility_timeout_ms, cfg.queue.max_retries, cfg.stream.default_retention_age_ms, cfg.stream.default_retention_bytes) = def;
            m.def = def;
            let next = sim.run(async {
                let s = Srv::start(&cfg).await;
                let h = Http::start(&s).await;
                settle().await;
                m.check(&s, &h, &format!("after start {gen}")).await?;
                let n = case.names.len();
                while i < case.ops.len() {
                    let at = format!("op {i} {:?}", case.ops[i]);
                    if let Op::Restart { down, moved, defaults } = &case.ops[i] {
                        sleep_ms(13 * case.flush + 20).await;
                        m.check(&s, &h, &at).await?;
                        let (a, b) = if *moved { (format!("{root}/q{}", gen + 1), format!("{root}/s{}", gen + 1)) } else { (format!("{root}/keep-q"), format!("{root}/keep-s")) };
                        ip::image(&qd, &a);
                        ip::image(&sd, &b);
                        return Ok(Some((*down, *moved, *defaults)));
                    }
                    m.step(&s, &at, &case.ops[i]).await?;
                    m.check(&s, &h, &at).await?;
                    i += 1;
                }
                if last {
                    for k in 0..n { m.poke(&s, "at the end", k).await?; }
                    return Ok(None);
                }
                // contents, then delete everything: no file may be left
                for (k, q) in m.q.clone() {
                    let got = s.q_consume(&case.names[k], Some(10_000), Some(0)).await?.map_err(|e| format!("final consume: {e}"))?;
                    if got.iter().map(|m| m.payload.clone()).ne(q.msgs.iter().cloned()) { return Err(format!("at the end: queue {:?} holds {} messages or other bytes or order, pushed were {}", case.names[k], got.len(), q.msgs.len())); }
                }
                sleep_ms(13 * case.flush + 20).await;
                for k in 0..n { for o in if k % 2 == 0 { [Op::QDelete(k), Op::SDelete(k)] } else { [Op::SDelete(k), Op::QDelete(k)] } {
                    m.step(&s, "final delete", &o).await?;
                    let at = format!("after the final {o:?}");
                    for (k, q) in &mut m.q { if !q.msgs.is_empty() { s.q_purge(&case.names[*k]).await?.ok(); q.dead.clear(); } }
                    for k in 0..n { let e = s.q_exists(&case.names[k]).await??; if e != m.q.contains_key(&k) { return Err(format!("{at}: queue {:?}: exists answers {e}", case.names[k])); } }
                } }
                sleep_ms(13 * case.flush + 20).await;
                for d in [&qd, &sd] { let f = files(d); if !f.is_empty() { return Err(format!("everything was deleted, but files are left: {f:?}")); } }
                m.check(&s, &h, "after deleting everything").await?;
                ip::image(&qd, &format!("{root}/q{}", gen + 1));
                ip::image(&sd, &format!("{root}/s{}", gen + 1));
                Ok::<_, String>(Some((0, true, None)))
            })?;
            let Some((down, moved, d)) = next else { break };
            if i >= case.ops.len() { last = true; } else { m.cx.label("restart"); if !m.q.is_empty() || !m.s.is_empty() { m.cx.label("restored"); } if moved { m.cx.label("moved"); } }
            i += 1;
            if moved { gen += 1; } else {
                // what a stop at that moment leaves, in place
                for (d, k) in [(&qd, "keep-q"), (&sd, "keep-s")] { ip::unhooked(|| { let _ = std::fs::remove_dir_all(d); std::fs::rename(format!("{root}/{k}"), d) }).map_err(|e| format!("harness: {e}"))?; }
            }
            if let Some(d) = d { def = d; }
            sim.down(down);
        }
        cx.nontrivial = cx.has("delete-full") && cx.has("create-existing") && cx.has("restored");
        Ok(())
    }
}
