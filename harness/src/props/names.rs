//! C26: names never reach outside the data directories, and different names never share anything.
use super::gen::pick_one;
use crate::eng::*;
use crate::http::*;
use crate::interpose as ip;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// A name as generated: text, or a unit repeated up to so many bytes with an ending.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Nm { T(String), Long(String, u32, String) }
impl Nm {
    fn text(&self) -> String {
        match self {
            Nm::T(s) => s.clone(),
            Nm::Long(u, n, end) => { let mut s = String::new(); while s.len() + u.len() + end.len() <= *n as usize { s.push_str(u); } while s.len() + end.len() < *n as usize { s.push('y'); } s + end }
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    QCreate(usize), QPush(usize), QTake(usize), QDelete(usize), QExists(usize),
    SCreate(usize), SPub(usize), SDelete(usize), SExists(usize), SAck(usize, usize),
    KSet(usize), KDel(usize), PSet(usize), PClear(usize),
    Wait(u64), Verify, Restart,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { names: Vec<Nm>, ops: Vec<Op> }

#[derive(Default)]
struct Model {
    q: BTreeMap<String, Vec<String>>,
    s: BTreeMap<String, (Vec<String>, BTreeMap<String, u64>)>,
    k: BTreeMap<String, String>,
    p: BTreeMap<String, String>,
    /// names ever accepted: queues, streams
    qn: BTreeSet<String>,
    sn: BTreeSet<String>,
    n: u32,
}
fn plain(n: &str) -> bool { !n.is_empty() && n.len() <= 60 && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') }
fn show(n: &str) -> String { if n.len() > 80 { format!("{:?}.. ({} bytes)", n.chars().take(30).collect::<String>(), n.len()) } else { format!("{n:?}") } }
fn topic_ok(n: &str) -> bool { !n.contains(['+', '#']) && n.split('/').count() <= 256 }

struct R<'a> { s: Srv, h: Http, root: String, m: Model, cx: &'a mut Cx, tree: BTreeMap<String, Vec<u8>> }
/// Files that are not the server's, by content.
fn foreign(root: &str) -> BTreeMap<String, Vec<u8>> {
    ip::unhooked(|| {
        let mut m = BTreeMap::new();
        for f in ["canary", "d/canary", "d/queues/note.txt", "d/streams/note.txt", "out/deep/canary", "d/other/1.log", "d/queues/sub/x.db"] { if let Ok(b) = std::fs::read(format!("{root}/{f}")) { m.insert(f.to_string(), b); } }
        m
    })
}
fn plant(root: &str) {
    ip::unhooked(|| {
        for f in ["canary", "d/canary", "d/queues/note.txt", "d/streams/note.txt", "out/deep/canary", "d/other/1.log", "d/queues/sub/x.db"] {
            let p = std::path::PathBuf::from(format!("{root}/{f}"));
            std::fs::create_dir_all(p.parent().unwrap()).ok();
            std::fs::write(&p, f.as_bytes()).ok();
        }
    })
}
impl R<'_> {
    /// Every path changed so far belongs to an accepted name.
    fn files(&mut self, own: &str, what: &str) -> Result<(), String> {
        if let Some(e) = ip::fs_escapes().first() { return Err(format!("{what}: {} of {:?}, outside all data directories", e.op, e.path)); }
        let base = format!("{}/d", self.root);
        for e in ip::fs_take_trace() {
            let gone = e.op.starts_with("unlink") || e.op == "rmdir" || e.op == "rename";
            let Some(rel) = e.path.strip_prefix(&base) else { return Err(format!("{what}: {} of {:?}, outside the data directories", e.op, e.path)) };
            let rel = rel.trim_start_matches('/');
            let (dir, rest) = rel.split_once('/').unwrap_or((rel, ""));
            let fine = match dir {
                _ if rest.is_empty() => !gone && ["", "queues", "streams", "pubsub"].contains(&dir),
                "queues" => [".db", ".db-wal", ".db-shm", ".db-journal", ".config.json"].iter().any(|x| rest.strip_suffix(x).is_some_and(|n| self.m.qn.contains(n) || n == own && e.op.starts_with("unlink"))),
                "streams" => self.m.sn.contains(rest.split('/').next().unwrap()),
                "pubsub" => rest.starts_with("retained.db"),
                _ => false,
            };
            if !fine { return Err(format!("{what}: {} of {:?}, which belongs to no accepted name", e.op, e.path)); }
        }
        let now = foreign(&self.root);
        if now != self.tree { let f = self.tree.keys().find(|k| now.get(*k) != self.tree.get(*k)).unwrap(); return Err(format!("{what}: {f}, which is not the server's, was changed or removed")); }
        Ok(())
    }
    async fn step(&mut self, names: &[String], o: &Op) -> Result<(), String> {
        let nm = |k: &usize| names[k % names.len()].clone();
        self.m.n += 1;
        let tag = format!("m{}", self.m.n);
        let s = self.s.clone();
        let what;
        match o {
            Op::QCreate(k) => {
                let n = nm(k);
                what = format!("create queue {}", show(&n));
                match s.q_create(&n, &QOpts { vis_ms: Some(360_000_000), max_retries: None }).await? {
                    Ok(()) => { self.m.qn.insert(n.clone()); if self.m.q.insert(n.clone(), self.m.q.get(&n).cloned().unwrap_or_default()).is_none() { self.cx.label(if plain(&n) { "plain queue" } else { "odd queue name accepted" }); } }
                    Err(e) => { if plain(&n) || self.m.q.contains_key(&n) { return Err(format!("{what} refused: {e}")); } self.cx.label("name refused"); }
                }
            }
            Op::QPush(k) => {
                let n = nm(k);
                what = format!("push to queue {}", show(&n));
                match (s.q_push(&n, None, tag.as_bytes()).await?, self.m.q.get_mut(&n)) {
                    (Ok(()), Some(v)) => { v.push(tag); self.cx.label("message kept"); }
                    (Err(_), None) => {}
                    (Ok(()), None) => return Err(format!("{what} accepted, it does not exist")),
                    (Err(e), Some(_)) => return Err(format!("{what} refused: {e}")),
                }
            }
            Op::QTake(k) => {
                let n = nm(k);
                what = format!("consume of queue {}", show(&n));
                match (s.q_consume(&n, Some(1), Some(0)).await?, self.m.q.get_mut(&n)) {
                    (Ok(ms), Some(v)) => {
                        let want: Vec<String> = v.first().cloned().into_iter().collect();
                        if ms.iter().map(|m| String::from_utf8_lossy(&m.payload).into_owned()).collect::<Vec<_>>() != want { return Err(format!("{what} gave {:?}, expected {want:?}", ms.iter().map(|m| String::from_utf8_lossy(&m.payload).into_owned()).collect::<Vec<_>>())); }
                        if let Some(m) = ms.first() { s.q_ack(&n, m.id).await?.map_err(|e| format!("{what}: ack refused: {e}"))?; v.remove(0); }
                    }
                    (Err(_), None) => {}
                    (Ok(ms), None) => return Err(format!("{what}, which does not exist, answered {} messages", ms.len())),
                    (Err(e), Some(_)) => return Err(format!("{what} refused: {e}")),
                }
            }
            Op::QDelete(k) => { let n = nm(k); what = format!("delete queue {}", show(&n)); let r = s.q_delete(&n).await?; if self.m.q.contains_key(&n) { r.map_err(|e| format!("{what} refused: {e}"))?; self.cx.label("object deleted"); self.m.q.remove(&n); } else { self.cx.label("delete of an absent name"); } }
            Op::QExists(k) => { let n = nm(k); what = format!("queue {} exists", show(&n)); let r = s.q_exists(&n).await?.unwrap_or(false); if r != self.m.q.contains_key(&n) { return Err(format!("{what}: answered {r}")); } }
            Op::SCreate(k) => {
                let n = nm(k);
                what = format!("create stream {}", show(&n));
                match s.s_create(&n, None, None).await? {
                    Ok(()) => { self.m.sn.insert(n.clone()); if !self.m.s.contains_key(&n) { self.m.s.insert(n.clone(), Default::default()); self.cx.label(if plain(&n) { "plain stream" } else { "odd stream name accepted" }); } }
                    Err(e) => { if plain(&n) || self.m.s.contains_key(&n) { return Err(format!("{what} refused: {e}")); } self.cx.label("name refused"); }
                }
            }
            Op::SPub(k) => {
                let n = nm(k);
                what = format!("publish to stream {}", show(&n));
                match (s.s_pub(&n, tag.as_bytes()).await?, self.m.s.get_mut(&n)) {
                    (Ok(q), Some(v)) => { v.0.push(tag); if q != v.0.len() as u64 { return Err(format!("{what} got number {q}, {} are there", v.0.len())); } self.cx.label("message kept"); }
                    (Err(_), None) => {}
                    (Ok(_), None) => return Err(format!("{what} accepted, it does not exist")),
                    (Err(e), Some(_)) => return Err(format!("{what} refused: {e}")),
                }
            }
            Op::SDelete(k) => { let n = nm(k); what = format!("delete stream {}", show(&n)); let r = s.s_delete(&n).await?; if self.m.s.contains_key(&n) { r.map_err(|e| format!("{what} refused: {e}"))?; self.cx.label("object deleted"); self.m.s.remove(&n); } else { self.cx.label("delete of an absent name"); } }
            Op::SExists(k) => { let n = nm(k); what = format!("stream {} exists", show(&n)); let r = s.s_exists(&n).await?.unwrap_or(false); if r != self.m.s.contains_key(&n) { return Err(format!("{what}: answered {r}")); } }
            Op::SAck(k, g) => {
                let (n, g) = (nm(k), nm(g));
                what = format!("group {} of stream {}", show(&g), show(&n));
                match (s.s_join("w", &g, &n).await?, self.m.s.get_mut(&n)) {
                    (Ok(j), Some((log, groups))) => {
                        let at = *groups.entry(g.clone()).or_insert(0);
                        if j.floor != at { return Err(format!("{what} is at {}, it was at {at}", j.floor)); }
                        let ms = s.s_fetch("w", &n, &g, &j.consumer, j.gen, 1, 0).await?.map_err(|e| format!("{what}: fetch refused: {e}"))?;
                        let want: Vec<u64> = if at < log.len() as u64 { vec![at + 1] } else { vec![] };
                        if ms.iter().map(|m| m.seq).collect::<Vec<_>>() != want { return Err(format!("{what} at {at} got {:?}", ms.iter().map(|m| m.seq).collect::<Vec<_>>())); }
                        if let Some(m) = ms.first() { s.s_ack("w", &n, &g, &j.consumer, j.gen, m.seq).await?.map_err(|e| format!("{what}: ack refused: {e}"))?; groups.insert(g.clone(), at + 1); self.cx.label("group moved"); }
                        s.s_leave("w", &n, &g, &j.consumer, j.gen).await?.map_err(|e| format!("{what}: leave refused: {e}"))?;
                    }
                    (Err(_), None) => {}
                    (Err(e), Some((_, groups))) => { if plain(&g) || groups.contains_key(&g) { return Err(format!("{what}: join refused: {e}")); } self.cx.label("name refused"); }
                    (Ok(_), None) => return Err(format!("{what}: joined, the stream does not exist")),
                }
            }
            Op::KSet(k) => { let n = nm(k); what = format!("set {}", show(&n)); s.set(&n, tag.as_bytes(), None).await?.map_err(|e| format!("{what} refused: {e}"))?; self.m.k.insert(n, tag); }
            Op::KDel(k) => { let n = nm(k); what = format!("del {}", show(&n)); s.del(&n).await?.ok(); self.m.k.remove(&n); }
            Op::PSet(k) | Op::PClear(k) => {
                let n = nm(k);
                if !topic_ok(&n) { return Ok(()); }
                what = format!("retained message on {}", show(&n));
                let clear = matches!(o, Op::PClear(_));
                s.publish("w", &n, Some(true), Some(100_000_000), if clear { b"" } else { tag.as_bytes() }).await?.map_err(|e| format!("{what} refused: {e}"))?;
                if clear { self.m.p.remove(&n); } else { self.m.p.insert(n, tag); }
            }
            Op::Wait(ms) => { what = "waiting".into(); sleep_ms(*ms).await; }
            Op::Verify => { what = "reading".into(); self.verify("").await?; }
            Op::Restart => return Err("harness: restart inside".into()),
        }
        let own = match o { Op::QDelete(k) => nm(k), _ => String::new() };
        self.files(&own, &what)
    }
    async fn verify(&mut self, at: &str) -> Result<(), String> {
        let s = self.s.clone();
        let v = self.h.json("/api/queue").await?;
        let got: BTreeSet<String> = v.as_array().into_iter().flatten().filter_map(|x| x["name"].as_str().map(str::to_string)).collect();
        let want: BTreeSet<String> = self.m.q.keys().cloned().collect();
        if got != want { let d: Vec<String> = got.symmetric_difference(&want).map(|n| show(n)).collect(); return Err(format!("{at}queues lost, or there without having been created: {d:?}")); }
        for (n, v) in &self.m.q {
            let r = self.h.json(&format!("/api/queue/{}/messages?state=pending&limit=1000", enc(n))).await.map_err(|e| format!("{at}{}", e.chars().take(400).collect::<String>()))?;
            let ps: Vec<String> = r["messages"].as_array().into_iter().flatten().map(|m| m["payload"].as_str().unwrap_or("?").to_string()).collect();
            if &ps != v { return Err(format!("{at}queue {} holds {ps:?}, expected {v:?}", show(n))); }
        }
        let v = self.h.json("/api/stream").await?;
        let got: BTreeSet<String> = v["topics"].as_array().into_iter().flatten().filter_map(|x| x["name"].as_str().map(str::to_string)).collect();
        let want: BTreeSet<String> = self.m.s.keys().cloned().collect();
        if got != want { let d: Vec<String> = got.symmetric_difference(&want).map(|n| show(n)).collect(); return Err(format!("{at}streams lost, or there without having been created: {d:?}")); }
        for (n, (log, groups)) in &self.m.s {
            let ms: Vec<String> = s.eng.stream.read(n, 1, 10_000).await.iter().map(|m| String::from_utf8_lossy(&m.payload).into_owned()).collect();
            if &ms != log { return Err(format!("{at}stream {} holds {ms:?}, expected {log:?}", show(n))); }
            for (g, f) in groups {
                let j = s.s_join("v", g, n).await?.map_err(|e| format!("{at}group {}: {e}", show(g)))?;
                if j.floor != *f { return Err(format!("{at}group {} of stream {} is at {}, it was at {f}", show(g), show(n), j.floor)); }
                s.s_leave("v", n, g, &j.consumer, j.gen).await??;
            }
            let t = v["topics"].as_array().unwrap().iter().find(|x| x["name"] == n.as_str()).unwrap();
            let gs: BTreeSet<String> = t["groups"].as_array().into_iter().flatten().filter_map(|x| x["id"].as_str().map(str::to_string)).collect();
            let want: BTreeSet<String> = groups.keys().cloned().collect();
            if gs != want { return Err(format!("{at}stream {} has groups {:?}, expected {:?}", show(n), gs.iter().map(|g| show(g)).collect::<Vec<_>>(), want.iter().map(|g| show(g)).collect::<Vec<_>>())); }
        }
        for (n, v) in &self.m.k { if s.get(n).await?? != Some(v.clone().into_bytes()) { return Err(format!("{at}key {} does not hold {v}", show(n))); } }
        let mut p = s.connect("v");
        for (n, v) in &self.m.p {
            s.sub("v", n).await?.map_err(|e| format!("{at}subscribe {}: {e}", show(n)))?;
            settle().await;
            let got = p.drain()?;
            if got != [(n.clone(), v.clone().into_bytes())] { return Err(format!("{at}retained on {}: {:?}, expected {v}", show(n), got.iter().map(|g| (show(&g.0), String::from_utf8_lossy(&g.1).into_owned())).collect::<Vec<_>>())); }
            s.unsub("v", n).await??;
        }
        s.disconnect("v").await;
        Ok(())
    }
}

fn odd() -> BoxedStrategy<String> {
    let fixed = ["", ".", "..", "...", "/", "//", "../..", "../x", "../canary", "../../canary", "../../out", "../queues", "../streams", "../other", "a/b", "a/", "/a", "./a", "a/.", "a/..", "a/../b", "sub/x", "/tmp/nexo-pbt-none", "/", "~", "a\u{0}b", "\u{0}", "a\nb", "a\\b", "..\\a",
        "a.db", "a.db-wal", "a.db-shm", "a.config.json", "a.config", "a-wal", "a.log", "1", "1.log", "groups.log", "config.json", "retained", "retained.db", "queues", "streams", ".db", ".config.json", "A", "a", " a", "a ", "é", "e\u{301}", "a:b", ":memory:", "file:a?mode=memory", "%2e%2e", "%2F", "*", "?x=1", "a?b", "#1", "-rf", "con", "\u{202e}a", "\u{feff}", "😀"];
    prop_oneof![
        10 => proptest::sample::select(fixed.to_vec()).prop_map(str::to_string),
        3 => (proptest::sample::select(vec!["../", "./", "/", "a/", "", "..", "."]), proptest::sample::select(vec!["a", "..", ".", "", "canary", "queues", "streams"]), proptest::sample::select(vec!["", "/", "/..", "\u{0}", ".db", "/.", ".config.json"])).prop_map(|(a, b, c)| format!("{a}{b}{c}")),
        3 => "\\PC{0,6}",
        2 => "[ -~]{0,8}",
    ].boxed()
}
fn name() -> BoxedStrategy<Nm> {
    pick_one(vec![
        (10, odd().prop_map(Nm::T).boxed()),
        (4, "[a-c]{1,2}".prop_map(Nm::T).boxed()),
        (3, (proptest::sample::select(vec!["x", "é", "😀", "a.", "ab"]), prop_oneof![6 => 236u32..262, 1 => 100u32..300, 1 => Just(4096u32), 1 => 65_530u32..65_545], proptest::sample::select(vec!["", "z", ".db", ".config.json"])).prop_map(|(u, n, e)| Nm::Long(u.into(), n, e.into())).boxed()),
    ])
}

pub struct C26;
impl Prop for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "an odd name was accepted and kept something, and at least one name was refused or an absent name deleted";
    const NOTE: &'static str = "every path-changing file call is recorded and confined to a scratch directory by the harness; the server runs as an unprivileged user where possible";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 12_000 } else { 120_000 } }
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 40 } else { 80 };
        let k = || 0usize..8;
        let only = i % 4;
        let q = if only == 1 { 0 } else { 5 };
        let st = if only == 0 { 0 } else { 5 };
        let op = pick_one(vec![
            (q, k().prop_map(Op::QCreate).boxed()), (q, k().prop_map(Op::QPush).boxed()), (q / 3, k().prop_map(Op::QTake).boxed()), (q / 2, k().prop_map(Op::QDelete).boxed()), (q / 3, k().prop_map(Op::QExists).boxed()),
            (st, k().prop_map(Op::SCreate).boxed()), (st, k().prop_map(Op::SPub).boxed()), (st / 2, k().prop_map(Op::SDelete).boxed()), (st / 3, k().prop_map(Op::SExists).boxed()), (st, (k(), k()).prop_map(|(a, b)| Op::SAck(a, b)).boxed()),
            (1, k().prop_map(Op::KSet).boxed()), (1, k().prop_map(Op::KDel).boxed()), (2, k().prop_map(Op::PSet).boxed()), (1, k().prop_map(Op::PClear).boxed()),
            (2, prop_oneof![1u64..200, 200u64..5_000].prop_map(Op::Wait).boxed()), (2, Just(Op::Verify).boxed()), (1, Just(Op::Restart).boxed()),
        ]);
        (proptest::collection::vec(name(), 3..9), proptest::collection::vec(op, 6..n)).prop_map(|(names, ops)| Case { names, ops }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut names: Vec<String> = case.names.iter().map(|n| n.text()).collect();
        names.dedup();
        plant(&root);
        // nothing outside the scratch directory may be in reach, whatever the server does
        unsafe {
            fn own(p: &std::path::Path) {
                let c = std::ffi::CString::new(p.to_string_lossy().as_bytes()).unwrap();
                unsafe { libc::chown(c.as_ptr(), 65534, 65534) };
                for e in std::fs::read_dir(p).into_iter().flatten().flatten() { own(&e.path()); }
            }
            ip::unhooked(|| own(std::path::Path::new(&root)));
            if libc::getuid() == 0 && libc::setresgid(65534, 65534, 65534) == 0 { libc::setgroups(0, std::ptr::null()); libc::setresuid(65534, 65534, 65534); }
        }
        let mut lives: Vec<&[Op]> = case.ops.split(|o| matches!(o, Op::Restart)).collect();
        lives.push(&[]);
        let mut sim = Sim::new();
        let mut m = Model::default();
        let n = lives.len();
        for (life, ops) in lives.into_iter().enumerate() {
            let cx = &mut *cx;
            let (root, names, old) = (root.clone(), &names, std::mem::take(&mut m));
            m = sim.run(async move {
                ip::fs_trace();
                let s = Srv::start(&base_config(&format!("{root}/d"))).await;
                let h = Http::start(&s).await;
                let tree = foreign(&root);
                let mut r = R { s, h, root: root.clone(), m: old, cx, tree };
                if life > 0 { r.m.k.clear(); settle().await; r.files("", "after a restart")?; r.verify("after a restart: ").await?; r.cx.label("restart verified"); }
                for (i, o) in ops.iter().enumerate() {
                    r.step(names, o).await.map_err(|e| format!("life {life}, step {i}: {e}"))?;
                    if let Some(p) = server_panics().first() { return Err(format!("life {life}, step {i}: panic in the server at {}: {}", p.0, p.1)); }
                }
                r.verify("").await?;
                for n in names { for (e, w) in [(r.s.q_exists(n).await?.unwrap_or(false), r.m.q.contains_key(n)), (r.s.s_exists(n).await?.unwrap_or(false), r.m.s.contains_key(n))] { if e != w { return Err(format!("exists of {} answers {e}", show(n))); } } }
                if life + 1 < n { sleep_ms(3_000).await; }
                r.files("", "at the end of a life")?;
                Ok::<Model, String>(r.m)
            })?;
            sim.down(100);
        }
        cx.nontrivial = (cx.has("odd queue name accepted") || cx.has("odd stream name accepted")) && cx.has("message kept") && (cx.has("name refused") || cx.has("delete of an absent name"));
        if let Some(p) = server_panics().first() { return Err(format!("panic in the server at {}: {}", p.0, p.1)); }
        Ok(())
    }
}
