//! C24: frames survive any cutting, pipelining and size. C25: the end of a connection cleans up that client only.
use super::gen::*;
use super::pubsub::matches;
use crate::conn::*;
use crate::eng::*;
use crate::runner::*;
use crate::sim::*;
use crate::wire::{op, W};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const FOREVER: u64 = 36_000_000;

// ---------------------------------------------------------------- C24
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Id { Next, Zero, Max, Same, Any(u32) }
/// How large a payload: bytes, or so many bytes short of the limit.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Size { Of(u32), Short(u32) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rq { Echo(Size), Set(Size), Get(usize), BadOp(u8), OddType(u8, Size), Consume }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Cuts { None, At(Vec<u16>), Every(u8) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum How { Oversize(u32, bool), Half(u16), Close, Reset }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Step {
    Send { k: usize, rq: Vec<(Rq, Id)>, times: u16, cuts: Cuts },
    /// take in at most so many bytes of what has arrived
    Read { k: usize, max: u32, times: u8 },
    Publish { topic: usize, n: u8, size: Size },
    /// a message for each request that waits on connection k
    Feed { k: usize },
    Wait(u64),
    Drain { k: usize },
    End { k: usize, how: How, after: Vec<(Rq, Id)> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { max: u32, chan: u32, conns: Vec<Option<u32>>, steps: Vec<Step> }

struct Cn {
    p: Option<Peer>,
    next: u32,
    /// answers not yet seen
    due: Vec<(u32, Reply)>,
    /// requests waiting for a message: queue, id, answered by
    waits: Vec<(String, u32)>,
    pushes: Vec<(String, Vec<u8>)>,
    /// keys set since all answers were in
    unconf: Vec<(String, Vec<u8>)>,
    seen: u64,
}
impl Cn {
    /// Compare all that has arrived with what is due.
    fn take(&mut self) -> Result<(), String> {
        let Some(p) = self.p.as_mut() else { return Ok(()) };
        if let Some(e) = p.bad() { return Err(format!("the server sent an invalid frame: {e}")); }
        for f in p.frames.drain(..) {
            self.seen += 1;
            match f {
                Frame::Push(t, d) => {
                    if self.pushes.is_empty() { return Err(format!("a push nobody published: {t:?} {}", short(&d))); }
                    let (et, ed) = self.pushes.remove(0);
                    if (&et, &ed) != (&t, &d) { return Err(format!("push {t:?} {} arrived where {et:?} {} was due", short(&d), short(&ed))); }
                }
                Frame::Resp(id, r) => {
                    let same = |x: &Reply| match (x, &r) { (Reply::Err(_), Reply::Err(_)) => true, (a, b) => a == b };
                    match self.due.iter().position(|(i, x)| *i == id && same(x)) {
                        Some(i) => { self.due.swap_remove(i); }
                        None => return Err(format!("response to request {id}: {}; no such answer is due ({} are{})", brief(&r), self.due.len(), self.due.iter().find(|d| d.0 == id).map_or(String::new(), |d| format!(", for this id {}", brief(&d.1))))),
                    }
                }
                Frame::Bad(e) => return Err(e),
            }
        }
        Ok(())
    }
}
fn brief(r: &Reply) -> String { match r { Reply::Data(d) => format!("data {}", short(d)), r => { let s = format!("{r:?}"); s.chars().take(120).collect() } } }

struct R24<'a> { s: Srv, l: Listener, max: usize, cn: Vec<Cn>, sets: Vec<(String, Vec<u8>)>, never: Vec<String>, maybe: Vec<(String, Vec<u8>)>, tail: Vec<(String, Vec<u8>)>, n: u32, cx: &'a mut Cx }
impl R24<'_> {
    fn bytes(&mut self, z: &Size, min: usize) -> Vec<u8> {
        self.n += 1;
        let n = match z { Size::Of(n) => (*n as usize).min(self.max), Size::Short(n) if self.max > 5_000_000 => 3 * *n as usize, Size::Short(n) => self.max.saturating_sub(*n as usize) };
        if n == self.max { self.cx.label("frame of exactly the largest size"); }
        Pay::Run(self.n, (n.max(min) - min) as u32).bytes()
    }
    /// Encode requests, noting the answers due. `fate`: they arrive for sure.
    fn build(&mut self, k: usize, rq: &[(Rq, Id)], sure: bool) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for (r, id) in rq {
            if out.iter().map(Vec::len).sum::<usize>() > 6_000_000 { break; }
            let c = &mut self.cn[k];
            c.next += 1;
            let id = match id { Id::Next => c.next + 1000, Id::Zero => 0, Id::Max => u32::MAX, Id::Same => 77, Id::Any(n) => *n };
            let key = format!("k{}", self.n + 1);
            let (ty, o, p, reply) = match r {
                Rq::Echo(z) => { let b = self.bytes(z, 0); (1, op::ECHO, b.clone(), Some(Reply::Data(b))) }
                Rq::Set(z) => {
                    let h = W::new().s(&key).s("{}");
                    let b = self.bytes(z, h.0.len());
                    if h.0.len() + b.len() > self.max { continue; }
                    if sure { self.cn[k].unconf.push((key, b.clone())); } else { self.tail.push((key, b.clone())); }
                    (1, op::SET, h.raw(&b).0, Some(Reply::Ok))
                }
                Rq::Get(i) => {
                    if self.sets.is_empty() { continue; }
                    let (key, v) = self.sets[i % self.sets.len()].clone();
                    (1, op::GET, W::new().s(&key).0, Some(Reply::Data(v)))
                }
                Rq::BadOp(b) => { let z = self.bytes(&Size::Of(9), 0); (1, 0x40 | b, z, Some(Reply::Err(String::new()))) }
                Rq::OddType(t, z) => {
                    let h = W::new().s(&key).s("{}");
                    let b = self.bytes(z, h.0.len());
                    if h.0.len() + b.len() > self.max { continue; }
                    self.never.push(key);
                    self.cx.label("frame that is no request");
                    (*t, op::SET, h.raw(&b).0, Some(Reply::Err(String::new())))
                }
                Rq::Consume => {
                    self.n += 1;
                    let q = format!("w{}", self.n % 8 + 8 * k as u32);
                    if self.cn[k].waits.iter().any(|w| w.0 == q) { continue; }
                    let p = Srv::q_consume_payload(&q, Some(1), Some(FOREVER));
                    if p.len() > self.max { continue; }
                    if sure { self.cn[k].waits.push((q, id)); }
                    self.cx.label("request left waiting");
                    (1, op::Q_CONSUME, p, None)
                }
            };
            if let (Some(r), true) = (reply, sure) { self.cn[k].due.push((id, r)); }
            out.push(frame(ty, o, id, &p));
        }
        out
    }
    async fn drain(&mut self, k: usize) -> Result<(), String> {
        let c = &mut self.cn[k];
        if c.p.is_none() { return Ok(()); }
        loop {
            let (due, pu) = (c.due.len(), c.pushes.len());
            let p = c.p.as_mut().unwrap();
            p.until(2_000, |p| p.frames.len() >= (due + pu).clamp(1, 64) || due + pu == 0).await;
            let p = c.p.as_mut().unwrap();
            let (eof, none, left) = (p.eof.clone(), p.frames.is_empty(), (p.unsent(), p.partial()));
            c.take()?;
            if c.due.is_empty() && c.pushes.is_empty() {
                settle_io().await;
                let p = c.p.as_mut().unwrap();
                p.read(usize::MAX);
                c.take()?;
                self.sets.append(&mut c.unconf);
                if c.p.as_ref().unwrap().partial() > 0 { return Err("part of a frame nobody is due".into()); }
                return Ok(());
            }
            if let Some(e) = eof { return Err(format!("the connection ended ({e}) with {} answers and {} pushes due", c.due.len(), c.pushes.len())); }
            if none { return Err(format!("{} answers and {} pushes are missing; first: {:?} ({} bytes unsent, {} bytes of an incomplete frame)", c.due.len(), c.pushes.len(), c.due.first().map(|d| (d.0, brief(&d.1))), left.0, left.1)); }
        }
    }
    async fn end(&mut self, k: usize, how: &How, after: &[(Rq, Id)]) -> Result<(), String> {
        if self.cn[k].p.is_none() { return Ok(()); }
        let n = self.l.open.load(std::sync::atomic::Ordering::SeqCst);
        let never = self.n;
        let tail = self.build(k, after, false);
        let lost = std::mem::take(&mut self.tail);
        match how {
            How::Oversize(over, filler) => {
                // none of what follows the frame may be done
                self.never.extend(lost.iter().map(|l| l.0.clone()));
                let len = (self.max as u64 + 1 + *over as u64).min(u32::MAX as u64) as u32;
                let body = W::new().s(&format!("over{never}")).s("{}").0;
                self.never.push(format!("over{never}"));
                let mut h = vec![1, op::SET];
                h.extend(9u32.to_be_bytes());
                h.extend(len.to_be_bytes());
                if *filler { h.extend(&body); h.extend(vec![0u8; (len as usize).saturating_sub(body.len()).min(200_000)]); }
                let c = &mut self.cn[k];
                let p = c.p.as_mut().unwrap();
                p.write(&h);
                for t in tail { p.write(&t); }
                self.cx.label("frame over the limit");
                // answers due may still come first
                p.until(5_000, |p| p.eof.is_some()).await;
                if p.eof.is_none() { return Err(format!("a frame of {len} bytes (limit {}) did not end the connection", self.max)); }
                c.take()?;
            }
            How::Half(at) => {
                let p = self.cn[k].p.as_mut().unwrap();
                let all: Vec<u8> = match tail.first() { Some(t) => t.clone(), None => frame(1, op::SET, 5, &W::new().s(&format!("half{never}")).s("{}").raw(b"x").0) };
                let n = 1 + *at as usize * (all.len() - 1) / 65536;
                self.never.push(format!("half{never}"));
                self.never.extend(lost.iter().map(|l| l.0.clone()));
                p.write(&all[..n.min(all.len() - 1)]);
                self.cx.label("cut off inside a frame");
            }
            How::Close | How::Reset => {
                let c = &mut self.cn[k];
                let p = c.p.as_mut().unwrap();
                p.flush();
                p.read(usize::MAX);
                c.take()?;
                for t in tail { c.p.as_mut().unwrap().write(&t); }
                settle_io().await;
                self.maybe.extend(lost);
            }
        }
        let c = &mut self.cn[k];
        // requests not answered may be undone, the others not
        let open = c.due.iter().filter(|d| d.1 == Reply::Ok).count();
        let mut absent = 0;
        for (key, v) in std::mem::take(&mut c.unconf) {
            match self.s.get(&key).await?? { Some(x) if x == v => self.sets.push((key, v)), None => { absent += 1; self.maybe.push((key, v)); } Some(x) => return Err(format!("key {key} holds {}, sent was {}", short(&x), short(&v))) }
        }
        if absent > open { return Err(format!("{absent} values are not there, {open} were not confirmed")); }
        let c = &mut self.cn[k];
        let p = c.p.take().unwrap();
        if matches!(how, How::Reset) { p.reset(); } else { drop(p); }
        c.due.clear();
        c.pushes.clear();
        c.waits.clear();
        let open = self.l.open.clone();
        if !wait_for(60_000, || open.load(std::sync::atomic::Ordering::SeqCst) < n).await { return Err(format!("a minute after connection {k} ended its session is still open")); }
        settle().await;
        Ok(())
    }
    async fn step(&mut self, st: &Step) -> Result<(), String> {
        let nc = self.cn.len();
        match st {
            Step::Send { k, rq, times, cuts } => {
                let k = k % nc;
                if self.cn[k].p.is_none() { return Ok(()); }
                let mut all = vec![];
                let mut count = 0;
                for _ in 0..(*times).max(1) {
                    for f in self.build(k, rq, true) { all.extend(f); count += 1; }
                    if all.len() > 1_000_000 { break; }
                }
                if count > 1 { self.cx.label("pipelined batch"); }
                if count > 500 { self.cx.label("over 500 requests in flight"); }
                let mut at: Vec<usize> = match cuts {
                    Cuts::None => vec![],
                    Cuts::At(v) => v.iter().map(|x| *x as usize * all.len() / 65536).collect(),
                    Cuts::Every(n) => (1..300).map(|i| i * (*n).max(1) as usize).take_while(|x| *x < all.len()).collect(),
                };
                at.sort();
                at.dedup();
                at.retain(|x| *x > 0 && *x < all.len());
                at.push(all.len());
                if at.len() > 1 { self.cx.add("cut in the byte stream", at.len() as u64 - 1); }
                let mut from = 0;
                for x in at {
                    let p = self.cn[k].p.as_mut().unwrap();
                    p.write(&all[from..x]);
                    from = x;
                    if from < all.len() { tokio::task::spawn_blocking(|| ()).await.ok(); for _ in 0..8 { tokio::task::yield_now().await; } }
                }
            }
            Step::Read { k, max, times } => {
                let c = &mut self.cn[k % nc];
                for _ in 0..*times {
                    let Some(p) = c.p.as_mut() else { break };
                    p.flush();
                    p.read(*max as usize);
                    if p.partial() > 0 { self.cx.label("read ended inside a frame"); }
                    c.take()?;
                    settle_io().await;
                }
            }
            Step::Publish { topic, n, size } => {
                let t = ["t/0", "t/1", "u"][topic % 3];
                for _ in 0..*n {
                    let b = self.bytes(size, 0);
                    self.s.publish("pub", t, None, None, &b).await??;
                    for (k, c) in self.cn.iter_mut().enumerate() {
                        if c.p.is_some() && matches(if k == 0 { "t/#" } else if k == 1 { "u" } else { "+/1" }, t) { c.pushes.push((t.to_string(), b.clone())); self.cx.label("push"); }
                    }
                }
            }
            Step::Feed { k } => {
                let k = k % nc;
                if self.cn[k].p.is_none() { return Ok(()); }
                // the requests must have arrived
                if self.cn[k].p.as_ref().unwrap().unsent() > 0 || !self.cn[k].due.is_empty() { self.drain(k).await?; }
                settle_io().await;
                let ws = std::mem::take(&mut self.cn[k].waits);
                for (q, id) in ws {
                    self.n += 1;
                    let b = format!("for {id} {}", self.n).into_bytes();
                    self.s.q_push(&q, None, &b).await??;
                    let p = self.cn[k].p.as_mut().unwrap();
                    p.until(2_000, |p| p.frames.iter().any(|f| matches!(f, Frame::Resp(i, Reply::Data(d)) if *i == id && d.ends_with(&b)))).await;
                    let Some(i) = p.frames.iter().position(|f| matches!(f, Frame::Resp(i, Reply::Data(d)) if *i == id && d.ends_with(&b))) else {
                        return Err(format!("the request waiting on {q:?} with id {id} did not get the message pushed (connection {:?})", p.eof));
                    };
                    let Some(Frame::Resp(_, Reply::Data(d))) = p.frames.remove(i) else { unreachable!() };
                    let ms = parse_msgs(&d)?;
                    if ms.len() != 1 || ms[0].payload != b { return Err(format!("the request waiting on {q:?} got {ms:?}")); }
                    self.s.q_ack(&q, ms[0].id).await??;
                    self.cn[k].take()?;
                    self.cx.label("waiting request answered");
                }
            }
            Step::Wait(ms) => sleep_ms(*ms).await,
            Step::Drain { k } => {
                let k = k % nc;
                if self.cn.iter().enumerate().any(|(i, c)| i != k && c.p.is_some() && !c.due.is_empty()) { self.cx.label("served while another connection stalls"); }
                self.drain(k).await?;
            }
            Step::End { k, how, after } => self.end(k % nc, how, after).await?,
        }
        Ok(())
    }
}

fn size(big: bool) -> BoxedStrategy<Size> {
    prop_oneof![6 => (0u32..40).prop_map(Size::Of), 3 => (40u32..3000).prop_map(Size::Of), 2 => (0u32..4).prop_map(Size::Short), 1 => (4u32..200).prop_map(Size::Short), 1 => if big { (20_000u32..400_000).prop_map(Size::Of).boxed() } else { Just(Size::Of(0)).boxed() }].boxed()
}
fn rq(big: bool) -> BoxedStrategy<(Rq, Id)> {
    let id = prop_oneof![12 => Just(Id::Next), 1 => Just(Id::Zero), 1 => Just(Id::Max), 2 => Just(Id::Same), 1 => any::<u32>().prop_map(Id::Any)];
    (prop_oneof![8 => size(big).prop_map(Rq::Echo), 5 => size(big).prop_map(Rq::Set), 2 => (0usize..9).prop_map(Rq::Get), 1 => (0u8..0x40).prop_map(Rq::BadOp), 1 => (prop_oneof![Just(0u8), Just(2), Just(3), any::<u8>().prop_filter("", |t| *t != 1)], size(false)).prop_map(|(t, z)| Rq::OddType(t, z)), 1 => Just(Rq::Consume)], id).boxed()
}
fn step24(big: bool, many: bool) -> BoxedStrategy<Step> {
    let cuts = prop_oneof![2 => Just(Cuts::None), 4 => proptest::collection::vec(any::<u16>(), 1..8).prop_map(Cuts::At), 2 => (1u8..30).prop_map(Cuts::Every)];
    let times = prop_oneof![12 => Just(1u16), 3 => 2u16..20, if many { 6 } else { 0 } => 200u16..2000];
    let how = prop_oneof![3 => (prop_oneof![4 => Just(0u32), 2 => Just(u32::MAX), 1 => 1u32..1000, 1 => any::<u32>()], any::<bool>()).prop_map(|(a, b)| How::Oversize(a, b)), 3 => any::<u16>().prop_map(How::Half), 1 => Just(How::Close), 1 => Just(How::Reset)];
    prop_oneof![
        12 => (0usize..3, proptest::collection::vec(rq(big), 1..8), times, cuts).prop_map(|(k, rq, times, cuts)| Step::Send { k, rq, times, cuts }),
        5 => (0usize..3, prop_oneof![1u32..12, 12u32..400, 400u32..70_000], 1u8..8).prop_map(|(k, max, times)| Step::Read { k, max, times }),
        5 => (0usize..3, prop_oneof![4 => 1u8..5, 1 => 5u8..60], size(big)).prop_map(|(topic, n, size)| Step::Publish { topic, n, size }),
        2 => (0usize..3).prop_map(|k| Step::Feed { k }),
        1 => prop_oneof![1u64..100, 100u64..5_000].prop_map(Step::Wait),
        6 => (0usize..3).prop_map(|k| Step::Drain { k }),
        1 => (0usize..3, how, proptest::collection::vec(rq(false), 0..4)).prop_map(|(k, how, after)| Step::End { k, how, after }),
    ].boxed()
}

pub struct C24;
impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "requests were pipelined and the byte stream was cut, a response was read in pieces or another connection stalled, and at least 10 frames came back";
    const NOTE: &'static str = "real loopback connections; frames of up to the largest size (64 bytes to 10 MB), thousands in flight, small socket buffers and channel capacities";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 4_500 } else { 60_000 } }
    fn strategy(t: Tier, i: u64) -> BoxedStrategy<Case> {
        let n = if t == Tier::Quick { 25 } else { 50 };
        let (max, chan): (BoxedStrategy<u32>, u32) = match i % 4 {
            0 if i % 64 == 0 => ((1_000_000u32..3_000_000).boxed(), 1024),
            0 => (Just(10 * 1024 * 1024).boxed(), 1024),
            1 => ((64u32..400).boxed(), 1),
            2 => ((400u32..20_000).boxed(), 2),
            _ => ((64u32..20_000).boxed(), 8),
        };
        let buf = if i % 64 == 0 { Just(None).boxed() } else { prop_oneof![2 => Just(None), 1 => Just(Some(65_536u32)), 2 => Just(Some(16_384u32))].boxed() };
        (max, proptest::collection::vec(buf, 1..4), proptest::collection::vec(step24(i % 8 == 0, i % 16 == 3), 3..n)).prop_map(move |(max, conns, steps)| Case { max, chan, conns, steps }).boxed()
    }
    fn env(c: &Case) -> Vec<(String, String)> { vec![("MAX_PAYLOAD_SIZE".into(), c.max.to_string()), ("CHANNEL_CAPACITY_SOCKET_WRITE".into(), c.chan.to_string())] }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let root = cx.root.clone();
        let mut sim = Sim::new();
        sim.run(async {
            let s = Srv::start(&base_config(&root)).await;
            let l = Listener::start(&s).await?;
            let mut r = R24 { s: s.clone(), l, max: case.max as usize, cn: vec![], sets: vec![], never: vec![], maybe: vec![], tail: vec![], n: 0, cx };
            for (k, b) in case.conns.iter().enumerate() {
                let mut p = r.l.connect(b.map(|b| b as usize)).await?;
                let pat = if k == 0 { "t/#" } else if k == 1 { "u" } else { "+/1" };
                if p.call(1, op::SUB, &W::new().s(pat).0, 5_000).await? != Reply::Ok { return Err("SUB refused".into()); }
                p.patient = true;
                r.cn.push(Cn { p: Some(p), next: 0, due: vec![], waits: vec![], pushes: vec![], unconf: vec![], seen: 0 });
            }
            for k in 0..8 * case.conns.len() { s.q_create(&format!("w{k}"), &QOpts::default()).await??; }
            for (i, st) in case.steps.iter().enumerate() {
                r.step(st).await.map_err(|e| format!("step {i}: {e}"))?;
                if let Some(p) = server_panics().first() { return Err(format!("step {i}: panic in the server at {}: {}", p.0, p.1)); }
            }
            for k in 0..r.cn.len() { r.drain(k).await.map_err(|e| format!("at the end, connection {k}: {e}"))?; }
            for (k, v) in &r.sets { if s.get(k).await?? != Some(v.clone()) { return Err(format!("key {k}: confirmed value {} is not there", short(v))); } }
            for (k, v) in &r.maybe { match s.get(k).await?? { None => {} Some(x) if x == *v => {} Some(x) => return Err(format!("key {k} holds {}, sent was {}", short(&x), short(v))) } }
            for k in &r.never { if let Some(x) = s.get(k).await?? { return Err(format!("key {k} holds {}: a frame was executed that must not be", short(&x))); } }
            let seen: u64 = r.cn.iter().map(|c| c.seen).sum();
            r.cx.add("frames received", seen);
            let cx = &mut *r.cx;
            cx.nontrivial = cx.has("pipelined batch") && cx.has("cut in the byte stream") && (cx.has("read ended inside a frame") || cx.has("served while another connection stalls")) && seen >= 10;
            Ok::<(), String>(())
        })?;
        if let Some(p) = server_panics().first() { return Err(format!("panic in the server at {}: {}", p.0, p.1)); }
        Ok(())
    }
}
