//! C01: the store against a map with expiry, under a virtual clock.
use super::gen::*;
use crate::eng::*;
use crate::runner::*;
use crate::sim::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op { Set(usize, Pay, Option<u64>), Get(usize), Del(usize), Wait(u64), Jump(u64), GetAll }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { keys: Vec<String>, default_ttl: u64, cleanup: u64, ops: Vec<Op> }
pub struct C01;

fn ttl() -> BoxedStrategy<Option<u64>> {
    prop_oneof![3 => Just(None), 1 => Just(Some(0)), 6 => (1u64..6).prop_map(Some), 2 => (6u64..200).prop_map(Some), 1 => (200u64..1_000_000_000).prop_map(Some),
        1 => any::<u64>().prop_map(Some), 1 => Just(Some(u64::MAX))].boxed()
}
fn op(n: usize) -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (0..n, pay_big(), ttl()).prop_map(|(k, p, t)| Op::Set(k, p, t)),
        6 => (0..n).prop_map(Op::Get),
        2 => (0..n).prop_map(Op::Del),
        3 => prop_oneof![1u64..400, 400u64..3000, Just(999u64), Just(1000), Just(1001)].prop_map(Op::Wait),
        1 => prop_oneof![500u64..10_000, 10_000u64..4_000_000].prop_map(Op::Jump),
        2 => Just(Op::GetAll),
    ].boxed()
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "a key was read back present at least once, and at least once after its expiry or its deletion or an overwrite";
    fn cases(t: Tier) -> u64 { if t == Tier::Quick { 6000 } else { 200_000 } }
    fn strategy(_t: Tier, i: u64) -> BoxedStrategy<Case> {
        let key = prop_oneof![2 => ident(), 2 => text(), 1 => "[ab]{1,3}".prop_map(String::from), 1 => Just("k".repeat(5000))];
        let len = if i % 4 == 0 { 250usize } else { 80 };
        (proptest::collection::hash_set(key, 1..6), 1u64..8, 1u64..8).prop_flat_map(move |(keys, default_ttl, cleanup)| {
            let keys: Vec<String> = { let mut v: Vec<_> = keys.into_iter().collect(); v.sort(); v };
            let n = keys.len();
            (Just(keys), Just(default_ttl), Just(cleanup), proptest::collection::vec(op(n), 1..len))
        }).prop_map(|(keys, default_ttl, cleanup, ops)| Case { keys, default_ttl, cleanup, ops }).boxed()
    }
    fn run(case: &Case, cx: &mut Cx) -> Result<(), String> {
        let mut cfg = base_config(&cx.root);
        cfg.store.default_ttl_secs = case.default_ttl;
        cfg.store.cleanup_interval_secs = case.cleanup;
        Sim::new().run(async {
            let s = Srv::start(&cfg).await;
            // value, expiry time in ns (u128 so that no ttl overflows)
            let mut m: HashMap<usize, (Vec<u8>, u128)> = HashMap::new();
            let mut gone: HashMap<usize, &'static str> = HashMap::new();
            let ns = || crate::interpose::vt_now() as u128;
            let mut present = false;
            for (i, o) in case.ops.iter().enumerate() {
                let mut reads = vec![];
                match o {
                    Op::Set(k, p, t) => {
                        let v = p.bytes();
                        let secs = match t { None | Some(0) => case.default_ttl, Some(x) => *x };
                        let t0 = ns();
                        match s.set(&case.keys[*k], &v, *t).await? {
                            Ok(()) => { if m.insert(*k, (v, t0 + secs as u128 * 1_000_000_000)).is_some() { gone.insert(*k, "overwrite"); } }
                            Err(e) if secs > 1_000_000_000 => { cx.label("ttl-rejected"); let _ = e; }
                            Err(e) => return Err(format!("op {i}: SET {:?} ttl {t:?} was refused: {e}", case.keys[*k])),
                        }
                        cx.label("set");
                    }
                    Op::Get(k) => reads.push(*k),
                    Op::GetAll => reads.extend(0..case.keys.len()),
                    Op::Del(k) => {
                        s.del(&case.keys[*k]).await?.map_err(|e| format!("op {i}: DEL refused: {e}"))?;
                        if m.remove(k).is_some() { gone.insert(*k, "delete"); }
                    }
                    Op::Wait(ms) => sleep_ms(*ms).await,
                    Op::Jump(ms) => { jump_ms(*ms).await; cx.label("jump"); }
                }
                for k in reads {
                    let t0 = ns();
                    let got = s.get(&case.keys[k]).await?.map_err(|e| format!("op {i}: GET refused: {e}"))?;
                    let key = case.keys[k].chars().take(20).collect::<String>();
                    let exp = m.get(&k);
                    let edge = exp.is_some_and(|e| t0.abs_diff(e.1) <= 2_000_000);
                    let live = exp.filter(|e| e.1 > t0);
                    if edge { cx.label("read-at-expiry-edge"); if got.is_none() || got.as_ref() == exp.map(|e| &e.0) { continue; } }
                    match (&got, live) {
                        (Some(g), Some((v, _))) if g == v => { present = true; cx.label("hit"); if gone.get(&k) == Some(&"overwrite") { cx.nontrivial = true; cx.label("hit-after-overwrite"); } }
                        (None, None) => {
                            if exp.is_some() { cx.label("miss-expired"); } else { cx.label("miss-absent"); }
                            if present && (exp.is_some() || gone.contains_key(&k)) { cx.nontrivial = true; }
                        }
                        (g, l) => return Err(format!("op {i}: GET {key:?} at {} ms returned {}, expected {} (last set expires at {:?} ms)", t0 / 1_000_000,
                            g.as_ref().map(|b| short(b)).unwrap_or("nothing".into()), l.map(|x| short(&x.0)).unwrap_or("nothing".into()), exp.map(|e| e.1 / 1_000_000))),
                    }
                }
            }
            Ok(())
        })
    }
}
