#![allow(dead_code)]
mod conn;
mod eng;
mod http;
use nexo_rt::interpose;
mod props;
mod runner;
#[cfg(sched)]
use nexo_rt::sched;
#[cfg(sched)]
mod par;
mod sim;
mod wire;

use runner::{check, read_to_value, replay, Tier};

enum Act<'a> { Check(Tier, u64), Replay(&'a serde_json::Value), Gen(Tier, u64, u64) }
fn act<P: runner::Prop>(a: &Act) -> i32 {
    match a { Act::Check(t, s) => check::<P>(*t, *s), Act::Replay(v) => replay::<P>(v), Act::Gen(t, s, i) => runner::show::<P>(*t, *s, *i) }
}
macro_rules! table {
    ($id:expr, $a:expr; $($t:ident),* $(,)?) => {
        match $id { $(x if x == <props::$t as runner::Prop>::ID => act::<props::$t>($a),)* x => { eprintln!("no check for {x}"); 2 } }
    };
}
#[cfg(sched)]
fn dispatch(id: &str, a: &Act) -> i32 { table!(id, a; C02, C04, C12, C21, C28) }
#[cfg(not(sched))]
fn dispatch(id: &str, a: &Act) -> i32 { table!(id, a; C01, C03, C05, C06, C07, C08, C09, C10, C11, C13, C14, C15, C16, C17, C18, C19, C20, C22, C23, C24, C25, C26, C27) }

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() { Some("thorough") => Tier::Thorough, _ => Tier::Quick };
            let id = a[2].as_str();
            dispatch(id, &Act::Check(tier, seed))
        }
        Some("replay") => {
            let v = read_to_value(&a[2]);
            let id = v["property"].as_str().unwrap_or("").to_string();
            let id = id.as_str();
            dispatch(id, &Act::Replay(&v))
        }
        Some("gen") => dispatch(a[2].as_str(), &Act::Gen(Tier::Quick, a[3].parse().unwrap(), a[4].parse().unwrap())),
        _ => { eprintln!("usage: nexo-pbt check ID [quick|thorough] | replay FILE"); 2 }
    };
    std::process::exit(code);
}
