//! Shared generators.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Payload bytes kept small in case files: literal bytes, or a run of `len` bytes derived from a tag.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Pay { B(Vec<u8>), Run(u32, u32) }
impl Pay {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Pay::B(v) => v.clone(),
            Pay::Run(tag, len) => { let mut s = *tag as u64 + 1; let mut v = Vec::with_capacity(*len as usize + 8); while v.len() < *len as usize { v.extend(crate::interpose::splitmix(&mut s).to_le_bytes()); } v.truncate(*len as usize); v }
        }
    }
}
pub fn pay() -> impl Strategy<Value = Pay> {
    prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..24).prop_map(Pay::B),
        1 => Just(Pay::B(vec![])),
        2 => (any::<u32>(), 24u32..2000).prop_map(|(t, n)| Pay::Run(t, n)),
    ]
}
pub fn pay_big() -> impl Strategy<Value = Pay> {
    prop_oneof![8 => pay(), 1 => (any::<u32>(), 2000u32..300_000).prop_map(|(t, n)| Pay::Run(t, n))]
}
/// Plain identifiers.
pub fn ident() -> impl Strategy<Value = String> { "[a-zA-Z0-9_-]{1,12}" }
/// Any printable text including other scripts.
pub fn text() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[ -~]{0,16}", 1 => "\\PC{0,10}", 1 => Just(String::new())]
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("{} bytes {:?}..", b.len(), String::from_utf8_lossy(&b[..16])) }
}

/// Weighted choice; weight 0 leaves an alternative out.
pub fn pick_one<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}
