pub mod gen;
mod c01;
mod pubsub;
pub use c01::C01;
pub use pubsub::{C03, C05, C06};
mod queue;
pub use queue::{C07, C08, C09, C10, C11};
pub mod stream;
pub use stream::{C14, C15, C16, C17, C20, C22};
mod scrash;
pub use scrash::{C18, C19};
mod fuzz;
pub use fuzz::C23;
mod net;
pub use net::C24;
mod gone;
pub use gone::C25;
mod dash;
pub use dash::C27;
mod names;
pub use names::C26;
mod life;
pub use life::C13;
#[cfg(sched)]
mod pstore;
#[cfg(sched)]
pub use pstore::C02;
#[cfg(sched)]
mod ppub;
#[cfg(sched)]
pub use ppub::C04;
#[cfg(sched)]
mod pqueue;
#[cfg(sched)]
pub use pqueue::C12;
#[cfg(sched)]
mod pstream;
#[cfg(sched)]
pub use pstream::C21;
#[cfg(sched)]
mod plife;
#[cfg(sched)]
pub use plife::C28;
