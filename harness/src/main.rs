//! kmsh on the keys the crate comes with.
mod keys { pub use kms::bip32::{XPrv, XPub}; pub use libsecp256k1::{PublicKey, SecretKey};
    /// these points are not ordered
    pub fn order_pub(_: Vec<XPub>) -> crate::json::V { crate::ops::skip() } }
mod alloc_watch;
mod host;
mod json;
mod ops;
mod rng;
mod run;
mod wipe;
#[global_allocator]
static WATCH: alloc_watch::Watch = alloc_watch::Watch;
fn main() { run::main() }
