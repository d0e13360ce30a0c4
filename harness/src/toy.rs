//! kmsh on a key type of its own, plugged into the generic extended keys: an instance of
//! KMS where the material that a key type refuses is common (ToyKey.tla).
mod keys {
    use kms::bip32::{Error, ExtendedPrivateKey, ExtendedPublicKey, PrivateKey as Sk, PublicKey as Pk, Result};
    pub type XPrv = ExtendedPrivateKey<SecretKey>;
    pub type XPub = ExtendedPublicKey<PublicKey>;

    /// the first byte of a scalar is below this
    const TOP: u16 = 150;
    fn fine(k: &[u8; 32]) -> bool { (k[0] as u16) < TOP && k.iter().map(|x| *x as u32).sum::<u32>() % 15 != 0 }
    /// the sum modulo TOP * 2^248, if it is a key
    fn add(a: &[u8; 32], t: &[u8; 32]) -> Result<[u8; 32]> {
        if !fine(t) { return Err(Error::Crypto) }
        let (mut r, mut c) = ([0u8; 32], 0u16);
        for i in (0..32).rev() {
            let mut s = a[i] as u16 + t[i] as u16 + c;
            if i == 0 { s %= TOP; c = 0 } else { c = s >> 8 }
            r[i] = s as u8;
        }
        if fine(&r) { Ok(r) } else { Err(Error::Crypto) }
    }

    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct SecretKey([u8; 32]);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct PublicKey([u8; 33]);
    impl SecretKey {
        pub fn parse(b: &[u8; 32]) -> Result<Self> { if fine(b) { Ok(SecretKey(*b)) } else { Err(Error::Crypto) } }
        pub fn serialize(&self) -> [u8; 32] { self.0 }
    }
    impl PublicKey {
        fn of(k: &[u8; 32]) -> Self { let mut b = [2u8; 33]; b[1..].copy_from_slice(k); PublicKey(b) }
        fn inner(&self) -> [u8; 32] { let mut k = [0u8; 32]; k.copy_from_slice(&self.0[1..]); k }
        pub fn parse_compressed(b: &[u8; 33]) -> Result<Self> { let p = PublicKey(*b); if b[0] == 2 && fine(&p.inner()) { Ok(p) } else { Err(Error::Crypto) } }
        pub fn serialize_compressed(&self) -> [u8; 33] { self.0 }
    }
    pub fn order_pub(xs: Vec<XPub>) -> crate::json::V { crate::ops::order(&xs, |x, y| x.cmp(y)) }
    impl Sk for SecretKey {
        type PublicKey = PublicKey;
        fn from_bytes(b: &[u8; 32]) -> Result<Self> { SecretKey::parse(b) }
        fn to_bytes(&self) -> [u8; 32] { self.0 }
        fn derive_child(&self, t: [u8; 32]) -> Result<Self> { add(&self.0, &t).map(SecretKey) }
        fn public_key(&self) -> PublicKey { PublicKey::of(&self.0) }
    }
    impl Pk for PublicKey {
        fn from_bytes(b: [u8; 33]) -> Result<Self> { PublicKey::parse_compressed(&b) }
        fn to_bytes(&self) -> [u8; 33] { self.0 }
        fn derive_child(&self, t: [u8; 32]) -> Result<Self> { add(&self.inner(), &t).map(|k| PublicKey::of(&k)) }
    }
    impl From<&XPrv> for SecretKey { fn from(x: &XPrv) -> Self { x.private_key().clone() } }
    impl From<XPrv> for SecretKey { fn from(x: XPrv) -> Self { x.private_key().clone() } }
    impl From<&XPub> for PublicKey { fn from(x: &XPub) -> Self { *x.public_key() } }
    impl From<XPub> for PublicKey { fn from(x: XPub) -> Self { *x.public_key() } }
}
mod alloc_watch;
mod host;
mod json;
mod ops;
#[path = "rng.rs"]
mod rng;
mod run;
mod wipe;
#[global_allocator]
static WATCH: alloc_watch::Watch = alloc_watch::Watch;
fn main() { run::main() }
