//! Searches for inputs whose results have rare shapes (several zero or 0xff bytes at an end). The output is
//! tools/rare.json, which the generators read; what a result must be is decided by the specification only.
use hmac::{Hmac, Mac}; use libsecp256k1::{Message, PublicKey, SecretKey}; use ripemd::Ripemd160; use sha2::{Digest, Sha256, Sha512};
use std::sync::atomic::{AtomicBool, Ordering}; use std::sync::Mutex;
fn rnd(tag: &str, t: u64, i: u64, n: usize) -> Vec<u8> { let mut o = vec![]; let mut j = 0u64; while o.len() < n { let mut h = Sha512::new(); h.update(tag); h.update(t.to_be_bytes()); h.update(i.to_be_bytes()); h.update(j.to_be_bytes()); o.extend(h.finalize()); j += 1 } o.truncate(n); o }
fn hm(k: &[u8], d: &[&[u8]]) -> Vec<u8> { let mut m = Hmac::<Sha512>::new_from_slice(k).unwrap(); for x in d { m.update(x) } m.finalize().into_bytes().to_vec() }
fn sha(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
type Shape = (&'static str, usize, bool, u8);
const S2: [Shape; 4] = [("z2-", 2, true, 0), ("-z2", 2, false, 0), ("f2-", 2, true, 255), ("-f2", 2, false, 255)];
const Z3: [Shape; 2] = [("z3-", 3, true, 0), ("-z3", 3, false, 0)];
const S1: [Shape; 4] = [("z1-", 1, true, 0), ("-z1", 1, false, 0), ("f1-", 1, true, 255), ("-f1", 1, false, 255)];
fn is(s: &Shape, b: &[u8]) -> bool { let w = if s.2 { &b[..s.1] } else { &b[b.len() - s.1..] }; w.iter().all(|x| *x == s.3) }
fn j(b: &[u8]) -> String { format!("{:?}", b).replace(' ', "") }
/// first input (by thread) that gives a result of that shape
fn find<T: Send>(shape: &Shape, make: impl Fn(u64, u64) -> (T, Vec<u8>) + Sync) -> T {
    let done = AtomicBool::new(false); let out = Mutex::new(None);
    std::thread::scope(|sc| for t in 0..8u64 { let (done, out, make) = (&done, &out, &make); sc.spawn(move || { let mut i = 0; while !done.load(Ordering::Relaxed) { let (x, r) = make(t, i); if is(shape, &r) { done.store(true, Ordering::Relaxed); *out.lock().unwrap() = Some(x); } i += 1 } }); });
    let r = out.lock().unwrap().take().unwrap(); r
}
fn key(tag: &str, t: u64, i: u64) -> SecretKey { SecretKey::parse_slice(&rnd(tag, t, i, 32)).unwrap() }
fn pb(k: &SecretKey) -> Vec<u8> { PublicKey::from_secret_key(k).serialize_compressed().to_vec() }
fn main() {
    let mut out: Vec<String> = vec![];
    let mut put = |s: String| { println!("{s}"); out.push(s) };
    // children
    for (what, at) in [("il", 0), ("ir", 1), ("k", 2)] { for hard in [false, true] { for s in S2.iter().chain(&Z3) {
        let (k, c, cn) = find(s, |t, i| {
            let tag = format!("ch{what}{hard}{}", s.0); let k = key(&tag, t, 0); let c = rnd(&tag, t, 1, 32); let n = (i as u32 & 0x7fffffff) | if hard { 1 << 31 } else { 0 };
            let pre = if hard { let mut p = vec![0]; p.extend(k.serialize()); p } else { thread_pub(&k) };
            let h = hm(&c, &[&pre, &n.to_be_bytes()]);
            let r = match at { 0 => h[..32].to_vec(), 1 => h[32..].to_vec(), _ => { let mut q = k.clone(); q.tweak_add_assign(&SecretKey::parse_slice(&h[..32]).unwrap()).unwrap(); q.serialize().to_vec() } };
            ((k, c, n), r)
        });
        put(format!("{{\"t\":\"child\",\"why\":\"{what}{}\",\"key\":{},\"chain\":{},\"cn\":{}}}", s.0, j(&k.serialize()), j(&c), j(&cn.to_be_bytes())));
    } } }
    // public children
    for s in &S2 { let (k, c, cn) = find(s, |t, i| {
        let tag = format!("pc{}", s.0); let k = key(&tag, t, 0); let c = rnd(&tag, t, 1, 32); let n = i as u32;
        let h = hm(&c, &[&thread_pub(&k), &n.to_be_bytes()]); let mut q = k.clone(); q.tweak_add_assign(&SecretKey::parse_slice(&h[..32]).unwrap()).unwrap();
        ((k, c, n), pb(&q)[1..].to_vec()) });
        put(format!("{{\"t\":\"child\",\"why\":\"x{}\",\"key\":{},\"chain\":{},\"cn\":{}}}", s.0, j(&k.serialize()), j(&c), j(&cn.to_be_bytes()))); }
    // keys whose point or fingerprint has a shape
    for s in &S2 {
        let k = find(s, |t, i| { let k = key(&format!("x{}", s.0), t, i); let p = pb(&k)[1..].to_vec(); (k, p) });
        put(format!("{{\"t\":\"key\",\"why\":\"x{}\",\"key\":{}}}", s.0, j(&k.serialize())));
        let k = find(s, |t, i| { let k = key(&format!("fp{}", s.0), t, i); let f = Ripemd160::digest(&sha(&pb(&k)))[..4].to_vec(); (k, f) });
        put(format!("{{\"t\":\"key\",\"why\":\"fp{}\",\"key\":{}}}", s.0, j(&k.serialize())));
    }
    // masters
    for n in [16, 32, 64, 128] { for (what, half) in [("il", 0), ("ir", 32)] { for s in S2.iter().chain(&Z3) {
        let x = find(s, |t, i| { let x = rnd(&format!("m{n}{what}{}", s.0), t, i, n); let h = hm(b"Bitcoin seed", &[&x]); (x, h[half..half + 32].to_vec()) });
        put(format!("{{\"t\":\"master\",\"why\":\"{what}{}\",\"seed\":{}}}", s.0, j(&x)));
    } } }
    // seeds
    for (lang, l) in [("en", kms::bip39::Language::English), ("zh", kms::bip39::Language::ChineseSimplified)] { for s in &S2[..2] {
        let (e, p) = find(s, |t, i| { let e = rnd(&format!("s{lang}{}", s.0), t, 0, 16); let m = kms::bip39::Mnemonic::from_entropy(&e, l).unwrap(); let p = i.to_string(); let d = kms::bip39::Seed::new(&m, &p).as_bytes().to_vec(); ((e, p), d) });
        put(format!("{{\"t\":\"seed\",\"why\":\"{}\",\"lang\":\"{lang}\",\"ent\":{},\"pass\":{}}}", s.0, j(&e), j(p.as_bytes())));
    } }
    // signatures
    for s in S1.iter().chain(&S2) { for (what, at) in [("r", 0), ("s", 32)] {
        if what == "s" && s.2 && s.3 == 255 { continue }
        let (k, m) = find(s, |t, i| { let k = key(&format!("sg{what}{}", s.0), t, 0); let m = rnd(&format!("sm{what}{}", s.0), t, i, 32); let g = libsecp256k1::sign(&Message::parse_slice(&m).unwrap(), &k).0.serialize(); ((k, m), g[at..at + 32].to_vec()) });
        put(format!("{{\"t\":\"sign\",\"why\":\"{what}{}\",\"key\":{},\"msg\":{}}}", s.0, j(&k.serialize()), j(&m)));
    } }
    // digests
    for s in S1.iter().chain(&S2).chain(&Z3) { for n in [3usize, 32, 65] {
        let x = find(s, |t, i| { let mut x = rnd(&format!("r{n}{}", s.0), t, i, n); if n == 3 { x = vec![t as u8]; x.extend(&i.to_be_bytes()[4..]) } let d = Ripemd160::digest(&x).to_vec(); (x, d) });
        put(format!("{{\"t\":\"ripemd\",\"why\":\"{}\",\"msg\":{}}}", s.0, j(&x)));
    } }
    // checksums of exported keys
    for (ver, prv) in [(0x0488ade4u32, true), (0x0488b21e, false), (0x04b2430c, true), (0x04b24746, false)] { for s in S2.iter().chain(&Z3) {
        let (k, c) = find(s, |t, i| { let tag = format!("ck{ver}{}", s.0); let k = key(&tag, t, 0); let c = rnd(&tag, t, i, 32);
            let mut p = ver.to_be_bytes().to_vec(); p.push(7); p.extend([1, 2, 3, 4, 128, 0, 0, 5]); p.extend(&c); if prv { p.push(0); p.extend(k.serialize()) } else { p.extend(thread_pub(&k)) }
            ((k, c), sha(&sha(&p))[..4].to_vec()) });
        put(format!("{{\"t\":\"text\",\"why\":\"{}\",\"ver\":{ver},\"depth\":7,\"fp\":[1,2,3,4],\"cn\":[128,0,0,5],\"chain\":{},\"key\":{}}}", s.0, j(&c), if prv { j(&k.serialize()) } else { j(&pb(&k)) }));
    } }
}
thread_local! { static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>> = const { std::cell::RefCell::new(None) }; }
fn thread_pub(k: &SecretKey) -> Vec<u8> { LAST.with(|l| { let mut l = l.borrow_mut(); let b = k.serialize().to_vec(); if l.as_ref().map_or(true, |x| x.0 != b) { *l = Some((b, pb(k))) } l.as_ref().unwrap().1.clone() }) }
