//! Lifecycle of objects holding secrets: make, clone, drop, unwind, hand over; what the
//! allocator saw in their buffers when these were released.
use crate::alloc_watch as aw;
use crate::json::{b, obj, st, t, V};
use crate::ops::{self, err, ok, skip};
use kms::bip32::ExtendedKey;
use kms::bip39::{Mnemonic, Seed};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zeroize::Zeroizing;

enum W { Seed(Box<Seed>), Mn(Box<Mnemonic>), Ek(Box<ExtendedKey>), Text(Box<Zeroizing<String>>), Gone(Box<String>) }
pub struct Wipe { objs: BTreeMap<i64, W>, used: bool }

fn tickets(w: &W) -> Vec<(&'static str, usize)> {
    let reg = |s: &[u8]| aw::watch(s.as_ptr(), s.len());
    match w {
        W::Seed(s) => vec![("seed", reg(s.as_bytes()))],
        W::Mn(m) => vec![("phrase", reg(m.phrase().as_bytes())), ("entropy", reg(m.entropy()))],
        W::Ek(k) => vec![("key", reg(&k.key_bytes))],
        W::Text(x) => vec![("text", reg(x.as_bytes()))],
        W::Gone(_) => vec![],
    }
}
fn read(w: &W) -> V {
    match w {
        W::Seed(s) => V::Arr(vec![b(s.as_bytes())]),
        W::Mn(m) => V::Arr(vec![t(m.phrase()), b(m.entropy())]),
        W::Ek(k) => V::Arr(vec![b(&k.key_bytes)]),
        W::Text(x) => V::Arr(vec![t(x.as_str())]),
        W::Gone(s) => V::Arr(vec![t(s.as_str())]),
    }
}
fn dup(w: &W) -> W {
    match w {
        W::Seed(s) => W::Seed(s.clone()), W::Mn(m) => W::Mn(m.clone()), W::Ek(k) => W::Ek(k.clone()),
        W::Text(x) => W::Text(x.clone()), W::Gone(s) => W::Gone(s.clone()),
    }
}
struct Bag(#[allow(dead_code)] Vec<W>);
unsafe impl Send for Bag {}
impl Wipe {
    pub fn new() -> Self { Wipe { objs: BTreeMap::new(), used: false } }
    fn make(&self, l: &V) -> Option<W> {
        Some(match l.at("kind").s() {
            "seed" => W::Seed(Box::new(ops::seed_lit(l)?)),
            "mn" => W::Mn(Box::new(ops::mn_lit(l)?)),
            "ek" => W::Ek(Box::new(ops::ek_lit(ops::std_prefix(l.at("std").int()).ok()?, l))),
            "ekprv" => W::Ek(Box::new(ops::prv_lit(l)?.to_extended_key(ops::std_prefix(l.at("std").int()).ok()?))),
            "ektext" => W::Ek(Box::new(ops::prv_lit(l)?.to_string(ops::std_prefix(l.at("std").int()).ok()?).parse().ok()?)),
            "text" => W::Text(Box::new(ops::prv_lit(l)?.to_string(ops::std_prefix(l.at("std").int()).ok()?))),
            k => panic!("harness: wipe kind {}", k),
        })
    }
    pub fn step(&mut self, op: &str, e: &V, extra: &mut Vec<(&str, V)>) -> V {
        if !self.used { aw::reset(); self.used = true }
        let h = e.at("h").int();
        let res = match op {
            "w.make" => match catch_unwind(AssertUnwindSafe(|| self.make(e.at("lit")))) {
                Ok(Some(w)) => { let c = read(&w); let tk = tickets(&w); self.objs.insert(h, w); ok(obj(vec![("content", c), ("tickets", tl(&tk))])) }
                Ok(None) => skip(),
                Err(_) => ops::panicked(),
            },
            "w.clone" => match self.objs.get(&h) {
                Some(w) => { let d = dup(w); let c = read(&d); let tk = tickets(&d); self.objs.insert(e.at("out").int(), d); ok(obj(vec![("content", c), ("tickets", tl(&tk))])) }
                None => skip(),
            },
            "w.drop" => match self.objs.remove(&h) { Some(w) => { drop(w); ok(st("unit")) } None => skip() },
            "w.dropthread" => match self.objs.remove(&h) { Some(w) => { let g = Bag(vec![w]); std::thread::spawn(move || { let g = g; drop(g) }).join().unwrap(); ok(st("unit")) } None => skip() },
            "w.unwind" => {
                let mut all = vec![];
                for x in e.at("hs").arr() { if let Some(w) = self.objs.remove(&x.int()) { all.push(w) } }
                let r = catch_unwind(AssertUnwindSafe(move || { let _keep = Bag(all); std::panic::panic_any(7u8) }));
                if r.is_err() { ok(st("unit")) } else { err("none") }
            }
            "w.into" => match self.objs.remove(&h) {
                Some(W::Mn(m)) => {
                    let ptr = m.phrase().as_ptr();
                    let tp = aw::watch(ptr, m.phrase().len());
                    // a buffer inside the object itself is moved by this harness, not by the library
                    let here = &*m as *const Mnemonic as usize;
                    let inside = |q: *const u8| (q as usize) >= here && (q as usize) < here + std::mem::size_of::<Mnemonic>();
                    let te = aw::watch(m.entropy().as_ptr(), m.entropy().len());
                    if inside(ptr) { aw::forget(tp) }
                    if inside(m.entropy().as_ptr()) { aw::forget(te) }
                    let s = if e.at("via").s() == "into" { (*m).into_phrase() } else { String::from(*m) };
                    if s.as_ptr() == ptr { aw::forget(tp) }
                    let c = t(&s);
                    self.objs.insert(h, W::Gone(Box::new(s)));
                    ok(c)
                }
                Some(w) => { self.objs.insert(h, w); skip() }
                None => skip(),
            },
            _ => panic!("harness: {}", op),
        };
        extra.push(("alive", V::Arr(self.objs.iter().map(|(k, w)| obj(vec![("h", V::Int(*k)), ("content", read(w))])).collect())));
        extra.push(("mem", V::Arr((0..aw::used()).map(|i| st(aw::state(i))).collect())));
        res
    }
}
impl Drop for Wipe { fn drop(&mut self) { if self.used { self.objs.clear(); aw::reset() } } }
fn tl(t: &[(&'static str, usize)]) -> V { V::Arr(t.iter().map(|(n, i)| obj(vec![("name", st(n)), ("t", V::Int(*i as i64 + 1))])).collect()) }
