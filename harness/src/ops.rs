//! One function per operation of the script vocabulary.
use crate::json::{b, obj, st, t, V};
use crate::keys::{self as secp, XPrv, XPub};
use kms::bip32::{ChildNumber, DerivationPath, ExtendedKey, ExtendedKeyAttrs, Prefix, PrivateKey, PublicKey};
use kms::bip39::{ErrorKind, Language, Mnemonic, MnemonicType, Seed};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::cmp::Ordering;
use subtle::ConstantTimeEq;

#[derive(Clone)]
pub enum Obj { Mn(Mnemonic), Seed(Seed), Prv(XPrv), Pub(XPub), Ek(ExtendedKey) }

pub fn ok(v: V) -> V { obj(vec![("tag", st("ok")), ("val", v)]) }
pub fn err(k: &str) -> V { obj(vec![("tag", st("err")), ("kind", st(k))]) }
pub fn panicked() -> V { obj(vec![("tag", st("panic"))]) }
pub fn skip() -> V { obj(vec![("tag", st("skip"))]) }
pub fn guard<F: FnOnce() -> V>(f: F) -> V { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| panicked()) }
fn errt(k: &str, text: &str) -> V { obj(vec![("tag", st("err")), ("kind", st(k)), ("text", st(text))]) }
fn b32err(e: kms::bip32::Error) -> V { errt(&format!("{:?}", e), &e.to_string()) }
fn b39err(e: &anyhow::Error) -> (String, u64) {
    match e.downcast_ref::<ErrorKind>() {
        Some(ErrorKind::InvalidChecksum) => ("InvalidChecksum".into(), 0),
        Some(ErrorKind::InvalidWord) => ("InvalidWord".into(), 0),
        Some(ErrorKind::InvalidKeysize(n)) => ("InvalidKeysize".into(), *n as u64),
        Some(ErrorKind::InvalidWordLength(n)) => ("InvalidWordLength".into(), *n as u64),
        Some(ErrorKind::InvalidEntropyLength(n, _)) => ("InvalidEntropyLength".into(), *n as u64),
        None => ("other".into(), 0),
    }
}
fn arr<const N: usize>(v: &V) -> [u8; N] { v.bytes().try_into().expect("harness: array length") }
fn lang(v: &V) -> Language { match v.s() { "en" => Language::English, "zh" => Language::ChineseSimplified, x => panic!("harness: lang {}", x) } }
fn lang_name(l: Language) -> &'static str { match l { Language::English => "en", Language::ChineseSimplified => "zh", #[allow(unreachable_patterns)] _ => "other" } }
fn cn(v: &V) -> ChildNumber { ChildNumber(u32::from_be_bytes(arr(v))) }
fn cnv(c: ChildNumber) -> V { b(&c.0.to_be_bytes()) }
/// the registered prefixes: eight constants of the library, the others by their version
const STD8: [Prefix; 8] = [Prefix::TPRV, Prefix::TPUB, Prefix::XPRV, Prefix::XPUB, Prefix::YPRV, Prefix::YPUB, Prefix::ZPRV, Prefix::ZPUB];
const SLIP132: [u32; 12] = [0x044a4e28, 0x044a5262, 0x045f18bc, 0x045f1cf6, 0x0295b005, 0x0295b43f, 0x02aa7a99, 0x02aa7ed3, 0x024285b5, 0x024289ef, 0x02575048, 0x02575483];
pub fn std_prefix(i: i64) -> kms::bip32::Result<Prefix> { if i < 8 { Ok(STD8[i as usize]) } else { Prefix::try_from(SLIP132[i as usize - 8]) } }
fn path_val(p: &DerivationPath) -> V { V::Arr(p.as_ref().iter().map(|c| cnv(*c)).collect()) }

fn p_mn(m: &Mnemonic) -> V { obj(vec![("kind", st("mn")), ("lang", st(lang_name(m.language()))), ("phrase", t(m.phrase())), ("ent", b(m.entropy()))]) }
fn p_seed(s: &Seed) -> V { obj(vec![("kind", st("seed")), ("bytes", b(s.as_bytes()))]) }
fn p_attrs(kind: &str, key: V, a: &ExtendedKeyAttrs) -> V {
    obj(vec![("kind", st(kind)), ("key", key), ("chain", b(&a.chain_code)), ("depth", V::Int(a.depth as i64)), ("fp", b(&a.parent_fingerprint)), ("cn", cnv(a.child_number))])
}
pub fn p_prv(x: &XPrv) -> V { p_attrs("prv", b(&x.private_key().serialize()), x.attrs()) }
pub fn p_pub(x: &XPub) -> V { p_attrs("pub", b(&x.public_key().serialize_compressed()), x.attrs()) }
fn p_ek(e: &ExtendedKey) -> V {
    let mut v = p_attrs("ek", b(&e.key_bytes), &e.attrs);
    if let V::Obj(o) = &mut v { o.push(("ver".into(), b(&e.prefix.version().to_be_bytes()))); o.push(("chars".into(), t(e.prefix.as_str()))); }
    v
}
fn proj(o: &Obj) -> V { match o { Obj::Mn(m) => p_mn(m), Obj::Seed(s) => p_seed(s), Obj::Prv(x) => p_prv(x), Obj::Pub(x) => p_pub(x), Obj::Ek(e) => p_ek(e) } }

fn attrs(l: &V) -> ExtendedKeyAttrs {
    ExtendedKeyAttrs { depth: l.at("depth").int() as u8, parent_fingerprint: arr(l.at("fp")), child_number: cn(l.at("cn")), chain_code: arr(l.at("chain")) }
}
pub fn ek_lit(prefix: Prefix, l: &V) -> ExtendedKey { ExtendedKey { prefix, attrs: attrs(l), key_bytes: arr(l.at("key")) } }
pub fn prv_lit(l: &V) -> Option<XPrv> {
    let mut k = [0u8; 33];
    k[1..].copy_from_slice(&l.at("key").bytes());
    ExtendedKey { prefix: Prefix::XPRV, attrs: attrs(l), key_bytes: k }.try_into().ok()
}
fn pub_lit(l: &V) -> Option<XPub> { ExtendedKey { prefix: Prefix::XPUB, attrs: attrs(l), key_bytes: arr(l.at("key")) }.try_into().ok() }
pub fn mn_lit(l: &V) -> Option<Mnemonic> {
    match l.get("text") { Some(x) => Mnemonic::from_phrase(&x.text(), lang(l.at("lang"))).ok(), None => Mnemonic::from_entropy(&l.at("ent").bytes(), lang(l.at("lang"))).ok() }
}
pub fn seed_lit(l: &V) -> Option<Seed> { mn_lit(l.at("mn")).map(|m| Seed::new(&m, &l.at("pass").text())) }
fn lit(l: &V) -> Option<Obj> {
    catch_unwind(AssertUnwindSafe(|| match l.at("kind").s() {
        "mn" => mn_lit(l).map(Obj::Mn),
        "seed" => seed_lit(l).map(Obj::Seed),
        "prv" => prv_lit(l).map(Obj::Prv),
        "pub" => pub_lit(l).map(Obj::Pub),
        "ek" => std_prefix(l.at("std").int()).ok().map(|p| Obj::Ek(ek_lit(p, l))),
        k => panic!("harness: literal {}", k),
    })).ok().flatten()
}

fn r32<T>(r: kms::bip32::Result<T>, f: impl Fn(&T) -> V) -> V { match r { Ok(x) => ok(f(&x)), Err(e) => b32err(e) } }
fn make_path(p: &V, mk: &str) -> Option<DerivationPath> {
    let cns: Vec<ChildNumber> = p.arr().iter().map(cn).collect();
    let mut d = DerivationPath::default();
    match mk {
        "push" => cns.iter().for_each(|c| d.push(*c)),
        "extend" => d.extend(cns.iter().copied()),
        "parse" => {
            let mut s = String::from("m");
            for c in &cns { s += &format!("/{}{}", c.0 & 0x7fff_ffff, if c.0 >> 31 == 1 { "'" } else { "" }) }
            return s.parse().ok();
        }
        m => panic!("harness: mk {}", m),
    }
    Some(d)
}

pub struct World { store: HashMap<i64, Rc<Obj>>, paths: BTreeMap<i64, DerivationPath>, pub wipe: crate::wipe::Wipe }
impl World {
    pub fn new() -> Self { World { store: HashMap::new(), paths: BTreeMap::new(), wipe: crate::wipe::Wipe::new() } }
    fn fetch(&self, r: &V) -> Option<Rc<Obj>> {
        match r.get("h") { Some(h) => self.store.get(&h.int()).cloned(), None => lit(r.at("lit")).map(Rc::new) }
    }
    pub fn step(&mut self, e: &V) -> V {
        let mut o: Vec<(String, V)> = vec![];
        // script fields other than object references are copied into the log
        if let V::Obj(f) = e { for (k, v) in f { if !["self", "a", "b"].contains(&k.as_str()) { o.push((k.clone(), v.clone())) } } }
        let op = e.at("op").s().to_string();
        let mut objs: Vec<Rc<Obj>> = vec![];
        for k in ["self", "a", "b"] {
            if let Some(r) = e.get(k) {
                let got = self.fetch(r).and_then(|x| { let p = guard(|| proj(&x)); if p.get("tag").is_some() { None } else { Some((x, p)) } });
                match got {
                    Some((x, p)) => { objs.push(x); o.push((k.into(), p)); o.push((format!("{}h", k), V::Int(r.get("h").map(|h| h.int()).unwrap_or(0)))) }
                    None => { o.push(("res".into(), skip())); return V::Obj(o) }
                }
            }
        }
        let mut made: Option<Obj> = None;
        let mut extra: Vec<(&str, V)> = vec![];
        let res = if op == "hammer" { hammer(e) } else if op.starts_with("w.") { self.wipe.step(&op, e, &mut extra) } else if op.starts_with("p.") {
            let r = path_step(&mut self.paths, &op, e);
            extra.push(("all", V::Arr(self.paths.iter().map(|(h, p)| obj(vec![("h", V::Int(*h)), ("path", path_val(p))])).collect())));
            r
        } else {
            guard(|| run(&op, e, &objs, &mut made, &mut extra))
        };
        for (k, x) in ["self", "a", "b"].iter().filter(|k| e.get(k).is_some()).zip(objs.iter()) {
            o.push((format!("{}2", k), guard(|| proj(x))));
        }
        o.push(("res".into(), res));
        for (k, v) in extra { o.push((k.to_string(), v)) }
        if let (Some(h), Some(m)) = (e.get("out"), made) { self.store.insert(h.int(), Rc::new(m)); }
        V::Obj(o)
    }
}

/// many rounds of a few calls on many threads: for every call, all the answers it got
fn hammer(e: &V) -> V {
    let (calls, threads, n) = (e.at("calls").arr(), e.at("threads").int() as usize, e.at("n").int() as usize);
    let calls: Vec<String> = calls.iter().map(|c| { let mut s = String::new(); c.write(&mut s); s }).collect();
    let start = std::sync::Barrier::new(threads);
    let seen: Vec<Vec<std::collections::BTreeSet<String>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|t| { let (calls, start) = (&calls, &start); sc.spawn(move || {
            let calls: Vec<V> = calls.iter().map(|c| crate::json::parse(c)).collect();
            let mut got = vec![std::collections::BTreeSet::new(); calls.len()];
            start.wait();
            for k in 0..n { for j in 0..calls.len() {
                let i = (if t % 2 == 0 { j } else { calls.len() - 1 - j } + t + k) % calls.len();
                let mut s = String::new();
                World::new().step(&calls[i]).write(&mut s);
                // answers are compared by a digest (FNV)
                let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                if got[i].len() < 4 { got[i].insert(format!("{:016x}", h)); }
            } }
            got
        }) }).collect();
        hs.into_iter().map(|h| h.join().expect("harness: hammer")).collect()
    });
    ok(V::Arr((0..calls.len()).map(|i| { let all: std::collections::BTreeSet<&String> = seen.iter().flat_map(|s| s[i].iter()).collect(); V::Arr(all.into_iter().map(|h| st(h)).collect()) }).collect()))
}

/// an iterator that says nothing true about its length
struct Liar<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Liar<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.1 } }

/// derivation paths as objects that are built and changed step by step
fn path_step(paths: &mut BTreeMap<i64, DerivationPath>, op: &str, e: &V) -> V {
    let h = e.get("h").map(|h| h.int()).unwrap_or(0);
    let out = e.get("out").map(|h| h.int()).unwrap_or(0);
    // a path that an earlier call failed to make
    let gone = |k: &str| e.get(k).map_or(false, |h| !paths.contains_key(&h.int()));
    if gone("h") || gone("from") || gone("g") { return skip() }
    guard(move || match op {
        "p.new" => { paths.insert(out, DerivationPath::default()); ok(st("unit")) }
        "p.parse" => { let r = e.at("text").text().parse::<DerivationPath>(); let v = r32(r.as_ref().map_err(|x| *x), |p| path_val(p)); if let Ok(p) = r { paths.insert(out, p); } v }
        "p.push" => { paths.get_mut(&h).expect("harness: path").push(cn(e.at("cn"))); ok(st("unit")) }
        "p.extend" => {
            let cns: Vec<ChildNumber> = e.at("cns").arr().iter().map(cn).collect();
            let n = cns.len();
            let other = e.get("from").map(|g| paths[&g.int()].clone());
            let p = paths.get_mut(&h).expect("harness: path");
            match e.at("via").s() {
                "vec" => p.extend(cns),
                "slice" => p.extend(cns.iter().copied()),
                "chain" => p.extend(cns[..n / 2].iter().copied().chain(cns[n / 2..].iter().copied())),
                "few" => p.extend(Liar(cns.into_iter(), (0, Some(0)))),
                "none" => p.extend(Liar(cns.into_iter(), (0, None))),
                "many" => p.extend(Liar(cns.into_iter(), (n + 3, Some(n + 9)))),
                "one" => for c in cns { p.extend(Some(c)) },
                "path" => p.extend(other.expect("harness: from")),
                v => panic!("harness: via {}", v),
            }
            ok(st("unit"))
        }
        "p.clone" => { let p = paths[&h].clone(); paths.insert(out, p); ok(st("unit")) }
        "p.clonefrom" => { let q = paths[&e.at("from").int()].clone(); paths.get_mut(&h).expect("harness: path").clone_from(&q); ok(st("unit")) }
        "p.parent" => match paths[&h].parent() { Some(p) => { paths.insert(out, p); ok(V::Bool(true)) } None => ok(V::Bool(false)) },
        "p.into" => { let p = paths.remove(&h).expect("harness: path"); let back: Vec<V> = p.clone().into_iter().rev().map(cnv).collect(); ok(obj(vec![("fwd", V::Arr(p.into_iter().map(cnv).collect())), ("back", V::Arr(back))])) }
        "p.drop" => { paths.remove(&h); ok(st("unit")) }
        "p.view" => {
            let p = &paths[&h];
            ok(obj(vec![("text", t(&p.to_string())), ("len", V::Int(p.len() as i64)), ("empty", V::Bool(p.is_empty())), ("iter", V::Arr(p.iter().map(cnv).collect())), ("again", V::Arr(p.iter().map(cnv).collect())),
                ("fresh", V::Bool(p.is_empty() == (*p == DerivationPath::default()))),
                ("nth", V::Arr((0..4).map(|i| V::Arr(p.iter().nth(i).map(cnv).into_iter().collect())).collect())),
                ("back", r32(p.to_string().parse::<DerivationPath>(), path_val))]))
        }
        "p.eq" => { let (p, q) = (&paths[&h], &paths[&e.at("g").int()]); ok(obj(vec![("eq", V::Bool(p == q)), ("rev", V::Bool(q == p)), ("ne", V::Bool(p != q))])) }
        "p.derive" => {
            let (p, s) = (&paths[&h], e.at("seed").bytes());
            ok(obj(vec![("new", r32(XPrv::new_from_path(&s, p), p_prv)), ("from", r32(XPrv::new(&s).and_then(|x| x.derive_from_path(p)), p_prv))]))
        }
        _ => panic!("harness: unknown op {}", op),
    })
}
fn ordn(o: Ordering) -> V { V::Int(match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }) }
/// everything comparing can say about some values
pub fn order<T: Ord + Clone>(xs: &[T], cmp: impl Fn(&T, &T) -> Ordering) -> V {
    let cell = |x: &T, y: &T| obj(vec![("eq", V::Bool(x == y)), ("ne", V::Bool(x != y)), ("lt", V::Bool(x < y)), ("le", V::Bool(x <= y)), ("gt", V::Bool(x > y)), ("ge", V::Bool(x >= y)),
        ("partial", x.partial_cmp(y).map(ordn).unwrap_or(V::Int(9)))]);
    let mut s: Vec<(T, i64)> = xs.iter().cloned().zip(1..).collect();
    s.sort_by(|a, b| cmp(&a.0, &b.0));
    ok(obj(vec![("cmp", V::Arr(xs.iter().map(|x| V::Arr(xs.iter().map(|y| ordn(cmp(x, y))).collect())).collect())),
        ("ops", V::Arr(xs.iter().map(|x| V::Arr(xs.iter().map(|y| cell(x, y)).collect())).collect())),
        ("sorted", V::Arr(s.iter().map(|p| V::Int(p.1)).collect()))]))
}

fn mtype_of(e: &V) -> MnemonicType {
    match e.at("words").int() { 12 => MnemonicType::Words12, 15 => MnemonicType::Words15, 18 => MnemonicType::Words18, 21 => MnemonicType::Words21, 24 => MnemonicType::Words24, _ => panic!("harness: words") }
}
fn anyres<T>(r: Result<T, anyhow::Error>, extra: &mut Vec<(&str, V)>, f: impl FnOnce(T) -> V) -> V {
    match r { Ok(x) => ok(f(x)), Err(e) => { let (k, n) = b39err(&e); extra.push(("num", b(&n.to_be_bytes()))); errt(&k, &e.to_string()) } }
}

fn run(op: &str, e: &V, objs: &[Rc<Obj>], made: &mut Option<Obj>, extra: &mut Vec<(&str, V)>) -> V {
    let mn = || match &*objs[0] { Obj::Mn(m) => m, _ => panic!("harness: not a mnemonic") };
    match op {
        // ------------------------------------------------------------ BIP39
        "mn.entropy" => anyres(Mnemonic::from_entropy(&e.at("ent").bytes(), lang(e.at("lang"))), extra, |m| { let p = p_mn(&m); *made = Some(Obj::Mn(m)); p }),
        "mn.phrase" => anyres(Mnemonic::from_phrase(&e.at("text").text(), lang(e.at("lang"))), extra, |m| { let p = p_mn(&m); *made = Some(Obj::Mn(m)); p }),
        "mn.validate" => anyres(Mnemonic::validate(&e.at("text").text(), lang(e.at("lang"))), extra, |_| st("unit")),
        "mn.new" => {
            let m = Mnemonic::new(mtype_of(e), lang(e.at("lang")));
            let p = p_mn(&m);
            extra.push(("back", guard(|| match Mnemonic::from_phrase(m.phrase(), lang(e.at("lang"))) { Ok(x) => ok(p_mn(&x)), Err(_) => err("refused") })));
            extra.push(("again", guard(|| match Mnemonic::from_entropy(m.entropy(), lang(e.at("lang"))) { Ok(x) => ok(p_mn(&x)), Err(_) => err("refused") })));
            *made = Some(Obj::Mn(m));
            ok(p)
        }
        "mn.draw" => {                                  // with the system's randomness scripted
            let s = e.at("src");
            crate::rng::set(Some(crate::rng::Source { script: s.at("script").bytes(), portion: s.at("portion").int() as usize, eintr: s.at("eintr").int() as usize,
                fail_after: match s.at("fail").int() { -1 => None, n => Some(n as usize) }, ..Default::default() }));
            let r = catch_unwind(AssertUnwindSafe(|| Mnemonic::new(mtype_of(e), lang(e.at("lang")))));
            extra.push(("drawn", V::Int(crate::rng::set(None).map(|s| s.drawn).unwrap_or(0) as i64)));
            match r { Err(_) => panicked(), Ok(m) => { let p = p_mn(&m); *made = Some(Obj::Mn(m)); ok(p) } }
        }
        "mn.render" => {
            let m = mn();
            let s: &str = m.as_ref();
            ok(obj(vec![("lx", t(&format!("{:x}", m))), ("ux", t(&format!("{:X}", m))), ("alx", t(&format!("{:#x}", m))), ("aux", t(&format!("{:#X}", m))),
                ("display", t(&format!("{}", m))), ("tostring", t(&m.to_string())), ("asref", t(s)), ("into", t(&m.clone().into_phrase())), ("string", t(&String::from(m.clone()))), ("dbg", t(&format!("{:?}", m))), ("pdbg", t(&format!("{:#?}", m))), ("bytes", b(&m.as_bytes()))]))
        }
        "mn.clone" => { let m = mn().clone(); let p = p_mn(&m); *made = Some(Obj::Mn(m)); ok(p) }
        "seed.new" => { let s = Seed::new(mn(), &e.at("pass").text()); let p = p_seed(&s); *made = Some(Obj::Seed(s)); ok(p) }
        "seed.render" => {
            let s = match &*objs[0] { Obj::Seed(s) => s, _ => panic!("harness") };
            ok(obj(vec![("lx", t(&format!("{:x}", s))), ("ux", t(&format!("{:X}", s))), ("alx", t(&format!("{:#x}", s))), ("aux", t(&format!("{:#X}", s))), ("dbg", t(&format!("{:?}", s))), ("pdbg", t(&format!("{:#?}", s))),
                ("asref", b(s.as_ref()))]))
        }
        "mtype" => {
            let r = match e.at("via").s() {
                "words" => MnemonicType::for_word_count(u64::from_be_bytes(arr(e.at("n"))) as usize),
                "bits" => MnemonicType::for_key_size(u64::from_be_bytes(arr(e.at("n"))) as usize),
                "phrase" => MnemonicType::for_phrase(&e.at("text").text()),
                "default" => Ok(MnemonicType::default()),
                _ => {
                    let x = match e.at("words").int() { 12 => MnemonicType::Words12, 15 => MnemonicType::Words15, 18 => MnemonicType::Words18, 21 => MnemonicType::Words21, _ => MnemonicType::Words24 };
                    Ok(x)
                }
            };
            anyres(r, extra, |m| obj(vec![("words", V::Int(m.word_count() as i64)), ("ent", V::Int(m.entropy_bits() as i64)), ("cs", V::Int(m.checksum_bits() as i64)), ("total", V::Int(m.total_bits() as i64)), ("show", t(&m.to_string()))]))
        }
        "lang.word" => ok(t(lang(e.at("lang")).wordlist().get_word((e.at("i").int() as u16).into()))),
        "lang.index" => match lang(e.at("lang")).wordmap().get_bits(&e.at("text").text()) { Ok(x) => ok(V::Int(u16::from(x) as i64)), Err(x) => { let e = anyhow::Error::from(x); errt(&b39err(&e).0, &e.to_string()) } },
        "lang.prefix" => ok(V::Arr(lang(e.at("lang")).wordlist().get_words_by_prefix(&e.at("text").text()).iter().map(|w| t(w)).collect())),
        "lang.code" => ok(st(Language::from_language_code(&e.at("text").text()).map(lang_name).unwrap_or("none"))),
        "lang.default" => ok(st(lang_name(Language::default()))),
        "lang.detect" => ok(st(Language::from_phrase(&e.at("text").text()).map(lang_name).unwrap_or("none"))),
        // ------------------------------------------------------------ BIP32
        "len" => {                                      // an input of zeros, of a length no other event could hold
            let z = vec![0u8; u64::from_be_bytes(arr(e.at("len"))) as usize];
            match e.at("what").s() {
                "mn" => anyres(Mnemonic::from_entropy(&z, lang(e.at("lang"))), extra, |_| st("mn")),
                "seed" => r32(XPrv::new(&z[..]), |_| st("prv")),
                _ => match kms::ecdsa_sign(&libsecp256k1::SecretKey::parse(&[1; 32]).expect("harness"), &z) { Ok(_) => ok(st("sig")), Err(x) => errt(match x { kms::error::Error::Secp256k1Error(_) => "Secp256k1" }, &x.to_string()) },
            }
        }
        "prv.new" => {
            let r = match objs.first().map(|x| &**x) { Some(Obj::Seed(s)) => XPrv::new(s), _ => XPrv::new(e.at("seed").bytes()) };
            let v = r32(r.as_ref().map_err(|x| *x).map(|x| x), |x| p_prv(x));
            if let Ok(x) = r { *made = Some(Obj::Prv(x)) }
            v
        }
        "ckd" => match &*objs[0] {
            Obj::Prv(x) => { let r = x.derive_child(cn(e.at("cn"))); let v = r32(r.as_ref().map_err(|x| *x), |x| p_prv(x)); if let Ok(c) = r { *made = Some(Obj::Prv(c)) } v }
            Obj::Pub(x) => { let r = x.derive_child(cn(e.at("cn"))); let v = r32(r.as_ref().map_err(|x| *x), |x| p_pub(x)); if let Ok(c) = r { *made = Some(Obj::Pub(c)) } v }
            _ => panic!("harness"),
        },
        "neuter" => match &*objs[0] {
            Obj::Prv(x) => { let p = x.public_key(); let v = p_pub(&p); extra.push(("via", guard(|| ok(p_pub(&XPub::from(x)))))); *made = Some(Obj::Pub(p)); ok(v) }
            _ => panic!("harness"),
        },
        "clone" => {
            let mut c = objs.last().expect("harness").as_ref().clone();
            if objs.len() > 1 { match (&mut c, &*objs[0]) {             // cloned into an object that held something else
                (Obj::Mn(x), Obj::Mn(y)) => x.clone_from(y),
                (Obj::Seed(x), Obj::Seed(y)) => x.clone_from(y),
                (Obj::Prv(x), Obj::Prv(y)) => x.clone_from(y),
                (Obj::Pub(x), Obj::Pub(y)) => x.clone_from(y),
                (Obj::Ek(x), Obj::Ek(y)) => if e.at("parts").bool() { x.prefix.clone_from(&y.prefix); x.attrs.clone_from(&y.attrs); x.key_bytes = y.key_bytes } else { x.clone_from(y) },
                _ => panic!("harness: clone of another kind"),
            } }
            let p = proj(&c); *made = Some(c); ok(p)
        }
        "commute" => {
            let x = match &*objs[0] { Obj::Prv(x) => x, _ => panic!("harness") };
            let path = e.at("path");
            let (ra, rb) = if path.arr().len() == 1 && !e.get("bypath").map(|v| v.bool()).unwrap_or(false) {
                let c = cn(&path.arr()[0]);
                (guard(|| r32(x.derive_child(c).map(|k| k.public_key()), |k| p_pub(k))), guard(|| r32(x.public_key().derive_child(c), |k| p_pub(k))))
            } else {
                let p = match make_path(path, "push") { Some(p) => p, None => return skip() };
                (guard(|| r32(x.clone().derive_from_path(&p).map(|k| k.public_key()), |k| p_pub(k))), guard(|| r32(x.public_key().derive_from_path(&p), |k| p_pub(k))))
            };
            extra.push(("pubself", p_pub(&x.public_key())));
            extra.push(("viaprv", ra));
            extra.push(("viapub", rb));
            ok(st("unit"))
        }
        "path.derive" => {
            let pv = e.at("path");
            let p = match make_path(pv, e.at("mk").s()) { Some(p) => p, None => return skip() };
            let cns: Vec<ChildNumber> = pv.arr().iter().map(cn).collect();
            let cuts: Vec<usize> = e.at("cuts").arr().iter().map(|v| v.int() as usize).collect();
            extra.push(("pathval", path_val(&p)));
            macro_rules! go { ($start:expr, $proj:expr, $wrap:expr, $whole:expr) => {{
                extra.push(("steps", guard(|| { let mut k = $start; for c in &cns { match k { Ok(ref x) => k = x.derive_child(*c), Err(_) => break } } r32(k, $proj) })));
                extra.push(("parts", guard(|| { let mut k = $start; let mut from = 0;
                    for to in cuts.iter().copied().chain(Some(cns.len())) { let mut q = DerivationPath::default(); for c in &cns[from..to] { q.push(*c) } from = to;
                        k = match k { Ok(x) => x.derive_from_path(&q), Err(z) => Err(z) } } r32(k, $proj) })));
                let r = $whole;
                let v = r32(r.as_ref().map_err(|x| *x), |x| $proj(x));
                if let Ok(c) = r { *made = Some($wrap(c)) }
                v
            }} }
            match objs.first().map(|x| &**x) {
                Some(Obj::Prv(x)) => go!(Ok(x.clone()) as kms::bip32::Result<XPrv>, p_prv, Obj::Prv, x.clone().derive_from_path(&p)),
                Some(Obj::Pub(x)) => go!(Ok(x.clone()) as kms::bip32::Result<XPub>, p_pub, Obj::Pub, x.clone().derive_from_path(&p)),
                Some(Obj::Seed(s)) => go!(XPrv::new(s), p_prv, Obj::Prv, XPrv::new_from_path(s, &p)),
                _ => { let s = e.at("seed").bytes(); go!(XPrv::new(&s), p_prv, Obj::Prv, XPrv::new_from_path(&s, &p)) }
            }
        }
        "fp" => match &*objs[0] { Obj::Pub(x) => { extra.push(("via", b(&PublicKey::fingerprint(x.public_key())))); ok(b(&x.fingerprint())) } _ => panic!("harness") },
        "access" => match &*objs[0] {
            Obj::Prv(x) => ok(obj(vec![("bytes", b(&x.to_bytes())), ("raw", b(&PrivateKey::to_bytes(x.private_key()))), ("byref", b(&secp::SecretKey::from(x).serialize())), ("byval", b(&secp::SecretKey::from(x.clone()).serialize()))])),
            Obj::Pub(x) => ok(obj(vec![("bytes", b(&x.to_bytes())), ("raw", b(&PublicKey::to_bytes(x.public_key()))), ("byref", b(&secp::PublicKey::from(x).serialize_compressed())), ("byval", b(&secp::PublicKey::from(x.clone()).serialize_compressed()))])),
            _ => panic!("harness"),
        },
        // ------------------------------------------------ paths and child numbers
        "cn.parse" => r32(e.at("text").text().parse::<ChildNumber>(), |c| cnv(*c)),
        "cn.show" => { let c = cn(e.at("cn")); let w: u32 = c.into();
            ok(obj(vec![("text", t(&c.to_string())), ("index", b(&c.index().to_be_bytes())), ("hard", V::Bool(c.is_hardened())), ("bytes", b(&c.to_bytes())), ("u32", b(&w.to_be_bytes())),
                ("frombytes", cnv(ChildNumber::from_bytes(c.to_bytes()))), ("fromu32", cnv(ChildNumber::from(w))),
                ("back", guard(|| r32(c.to_string().parse::<ChildNumber>(), |x| cnv(*x))))])) }
        "cn.new" => r32(ChildNumber::new(u32::from_be_bytes(arr(e.at("raw"))), e.at("hard").bool()), |c| cnv(*c)),
        "path.parse" => r32(e.at("text").text().parse::<DerivationPath>(), path_val),
        "path.show" => {
            let p = match make_path(e.at("path"), e.at("mk").s()) { Some(p) => p, None => return skip() };
            ok(obj(vec![("text", t(&p.to_string())), ("len", V::Int(p.len() as i64)), ("empty", V::Bool(p.is_empty())), ("asref", path_val(&p)), ("iter", V::Arr(p.iter().map(cnv).collect())),
                ("into", V::Arr(p.clone().into_iter().map(cnv).collect())),
                ("parent", match p.parent() { Some(q) => obj(vec![("some", V::Bool(true)), ("path", path_val(&q))]), None => obj(vec![("some", V::Bool(false)), ("path", V::Arr(vec![]))]) }),
                ("back", guard(|| r32(p.to_string().parse::<DerivationPath>(), path_val))),
                ("backeq", V::Bool(p.to_string().parse::<DerivationPath>().map(|q| q == p).unwrap_or(false)))]))
        }
        // ------------------------------------------------ extended-key text
        "export" => {
            let pre = match std_prefix(e.at("std").int()) { Ok(p) => p, Err(x) => return b32err(x) };
            extra.push(("ver", b(&pre.version().to_be_bytes())));
            let (texts, ek) = match &*objs[0] {
                Obj::Prv(x) => { let ek = x.to_extended_key(pre); (vec![x.to_string(pre).to_string(), ek.to_string(), base58(&ek)], ek) }
                Obj::Pub(x) => { let ek = x.to_extended_key(pre); (vec![x.to_string(pre), ek.to_string(), base58(&ek)], ek) }
                _ => panic!("harness"),
            };
            extra.push(("ek", p_ek(&ek)));
            let text = texts[0].clone();
            let (back, via, direct, eq) = match &*objs[0] {
                Obj::Prv(x) => (guard(|| r32(text.parse::<XPrv>(), p_prv)), guard(|| r32(text.parse::<ExtendedKey>().and_then(XPrv::try_from), p_prv)),
                                guard(|| r32(XPrv::try_from(ek.clone()), p_prv)), guard(|| V::Bool(text.parse::<XPrv>().map(|y| y == *x).unwrap_or(false)))),
                Obj::Pub(x) => (guard(|| r32(text.parse::<XPub>(), p_pub)), guard(|| r32(text.parse::<ExtendedKey>().and_then(XPub::try_from), p_pub)),
                                guard(|| r32(XPub::try_from(ek.clone()), p_pub)), guard(|| V::Bool(text.parse::<XPub>().map(|y| y == *x).unwrap_or(false)))),
                _ => unreachable!(),
            };
            extra.push(("ekback", guard(|| r32(text.parse::<ExtendedKey>(), p_ek))));
            extra.push(("back", back)); extra.push(("viaek", via)); extra.push(("direct", direct)); extra.push(("eq", eq));
            ok(V::Arr(texts.iter().map(|s| t(s)).collect()))
        }
        "reimport" => {
            let pre = match std_prefix(e.at("std").int()) { Ok(p) => p, Err(x) => return b32err(x) };
            match &*objs[0] {
                Obj::Prv(x) => { let r = x.to_string(pre).parse::<XPrv>(); let v = r32(r.as_ref().map_err(|x| *x), |x| p_prv(x)); if let Ok(x) = r { *made = Some(Obj::Prv(x)) } v }
                Obj::Pub(x) => { let r = x.to_string(pre).parse::<XPub>(); let v = r32(r.as_ref().map_err(|x| *x), |x| p_pub(x)); if let Ok(x) = r { *made = Some(Obj::Pub(x)) } v }
                _ => panic!("harness"),
            }
        }
        "import" => {
            let s = e.at("text").text();
            match e.at("as").s() {
                "prv" => { let r = s.parse::<XPrv>(); let v = r32(r.as_ref().map_err(|x| *x), |x| p_prv(x)); if let Ok(x) = r { *made = Some(Obj::Prv(x)) } v }
                "pub" => { let r = s.parse::<XPub>(); let v = r32(r.as_ref().map_err(|x| *x), |x| p_pub(x)); if let Ok(x) = r { *made = Some(Obj::Pub(x)) } v }
                _ => { let r = s.parse::<ExtendedKey>(); let v = r32(r.as_ref().map_err(|x| *x), |x| p_ek(x)); if let Ok(x) = r { *made = Some(Obj::Ek(x)) } v }
            }
        }
        "ek.into" => {
            let k = match &*objs[0] { Obj::Ek(k) => k, _ => panic!("harness") };
            match e.at("as").s() {
                "prv" => { let r = XPrv::try_from(k.clone()); let v = r32(r.as_ref().map_err(|x| *x), |x| p_prv(x)); if let Ok(x) = r { *made = Some(Obj::Prv(x)) } v }
                _ => { let r = XPub::try_from(k.clone()); let v = r32(r.as_ref().map_err(|x| *x), |x| p_pub(x)); if let Ok(x) = r { *made = Some(Obj::Pub(x)) } v }
            }
        }
        "ek.show" => { let k = match &*objs[0] { Obj::Ek(k) => k, _ => panic!("harness") }; ok(V::Arr(vec![t(&k.to_string()), t(&base58(k))])) }
        "order" => {
            let vs = e.at("vals").arr();
            match e.at("kind").s() {
                "cn" => order(&vs.iter().map(cn).collect::<Vec<_>>(), |x, y| x.cmp(y)),
                "attrs" => order(&vs.iter().map(attrs).collect::<Vec<_>>(), |x, y| x.cmp(y)),
                "prefix" => { let ps: Vec<_> = vs.iter().map(|v| Prefix::from_bytes(arr(v))).collect();
                    if ps.iter().any(|p| p.is_err()) { return skip() }
                    order(&ps.into_iter().map(|p| p.unwrap()).collect::<Vec<_>>(), |x, y| x.cmp(y)) }
                _ => { let ps: Vec<_> = vs.iter().map(pub_lit).collect();
                    if ps.iter().any(|p| p.is_none()) { return skip() }
                    secp::order_pub(ps.into_iter().map(|p| p.unwrap()).collect()) }
            }
        }
        "eq" => match (&*objs[0], &*objs[1]) {
            (Obj::Prv(x), Obj::Prv(y)) => ok(obj(vec![("eq", V::Bool(x == y)), ("rev", V::Bool(y == x)), ("ne", V::Bool(x != y)), ("ct", V::Bool(x.ct_eq(y).into())), ("ctrev", V::Bool(y.ct_eq(x).into()))])),
            (Obj::Pub(x), Obj::Pub(y)) => ok(obj(vec![("eq", V::Bool(x == y)), ("rev", V::Bool(y == x)), ("ne", V::Bool(x != y)), ("ct", V::Bool(x == y)), ("ctrev", V::Bool(y == x))])),
            _ => panic!("harness: eq of different kinds"),
        },
        "dbg" => match (&*objs[0], &*objs[1]) {
            (Obj::Prv(x), Obj::Prv(y)) => ok(obj(vec![("a", t(&format!("{:?}", x))), ("b", t(&format!("{:?}", y))), ("pa", t(&format!("{:#?}", x))), ("pb", t(&format!("{:#?}", y))),
                ("xa", t(&format!("{:x?}", x))), ("xb", t(&format!("{:x?}", y))), ("wa", t(&format!("{:4.1?}", x))), ("wb", t(&format!("{:4.1?}", y))),
                ("ma", shown(x)), ("mb", shown(y))])),
            _ => panic!("harness"),
        },
        // ------------------------------------------------ key level
        "sk.from" => r32(<secp::SecretKey as PrivateKey>::from_bytes(&arr(e.at("key"))), |k| b(&PrivateKey::to_bytes(k))),
        "pk.from" => r32(<secp::PublicKey as PublicKey>::from_bytes(arr(e.at("key"))), |k| b(&PublicKey::to_bytes(k))),
        "sk.pub" => match secp::SecretKey::parse(&arr(e.at("key"))) { Ok(k) => ok(b(&PublicKey::to_bytes(&PrivateKey::public_key(&k)))), Err(_) => skip() },
        "sk.tweak" => match secp::SecretKey::parse(&arr(e.at("key"))) {
            Ok(k) => { let v = r32(PrivateKey::derive_child(&k, arr(e.at("t"))), |k| b(&PrivateKey::to_bytes(k))); extra.push(("kept", b(&k.serialize()))); v }
            Err(_) => skip() },
        "pk.tweak" => match secp::PublicKey::parse_compressed(&arr(e.at("key"))) {
            Ok(k) => { let v = r32(PublicKey::derive_child(&k, arr(e.at("t"))), |k| b(&PublicKey::to_bytes(k))); extra.push(("kept", b(&k.serialize_compressed()))); v }
            Err(_) => skip() },
        "sign" => match libsecp256k1::SecretKey::parse(&arr(e.at("key"))) {
            Ok(k) => {
                let m = e.at("msg").bytes();
                let f = || match kms::ecdsa_sign(&k, &m) { Ok((s, r)) => ok(obj(vec![("sig", b(&s)), ("recid", V::Int(r as i64))])), Err(x) => errt(match x { kms::error::Error::Secp256k1Error(_) => "Secp256k1" }, &x.to_string()) };
                let v = f();
                extra.push(("again", guard(f)));
                v
            }
            Err(_) => skip() },
        // ------------------------------------------------ prefixes, digest
        "prefix.of" => {
            let by = e.at("bytes").bytes();
            let r = match e.at("via").s() {
                "u32" => Prefix::try_from(u32::from_be_bytes(by.try_into().expect("harness"))),
                "bytes" => Prefix::from_bytes(by.try_into().expect("harness")),
                _ => Prefix::try_from(&by[..]),
            };
            if let Ok(p) = &r { extra.push(("dbg", t(&format!("{:?}", p)))) }
            r32(r, p_prefix)
        }
        "prefix.parts" => ok(p_prefix(&Prefix::from_parts_unchecked(&e.at("text").text(), u32::from_be_bytes(arr(e.at("ver")))))),
        "err.from" => {                                 // what a failure of an underlying library is reported as
            use libsecp256k1::Error as S;
            let i = e.at("i").int() as usize;
            let secp = [S::InvalidSignature, S::InvalidPublicKey, S::InvalidSecretKey, S::InvalidRecoveryId, S::InvalidMessage, S::InvalidInputLength, S::TweakOutOfRange, S::InvalidAffine];
            match e.at("via").s() {
                "decode" => b32err(match i { 0 => bs58::decode::Error::BufferTooSmall, 1 => bs58::decode::Error::InvalidCharacter { character: '0', index: 3 }, 2 => bs58::decode::Error::NonAsciiCharacter { index: 0 },
                    3 => bs58::decode::Error::NoChecksum, _ => bs58::decode::Error::InvalidChecksum { checksum: [1, 2, 3, 4], expected_checksum: [4, 3, 2, 1] } }.into()),
                "encode" => b32err(bs58::encode::Error::BufferTooSmall.into()),
                "slice" => match <[u8; 4]>::try_from(&[0u8; 9][..i]) { Err(x) => b32err(x.into()), Ok(_) => skip() },
                "length" => b32err(hmac::digest::InvalidLength.into()),
                "secp" => b32err(secp[i].into()),
                "sign" => errt(match kms::error::Error::from(secp[i]) { kms::error::Error::Secp256k1Error(x) if x == secp[i] => "Secp256k1", _ => "another" }, &kms::error::Error::from(secp[i]).to_string()),
                x => panic!("harness: via {}", x),
            }
        }
        "prefix.std" => { let r = std_prefix(e.at("std").int()); if let Ok(p) = &r { extra.push(("dbg", t(&format!("{:#?}", p)))) } r32(r, p_prefix) }
        "ripemd" => {
            let m = match e.get("msg") { Some(m) => m.bytes(), None => { let p = e.at("pat").bytes(); (0..e.at("len").int() as usize).map(|i| p[i % p.len()]).collect() } };
            ok(t(&kms::crypto::ripemd(&m)))
        }
        _ => panic!("harness: unknown op {}", op),
    }
}
fn base58(k: &ExtendedKey) -> String { let mut buf = [0u8; ExtendedKey::MAX_BASE58_SIZE]; k.write_base58(&mut buf).map(|s| s.to_string()).unwrap_or_default() }
fn p_prefix(p: &Prefix) -> V {
    let r: &str = p.as_ref();
    obj(vec![("ver", b(&p.version().to_be_bytes())), ("bytes", b(&p.to_bytes())), ("u32", b(&u32::from(*p).to_be_bytes())), ("u32r", b(&u32::from(p).to_be_bytes())),
        ("chars", t(p.as_str())), ("display", t(&p.to_string())), ("asref", t(r)), ("prv", V::Bool(p.is_private())), ("pub", V::Bool(p.is_public()))])
}

/// The debug text under every kind of format option
fn shown<T: std::fmt::Debug>(x: &T) -> V {
    V::Arr([format!("{:+?}", x), format!("{:-?}", x), format!("{:012?}", x), format!("{:.64?}", x), format!("{:<40?}", x), format!("{:^9.3?}", x), format!("{:#x?}", x), format!("{:X?}", x),
        format!("{:+#?}", x), format!("{:*^64.64?}", x), format!("{:>5?}", x), format!("{:.0?}", x)].iter().map(|s| st(&s.escape_default().to_string())).collect())
}
