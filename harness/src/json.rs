//! Minimal JSON (integers, strings, booleans, arrays, objects).
#[derive(Clone, Debug, PartialEq)]
pub enum V { Null, Bool(bool), Int(i64), Str(String), Arr(Vec<V>), Obj(Vec<(String, V)>) }
impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self { V::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v), _ => None }
    }
    pub fn at(&self, k: &str) -> &V { self.get(k).unwrap_or_else(|| panic!("harness: missing field {} in {:?}", k, self)) }
    pub fn int(&self) -> i64 { match self { V::Int(i) => *i, _ => panic!("harness: not an int: {:?}", self) } }
    pub fn s(&self) -> &str { match self { V::Str(s) => s, _ => panic!("harness: not a string: {:?}", self) } }
    pub fn bool(&self) -> bool { match self { V::Bool(b) => *b, _ => panic!("harness: not a bool: {:?}", self) } }
    pub fn arr(&self) -> &[V] { match self { V::Arr(a) => a, _ => panic!("harness: not an array: {:?}", self) } }
    pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|v| v.int() as u8).collect() }
    pub fn text(&self) -> String { String::from_utf8(self.bytes()).expect("harness: not UTF-8") }
    pub fn write(&self, o: &mut String) {
        match self {
            V::Null => o.push_str("null"),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => o.push_str(&i.to_string()),
            V::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
                }
                o.push('"');
            }
            V::Arr(a) => { o.push('['); for (i, v) in a.iter().enumerate() { if i > 0 { o.push(',') } v.write(o) } o.push(']') }
            V::Obj(m) => { o.push('{'); for (i, (k, v)) in m.iter().enumerate() { if i > 0 { o.push(',') }
                V::Str(k.clone()).write(o); o.push(':'); v.write(o) } o.push('}') }
        }
    }
}
pub fn b(x: &[u8]) -> V { V::Arr(x.iter().map(|c| V::Int(*c as i64)).collect()) }
pub fn t(x: &str) -> V { b(x.as_bytes()) }
pub fn st(x: &str) -> V { V::Str(x.to_string()) }
pub fn obj(f: Vec<(&str, V)>) -> V { V::Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

pub fn parse(s: &str) -> V { let mut p = P { s: s.as_bytes(), i: 0 }; let v = p.val(); v }
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] <= b' ' { self.i += 1 } }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.i < self.s.len() && self.s[self.i] == c { self.i += 1; true } else { false } }
    fn val(&mut self) -> V {
        self.ws();
        match self.s[self.i] {
            b'{' => { self.i += 1; let mut o = vec![];
                if !self.eat(b'}') { loop { self.ws(); let k = self.string(); assert!(self.eat(b':')); let v = self.val(); o.push((k, v)); if !self.eat(b',') { assert!(self.eat(b'}')); break } } }
                V::Obj(o) }
            b'[' => { self.i += 1; let mut a = vec![];
                if !self.eat(b']') { loop { a.push(self.val()); if !self.eat(b',') { assert!(self.eat(b']')); break } } }
                V::Arr(a) }
            b'"' => V::Str(self.string()),
            b't' => { self.i += 4; V::Bool(true) }
            b'f' => { self.i += 5; V::Bool(false) }
            b'n' => { self.i += 4; V::Null }
            _ => { let st = self.i; while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) { self.i += 1 }
                V::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().expect("json int")) }
        }
    }
    fn string(&mut self) -> String {
        assert_eq!(self.s[self.i], b'"'); self.i += 1;
        let mut r = vec![];
        loop { let c = self.s[self.i]; self.i += 1;
            match c { b'"' => break,
                b'\\' => { let e = self.s[self.i]; self.i += 1; match e { b'n' => r.push(b'\n'), b't' => r.push(b'\t'), b'r' => r.push(b'\r'),
                    b'u' => { let h = u32::from_str_radix(std::str::from_utf8(&self.s[self.i..self.i + 4]).unwrap(), 16).unwrap(); self.i += 4;
                        r.extend(char::from_u32(h).expect("bmp").to_string().as_bytes()) }
                    e => r.push(e) } }
                c => r.push(c) } }
        String::from_utf8(r).unwrap()
    }
}
