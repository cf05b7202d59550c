//! Just enough JSON: a parser for the cases TLC generates, helpers to write traces.
#[derive(Clone, Debug)]
pub enum J { Null, Bool(bool), Num(i64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> &J {
        if let J::Obj(v) = self { for (n, x) in v { if n == k { return x; } } }
        &J::Null
    }
    pub fn has(&self, k: &str) -> bool { !matches!(self.get(k), J::Null) }
    pub fn i(&self) -> i64 { match self { J::Num(n) => *n, J::Bool(b) => *b as i64, _ => panic!("not a number: {:?}", self) } }
    pub fn u(&self) -> usize { self.i() as usize }
    pub fn b(&self) -> bool { match self { J::Bool(b) => *b, _ => panic!("not a bool: {:?}", self) } }
    pub fn s(&self) -> &str { match self { J::Str(s) => s, _ => panic!("not a string: {:?}", self) } }
    pub fn a(&self) -> &[J] { match self { J::Arr(v) => v, _ => panic!("not an array: {:?}", self) } }
    pub fn bytes(&self) -> Vec<u8> { self.a().iter().map(|x| x.i() as u8).collect() }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let r = val(b, &mut p);
    r
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] as char).is_whitespace() { *p += 1; } }
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; return J::Obj(v); }
                if b[*p] == b',' { *p += 1; continue; }
                let k = match val(b, p) { J::Str(s) => s, x => panic!("key {:?}", x) };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                v.push((k, val(b, p)));
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; return J::Arr(v); }
                if b[*p] == b',' { *p += 1; continue; }
                v.push(val(b, p));
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            while b[*p] != b'"' {
                if b[*p] == b'\\' { *p += 1; }
                s.push(b[*p]);
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => { *p += 4; J::Bool(true) }
        b'f' => { *p += 5; J::Bool(false) }
        b'n' => { *p += 4; J::Null }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
            J::Num(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}

pub fn bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 { out.push(','); }
        let mut buf = [0u8; 3];
        let mut n = *x;
        let mut k = 3;
        loop { k -= 1; buf[k] = b'0' + n % 10; n /= 10; if n == 0 { break; } }
        out.push_str(std::str::from_utf8(&buf[k..]).unwrap());
    }
    out.push(']');
}
pub fn bytes_s(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 4 + 2); bytes(&mut s, b); s }
pub fn word(a: u64) -> String {
    format!("[{},{},{},{}]", a & 0xffff, (a >> 16) & 0xffff, (a >> 32) & 0xffff, a >> 48)
}
pub fn word_of(j: &J) -> u64 {
    let v = j.a();
    (0..4).map(|i| (v[i].i() as u64) << (16 * i)).sum()
}
pub fn strs(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(","))
}
pub fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

/// A number TLC can hold; whatever is larger is as wrong as the largest.
pub fn cap(n: u64) -> u64 { n.min(2_000_000_000) }
