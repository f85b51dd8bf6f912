//! Just enough JSON: arrays, integers, strings.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
}
impl J {
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("not a number: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("not an array: {:?}", self),
        }
    }
}
pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let r = val(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "trailing JSON");
    r
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match b[*i] {
                    b']' => {
                        *i += 1;
                        return J::A(v);
                    }
                    b',' => *i += 1,
                    _ => v.push(val(b, i)),
                }
            }
        }
        b'"' => {
            *i += 1;
            let st = *i;
            while b[*i] != b'"' {
                assert!(b[*i] != b'\\');
                *i += 1
            }
            let s = std::str::from_utf8(&b[st..*i]).unwrap().to_string();
            *i += 1;
            J::S(s)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1
            }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
        }
    }
}
pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn bytes(b: &[u8]) -> String {
    let mut o = String::with_capacity(4 * b.len() + 2);
    o.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x.to_string());
    }
    o.push(']');
    o
}
pub fn limbs(x: u128, k: usize) -> String {
    let mut o = String::from("[");
    for i in 0..k {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&((x >> (16 * i)) & 0xffff).to_string());
    }
    o.push(']');
    o
}
pub fn unlimbs(j: &J) -> u128 {
    j.a().iter().enumerate().map(|(i, x)| (x.n() as u128) << (16 * i)).fold(0, |a, b| a | b)
}
