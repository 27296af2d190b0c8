//! Minimal JSON for scenarios and evidence (no dependency needed).

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn s(v: &str) -> J {
        J::Str(v.to_string())
    }
    pub fn ints<T: Copy + Into<i64>>(v: &[T]) -> J {
        J::Arr(v.iter().map(|x| J::Int((*x).into())).collect())
    }
    pub fn get(&self, k: &str) -> &J {
        static NULL: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i64,
            J::Bool(b) => i64::from(*b),
            _ => 0,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => write!(out, "{b}").unwrap(),
            J::Int(i) => write!(out, "{i}").unwrap(),
            J::Num(f) => {
                if f.is_finite() {
                    write!(out, "{f}").unwrap()
                } else {
                    out.push_str("0")
                }
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        '\r' => out.push_str("\\r"),
                        c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = parse(b, &mut i)?;
        Ok(v)
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1;
    }
}

fn parse(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let c = *b.get(*i).ok_or("eof")?;
    match c {
        b'{' => {
            *i += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b'}') {
                    *i += 1;
                    return Ok(J::Obj(m));
                }
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                    continue;
                }
                let k = match parse(b, i)? {
                    J::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err("colon".into());
                }
                *i += 1;
                let v = parse(b, i)?;
                m.insert(k, v);
            }
        }
        b'[' => {
            *i += 1;
            let mut a = Vec::new();
            loop {
                ws(b, i);
                if b.get(*i) == Some(&b']') {
                    *i += 1;
                    return Ok(J::Arr(a));
                }
                if b.get(*i) == Some(&b',') {
                    *i += 1;
                    continue;
                }
                a.push(parse(b, i)?);
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            while let Some(&c) = b.get(*i) {
                *i += 1;
                match c {
                    b'"' => return String::from_utf8(s).map(J::Str).map_err(|e| e.to_string()),
                    b'\\' => {
                        let e = *b.get(*i).ok_or("esc")?;
                        *i += 1;
                        match e {
                            b'n' => s.push(b'\n'),
                            b't' => s.push(b'\t'),
                            b'r' => s.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(&b[*i..*i + 4]).map_err(|e| e.to_string())?;
                                let cp = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *i += 4;
                                let mut buf = [0; 4];
                                s.extend(
                                    char::from_u32(cp).unwrap_or('?').encode_utf8(&mut buf).bytes(),
                                );
                            }
                            o => s.push(o),
                        }
                    }
                    c => s.push(c),
                }
            }
            Err("unterminated".into())
        }
        b't' => {
            *i += 4;
            Ok(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Ok(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).map_err(|e| e.to_string())?;
            if t.is_empty() {
                return Err(format!("bad char {:?} at {}", c as char, st));
            }
            if let Ok(v) = t.parse::<i64>() {
                Ok(J::Int(v))
            } else {
                t.parse::<f64>().map(J::Num).map_err(|e| e.to_string())
            }
        }
    }
}
