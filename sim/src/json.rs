//! A small JSON reader and writer (objects keep their order).

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn num(&self, k: &str) -> i64 {
        match self.get(k) {
            Some(J::Num(n)) => *n,
            Some(J::Bool(b)) => *b as i64,
            _ => 0,
        }
    }
    pub fn str(&self, k: &str) -> &str {
        match self.get(k) {
            Some(J::Str(s)) => s,
            _ => "",
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            Some(J::Arr(v)) => v,
            _ => &[],
        }
    }
    pub fn as_num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => 0,
        }
    }
    pub fn as_arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(&n.to_string()),
            J::Str(s) => write_str(s, out),
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    write_str(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }

    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = value(b, &mut i)?;
        ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing bytes at {i}"));
        }
        Ok(v)
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\n' | b'\t' | b'\r') {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let err = |i: usize| Err(format!("bad JSON at {i}"));
    match b.get(*i) {
        Some(b'{') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    Some(b',') => *i += 1,
                    Some(b'"') => {
                        let k = string(b, i)?;
                        ws(b, i);
                        if b.get(*i) != Some(&b':') {
                            return err(*i);
                        }
                        *i += 1;
                        v.push((k, value(b, i)?));
                    }
                    _ => return err(*i),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    Some(b',') => *i += 1,
                    Some(_) => v.push(value(b, i)?),
                    None => return err(*i),
                }
            }
        }
        Some(b'"') => Ok(J::Str(string(b, i)?)),
        Some(b't') if b[*i..].starts_with(b"true") => {
            *i += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') if b[*i..].starts_with(b"false") => {
            *i += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') if b[*i..].starts_with(b"null") => {
            *i += 4;
            Ok(J::Null)
        }
        Some(c) if *c == b'-' || c.is_ascii_digit() => {
            let s = *i;
            *i += 1;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[s..*i]).unwrap();
            t.parse().map(J::Num).map_err(|e| e.to_string())
        }
        _ => err(*i),
    }
}

fn string(b: &[u8], i: &mut usize) -> Result<String, String> {
    *i += 1;
    let mut out = Vec::new();
    loop {
        match b.get(*i) {
            Some(b'"') => {
                *i += 1;
                return String::from_utf8(out).map_err(|e| e.to_string());
            }
            Some(b'\\') => {
                match b.get(*i + 1) {
                    Some(b'n') => out.push(b'\n'),
                    Some(b'u') => {
                        let h = b.get(*i + 2..*i + 6).and_then(|h| std::str::from_utf8(h).ok());
                        let c = h.and_then(|h| u32::from_str_radix(h, 16).ok()).and_then(char::from_u32);
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.unwrap_or('?').encode_utf8(&mut buf).as_bytes());
                        *i += 4;
                    }
                    Some(c) => out.push(*c),
                    None => return Err("string".into()),
                }
                *i += 2;
            }
            Some(c) => {
                out.push(*c);
                *i += 1;
            }
            None => return Err("string".into()),
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    b.chunks(2).map(|p| d(p[0]) << 4 | d(*p.get(1).unwrap_or(&b'0'))).collect()
}
