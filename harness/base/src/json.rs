//! An independent JSON implementation: order and duplicate preserving reader, writer with
//! spelling noise, canonical comparison. Nothing here uses serde.
use crate::rng::Rng;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Flt(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

impl J {
    pub fn obj() -> J {
        J::Obj(vec![])
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(v) => v.iter_mut().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn put(&mut self, k: impl Into<String>, v: J) {
        match self {
            J::Obj(o) => o.push((k.into(), v)),
            _ => panic!("put on non-object"),
        }
    }
    /// Replace or insert.
    pub fn set(&mut self, k: &str, v: J) {
        if let Some(x) = self.get_mut(k) {
            *x = v;
        } else {
            self.put(k, v);
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        match self {
            J::Obj(o) => {
                let i = o.iter().position(|(n, _)| n == k)?;
                Some(o.remove(i).1)
            }
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            J::Null => "null",
            J::Bool(_) => "bool",
            J::Int(_) => "int",
            J::Flt(_) => "float",
            J::Str(_) => "string",
            J::Arr(_) => "array",
            J::Obj(_) => "object",
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            J::Arr(v) => 1 + v.iter().map(J::depth).max().unwrap_or(0),
            J::Obj(v) => 1 + v.iter().map(|x| x.1.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        write_plain(self, &mut o);
        o
    }
    pub fn hash(&self) -> u64 {
        let mut c = self.clone();
        c.sort();
        crate::rng::hash_bytes(c.to_text().as_bytes())
    }
    pub fn sort(&mut self) {
        match self {
            J::Arr(v) => v.iter_mut().for_each(J::sort),
            J::Obj(v) => {
                v.iter_mut().for_each(|x| x.1.sort());
                v.sort_by(|a, b| a.0.cmp(&b.0));
            }
            _ => {}
        }
    }
    /// Visits every node with its path, pre-order.
    pub fn walk<'a>(&'a self, path: &mut Vec<String>, f: &mut dyn FnMut(&[String], &'a J)) {
        f(path, self);
        match self {
            J::Arr(v) => {
                for (i, x) in v.iter().enumerate() {
                    path.push(i.to_string());
                    x.walk(path, f);
                    path.pop();
                }
            }
            J::Obj(v) => {
                for (k, x) in v {
                    path.push(k.clone());
                    x.walk(path, f);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    pub fn at_mut(&mut self, path: &[String]) -> Option<&mut J> {
        let mut cur = self;
        for p in path {
            cur = match cur {
                J::Obj(_) => cur.get_mut(p)?,
                J::Arr(v) => v.get_mut(p.parse::<usize>().ok()?)?,
                _ => return None,
            };
        }
        Some(cur)
    }
}

fn write_str(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn write_flt(f: f64, o: &mut String) {
    if f.is_finite() {
        let _ = write!(o, "{:?}", f);
    } else {
        o.push_str("null");
    }
}

fn write_plain(j: &J, o: &mut String) {
    match j {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Int(i) => {
            let _ = write!(o, "{}", i);
        }
        J::Flt(f) => write_flt(*f, o),
        J::Str(x) => write_str(x, o),
        J::Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                write_plain(x, o);
            }
            o.push(']');
        }
        J::Obj(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                write_str(k, o);
                o.push(':');
                write_plain(x, o);
            }
            o.push('}');
        }
    }
}

/// Writes the same document with spelling noise: whitespace, string escapes, member order.
pub fn write_noisy(j: &J, r: &mut Rng) -> String {
    let mut o = String::new();
    let ws = r.below(3);
    noisy(j, r, &mut o, ws);
    o
}

fn ws(r: &mut Rng, o: &mut String, level: usize) {
    if level == 0 {
        return;
    }
    let n = if level == 1 { r.below(2) } else { r.below(4) };
    for _ in 0..n {
        o.push(*r.pick(&[' ', '\n', '\t', '\r', ' ']));
    }
}

fn noisy_str(x: &str, r: &mut Rng, o: &mut String) {
    let esc = r.below(4);
    o.push('"');
    for c in x.chars() {
        let force = match c {
            '"' | '\\' => true,
            c => (c as u32) < 0x20,
        };
        let choose = esc == 0 && r.chance(1, 3) || esc == 1 && r.chance(1, 12);
        if !force && !choose {
            o.push(c);
            continue;
        }
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '/' => Some("\\/"),
            _ => None,
        };
        if let (Some(sh), true) = (short, r.coin()) {
            o.push_str(sh);
            continue;
        }
        let mut buf = [0u16; 2];
        for u in c.encode_utf16(&mut buf) {
            if r.coin() {
                let _ = write!(o, "\\u{:04x}", u);
            } else {
                let _ = write!(o, "\\u{:04X}", u);
            }
        }
    }
    o.push('"');
}

fn noisy(j: &J, r: &mut Rng, o: &mut String, level: usize) {
    match j {
        J::Str(x) => noisy_str(x, r, o),
        J::Arr(v) => {
            o.push('[');
            ws(r, o, level);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(r, o, level);
                }
                noisy(x, r, o, level);
                ws(r, o, level);
            }
            o.push(']');
        }
        J::Obj(v) => {
            let mut idx: Vec<usize> = (0..v.len()).collect();
            r.shuffle(&mut idx);
            o.push('{');
            ws(r, o, level);
            for (n, i) in idx.into_iter().enumerate() {
                if n > 0 {
                    o.push(',');
                    ws(r, o, level);
                }
                noisy_str(&v[i].0, r, o);
                ws(r, o, level);
                o.push(':');
                ws(r, o, level);
                noisy(&v[i].1, r, o, level);
                ws(r, o, level);
            }
            o.push('}');
        }
        other => write_plain(other, o),
    }
}

/// Shuffles members of every object.
pub fn shuffle_keys(j: &mut J, r: &mut Rng) {
    match j {
        J::Arr(v) => v.iter_mut().for_each(|x| shuffle_keys(x, r)),
        J::Obj(v) => {
            v.iter_mut().for_each(|x| shuffle_keys(&mut x.1, r));
            r.shuffle(v);
        }
        _ => {}
    }
}

/// Strict reader. Duplicated members are an error reported with their path.
pub fn read(text: &str) -> Result<J, String> {
    let mut p = P {
        b: text.as_bytes(),
        t: text,
        i: 0,
        path: vec![],
    };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing characters at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    t: &'a str,
    i: usize,
    path: Vec<String>,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.t[self.i..].starts_with(l) {
            self.i += l.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self, d: usize) -> Result<J, String> {
        if d > 4000 {
            return Err("too deep".into());
        }
        match self.peek() {
            b'n' => self.lit("null", J::Null),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    self.path.push(v.len().to_string());
                    v.push(self.value(d + 1)?);
                    self.path.pop();
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("expected , or ] at {}", self.i)),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return Err(format!("expected : at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    if v.iter().any(|x| x.0 == k) {
                        return Err(format!(
                            "member {:?} appears more than once in /{}",
                            k,
                            self.path.join("/")
                        ));
                    }
                    self.path.push(k.clone());
                    let x = self.value(d + 1)?;
                    self.path.pop();
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("expected , or }} at {}", self.i)),
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                let mut flt = false;
                while self.i < self.b.len() {
                    match self.b[self.i] {
                        b'0'..=b'9' | b'-' | b'+' => {}
                        b'.' | b'e' | b'E' => flt = true,
                        _ => break,
                    }
                    self.i += 1;
                }
                let l = &self.t[st..self.i];
                if !flt {
                    if let Ok(i) = l.parse::<i128>() {
                        return Ok(J::Int(i));
                    }
                }
                l.parse::<f64>()
                    .map(J::Flt)
                    .map_err(|e| format!("bad number {l}: {e}"))
            }
            _ => Err(format!("unexpected character at {}", self.i)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.t.get(self.i..self.i + 4).ok_or("short \\u")?;
        self.i += 4;
        u32::from_str_radix(h, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        if self.peek() != b'"' {
            return Err(format!("expected string at {}", self.i));
        }
        self.i += 1;
        let mut o = String::new();
        loop {
            let st = self.i;
            while self.i < self.b.len() && self.b[self.i] != b'"' && self.b[self.i] != b'\\' {
                if self.b[self.i] < 0x20 {
                    return Err("control character in string".into());
                }
                self.i += 1;
            }
            o.push_str(&self.t[st..self.i]);
            if self.i >= self.b.len() {
                return Err("unterminated string".into());
            }
            if self.b[self.i] == b'"' {
                self.i += 1;
                return Ok(o);
            }
            self.i += 1;
            let c = self.peek();
            self.i += 1;
            match c {
                b'"' => o.push('"'),
                b'\\' => o.push('\\'),
                b'/' => o.push('/'),
                b'b' => o.push('\u{8}'),
                b'f' => o.push('\u{c}'),
                b'n' => o.push('\n'),
                b'r' => o.push('\r'),
                b't' => o.push('\t'),
                b'u' => {
                    let a = self.hex4()?;
                    if (0xd800..0xdc00).contains(&a) {
                        if !self.t[self.i..].starts_with("\\u") {
                            return Err("lone surrogate".into());
                        }
                        self.i += 2;
                        let b = self.hex4()?;
                        if !(0xdc00..0xe000).contains(&b) {
                            return Err("lone surrogate".into());
                        }
                        let c = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00);
                        o.push(char::from_u32(c).ok_or("bad code point")?);
                    } else {
                        o.push(char::from_u32(a).ok_or("lone surrogate")?);
                    }
                }
                _ => return Err(format!("bad escape at {}", self.i)),
            }
        }
    }
}

/// First difference between two documents, member order ignored, list order kept.
pub fn diff(exp: &J, got: &J) -> Option<String> {
    fn go(a: &J, b: &J, path: &str) -> Option<String> {
        match (a, b) {
            (J::Obj(x), J::Obj(y)) => {
                for (k, v) in x {
                    match b.get(k) {
                        None => {
                            return Some(format!(
                                "{path}/{k}: expected {} but the member is absent",
                                short(v)
                            ))
                        }
                        Some(w) => {
                            if let Some(d) = go(v, w, &format!("{path}/{k}")) {
                                return Some(d);
                            }
                        }
                    }
                }
                for (k, v) in y {
                    if a.get(k).is_none() {
                        return Some(format!("{path}/{k}: unexpected member {}", short(v)));
                    }
                }
                if x.len() != y.len() {
                    return Some(format!("{path}: {} members vs {}", x.len(), y.len()));
                }
                None
            }
            (J::Arr(x), J::Arr(y)) => {
                for (i, (v, w)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = go(v, w, &format!("{path}/{i}")) {
                        return Some(d);
                    }
                }
                if x.len() != y.len() {
                    return Some(format!("{path}: expected {} items, got {}", x.len(), y.len()));
                }
                None
            }
            (J::Flt(x), J::Flt(y)) if x.is_nan() && y.is_nan() => None,
            _ if a == b => None,
            _ => Some(format!("{path}: expected {} got {}", short(a), short(b))),
        }
    }
    go(exp, got, "")
}

pub fn short(j: &J) -> String {
    let t = j.to_text();
    if t.len() > 160 {
        let mut e = 160;
        while !t.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &t[..e])
    } else {
        t
    }
}

pub fn to_value(j: &J) -> serde_json::Value {
    use serde_json::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Int(i) => {
            if let Ok(x) = i64::try_from(*i) {
                V::from(x)
            } else if let Ok(x) = u64::try_from(*i) {
                V::from(x)
            } else {
                V::from(*i as f64)
            }
        }
        J::Flt(f) => V::from(*f),
        J::Str(x) => V::String(x.clone()),
        J::Arr(v) => V::Array(v.iter().map(to_value).collect()),
        J::Obj(v) => V::Object(v.iter().map(|(k, x)| (k.clone(), to_value(x))).collect()),
    }
}

pub fn from_value(v: &serde_json::Value) -> J {
    use serde_json::Value as V;
    match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Number(n) => {
            if let Some(i) = n.as_i64() {
                J::Int(i as i128)
            } else if let Some(u) = n.as_u64() {
                J::Int(u as i128)
            } else {
                J::Flt(n.as_f64().unwrap_or(f64::NAN))
            }
        }
        V::String(x) => J::Str(x.clone()),
        V::Array(a) => J::Arr(a.iter().map(from_value).collect()),
        V::Object(o) => J::Obj(o.iter().map(|(k, x)| (k.clone(), from_value(x))).collect()),
    }
}
