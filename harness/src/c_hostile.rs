//! P15: hostile input never panics, crashes, or uses resources out of proportion.
use crate::alloc::{metered, Cost};
use crate::c_parse::*;
use crate::conv::*;
use crate::drive::*;
use crate::faults::*;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{s as js, J};
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::{for_bprof, for_part};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::io::{Error as IoError, ErrorKind, Read, Write};
use wot_td::builder::*;
use wot_td::hlist::Nil;
use wot_td::thing::*;

// ---- cost bounds -------------------------------------------------------------------------------
// The crate buffers each nesting level of flattened objects, so the cost grows with size times
// depth, and depth is limited by serde_json. The factors are several times what was measured.

/// Allocated bytes allowed per input byte and nesting level.
const TOTAL_FACTOR: u64 = 400;
const PEAK_FACTOR: u64 = 400;
const BASE: u64 = 400_000;
/// Processor seconds allowed per input megabyte and nesting level, on top of a fixed allowance.
const CPU_FACTOR: f64 = 30.0;
const CPU_BASE: f64 = 2.0;

fn afford(l: &mut Local, what: &str, size: usize, depth: usize, c: Cost) {
    let n = size as u64 * (depth as u64 + 1);
    l.high("bytes allocated per input byte and level beyond the base", c.total.saturating_sub(BASE) / n.max(1));
    l.high("bytes live per input byte beyond the base", c.peak.saturating_sub(BASE) / size.max(1) as u64);
    l.high("milliseconds beyond the base per megabyte and level", ((c.cpu - CPU_BASE).max(0.0) * 1e9 / n.max(1) as f64) as u64);
    l.high(&format!("milliseconds in one step, {what}"), (c.cpu * 1e3) as u64);
    let bad = if c.total > BASE + TOTAL_FACTOR * n {
        format!("{} bytes allocated", c.total)
    } else if c.peak > BASE + PEAK_FACTOR * size as u64 * 4 {
        format!("{} bytes live at once", c.peak)
    } else if c.cpu > CPU_BASE + CPU_FACTOR * n as f64 / 1e6 {
        format!("{:.1} s of processor time", c.cpu)
    } else {
        return;
    };
    l.fail(format!("cost-{what}"), format!("{bad} for {size} bytes of input nested {depth} deep"));
}
/// Nesting depth of arbitrary text, as the number of brackets ever open at once.
fn depth_of(b: &[u8]) -> usize {
    let (mut d, mut m) = (0i64, 0i64);
    for c in b {
        match c {
            b'{' | b'[' => d += 1,
            b'}' | b']' => d -= 1,
            _ => {}
        }
        m = m.max(d);
    }
    (m as usize).min(128)
}

/// Whatever was accepted can be written, read back, printed and dropped.
fn accepted<T>(l: &mut Local, what: &str, t: &T, size: usize, depth: usize)
where
    T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    l.count(format!("accepted.{what}"));
    let (x, c) = metered(|| serde_json::to_string(t));
    afford(l, "serialize", size, depth, c);
    let text = match x {
        Ok(x) => x,
        Err(e) => return l.fail(format!("unserializable-{what}"), e.to_string()),
    };
    let (x, c) = metered(|| serde_json::from_str::<T>(&text));
    afford(l, "reparse", text.len(), depth, c);
    match x {
        Ok(u) => {
            if &u != t && !alike(&text, &serde_json::to_string(&u).unwrap_or_default()) {
                l.fail(format!("unequal-{what}"), format!("not equal after a round trip: {}", oneline(&text, 1500)));
            }
        }
        Err(e) => l.fail(format!("unparsable-{what}"), format!("{e}: own output {}", oneline(&text, 1500))),
    }
    match serde_json::to_value(t).map(serde_json::from_value::<T>) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => l.fail(format!("unparsable-{what}"), format!("value tree: {e}: {}", oneline(&text, 1500))),
        Err(e) => l.fail(format!("unserializable-{what}"), format!("value tree: {e}")),
    }
}

/// Same documents up to the last digits of floating numbers, which serde_json may round when
/// reading.
fn alike(a: &str, b: &str) -> bool {
    fn same(a: &J, b: &J) -> bool {
        match (a, b) {
            (J::Flt(x), J::Flt(y)) => x == y || (x - y).abs() <= 1e-14 * x.abs().max(y.abs()),
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
            (J::Obj(a), J::Obj(_)) => {
                let J::Obj(v) = b else { return false };
                a.len() == v.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| same(x, y)))
            }
            _ => crate::json::diff(a, b).is_none(),
        }
    }
    matches!((crate::json::read(a), crate::json::read(b)), (Ok(a), Ok(b)) if same(&a, &b))
}

fn same_text<T: Serialize>(a: &T, b: &T) -> bool {
    alike(&serde_json::to_string(a).unwrap_or_default(), &serde_json::to_string(b).unwrap_or_default())
}

/// Offers bytes on every route. All routes must agree on whether they are acceptable.
fn offer<T>(l: &mut Local, what: &str, b: &[u8], r: &mut Rng)
where
    T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    l.doing = format!("{what}: {}", String::from_utf8_lossy(b));
    l.seen(hash_bytes(b));
    let depth = depth_of(b);
    let (x, c) = metered(|| serde_json::from_slice::<T>(b));
    afford(l, "slice", b.len(), depth, c);
    if let Ok(t) = &x {
        accepted(l, what, t, b.len(), depth);
    } else {
        l.count(format!("refused.{what}"));
    }
    if let Ok(text) = std::str::from_utf8(b) {
        let (y, c) = metered(|| serde_json::from_str::<T>(text));
        afford(l, "str", b.len(), depth, c);
        agree(l, "str", &x, &y);
        l.count("route.str");
    }
    let rd = Irregular {
        data: b,
        r: r.fork(),
        fail: None,
    };
    let (y, c) = metered(|| serde_json::from_reader::<_, T>(rd));
    afford(l, "reader", b.len(), depth, c);
    agree(l, "reader", &x, &y);
    l.count("route.reader");
    if let Ok(v) = serde_json::from_slice::<serde_json::Value>(b) {
        let (y, c) = metered(|| T::deserialize(&v));
        afford(l, "value", b.len(), depth, c);
        if let Ok(t) = &y {
            accepted(l, what, t, b.len(), depth);
        }
        // A value tree has already merged duplicate members, which the text routes refuse.
        if x.is_ok() {
            agree(l, "value", &x, &y);
        }
        l.count("route.value");
    }
}
fn agree<T, E: std::fmt::Display, F: std::fmt::Display>(l: &mut Local, route: &str, x: &Result<T, E>, y: &Result<T, F>)
where
    T: PartialEq + std::fmt::Debug,
{
    match (x, y) {
        (Ok(a), Ok(b)) if a == b => {}
        (Err(_), Err(_)) => {}
        (Ok(_), Ok(_)) => l.fail("routes-unequal", format!("{route} gives another value")),
        (Ok(_), Err(e)) => l.fail("routes-disagree", format!("{route} refuses what slice accepts: {e}")),
        (Err(e), Ok(_)) => l.fail("routes-disagree", format!("{route} accepts what slice refuses: {e}")),
    }
}

/// A reader with short reads and interruptions that may fail for good at some point.
struct Irregular<'a> {
    data: &'a [u8],
    r: Rng,
    fail: Option<(usize, ErrorKind)>,
}
impl Read for Irregular<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some((0, k)) = self.fail {
            return Err(IoError::new(k, "injected"));
        }
        if self.data.is_empty() || buf.is_empty() {
            return Ok(0);
        }
        if self.r.chance(1, 20) {
            return Err(IoError::from(ErrorKind::Interrupted));
        }
        let mut n = self.r.range(1, 16).min(buf.len()).min(self.data.len());
        if let Some((left, _)) = &mut self.fail {
            n = n.min(*left);
            *left -= n;
        }
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct FailingWriter(usize, ErrorKind);
impl Write for FailingWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return match self.1 {
                ErrorKind::WriteZero => Ok(0),
                k => Err(IoError::new(k, "injected")),
            };
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---- bytes -------------------------------------------------------------------------------------

const WORDS: &[&str] = &[
    "{", "}", "[", "]", ",", ":", "null", "true", "false", "0", "-1", "1e308", "1e-400", "18446744073709551616", "-9223372036854775809",
    "0.1", "\"\"", "\"title\"", "\"security\"", "\"securityDefinitions\"", "\"@context\"", "\"properties\"", "\"actions\"", "\"events\"",
    "\"forms\"", "\"op\"", "\"href\"", "\"type\"", "\"object\"", "\"array\"", "\"items\"", "\"oneOf\"", "\"enum\"", "\"minimum\"",
    "\"exclusiveMaximum\"", "\"multipleOf\"", "\"scheme\"", "\"nosec\"", "\"combo\"", "\"allOf\"", "\"digest\"", "\"qop\"", "\"created\"",
    "\"2024-02-30T00:00:00Z\"", "\"titles\"", "\"descriptions\"", "\"hreflang\"", "\"additionalResponses\"", "\"response\"",
    "\"uriVariables\"", "\"\\ud800\"", "\"\\u0000\"", "\"unterminated", " ", "\n", "\u{feff}", "nul", "NaN", "Infinity", "//",
];
fn soup(r: &mut Rng) -> Vec<u8> {
    let n = r.below(60);
    match r.below(4) {
        0 => (0..n).map(|_| r.u64() as u8).collect(),
        1 => {
            let mut b = b"{\"title\":\"t\",\"security\":[],\"securityDefinitions\":{}".to_vec();
            for _ in 0..r.below(8) {
                b.extend_from_slice(b",");
                b.extend_from_slice(r.pick(WORDS).as_bytes());
                b.extend_from_slice(b":");
                b.extend_from_slice(r.pick(WORDS).as_bytes());
            }
            b.push(b'}');
            b
        }
        _ => {
            let mut b = vec![];
            for _ in 0..n {
                b.extend_from_slice(r.pick(WORDS).as_bytes());
            }
            b
        }
    }
}
fn bytes_case<X: Part>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let b = soup(&mut r);
    offer::<X::T>(l, X::NAME, &b, &mut r);
}

fn doc<X: Part>(r: &mut Rng) -> J {
    let mut g = Gen::new(r.fork(), X::exts(), Mode::Parse);
    g.fuel = 40;
    let m = X::gen(&mut g);
    X::render(Sty::Noisy(r.fork(), Noise::ALL), &m)
}
fn mutated<X: Part>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut b = doc::<X>(&mut r).to_text().into_bytes();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let at = r.below(b.len());
        let to = (at + r.range(1, 20)).min(b.len());
        match r.below(9) {
            0 => b[at] = r.u64() as u8,
            1 => b[at] ^= 1 << r.below(8),
            2 => {
                b.drain(at..to);
            }
            3 => b.truncate(at),
            4 => {
                let c = b[at..to].to_vec();
                b.splice(at..at, c);
            }
            5 => {
                let w = r.pick(WORDS).as_bytes().to_vec();
                b.splice(at..at, w);
            }
            6 => {
                let w = r.pick(WORDS).as_bytes().to_vec();
                b.splice(at..to, w);
            }
            7 => {
                // Digits are where numbers leave their range.
                if let Some(i) = b[at..].iter().position(u8::is_ascii_digit) {
                    let w: Vec<u8> = (0..r.range(1, 25)).map(|_| b'0' + r.below(10) as u8).collect();
                    b.splice(at + i..at + i, w);
                }
            }
            _ => {
                let o = doc::<X>(&mut r).to_text().into_bytes();
                let k = r.below(o.len());
                let e = (k + r.range(1, 200)).min(o.len());
                b.splice(at..to, o[k..e].iter().copied());
            }
        }
    }
    offer::<X::T>(l, X::NAME, &b, &mut r);
}

/// Any node of the document replaced by any other value, any member renamed or repeated.
fn swapped<X: Part>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut j = doc::<X>(&mut r);
    for _ in 0..r.range(1, 4) {
        let mut paths = vec![];
        let mut v = vec![];
        j.walk(&mut v, &mut |p, _| paths.push(p.to_vec()));
        let p = r.pick(&paths).clone();
        let q = r.pick(&paths).clone();
        let other = j.at_mut(&q).map(|x| x.clone()).unwrap_or(J::Null);
        let wild = wild(&mut r, 2);
        if let Some(n) = j.at_mut(&p) {
            match r.below(6) {
                0 | 1 => *n = wild,
                2 => *n = other,
                3 => *n = J::Arr(vec![n.clone()]),
                4 => {
                    if let J::Arr(v) = n {
                        if let Some(x) = v.first().cloned() {
                            v.push(x);
                        }
                    } else {
                        *n = J::Arr(vec![]);
                    }
                }
                _ => {
                    if let J::Obj(v) = n {
                        if !v.is_empty() {
                            let i = r.below(v.len());
                            v[i].0 = r.pick(WORDS).trim_matches('"').to_string();
                        }
                    } else {
                        *n = J::obj();
                    }
                }
            }
        }
        if j.to_text().len() > 60_000 {
            break;
        }
    }
    let t = j.to_text();
    offer::<X::T>(l, X::NAME, t.as_bytes(), &mut r);
}
fn wild(r: &mut Rng, d: usize) -> J {
    match r.below(if d == 0 { 7 } else { 9 }) {
        0 => J::Null,
        1 => J::Bool(r.coin()),
        2 => J::Int(*r.pick(&[0, 1, -1, 255, 256, 65_535, 65_536, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128])),
        3 => J::Flt(*r.pick(&[0.0, -0.0, 0.5, 1e300, -1e300, 5e-324, f64::MAX])),
        4..=6 => js(wild_text(r)),
        7 => J::Arr((0..r.below(4)).map(|_| wild(r, d - 1)).collect()),
        _ => {
            let mut o = J::obj();
            for _ in 0..r.below(4) {
                let k = if r.coin() { wild_text(r) } else { r.pick(WORDS).trim_matches('"').to_string() };
                o.put(k, wild(r, d - 1));
            }
            o
        }
    }
}
fn wild_text(r: &mut Rng) -> String {
    match r.below(9) {
        7 => {
            let w = *r.pick(crate::gen::CONSTS);
            straddle(w, r.below(w.len() + 2), r.below(WIDE_CHARS.len()), r.coin())
        }
        0 => String::new(),
        1 => "\0\u{1f}\u{7f}\u{feff}\u{fffd}".into(),
        2 => "\u{10ffff}\u{1F9D1}\u{200d}\u{0301}\u{202e}".into(),
        3 => "x".repeat(r.range(1, 5000)),
        4 => r.pick(crate::gen::BAD_LANGS).to_string(),
        5 => "%00%ff{}[]\"\\'<>&;--${x}%n%s".into(),
        6 => (0..r.below(40)).map(|_| char::from_u32(r.u64() as u32 % 0x11_0000).unwrap_or('?')).collect(),
        _ => r.pick(WORDS).to_string(),
    }
}

// ---- deep --------------------------------------------------------------------------------------

const DEEP: &[(&str, &str, &str)] = &[
    ("items", r#"{"type":"array","items":"#, "}"),
    ("tuple", r#"{"type":"array","items":["#, "]}"),
    ("second of tuple", r#"{"type":"array","items":[{"type":"null"},"#, "]}"),
    ("object", r#"{"type":"object","properties":{"p":"#, "}}"),
    ("oneOf", r#"{"oneOf":["#, "]}"),
    ("last of oneOf", r#"{"oneOf":[{"type":"null"},"#, "]}"),
    ("const", r#"{"const":"#, "}"),
    ("const array", r#"["#, "]"),
    ("unknown", r#"{"unknown":"#, "}"),
    ("items without type", r#"{"items":"#, "}"),
    ("everything", r#"{"type":"object","title":"t","oneOf":["#, r#"],"properties":{"a":{"type":"array","items":[{"type":"integer"}]}}}"#),
];
const ENDS: &[&str] = &[r#"{"type":"integer","minimum":1}"#, "{}", "3", r#"{"type":"integer","minimum":"x"}"#, r#"{"titles":{"!":""}}"#, ""];
const DEPTHS: &[usize] = &[1, 8, 30, 50, 59, 60, 61, 62, 63, 64, 90, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 200, 5_000, 100_000];
const SPOTS: usize = 8;
fn deep_case(l: &mut Local, case: u64) {
    let mut i = case as usize;
    let mut take = |n: usize| {
        let x = i % n;
        i /= n;
        x
    };
    let (kind, spot, end, depth) = (take(DEEP.len()), take(SPOTS), take(ENDS.len()), DEPTHS[take(DEPTHS.len())]);
    let (name, open, close) = DEEP[kind];
    if name == "everything" && depth > 128 && depth < 1000 {
        return l.seen_trivial();
    }
    let body = format!("{}{}{}", open.repeat(depth), ENDS[end], if ENDS[end].is_empty() { String::new() } else { close.repeat(depth) });
    let wrap = |a: &str, b: &str| format!(r#"{{"title":"t","security":[],"securityDefinitions":{{"s":{{"scheme":"nosec"}}}},{a}{body}{b}}}"#);
    let text = match spot {
        0 => wrap(r#""schemaDefinitions":{"s":"#, "}"),
        1 => wrap(r#""actions":{"a":{"forms":[],"input":"#, "}}"),
        2 => wrap(r#""events":{"e":{"forms":[],"cancellation":"#, "}}"),
        3 => wrap(r#""properties":{"p":{"forms":[],"type":"object","properties":{"q":"#, "}}}"),
        4 => wrap(r#""properties":{"p":{"forms":[],"uriVariables":{"u":"#, "}}}"),
        5 => wrap(r#""uriVariables":{"u":"#, "}"),
        6 => wrap(r#""unknown":"#, ""),
        _ => format!(r#"{{"title":"t","security":[],"securityDefinitions":{{"s":{{"scheme":"mine","data":{body}}}}}}}"#),
    };
    let mut r = l.rng(case);
    l.count(format!("deep.{name}"));
    if depth > 1000 && text.len() > 4_000_000 {
        l.count("deep.long");
    }
    offer::<Thing<Nil>>(l, "thing", text.as_bytes(), &mut r);
    if kind % 3 == spot % 3 {
        offer::<Thing<PBA>>(l, "thing", text.as_bytes(), &mut r);
    }
    l.doing = oneline(&l.doing, 3000);
}
type B0N = B0<Nil>;
fn deep_ds(b: B0N, kind: usize, n: usize) -> Un<Nil> {
    let b = b.finish_extend();
    if n == 0 {
        return b.integer().minimum(1).into();
    }
    match kind {
        0 => b.vec().set_item(|b| deep_ds(b, kind, n - 1)).into(),
        1 => b.tuple().append(|b| deep_ds(b, kind, n - 1)).into(),
        2 => b.one_of(|b| deep_ds(b, kind, n - 1)).into(),
        3 => b.object().property("p", true, |b| deep_ds(b, kind, n - 1)).into(),
        _ => match n % 4 {
            0 => b.vec().set_item(|b| deep_ds(b, kind, n - 1)).read_only().into(),
            1 => b.tuple().append(|b| deep_ds(b, kind, n - 1)).write_only().into(),
            2 => b.one_of(|b| deep_ds(b, kind, n - 1)).title("t").into(),
            _ => b.object().property("p", false, |b| deep_ds(b, kind, n - 1)).read_only().into(),
        },
    }
}
/// The builder, nested as deep as a document may be.
fn deep_build(l: &mut Local, case: u64) {
    let kind = case as usize % 5;
    let n = [1, 10, 40, 59, 110][case as usize / 5 % 5];
    let place = case as usize / 25 % 3;
    l.doing = format!("builder kind {kind} depth {n} place {place}");
    l.seen(case);
    let (x, c) = metered(|| {
        let b = ThingBuilder::<Nil, _>::new("t").finish_extend();
        match place {
            0 => b.schema_definition("s", |b| deep_ds(b, kind, n)),
            1 => b.action("a", |b| b.input(|b| deep_ds(b, kind, n))),
            _ => b.event("e", |b| b.data(|b| deep_ds(b, kind, n))),
        }
        .build()
    });
    afford(l, "builder", 200 * n, n, c);
    match x {
        Err(e) => l.fail("deep-builder", format!("{e:?}")),
        Ok(t) => {
            l.count("deep built");
            match serde_json::to_string(&t) {
                Err(e) => l.fail("deep-builder", e.to_string()),
                Ok(text) => {
                    if depth_of(text.as_bytes()) < 127 {
                        accepted(l, "built", &t, text.len(), n);
                    }
                }
            }
        }
    }
}

/// Chains nested by a loop instead of by recursion, which a program may make as long as it likes.
const CHAINS: &[&str] = &["vec", "tuple", "oneOf", "object"];
const CHAIN_DEPTHS: &[usize] = &[130, 500, 200_000];

/// Runs in a process of its own, which overflowing the stack would end.
pub fn chain_child(kind: usize, depth: usize) -> i32 {
    type B = DataSchemaBuilder<Nil, Nil, Nil, Extended>;
    let run = move || {
        let mut cur: Un<Nil> = B::default().integer().minimum(1).into();
        for _ in 0..depth {
            let b = B::default();
            cur = match kind {
                0 => b.vec().set_item(move |_| cur).into(),
                1 => b.tuple().append(move |_| cur).into(),
                2 => b.one_of(move |_| cur).into(),
                _ => b.object().property("p", true, move |_| cur).into(),
            };
        }
        match ThingBuilder::<Nil, _>::new("t").finish_extend().schema_definition("s", |_| cur).build() {
            Err(_) => 10,
            Ok(t) => match serde_json::to_string(&t) {
                Err(_) => 11,
                Ok(text) if text.len() < depth => 12,
                Ok(_) => {
                    drop(t);
                    0
                }
            },
        }
    };
    match std::thread::Builder::new().stack_size(8 << 20).spawn(run).expect("thread").join() {
        Ok(rc) => rc,
        Err(_) => 13,
    }
}
fn chain_case(l: &mut Local, case: u64) {
    use std::os::unix::process::ExitStatusExt;
    let (kind, depth) = (case as usize % CHAINS.len(), CHAIN_DEPTHS[case as usize / CHAINS.len()]);
    l.doing = format!("{depth} schemas nested as {} through the builder", CHAINS[kind]);
    l.seen(case);
    let status = std::process::Command::new(std::env::current_exe().expect("exe"))
        .arg("chain")
        .arg(kind.to_string())
        .arg(depth.to_string())
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .status()
        .expect("child");
    match (status.code(), status.signal()) {
        (Some(0 | 10), _) => l.count("chains"),
        (Some(rc), _) => l.fail("chain", format!("{}: ends with code {rc}", l.doing)),
        (None, signal) => {
            let sig = if depth > 1000 { "overflow-beyond-1000-levels" } else { "chain" };
            l.fail(sig, format!("{}: killed by signal {signal:?}", l.doing))
        }
    }
}

// ---- wide --------------------------------------------------------------------------------------

const WIDE: &[(&str, &str, &str, &str)] = &[
    ("properties", r#""properties":{"#, r#""p@":{"forms":[{"href":"/@"}],"type":"integer"}"#, "}"),
    ("actions", r#""actions":{"#, r#""a@":{"forms":[{"href":"/@"}],"input":{"type":"null"}}"#, "}"),
    ("events", r#""events":{"#, r#""e@":{"forms":[],"data":{"type":"boolean"}}"#, "}"),
    ("forms", r#""forms":["#, r#"{"href":"/@","op":"readallproperties","security":"s@"}"#, "]"),
    ("property forms", r#""properties":{"p":{"forms":["#, r#"{"href":"/@","additionalResponses":{"schema":"x@"}}"#, "]}}"),
    ("links", r#""links":["#, r#"{"href":"/@","rel":"icon","sizes":"@","hreflang":"en-x-a@"}"#, "]"),
    ("definitions", r#""more":{"#, r#""s@":{"scheme":"nosec"}"#, "}"),
    ("schemas", r#""schemaDefinitions":{"#, r#""s@":{"type":"string","minLength":@}"#, "}"),
    ("titles", r#""titles":{"#, r#""en-x-a@":"@""#, "}"),
    ("enum", r#""uriVariables":{"u":{"enum":["#, "@", "]}}"),
    ("oneOf", r#""uriVariables":{"u":{"oneOf":["#, r#"{"type":"integer","maximum":@}"#, "]}}"),
    ("tuple", r#""actions":{"a":{"forms":[],"input":{"type":"array","items":["#, r#"{"const":@}"#, "]}}}"),
    ("members", r#""actions":{"a":{"forms":[],"output":{"type":"object","properties":{"#, r#""m@":{"unit":"@"}"#, "}}}}"),
    ("required", r#""actions":{"a":{"forms":[],"output":{"type":"object","required":["#, r#""m@""#, "]}}}"),
    ("const", r#""schemaDefinitions":{"c":{"const":["#, "[@]", "]}}"),
    ("const members", r#""schemaDefinitions":{"c":{"default":{"#, r#""@":@"#, "}}}"),
    ("operations", r#""forms":[{"href":"","op":["#, r#""readallproperties""#, "]}]"),
    ("responses", r#""forms":[{"href":"","op":[],"additionalResponses":["#, r#"{"contentType":"@"}"#, "]}]"),
    ("scopes", r#""forms":[{"href":"","op":[],"scopes":["#, r#""@""#, "]}]"),
    ("types", r#""@type":["#, r#""t@""#, "]"),
    ("contexts", r#""@context":["#, r#"{"k@":"@"}"#, "]"),
    ("profiles", r#""profile":["#, r#""@""#, "]"),
    ("unknown", "", r#""x@":[@]"#, ""),
    ("unknown in form", r#""forms":[{"href":"","op":[],"#, r#""x@":{"y":@}"#, "}]"),
    ("unknown in schema", r#""schemaDefinitions":{"c":{"#, r#""x@":{"y":@}"#, "}}"),
    ("custom data", r#""more":{"z":{"scheme":"own","#, r#""x@":{"y":@}"#, "}}"),
    ("combo", r#""more":{"z":{"scheme":"combo","oneOf":["#, r#""s@""#, "]}}"),
];
const STRINGS: &[(&str, &str, &str, &str)] = &[
    ("long text", r#""description":""#, "abcdefghij", "\""),
    ("escaped text", r#""description":""#, r"\u00e9\n\ud83e\uddd1", "\""),
    ("long key", r#""properties":{""#, "abcdefghij", "\":{\"forms\":[]}}"),
    ("whitespace", r#""description":"#, " \t\n\r      ", "\"\""),
    ("long digits", r#""schemaDefinitions":{"c":{"const":1"#, "0123456789", "}}"),
    ("long fraction", r#""schemaDefinitions":{"c":{"type":"number","minimum":0."#, "0123456789", "}}"),
    ("long exponent", r#""schemaDefinitions":{"c":{"type":"number","minimum":1e-"#, "0123456789", "}}"),
    ("long tag", r#""titles":{"en-x-a"#, "-abcdefgh", "\":\"\"}"),
    ("long extended tag", r#""titles":{"en-a-bb"#, "-abcdefgh", "\":\"\"}"),
    ("long date", r#""created":"2024-01-01T00:00:00."#, "0000000000", "Z\""),
    ("long operation", r#""forms":[{"href":"","op":""#, "readproperty", "\"}]"),
    ("long scheme", r#""more":{"s":{"scheme":""#, "nosec", "\"}}"),
];
fn wide_text(kind: usize, n: usize) -> (&'static str, String) {
    let (name, open, unit, close, sep) = match WIDE.get(kind) {
        Some((a, b, c, d)) => (*a, *b, *c, *d, ","),
        None => {
            let (a, b, c, d) = STRINGS[kind - WIDE.len()];
            (a, b, c, d, "")
        }
    };
    let mut t = String::from(r#"{"title":"t","security":"s","#);
    let defs = open.strip_prefix(r#""more":{"#);
    t.push_str(if defs.is_some() { r#""securityDefinitions":{"s":{"scheme":"nosec"},"# } else { r#""securityDefinitions":{"s":{"scheme":"nosec"}},"# });
    t.push_str(defs.unwrap_or(open));
    for i in 0..n {
        if i > 0 {
            t.push_str(sep);
        }
        t.push_str(&unit.replace('@', &i.to_string()));
    }
    t.push_str(close);
    t.push('}');
    (name, t)
}
/// Four times the size may cost little more than four times as much.
fn growth(l: &mut Local, what: &str, a: Cost, b: Cost, sizes: (usize, usize)) {
    let f = sizes.1 as f64 / sizes.0.max(1) as f64;
    if b.cpu > 0.7 && b.cpu > a.cpu * f * 2.5 {
        l.fail(format!("growth-{what}"), format!("{:.2} s for {} bytes, {:.2} s for {}", a.cpu, sizes.0, b.cpu, sizes.1));
    }
    if b.total as f64 > 1e6 + a.total as f64 * f * 2.0 {
        l.fail(format!("growth-{what}"), format!("{} bytes allocated for {}, {} for {}", a.total, sizes.0, b.total, sizes.1));
    }
    l.count("growth measured");
}
fn wide_with<P: Prof>(l: &mut Local, kind: usize, n: usize) {
    let (_, small) = wide_text(kind, n / 4);
    let (name, text) = wide_text(kind, n);
    l.doing = format!("{name} x {n}");
    l.seen(hash_bytes(text.as_bytes()));
    l.count(format!("wide.{name}"));
    let depth = depth_of(text.as_bytes()).min(8);
    let (x, a) = metered(|| serde_json::from_str::<Thing<P>>(&small));
    let (y, b) = metered(|| serde_json::from_str::<Thing<P>>(&text));
    afford(l, "wide", text.len(), depth, b);
    growth(l, "parse", a, b, (small.len(), text.len()));
    if let (Ok(x), Ok(y)) = (x, y) {
        l.count("wide accepted");
        let (p, a) = metered(|| serde_json::to_string(&x));
        let (q, b) = metered(|| serde_json::to_string(&y));
        growth(l, "serialize", a, b, (small.len(), text.len()));
        if p.is_err() {
            l.fail("unserializable-wide", name);
        }
        let text = q.as_deref().unwrap_or_default().to_string();
        match q.map(|q| serde_json::from_str::<Thing<P>>(&q)) {
            Ok(Ok(z)) => {
                if z != y && !alike(&text, &serde_json::to_string(&z).unwrap_or_default()) {
                    l.fail("unequal-wide", name);
                }
            }
            Ok(Err(e)) => l.fail("unparsable-wide", format!("{name}: {e}")),
            Err(e) => l.fail("unserializable-wide", format!("{name}: {e}")),
        }
        let (v, a) = metered(|| serde_json::from_value::<Thing<P>>(serde_json::to_value(&x).unwrap_or_default()).is_ok());
        let (w, b) = metered(|| serde_json::from_value::<Thing<P>>(serde_json::to_value(&y).unwrap_or_default()).is_ok());
        growth(l, "value", a, b, (small.len(), text.len()));
        if !v || !w {
            l.fail("unparsable-wide", format!("{name}: value tree"));
        }
    } else {
        l.count("wide refused");
    }
}
fn wide_case(l: &mut Local, case: u64, n: usize) {
    let kind = case as usize / 2;
    if case % 2 == 0 {
        wide_with::<Nil>(l, kind, n)
    } else {
        wide_with::<PUMA>(l, kind, n)
    }
}
const WIDE_BUILDS: usize = 19;
fn wide_build(kind: usize, n: usize) -> Result<Thing<Nil>, Error> {
    let mut b = ThingBuilder::<Nil, _>::new("t").finish_extend();
    if [3, 7, 11].contains(&kind) {
        for i in 0..n {
            b = b.security(|b| b.no_sec().with_key(format!("s{i}")));
        }
    }
    if kind == 4 {
        for i in 0..n {
            b = b.schema_definition(format!("x{i}"), |b| b.finish_extend().null());
        }
    }
    if kind == 5 {
        return b
            .action("a", |b| {
                b.input(|b| {
                    let mut b = b.finish_extend().object();
                    for i in 0..n {
                        b = b.property(format!("m{i}"), i % 2 == 0, |b| b.finish_extend().integer().minimum(i as i64));
                    }
                    b
                })
            })
            .build();
    }
    if kind == 6 {
        return b
            .event("e", |b| {
                b.data(|b| {
                    let mut b = b.finish_extend().tuple();
                    for i in 0..n {
                        b = b.append(|b| b.finish_extend().enumeration(i).enumeration("x"));
                    }
                    b
                })
            })
            .build();
    }
    if kind == 7 {
        return b
            .security(|b| {
                let mut c = b.combo().one_of(["s0".to_string(), "s1".to_string()]);
                for i in 2..n {
                    c = c.extend([format!("s{i}")]);
                }
                c.with_key("all")
            })
            .build();
    }
    let one = ThingBuilder::<Nil, _>::new("t").finish_extend();
    let all = 0..n;
    match kind {
        12 => {
            return one
                .form(|b| {
                    let mut b = b.href("/");
                    for i in all {
                        b = b.op(FormOperation::ReadAllProperties).scope(format!("{i}")).additional_response(|b| b.content_type(format!("{i}")));
                    }
                    b
                })
                .build()
        }
        13 => {
            return one
                .link_with(|b| {
                    let mut b = b.href("/");
                    for i in all {
                        b = b.hreflang(format!("en-x-a{i}"));
                    }
                    b
                })
                .build()
        }
        14 => {
            return one
                .titles(|b| all.fold(b, |b, i| b.add(format!("en-x-a{i}"), "t")))
                .context_map(|b| {
                    (0..n).fold(b, |b, i| b.context(format!("k{i}"), "v"))
                })
                .build()
        }
        15 => {
            return one
                .property("p", |b| {
                    let mut b = b.finish_extend_data_schema().enumeration(0);
                    for i in all {
                        b = b.enumeration(i).attype(format!("t{i}"));
                    }
                    b.form(|b| b.href("/"))
                })
                .build()
        }
        16 => {
            return one
                .schema_definition("d", |b| {
                    let mut b = b.finish_extend().one_of(|b| b.finish_extend().null());
                    for _ in all {
                        b = b.one_of(|b| b.finish_extend().number().minimum(0.5).maximum(1.5));
                    }
                    b
                })
                .build()
        }
        17 => {
            return one
                .security(|b| all.fold(b.oauth2("code"), |b, i| b.scope(format!("{i}"))).with_key("o"))
                .action("a", |b| (0..n).fold(b, |b, _| b.form(|b| b.href("/").security("o").op(FormOperation::InvokeAction))))
                .build()
        }
        18 => {
            return one
                .event("e", |b| (0..n).fold(b, |b, i| b.uri_variable(format!("u{i}"), |b| b.finish_extend().integer()).attype(format!("{i}"))))
                .build()
        }
        _ => {}
    }
    for i in 0..n {
        b = match kind {
            0 => b.property(format!("p{i}"), |b| b.finish_extend_data_schema().bool().form(|b| b.href("/"))),
            1 => b.action(format!("a{i}"), |b| b.form(|b| b.href("/").op(FormOperation::InvokeAction))),
            2 => b.event(format!("e{i}"), |b| b.form(|b| b.href("/"))),
            3 => b.form(|b| b.href("/").op(FormOperation::ReadAllProperties).security(format!("s{i}")).scope(format!("{i}"))),
            4 => b.form(|b| {
                b.href("/")
                    .op(FormOperation::ReadAllProperties)
                    .additional_response(|b| b.schema(format!("x{i}")))
            }),
            8 => b.uri_variable(format!("u{i}"), |b| b.finish_extend().string().min_length(i as u32)),
            9 => b.link_with(|b| b.href("/").hreflang(format!("en-x-a{i}")).rel("icon").sizes("1x1")),
            10 => b.attype(format!("t{i}")).profile(format!("p{i}")).context(format!("c{i}")),
            _ => b.property(format!("p{i}"), |b| {
                b.finish_extend_data_schema()
                    .integer()
                    .form(|b| b.href("/").security(format!("s{}", n - 1 - i)))
                    .uri_variable("u", |b| b.finish_extend().bool())
            }),
        };
    }
    b.build()
}
fn wide_build_case(l: &mut Local, case: u64, n: usize) {
    let kind = case as usize;
    l.doing = format!("builder kind {kind} x {n}");
    l.seen(case);
    let (x, a) = metered(|| wide_build(kind, n / 4));
    let (y, b) = metered(|| wide_build(kind, n));
    growth(l, "build", a, b, (n / 4 * 100, n * 100));
    afford(l, "build", n * 100, 8, b);
    match (x, y) {
        (Ok(_), Ok(y)) => {
            l.count("wide built");
            let text = serde_json::to_string(&y).unwrap_or_default();
            match serde_json::from_str::<Thing<Nil>>(&text) {
                Ok(z) if z == y => {}
                Ok(_) => l.fail("unequal-wide", format!("builder kind {kind}")),
                Err(e) => l.fail("unparsable-wide", format!("builder kind {kind}: {e}")),
            }
        }
        (Err(e), _) | (_, Err(e)) => l.fail("wide-builder", format!("kind {kind}: {e:?}")),
    }
}

// ---- long texts --------------------------------------------------------------------------------

/// Every member that holds text, and names of every kind.
const LONG: &str = r#"{"@context":["https://www.w3.org/2022/wot/td/v1.1","urn:c",{"k":"urn:k"}],"@type":"T","id":"urn:i","title":"t",
"titles":{"en":"t"},"description":"d","descriptions":{"de":"d"},"support":"mailto:a","base":"http://h/","created":"2024-01-01T00:00:00Z",
"modified":"2024-01-01T00:00:00Z","version":{"instance":"1","model":"2"},"profile":["p","q"],"security":["s","n"],
"securityDefinitions":{"s":{"scheme":"basic","in":"header","name":"n","@type":"T","description":"d","descriptions":{"en":"d"},"proxy":"http://p"},
"n":{"scheme":"nosec"},"d":{"scheme":"digest","qop":"auth","in":"query","name":"n"},"a":{"scheme":"apikey","in":"uri","name":"n"},
"b":{"scheme":"bearer","in":"body","name":"n","authorization":"http://a","alg":"ES256","format":"jwt"},"k":{"scheme":"psk","identity":"i"},
"o":{"scheme":"oauth2","flow":"code","authorization":"http://a","token":"http://t","refresh":"http://r","scopes":["x","y"]},
"c":{"scheme":"combo","oneOf":["s","n"]},"z":{"scheme":"own:scheme","word":"w","deep":{"deeper":["text"]}}},
"links":[{"href":"/l","type":"text/html","rel":"icon","anchor":"http://a","sizes":"16x16","hreflang":["en","de"]}],
"schemaDefinitions":{"sd":{"type":"string","pattern":"a","format":"f","contentEncoding":"base64","contentMediaType":"text/plain","minLength":1}},
"uriVariables":{"u":{"type":"integer","@type":"T","title":"t","titles":{"en":"t"},"description":"d","descriptions":{"en":"d"},"unit":"m",
"format":"f","const":"c","default":{"k":"v"},"enum":["e",["f"]]}},
"forms":[{"op":"readallproperties","href":"/f","contentType":"text/plain","contentCoding":"gzip","subprotocol":"longpoll","security":["s"],
"scopes":["x","y"],"response":{"contentType":"a/b","htv:headers":[{"htv:fieldName":"n","htv:fieldValue":"v"}]},
"additionalResponses":[{"success":true,"contentType":"a/b","schema":"sd"}],"htv:methodName":"GET","cov:method":"GET",
"mqv:controlPacket":"mqv:publish","mqv:topic":"a/b","mqv:filter":["a/+","b/#"],"mqv:qos":"quality:1"}],
"properties":{"p":{"type":"object","properties":{"m":{"oneOf":[{"type":"string","pattern":"b"}]}},"required":["m"],"forms":[{"href":"/p"}],
"uriVariables":{"v":{"const":"x"}},"title":"t","unit":"m","format":"f"}},
"actions":{"a":{"forms":[{"href":"/a"}],"title":"t","titles":{"en":"t"},"description":"d","input":{"type":"array","items":[{"enum":["x"]}]},
"output":{"type":"number","unit":"m"}}},
"events":{"e":{"forms":[{"href":"/e"}],"@type":["A","B"],"subscription":{"title":"t"},"data":{"description":"d"},
"cancellation":{"default":"d"},"dataResponse":{"titles":{"fr":"t"}}}},"unknown":{"member":"text"}}"#;
/// What a parser of the text could recurse on or rescan, with an opening and a closing part.
const UNITS: &[(&str, &str, &str)] = &[
    ("", "a", ""),
    ("", "(", ""),
    ("", "[", "]"),
    ("", "{", "}"),
    ("^(a", "|b", ")$"),
    ("", "\\", "\\"),
    ("a", "*", ""),
    ("http://h/", "../", ""),
    ("http://h/", "%41", ""),
    ("http://h/?", "&a=b", "#f"),
    ("urn:", "a:", ""),
    ("text/plain", ";a=b", ""),
    ("a/b", "; ", ""),
    ("", "a,", "b"),
    ("", " ", "a"),
    ("a", " ", ""),
    ("", "0x0 ", "1x1"),
    ("en-x", "-a", ""),
    ("en", "-abcdefgh", ""),
    ("en", "-a-bb", ""),
    ("", "a/", "+"),
    ("", "+/", "#"),
    ("", "$", ""),
    ("", "-", ""),
    ("", "9", ""),
    ("1", "0", ".5"),
    ("2024-01-01T00:00:00.", "0", "Z"),
    ("", "\u{e9}", ""),
    ("", "\u{1F9D1}\u{200d}", ""),
    ("", "e\u{301}", ""),
    ("", "\"", ""),
    ("", "\n", ""),
    ("", "AB", "="),
    ("", "<a>", "</a>"),
];
fn long_text(u: usize, n: usize) -> String {
    let (a, b, c) = UNITS[u];
    format!("{a}{}{c}", b.repeat(n / b.len()))
}
fn long_places() -> Vec<(Vec<String>, bool)> {
    let doc = crate::json::read(LONG).expect("the document with every member");
    let mut v = vec![];
    doc.walk(&mut vec![], &mut |p, x| match x {
        J::Str(_) => v.push((p.to_vec(), false)),
        J::Obj(m) => {
            let named = p.last().is_some_and(|k| {
                ["titles", "descriptions", "securityDefinitions", "schemaDefinitions", "uriVariables", "properties", "actions", "events", "default"]
                    .contains(&k.as_str())
                    || k == "z"
                    || k == "unknown"
                    || k == "2"
            });
            if named {
                for (k, _) in m {
                    let mut q = p.to_vec();
                    q.push(k.clone());
                    v.push((q, true));
                }
            }
        }
        _ => {}
    });
    v
}
fn long_doc((path, key): &(Vec<String>, bool), text: String) -> String {
    let mut doc = crate::json::read(LONG).expect("the document with every member");
    if *key {
        let (k, at) = path.split_last().expect("key");
        if let Some(J::Obj(m)) = doc.at_mut(at) {
            m.iter_mut().filter(|x| x.0 == *k).for_each(|x| x.0 = text.clone());
        }
    } else if let Some(x) = doc.at_mut(path) {
        *x = js(text);
    }
    doc.to_text()
}
/// On a stack of the size that threads have by default: no text calls for recursion.
fn on_small_stack(l: &mut Local, f: impl FnOnce(&mut Local) + Send) {
    let body = || {
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(l)));
        done.map_err(|e| (e, LAST_PANIC.with(|x| x.borrow().clone())))
    };
    let done = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, body).expect("thread").join());
    if let Ok(Err((e, at))) = done {
        LAST_PANIC.with(|x| *x.borrow_mut() = at);
        std::panic::resume_unwind(e)
    }
}
fn long_with<P: Prof>(l: &mut Local, case: u64, n: usize) {
    let places = long_places();
    let (place, unit) = (&places[case as usize / UNITS.len()], case as usize % UNITS.len());
    l.doing = format!("{} {} with {n} bytes of {:?}", place.0.join("/"), if place.1 { "named" } else { "filled" }, UNITS[unit]);
    l.seen(case);
    let (small, text) = (long_doc(place, long_text(unit, n / 4)), long_doc(place, long_text(unit, n)));
    let sizes = (n / 4, n);
    if let Err(e) = serde_json::from_str::<Thing<P>>(LONG) {
        l.fail("long-base", format!("{}: {e}", P::NAME));
    }
    let (x, a) = metered(|| serde_json::from_str::<Thing<P>>(&small));
    let (y, b) = metered(|| serde_json::from_str::<Thing<P>>(&text));
    afford(l, "long", text.len(), 8, b);
    growth(l, "parse", a, b, sizes);
    match (x, y) {
        (Ok(x), Ok(y)) => {
            l.count("long accepted");
            let (_, a) = metered(|| serde_json::to_string(&x).is_ok());
            let (q, b) = metered(|| serde_json::to_string(&y));
            growth(l, "serialize", a, b, sizes);
            match q.map(|q| serde_json::from_str::<Thing<P>>(&q)) {
                Ok(Ok(z)) if z == y => {}
                Ok(Ok(_)) => l.fail("unequal-long", oneline(&l.doing.clone(), 300)),
                Ok(Err(e)) => l.fail("unparsable-long", oneline(&format!("{e}: {}", l.doing), 300)),
                Err(e) => l.fail("unserializable-long", oneline(&format!("{e}: {}", l.doing), 300)),
            }
        }
        (Err(_), Err(e)) => {
            l.count("long refused");
            if e.to_string().len() > 4 * n + 10_000 {
                l.fail("long-error", oneline(&l.doing.clone(), 300));
            }
        }
        _ => l.count("long judged by length"),
    }
}
const WIDE_CHARS: &[&str] = &["\u{e9}", "\u{20ac}", "\u{1F9D1}"];
const OFFSETS: usize = 70;
/// A text that begins like the given one, with a character of several bytes at the offset.
fn straddle(word: &str, at: usize, wide: usize, tail: bool) -> String {
    let mut t: String = word.chars().filter(char::is_ascii).take(at).collect();
    while t.len() < at {
        t.push('x');
    }
    t + WIDE_CHARS[wide] + if tail { "tail" } else { "" }
}
/// Byte offsets inside of a character, at every place of a document.
fn straddle_doc<P: Prof>(l: &mut Local, case: u64) {
    static ALL: std::sync::OnceLock<Vec<(Vec<String>, bool)>> = std::sync::OnceLock::new();
    let places = ALL.get_or_init(long_places);
    let place = &places[case as usize / OFFSETS];
    let at = case as usize % OFFSETS;
    let mut doc = crate::json::read(LONG).expect("the document with every member");
    let old = match doc.at_mut(&place.0) {
        Some(J::Str(t)) if !place.1 => t.clone(),
        _ => place.0[place.0.len() - 1].clone(),
    };
    l.seen(case);
    for wide in 0..WIDE_CHARS.len() {
        let text = long_doc(place, straddle(&old, at, wide, at % 2 == 0));
        l.doing = format!("{} {text}", P::NAME);
        match serde_json::from_str::<Thing<P>>(&text) {
            Err(e) => {
                l.count("straddled refused");
                let _ = e.to_string();
            }
            Ok(x) => {
                l.count("straddled accepted");
                let _ = format!("{x:?}");
                match serde_json::to_string(&x).map(|q| serde_json::from_str::<Thing<P>>(&q)) {
                    Ok(Ok(z)) if z == x => {}
                    _ => l.fail("unparsable-straddled", oneline(&l.doing.clone(), 1500)),
                }
            }
        }
    }
}
/// The same at every place of builder programs.
fn straddle_build<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    g.fuel = 20;
    g.big = None;
    g.density = 7;
    let mut d = dump(&g.thing());
    let mut left = isize::MAX;
    lengthen(&mut d, &mut left, "");
    let places = (isize::MAX - left) as usize;
    if places == 0 {
        return l.seen_trivial();
    }
    for _ in 0..4 {
        let (place, wide, tail) = (r.below(places), r.below(WIDE_CHARS.len()), r.coin());
        let mut left = place as isize;
        let old = text_at(&d, &mut left).unwrap_or_default();
        let at = if r.chance(3, 4) { r.below(old.len().min(OFFSETS) + 1) } else { r.below(OFFSETS) };
        let (mut d, mut left) = (d.clone(), place as isize);
        lengthen(&mut d, &mut left, &straddle(&old, at, wide, tail));
        let Ok(t) = undump::<MThing>(&d) else { continue };
        l.doing = format!("{} {}", P::NAME, d.to_text());
        l.seen(hash_bytes(l.doing.as_bytes()));
        match run::<P>(&expressible(t), r.fork()) {
            Err(e) => {
                l.count("straddled build refused");
                let _ = (e.to_string(), format!("{e:?}"));
            }
            Ok(t) => {
                l.count("straddled build accepted");
                match serde_json::to_string(&t).map(|q| serde_json::from_str::<Thing<P>>(&q)) {
                    Ok(Ok(z)) if z == t || same_text(&z, &t) => {}
                    _ => l.fail("unparsable-straddled", oneline(&l.doing.clone(), 3000)),
                }
            }
        }
    }
}
/// A null constant does not survive the dump, and a schema needs something.
fn expressible(t: MThing) -> Plan {
    let mut plan = Plan::new(t);
    each_ds_mut(&mut plan, &mut |_, d| {
        if d.sub.is_none() && d.constant.is_none() && d.one_of.is_none() && d.enumeration.is_none() {
            d.sub = Some(MSub::Bool);
        }
    });
    plan
}
/// The text that `lengthen` would replace.
fn text_at(j: &J, left: &mut isize) -> Option<String> {
    const MARK: &str = "\u{1}the place\u{2}";
    let mut d = j.clone();
    lengthen(&mut d, left, MARK);
    fn find(a: &J, b: &J) -> Option<String> {
        match (a, b) {
            (J::Str(x), J::Str(y)) => (y == MARK).then(|| x.clone()),
            (J::Arr(x), J::Arr(y)) => x.iter().zip(y).find_map(|(x, y)| find(x, y)),
            (J::Obj(x), J::Obj(y)) => x.iter().zip(y).find_map(|((k, x), (q, y))| if q == MARK { Some(k.clone()) } else { find(x, y) }),
            _ => None,
        }
    }
    find(j, &d)
}
/// Every text of a builder program, with the place it has in it.
fn each_text(j: &mut J, path: &mut Vec<String>, f: &mut dyn FnMut(&[String], &mut J)) {
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                path.push(k.clone());
                match x {
                    J::Str(_) if TEXT_KEYS.contains(&k.as_str()) => f(path, x),
                    J::Arr(a) if ["attype", "scopes", "profile", "hreflang", "sec"].contains(&k.as_str()) => a.iter_mut().for_each(|x| f(path, x)),
                    J::Obj(m) if ["titles", "descriptions", "properties", "actions", "events", "uri", "schemas"].contains(&k.as_str()) => {
                        for (k, x) in m {
                            let mut name = js(k.clone());
                            f(path, &mut name);
                            if let J::Str(t) = name {
                                *k = t;
                            }
                            each_text(x, path, f);
                        }
                    }
                    _ => each_text(x, path, f),
                }
                path.pop();
            }
        }
        J::Arr(v) => v.iter_mut().for_each(|x| each_text(x, path, f)),
        _ => {}
    }
}
/// One text of a builder program is another.
fn lengthen(j: &mut J, left: &mut isize, text: &str) {
    each_text(j, &mut vec![], &mut |_, x| {
        if *left == 0 {
            *x = js(text);
        }
        *left -= 1;
    });
}
fn long_build<P: BProf>(l: &mut Local, case: u64, n: usize) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let (unit, seed) = (case as usize % UNITS.len(), r.u64());
    g.fuel = 20;
    g.big = None;
    g.density = 7;
    let mut d = dump(&g.thing());
    // Every kind of place takes its turn with every shape.
    let mut kinds: BTreeMap<String, Vec<isize>> = BTreeMap::new();
    let mut n_texts = 0;
    each_text(&mut d, &mut vec![], &mut |p, _| {
        kinds.entry(p[p.len().saturating_sub(2)..].join("/")).or_default().push(n_texts);
        n_texts += 1;
    });
    if kinds.is_empty() {
        return l.seen_trivial();
    }
    let kind = kinds.keys().nth((case as usize / UNITS.len()) % kinds.len()).expect("kind").clone();
    let place = *r.pick(&kinds[&kind]);
    let program = |n: usize| {
        let (mut d, mut left) = (d.clone(), place);
        lengthen(&mut d, &mut left, &long_text(unit, n));
        if left >= 0 {
            return None;
        }
        undump::<MThing>(&d).ok().map(expressible)
    };
    let (Some(small), Some(plan)) = (program(n / 4), program(n)) else {
        return l.seen_trivial();
    };
    l.doing = format!("{} {kind} (text {place}) with {n} bytes of {:?} in {}", P::NAME, UNITS[unit], oneline(&d.to_text(), 4000));
    l.seen(hash_bytes(l.doing.as_bytes()));
    let (_, a) = metered(|| run::<P>(&small, Rng::new(seed)).is_ok());
    let (x, b) = metered(|| run::<P>(&plan, Rng::new(seed)));
    afford(l, "long build", n, 8, b);
    growth(l, "build", a, b, (n / 4, n));
    match x {
        Err(e) => {
            l.count("long build refused");
            if e.to_string().len() > 4 * n + 10_000 {
                l.fail("long-error", oneline(&l.doing.clone(), 300));
            }
        }
        Ok(t) => {
            l.count("long build accepted");
            match serde_json::to_string(&t).map(|q| serde_json::from_str::<Thing<P>>(&q)) {
                Ok(Ok(z)) if z == t || same_text(&z, &t) => {}
                Ok(Ok(_)) => l.fail("unequal-long", oneline(&l.doing.clone(), 3000)),
                Ok(Err(e)) => l.fail("unparsable-long", oneline(&format!("{e}: {}", l.doing), 3000)),
                Err(e) => l.fail("unserializable-long", oneline(&format!("{e}: {}", l.doing), 3000)),
            }
        }
    }
}

// ---- input and output faults -------------------------------------------------------------------

fn io_case<X: Part>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let text = doc::<X>(&mut r).to_text();
    l.doing = text.clone();
    l.seen(hash_bytes(text.as_bytes()));
    let Ok(t) = serde_json::from_str::<X::T>(&text) else {
        return l.fail(format!("rejected-{}", X::NAME), oneline(&text, 1500));
    };
    for _ in 0..4 {
        let at = r.below(text.len());
        let kind = *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut]);
        let rd = Irregular {
            data: text.as_bytes(),
            r: r.fork(),
            fail: Some((at, kind)),
        };
        match serde_json::from_reader::<_, X::T>(rd) {
            Ok(_) => l.fail("fault-ignored", format!("a reader that fails at byte {at} gives a value")),
            Err(e) if e.is_io() && e.io_error_kind() == Some(kind) => l.count("read faults reported"),
            Err(e) => l.fail("fault-misreported", format!("a reader that fails at byte {at} gives {e}")),
        }
        // The input ends early.
        match serde_json::from_slice::<X::T>(&text.as_bytes()[..at]) {
            Ok(_) => l.fail("fault-ignored", format!("a document cut at byte {at} gives a value")),
            Err(e) if e.is_eof() => l.count("cut documents refused"),
            Err(e) => {
                if std::str::from_utf8(&text.as_bytes()[..at]).is_ok() {
                    l.count("cut documents refused otherwise");
                    let _ = e;
                }
            }
        }
        let out = serde_json::to_string(&t).unwrap_or_default();
        let at = r.below(out.len());
        let kind = *r.pick(&[ErrorKind::Other, ErrorKind::WriteZero, ErrorKind::BrokenPipe]);
        match serde_json::to_writer(FailingWriter(at, kind), &t) {
            Ok(()) => l.fail("fault-ignored", format!("a writer that fails at byte {at} of {} succeeds", out.len())),
            Err(e) if e.is_io() => l.count("write faults reported"),
            Err(e) => l.fail("fault-misreported", format!("a writer that fails at byte {at} gives {e}")),
        }
    }
}

// ---- builder -----------------------------------------------------------------------------------

const TEXT_KEYS: &[&str] = &[
    "title", "description", "unit", "format", "href", "ct", "coding", "subproto", "pat", "enc", "media", "base", "support", "id", "anchor",
    "rel", "ty", "sizes", "proxy", "authz", "alg", "flow", "token", "refresh", "instance", "model", "schema",
];
fn wilden(j: &mut J, r: &mut Rng) {
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                match x {
                    J::Str(t) if TEXT_KEYS.contains(&k.as_str()) => {
                        if r.chance(1, 6) {
                            *t = wild_text(r);
                        }
                    }
                    J::Arr(a) if ["attype", "scopes", "profile", "hreflang", "sec"].contains(&k.as_str()) => {
                        for x in a {
                            if r.chance(1, 10) {
                                *x = js(wild_text(r));
                            }
                        }
                    }
                    J::Obj(m) if ["titles", "descriptions", "properties", "actions", "events", "uri", "schemas"].contains(&k.as_str()) => {
                        for (k, x) in m {
                            if r.chance(1, 10) {
                                *k = wild_text(r);
                            }
                            wilden(x, r);
                        }
                    }
                    _ => wilden(x, r),
                }
            }
        }
        J::Arr(v) => v.iter_mut().for_each(|x| wilden(x, r)),
        _ => {}
    }
}
fn wild_f(r: &mut Rng) -> f64 {
    *r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, f64::MAX, f64::MIN, 1.5])
}
fn wild_i(r: &mut Rng) -> i64 {
    *r.pick(&[i64::MIN, i64::MIN + 1, -1, 0, 1, i64::MAX - 1, i64::MAX])
}
fn bd<T>(r: &mut Rng, x: T) -> Option<Bd<T>> {
    match r.below(3) {
        0 => None,
        1 => Some(Bd::In(x)),
        _ => Some(Bd::Ex(x)),
    }
}
fn built_case<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    g.fuel = 40;
    let mut d = dump(&g.thing());
    wilden(&mut d, &mut r);
    let t: MThing = match undump(&d) {
        Ok(t) => t,
        // Two keys of one map were renamed alike.
        Err(_) => return l.seen_trivial(),
    };
    let mut plan = Plan::new(t);
    let calm = r.coin();
    each_ds_mut(&mut plan, &mut |_, d| match &mut d.sub {
        None if d.constant.is_none() && d.one_of.is_none() && d.enumeration.is_none() => {
            // A null constant does not survive the dump.
            d.sub = Some(MSub::Bool);
        }
        Some(MSub::Num { min, max, mult }) if !calm && r.coin() => {
            let (a, b) = (wild_f(&mut r), wild_f(&mut r));
            *min = bd(&mut r, a);
            *max = bd(&mut r, b);
            *mult = r.coin().then(|| wild_f(&mut r));
        }
        Some(MSub::Int { min, max, mult }) if !calm && r.coin() => {
            let (a, b) = (wild_i(&mut r), wild_i(&mut r));
            *min = bd(&mut r, a);
            *max = bd(&mut r, b);
            *mult = r.coin().then(|| *r.pick(&[1, 2, u64::MAX]));
        }
        Some(MSub::Str { min, max, .. }) if r.coin() => {
            // Some builders have no setters for these.
            *min = min.map(|_| *r.pick(&[0, u32::MAX]));
            *max = max.map(|_| *r.pick(&[0, u32::MAX]));
        }
        Some(MSub::Arr { min, max, items, .. }) if !matches!(items, Some(MItems::Many(_))) && !calm && r.coin() => {
            *min = r.coin().then(|| *r.pick(&[0, u32::MAX]));
            *max = r.coin().then(|| *r.pick(&[0, u32::MAX]));
        }
        _ => {}
    });
    let inj: [fn(&mut Plan, &mut Gen) -> Option<String>; 5] = [inject_security, inject_op, inject_constraint, inject_name, inject_tag];
    for _ in 0..if calm { 0 } else { r.below(4) } {
        let f = *r.pick(&inj);
        f(&mut plan, &mut g);
    }
    l.doing = format!("{} {}", P::NAME, dump(&plan).to_text());
    l.seen(hash_bytes(l.doing.as_bytes()));
    let size = l.doing.len();
    let (x, c) = metered(|| run::<P>(&plan, r.fork()));
    afford(l, "build", size, 20, c);
    match x {
        Err(e) => {
            l.count("build refused");
            let _ = (e.to_string(), format!("{e:?}"), std::error::Error::source(&e).map(|x| x.to_string()));
        }
        Ok(t) => {
            l.count("build accepted");
            let _ = format!("{t:?}");
            match serde_json::to_string(&t) {
                Err(_) => l.count("not serializable"),
                Ok(text) => match serde_json::from_str::<Thing<P>>(&text) {
                    Ok(u) => {
                        l.count("built parses");
                        accepted(l, "built", &u, text.len(), depth_of(text.as_bytes()));
                    }
                    Err(e) => l.fail("unparsable-built", format!("{e}: {}", oneline(&text, 1500))),
                },
            }
        }
    }
}
/// Every instant and offset the date type can hold.
fn date_case(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let y = *r.pick(&[-9999, -1, 0, 1, 999, 1583, 2024, 9999]);
    let off = *r.pick(&[(0, 0, 0), (25, 59, 59), (-25, -59, -59), (0, 0, 1), (23, 59, 0), (-23, -59, 0), (24, 0, 0), (-12, 0, -30)]);
    let (Ok(d), Ok(t), Ok(o)) = (
        time::Date::from_ordinal_date(y, r.range(1, 365) as u16),
        time::Time::from_hms_nano(r.below(24) as u8, r.below(60) as u8, r.below(60) as u8, r.u64() as u32 % 1_000_000_000),
        time::UtcOffset::from_hms(off.0, off.1, off.2),
    ) else {
        return l.seen_trivial();
    };
    let at = time::PrimitiveDateTime::new(d, t).assume_offset(o);
    l.doing = format!("{at:?}");
    l.seen(hash_bytes(l.doing.as_bytes()));
    let b = ThingBuilder::<Nil, _>::new("t").finish_extend();
    let b = if r.coin() { b.created(at) } else { b.modified(at) };
    match b.build() {
        Err(e) => l.fail("date", format!("{e:?}")),
        Ok(t) => match serde_json::to_string(&t) {
            Err(_) => l.count("dates refused"),
            Ok(x) => {
                l.count("dates written");
                match serde_json::from_str::<Thing<Nil>>(&x) {
                    Ok(u) if u.created == t.created && u.modified == t.modified => {}
                    Ok(_) => l.fail("date", format!("{at:?} comes back as another date: {x}")),
                    Err(e) => l.fail("date", format!("{e}: {x}")),
                }
            }
        },
    }
}

pub fn p15(t: Tier) -> Check {
    let n = t.n(40_000, 120_000) as usize;
    let long = t.n(100_000, 400_000) as usize;
    Check {
        pid: "P15",
        rule: "Token soup, byte-mutated and node-swapped documents of every part and extension stack on the text, slice, \
               irregular-reader and value-tree routes; chains of every kind of nesting up to and beyond the parser's depth \
               limit; members and list entries by the ten thousands; \
               every text and name of a document and of builder programs with a hundred thousand characters of each of 34 \
               shapes (brackets, separators, escapes, relative paths, language subtags, combining marks), and with a \
               character of two to four bytes at each of the first 70 byte offsets; readers and writers that fail at any byte; builder \
               programs with arbitrary texts, numbers and dates and injected faults. Monitors: panics and fatal signals \
               (8 MiB stacks, supervised process), bytes allocated and live per thread, processor time, growth against a \
               quarter of the size, agreement of routes, and that whatever is accepted can be written and read again. \
               distinct counts different inputs.",
        assumptions: vec![
            "value trees are at most as deep as the text parser admits (deeper ones overflow serde_json's own destructor)",
            "allocation and time bounds are several times the cost measured on the pristine tree",
        ],
        stack: 8 << 20,
        must_see: vec![
            "accepted.thing",
            "refused.thing",
            "accepted.data-schema",
            "accepted.form",
            "accepted.security",
            "route.value",
            "route.reader",
            "deep.oneOf",
            "deep.long",
            "deep built",
            "chains",
            "growth measured",
            "wide accepted",
            "wide built",
            "long accepted",
            "long refused",
            "long build refused",
            "long build accepted",
            "straddled accepted",
            "straddled refused",
            "straddled build accepted",
            "straddled build refused",
            "read faults reported",
            "write faults reported",
            "cut documents refused",
            "build refused",
            "build accepted",
            "built parses",
            "dates written",
            "dates refused",
        ],
        phases: vec![
            phase("soup", t.n(40_000, 2_000_000), |l, c| for_part!(c, bytes_case(l, c))),
            phase("mutated", t.n(25_000, 800_000), |l, c| for_part!(c, mutated(l, c))),
            phase("swapped", t.n(25_000, 800_000), |l, c| for_part!(c, swapped(l, c))),
            exhaustive("deep", (DEEP.len() * SPOTS * ENDS.len() * DEPTHS.len()) as u64, deep_case),
            exhaustive("deep builder", 75, deep_build),
            exhaustive("chains", (CHAINS.len() * CHAIN_DEPTHS.len()) as u64, chain_case),
            exhaustive("wide", 2 * (WIDE.len() + STRINGS.len()) as u64, move |l, c| wide_case(l, c, n)),
            exhaustive("wide builder", WIDE_BUILDS as u64, move |l, c| wide_build_case(l, c, n)),
            exhaustive("long", (2 * UNITS.len() * long_places().len()) as u64, move |l, c| match c % 2 {
                0 => on_small_stack(l, |l| long_with::<Nil>(l, c / 2, long)),
                _ => on_small_stack(l, |l| long_with::<PHCM>(l, c / 2, long)),
            }),
            exhaustive("straddled", (2 * OFFSETS * long_places().len()) as u64, |l, c| match c % 2 {
                0 => straddle_doc::<Nil>(l, c / 2),
                _ => straddle_doc::<PHCM>(l, c / 2),
            }),
            phase("straddled builder", t.n(4_000, 200_000), |l, c| for_bprof!(c, straddle_build(l, c))),
            phase("long builder", t.n(3_400, 20_000), move |l, c| on_small_stack(l, |l| for_bprof!(c, long_build(l, c, long)))),
            phase("io faults", t.n(4_000, 100_000), |l, c| for_part!(c, io_case(l, c))),
            phase("builder", t.n(8_000, 300_000), |l, c| for_bprof!(c, built_case(l, c))),
            phase("dates", t.n(2_000, 20_000), date_case),
        ],
    }
}

