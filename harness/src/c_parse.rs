//! P01, P02, P03, P18: parsing and serialization against the model.
use crate::conv::*;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{diff, from_value, read, shuffle_keys, to_value, write_noisy, J};
use crate::model::*;
use crate::rng::Rng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use wot_td::hlist::Nil;
use wot_td::thing::*;

/// A kind of value that has its own document form.
pub trait Part {
    const NAME: &'static str;
    type M: Serialize + Clone;
    type T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug;
    fn exts() -> &'static [Ext];
    fn gen(g: &mut Gen) -> Self::M;
    fn mk(m: &Self::M) -> Self::T;
    fn ob(t: &Self::T) -> Self::M;
    fn canon(c: &mut Canon, m: &Self::M) -> J;
    fn render(st: Sty, m: &Self::M) -> J {
        Self::canon(
            &mut Canon {
                exts: Self::exts(),
                st,
            },
            m,
        )
    }
}

macro_rules! part {
    ($id:ident, $name:literal, $m:ty, $t:ty, $g:expr, $mk:expr, $ob:expr, $cn:expr) => {
        pub struct $id<P>(std::marker::PhantomData<P>);
        impl<P: Prof> Part for $id<P> {
            const NAME: &'static str = $name;
            type M = $m;
            type T = $t;
            fn exts() -> &'static [Ext] {
                P::EXTS
            }
            fn gen(g: &mut Gen) -> $m {
                #[allow(clippy::redundant_closure_call)]
                ($g)(g)
            }
            fn mk(m: &$m) -> $t {
                #[allow(clippy::redundant_closure_call)]
                ($mk)(m)
            }
            fn ob(t: &$t) -> $m {
                #[allow(clippy::redundant_closure_call)]
                ($ob)(t)
            }
            fn canon(c: &mut Canon, m: &$m) -> J {
                #[allow(clippy::redundant_closure_call)]
                ($cn)(c, m)
            }
        }
    };
}
part!(PtThing, "thing", MThing, Thing<P>, |g: &mut Gen| g.thing(), mk_thing::<P>, ob_thing::<P>, Canon::thing);
part!(PtProp, "property", MProp, PropertyAffordance<P>, |g: &mut Gen| g.prop(), mk_prop::<P>, ob_prop::<P>, Canon::prop);
part!(PtAct, "action", MAct, ActionAffordance<P>, |g: &mut Gen| g.act(), mk_act::<P>, ob_act::<P>, Canon::act);
part!(PtEvt, "event", MEvt, EventAffordance<P>, |g: &mut Gen| g.evt(), mk_evt::<P>, ob_evt::<P>, Canon::evt);
part!(
    PtDs,
    "data-schema",
    MDs,
    Ds<P>,
    |g: &mut Gen| {
        let d = g.depth();
        g.ds(d, false)
    },
    mk_ds::<P>,
    ob_ds,
    Canon::ds
);
part!(
    PtForm,
    "form",
    MForm,
    Form<P>,
    |g: &mut Gen| g.form(&[], false),
    mk_form::<P>,
    ob_form::<P>,
    Canon::form
);
part!(
    PtSec,
    "security",
    MSec,
    SecurityScheme,
    |g: &mut Gen| {
        let k = g.r.below(11);
        g.sec(k)
    },
    mk_sec,
    ob_sec,
    Canon::sec
);
part!(PtLink, "link", MLink, Link, |g: &mut Gen| g.link(), mk_link, ob_link, Canon::link);

/// Runs a generic function over a part kind and a profile chosen by the case number.
#[macro_export]
macro_rules! for_part {
    ($case:expr, $f:ident ( $($a:expr),* )) => {{
        fn th<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtThing<P>>(l, c) }
        fn pr<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtProp<P>>(l, c) }
        fn ac<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtAct<P>>(l, c) }
        fn ev<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtEvt<P>>(l, c) }
        fn ds<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtDs<P>>(l, c) }
        fn fo<P: $crate::conv::Prof>(l: &mut Local, c: u64) { $f::<$crate::c_parse::PtForm<P>>(l, c) }
        let p = $case / 10;
        match $case % 10 {
            0..=2 => $crate::for_profile!(p, th($($a),*)),
            3 => $crate::for_profile!(p, pr($($a),*)),
            4 => $crate::for_profile!(p, ac($($a),*)),
            5 => $crate::for_profile!(p, ev($($a),*)),
            6 => $crate::for_profile!(p, ds($($a),*)),
            7 => $crate::for_profile!(p, fo($($a),*)),
            8 => $f::<$crate::c_parse::PtSec<wot_td::hlist::Nil>>($($a),*),
            _ => $f::<$crate::c_parse::PtLink<wot_td::hlist::Nil>>($($a),*),
        }
    }};
}

/// Reads what a serializer wrote with the independent reader and compares.
pub fn same_text(exp: &J, text: &str) -> Result<(), String> {
    let got = read(text).map_err(|e| format!("output is not a well-formed document: {e}: {text}"))?;
    match diff(exp, &got) {
        None => Ok(()),
        Some(d) => Err(format!("{d} (document {})", oneline(text, 1500))),
    }
}
pub fn same_model<M: Serialize>(exp: &M, got: &M, ctx: &str) -> Result<(), String> {
    match diff(&dump(exp), &dump(got)) {
        None => Ok(()),
        Some(d) => Err(format!("{d} (input {})", oneline(ctx, 1500))),
    }
}

/// Member names seen, for the evidence.
fn tally(l: &mut Local, j: &J) {
    let mut v = vec![];
    j.walk(&mut v, &mut |p, _| {
        if let Some(k) = p.last() {
            if TALLY.contains(&k.as_str()) {
                l.count(format!("member {k}"));
            }
        }
    });
}
const TALLY: &[&str] = &[
    "properties", "actions", "events", "forms", "links", "oneOf", "items", "enum", "const", "default",
    "exclusiveMinimum", "multipleOf", "additionalResponses", "response", "uriVariables", "schemaDefinitions",
    "titles", "created", "version", "subscription", "data_response", "profile", "hreflang", "qop",
];

fn gen_part<X: Part>(l: &mut Local, case: u64, mode: Mode) -> (X::M, Rng) {
    let mut g = Gen::new(l.rng(case), X::exts(), mode);
    let m = X::gen(&mut g);
    (m, g.r)
}

// ---- P01 ---------------------------------------------------------------------------------------

fn p01_case<X: Part>(l: &mut Local, case: u64) {
    let (m, mut r) = gen_part::<X>(l, case, Mode::Parse);
    let st = match r.below(3) {
        0 => Sty::Canon,
        1 => Sty::Terse,
        _ => Sty::Noisy(r.fork(), Noise::ALL),
    };
    let mut j = X::render(st, &m);
    let h = j.hash();
    shuffle_keys(&mut j, &mut r);
    let text = if r.coin() { j.to_text() } else { write_noisy(&j, &mut r) };
    l.doing = text.clone();
    l.seen(h);
    l.count(X::NAME);
    tally(l, &j);
    l.sample(|| text.clone());
    let t: X::T = match serde_json::from_str(&text) {
        Ok(t) => t,
        Err(e) => {
            l.fail(format!("rejected-{}", X::NAME), format!("{e}: {}", oneline(&text, 2000)));
            return;
        }
    };
    l.check(&format!("content-{}", X::NAME), same_model(&m, &X::ob(&t), &text));
}

/// One optional member at a time, on otherwise minimal documents: no member may be lost, moved,
/// or take another's default.
fn p01_sparse<X: Part>(l: &mut Local, case: u64) {
    let mut g = Gen::new(l.rng(case), X::exts(), Mode::Parse);
    g.density = 1;
    g.fuel = 6;
    let m = X::gen(&mut g);
    let j = X::render(Sty::Terse, &m);
    let text = j.to_text();
    l.doing = text.clone();
    l.seen(j.hash());
    l.count(X::NAME);
    match serde_json::from_str::<X::T>(&text) {
        Ok(t) => {
            l.check(&format!("content-{}", X::NAME), same_model(&m, &X::ob(&t), &text));
        }
        Err(e) => l.fail(format!("rejected-{}", X::NAME), format!("{e}: {text}")),
    }
}

pub fn p01(t: Tier) -> Check {
    Check {
        pid: "P01",
        rule: "seeded models of Thing Descriptions and of their parts, rendered as documents in canonical, terse or noisy spelling with shuffled members, over five extension stacks; distinct counts different documents up to member order",
        assumptions: vec![
            "documents stay inside the domain of properties.jsonl: finite floats whose shortest spelling the JSON library reads back, no duplicate member names, custom security data is an object, dates within RFC 3339",
            "the model, the document writer and the comparison are independent of the crate; observation reads public fields",
        ],
        stack: 32 << 20,
        must_see: vec!["thing", "property", "action", "event", "data-schema", "form", "security", "link"],
        phases: vec![
            phase("documents", t.n(120_000, 3_000_000), |l, c| for_part!(c, p01_case(l, c))),
            phase("sparse", t.n(80_000, 1_000_000), |l, c| for_part!(c, p01_sparse(l, c))),
            exhaustive("dates", DATES as u64, date_case),
        ],
    }
}

const DATES: usize = 4 * 12 * 31 + 24 * 60 + 2879 + 60 + 40;
/// Every month/day of four years, minute of a day, UTC offset, second, and fraction length.
fn date_case(l: &mut Local, case: u64) {
    let mut d = MDt {
        y: 2023,
        mo: 6,
        d: 15,
        h: 12,
        mi: 30,
        s: 45,
        ns: 0,
        off: 0,
    };
    let mut i = case as usize;
    let mut frac = String::new();
    if i < 4 * 12 * 31 {
        d.y = [1900, 2000, 2023, 2024][i / 372];
        d.mo = (i % 372 / 31) as u8 + 1;
        d.d = (i % 31) as u8 + 1;
        let leap = d.y % 4 == 0 && (d.y % 100 != 0 || d.y % 400 == 0);
        let max = match d.mo {
            2 => 28 + leap as u8,
            4 | 6 | 9 | 11 => 30,
            _ => 31,
        };
        if d.d > max {
            // Not a date: must be rejected.
            let text = format!(
                "{{\"title\":\"t\",\"security\":[],\"securityDefinitions\":{{}},\"created\":\"{:04}-{:02}-{:02}T12:30:45Z\"}}",
                d.y, d.mo, d.d
            );
            l.doing = text.clone();
            l.seen(crate::rng::hash_bytes(text.as_bytes()));
            if serde_json::from_str::<Thing<Nil>>(&text).is_ok() {
                l.fail("impossible-date", text);
            }
            return;
        }
    } else {
        i -= 4 * 372;
        if i < 1440 {
            d.h = (i / 60) as u8;
            d.mi = (i % 60) as u8;
        } else if i < 1440 + 2879 {
            d.off = (i - 1440) as i16 - 1439;
        } else if i < 1440 + 2879 + 60 {
            d.s = (i - 1440 - 2879) as u8;
        } else {
            let k = i - 1440 - 2879 - 60;
            let digits = k % 9 + 1;
            let v = [1u64, 5, 123_456_789, 999_999_999, 100_000_000][k / 9 % 5];
            let text = format!("{v:09}");
            frac = text[..digits].to_string();
            d.ns = format!("{:0<9}", frac).parse().unwrap();
        }
    }
    for field in ["created", "modified"] {
        let mut stamp = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", d.y, d.mo, d.d, d.h, d.mi, d.s);
        if !frac.is_empty() {
            stamp.push('.');
            stamp.push_str(&frac);
        }
        if d.off == 0 {
            stamp.push('Z');
        } else {
            let a = d.off.unsigned_abs();
            stamp.push_str(&format!("{}{:02}:{:02}", if d.off < 0 { '-' } else { '+' }, a / 60, a % 60));
        }
        let text = format!("{{\"title\":\"t\",\"security\":[],\"securityDefinitions\":{{}},\"{field}\":\"{stamp}\"}}");
        l.doing = text.clone();
        l.seen(crate::rng::hash_bytes(text.as_bytes()));
        match serde_json::from_str::<Thing<Nil>>(&text) {
            Err(e) => l.fail("date-rejected", format!("{e}: {text}")),
            Ok(t) => {
                let got = if field == "created" { t.created } else { t.modified };
                match got {
                    Some(x) if ob_date(&x) == d => {}
                    x => l.fail("date-content", format!("{stamp}: {x:?}")),
                }
            }
        }
    }
}

// ---- P02 ---------------------------------------------------------------------------------------

fn p02_case<X: Part>(l: &mut Local, case: u64) {
    let (m, _) = gen_part::<X>(l, case, Mode::Direct);
    let exp = X::render(Sty::Canon, &m);
    let t = X::mk(&m);
    l.doing = exp.to_text();
    l.seen(exp.hash());
    l.count(X::NAME);
    tally(l, &exp);
    l.sample(|| exp.to_text());
    let sig = |k: &str| format!("{k}-{}", X::NAME);
    match serde_json::to_string(&t) {
        Err(e) => l.fail(sig("failed"), e.to_string()),
        Ok(x) => {
            l.check(&sig("content"), same_text(&exp, &x));
        }
    }
    match serde_json::to_value(&t) {
        Err(e) => l.fail(sig("value-failed"), e.to_string()),
        Ok(x) => {
            if let Some(d) = diff(&exp, &from_value(&x)) {
                l.fail(sig("value-content"), d);
            }
        }
    }
}

pub fn p02(t: Tier) -> Check {
    Check {
        pid: "P02",
        rule: "seeded values put together directly from the public structs (any field combination, property halves differing by absence), serialized as text and as value tree, read back by an independent strict reader that rejects duplicate members; distinct counts different expected documents",
        assumptions: vec![
            "values stay inside the domain of properties.jsonl (finite floats, object-shaped custom security data)",
            "readOnly, writeOnly, safe, idempotent and scheme defaults count as content the value holds: the crate always emits them",
        ],
        stack: 32 << 20,
        must_see: vec!["thing", "property", "action", "event", "data-schema", "form", "security", "link"],
        phases: vec![
            phase("values", t.n(120_000, 3_000_000), |l, c| for_part!(c, p02_case(l, c))),
            phase("sparse", t.n(80_000, 1_000_000), |l, c| for_part!(c, p02_sparse(l, c))),
            exhaustive("event-names", 3, p02_event_names),
        ],
    }
}

/// The TD name of the data response member; everywhere else the check uses the name the crate
/// writes, so that this one finding does not hide others.
fn p02_event_names(l: &mut Local, case: u64) {
    let mut e = EventAffordance::<Nil>::default();
    e.interaction.forms.push(Form::default());
    let ds = DataSchema { unit: Some(format!("u{case}")), ..Default::default() };
    e.data_response = Some(ds);
    let v = serde_json::to_value(&e).unwrap_or_default();
    l.seen(case);
    l.count("event names");
    let want = format!("u{case}");
    let unit = |k: &str| v.get(k).and_then(|x| x.get("unit")).and_then(|x| x.as_str()) == Some(&want);
    match (unit("dataResponse"), v.get("data_response").is_some()) {
        (true, false) => {}
        (false, true) if unit("data_response") => l.fail("event-data-response-name", format!("written as data_response instead of dataResponse: {v}")),
        _ => l.fail("event-data-response", format!("{v}")),
    }
}
fn p02_sparse<X: Part>(l: &mut Local, case: u64) {
    let mut g = Gen::new(l.rng(case), X::exts(), Mode::Direct);
    g.density = 1;
    g.fuel = 6;
    let m = X::gen(&mut g);
    let exp = X::render(Sty::Canon, &m);
    l.doing = exp.to_text();
    l.seen(exp.hash());
    l.count(X::NAME);
    match serde_json::to_string(&X::mk(&m)) {
        Err(e) => l.fail(format!("failed-{}", X::NAME), e.to_string()),
        Ok(x) => {
            l.check(&format!("content-{}", X::NAME), same_text(&exp, &x));
        }
    }
}

// ---- P03 ---------------------------------------------------------------------------------------

/// A reader that hands out its bytes in small, irregular chunks.
pub struct Chunks<'a> {
    data: &'a [u8],
    r: Rng,
}
impl std::io::Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.data.is_empty() || buf.is_empty() {
            return Ok(0);
        }
        if self.r.chance(1, 10) {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = self.r.range(1, 7).min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// All the ways a value can be written and read give the same document and the same value.
pub fn round_trip<T>(l: &mut Local, name: &str, t: &T, r: &mut Rng)
where
    T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let sig = |k: &str| format!("{k}-{name}");
    let text = match serde_json::to_string(t) {
        Ok(x) => x,
        Err(e) => return l.fail(sig("serialize"), e.to_string()),
    };
    l.doing = text.clone();
    let doc = match read(&text) {
        Ok(x) => x,
        Err(e) => return l.fail(sig("malformed"), format!("{e}: {text}")),
    };
    // Serialization routes.
    let mut written: Vec<(&str, Result<String, String>)> = vec![];
    let utf = |v: Vec<u8>| String::from_utf8(v).map_err(|e| e.to_string());
    written.push(("vec", serde_json::to_vec(t).map_err(|e| e.to_string()).and_then(utf)));
    written.push(("pretty", serde_json::to_string_pretty(t).map_err(|e| e.to_string())));
    written.push(("vec-pretty", serde_json::to_vec_pretty(t).map_err(|e| e.to_string()).and_then(utf)));
    let mut w = vec![];
    written.push((
        "writer",
        serde_json::to_writer(&mut w, t)
            .map_err(|e| e.to_string())
            .and_then(|_| utf(w)),
    ));
    for (k, x) in &written {
        l.count(format!("route {k}"));
        match x {
            Err(e) => l.fail(sig("route"), format!("{k}: {e}")),
            Ok(x) => {
                l.check(&sig("route"), same_text(&doc, x).map_err(|e| format!("{k}: {e}")));
            }
        }
    }
    let value = match serde_json::to_value(t) {
        Err(e) => return l.fail(sig("route"), format!("value: {e}")),
        Ok(v) => {
            if let Some(d) = diff(&doc, &from_value(&v)) {
                l.fail(sig("route"), format!("value: {d}"));
            }
            v
        }
    };
    // Parsing routes.
    let mut back: Vec<(&str, Result<T, String>)> = vec![];
    back.push(("from_str", serde_json::from_str(&text).map_err(|e| e.to_string())));
    back.push(("from_slice", serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string())));
    back.push(("from_reader", {
        let rd = Chunks {
            data: text.as_bytes(),
            r: r.fork(),
        };
        serde_json::from_reader(rd).map_err(|e| e.to_string())
    }));
    back.push(("from_value", serde_json::from_value(value.clone()).map_err(|e| e.to_string())));
    back.push(("from_value_ref", T::deserialize(&value).map_err(|e| e.to_string())));
    if let Ok(p) = &written[1].1 {
        back.push(("from_pretty", serde_json::from_str(p).map_err(|e| e.to_string())));
    }
    for (k, x) in back {
        l.count(format!("route {k}"));
        match x {
            Err(e) => l.fail(sig("reparse"), format!("{k}: {e}: {}", oneline(&text, 1500))),
            Ok(u) => {
                if &u != t || t != &u {
                    l.fail(
                        sig("unequal"),
                        format!("{k}: parsed back {:?} from {}", oneline(&format!("{u:?}"), 800), oneline(&text, 800)),
                    );
                }
                match serde_json::to_string(&u) {
                    Err(e) => l.fail(sig("reserialize"), format!("{k}: {e}")),
                    Ok(x) => {
                        l.check(&sig("fixpoint"), same_text(&doc, &x).map_err(|e| format!("{k}: {e}")));
                    }
                }
            }
        }
    }
}

fn p03_case<X: Part>(l: &mut Local, case: u64) {
    let (m, mut r) = gen_part::<X>(l, case, Mode::Parse);
    let direct = r.coin();
    let t: X::T = if direct {
        X::mk(&m)
    } else {
        let j = X::render(Sty::Noisy(r.fork(), Noise::ALL), &m);
        match serde_json::from_value(to_value(&j)) {
            Ok(t) => t,
            Err(e) => return l.fail(format!("rejected-{}", X::NAME), format!("{e}: {}", j.to_text())),
        }
    };
    let h = X::render(Sty::Canon, &m).hash();
    l.seen(h);
    l.count(X::NAME);
    round_trip(l, X::NAME, &t, &mut r);
    let d = l.doing.clone();
    l.sample(|| d);
    // Nothing lost or invented on the way, judged independently of the crate's own equality.
    if let Ok(x) = serde_json::to_string(&t) {
        if let Ok(u) = serde_json::from_str::<X::T>(&x) {
            l.check(&format!("content-{}", X::NAME), same_model(&m, &X::ob(&u), &x));
        }
    }
}

pub fn p03(t: Tier) -> Check {
    Check {
        pid: "P03",
        rule: "seeded values, half assembled from public structs, half parsed from noisy documents, written by five serialization routes and read by six parsing routes (including a reader that returns short chunks and interruptions); distinct counts different canonical documents",
        assumptions: vec![
            "values stay inside the domain of properties.jsonl",
        ],
        stack: 32 << 20,
        must_see: vec!["route from_reader", "route from_value", "route pretty", "route writer", "thing", "property"],
        phases: vec![phase("values", t.n(40_000, 600_000), |l, c| for_part!(c, p03_case(l, c)))],
    }
}

// ---- P18 ---------------------------------------------------------------------------------------

fn p18_case<X: Part>(l: &mut Local, case: u64) {
    let (m, mut r) = gen_part::<X>(l, case, Mode::Parse);
    // One dimension of freedom at a time half of the time, all together otherwise.
    let n = match r.below(10) {
        0 => Noise { unknown: true, one_many: false, defaults: false, dates: false, redundant: false },
        1 => Noise { unknown: false, one_many: true, defaults: false, dates: false, redundant: false },
        2 => Noise { unknown: false, one_many: false, defaults: true, dates: false, redundant: false },
        3 => Noise { unknown: false, one_many: false, defaults: false, dates: true, redundant: false },
        4 => Noise { unknown: false, one_many: false, defaults: false, dates: false, redundant: true },
        _ => Noise::ALL,
    };
    let base = X::render(Sty::Terse, &m);
    let base_text = base.to_text();
    l.count(X::NAME);
    let a: X::T = match serde_json::from_str(&base_text) {
        Ok(a) => a,
        Err(e) => return l.fail(format!("rejected-{}", X::NAME), format!("{e}: {base_text}")),
    };
    for k in 0..3 {
        let mut j = X::render(Sty::Noisy(r.fork(), n), &m);
        shuffle_keys(&mut j, &mut r);
        let text = write_noisy(&j, &mut r);
        l.doing = format!("{base_text}\n---\n{text}");
        l.seen(crate::rng::hash_bytes(text.as_bytes()));
        l.count(match (n.unknown, n.one_many, n.defaults, n.dates) {
            (true, true, ..) => "all freedoms",
            (true, ..) => "unknown members",
            (_, true, ..) => "one or many",
            (_, _, true, _) => "explicit defaults",
            (.., true) => "date spelling",
            _ => "redundant bounds and member aliases",
        });
        l.sample(|| text.clone());
        let parsed: Result<X::T, String> = match k {
            0 => serde_json::from_str(&text).map_err(|e| e.to_string()),
            1 => serde_json::from_value(to_value(&j)).map_err(|e| e.to_string()),
            _ => serde_json::from_reader(Chunks {
                data: text.as_bytes(),
                r: r.fork(),
            })
            .map_err(|e| e.to_string()),
        };
        match parsed {
            Err(e) => l.fail(format!("variant-rejected-{}", X::NAME), format!("{e}: {text}")),
            Ok(b) => {
                if a != b || b != a {
                    l.fail(format!("variant-unequal-{}", X::NAME), format!("{base_text} vs {text}"));
                }
                l.check(&format!("variant-content-{}", X::NAME), same_model(&X::ob(&a), &X::ob(&b), &text));
            }
        }
    }
}

// ---- members of other names --------------------------------------------------------------------

/// A document with a place for one more member, and the members that place knows.
type Place = (&'static str, &'static str, Vec<&'static [&'static str]>);
fn places() -> Vec<Place> {
    const TAIL: &str = "\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{\"scheme\":\"nosec\"}}}";
    macro_rules! doc {
        ($x:literal) => {{
            static D: std::sync::OnceLock<String> = std::sync::OnceLock::new();
            D.get_or_init(|| format!("{{{}{TAIL}", $x)).as_str()
        }};
    }
    vec![
        ("thing", doc!("@@"), vec![T_THING]),
        ("version", doc!("\"version\":{@@\"instance\":\"1\"},"), vec![T_VERSION]),
        ("link", doc!("\"links\":[{\"href\":\"a\"},{@@\"href\":\"h\",\"rel\":\"icon\"}],"), vec![T_LINK]),
        ("thing form", doc!("\"forms\":[{@@\"href\":\"h\",\"op\":\"readallproperties\"}],"), vec![T_FORM]),
        ("form", doc!("\"actions\":{\"a\":{\"forms\":[{@@\"href\":\"h\"}]}},"), vec![T_FORM]),
        ("response", doc!("\"actions\":{\"a\":{\"forms\":[{\"href\":\"h\",\"response\":{@@\"contentType\":\"a/b\"}}]}},"), vec![T_RESP]),
        ("additional response", doc!("\"events\":{\"a\":{\"forms\":[{\"href\":\"h\",\"additionalResponses\":[{@@\"contentType\":\"a/b\"}]}]}},"), vec![T_ADDL]),
        ("property", doc!("\"properties\":{\"a\":{@@\"forms\":[{\"href\":\"h\"}],\"type\":\"integer\",\"minimum\":1}},"), vec![T_IA, T_DS, T_PROP]),
        ("plain property", doc!("\"properties\":{\"a\":{@@\"forms\":[]}},"), vec![T_IA, T_DS, T_PROP]),
        ("action", doc!("\"actions\":{\"a\":{@@\"forms\":[]}},"), vec![T_IA, T_ACT]),
        ("event", doc!("\"events\":{\"a\":{@@\"forms\":[]}},"), vec![T_IA, T_EVT]),
        ("array", doc!("\"schemaDefinitions\":{\"d\":{@@\"type\":\"array\",\"maxItems\":3}},"), vec![T_DS]),
        ("object", doc!("\"schemaDefinitions\":{\"d\":{@@\"type\":\"object\"}},"), vec![T_DS]),
        ("string", doc!("\"uriVariables\":{\"d\":{@@\"type\":\"string\",\"pattern\":\"a\"}},"), vec![T_DS]),
        ("number", doc!("\"actions\":{\"a\":{\"forms\":[],\"input\":{@@\"type\":\"number\"}}},"), vec![T_DS]),
        ("integer", doc!("\"schemaDefinitions\":{\"d\":{\"type\":\"array\",\"items\":{@@\"type\":\"integer\"}}},"), vec![T_DS]),
        ("boolean", doc!("\"schemaDefinitions\":{\"d\":{\"type\":\"array\",\"items\":[{@@\"type\":\"boolean\"}]}},"), vec![T_DS]),
        ("null", doc!("\"schemaDefinitions\":{\"d\":{\"type\":\"object\",\"properties\":{\"m\":{@@\"type\":\"null\"}}}},"), vec![T_DS]),
        ("typeless", doc!("\"schemaDefinitions\":{\"d\":{\"oneOf\":[{@@\"title\":\"x\"}]}},"), vec![T_DS]),
        ("nosec", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"nosec\"}}}", vec![T_SEC]),
        ("basic", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"basic\"}}}", vec![T_SEC]),
        ("digest", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"digest\"}}}", vec![T_SEC]),
        ("apikey", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"apikey\"}}}", vec![T_SEC]),
        ("bearer", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"bearer\"}}}", vec![T_SEC]),
        ("psk", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"psk\"}}}", vec![T_SEC]),
        ("oauth2", "{\"title\":\"t\",\"security\":\"s\",\"securityDefinitions\":{\"s\":{@@\"scheme\":\"oauth2\",\"flow\":\"code\"}}}", vec![T_SEC]),
    ]
}
/// Every term of every vocabulary and its near misses, once.
fn foreign_names() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<String> = vec![];
        for t in [T_THING, T_FORM, T_ADDL, T_LINK, T_IA, T_DS, T_PROP, T_ACT, T_EVT, T_SEC, T_VERSION, T_RESP, T_LEGACY].concat() {
            let mut words = String::new();
            for c in t.chars() {
                if c.is_uppercase() && !words.is_empty() {
                    words.push(' ');
                }
                words.push(c);
            }
            v.push(t.into());
            v.extend(crate::c_vocab::spellings(&words));
        }
        v.sort();
        v.dedup();
        v
    })
}
const FOREIGN: [&str; 8] = ["\"zz\"", "true", "1", "{\"zz\":{\"type\":\"null\"}}", "[\"zz\"]", "null", "[{}]", "\"2020-01-01T00:00:00Z\""];
fn p18_names(l: &mut Local, case: u64) {
    let names = foreign_names();
    let places = places();
    let (name, doc, own) = &places[case as usize % places.len()];
    let x = &names[case as usize / places.len()];
    if own.iter().any(|v| v.contains(&x.as_str())) {
        l.count("known members left alone");
        return l.seen_trivial();
    }
    let read = |text: &str| serde_json::from_str::<wot_td::thing::Thing>(text);
    let base = doc.replacen("@@", "", 1);
    let a = match read(&base) {
        Ok(a) => a,
        Err(e) => return l.fail("rejected-base", format!("{e}: {base}")),
    };
    let wa = serde_json::to_value(&a).ok();
    for k in 0..2 {
        let v = FOREIGN[(hash_text(x) as usize + k * 3) % FOREIGN.len()];
        let text = doc.replacen("@@", &format!("{}:{v},", serde_json::to_string(x).expect("text")), 1);
        l.doing = text.clone();
        l.seen(hash_text(&text));
        match read(&text) {
            Err(e) => l.fail(format!("name-rejected/{name}"), format!("{e}: {text}")),
            Ok(b) => {
                if a != b || wa != serde_json::to_value(&b).ok() {
                    l.fail(format!("name-unequal/{name}"), format!("{base} vs {text}"));
                }
            }
        }
        l.count(format!("other name in {name}"));
    }
}
fn hash_text(t: &str) -> u64 {
    crate::rng::hash_bytes(t.as_bytes())
}

pub fn p18(t: Tier) -> Check {
    Check {
        pid: "P18",
        rule: "each seeded model is rendered once tersely and three times with random equivalent spellings (member order, whitespace, escapes, explicit defaults, bare or listed singletons, unknown members, date forms), all parsed and compared by the crate's equality and by observed fields; then every term of every vocabulary and its near misses are put, one at a time, as an additional member into each kind of object that does not know it; distinct counts different variant texts",
        assumptions: vec![
            "unknown members are only added to objects of the TD vocabulary, never to maps, combo schemes or custom schemes whose members are data",
            "no extension in the stacks used captures arbitrary members",
        ],
        stack: 32 << 20,
        must_see: vec!["unknown members", "one or many", "explicit defaults", "date spelling", "redundant bounds and member aliases", "all freedoms", "other name in thing", "other name in oauth2"],
        phases: vec![
            phase("variants", t.n(40_000, 600_000), |l, c| for_part!(c, p18_case(l, c))),
            exhaustive("other names", (places().len() * foreign_names().len()) as u64, p18_names),
        ],
    }
}
