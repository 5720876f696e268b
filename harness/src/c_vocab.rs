//! P16: documents that break the vocabulary are rejected. A typed walk over well-formed documents
//! finds every vocabulary member; each is replaced by every class of wrong value, and every
//! mandatory member is removed.
use crate::c_parse::*;
use crate::for_part;
use crate::fw::*;
use crate::gen::{Gen, Mode, BAD_LANGS};
use crate::json::{s, shuffle_keys, to_value, J};
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum O {
    Thing,
    Prop,
    Act,
    Evt,
    Ds,
    Form,
    Resp,
    Addl,
    Link,
    Sec,
    Version,
}
#[derive(Clone, Copy, Debug)]
enum K {
    Str,
    StrOrMany,
    StrList,
    Bool,
    /// A boolean that is always there, so that null cannot stand for its absence.
    Flag,
    U32,
    NonZero,
    I64,
    F64,
    List(O),
    /// One object or a list.
    Many(O),
    Map(O),
    Obj(O),
    /// A data schema or a list of them.
    Items,
    Langs,
    LangOrMany,
    Date,
    Type,
    OpOrMany,
    AnyList,
    Any,
}
type Row = (&'static str, K, bool);

const HR: &[Row] = &[
    ("@type", K::StrOrMany, false),
    ("title", K::Str, false),
    ("titles", K::Langs, false),
    ("description", K::Str, false),
    ("descriptions", K::Langs, false),
];
const IA: &[Row] = &[("forms", K::List(O::Form), true), ("uriVariables", K::Map(O::Ds), false)];
const DS: &[Row] = &[
    ("const", K::Any, false),
    ("default", K::Any, false),
    ("unit", K::Str, false),
    ("oneOf", K::List(O::Ds), false),
    ("enum", K::AnyList, false),
    ("readOnly", K::Flag, false),
    ("writeOnly", K::Flag, false),
    ("format", K::Str, false),
    ("type", K::Type, false),
];
const ARRAY: &[Row] = &[("items", K::Items, false), ("minItems", K::U32, false), ("maxItems", K::U32, false)];
const NUMBER: &[Row] = &[
    ("minimum", K::F64, false),
    ("maximum", K::F64, false),
    ("exclusiveMinimum", K::F64, false),
    ("exclusiveMaximum", K::F64, false),
    ("multipleOf", K::F64, false),
];
const INTEGER: &[Row] = &[
    ("minimum", K::I64, false),
    ("maximum", K::I64, false),
    ("exclusiveMinimum", K::I64, false),
    ("exclusiveMaximum", K::I64, false),
    ("multipleOf", K::NonZero, false),
];
const OBJECT: &[Row] = &[("properties", K::Map(O::Ds), false), ("required", K::StrList, false)];
const STRING: &[Row] = &[
    ("minLength", K::U32, false),
    ("maxLength", K::U32, false),
    ("pattern", K::Str, false),
    ("contentEncoding", K::Str, false),
    ("contentMediaType", K::Str, false),
];

fn rows(o: O, j: &J) -> Vec<&'static [Row]> {
    match o {
        O::Thing => vec![&[
            ("@context", K::Any, false),
            ("id", K::Str, false),
            ("@type", K::StrOrMany, false),
            ("title", K::Str, true),
            ("titles", K::Langs, false),
            ("description", K::Str, false),
            ("descriptions", K::Langs, false),
            ("version", K::Obj(O::Version), false),
            ("created", K::Date, false),
            ("modified", K::Date, false),
            ("support", K::Str, false),
            ("base", K::Str, false),
            ("properties", K::Map(O::Prop), false),
            ("actions", K::Map(O::Act), false),
            ("events", K::Map(O::Evt), false),
            ("links", K::List(O::Link), false),
            ("forms", K::List(O::Form), false),
            ("security", K::StrOrMany, true),
            ("securityDefinitions", K::Map(O::Sec), true),
            ("uriVariables", K::Map(O::Ds), false),
            ("profile", K::StrOrMany, false),
            ("schemaDefinitions", K::Map(O::Ds), false),
        ]],
        O::Prop => {
            let mut v = rows(O::Ds, j);
            v.push(IA);
            v.push(&[("observable", K::Bool, false)]);
            v
        }
        O::Act => vec![
            HR,
            IA,
            &[
                ("input", K::Obj(O::Ds), false),
                ("output", K::Obj(O::Ds), false),
                ("safe", K::Flag, false),
                ("idempotent", K::Flag, false),
                ("synchronous", K::Bool, false),
            ],
        ],
        O::Evt => vec![
            HR,
            IA,
            &[
                ("subscription", K::Obj(O::Ds), false),
                ("data", K::Obj(O::Ds), false),
                ("data_response", K::Obj(O::Ds), false),
                ("dataResponse", K::Obj(O::Ds), false),
                ("cancellation", K::Obj(O::Ds), false),
            ],
        ],
        O::Ds => {
            let mut v = vec![HR, DS];
            if let Some(J::Str(t)) = j.get("type") {
                match t.as_str() {
                    "array" => v.push(ARRAY),
                    "number" => v.push(NUMBER),
                    "integer" => v.push(INTEGER),
                    "object" => v.push(OBJECT),
                    "string" => v.push(STRING),
                    _ => {}
                }
            }
            v
        }
        O::Form => vec![&[
            ("op", K::OpOrMany, false),
            ("href", K::Str, true),
            ("contentType", K::Str, false),
            ("contentCoding", K::Str, false),
            ("subprotocol", K::Str, false),
            ("security", K::StrOrMany, false),
            ("scopes", K::StrOrMany, false),
            ("response", K::Obj(O::Resp), false),
            ("additionalResponses", K::Many(O::Addl), false),
        ]],
        O::Resp => vec![&[("contentType", K::Str, true)]],
        O::Addl => vec![&[("success", K::Flag, false), ("contentType", K::Str, false), ("schema", K::Str, false)]],
        O::Link => vec![&[
            ("href", K::Str, true),
            ("type", K::Str, false),
            ("rel", K::Str, false),
            ("anchor", K::Str, false),
            ("sizes", K::Str, false),
            ("hreflang", K::LangOrMany, false),
        ]],
        O::Sec => vec![&[
            ("@type", K::StrOrMany, false),
            ("description", K::Str, false),
            ("descriptions", K::Langs, false),
            ("proxy", K::Str, false),
            ("scheme", K::Str, true),
        ]],
        O::Version => vec![&[("instance", K::Str, true), ("model", K::Str, false)]],
    }
}

/// Objects whose Rust type is a plain struct, which serde also reads from a positional array.
fn positional(o: O) -> bool {
    matches!(o, O::Addl | O::Link | O::Version)
}

struct Site {
    path: Vec<String>,
    owner: O,
    member: &'static str,
    kind: K,
    required: bool,
}

fn visit(j: &J, o: O, path: &mut Vec<String>, out: &mut Vec<Site>) {
    for table in rows(o, j) {
        for (name, kind, required) in table {
            let Some(v) = j.get(name) else { continue };
            path.push(name.to_string());
            out.push(Site {
                path: path.clone(),
                owner: o,
                member: name,
                kind: *kind,
                required: *required,
            });
            match (kind, v) {
                (K::Obj(x), J::Obj(_)) | (K::Many(x), J::Obj(_)) => visit(v, *x, path, out),
                (K::Items, J::Obj(_)) => visit(v, O::Ds, path, out),
                (K::Map(x), J::Obj(m)) => {
                    for (k, e) in m {
                        path.push(k.clone());
                        visit(e, *x, path, out);
                        path.pop();
                    }
                }
                (K::List(x) | K::Many(x), J::Arr(a)) => each(a, *x, path, out),
                (K::Items, J::Arr(a)) => each(a, O::Ds, path, out),
                _ => {}
            }
            path.pop();
        }
    }
}
fn each(a: &[J], o: O, path: &mut Vec<String>, out: &mut Vec<Site>) {
    for (i, e) in a.iter().enumerate() {
        path.push(i.to_string());
        visit(e, o, path, out);
        path.pop();
    }
}

/// Appends or inserts a wrong element in a list.
fn with_elem(v: &J, bad: J, r: &mut Rng) -> J {
    match v {
        J::Arr(a) => {
            let mut a = a.clone();
            let at = r.below(a.len() + 1);
            a.insert(at, bad);
            J::Arr(a)
        }
        _ => J::Arr(vec![v.clone(), bad]),
    }
}
fn with_entry(v: &J, k: &str, bad: J, r: &mut Rng) -> J {
    let mut m = match v {
        J::Obj(m) => m.clone(),
        _ => vec![],
    };
    m.retain(|(x, _)| x != k);
    let at = r.below(m.len() + 1);
    m.insert(at, (k.to_string(), bad));
    J::Obj(m)
}
fn arr(v: impl IntoIterator<Item = J>) -> J {
    J::Arr(v.into_iter().collect())
}
fn one(k: &str, v: J) -> J {
    J::Obj(vec![(k.into(), v)])
}

const BAD_DATES: &[&str] = &[
    "", "yesterday", "2020-01-01", "2020-01-01T00:00:00", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z",
    "2020-13-01T00:00:00Z", "2020-00-10T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-01T24:00:00Z",
    "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "2020-01-01T00:00:00+25:00", "2020-01-01T00:00:00+0100",
    "20-01-01T00:00:00Z", "2020-1-1T00:00:00Z", "2020-01-01T00:00:00.Z", "2020-01-01T00:00:00Z ", " 2020-01-01T00:00:00Z",
    "1577836800", "2020-01-01T00:00Z",
];
const BAD_TYPES: &[&str] = &["", "bogus", "Array", "STRING", "float", "int", "bool", "any", "number ", " number", "array,object"];
const BAD_OPS: &[&str] = &[
    "", "read", "readProperty", "ReadProperty", "read_property", "READPROPERTY", "readproperty ", " readproperty",
    "readallproperty", "invoke", "subscribe", "cancel", "observe", "readproperties", "writeallproperty", "queryallaction",
    "subscribeallevent", "readproperty,writeproperty", "read-property", "readallPproperties",
];

fn ill_object(o: O) -> Vec<(&'static str, J)> {
    let mut v = vec![
        ("string for an object", s("x")),
        ("number for an object", J::Int(1)),
        ("boolean for an object", J::Bool(true)),
    ];
    if !positional(o) {
        v.push(("list for an object", arr([])));
        v.push(("list of objects for an object", arr([J::obj()])));
    }
    match o {
        O::Ds => v.push(("schema of an unknown type", one("type", s("bogus")))),
        O::Addl => v.push(("success that is no boolean", one("success", s("true")))),
        _ => v.push(("empty object lacking mandatory members", J::obj())),
    }
    v
}

/// Wrong values of a kind, each with the name of its class.
fn wrong(k: K, v: &J, r: &mut Rng) -> Vec<(&'static str, J)> {
    let mut w: Vec<(&'static str, J)> = vec![];
    let scalar = |w: &mut Vec<(&'static str, J)>, not: &[&str]| {
        for (k, n, v) in [
            ("str", "string", s("x")),
            ("str", "string of digits", s("1")),
            ("int", "integer", J::Int(1)),
            ("int", "negative integer", J::Int(-1)),
            ("flt", "fraction", J::Flt(1.5)),
            ("bool", "boolean", J::Bool(true)),
            ("bool", "false", J::Bool(false)),
            ("obj", "empty object", J::obj()),
            ("obj", "object", one("a", s("b"))),
            ("arr", "empty list", arr([])),
            ("arr", "list", arr([s("x")])),
            ("arr", "nested list", arr([arr([s("x")])])),
        ] {
            if !not.contains(&k) {
                w.push((n, v));
            }
        }
    };
    match k {
        K::Any => {}
        K::Str => scalar(&mut w, &["str"]),
        K::StrOrMany | K::StrList => {
            scalar(&mut w, if matches!(k, K::StrList) { &["arr"] } else { &["str", "arr"] });
            for (n, b) in [
                ("number in list", J::Int(1)),
                ("null in list", J::Null),
                ("boolean in list", J::Bool(false)),
                ("object in list", J::obj()),
                ("list in list", arr([s("a")])),
            ] {
                w.push((n, with_elem(v, b, r)));
            }
        }
        K::Bool | K::Flag => {
            if matches!(k, K::Flag) {
                w.push(("null flag", J::Null));
            }
            scalar(&mut w, &["bool"]);
            w.push(("text true", s("true")));
            w.push(("zero", J::Int(0)));
        }
        K::U32 => {
            scalar(&mut w, &["int"]);
            w.push(("negative", J::Int(-1)));
            w.push(("above 32 bits", J::Int(1 << 32)));
            w.push(("far above", J::Int(u64::MAX as i128)));
            w.push(("exponent", J::Flt(1e300)));
        }
        K::NonZero => {
            scalar(&mut w, &["int"]);
            w.push(("zero", J::Int(0)));
            w.push(("negative", J::Int(-3)));
            w.push(("far negative", J::Int(i64::MIN as i128)));
            w.push(("exponent", J::Flt(1e300)));
        }
        K::I64 => {
            scalar(&mut w, &["int"]);
            w.push(("above 64 bits", J::Int(i64::MAX as i128 + 1)));
            w.push(("at 64 unsigned bits", J::Int(u64::MAX as i128)));
            w.push(("exponent", J::Flt(-1e300)));
        }
        K::F64 => {
            scalar(&mut w, &["int", "flt"]);
            w.push(("text NaN", s("NaN")));
            w.push(("text number", s("1.5")));
        }
        K::Type => {
            scalar(&mut w, &[]);
            for b in BAD_TYPES {
                w.push(("unknown type", s(*b)));
            }
            w.push(("list of types", arr([s("string")])));
        }
        K::OpOrMany => {
            scalar(&mut w, &["arr"]);
            w.push(("number in list", with_elem(v, J::Int(1), r)));
            w.push(("null in list", with_elem(v, J::Null, r)));
            w.push(("list in list", with_elem(v, arr([s("readproperty")]), r)));
            for b in BAD_OPS {
                w.push(("unknown operation", s(*b)));
                w.push(("unknown operation in list", with_elem(v, s(*b), r)));
            }
        }
        K::Langs => {
            scalar(&mut w, &["obj"]);
            w.push(("number translation", with_entry(v, "en", J::Int(1), r)));
            w.push(("null translation", with_entry(v, "en", J::Null, r)));
            w.push(("list translation", with_entry(v, "de", arr([s("x")]), r)));
            w.push(("object translation", with_entry(v, "de", one("a", s("x")), r)));
            for b in BAD_LANGS {
                w.push(("ill-formed tag", with_entry(v, b, s("x"), r)));
            }
        }
        K::LangOrMany => {
            scalar(&mut w, &["str", "arr"]);
            w.push(("number in list", with_elem(v, J::Int(1), r)));
            w.push(("null in list", with_elem(v, J::Null, r)));
            for b in BAD_LANGS {
                w.push(("ill-formed tag", s(*b)));
                w.push(("ill-formed tag in list", with_elem(v, s(*b), r)));
            }
        }
        K::Date => {
            scalar(&mut w, &[]);
            for b in BAD_DATES {
                w.push(("ill-formed date", s(*b)));
            }
        }
        K::AnyList => scalar(&mut w, &["arr"]),
        K::List(o) | K::Many(o) => {
            scalar(&mut w, if matches!(k, K::Many(_)) { &["arr", "obj"] } else { &["arr"] });
            w.push(("null in list", with_elem(v, J::Null, r)));
            for (n, b) in ill_object(o) {
                w.push((n, with_elem(v, b, r)));
            }
            if matches!(k, K::Many(_)) {
                for (n, b) in ill_object(o) {
                    if n != "list for an object" && n != "list of objects for an object" {
                        w.push((n, b));
                    }
                }
            }
        }
        K::Map(o) => {
            scalar(&mut w, &["obj"]);
            w.push(("null in map", with_entry(v, "k", J::Null, r)));
            for (n, b) in ill_object(o) {
                w.push((n, with_entry(v, "k", b, r)));
            }
        }
        K::Obj(o) => w.extend(ill_object(o)),
        K::Items => {
            for (n, b) in ill_object(O::Ds) {
                if n != "list for an object" && n != "list of objects for an object" {
                    w.push((n, b.clone()));
                }
                w.push((n, with_elem(v, b, r)));
            }
            w.push(("null in list", with_elem(v, J::Null, r)));
        }
    }
    w
}

fn parse<X: Part>(j: &J, how: usize) -> Result<X::T, String> {
    match how {
        0 => serde_json::from_str(&j.to_text()).map_err(|e| e.to_string()),
        1 => serde_json::from_value(to_value(j)).map_err(|e| e.to_string()),
        2 => serde_json::from_slice(j.to_text().as_bytes()).map_err(|e| e.to_string()),
        _ => serde_json::from_reader(j.to_text().as_bytes()).map_err(|e| e.to_string()),
    }
}

fn p16_case<X: Part>(l: &mut Local, case: u64) {
    let root = match X::NAME {
        "thing" => O::Thing,
        "property" => O::Prop,
        "action" => O::Act,
        "event" => O::Evt,
        "data-schema" => O::Ds,
        "form" => O::Form,
        "security" => O::Sec,
        "link" => O::Link,
        x => panic!("{x}"),
    };
    let mut g = Gen::new(l.rng(case), X::exts(), Mode::Parse);
    g.fuel = 40;
    let m = X::gen(&mut g);
    let mut r = g.r;
    let st = match r.below(3) {
        0 => Sty::Canon,
        1 => Sty::Terse,
        _ => Sty::Noisy(r.fork(), Noise::ALL),
    };
    let mut j = X::render(st, &m);
    shuffle_keys(&mut j, &mut r);
    if parse::<X>(&j, 0).is_err() {
        l.count("well-formed documents rejected (left to P01)");
        return;
    }
    l.count(X::NAME);
    let mut sites = vec![];
    visit(&j, root, &mut vec![], &mut sites);
    if sites.is_empty() {
        l.seen_trivial();
        return;
    }
    // Few sites per document, all their classes: classes are spread over many contexts.
    for _ in 0..6 {
        let site = &sites[r.below(sites.len())];
        let at = format!("{:?}.{}", site.owner, site.member);
        l.count(format!("site {at}"));
        let (last, parent) = site.path.split_last().unwrap();
        let old = j.clone().at_mut(&site.path).unwrap().clone();
        let mut variants: Vec<(&'static str, Option<J>)> =
            wrong(site.kind, &old, &mut r).into_iter().map(|(n, v)| (n, Some(v))).collect();
        if site.required {
            variants.push(("removed", None));
            variants.push(("null", Some(J::Null)));
        }
        r.shuffle(&mut variants);
        variants.truncate(14);
        for (class, v) in variants {
            let mut bad = j.clone();
            let o = bad.at_mut(parent).unwrap();
            match v {
                Some(v) => o.set(last, v),
                None => {
                    o.remove(last);
                }
            }
            let how = r.below(4);
            l.seen(bad.hash());
            l.count(format!("class {class}"));
            let text = bad.to_text();
            l.sample(|| format!("{at} {class}: {text}"));
            if let Ok(t) = parse::<X>(&bad, how) {
                let kept = serde_json::to_string(&t).unwrap_or_else(|e| e.to_string());
                l.doing = text.clone();
                l.fail(
                    format!("accepted/{at}/{class}"),
                    format!(
                        "at /{}: {} accepted, reads as {}",
                        site.path.join("/"),
                        oneline(&text, 1200),
                        oneline(&kept, 800)
                    ),
                );
            }
        }
    }
}

// ---- near misses -------------------------------------------------------------------------------

const OP_WORDS: [&str; 18] = [
    "read property", "write property", "observe property", "unobserve property", "invoke action", "query action", "cancel action",
    "subscribe event", "unsubscribe event", "read all properties", "write all properties", "read multiple properties",
    "write multiple properties", "observe all properties", "unobserve all properties", "subscribe all events",
    "unsubscribe all events", "query all actions",
];
const TYPES: [&str; 7] = ["array", "boolean", "number", "integer", "object", "string", "null"];
const MEMBERS: [&str; 8] = ["title", "security", "security Definitions", "scheme", "href", "content Type", "instance", "forms"];

/// Texts that look like a term made of the given words but are not that term.
pub fn spellings(words: &str) -> Vec<String> {
    let w: Vec<String> = words.split(' ').map(str::to_lowercase).collect();
    let term = words.replace(' ', "");
    let title = |x: &String| x[..1].to_uppercase() + &x[1..];
    let pascal: String = w.iter().map(title).collect();
    let camel = format!("{}{}", w[0], w[1..].iter().map(title).collect::<String>());
    let n = term.len();
    let mut v = vec![
        w.concat(),
        w.join("_"),
        w.join("-"),
        w.join(" "),
        w.join("."),
        w.join(":"),
        w.join("_").to_uppercase(),
        term.to_uppercase(),
        term[..1].to_uppercase() + &term[1..],
        term[..n - 1].to_string() + &term[n - 1..].to_uppercase(),
        w.iter().rev().cloned().collect(),
        format!("{term}s"),
        format!("{term}es"),
        term.trim_end_matches('s').into(),
        term.replace("ies", "y"),
        term.replace("property", "properties"),
        term.replace("action", "actions"),
        term.replace("event", "events"),
        term[..n - 1].into(),
        term[1..].into(),
        format!("{term}{}", &term[n - 1..]),
        format!(" {term}"),
        format!("{term} "),
        format!("{term}\t"),
        format!("{term}\n"),
        format!("{term}\u{0}"),
        format!("\u{feff}{term}"),
        format!("\"{term}\""),
        format!("{term},"),
        format!("{term}/"),
        format!("@{term}"),
        format!("td:{term}"),
        format!("td:{camel}"),
        format!("wot:{camel}"),
        format!("https://www.w3.org/2019/wot/td#{term}"),
        format!("https://www.w3.org/2019/wot/td#{camel}"),
        format!("https://www.w3.org/2022/wot/td/v1.1#{camel}"),
        format!("{term}{term}"),
        term.replace('o', "\u{43e}"),
        term.replace('e', "\u{435}"),
        term.replace('i', "\u{131}"),
        term.replace('s', "\u{17f}"),
        w[0].clone(),
        w[w.len() - 1].clone(),
    ];
    v.push(pascal);
    v.push(camel);
    v.sort();
    v.dedup();
    v.retain(|x| *x != term);
    v
}
/// Documents that have a near miss where a term has to be, and what it is.
fn near_misses() -> &'static [(String, String)] {
    static ALL: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        let doc = |rest: &str| format!("{{\"title\":\"t\",\"security\":[],\"securityDefinitions\":{{}}{rest}}}");
        let q = |x: &str| serde_json::to_string(x).expect("text");
        for words in OP_WORDS {
            for x in spellings(words) {
                if OPS.contains(&x.as_str()) {
                    continue;
                }
                let term = words.replace(' ', "");
                for op in [q(&x), format!("[{}]", q(&x)), format!("[{},{}]", q(&term), q(&x)), format!("[{},{}]", q(&x), q(&term))] {
                    let f = format!("\"forms\":[{{\"href\":\"\",\"op\":{op}}}]");
                    for d in [
                        doc(&format!(",{f}")),
                        doc(&format!(",\"properties\":{{\"p\":{{{f}}}}}")),
                        doc(&format!(",\"actions\":{{\"p\":{{{f}}}}}")),
                        doc(&format!(",\"events\":{{\"p\":{{{f}}}}}")),
                    ] {
                        v.push((format!("operation {term}"), d));
                    }
                }
            }
        }
        for term in TYPES {
            let mut near = spellings(term);
            near.extend(["int", "bool", "float", "double", "list", "map", "text", "none", "nil", "any", "undefined", "tuple", "struct", "record", "long", "xsd:string"].map(String::from));
            for x in near {
                let d = format!("{{\"type\":{}}}", q(&x));
                for d in [
                    doc(&format!(",\"properties\":{{\"p\":{{\"forms\":[],\"type\":{}}}}}", q(&x))),
                    doc(&format!(",\"actions\":{{\"p\":{{\"forms\":[],\"input\":{d}}}}}")),
                    doc(&format!(",\"events\":{{\"p\":{{\"forms\":[],\"data\":{d}}}}}")),
                    doc(&format!(",\"uriVariables\":{{\"p\":{d}}}")),
                    doc(&format!(",\"schemaDefinitions\":{{\"p\":{{\"type\":\"array\",\"items\":{d}}}}}")),
                    doc(&format!(",\"schemaDefinitions\":{{\"p\":{{\"type\":\"object\",\"properties\":{{\"m\":{d}}}}}}}")),
                    doc(&format!(",\"schemaDefinitions\":{{\"p\":{{\"oneOf\":[{{}},{d}]}}}}")),
                ] {
                    v.push((format!("type {term}"), d));
                }
            }
        }
        for words in MEMBERS {
            let term = words.replace(' ', "");
            let full = "{\"title\":\"t\",\"security\":[\"s\"],\"securityDefinitions\":{\"s\":{\"scheme\":\"basic\"}},\"version\":{\"instance\":\"1\"},                        \"links\":[{\"href\":\"h\"}],\"events\":{\"e\":{\"forms\":[{\"href\":\"h\",\"response\":{\"contentType\":\"a/b\"}}]}}}";
            let key = format!("\"{term}\":");
            for x in spellings(words) {
                for (at, _) in full.match_indices(&key) {
                    v.push((format!("member {term}"), format!("{}{}:{}", &full[..at], q(&x), &full[at + key.len()..])));
                }
            }
        }
        v
    })
}
fn near_case(l: &mut Local, case: u64) {
    let (what, text) = &near_misses()[case as usize];
    l.doing = text.clone();
    l.seen(crate::rng::hash_bytes(text.as_bytes()));
    l.count(format!("near miss of {what}"));
    let parsed = match case % 3 {
        0 => serde_json::from_str::<wot_td::thing::Thing>(text),
        1 => serde_json::from_slice(text.as_bytes()),
        _ => serde_json::from_str(text).and_then(serde_json::from_value::<wot_td::thing::Thing>),
    };
    if let Ok(t) = parsed {
        let kept = serde_json::to_string(&t).unwrap_or_else(|e| e.to_string());
        l.fail(format!("near-miss/{what}"), format!("{text} accepted, reads as {}", oneline(&kept, 800)));
    }
}

pub fn p16(t: Tier) -> Check {
    Check {
        pid: "P16",
        rule: "seeded well-formed documents (whole Things and parts, five extension stacks); a typed walk picks members of the TD vocabulary and replaces each by wrong values of every class for its kind, or removes it when mandatory; parsed by four routes, every one must be refused; near misses (other spellings, prefixes, blanks, look-alike letters) of every operation, of every type and of every mandatory member name are enumerated in small documents; distinct counts different ill-formed documents",
        assumptions: vec![
            "null for an optional member counts as absence, except for the flags readOnly, writeOnly, safe, idempotent and success, which always have a value; a plain record given as a list is left to serde's positional reading; the members of a scheme outside the common ones are covered by P10; extension members by P12",
            "the table of members, kinds and mandatory flags follows the TD 1.1 specification, not the crate",
        ],
        stack: 32 << 20,
        must_see: vec![
            "site Thing.title", "site Thing.security", "site Thing.securityDefinitions", "site Thing.created", "site Form.op",
            "site Form.href", "site Ds.type", "site Ds.minItems", "site Ds.minimum", "site Ds.exclusiveMaximum", "site Ds.multipleOf",
            "site Ds.items", "site Ds.properties", "site Ds.oneOf", "site Prop.forms", "site Act.forms", "site Evt.forms",
            "near miss of operation queryallactions", "near miss of type null", "near miss of member href", "site Link.hreflang", "site Resp.contentType", "site Addl.success", "site Version.instance", "site Sec.scheme",
        ],
        phases: vec![
            exhaustive("near misses", near_misses().len() as u64, near_case),
            phase("wrong-values", t.n(15_000, 600_000), |l, c| for_part!(c, p16_case(l, c))),
        ],
    }
}
