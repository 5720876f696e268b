//! Mutable walks over a build plan, fault injection, and the oracle that says which build errors
//! a plan deserves.
use crate::drive::Plan;
use crate::gen::Gen;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeSet;
use wot_td::builder::{AffordanceType, Error, FormContext};

// ---- walks -------------------------------------------------------------------------------------

type DsF<'a> = &'a mut dyn FnMut(&str, &mut MDs);
pub fn walk_ds(d: &mut MDs, label: &str, f: DsF) {
    f(label, d);
    let sub = |k: &str| format!("{label}>{k}");
    for x in d.one_of.iter_mut().flatten() {
        walk_ds(x, &sub("alternative"), f);
    }
    match &mut d.sub {
        Some(MSub::Arr { items, .. }) => match items {
            Some(MItems::One(x)) => walk_ds(x, &sub("items"), f),
            Some(MItems::Many(v)) => v.iter_mut().for_each(|x| walk_ds(x, &sub("element"), f)),
            None => {}
        },
        Some(MSub::Obj { props, .. }) => props
            .iter_mut()
            .flatten()
            .for_each(|(_, x)| walk_ds(x, &sub("member"), f)),
        _ => {}
    }
}
fn uri_ds(m: &mut Option<Map<MDs>>, place: &str, f: DsF) {
    for (_, d) in m.iter_mut().flatten() {
        walk_ds(d, &format!("{place}.uriVariable"), f);
    }
}
/// Every data schema of the plan, nested ones included, with the place it is in.
pub fn each_ds_mut(p: &mut Plan, f: DsF) {
    let t = &mut p.t;
    for (_, d) in t.schemas.iter_mut().flatten() {
        walk_ds(d, "schemaDefinition", f);
    }
    uri_ds(&mut t.uri, "thing", f);
    for x in props(&mut t.properties, &mut p.props) {
        walk_ds(&mut x.ds, "property", f);
        uri_ds(&mut x.ia.uri, "property", f);
    }
    for x in props(&mut t.actions, &mut p.acts) {
        for (l, d) in [("action.input", &mut x.input), ("action.output", &mut x.output)] {
            d.iter_mut().for_each(|d| walk_ds(d, l, f));
        }
        uri_ds(&mut x.ia.uri, "action", f);
    }
    for x in props(&mut t.events, &mut p.evts) {
        for (l, d) in [
            ("event.subscription", &mut x.subscription),
            ("event.data", &mut x.data),
            ("event.dataResponse", &mut x.response),
            ("event.cancellation", &mut x.cancellation),
        ] {
            d.iter_mut().for_each(|d| walk_ds(d, l, f));
        }
        uri_ds(&mut x.ia.uri, "event", f);
    }
}
fn props<'a, T>(a: &'a mut Option<Map<T>>, b: &'a mut [(String, T)]) -> impl Iterator<Item = &'a mut T> {
    a.iter_mut()
        .flatten()
        .map(|(_, x)| x)
        .chain(b.iter_mut().map(|(_, x)| x))
}
pub fn each_ia_mut(p: &mut Plan, f: &mut dyn FnMut(&str, &mut MIa)) {
    for x in props(&mut p.t.properties, &mut p.props) {
        f("property", &mut x.ia);
    }
    for x in props(&mut p.t.actions, &mut p.acts) {
        f("action", &mut x.ia);
    }
    for x in props(&mut p.t.events, &mut p.evts) {
        f("event", &mut x.ia);
    }
}
pub fn each_form_mut(p: &mut Plan, f: &mut dyn FnMut(&str, &mut MForm)) {
    for x in p.t.forms.iter_mut().flatten() {
        f("thing", x);
    }
    each_ia_mut(p, &mut |l, ia| ia.forms.iter_mut().for_each(|x| f(l, x)));
}
/// Every map of URI variables that exists, or may be created.
pub fn each_uri_mut(p: &mut Plan, f: &mut dyn FnMut(&str, &mut Option<Map<MDs>>)) {
    f("thing", &mut p.t.uri);
    each_ia_mut(p, &mut |l, ia| f(l, &mut ia.uri));
}
pub fn each_sec_mut(p: &mut Plan, f: &mut dyn FnMut(&str, &mut MSec)) {
    for (k, x) in p.t.secdefs.iter_mut().chain(p.secs.iter_mut().map(|(k, x)| (&*k, x))) {
        f(k, x);
    }
}
/// Every translation map, present or not.
pub fn each_lang_mut(p: &mut Plan, f: &mut dyn FnMut(&str, &mut Option<Map<String>>)) {
    f("thing.titles", &mut p.t.info.titles);
    f("thing.descriptions", &mut p.t.info.descriptions);
    each_sec_mut(p, &mut |_, x| f("security.descriptions", &mut x.descriptions));
    each_ia_mut(p, &mut |l, ia| {
        f(&format!("{l}.titles"), &mut ia.info.titles);
        f(&format!("{l}.descriptions"), &mut ia.info.descriptions);
    });
    each_ds_mut(p, &mut |l, d| {
        if l != "property" {
            f(&format!("{l}.titles"), &mut d.info.titles);
            f(&format!("{l}.descriptions"), &mut d.info.descriptions);
        }
    });
    // A property states its descriptive members once.
    for x in props(&mut p.t.properties, &mut p.props) {
        x.ds.info = x.ia.info.clone();
    }
}

/// Label of every item a walk visits.
pub fn labels(walk: impl FnOnce(&mut dyn FnMut(&str))) -> Vec<String> {
    let mut v = vec![];
    walk(&mut |l| v.push(l.to_string()));
    v
}
/// Picks an item with every label equally likely.
pub fn pick_label(r: &mut Rng, v: &[String], ok: impl Fn(&str) -> bool) -> Option<usize> {
    let set: BTreeSet<&String> = v.iter().filter(|l| ok(l)).collect();
    if set.is_empty() {
        return None;
    }
    let set: Vec<_> = set.into_iter().collect();
    let l = *r.pick(&set);
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] == *l).collect();
    Some(*r.pick(&at))
}
/// Changes the nth item of a walk.
macro_rules! nth {
    ($walk:ident, $p:expr, $n:expr, |$l:ident, $x:ident| $body:expr) => {{
        let mut i = 0;
        $walk($p, &mut |$l, $x| {
            if i == $n {
                let _ = $l;
                $body
            }
            i += 1;
        });
    }};
}
pub(crate) use nth;

// ---- oracle ------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    DupSec(String),
    UndefSec(String),
    UndefCombo(String),
    MissingOp,
    BadOp(&'static str, usize),
    MinMax,
    Nan,
    Mult,
    DupAff(&'static str, String),
    MissSchema(String),
    UriVars,
    Tag(String),
    Sizes,
}
impl V {
    pub fn matches(&self, e: &Error) -> bool {
        match (self, e) {
            (V::DupSec(a), Error::DuplicatedSecurityDefinition(b)) => a == b,
            (V::UndefSec(a), Error::UndefinedSecurity(b)) => a == b,
            (V::UndefCombo(a), Error::MissingSchemaDefinition(b) | Error::UndefinedSecurity(b)) => a == b,
            (V::MissingOp, Error::MissingOpInForm) => true,
            (V::BadOp(p, o), Error::InvalidOpInForm { context, operation }) => {
                *context
                    == match *p {
                        "thing" => FormContext::Thing,
                        "property" => FormContext::Property,
                        "action" => FormContext::Action,
                        _ => FormContext::Event,
                    }
                    && *operation == crate::conv::OPERATIONS[*o]
            }
            (V::MinMax, Error::InvalidMinMax)
            | (V::Nan, Error::NanMinMax)
            | (V::Mult, Error::InvalidMultipleOf)
            | (V::UriVars, Error::InvalidUriVariables)
            | (V::Sizes, Error::SizesWithRelNotIcon) => true,
            (V::DupAff(k, a), Error::DuplicatedAffordance { ty, name }) => {
                *ty == match *k {
                    "property" => AffordanceType::Property,
                    "action" => AffordanceType::Action,
                    _ => AffordanceType::Event,
                } && a == name
            }
            (V::MissSchema(a), Error::MissingSchemaDefinition(b)) => a == b,
            (V::Tag(a), Error::InvalidLanguageTag(b)) => a == b,
            _ => false,
        }
    }
}

fn dups<T>(kind: &'static str, m: &Option<Map<T>>, more: &[(String, T)], out: &mut BTreeSet<V>) {
    let mut seen: BTreeSet<&String> = m.iter().flatten().map(|(k, _)| k).collect();
    for (k, _) in more {
        if !seen.insert(k) {
            out.insert(V::DupAff(kind, k.clone()));
        }
    }
}
fn range_bad<T: PartialOrd + Copy>(min: &Option<Bd<T>>, max: &Option<Bd<T>>) -> bool {
    match (min, max) {
        (Some(a), Some(b)) => a.val() > b.val() || (a.val() == b.val() && (a.excl() || b.excl())),
        _ => false,
    }
}
pub fn ds_violations(d: &MDs, out: &mut BTreeSet<V>) {
    match &d.sub {
        Some(MSub::Num { min, max, mult }) => {
            if [min, max].iter().any(|b| b.as_ref().is_some_and(|b| b.val().is_nan())) {
                out.insert(V::Nan);
            }
            if range_bad(min, max) {
                out.insert(V::MinMax);
            }
            // Written so that NaN counts as faulty.
            if mult.is_some_and(|m| !(m > 0.0)) {
                out.insert(V::Mult);
            }
        }
        Some(MSub::Int { min, max, .. }) => {
            if range_bad(min, max) {
                out.insert(V::MinMax);
            }
        }
        Some(MSub::Arr {
            min: Some(a),
            max: Some(b),
            ..
        }) if a > b => {
            out.insert(V::MinMax);
        }
        _ => {}
    }
}

/// Every error the plan deserves; empty when it must build.
pub fn violations(plan: &Plan) -> BTreeSet<V> {
    let mut p = plan.clone();
    let mut out = BTreeSet::new();
    let mut secs: BTreeSet<String> = p.t.secdefs.keys().cloned().collect();
    for (k, _) in &p.secs {
        if !secs.insert(k.clone()) {
            out.insert(V::DupSec(k.clone()));
        }
    }
    each_sec_mut(&mut p, &mut |_, x| {
        if let MSecSub::OneOf(v) | MSecSub::AllOf(v) = &x.sub {
            for k in v.iter().filter(|k| !secs.contains(*k)) {
                out.insert(V::UndefCombo(k.clone()));
            }
        }
    });
    let schemas: BTreeSet<String> = p.t.schemas.iter().flatten().map(|(k, _)| k.clone()).collect();
    each_form_mut(&mut p, &mut |place, f| {
        let place: &'static str = match place {
            "thing" => "thing",
            "property" => "property",
            "action" => "action",
            _ => "event",
        };
        let allowed: &[usize] = match place {
            "thing" => &THING_OPS,
            "property" => &PROP_OPS,
            "action" => &ACT_OPS,
            _ => &EVT_OPS,
        };
        if place == "thing" && f.op.as_ref().map_or(true, |v| v.is_empty()) {
            out.insert(V::MissingOp);
        }
        for o in f.op.iter().flatten().filter(|o| !allowed.contains(o)) {
            out.insert(V::BadOp(place, *o));
        }
        for k in f.sec.iter().flatten().filter(|k| !secs.contains(*k)) {
            out.insert(V::UndefSec(k.clone()));
        }
        for k in f.addl.iter().flatten().filter_map(|a| a.schema.as_ref()) {
            if !schemas.contains(k) {
                out.insert(V::MissSchema(k.clone()));
            }
        }
    });
    each_uri_mut(&mut p, &mut |_, m| {
        for (_, d) in m.iter().flatten() {
            if matches!(d.sub, Some(MSub::Arr { .. } | MSub::Obj { .. })) {
                out.insert(V::UriVars);
            }
        }
    });
    each_ds_mut(&mut p, &mut |_, d| ds_violations(d, &mut out));
    dups("property", &plan.t.properties, &plan.props, &mut out);
    dups("action", &plan.t.actions, &plan.acts, &mut out);
    dups("event", &plan.t.events, &plan.evts, &mut out);
    each_lang_mut(&mut p, &mut |_, m| {
        for (k, _) in m.iter().flatten() {
            if !well_formed(k) {
                out.insert(V::Tag(k.clone()));
            }
        }
    });
    for l in p.t.links.iter().flatten() {
        for k in l.hreflang.iter().flatten() {
            if !well_formed(k) {
                out.insert(V::Tag(k.clone()));
            }
        }
        if l.sizes.is_some() && l.rel.as_deref() != Some("icon") {
            out.insert(V::Sizes);
        }
    }
    out
}

/// The model a faultless plan must give.
pub fn merged(p: &Plan) -> MThing {
    fn add<T: Clone>(m: &mut Option<Map<T>>, v: &[(String, T)]) {
        if !v.is_empty() {
            m.get_or_insert_with(Map::new).extend(v.iter().cloned());
        }
    }
    let mut t = p.t.clone();
    add(&mut t.properties, &p.props);
    add(&mut t.actions, &p.acts);
    add(&mut t.events, &p.evts);
    t
}

// ---- language tags -----------------------------------------------------------------------------

const GRANDFATHERED: [&str; 26] = [
    "en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo",
    "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de", "art-lojban", "cel-gaulish", "no-bok",
    "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang",
];
/// RFC 5646 section 2.1 grammar.
pub fn well_formed(t: &str) -> bool {
    let lower = t.to_ascii_lowercase();
    if GRANDFATHERED.contains(&&*lower) {
        return true;
    }
    let parts: Vec<&str> = lower.split('-').collect();
    if parts
        .iter()
        .any(|p| p.is_empty() || p.len() > 8 || !p.bytes().all(|b| b.is_ascii_alphanumeric()))
    {
        return false;
    }
    let alpha = |p: &str| p.bytes().all(|b| b.is_ascii_alphabetic());
    let digit = |p: &str| p.bytes().all(|b| b.is_ascii_digit());
    if parts[0] == "x" {
        return parts.len() > 1;
    }
    if parts[0].len() < 2 || !alpha(parts[0]) {
        return false;
    }
    let mut i = 1;
    let at = |i: usize| parts.get(i).copied().unwrap_or("");
    if parts[0].len() < 4 {
        let mut n = 0;
        while n < 3 && at(i).len() == 3 && alpha(at(i)) {
            i += 1;
            n += 1;
        }
    }
    if at(i).len() == 4 && alpha(at(i)) {
        i += 1;
    }
    if (at(i).len() == 2 && alpha(at(i))) || (at(i).len() == 3 && digit(at(i))) {
        i += 1;
    }
    while at(i).len() >= 5 || (at(i).len() == 4 && at(i).as_bytes()[0].is_ascii_digit()) {
        // A variant of five or more may start with anything.
        i += 1;
    }
    while at(i).len() == 1 && at(i) != "x" {
        i += 1;
        let from = i;
        while at(i).len() >= 2 {
            i += 1;
        }
        if i == from {
            return false;
        }
    }
    if at(i) == "x" {
        return i + 1 < parts.len();
    }
    i == parts.len()
}
/// A random tag of the grammar, in random letter case.
pub fn good_tag(r: &mut Rng) -> String {
    let letters = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect() };
    let alnum = |r: &mut Rng, n: usize| -> String {
        (0..n)
            .map(|_| b"abcdefghijklmnopqrstuvwxyz0123456789"[r.below(36)] as char)
            .collect()
    };
    let mut out: Vec<String> = vec![];
    match r.below(12) {
        0 => return GRANDFATHERED[r.below(26)].to_string(),
        1 => {
            out.push("x".into());
            for _ in 0..r.range(1, 3) {
                let n = r.range(1, 8);
                out.push(alnum(r, n));
            }
        }
        _ => {
            let n = *r.pick(&[2, 2, 2, 3, 3, 4, 5, 8]);
            out.push(letters(r, n));
            if n < 4 && r.chance(1, 5) {
                for _ in 0..r.range(1, 3) {
                    out.push(letters(r, 3));
                }
            }
            if r.chance(1, 3) {
                out.push(letters(r, 4));
            }
            if r.chance(1, 2) {
                out.push(if r.coin() {
                    letters(r, 2)
                } else {
                    format!("{:03}", r.below(1000))
                });
            }
            if r.chance(1, 4) {
                let v = if r.coin() {
                    let n = r.range(4, 7);
                    format!("v{}", alnum(r, n))
                } else {
                    format!("{}{}", r.below(10), alnum(r, 3))
                };
                out.push(v);
            }
            if r.chance(1, 5) {
                out.push(["a", "u", "t", "0", "w"][r.below(5)].into());
                for _ in 0..r.range(1, 2) {
                    let n = r.range(2, 8);
                    out.push(alnum(r, n));
                }
            }
            if r.chance(1, 6) {
                out.push("x".into());
                for _ in 0..r.range(1, 2) {
                    let n = r.range(1, 8);
                    out.push(alnum(r, n));
                }
            }
        }
    }
    let t = out.join("-");
    t.chars()
        .map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c })
        .collect()
}
/// Something that the grammar rejects.
pub fn bad_tag(r: &mut Rng) -> String {
    loop {
        let mut t: Vec<char> = good_tag(r).chars().collect();
        for _ in 0..r.range(1, 2) {
            let at = r.below(t.len() + 1);
            match r.below(6) {
                0 => t.insert(at, '-'),
                1 => t.insert(at, *r.pick(&['_', ' ', '!', '.', '/', '*', 'é', '\0', '\n', '日', '@', '[', '`', '{'])),
                2 => {
                    for _ in 0..9 {
                        t.insert(at, 'a');
                    }
                }
                3 => t.truncate(at),
                4 => {
                    t.extend(['-', *r.pick(&['x', 'a', 'X', '1'])]);
                }
                _ => t.insert(0, *r.pick(&['1', '-', '_', ' '])),
            }
        }
        let t: String = t.into_iter().collect();
        if !well_formed(&t) {
            return t;
        }
    }
}

// ---- injection ---------------------------------------------------------------------------------

/// A numeric or array constraint, faulty or close to it.
pub fn constraint(g: &mut Gen, scalar: bool) -> (&'static str, MSub) {
    let bd_f = |g: &mut Gen, x: f64| if g.r.coin() { Bd::In(x) } else { Bd::Ex(x) };
    let bd_i = |g: &mut Gen, x: i64| if g.r.coin() { Bd::In(x) } else { Bd::Ex(x) };
    match g.r.below(if scalar { 8 } else { 11 }) {
        0 => {
            let a = g.float();
            ("number.equal", MSub::Num { min: Some(bd_f(g, a)), max: Some(bd_f(g, a)), mult: None })
        }
        1 => {
            let (a, b) = (g.float(), g.float());
            ("number.pair", MSub::Num { min: Some(bd_f(g, a)), max: Some(bd_f(g, b)), mult: Some(1.0) })
        }
        2 => {
            let x = g.r.below(100) as f64;
            let y = f64::from_bits(x.to_bits() + 1);
            let (a, b) = if g.r.coin() { (x, y) } else { (y, x) };
            ("number.adjacent", MSub::Num { min: Some(bd_f(g, a)), max: Some(bd_f(g, b)), mult: None })
        }
        3 => {
            let x = g.float();
            let nan = if g.r.coin() { f64::NAN } else { -f64::NAN };
            let (mut a, mut b) = match g.r.below(5) {
                0 => (Some(nan), None),
                1 => (None, Some(nan)),
                2 => (Some(nan), Some(x)),
                3 => (Some(x), Some(nan)),
                _ => (Some(nan), Some(nan)),
            };
            let min = a.take().map(|x| bd_f(g, x));
            let max = b.take().map(|x| bd_f(g, x));
            ("number.nan", MSub::Num { min, max, mult: None })
        }
        4 => {
            let m = *g.r.pick(&[
                0.0, -0.0, -1.0, f64::NAN, -f64::NAN, -1e-300, 5e-324, 1e-300, f64::MIN, f64::MAX, 0.1, -5e-324,
                -0.5, 0.5,
            ]);
            let (min, max) = if g.r.coin() {
                (Some(Bd::In(0.0)), Some(Bd::Ex(9.0)))
            } else {
                (None, None)
            };
            ("number.multiple", MSub::Num { min, max, mult: Some(m) })
        }
        5 => {
            let a = g.int();
            ("integer.equal", MSub::Int { min: Some(bd_i(g, a)), max: Some(bd_i(g, a)), mult: None })
        }
        6 => loop {
            let (a, b) = (g.int(), g.int());
            let (min, max) = (bd_i(g, a), bd_i(g, b));
            // Whether (n, n+1) is empty over the integers is left open.
            if min.excl() && max.excl() && a.checked_add(1) == Some(b) {
                continue;
            }
            break ("integer.pair", MSub::Int { min: Some(min), max: Some(max), mult: Some(1) });
        },
        7 => {
            let x = g.int().min(i64::MAX - 1);
            let (a, b) = (Bd::In(x + g.r.coin() as i64), Bd::In(x));
            ("integer.adjacent", MSub::Int { min: Some(a), max: Some(b), mult: None })
        }
        8 => {
            let x = g.u32v();
            ("array.equal", MSub::Arr { items: None, min: Some(x), max: Some(x), ext: g.ext(Piece::Arr) })
        }
        9 => {
            let x = g.u32v().max(1);
            ("array.adjacent", MSub::Arr { items: None, min: Some(x), max: Some(x - 1), ext: g.ext(Piece::Arr) })
        }
        _ => {
            let (a, b) = (g.u32v(), g.u32v());
            ("array.pair", MSub::Arr { items: None, min: Some(a), max: Some(b), ext: g.ext(Piece::Arr) })
        }
    }
}
/// Makes the schema a plain typed one. Members an item list would hold are kept inside arrays.
pub fn set_sub(d: &mut MDs, sub: MSub) {
    let old = d.sub.take();
    let sub = match (sub, old) {
        (
            MSub::Arr { min, max, ext, .. },
            Some(MSub::Arr {
                items: items @ (None | Some(MItems::One(_))),
                ..
            }),
        ) => MSub::Arr { items, min, max, ext },
        (x, _) => x,
    };
    d.constant = None;
    d.one_of = None;
    d.enumeration = None;
    d.sub = Some(sub);
}
/// P07: one faulty or borderline constraint somewhere.
pub fn inject_constraint(p: &mut Plan, g: &mut Gen) -> Option<String> {
    let v = labels(|f| each_ds_mut(p, &mut |l, _| f(l)));
    let i = pick_label(&mut g.r, &v, |_| true)?;
    let (name, sub) = constraint(g, v[i].contains("uriVariable"));
    let mut sub = Some(sub);
    nth!(each_ds_mut, p, i, |_l, d| set_sub(d, sub.take().expect("once")));
    Some(format!("{name} at {}", v[i]))
}

/// A name that is like the given ones but not necessarily among them.
pub fn near_name(r: &mut Rng, names: &[String]) -> String {
    if names.is_empty() || r.chance(1, 6) {
        return format!("undefined{}", r.below(9));
    }
    let n = r.pick(names).clone();
    match r.below(9) {
        0 => format!("{n}x"),
        1 => format!(" {n}"),
        2 => {
            let mut c: Vec<char> = n.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
        3 => n.to_uppercase(),
        4 => String::new(),
        5 => n.chars().rev().collect(),
        6 => "nosec".into(),
        7 => {
            // What a reference is written like elsewhere.
            let p = *r.pick(&[
                "#/schemaDefinitions/", "/schemaDefinitions/", "#/securityDefinitions/", "schemaDefinitions.", "#", "#/", "/", "./", "td:", "urn:", "https://www.w3.org/2022/wot/td/v1.1#",
                "https://www.w3.org/2019/wot/security#", "$", "@", "_", "\u{0}", "\u{feff}", "-", "=", "!",
            ]);
            format!("{p}{n}")
        }
        _ => match r.below(14) {
            0 => format!("{n} "),
            1 => format!("{n}\n"),
            2 => format!("{n}\u{0}"),
            3 => format!("{n}/"),
            4 => format!("\"{n}\""),
            5 => format!("{{{n}}}"),
            6 => format!("{n}{n}"),
            7 => format!("{n}\u{301}"),
            8 => n.replace('/', "~1").replace('~', "~0"),
            9 => n.bytes().map(|b| format!("%{b:02X}")).collect(),
            10 => n.to_lowercase(),
            11 => n.chars().skip(1).collect(),
            12 => n.chars().map(|c| if c == '_' { '-' } else if c == '-' { '_' } else { c }).collect(),
            _ => (*r.pick(&["basic", "digest", "bearer", "psk", "oauth2", "apikey", "combo", "auto", "none", "null", "default", "*", "object", "string", "nosec_sc", "basic_sc", "true", "0"])).into(),
        },
    }
}
fn insert<T>(r: &mut Rng, v: &mut Vec<T>, x: T) {
    let at = r.below(v.len() + 1);
    v.insert(at, x);
}

/// P05: undefined or clashing security names.
pub fn inject_security(p: &mut Plan, g: &mut Gen) -> Option<String> {
    let names: Vec<String> = p.t.secdefs.keys().cloned().collect();
    match g.r.below(5) {
        0 | 1 => {
            let v = labels(|f| each_form_mut(p, &mut |l, _| f(l)));
            let i = pick_label(&mut g.r, &v, |_| true)?;
            let k = near_name(&mut g.r, &names);
            nth!(each_form_mut, p, i, |_l, f| insert(&mut g.r, f.sec.get_or_insert_with(Vec::new), k.clone()));
            Some(format!("form reference in {}", v[i]))
        }
        2 => {
            let k = near_name(&mut g.r, &names);
            let all: Vec<String> = p
                .t
                .secdefs
                .iter()
                .filter(|(_, d)| matches!(d.sub, MSecSub::OneOf(_) | MSecSub::AllOf(_)))
                .map(|(k, _)| k.clone())
                .collect();
            if all.is_empty() {
                return None;
            }
            let c = g.r.pick(&all).clone();
            match &mut p.t.secdefs.get_mut(&c).expect("combo").sub {
                MSecSub::OneOf(v) | MSecSub::AllOf(v) => insert(&mut g.r, v, k),
                _ => unreachable!(),
            }
            Some("combo reference".into())
        }
        3 => {
            if names.is_empty() {
                return None;
            }
            let k = g.r.pick(&names).clone();
            let kind = *g.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);
            let d = if g.r.coin() {
                p.t.secdefs[&k].clone()
            } else {
                g.sec(kind)
            };
            p.secs.push((k, d));
            Some("clashing definition".into())
        }
        _ => {
            if names.is_empty() {
                return None;
            }
            let k = g.r.pick(&names).clone();
            p.t.secdefs.remove(&k);
            p.t.security.retain(|x| *x != k);
            p.secs.retain(|(x, _)| *x != k);
            Some("definition withdrawn".into())
        }
    }
}

/// P06: any operations anywhere.
pub fn inject_op(p: &mut Plan, g: &mut Gen) -> Option<String> {
    let v = labels(|f| each_form_mut(p, &mut |l, _| f(l)));
    let i = pick_label(&mut g.r, &v, |_| true)?;
    let what = g.r.below(3);
    let op = g.r.below(18);
    let r = &mut g.r;
    nth!(each_form_mut, p, i, |_l, f| match what {
        0 => f.op = None,
        1 => insert(r, f.op.get_or_insert_with(Vec::new), op),
        _ => f.op = Some((0..r.range(1, 4)).map(|_| r.below(18)).collect()),
    });
    Some(format!("{} in {}", ["no operation", "one more", "any list"][what], v[i]))
}

/// P08: clashing affordance names, unknown schema names, structured URI variables.
pub fn inject_name(p: &mut Plan, g: &mut Gen) -> Option<String> {
    match g.r.below(6) {
        0 | 1 => {
            let keys: Vec<String> = {
                let t = &p.t;
                let a = t.properties.iter().flatten().map(|(k, _)| k.clone());
                let b = t.actions.iter().flatten().map(|(k, _)| k.clone());
                let c = t.events.iter().flatten().map(|(k, _)| k.clone());
                a.chain(b).chain(c).collect()
            };
            if keys.is_empty() {
                return None;
            }
            let k = g.r.pick(&keys).clone();
            match g.r.below(3) {
                0 => {
                    let x = g.prop();
                    p.props.push((k, x));
                }
                1 => {
                    let x = g.act();
                    p.acts.push((k, x));
                }
                _ => {
                    let x = g.evt();
                    p.evts.push((k, x));
                }
            }
            Some("one more affordance of a used name".into())
        }
        2 => {
            let v = labels(|f| each_form_mut(p, &mut |l, _| f(l)));
            let i = pick_label(&mut g.r, &v, |_| true)?;
            let mut names: Vec<String> = p.t.schemas.iter().flatten().map(|(k, _)| k.clone()).collect();
            if g.r.chance(1, 4) {
                // Names defined, but not as schemas.
                names = p.t.secdefs.keys().cloned().collect();
                if let Some(m) = &p.t.properties {
                    names.extend(m.keys().cloned());
                }
            }
            let k = if g.r.coin() && !names.is_empty() {
                g.r.pick(&names).clone()
            } else {
                near_name(&mut g.r, &names)
            };
            let a = MAddl {
                success: g.r.coin(),
                ct: None,
                schema: Some(k),
            };
            nth!(each_form_mut, p, i, |_l, f| insert(&mut g.r, f.addl.get_or_insert_with(Vec::new), a.clone()));
            Some(format!("schema reference in {}", v[i]))
        }
        3 => {
            let names: Vec<String> = p.t.schemas.iter().flatten().map(|(k, _)| k.clone()).collect();
            if names.is_empty() {
                return None;
            }
            let k = g.r.pick(&names).clone();
            let m = p.t.schemas.as_mut().expect("schemas");
            m.remove(&k);
            if m.is_empty() {
                p.t.schemas = None;
            }
            Some("schema definition withdrawn".into())
        }
        _ => {
            let v = labels(|f| each_uri_mut(p, &mut |l, _| f(l)));
            let i = pick_label(&mut g.r, &v, |_| true)?;
            let mut d = g.ds(1, true);
            let sub = match g.r.below(4) {
                0 => MSub::Obj { props: None, req: None, ext: g.ext(Piece::Obj) },
                1 => MSub::Arr { items: None, min: None, max: None, ext: g.ext(Piece::Arr) },
                2 => MSub::Arr {
                    items: Some(MItems::Many(vec![g.ds(0, true)])),
                    min: None,
                    max: None,
                    ext: g.ext(Piece::Arr),
                },
                _ => MSub::Bool,
            };
            let what = format!("{} URI variable in {}", ["object", "array", "tuple", "boolean"][match &sub {
                MSub::Obj { .. } => 0,
                MSub::Arr { items: None, .. } => 1,
                MSub::Arr { .. } => 2,
                _ => 3,
            }], v[i]);
            set_sub(&mut d, sub);
            let k = g.key();
            nth!(each_uri_mut, p, i, |_l, m| {
                m.get_or_insert_with(Map::new).insert(k.clone(), d.clone());
            });
            Some(what)
        }
    }
}

/// Adds a tag to a map unless one that differs by letter case only is there.
pub fn put_tag(m: &mut Option<Map<String>>, t: &str) {
    let m = m.get_or_insert_with(Map::new);
    m.retain(|k, _| !k.eq_ignore_ascii_case(t));
    m.insert(t.into(), format!("text for {t}"));
}
/// P09: any tag anywhere, sizes on any link.
pub fn inject_tag(p: &mut Plan, g: &mut Gen) -> Option<String> {
    let bad = g.r.coin();
    let tag = match (bad, g.r.below(3)) {
        (true, 0) => g.r.pick(crate::gen::BAD_LANGS).to_string(),
        (true, _) => bad_tag(&mut g.r),
        (_, 0) => g.r.pick(crate::gen::LANGS).to_string(),
        _ => good_tag(&mut g.r),
    };
    let kind = if bad { "malformed" } else { "well-formed" };
    match g.r.below(8) {
        0 | 1 => {
            let mut l = MLink { href: g.uri(), ..g.link() };
            let at = if g.r.coin() {
                l.hreflang = Some(vec![]);
                insert(&mut g.r, l.hreflang.as_mut().expect("list"), tag);
                if g.r.coin() {
                    insert(&mut g.r, l.hreflang.as_mut().expect("list"), "en".into());
                }
                format!("{kind} hreflang")
            } else {
                l.sizes = g.r.chance(4, 5).then(|| g.text());
                l.rel = g
                    .r
                    .pick(&[None, Some("icon"), Some("icon"), Some("stylesheet"), Some(""), Some("ico"), Some("icons"), Some("xicon"), Some("ICON"), Some("icon "), Some("icon mask")])
                    .map(Into::into);
                "sizes".into()
            };
            insert(&mut g.r, p.t.links.get_or_insert_with(Vec::new), l);
            Some(at)
        }
        _ => {
            let v = labels(|f| each_lang_mut(p, &mut |l, _| f(l)));
            let i = pick_label(&mut g.r, &v, |_| true)?;
            nth!(each_lang_mut, p, i, |_l, m| put_tag(m, &tag));
            Some(format!("{kind} at {}", v[i]))
        }
    }
}
/// Lower-cases every language tag.
pub fn fold_tags(t: MThing) -> MThing {
    let mut p = Plan::new(t);
    each_lang_mut(&mut p, &mut |_, m| {
        if let Some(m) = m {
            *m = std::mem::take(m).into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect();
        }
    });
    for l in p.t.links.iter_mut().flatten() {
        for x in l.hreflang.iter_mut().flatten() {
            *x = x.to_ascii_lowercase();
        }
    }
    p.t
}

// ---- a plan with one of everything -------------------------------------------------------------

fn plain(g: &mut Gen, sub: Option<MSub>) -> MDs {
    MDs {
        sub,
        ext: g.ext(Piece::Ds),
        ..Default::default()
    }
}
pub fn leaf(g: &mut Gen) -> MDs {
    plain(g, Some(MSub::Bool))
}
fn arr(g: &mut Gen, items: Option<MItems>) -> MDs {
    let ext = g.ext(Piece::Arr);
    plain(
        g,
        Some(MSub::Arr {
            items,
            min: None,
            max: None,
            ext,
        }),
    )
}
fn obj(g: &mut Gen, v: Vec<(&str, MDs)>) -> MDs {
    let ext = g.ext(Piece::Obj);
    let props = v.into_iter().map(|(k, d)| (k.to_string(), d)).collect();
    plain(
        g,
        Some(MSub::Obj {
            props: Some(props),
            req: None,
            ext,
        }),
    )
}
fn alt(g: &mut Gen, v: Vec<MDs>) -> MDs {
    MDs {
        one_of: Some(v),
        ..plain(g, None)
    }
}
/// A schema with every kind of nesting inside every other.
pub fn nest(g: &mut Gen, depth: usize) -> MDs {
    fn inner(g: &mut Gen, depth: usize) -> MDs {
        if depth == 0 {
            leaf(g)
        } else {
            nest(g, depth - 1)
        }
    }
    let a = inner(g, depth);
    let a = arr(g, Some(MItems::One(Box::new(a))));
    let b = vec![leaf(g), inner(g, depth)];
    let b = arr(g, Some(MItems::Many(b)));
    let c = vec![inner(g, depth), leaf(g)];
    let c = alt(g, c);
    let d = leaf(g);
    obj(g, vec![("a", a), ("b", b), ("c", c), ("d", d)])
}
/// A schema nested inside `depth` containers of any kind, with harmless siblings on either side.
pub fn chain(g: &mut Gen, depth: usize, bottom: MDs) -> MDs {
    let mut d = bottom;
    for _ in 0..depth {
        let kind = g.r.below(4);
        d = match kind {
            0 => arr(g, Some(MItems::One(Box::new(d)))),
            1 | 2 => {
                let mut v: Vec<MDs> = (0..g.r.below(3)).map(|_| leaf(g)).collect();
                insert(&mut g.r, &mut v, d);
                if kind == 1 {
                    arr(g, Some(MItems::Many(v)))
                } else {
                    alt(g, v)
                }
            }
            _ => {
                let mut v = vec![("m", d)];
                for k in ["l", "n", "o"] {
                    if g.r.coin() {
                        let x = leaf(g);
                        v.push((k, x));
                    }
                }
                obj(g, v)
            }
        };
    }
    d
}
/// A plan whose only interesting schema is far down in a position chosen at random.
pub fn deep_plan(g: &mut Gen, depth: usize, bottom: MDs) -> (&'static str, Plan) {
    let mut p = skeleton(g, 0);
    let d = chain(g, depth, bottom);
    let t = &mut p.t;
    let kind = g.r.below(8);
    let label = ["property", "input", "output", "subscription", "data", "response", "cancellation", "schemas"][kind];
    fn action(t: &mut MThing) -> &mut MAct {
        t.actions.as_mut().and_then(|x| x.values_mut().next()).expect("an action")
    }
    fn event(t: &mut MThing) -> &mut MEvt {
        t.events.as_mut().and_then(|x| x.values_mut().next()).expect("an event")
    }
    match kind {
        0 => t.properties.as_mut().and_then(|x| x.values_mut().next()).expect("a property").ds = d,
        1 => action(t).input = Some(d),
        2 => action(t).output = Some(d),
        3 => event(t).subscription = Some(d),
        4 => event(t).data = Some(d),
        5 => event(t).response = Some(d),
        6 => event(t).cancellation = Some(d),
        _ => *t.schemas.as_mut().and_then(|x| x.values_mut().next()).expect("a schema") = d,
    }
    (label, p)
}
fn forms(g: &mut Gen, op: usize) -> Vec<MForm> {
    (0..2)
        .map(|i| MForm {
            op: Some(vec![op]),
            href: format!("/{i}"),
            sec: Some(vec!["s".into()]),
            addl: Some(vec![MAddl {
                success: false,
                ct: None,
                schema: Some("schema".into()),
            }]),
            ext: g.ext(Piece::Form),
            ..Default::default()
        })
        .collect()
}
fn uri(g: &mut Gen) -> Option<Map<MDs>> {
    let v = vec![leaf(g), leaf(g)];
    let v = alt(g, v);
    let l = leaf(g);
    Some([("u".to_string(), l), ("v".to_string(), v)].into())
}
fn skel_ia(g: &mut Gen, op: usize) -> MIa {
    MIa {
        forms: forms(g, op),
        uri: uri(g),
        ext: g.ext(Piece::Ia),
        ..Default::default()
    }
}
pub fn skeleton(g: &mut Gen, depth: usize) -> Plan {
    let mut properties = Map::new();
    let tops = vec![
        ("p", nest(g, depth)),
        ("q", {
            let x = leaf(g);
            arr(g, Some(MItems::One(Box::new(x))))
        }),
        ("r", {
            let x = vec![leaf(g)];
            arr(g, Some(MItems::Many(x)))
        }),
        ("s", {
            let x = vec![leaf(g), leaf(g)];
            alt(g, x)
        }),
        ("t", leaf(g)),
    ];
    for (k, ds) in tops {
        let p = MProp {
            ia: skel_ia(g, 0),
            ds,
            observable: None,
            ext: g.ext(Piece::Prop),
        };
        properties.insert(k.to_string(), p);
    }
    let a = MAct {
        ia: skel_ia(g, 4),
        input: Some(nest(g, depth)),
        output: Some(nest(g, depth)),
        ext: g.ext(Piece::Act),
        ..Default::default()
    };
    let e = MEvt {
        ia: skel_ia(g, 7),
        subscription: Some(nest(g, depth)),
        data: Some(nest(g, depth)),
        response: Some(nest(g, depth)),
        cancellation: Some(nest(g, depth)),
        ext: g.ext(Piece::Evt),
    };
    let plain_sec = |sub| MSec {
        attype: None,
        description: None,
        descriptions: None,
        proxy: None,
        sub,
    };
    let t = MThing {
        context: crate::json::s(CTX11),
        id: None,
        info: Info {
            title: Some("t".into()),
            ..Default::default()
        },
        version: None,
        created: None,
        modified: None,
        support: None,
        base: None,
        properties: Some(properties),
        actions: Some([("p".to_string(), a)].into()),
        events: Some([("p".to_string(), e)].into()),
        links: Some(vec![]),
        forms: Some(forms(g, 9)),
        security: vec!["s".into()],
        secdefs: [
            ("s".to_string(), plain_sec(MSecSub::NoSec)),
            ("c".to_string(), plain_sec(MSecSub::OneOf(vec!["s".into(), "s2".into()]))),
            ("s2".to_string(), plain_sec(MSecSub::Psk { identity: None })),
        ]
        .into(),
        uri: uri(g),
        profile: None,
        schemas: Some([("schema".to_string(), nest(g, depth))].into()),
        ext: g.ext(Piece::Thing),
    };
    let mut p = Plan::new(t);
    p.t.links = None;
    p
}
