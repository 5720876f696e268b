//! P13: equality, cloning and default construction. P14: range bounds.
use crate::c_parse::*;
use crate::conv::*;
use crate::for_part;
use crate::fw::*;
use crate::gen::{Gen, Mode, LANGS};
use crate::json::{diff, read, s, J};
use crate::model::*;
use crate::rng::Rng;
use serde::de::DeserializeOwned;
use wot_td::hlist::Nil;
use wot_td::thing::*;

const MAPS: &[&str] = &[
    "titles", "descriptions", "properties", "actions", "events", "uri", "schemas", "secdefs", "props",
];
/// Fields holding an arbitrary JSON value, dumped as its text.
const VALUES: &[&str] = &["constant", "default", "context", "data"];

fn named(path: &[String]) -> &str {
    path.iter()
        .rev()
        .find(|p| p.parse::<usize>().is_err())
        .map(|x| x.as_str())
        .unwrap_or("")
}
fn last(path: &[String]) -> &str {
    path.last().map(|x| x.as_str()).unwrap_or("")
}
fn is_map(path: &[String]) -> bool {
    // A map is the direct value of a field of that name; a user key of that name inside a map is not.
    let Some((l, front)) = path.split_last() else { return false };
    MAPS.contains(&l.as_str()) && !is_map(front)
}
/// The model field a path leads to, user keys and indices left out.
fn field_of(path: &[String]) -> String {
    for n in (1..=path.len()).rev() {
        let p = &path[..n];
        if is_map(&p[..n - 1]) {
            return format!("entry of {}", last(&p[..n - 1]));
        }
        if last(p).parse::<usize>().is_err() {
            return last(p).to_string();
        }
    }
    String::new()
}
/// Arrays standing for tuples or fixed stacks.
fn fixed(path: &[String]) -> bool {
    matches!(last(path), "ext" | "blockwise" | "qblockwise")
        || path.len() >= 2 && path[path.len() - 2] == "headers" && last(path).parse::<usize>().is_ok()
}
fn is_value(path: &[String]) -> bool {
    let front = &path[..path.len().saturating_sub(1)];
    if VALUES.contains(&last(path)) {
        return !is_map(front);
    }
    last(front) == "enumeration" && !is_map(&front[..front.len().saturating_sub(1)])
}

/// Replaces one subtree of `a` by the corresponding subtree of `b`.
fn cross(a: &mut J, b: &J, r: &mut Rng, path: &mut Vec<String>) -> bool {
    if a == b {
        return false;
    }
    let here = r.chance(1, 6);
    match (&mut *a, b) {
        (J::Obj(x), J::Obj(y)) if !here && !x.is_empty() && !y.is_empty() => {
            if is_map(path) {
                let i = r.below(x.len());
                let j = r.below(y.len());
                path.push(x[i].0.clone());
                let ok = cross(&mut x[i].1, &y[j].1, r, path);
                if ok {
                    return true;
                }
                path.pop();
                return false;
            }
            if x.iter().map(|k| &k.0).eq(y.iter().map(|k| &k.0)) {
                let mut idx: Vec<usize> = (0..x.len()).collect();
                r.shuffle(&mut idx);
                for i in idx {
                    path.push(x[i].0.clone());
                    if cross(&mut x[i].1, &y[i].1, r, path) {
                        return true;
                    }
                    path.pop();
                }
                return false;
            }
        }
        (J::Arr(x), J::Arr(y)) if !here && !x.is_empty() && !y.is_empty() => {
            let fx = fixed(path);
            let i = r.below(x.len());
            let j = if fx { i } else { r.below(y.len()) };
            path.push(i.to_string());
            if cross(&mut x[i], &y[j], r, path) {
                return true;
            }
            path.pop();
            return false;
        }
        _ => {}
    }
    *a = b.clone();
    true
}

fn tweak_value(j: &mut J, r: &mut Rng) {
    match j {
        J::Null => *j = J::Bool(false),
        J::Bool(b) => *j = if r.coin() { J::Bool(!*b) } else { J::Null },
        J::Int(i) => {
            *j = match r.below(3) {
                0 => s(i.to_string()),
                _ => J::Int(if *i > 0 { *i - 1 } else { *i + 1 }),
            }
        }
        J::Flt(f) => *j = J::Flt(if *f == 0.5 { 1.5 } else { 0.5 }),
        J::Str(x) => x.push('!'),
        J::Arr(v) => {
            if v.is_empty() || r.chance(1, 3) {
                v.push(J::Null)
            } else if r.coin() {
                let i = r.below(v.len());
                v.remove(i);
            } else {
                let i = r.below(v.len());
                tweak_value(&mut v[i], r);
            }
        }
        J::Obj(v) => {
            if v.is_empty() || r.chance(1, 3) {
                if !v.iter().any(|x| x.0 == "zzz") {
                    v.push(("zzz".into(), J::Null))
                } else {
                    v.retain(|x| x.0 != "zzz")
                }
            } else if r.coin() {
                let i = r.below(v.len());
                v.remove(i);
            } else {
                let i = r.below(v.len());
                tweak_value(&mut v[i].1, r);
            }
        }
    }
}

fn tweak_leaf(path: &[String], j: &mut J, r: &mut Rng) -> bool {
    if is_value(path) {
        if let J::Str(t) = j {
            let mut v = read(t).expect("dumped value");
            tweak_value(&mut v, r);
            v.sort();
            *j = s(v.to_text());
            return true;
        }
    }
    let wrap = |n: i128| -> Option<i128> {
        Some(match named(path) {
            "loc" => n,
            "qop" => 2,
            "op" => 18,
            "packet" | "qos" => 3,
            "method" => 5,
            _ => return None,
        })
    };
    match j {
        J::Null => false,
        J::Bool(b) => {
            *b = !*b;
            true
        }
        J::Int(i) => {
            let k = named(path);
            if let Some(m) = wrap(5) {
                *i = (*i + 1 + r.below((m - 1) as usize) as i128) % m;
            } else if k == "blockwise" || k == "qblockwise" {
                *i = if *i == 1024 { 16 } else { *i * 2 };
            } else {
                match k {
                    "mo" | "d" => *i = if *i == 1 { 2 } else { 1 },
                    "off" => *i = if *i > 0 { *i - 1 } else { *i + 1 },
                    _ => *i = if *i > 1 { *i - 1 } else { *i + 1 },
                }
            }
            true
        }
        J::Flt(f) => {
            *f = if *f == 0.5 { 1.5 } else { 0.5 };
            true
        }
        J::Str(x) => {
            let k = named(path);
            if k == "hreflang" {
                let l = LANGS[r.below(LANGS.len())];
                if l == x {
                    return false;
                }
                *x = l.into();
            } else if matches!(x.as_str(), "NoSec" | "Auto") && last(path) == "sub" {
                *x = if x == "Auto" { "NoSec" } else { "Auto" }.into();
            } else if matches!(x.as_str(), "Bool" | "Null") && last(path) == "sub" {
                *x = if x == "Bool" { "Null" } else { "Bool" }.into();
            } else if x == "Unit" {
                return false;
            } else if k == "scheme" {
                x.push('!');
            } else if x.is_empty() || r.coin() {
                x.push('!');
            } else if r.coin() {
                x.pop();
            } else {
                // Case only.
                let y: String = x
                    .chars()
                    .map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                    .collect();
                if &y == x {
                    x.push('?');
                } else {
                    *x = y;
                }
            }
            true
        }
        _ => false,
    }
}

fn list_op(path: &[String], j: &mut J, r: &mut Rng) -> bool {
    match j {
        J::Arr(v) => {
            if fixed(path) || v.is_empty() {
                return false;
            }
            let i = r.below(v.len());
            match r.below(4) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    v.push(x);
                }
                2 => v.pop().map(|_| ()).unwrap_or(()),
                _ => {
                    let k = r.below(v.len());
                    if v[i] == v[k] {
                        return false;
                    }
                    v.swap(i, k);
                }
            }
            true
        }
        J::Obj(v) => {
            if !is_map(path) || v.is_empty() {
                return false;
            }
            let i = r.below(v.len());
            let lang = matches!(last(path), "titles" | "descriptions");
            if r.coin() {
                v.remove(i);
            } else {
                let k = if lang {
                    LANGS[r.below(LANGS.len())].to_string()
                } else {
                    format!("{}'", v[i].0)
                };
                if v.iter().any(|x| x.0 == k) {
                    return false;
                }
                if r.coin() {
                    v[i].0 = k;
                } else {
                    let x = v[i].1.clone();
                    v.push((k, x));
                }
            }
            true
        }
        _ => false,
    }
}

/// One change of one field, element or subtree; the path of the change.
/// Members of one type, so that each may hold what the other does, be it nothing.
const PEERS: &[&[&str]] = &[
    &["titles", "descriptions"],
    &["input", "output"],
    &["safe", "idem", "ro", "wo"],
    &["subscription", "data", "cancellation", "response"],
    &["authz", "token", "refresh", "name", "identity", "proxy"],
    &["created", "modified"],
    &["unit", "format"],
    &["constant", "default"],
    &["ct", "coding", "subproto"],
    &["id", "support", "base"],
    &["ty", "rel", "anchor", "sizes"],
    &["pat", "enc", "media"],
    &["min", "max"],
    &["profile", "attype", "scopes"],
];
/// Exchanges what two members of one object, or two entries of one list, hold.
fn swap(a: &mut J, r: &mut Rng, path: &mut Vec<String>) -> bool {
    let mut nodes = vec![];
    a.walk(&mut vec![], &mut |p, x| {
        if matches!(x, J::Obj(v) if v.len() > 1) || matches!(x, J::Arr(v) if v.len() > 1) && !fixed(p) && last(p) != "headers" {
            nodes.push(p.to_vec());
        }
    });
    if nodes.is_empty() {
        return false;
    }
    *path = nodes[r.below(nodes.len())].clone();
    match a.at_mut(path) {
        Some(J::Obj(v)) => {
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            let fits = |x: &J, y: &J| {
                matches!((x, y), (J::Obj(_), J::Obj(_)) | (J::Str(_), J::Str(_)) | (J::Bool(_), J::Bool(_)))
                    || PEERS.iter().any(|p| p.contains(&&*v[i].0) && p.contains(&&*v[j].0))
            };
            if !fits(&v[i].1, &v[j].1) {
                return false;
            }
            let (x, y) = (v[i].1.clone(), v[j].1.clone());
            path.push(v[i].0.clone());
            (v[i].1, v[j].1) = (y, x);
        }
        Some(J::Arr(v)) => {
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            v.swap(i, j);
        }
        _ => return false,
    }
    true
}
fn mutate(a: &mut J, donor: &J, r: &mut Rng) -> Option<Vec<String>> {
    let orig = a.clone();
    for _ in 0..40 {
        let mut path = vec![];
        let ok = if r.chance(1, 6) {
            swap(a, r, &mut path)
        } else if r.chance(2, 5) {
            cross(a, donor, r, &mut path)
        } else {
            // Nodes at every depth; deep nodes get an even share through their own weight.
            let mut nodes = vec![];
            a.walk(&mut vec![], &mut |p, x| {
                if !matches!(x, J::Null) && !p.is_empty() {
                    nodes.push(p.to_vec());
                }
            });
            if nodes.is_empty() {
                return None;
            }
            // Prefer the field names that are rare in this tree.
            let p = nodes[r.below(nodes.len())].clone();
            path = p.clone();
            let node = a.at_mut(&p)?;
            match node {
                J::Arr(_) | J::Obj(_) => list_op(&p, node, r),
                _ => tweak_leaf(&p, node, r),
            }
        };
        if ok && *a != orig {
            return Some(path);
        }
        *a = orig.clone();
    }
    None
}

fn p13_case<X: Part>(l: &mut Local, case: u64)
where
    X::M: DeserializeOwned,
{
    let rng = l.rng(case);
    let mut g = Gen::new(rng, X::exts(), Mode::Direct);
    let m = X::gen(&mut g);
    let mut r = g.r.fork();
    let mut g2 = Gen::new(g.r.fork(), X::exts(), Mode::Direct);
    g2.density = *r.pick(&[3, 5, 8]);
    let donor = dump(&X::gen(&mut g2));
    let t = X::mk(&m);
    let base = dump(&m);
    l.count(X::NAME);
    l.doing = base.to_text();
    let again = X::mk(&m);
    #[allow(clippy::eq_op)]
    if t != again || again != t || t != t {
        l.fail(format!("same-unequal-{}", X::NAME), oneline(&base.to_text(), 1500));
        return;
    }
    l.count("rebuilt equal");
    for _ in 0..6 {
        let mut d = base.clone();
        let Some(path) = mutate(&mut d, &donor, &mut r) else { continue };
        let m2: X::M = match undump(&d) {
            Ok(m) => m,
            // The change left the shape of the type.
            Err(_) => {
                l.count("discarded mutations");
                continue;
            }
        };
        // Confirm the change is visible in what is stored, independently of the crate's equality.
        let u = X::mk(&m2);
        let (od, ou) = (dump(&X::ob(&t)), dump(&X::ob(&u)));
        if diff(&od, &ou).is_none() {
            l.count("discarded mutations");
            continue;
        }
        l.seen(d.hash());
        l.count(format!("changed {}", field_of(&path)));
        l.sample(|| format!("{} changed at /{}", X::NAME, path.join("/")));
        if t == u || u == t {
            l.doing = format!("{}\n---\n{}", base.to_text(), d.to_text());
            l.fail(
                format!("changed-equal-{}", X::NAME),
                format!("values that differ at /{} compare equal: {}", path.join("/"), diff(&od, &ou).unwrap()),
            );
            return;
        }
        #[allow(clippy::nonminimal_bool)]
        if !(t != u) || !(u != t) {
            l.fail(format!("ne-disagrees-{}", X::NAME), format!("/{}", path.join("/")));
        }
    }
}

fn clone_case<T: Clone + PartialEq, M: serde::Serialize>(l: &mut Local, name: &str, t: &T, ob: impl Fn(&T) -> M) {
    let before = dump(&ob(t));
    let c = t.clone();
    l.doing = before.to_text();
    l.seen(before.hash());
    l.count(format!("cloned {name}"));
    if &c != t || t != &c {
        l.fail(format!("clone-unequal-{name}"), oneline(&before.to_text(), 1500));
    }
    if let Some(d) = diff(&before, &dump(&ob(&c))) {
        l.fail(format!("clone-content-{name}"), d);
    }
    if let Some(d) = diff(&before, &dump(&ob(t))) {
        l.fail(format!("clone-disturbs-{name}"), d);
    }
    // clone_from over a default-ish other value must give the same.
    let mut e = c.clone();
    e.clone_from(t);
    if &e != t {
        l.fail(format!("clone-from-{name}"), oneline(&before.to_text(), 1500));
    }
}

fn clones<P: Prof>(l: &mut Local, case: u64) {
    let mut g = Gen::new(l.rng(case), P::EXTS, Mode::Direct);
    let depth = g.depth();
    let ds = mk_ds::<P>(&g.ds(depth, false));
    clone_case(l, "data-schema", &ds, ob_ds);
    let f = mk_form::<P>(&g.form(&[], false));
    clone_case(l, "form", &f, ob_form::<P>);
    let k = g.r.below(11);
    let x = mk_sec(&g.sec(k));
    clone_case(l, "security", &x, ob_sec);
    let k = mk_link(&g.link());
    clone_case(l, "link", &k, ob_link);
    let e = P::mk(&g.ext(Piece::Thing));
    let ob = |e: &P| {
        let mut v = vec![];
        e.ob(&mut v);
        v
    };
    clone_case(l, "extension", &e, ob);
    if let Some(v) = g.thing().version {
        let v = VersionInfo {
            instance: v.instance,
            model: v.model,
        };
        clone_case(l, "version", &v, |v| (v.instance.clone(), v.model.clone()));
    }
}

fn defaults<P: Prof>(l: &mut Local, _case: u64)
where
    P: Default,
{
    fn is<M: serde::Serialize>(l: &mut Local, name: &str, got: &M, exp: &M) {
        l.seen(crate::rng::hash_bytes(format!("{}/{name}", l.doing).as_bytes()));
        l.count(format!("default {name}"));
        if let Some(d) = diff(&dump(exp), &dump(got)) {
            l.fail(format!("default-{name}"), d);
        }
    }
    l.doing = P::NAME.to_string();
    fn blank(p: Piece, exts: &[Ext]) -> MExt {
        exts.iter()
            .map(|e| match (e, p) {
                (Ext::UA | Ext::UB, _) => MX::User {
                    text: None,
                    num: None,
                    flag: false,
                    list: vec![],
                    any: J::Null,
                },
                (Ext::Http, Piece::Form) => MX::HttpForm { method: None },
                (Ext::Http, Piece::Resp) => MX::HttpResp {
                    headers: vec![],
                    status: None,
                },
                (Ext::Coap, Piece::Form) => MX::CoapForm {
                    method: None,
                    blockwise: None,
                    qblockwise: None,
                    hop: None,
                    accept: None,
                    cf: None,
                },
                (Ext::Coap, Piece::Resp) => MX::CoapResp { cf: None },
                (Ext::Mqtt, Piece::Form) => MX::MqttForm {
                    retain: false,
                    packet: None,
                    qos: None,
                    topic: None,
                    filter: vec![],
                },
                _ => MX::Unit,
            })
            .collect()
    }
    let x = |p| blank(p, P::EXTS);
    let ds = || MDs {
        ext: x(Piece::Ds),
        ..Default::default()
    };
    let ia = || MIa {
        ext: x(Piece::Ia),
        ..Default::default()
    };
    let t = Thing::<P>::default();
    let mut got = ob_thing(&t);
    // Whether the blank value carries the default context is left open.
    if got.context == J::Null {
        got.context = s(CTX11);
    }
    let exp = MThing {
        context: s(CTX11),
        id: None,
        info: Info {
            title: Some(String::new()),
            ..Default::default()
        },
        version: None,
        created: None,
        modified: None,
        support: None,
        base: None,
        properties: None,
        actions: None,
        events: None,
        links: None,
        forms: None,
        security: vec![],
        secdefs: Map::new(),
        uri: None,
        profile: None,
        schemas: None,
        ext: x(Piece::Thing),
    };
    is(l, "thing", &got, &exp);
    is(
        l,
        "property",
        &ob_prop(&PropertyAffordance::<P>::default()),
        &MProp {
            ia: ia(),
            ds: ds(),
            observable: None,
            ext: x(Piece::Prop),
        },
    );
    is(
        l,
        "action",
        &ob_act(&ActionAffordance::<P>::default()),
        &MAct {
            ia: ia(),
            ext: x(Piece::Act),
            ..Default::default()
        },
    );
    is(
        l,
        "event",
        &ob_evt(&EventAffordance::<P>::default()),
        &MEvt {
            ia: ia(),
            ext: x(Piece::Evt),
            ..Default::default()
        },
    );
    is(l, "interaction", &ob_ia(&InteractionAffordance::<P>::default()), &ia());
    is(l, "data-schema", &ob_ds(&Ds::<P>::default()), &ds());
    is(
        l,
        "form",
        &ob_form(&Form::<P>::default()),
        &MForm {
            ext: x(Piece::Form),
            ..Default::default()
        },
    );
    let a = ArraySchema::<P::DataSchema, P::ArraySchema, P::ObjectSchema>::default();
    let o = ObjectSchema::<P::DataSchema, P::ArraySchema, P::ObjectSchema>::default();
    let wrap = |sub| DataSchema {
        subtype: Some(sub),
        ..Ds::<P>::default()
    };
    is(
        l,
        "array",
        &ob_ds(&wrap(DataSchemaSubtype::Array(a))),
        &MDs {
            sub: Some(MSub::Arr {
                items: None,
                min: None,
                max: None,
                ext: x(Piece::Arr),
            }),
            ..ds()
        },
    );
    is(
        l,
        "object",
        &ob_ds(&wrap(DataSchemaSubtype::Object(o))),
        &MDs {
            sub: Some(MSub::Obj {
                props: None,
                req: None,
                ext: x(Piece::Obj),
            }),
            ..ds()
        },
    );
    is(
        l,
        "number",
        &ob_ds(&wrap(DataSchemaSubtype::Number(NumberSchema::default()))),
        &MDs {
            sub: Some(MSub::Num {
                min: None,
                max: None,
                mult: None,
            }),
            ..ds()
        },
    );
    is(
        l,
        "integer",
        &ob_ds(&wrap(DataSchemaSubtype::Integer(IntegerSchema::default()))),
        &MDs {
            sub: Some(MSub::Int {
                min: None,
                max: None,
                mult: None,
            }),
            ..ds()
        },
    );
    is(
        l,
        "string",
        &ob_ds(&wrap(DataSchemaSubtype::String(StringSchema::default()))),
        &MDs {
            sub: Some(MSub::Str {
                min: None,
                max: None,
                pat: None,
                enc: None,
                media: None,
            }),
            ..ds()
        },
    );
    let sec = |sub| MSec {
        attype: None,
        description: None,
        descriptions: None,
        proxy: None,
        sub,
    };
    is(l, "security", &ob_sec(&SecurityScheme::default()), &sec(MSecSub::NoSec));
    use KnownSecuritySchemeSubtype as K;
    let known = |k| {
        ob_sec(&SecurityScheme {
            subtype: SecuritySchemeSubtype::Known(k),
            ..Default::default()
        })
    };
    is(
        l,
        "basic",
        &known(K::Basic(Default::default())),
        &sec(MSecSub::Basic { loc: 0, name: None }),
    );
    is(
        l,
        "digest",
        &known(K::Digest(Default::default())),
        &sec(MSecSub::Digest {
            qop: 0,
            loc: 0,
            name: None,
        }),
    );
    is(
        l,
        "bearer",
        &known(K::Bearer(Default::default())),
        &sec(MSecSub::Bearer {
            authz: None,
            alg: "ES256".into(),
            format: "jwt".into(),
            loc: 0,
            name: None,
        }),
    );
    is(
        l,
        "apikey",
        &known(K::ApiKey(Default::default())),
        &sec(MSecSub::ApiKey { loc: 1, name: None }),
    );
    is(
        l,
        "psk",
        &known(K::Psk(Default::default())),
        &sec(MSecSub::Psk { identity: None }),
    );
    is(
        l,
        "oauth2",
        &known(K::OAuth2(Default::default())),
        &sec(MSecSub::OAuth2 {
            authz: None,
            token: None,
            refresh: None,
            scopes: None,
            flow: String::new(),
        }),
    );
    is(l, "link", &ob_link(&Link::default()), &MLink::default());
    let v = VersionInfo::default();
    is(l, "version", &(v.instance, v.model), &(String::new(), None::<String>));
}

pub fn p13(t: Tier) -> Check {
    Check {
        pid: "P13",
        rule: "pairs of values built from a model and from the same model with one field, element, key or subtree changed (leaf edits, donor crossover, list and map edits) at any depth; a pair counts only if the change is visible in the public fields; distinct counts different changed contents",
        assumptions: vec![
            "content is judged by reading public fields, not by the crate's equality or serialization",
            "floats in the pairs are never NaN or negative zero; dates that differ denote different instants",
            "whether Thing::default() carries a context is left open (it holds null today)",
        ],
        stack: 32 << 20,
        must_see: vec![
            "rebuilt equal", "changed observable", "changed sub", "changed idem", "changed uri", "changed schemas",
            "changed cancellation", "changed hreflang", "changed qop", "cloned form", "default thing",
        ],
        phases: vec![
            phase("pairs", t.n(20_000, 600_000), |l, c| for_part!(c, p13_case(l, c))),
            phase("clones", t.n(3_000, 100_000), |l, c| crate::for_profile!(c, clones(l, c))),
            exhaustive("defaults", 5, |l, c| crate::for_profile!(c, defaults(l, c))),
        ],
    }
}

#[allow(unused)]
type _N = Nil;

// ---- P14 ---------------------------------------------------------------------------------------

use std::cmp::Ordering;

/// The order of two values of the same total-or-partial domain, computed without `partial_cmp`.
fn vord<T: PartialOrd>(a: &T, b: &T) -> Option<Ordering> {
    if a < b {
        Some(Ordering::Less)
    } else if a > b {
        Some(Ordering::Greater)
    } else if a == b {
        Some(Ordering::Equal)
    } else {
        None
    }
}

/// All comparison operators agree with the reported order and with equality, both ways round.
fn coherent<A, B>(l: &mut Local, what: &str, a: &A, b: &B)
where
    A: PartialOrd<B> + PartialEq<B> + std::fmt::Debug,
    B: PartialOrd<A> + PartialEq<A> + std::fmt::Debug,
{
    let o = a.partial_cmp(b);
    let bad = |k: &str| format!("{what}: {k} of {a:?} and {b:?}, reported order {o:?}");
    let mut errs = vec![];
    if b.partial_cmp(a) != o.map(Ordering::reverse) {
        errs.push(format!("{} but reversed {:?}", bad("reversal"), b.partial_cmp(a)));
    }
    if (a == b) != (o == Some(Ordering::Equal)) || (b == a) != (a == b) || (a != b) == (a == b) {
        errs.push(bad("equality"));
    }
    if (a < b) != (o == Some(Ordering::Less)) || (a > b) != (o == Some(Ordering::Greater)) {
        errs.push(bad("strict operators"));
    }
    if (a <= b) != matches!(o, Some(Ordering::Less | Ordering::Equal))
        || (a >= b) != matches!(o, Some(Ordering::Greater | Ordering::Equal))
    {
        errs.push(bad("weak operators"));
    }
    for e in errs {
        l.fail(format!("incoherent-{what}"), e);
    }
}

fn p14_pair<T: PartialOrd + Copy + std::fmt::Debug>(l: &mut Local, name: &str, a: T, b: T) {
    let v = vord(&a, &b);
    for (ka, kb) in [(false, false), (false, true), (true, false), (true, true)] {
        let mn = |k: bool, x: T| if k { Minimum::Exclusive(x) } else { Minimum::Inclusive(x) };
        let mx = |k: bool, x: T| if k { Maximum::Exclusive(x) } else { Maximum::Inclusive(x) };
        let (na, nb, xa, xb) = (mn(ka, a), mn(kb, b), mx(ka, a), mx(kb, b));
        l.doing = format!("{name} {a:?} {b:?} exclusive {ka} {kb}");
        let h = l.doing.clone();
        l.seen(crate::rng::hash_bytes(h.as_bytes()));
        coherent(l, "min-min", &na, &nb);
        coherent(l, "max-max", &xa, &xb);
        coherent(l, "min-max", &na, &xb);
        coherent(l, "max-min", &xa, &nb);
        let (mm, xx, mxo) = (na.partial_cmp(&nb), xa.partial_cmp(&xb), na.partial_cmp(&xb));
        l.count(match mm {
            None => "minimums unordered",
            Some(_) => "minimums ordered",
        });
        l.count(match mxo {
            None => "minimum and maximum unordered",
            Some(_) => "minimum and maximum ordered",
        });
        if ka == kb {
            for (w, o) in [("min-min", mm), ("max-max", xx), ("min-max", mxo)] {
                if o != v {
                    l.fail(
                        format!("same-kind-{w}"),
                        format!("{name} {w} {a:?} {b:?} exclusive={ka}: {o:?}, values order {v:?}"),
                    );
                }
            }
            continue;
        }
        // Minimums. A set is contained in the other iff (inclusive a): [a, oo) in (b, oo) iff a > b;
        // (b, oo) in [a, oo) iff b >= a.
        let (must, may) = match (v, ka) {
            (None, _) => (None, None),
            (Some(o), false) => match o {
                Ordering::Less | Ordering::Equal => (Some(Ordering::Less), None),
                Ordering::Greater => (None, Some(Ordering::Greater)),
            },
            (Some(o), true) => match o {
                Ordering::Greater | Ordering::Equal => (Some(Ordering::Greater), None),
                Ordering::Less => (None, Some(Ordering::Less)),
            },
        };
        if !(mm == must || may.is_some() && mm == may) {
            l.fail("containment-min", format!("{name} minimum {na:?} {nb:?}: {mm:?}, expected {must:?}"));
        }
        // Maximums: (-oo, b) in (-oo, a] iff b <= a; (-oo, a] in (-oo, b) iff a < b.
        let (must, may) = match (v, ka) {
            (None, _) => (None, None),
            (Some(o), false) => match o {
                Ordering::Greater | Ordering::Equal => (Some(Ordering::Greater), None),
                Ordering::Less => (None, Some(Ordering::Less)),
            },
            (Some(o), true) => match o {
                Ordering::Less | Ordering::Equal => (Some(Ordering::Less), None),
                Ordering::Greater => (None, Some(Ordering::Greater)),
            },
        };
        if !(xx == must || may.is_some() && xx == may) {
            l.fail("containment-max", format!("{name} maximum {xa:?} {xb:?}: {xx:?}, expected {must:?}"));
        }
        // A minimum and a maximum of different kinds: ordered exactly when nothing lies between.
        let exp = match v {
            Some(Ordering::Greater | Ordering::Equal) => Some(Ordering::Greater),
            _ => None,
        };
        if mxo != exp {
            l.fail("empty-range", format!("{name} {na:?} {xb:?}: {mxo:?}, expected {exp:?}"));
        }
    }
}

const F: [f64; 17] = [
    f64::NEG_INFINITY,
    f64::MIN,
    -1e300,
    -2.5,
    -1.0,
    -1e-300,
    -0.0,
    0.0,
    5e-324,
    0.1,
    1.0,
    1.0000000000000002,
    2.5,
    9007199254740993.0,
    f64::MAX,
    f64::INFINITY,
    f64::NAN,
];
const I: [i64; 9] = [i64::MIN, i64::MIN + 1, -2, -1, 0, 1, 7, i64::MAX - 1, i64::MAX];

macro_rules! nan {
    ($l:ident, $t:ty, $vals:expr) => {
        for x in $vals {
            let x = x as $t;
            for (k, got) in [
                ("minimum inclusive", Minimum::Inclusive(x).is_nan()),
                ("minimum exclusive", Minimum::Exclusive(x).is_nan()),
                ("maximum inclusive", Maximum::Inclusive(x).is_nan()),
                ("maximum exclusive", Maximum::Exclusive(x).is_nan()),
            ] {
                $l.seen(crate::rng::hash_bytes(format!("nan {k} {x:?} {}", stringify!($t)).as_bytes()));
                $l.count("nan queries");
                if got != (x != x) {
                    $l.fail("nan", format!("{k} {x:?}: is_nan {got}"));
                }
            }
        }
    };
}

fn p14_grid(l: &mut Local, _: u64) {
    for a in F {
        for b in F {
            p14_pair(l, "f64", a, b);
            p14_pair(l, "f32", a as f32, b as f32);
        }
    }
    for a in I {
        for b in I {
            p14_pair(l, "i64", a, b);
            p14_pair(l, "i32", a as i32, b as i32);
            p14_pair(l, "u64", a as u64, b as u64);
            p14_pair(l, "u8", a as u8, b as u8);
        }
    }
    for a in ["", "a", "aa", "b"] {
        for b in ["", "a", "aa", "b"] {
            p14_pair(l, "str", a, b);
        }
    }
    #[allow(clippy::eq_op)]
    {
        nan!(l, f64, F);
        nan!(l, f32, F);
        // Quiet and signalling, of either sign and with every single payload bit, and what is next to them.
        let bits = |exp: u64, low: u32| {
            let some = (0..low).map(move |b| exp << low | 1 << b);
            some.chain([exp << low, (exp << low) + (1 << low) - 1, (exp << low) - 1, (exp << low) | (3 << (low - 2))])
        };
        nan!(l, f64, bits(0x7ff, 52).flat_map(|b| [b, b | 1 << 63]).map(f64::from_bits));
        nan!(l, f32, bits(0xff, 23).flat_map(|b| [b, b | 1 << 31]).map(|b| f32::from_bits(b as u32)));
        for b in [0x7ff8_0000_0000_0000u64, 0xfff8_0000_0000_0000, 0x7ff0_0000_0000_0001, u64::MAX] {
            for x in F {
                p14_pair(l, "f64", x, f64::from_bits(b));
                p14_pair(l, "f32", x as f32, f32::from_bits((b >> 32) as u32));
            }
        }
    }
    let d = l.doing.clone();
    l.sample(|| d);
}

fn p14_random(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let (a, b) = (f64::from_bits(r.u64()), f64::from_bits(r.u64()));
    p14_pair(l, "f64", a, b);
    let up = f64::from_bits(a.to_bits().wrapping_add(1));
    p14_pair(l, "f64", a, up);
    p14_pair(l, "f64", a, a);
    p14_pair(l, "f32", a as f32, b as f32);
    let (a, b) = (r.u64() as i64, r.u64() as i64);
    p14_pair(l, "i64", a, b);
    p14_pair(l, "i64", a, a.wrapping_add(r.below(3) as i64 - 1));
    p14_pair(l, "i8", a as i8, b as i8);
}

pub fn p14(t: Tier) -> Check {
    Check {
        pid: "P14",
        rule: "pairs of bounds: a complete grid of boundary values for f64, f32, i64, i32, u64, u8 and strings in all four kind combinations, and random bit patterns; every comparison operator in both directions is observed; distinct counts different (type, values, kinds)",
        assumptions: vec![
            "where a mixed-kind pair of minimums (or maximums) is strictly nested the other way round, reporting no order and reporting the containment are both accepted",
        ],
        stack: 8 << 20,
        must_see: vec!["minimums ordered", "minimums unordered", "minimum and maximum ordered", "minimum and maximum unordered", "nan queries"],
        phases: vec![
            exhaustive("grid", 1, p14_grid),
            phase("random", t.n(40_000, 2_000_000), p14_random),
        ],
    }
}
