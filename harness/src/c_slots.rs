//! P17: the same data-schema description in every position.
use crate::conv::*;
use crate::drive::*;
use crate::for_bprof;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{diff, s as js, J};
use crate::model::*;
use crate::rng::Rng;
use wot_td::hlist::Nil;
use wot_td::thing::Thing;

/// String constraints cannot be given through a property builder.
fn for_property(d: &MDs) -> MDs {
    let mut d = d.clone();
    if let Some(MSub::Str { .. }) = d.sub {
        d.sub = Some(MSub::Str {
            min: None,
            max: None,
            pat: None,
            enc: None,
            media: None,
        });
    }
    d
}
fn wrap(g: &mut Gen, sub: Option<MSub>, one_of: Option<Vec<MDs>>) -> MDs {
    MDs {
        sub,
        one_of,
        ext: g.ext(Piece::Ds),
        ..Default::default()
    }
}
/// Neutral extension content where a wrapper needs it.
fn arr(g: &mut Gen, items: MItems) -> MDs {
    let ext = g.ext(Piece::Arr);
    wrap(
        g,
        Some(MSub::Arr {
            items: Some(items),
            min: None,
            max: None,
            ext,
        }),
        None,
    )
}
fn obj(g: &mut Gen, k: &str, req: bool, d: MDs) -> MDs {
    let ext = g.ext(Piece::Obj);
    wrap(
        g,
        Some(MSub::Obj {
            props: Some([(k.to_string(), d)].into()),
            req: req.then(|| vec![k.to_string()]),
            ext,
        }),
        None,
    )
}
const WRAPS: [&str; 7] = [
    "items",
    "first element",
    "later element",
    "member",
    "required member",
    "first alternative",
    "later alternative",
];
fn wrapped(g: &mut Gen, i: usize, d: &MDs) -> MDs {
    let d = d.clone();
    let b = MDs {
        sub: Some(MSub::Bool),
        ..wrap(g, None, None)
    };
    match i {
        0 => arr(g, MItems::One(Box::new(d))),
        1 => arr(g, MItems::Many(vec![d, b])),
        2 => arr(g, MItems::Many(vec![b, d])),
        3 => obj(g, "m", false, d),
        4 => obj(g, "m", true, d),
        5 => wrap(g, None, Some(vec![d, b])),
        _ => wrap(g, None, Some(vec![b, d])),
    }
}
fn unwrapped<'a>(i: usize, d: &'a MDs) -> Option<&'a MDs> {
    match (i, &d.sub, &d.one_of) {
        (0, Some(MSub::Arr { items: Some(MItems::One(x)), .. }), _) => Some(x),
        (1 | 2, Some(MSub::Arr { items: Some(MItems::Many(v)), .. }), _) => v.get(i - 1),
        (3 | 4, Some(MSub::Obj { props: Some(m), req, .. }), _) => {
            let want: Option<Vec<String>> = (i == 4).then(|| vec!["m".into()]);
            (*req == want).then(|| m.get("m")).flatten()
        }
        (_, _, Some(v)) => v.get(i - 5),
        _ => None,
    }
}

/// A Thing with the schema in every position; `None` marks positions it cannot take.
fn everywhere(g: &mut Gen, d: &MDs, prop: &MDs, scalar: bool) -> MThing {
    let ia = |g: &mut Gen, scalar: bool| MIa {
        info: Info::default(),
        forms: vec![],
        uri: scalar.then(|| [("u".to_string(), d.clone())].into()),
        ext: g.ext(Piece::Ia),
    };
    let mut properties = Map::new();
    let mut put = |g: &mut Gen, k: String, ds: MDs| {
        let mut ia = ia(g, scalar);
        ia.info = ds.info.clone();
        let p = MProp {
            ia,
            ds,
            observable: None,
            ext: g.ext(Piece::Prop),
        };
        properties.insert(k, p);
    };
    put(g, "top".into(), prop.clone());
    for (i, w) in WRAPS.iter().enumerate() {
        let x = wrapped(g, i, d);
        put(g, w.to_string(), x);
    }
    let mut schemas = Map::new();
    schemas.insert("top".to_string(), d.clone());
    for (i, w) in WRAPS.iter().enumerate() {
        // Two levels of nesting.
        for (j, w2) in WRAPS.iter().enumerate() {
            let x = wrapped(g, j, d);
            let x = wrapped(g, i, &x);
            schemas.insert(format!("{w}/{w2}"), x);
        }
    }
    let a = MAct {
        ia: ia(g, scalar),
        input: Some(d.clone()),
        output: Some(d.clone()),
        ext: g.ext(Piece::Act),
        ..Default::default()
    };
    let e = MEvt {
        ia: ia(g, scalar),
        subscription: Some(d.clone()),
        data: Some(d.clone()),
        response: Some(d.clone()),
        cancellation: Some(d.clone()),
        ext: g.ext(Piece::Evt),
    };
    MThing {
        context: js(CTX11),
        id: None,
        info: Info {
            title: Some("t".into()),
            ..Default::default()
        },
        version: None,
        created: None,
        modified: None,
        support: None,
        base: None,
        properties: Some(properties),
        actions: Some([("a".to_string(), a)].into()),
        events: Some([("e".to_string(), e)].into()),
        links: None,
        forms: None,
        security: vec![],
        secdefs: Map::new(),
        uri: scalar.then(|| [("u".to_string(), d.clone())].into()),
        profile: None,
        schemas: Some(schemas),
        ext: g.ext(Piece::Thing),
    }
}
/// Every position of an observed Thing, with the schema found there.
fn positions(t: &MThing) -> Vec<(String, Option<&MDs>)> {
    let mut v = vec![];
    let u = |m: &'static str| m.to_string();
    if let Some(m) = &t.uri {
        v.push((u("thing.uriVariable"), m.get("u")));
    }
    for (k, p) in t.properties.iter().flatten() {
        match WRAPS.iter().position(|w| w == k) {
            Some(i) => v.push((format!("property>{k}"), unwrapped(i, &p.ds))),
            None => v.push((u("property"), Some(&p.ds))),
        }
        if let Some(m) = &p.ia.uri {
            v.push((u("property.uriVariable"), m.get("u")));
        }
    }
    for (_, a) in t.actions.iter().flatten() {
        v.push((u("action.input"), a.input.as_ref()));
        v.push((u("action.output"), a.output.as_ref()));
        if let Some(m) = &a.ia.uri {
            v.push((u("action.uriVariable"), m.get("u")));
        }
    }
    for (_, e) in t.events.iter().flatten() {
        v.push((u("event.subscription"), e.subscription.as_ref()));
        v.push((u("event.data"), e.data.as_ref()));
        v.push((u("event.dataResponse"), e.response.as_ref()));
        v.push((u("event.cancellation"), e.cancellation.as_ref()));
        if let Some(m) = &e.ia.uri {
            v.push((u("event.uriVariable"), m.get("u")));
        }
    }
    for (k, d) in t.schemas.iter().flatten() {
        match k.split_once('/') {
            Some((a, b)) => {
                let i = WRAPS.iter().position(|w| *w == a).expect("wrap");
                let j = WRAPS.iter().position(|w| *w == b).expect("wrap");
                v.push((format!("schemaDefinition>{a}>{b}"), unwrapped(i, d).and_then(|x| unwrapped(j, x))));
            }
            None => v.push((u("schemaDefinition"), Some(d))),
        }
    }
    v
}
fn flags(d: &MDs, via_builder: bool) -> Result<(), String> {
    if !via_builder {
        return Ok(());
    }
    if d.ro && d.wo {
        return Err("both read-only and write-only".into());
    }
    if d.constant.is_some() && (!d.ro || d.sub.is_some()) {
        return Err("a constant that is not read-only, or has a type".into());
    }
    Ok(())
}
fn compare<P: Prof>(l: &mut Local, how: &str, built: bool, t: &Thing<P>, d: &MDs, prop: &MDs) {
    let ob = ob_thing(t);
    let (d, prop) = (dump(d), dump(prop));
    let at = positions(&ob);
    for (place, x) in &at {
        let exp = if place == "property" { &prop } else { &d };
        match x {
            None => l.fail("lost", format!("{how}: nothing at {place}")),
            Some(x) => {
                if let Some(e) = diff(exp, &dump(x)) {
                    l.fail("position", format!("{how}: at {place}: {e}"));
                }
                if let Err(e) = flags(x, built) {
                    l.fail("flags", format!("{how}: at {place}: {e}"));
                }
                l.count(format!("{how}.{place}"));
            }
        }
    }
}
fn slots<P: BProf>(l: &mut Local, mut d: MDs, mut r: Rng) {
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    crate::faults::walk_ds(&mut d, "", &mut |_, d| {
        if d.ext.is_empty() {
            d.ext = g.ext(Piece::Ds);
        }
        match &mut d.sub {
            Some(MSub::Arr { ext, .. }) if ext.is_empty() => *ext = g.ext(Piece::Arr),
            Some(MSub::Obj { ext, .. }) if ext.is_empty() => *ext = g.ext(Piece::Obj),
            _ => {}
        }
    });
    // Whether a structured alternative may hide inside a URI variable is left open.
    let scalar = d.one_of.is_none() && !matches!(d.sub, Some(MSub::Arr { .. } | MSub::Obj { .. }));
    let prop = for_property(&d);
    let m = everywhere(&mut g, &d, &prop, scalar);
    l.doing = format!("{} {}", P::NAME, dump(&d).to_text());
    l.seen(dump(&d).hash());
    match run::<P>(&Plan::new(m), r.fork()) {
        Err(e) => l.fail("rejected", format!("built schema rejected in some position: {e:?}")),
        Ok(t) => compare::<P>(l, "built", true, &t, &d, &prop),
    }
    match standalone::<P>(&d, r.fork()) {
        Err(e) => l.fail("standalone", format!("stand-alone schema rejected: {e:?}")),
        Ok(x) => {
            // Extensions are attached by the enclosing builder only.
            let mut exp = d.clone();
            let mut got = ob_ds(&x);
            exp.ext.clear();
            got.ext.clear();
            if let Some(e) = diff(&dump(&exp), &dump(&got)) {
                l.fail("standalone", format!("stand-alone: {e}"));
            }
            l.count("standalone");
        }
    }
    let m = everywhere(&mut g, &d, &d, true);
    let text = canon(P::EXTS, &m).to_text();
    match serde_json::from_str::<Thing<P>>(&text) {
        Err(e) => l.fail("not-parsed", format!("{e}: {text}")),
        Ok(t) => compare::<P>(l, "parsed", false, &t, &d, &d),
    }
}
fn random<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    g.fuel = 12;
    let depth = r.below(3);
    let d = g.ds(depth, false);
    l.sample(|| dump(&d).to_text());
    slots::<P>(l, d, r);
}

/// Small schemas: every shape, alone and with each single setting, in each access mode.
fn small() -> Vec<MDs> {
    let b = || MDs {
        sub: Some(MSub::Bool),
        ..Default::default()
    };
    let st = |x: &str| Some(x.to_string());
    let num = |min, max, mult| MSub::Num { min, max, mult };
    let int = |min, max, mult| MSub::Int { min, max, mult };
    let strg = |min, max, pat, enc, media| MSub::Str { min, max, pat, enc, media };
    let arr = |items, min, max| MSub::Arr { items, min, max, ext: vec![] };
    let ob = |v: Vec<(&str, bool)>| MSub::Obj {
        props: (!v.is_empty()).then(|| v.iter().map(|(k, _)| (k.to_string(), b())).collect()),
        req: Some(v.iter().filter(|(_, r)| *r).map(|(k, _)| k.to_string()).collect::<Vec<_>>()).filter(|v| !v.is_empty()),
        ext: vec![],
    };
    let subs = vec![
        MSub::Bool,
        MSub::Null,
        num(None, None, None),
        num(Some(Bd::In(1.0)), None, None),
        num(Some(Bd::Ex(1.0)), None, None),
        num(None, Some(Bd::In(1.0)), None),
        num(None, Some(Bd::Ex(1.0)), None),
        num(None, None, Some(0.5)),
        num(Some(Bd::Ex(-1.0)), Some(Bd::In(1.0)), Some(0.5)),
        int(None, None, None),
        int(Some(Bd::In(1)), None, None),
        int(Some(Bd::Ex(1)), None, None),
        int(None, Some(Bd::In(1)), None),
        int(None, Some(Bd::Ex(1)), None),
        int(None, None, Some(3)),
        int(Some(Bd::In(-9)), Some(Bd::Ex(9)), Some(3)),
        strg(None, None, None, None, None),
        strg(Some(1), None, None, None, None),
        strg(None, Some(2), None, None, None),
        strg(None, None, st("p"), None, None),
        strg(None, None, None, st("e"), None),
        strg(None, None, None, None, st("m")),
        strg(Some(1), Some(2), st("p"), st("e"), st("m")),
        arr(None, None, None),
        arr(None, Some(1), None),
        arr(None, None, Some(2)),
        arr(None, Some(1), Some(2)),
        arr(Some(MItems::One(Box::new(b()))), None, None),
        arr(Some(MItems::One(Box::new(b()))), Some(1), Some(2)),
        arr(Some(MItems::Many(vec![])), None, None),
        arr(Some(MItems::Many(vec![b()])), None, None),
        arr(
            Some(MItems::Many(vec![
                b(),
                MDs {
                    sub: Some(MSub::Null),
                    ..Default::default()
                },
            ])),
            None,
            None,
        ),
        ob(vec![]),
        ob(vec![("a", false)]),
        ob(vec![("a", true)]),
        ob(vec![("a", false), ("b", true), ("c", false), ("d", true)]),
    ];
    let mut shapes: Vec<MDs> = subs
        .into_iter()
        .map(|x| MDs {
            sub: Some(x),
            ..Default::default()
        })
        .collect();
    for v in [vec![J::Null], vec![J::Int(1), js("x"), J::Bool(false)]] {
        shapes.push(MDs {
            enumeration: Some(v),
            ..Default::default()
        });
    }
    let mut out = vec![];
    for x in &shapes {
        for (ro, wo) in [(false, false), (true, false), (false, true)] {
            out.push(MDs { ro, wo, ..x.clone() });
        }
    }
    for c in [J::Null, J::Bool(true), J::Int(7), js("c"), J::Arr(vec![J::Null]), J::obj()] {
        out.push(MDs {
            constant: Some(c),
            ro: true,
            ..Default::default()
        });
    }
    for v in [vec![b()], vec![b(), shapes[2].clone(), shapes[1].clone()]] {
        out.push(MDs {
            one_of: Some(v),
            ..Default::default()
        });
    }
    let one = |k: &str| -> Map<String> { [("en".to_string(), k.to_string())].into() };
    let mut all = vec![];
    for x in out {
        for k in 0..9 {
            let mut d = x.clone();
            match k {
                0 => {}
                1 => d.info.attype = Some(vec!["t1".into(), "t2".into()]),
                2 => d.info.title = st("title"),
                3 => d.info.titles = Some(one("titles")),
                4 => d.info.description = st("description"),
                5 => d.info.descriptions = Some(one("descriptions")),
                6 => d.unit = st("unit"),
                7 => d.format = st("format"),
                _ => d.default = Some(js("default")),
            }
            all.push(d);
        }
    }
    all
}
pub fn p17(t: Tier) -> Check {
    let n = small().len() as u64;
    Check {
        pid: "P17",
        rule: "One schema model is put in every position at once (property, action input and output, four event \
               schemas, schema definition, URI variables at four places, every way of nesting one and two levels deep, \
               and stand-alone), through randomly ordered builder calls and through parsing, and every position must \
               show exactly that model. All shapes with each single setting in each access mode are enumerated; \
               random schemas combine settings.",
        assumptions: vec![
            "the property builder offers no string constraints, so those are left out at that position when building",
            "structured schemas are not put in URI variables when building",
        ],
        stack: 16 << 20,
        must_see: vec![
            "built.property",
            "built.event.dataResponse",
            "built.property.uriVariable",
            "built.schemaDefinition>later element>later alternative",
            "parsed.event.uriVariable",
            "standalone",
        ],
        phases: vec![
            exhaustive("small schemas", n, |l, c| {
                let d = small().swap_remove(c as usize);
                let r = l.rng(c);
                slots::<Nil>(l, d, r)
            }),
            exhaustive("small schemas, extended", n, |l, c| {
                let d = small().swap_remove(c as usize);
                let r = l.rng(c);
                for_bprof!(1 + c % 4, slots(l, d, r))
            }),
            phase("random", t.n(6_000, 200_000), |l, c| for_bprof!(c, random(l, c))),
        ],
    }
}
