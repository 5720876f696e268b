//! P10: security schemes, built, parsed and serialized.
use crate::conv::*;
use crate::drive::*;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{self, diff, s as js, J};
use crate::model::*;
use crate::rng::Rng;
use wot_td::hlist::Nil;
use wot_td::thing::*;

/// Every kind with every subset of its own members.
fn subs() -> Vec<MSecSub> {
    let st = |x: &str| x.to_string();
    let opt = |x: &str| [None, Some(x.to_string())];
    let mut v = vec![MSecSub::NoSec, MSecSub::Auto];
    for m in [vec!["a"], vec!["a", "b"], vec!["b", "a", "b"]] {
        let m: Vec<String> = m.into_iter().map(st).collect();
        v.push(MSecSub::OneOf(m.clone()));
        v.push(MSecSub::AllOf(m));
    }
    for loc in 0..5 {
        for name in opt("n") {
            v.push(MSecSub::Basic { loc, name: name.clone() });
            v.push(MSecSub::ApiKey { loc, name: name.clone() });
            for qop in 0..2 {
                v.push(MSecSub::Digest { qop, loc, name: name.clone() });
            }
            for authz in opt("https://a") {
                for alg in ["ES256", "ES512-256", "", "es256", "ES256 ", "ES384"] {
                    for format in ["jwt", "cwt", "", "JWT", "Jwt", " jwt"] {
                        v.push(MSecSub::Bearer {
                            authz: authz.clone(),
                            alg: st(alg),
                            format: st(format),
                            loc,
                            name: name.clone(),
                        });
                    }
                }
            }
        }
    }
    for identity in opt("id") {
        v.push(MSecSub::Psk { identity });
    }
    for authz in opt("https://a") {
        for token in opt("https://t") {
            for refresh in opt("https://r") {
                for n in 0..3 {
                    for flow in ["code", "client", "device", "x-own", "", "Code", "CODE", "implicit"] {
                        v.push(MSecSub::OAuth2 {
                            authz: authz.clone(),
                            token: token.clone(),
                            refresh: refresh.clone(),
                            scopes: (n > 0).then(|| (0..n).map(|i| format!("scope{i}")).collect()),
                            flow: st(flow),
                        });
                    }
                }
            }
        }
    }
    let datas = [
        "{}",
        r#"{"in":"nowhere","name":5,"qop":null}"#,
        r#"{"flow":{"deep":[1,2.5,{"a":null}]},"oneOf":["x"],"allOf":"y"}"#,
        r#"{"identity":"i","alg":"A","format":true,"authorization":"z","scopes":[]}"#,
        r#"{"":"","title":"t","Known":{"basic":1},"Unknown":[]}"#,
    ];
    for scheme in ["ace:ACESecurityScheme", "Basic", "custom", "", "nosec2", "uri"] {
        for d in datas {
            v.push(MSecSub::Custom {
                scheme: st(scheme),
                data: json::read(d).expect("json"),
            });
        }
    }
    v
}
fn common(i: usize) -> MSec {
    let has = |b: usize| i >> b & 1 == 1;
    MSec {
        attype: has(0).then(|| vec!["t1".into(), "t2".into()]),
        description: has(1).then(|| "description".into()),
        descriptions: has(2).then(|| [("it".to_string(), "descrizione".to_string())].into()),
        proxy: has(3).then(|| "https://proxy".into()),
        sub: MSecSub::NoSec,
    }
}
fn buildable(x: &MSecSub) -> bool {
    !matches!(x, MSecSub::Psk { identity: Some(_) })
}
fn helpers(t: &mut MThing) {
    for k in ["a", "b"] {
        let d = MSec {
            attype: None,
            description: None,
            descriptions: None,
            proxy: None,
            sub: MSecSub::Psk { identity: None },
        };
        t.secdefs.entry(k.into()).or_insert(d);
    }
}
fn thing(key: &str, m: &MSec, required: bool) -> MThing {
    let mut g = Gen::new(Rng::new(1), &[], Mode::Build);
    g.density = 0;
    let mut t = g.thing();
    t.context = js(CTX11);
    t.properties = None;
    t.actions = None;
    t.events = None;
    t.secdefs.clear();
    t.security.clear();
    t.secdefs.insert(key.into(), m.clone());
    helpers(&mut t);
    if required {
        t.security.push(key.into());
    }
    t
}

/// What the crate emits for a definition, against its TD spelling.
fn emitted(l: &mut Local, t: &Thing<Nil>, key: &str, m: &MSec) -> Option<J> {
    let text = match serde_json::to_string(t) {
        Ok(x) => x,
        Err(e) => {
            l.fail("serialize", e.to_string());
            return None;
        }
    };
    let doc = match json::read(&text) {
        Ok(x) => x,
        Err(e) => {
            l.fail("serialize", format!("{e}: {text}"));
            return None;
        }
    };
    let exp = Canon {
        exts: &[],
        st: Sty::Canon,
    }
    .sec(m);
    match doc.get("securityDefinitions").and_then(|d| d.get(key)) {
        None => l.fail("emitted", format!("no definition {key:?} in {text}")),
        Some(got) => {
            if let Some(d) = diff(&exp, got) {
                l.fail("emitted", format!("{d}: {}", got.to_text()));
            }
        }
    }
    Some(doc)
}
fn observed(l: &mut Local, how: &str, t: &Thing<Nil>, exp: &MThing) {
    let got = ob_thing(t);
    if let Some(d) = diff(&dump(&exp.secdefs), &dump(&got.secdefs)) {
        l.fail(how, d);
    }
    if exp.security != got.security {
        l.fail(how, format!("security is {:?}, expected {:?}", got.security, exp.security));
    }
}
fn one(l: &mut Local, m: &MSec, mut r: Rng) {
    let scheme = m.sub.scheme().to_string();
    let kind = if matches!(m.sub, MSecSub::Custom { .. }) { "custom" } else { &scheme };
    l.count(format!("scheme.{kind}"));
    l.seen(dump(m).hash());
    for own_key in [false, true] {
        let key = if own_key {
            ["key", "", "basic", "combo", "chiave ☕"][r.below(5)].to_string()
        } else {
            scheme.clone()
        };
        // The two helper definitions use these names.
        let key = if key == "a" || key == "b" { "key".to_string() } else { key };
        let required = r.coin();
        let t = thing(&key, m, required);
        l.doing = format!("{key} {}", dump(m).to_text());
        if buildable(&m.sub) {
            for _ in 0..2 {
                match run::<Nil>(&crate::drive::Plan::new(t.clone()), r.fork()) {
                    Err(e) => l.fail("rejected", format!("{e:?}")),
                    Ok(x) => {
                        observed(l, "built", &x, &t);
                        l.count("built");
                        if let Some(doc) = emitted(l, &x, &key, m) {
                            match serde_json::from_str::<Thing<Nil>>(&doc.to_text()) {
                                Ok(y) => {
                                    observed(l, "reparsed", &y, &t);
                                    if x != y {
                                        l.fail("reparsed", "not equal to the built thing");
                                    }
                                }
                                Err(e) => l.fail("reparsed", e.to_string()),
                            }
                        }
                    }
                }
            }
        }
        for (how, doc) in [
            ("canonical", canon(&[], &t)),
            ("terse", terse(&[], &t)),
            ("noisy", noisy(&[], &t, r.fork(), Noise::ALL)),
        ] {
            let text = doc.to_text();
            match serde_json::from_str::<Thing<Nil>>(&text) {
                Err(e) => l.fail("not-parsed", format!("{how}: {e}: {text}")),
                Ok(x) => {
                    observed(l, "parsed", &x, &t);
                    l.count(format!("parsed.{how}"));
                    emitted(l, &x, &key, m);
                }
            }
        }
    }
}
fn grid(l: &mut Local, case: u64) {
    let v = subs();
    let m = MSec {
        sub: v[case as usize / 16].clone(),
        ..common(case as usize % 16)
    };
    let r = l.rng(case);
    one(l, &m, r);
    l.sample(|| dump(&m).to_text());
}
fn random(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), &[], Mode::Build);
    g.secs = vec!["a".into(), "b".into()];
    let m = g.sec((case % 11) as usize);
    one(l, &m, r);
}

/// Unset members, set through no builder call at all.
fn defaults(l: &mut Local, case: u64) {
    let t = |f: &dyn Fn(wot_td::builder::ThingBuilder<Nil, wot_td::builder::ToExtend>) -> Result<Thing<Nil>, wot_td::builder::Error>| {
        f(Thing::<Nil>::builder("t"))
    };
    let (scheme, x, sub) = match case {
        0 => (
            "basic",
            t(&|b| b.finish_extend().security(|b| b.basic()).build()),
            MSecSub::Basic { loc: 0, name: None },
        ),
        1 => (
            "digest",
            t(&|b| b.finish_extend().security(|b| b.digest()).build()),
            MSecSub::Digest { qop: 0, loc: 0, name: None },
        ),
        2 => (
            "bearer",
            t(&|b| b.finish_extend().security(|b| b.bearer()).build()),
            MSecSub::Bearer {
                authz: None,
                alg: "ES256".into(),
                format: "jwt".into(),
                loc: 0,
                name: None,
            },
        ),
        3 => (
            "apikey",
            t(&|b| b.finish_extend().security(|b| b.apikey()).build()),
            MSecSub::ApiKey { loc: 1, name: None },
        ),
        4 => ("psk", t(&|b| b.finish_extend().security(|b| b.psk()).build()), MSecSub::Psk { identity: None }),
        5 => ("nosec", t(&|b| b.finish_extend().security(|b| b.no_sec()).build()), MSecSub::NoSec),
        6 => ("auto", t(&|b| b.finish_extend().security(|b| b.auto()).build()), MSecSub::Auto),
        7 => (
            "oauth2",
            t(&|b| b.finish_extend().security(|b| b.oauth2("code")).build()),
            MSecSub::OAuth2 {
                authz: None,
                token: None,
                refresh: None,
                scopes: None,
                flow: "code".into(),
            },
        ),
        _ => (
            "own",
            t(&|b| b.finish_extend().security(|b| b.custom("own")).build()),
            MSecSub::Custom {
                scheme: "own".into(),
                data: J::obj(),
            },
        ),
    };
    let m = MSec { sub, ..common(0) };
    l.seen(case);
    l.doing = scheme.into();
    match x {
        Err(e) => l.fail("rejected", format!("{e:?}")),
        Ok(x) => {
            let ob = ob_thing(&x);
            let exp: Map<MSec> = [(scheme.to_string(), m.clone())].into();
            if let Some(d) = diff(&dump(&exp), &dump(&ob.secdefs)) {
                l.fail("defaults", d);
            }
            emitted(l, &x, scheme, &m);
            l.count("defaults");
        }
    }
}

/// A known scheme name over members that do not fit it: kept whole, as it was.
fn misfits() -> Vec<(&'static str, J)> {
    let mut v = vec![];
    let j = |t: &str| json::read(t).expect("json");
    let own: [(&str, &[&str]); 9] = [
        ("basic", &["in", "name"]),
        ("digest", &["in", "name", "qop"]),
        ("bearer", &["in", "name", "alg", "format", "authorization"]),
        ("apikey", &["in", "name"]),
        ("psk", &["identity"]),
        ("oauth2", &["authorization", "token", "refresh", "scopes", "flow"]),
        ("combo", &["oneOf", "allOf"]),
        ("nosec", &[]),
        ("auto", &[]),
    ];
    let bad: [&str; 5] = ["5", "true", r#"{"a":1}"#, "[1]", "-0.5"];
    for (scheme, keys) in own {
        for k in keys {
            for b in bad {
                let mut o = J::obj();
                o.put("scheme", js(scheme));
                if scheme == "oauth2" && *k != "flow" {
                    o.put("flow", js("code"));
                }
                o.put(*k, j(b));
                v.push((scheme, o));
            }
        }
    }
    for scheme in ["basic", "digest", "bearer", "apikey"] {
        for loc in ["auto", "Header", "", "headers"] {
            v.push((scheme, j(&format!(r#"{{"scheme":"{scheme}","in":"{loc}","name":"n"}}"#))));
        }
    }
    v.push(("digest", j(r#"{"scheme":"digest","qop":"auth-conf"}"#)));
    // Terms nearly right, which make a scheme of their own or do not fit the one they name.
    let q = |x: &str| serde_json::to_string(x).expect("text");
    let known = ["nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey"];
    for words in ["no sec", "auto", "combo", "basic", "digest", "bearer", "psk", "o auth 2", "api key"] {
        for x in crate::c_vocab::spellings(words) {
            if !known.contains(&x.as_str()) {
                for rest in ["", r#","in":"header","name":"n""#, r#","flow":"code","qop":"auth","oneOf":["k"]"#] {
                    v.push(("near", j(&format!(r#"{{"scheme":{}{rest}}}"#, q(&x)))));
                }
            }
        }
    }
    for words in ["header", "query", "body", "cookie", "uri"] {
        for x in crate::c_vocab::spellings(words) {
            for scheme in ["basic", "digest", "bearer", "apikey"] {
                v.push((scheme, j(&format!(r#"{{"scheme":"{scheme}","in":{},"name":"n"}}"#, q(&x)))));
            }
        }
    }
    for words in ["auth", "auth int"] {
        for x in crate::c_vocab::spellings(words) {
            if !["auth", "auth-int"].contains(&x.as_str()) {
                v.push(("digest", j(&format!(r#"{{"scheme":"digest","qop":{}}}"#, q(&x)))));
            }
        }
    }
    v.push(("combo", j(r#"{"scheme":"combo"}"#)));
    v.push(("combo", j(r#"{"scheme":"combo","oneOf":["a"],"allOf":["b"]}"#)));
    v.push(("oauth2", j(r#"{"scheme":"oauth2","token":"https://t","scopes":["x","y"]}"#)));
    v
}
fn misfit(l: &mut Local, case: u64) {
    static ALL: std::sync::OnceLock<Vec<(&'static str, J)>> = std::sync::OnceLock::new();
    let v = ALL.get_or_init(misfits);
    let (scheme, mut o) = v[case as usize % v.len()].clone();
    let mut exp = o.clone();
    if case as usize >= v.len() {
        o.put("description", js("d"));
        o.put("proxy", js("p"));
        o.put("@type", J::Arr(vec![js("t1"), js("t2")]));
        o.put("extra", J::Arr(vec![J::Null, J::obj()]));
        exp = o.clone();
    }
    let mut r = l.rng(case);
    json::shuffle_keys(&mut o, &mut r);
    let mut doc = canon(&[], &thing("k", &common(0), true));
    if let Some(d) = doc.get_mut("securityDefinitions") {
        d.set("k", o.clone());
    }
    let text = doc.to_text();
    l.seen(doc.hash());
    l.doing = text.clone();
    l.count(format!("misfit.{scheme}"));
    match serde_json::from_str::<Thing<Nil>>(&text) {
        // Refusing such a document would be a sound choice too.
        Err(_) => l.count("misfit refused"),
        Ok(t) => {
            l.count("misfit kept");
            match serde_json::to_value(&t) {
                Err(e) => l.fail("misfit", e.to_string()),
                Ok(x) => {
                    let x = json::from_value(&x);
                    match x.get("securityDefinitions").and_then(|d| d.get("k")) {
                        None => l.fail("misfit", "definition lost"),
                        Some(got) => {
                            if let Some(d) = diff(&exp, got) {
                                l.fail("misfit", format!("{d}: {} became {}", exp.to_text(), got.to_text()));
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn p10(t: Tier) -> Check {
    Check {
        pid: "P10",
        rule: "Every scheme kind with every subset of its members over small value sets, crossed with every subset of \
               the common members, under its default name and under a given key: built by randomly ordered calls, \
               parsed from canonical, terse (defaults omitted) and noisy spellings, and serialized; each time the \
               definition, its name, the required list and the emitted members must be exactly the model's. Builders \
               with nothing set must show the specified defaults; definitions that do not fit the known scheme they \
               name must come out as they went in.",
        assumptions: vec![
            "the builder has no setter for the PSK identity",
            "custom data is an object, without members that belong to every scheme",
        ],
        stack: 16 << 20,
        must_see: vec![
            "built",
            "parsed.terse",
            "defaults",
            "misfit kept",
            "misfit.near",
            "scheme.nosec",
            "scheme.auto",
            "scheme.combo",
            "scheme.basic",
            "scheme.digest",
            "scheme.bearer",
            "scheme.psk",
            "scheme.oauth2",
            "scheme.apikey",
            "scheme.custom",
        ],
        phases: vec![
            exhaustive("every scheme", 16 * subs().len() as u64, grid),
            exhaustive("defaults", 9, defaults),
            exhaustive("misfits", 2 * misfits().len() as u64, misfit),
            phase("random", t.n(11_000, 300_000), random),
        ],
    }
}
