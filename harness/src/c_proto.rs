//! P12: the vocabulary of the protocol bindings.
use crate::c_parse::{same_model, same_text};
use crate::conv::*;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{from_value, diff, s, to_value, J};
use crate::model::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use wot_td::protocol::{coap, http, mqtt};
use wot_td::thing::*;

/// Parse attempts over the routes that treat numbers and strings differently.
fn routes<T: DeserializeOwned>(j: &J) -> Vec<(&'static str, Result<T, String>)> {
    let t = j.to_text();
    vec![
        ("text", serde_json::from_str(&t).map_err(|e| e.to_string())),
        ("bytes", serde_json::from_slice(t.as_bytes()).map_err(|e| e.to_string())),
        ("reader", serde_json::from_reader(t.as_bytes()).map_err(|e| e.to_string())),
        ("value", serde_json::from_value(to_value(j)).map_err(|e| e.to_string())),
    ]
}

/// A value and its document form agree both ways.
fn agree<T>(l: &mut Local, what: &str, v: &T, doc: &J)
where
    T: Serialize + DeserializeOwned + PartialEq + Debug,
{
    l.doing = doc.to_text();
    l.seen(crate::rng::hash_bytes(format!("{what}{}", doc.hash()).as_bytes()));
    l.count(format!("accepted {what}"));
    match serde_json::to_string(v) {
        Err(e) => l.fail(format!("serialize-{what}"), e.to_string()),
        Ok(x) => {
            l.check(&format!("serialized-{what}"), same_text(doc, &x));
        }
    }
    match serde_json::to_value(v) {
        Err(e) => l.fail(format!("serialize-{what}"), e.to_string()),
        Ok(x) => {
            if let Some(d) = diff(doc, &from_value(&x)) {
                l.fail(format!("serialized-{what}"), d);
            }
        }
    }
    for (k, r) in routes::<T>(doc) {
        match r {
            Err(e) => l.fail(format!("rejected-{what}"), format!("{k}: {e}: {}", doc.to_text())),
            Ok(x) => {
                if &x != v {
                    l.fail(format!("parsed-{what}"), format!("{k}: {} parsed as {x:?}, expected {v:?}", doc.to_text()));
                }
            }
        }
    }
}
fn refuse<T: DeserializeOwned + Debug>(l: &mut Local, what: &str, doc: &J) {
    l.doing = doc.to_text();
    l.seen(crate::rng::hash_bytes(format!("no{what}{}", doc.hash()).as_bytes()));
    l.count(format!("refused {what}"));
    for (k, r) in routes::<T>(doc) {
        if let Ok(x) = r {
            l.fail(format!("accepted-{what}"), format!("{k}: {} accepted as {x:?}", oneline(&doc.to_text(), 600)));
        }
    }
}

fn near(words: &[&str]) -> Vec<J> {
    let mut v: Vec<String> = vec![];
    for w in words {
        v.push(w.to_lowercase());
        v.push(w.to_uppercase());
        v.push(format!("{w} "));
        v.push(format!(" {w}"));
        v.push(format!("{w}s"));
        v.push(w[..w.len() - 1].to_string());
        v.push(w[1..].to_string());
        let mut c = w.chars();
        let f = c.next().unwrap();
        v.push(format!("{}{}", f.to_uppercase(), c.as_str().to_lowercase()));
        if let Some((_, x)) = w.split_once(':') {
            v.push(x.to_string());
            v.push(format!("x:{x}"));
        }
    }
    v.extend(["", "HEAD", "OPTIONS", "TRACE", "CONNECT", "QUERY", "Ipatch", "i_patch", "null", "0"].map(String::from));
    for w in words {
        v.extend(crate::c_vocab::spellings(w));
    }
    v.retain(|x| !words.contains(&x.as_str()));
    v.sort();
    v.dedup();
    let mut o: Vec<J> = v.into_iter().map(s).collect();
    o.extend([J::Bool(true), J::Int(0), J::Int(1), J::Flt(0.5), J::Arr(vec![s(words[0])]), J::Arr(vec![])]);
    o
}
fn not_number() -> Vec<J> {
    vec![
        J::Bool(false),
        s("16"),
        s(""),
        J::Flt(16.5),
        J::Flt(-0.5),
        J::Arr(vec![J::Int(16)]),
        J::obj(),
        J::Int(-1),
        J::Int(-16),
        J::Int(i64::MIN as i128),
        J::Int(1 << 64),
        J::Flt(1e300),
    ]
}
fn not_string() -> Vec<J> {
    vec![J::Bool(true), J::Int(3), J::Flt(1.5), J::Arr(vec![s("x")]), J::obj()]
}
fn one(k: &str, v: J) -> J {
    let mut o = J::obj();
    o.put(k, v);
    o
}

/// The term as part of a form of a thing-level stack: beside the other bindings' members.
fn in_form(piece: &J, stacked: bool) -> J {
    let mut o = one("href", s("/x"));
    if stacked {
        o.put("op", J::Arr(vec![s("readallproperties")]));
    }
    if let J::Obj(v) = piece {
        for (k, x) in v {
            o.put(k.clone(), x.clone());
        }
    }
    o
}
fn in_resp(piece: &J) -> J {
    let mut r = one("contentType", s("a/b"));
    if let J::Obj(v) = piece {
        for (k, x) in v {
            r.put(k.clone(), x.clone());
        }
    }
    let mut o = one("href", s("/x"));
    o.put("response", r);
    o
}

/// A form-level extension value alone and on forms of several stacks.
fn form_term<P: Prof>(l: &mut Local, what: &str, x: &MX, doc: &J)
where
    P::Form: Serialize + DeserializeOwned + Debug,
{
    agree::<P::Form>(l, what, &PieceT::mk(std::slice::from_ref(x)), doc);
    let mk = |exts: &[Ext], f: fn(Ext) -> MX, me: Ext| -> MExt {
        exts.iter().map(|e| if *e == me { x.clone() } else { f(*e) }).collect()
    };
    fn empty(e: Ext) -> MX {
        match e {
            Ext::Http => MX::HttpForm { method: None },
            Ext::Coap => MX::CoapForm {
                method: None,
                blockwise: None,
                qblockwise: None,
                hop: None,
                accept: None,
                cf: None,
            },
            Ext::Mqtt => MX::MqttForm {
                retain: false,
                packet: None,
                qos: None,
                topic: None,
                filter: vec![],
            },
            _ => MX::User {
                text: None,
                num: None,
                flag: false,
                list: vec![],
                any: J::Null,
            },
        }
    }
    let me = P::EXTS[0];
    let f = |ext| MForm {
        href: "/x".into(),
        ext,
        ..Default::default()
    };
    agree::<Form<P>>(l, what, &mk_form::<P>(&f(vec![x.clone()])), &in_form(doc, false));
    agree::<Form<PHCM>>(
        l,
        what,
        &mk_form::<PHCM>(&f(mk(PHCM::EXTS, empty, me))),
        &in_form(doc, false),
    );
}
fn form_bad<P: Prof>(l: &mut Local, what: &str, doc: &J)
where
    P::Form: DeserializeOwned + Debug,
{
    refuse::<P::Form>(l, what, doc);
    refuse::<Form<P>>(l, what, &in_form(doc, false));
    refuse::<Form<PHCM>>(l, what, &in_form(doc, true));
}
fn resp_term<P: Prof>(l: &mut Local, what: &str, x: &MX, doc: &J)
where
    P::ExpectedResponse: Serialize + DeserializeOwned + Debug,
{
    agree::<P::ExpectedResponse>(l, what, &PieceT::mk(std::slice::from_ref(x)), doc);
    let me = P::EXTS[0];
    let ext = |exts: &[Ext]| -> MExt {
        exts.iter()
            .map(|e| match e {
                e if *e == me => x.clone(),
                Ext::Http => MX::HttpResp {
                    headers: vec![],
                    status: None,
                },
                Ext::Coap => MX::CoapResp { cf: None },
                _ => MX::Unit,
            })
            .collect()
    };
    let form_ext = |exts: &[Ext]| -> MExt {
        let mut g = Gen::new(crate::rng::Rng::new(1), &[], Mode::Parse);
        g.density = 0;
        exts.iter()
            .map(|e| match g.ext1(*e, Piece::Form) {
                MX::MqttForm { topic, .. } => MX::MqttForm {
                    retain: false,
                    packet: None,
                    qos: None,
                    topic,
                    filter: vec![],
                },
                x => x,
            })
            .collect()
    };
    let f = |exts: &[Ext]| MForm {
        href: "/x".into(),
        resp: Some(MResp {
            ct: "a/b".into(),
            ext: ext(exts),
        }),
        ext: form_ext(exts),
        ..Default::default()
    };
    agree::<Form<P>>(l, what, &mk_form::<P>(&f(P::EXTS)), &in_resp(doc));
    agree::<Form<PHCM>>(l, what, &mk_form::<PHCM>(&f(PHCM::EXTS)), &in_resp(doc));
}
fn resp_bad<P: Prof>(l: &mut Local, what: &str, doc: &J)
where
    P::ExpectedResponse: DeserializeOwned + Debug,
{
    refuse::<P::ExpectedResponse>(l, what, doc);
    refuse::<Form<P>>(l, what, &in_resp(doc));
    refuse::<Form<PHCM>>(l, what, &in_resp(doc));
}

const NO_COAP: MX = MX::CoapForm {
    method: None,
    blockwise: None,
    qblockwise: None,
    hop: None,
    accept: None,
    cf: None,
};

fn http_terms(l: &mut Local, _: u64) {
    type P = http::HttpProtocol;
    form_term::<P>(l, "http-none", &MX::HttpForm { method: None }, &J::obj());
    for (i, m) in HTTP_METHODS.iter().enumerate() {
        form_term::<P>(l, "http-method", &MX::HttpForm { method: Some(i) }, &one("htv:methodName", s(*m)));
    }
    for w in near(&HTTP_METHODS) {
        form_bad::<P>(l, "http-method", &one("htv:methodName", w));
    }
    resp_term::<P>(
        l,
        "http-response-none",
        &MX::HttpResp {
            headers: vec![],
            status: None,
        },
        &J::obj(),
    );
    for c in (0..=1000u64).chain([u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX]) {
        resp_term::<P>(
            l,
            "http-status",
            &MX::HttpResp {
                headers: vec![],
                status: Some(c),
            },
            &one("htv:statusCodeValue", J::Int(c as i128)),
        );
    }
    for w in not_number() {
        resp_bad::<P>(l, "http-status", &one("htv:statusCodeValue", w));
    }
    for n in 0..4usize {
        for shape in 0..4usize.pow(n as u32) {
            let mut headers = vec![];
            let mut docs = vec![];
            for i in 0..n {
                let k = shape / 4usize.pow(i as u32) % 4;
                let name = (k & 1 == 1).then(|| format!("Name-{i}"));
                let value = (k & 2 == 2).then(|| format!("v{i}, \"é\""));
                let mut o = J::obj();
                if let Some(x) = &name {
                    o.put("htv:fieldName", s(x));
                }
                if let Some(x) = &value {
                    o.put("htv:fieldValue", s(x));
                }
                headers.push((name, value));
                docs.push(o);
            }
            let doc = if n == 0 { J::obj() } else { one("htv:headers", J::Arr(docs)) };
            resp_term::<P>(l, "http-headers", &MX::HttpResp { headers, status: None }, &doc);
        }
    }
    for w in [s("x"), J::obj(), J::Int(1), J::Bool(true), J::Arr(vec![s("Link")]), J::Arr(vec![J::Int(1)])] {
        resp_bad::<P>(l, "http-headers", &one("htv:headers", w));
    }
    for k in ["htv:fieldName", "htv:fieldValue"] {
        for w in not_string() {
            resp_bad::<P>(l, "http-header", &one("htv:headers", J::Arr(vec![one(k, w)])));
        }
    }
}

fn coap_terms(l: &mut Local, _: u64) {
    type P = coap::CoapProtocol;
    let set = |f: &dyn Fn(&mut MX)| {
        let mut x = NO_COAP;
        f(&mut x);
        x
    };
    form_term::<P>(l, "coap-none", &NO_COAP, &J::obj());
    for (i, m) in COAP_METHODS.iter().enumerate() {
        let x = set(&|x| {
            if let MX::CoapForm { method, .. } = x {
                *method = Some(i)
            }
        });
        form_term::<P>(l, "coap-method", &x, &one("cov:method", s(*m)));
    }
    for w in near(&COAP_METHODS) {
        form_bad::<P>(l, "coap-method", &one("cov:method", w));
    }
    for q in [false, true] {
        let key = if q { "cov:qblockwise" } else { "cov:blockwise" };
        for a in 0..8 {
            for b in 0..8 {
                let v = (
                    (a > 0).then(|| BLOCK_SIZES[a - 1]),
                    (b > 0).then(|| BLOCK_SIZES[b - 1]),
                );
                let mut o = J::obj();
                if let Some(x) = v.0 {
                    o.put("cov:block2Size", J::Int(x as i128));
                }
                if let Some(x) = v.1 {
                    o.put("cov:block1Size", J::Int(x as i128));
                }
                let x = set(&|x| {
                    if let MX::CoapForm { blockwise, qblockwise, .. } = x {
                        *(if q { qblockwise } else { blockwise }) = Some(v)
                    }
                });
                form_term::<P>(l, "coap-blockwise", &x, &one(key, o));
            }
        }
        for k in ["cov:block2Size", "cov:block1Size"] {
            for w in not_number() {
                form_bad::<P>(l, "coap-block-size", &one(key, one(k, w)));
            }
        }
        for w in [J::Bool(true), s("x"), J::Int(16)] {
            form_bad::<P>(l, "coap-blockwise", &one(key, w));
        }
    }
    for k in ["cov:hopLimit", "cov:accept", "cov:contentFormat"] {
        for w in not_number() {
            form_bad::<P>(l, "coap-number", &one(k, w));
        }
    }
    for w in not_number() {
        resp_bad::<P>(l, "coap-number", &one("cov:contentFormat", w));
    }
    resp_term::<P>(l, "coap-response-none", &MX::CoapResp { cf: None }, &J::obj());
}

/// Every 16-bit number and the first ones beyond, for each numeric CoAP term.
fn coap_numbers(l: &mut Local, case: u64) {
    let block = case as u32 * 512;
    for n in block..block + 512 {
        let j = J::Int(n as i128);
        let sz = BLOCK_SIZES.iter().position(|x| *x as u32 == n);
        for (k, in_range) in [
            ("cov:hopLimit", n <= u8::MAX as u32),
            ("cov:accept", n <= u16::MAX as u32),
            ("cov:contentFormat", n <= u16::MAX as u32),
        ] {
            let doc = one(k, j.clone());
            l.seen(crate::rng::hash_bytes(format!("{k}{n}").as_bytes()));
            let text = in_form(&doc, false).to_text();
            let r: Result<Form<coap::CoapProtocol>, _> = serde_json::from_str(&text);
            match (r, in_range) {
                (Err(_), false) => l.count("refused coap range"),
                (Ok(f), true) => {
                    l.count("accepted coap range");
                    let got = match k {
                        "cov:hopLimit" => f.other.hop_limit.map(u32::from),
                        "cov:accept" => f.other.accept.map(u32::from),
                        _ => f.other.content_format.map(u32::from),
                    };
                    if got != Some(n) {
                        l.fail("coap-range-value", format!("{text}: {got:?}"));
                    }
                    let back = serde_json::to_string(&f).map_err(|e| e.to_string());
                    match back {
                        Ok(b) => {
                            l.check("coap-range-serialized", same_text(&in_form(&doc, false), &b));
                        }
                        Err(e) => l.fail("coap-range-serialized", e),
                    }
                }
                (Ok(f), false) => l.fail("accepted-coap-range", format!("{text}: {f:?}")),
                (Err(e), true) => l.fail("rejected-coap-range", format!("{text}: {e}")),
            }
        }
        for key in ["cov:blockwise", "cov:qblockwise"] {
            for k in ["cov:block2Size", "cov:block1Size"] {
                let text = in_form(&one(key, one(k, j.clone())), false).to_text();
                l.seen(crate::rng::hash_bytes(text.as_bytes()));
                let r: Result<Form<coap::CoapProtocol>, _> = serde_json::from_str(&text);
                match (r, sz) {
                    (Err(_), None) => l.count("refused block size"),
                    (Ok(f), Some(i)) => {
                        l.count("accepted block size");
                        let b = if key == "cov:blockwise" { f.other.blockwise } else { f.other.qblockwise };
                        let exp = if k == "cov:block2Size" {
                            (Some(BS[i]), None)
                        } else {
                            (None, Some(BS[i]))
                        };
                        if b.map(|b| (b.block2_size, b.block1_size)) != Some(exp) {
                            l.fail("block-size-value", format!("{text}: {b:?}"));
                        }
                    }
                    (Ok(f), None) => l.fail("accepted-block-size", format!("{text}: {f:?}")),
                    (Err(e), Some(_)) => l.fail("rejected-block-size", format!("{text}: {e}")),
                }
            }
        }
        let text = in_resp(&one("cov:contentFormat", j)).to_text();
        let r: Result<Form<coap::CoapProtocol>, _> = serde_json::from_str(&text);
        l.seen(crate::rng::hash_bytes(text.as_bytes()));
        match r {
            Ok(f) if n <= 65535 => {
                if f.response.and_then(|r| r.other.content_format) != Some(n as u16) {
                    l.fail("coap-response-value", text);
                }
            }
            Err(_) if n > 65535 => {}
            r => l.fail("coap-response-range", format!("{text}: {r:?}")),
        }
    }
}

fn mqtt_terms(l: &mut Local, _: u64) {
    type P = mqtt::MqttProtocol;
    let texts: [Option<&str>; 4] = [None, Some(""), Some("a/+/#"), Some("null \"é\" \u{1F600}")];
    let filters: [&[&str]; 5] = [&[], &["a/#"], &[""], &["x", "y"], &["b", "a", "b"]];
    for retain in [false, true] {
        for packet in 0..4 {
            for qos in 0..4 {
                for topic in texts {
                    for filter in filters {
                        let x = MX::MqttForm {
                            retain,
                            packet: (packet > 0).then(|| packet - 1),
                            qos: (qos > 0).then(|| qos - 1),
                            topic: topic.map(String::from),
                            filter: filter.iter().map(|x| x.to_string()).collect(),
                        };
                        let mut o = J::obj();
                        if retain {
                            o.put("mqv:retain", J::Bool(true));
                        }
                        if packet > 0 {
                            o.put("mqv:controlPacket", s(PACKETS[packet - 1]));
                        }
                        if qos > 0 {
                            o.put("mqv:qos", s(QOS[qos - 1]));
                        }
                        if let Some(t) = topic {
                            o.put("mqv:topic", s(t));
                        }
                        match filter {
                            [] => {}
                            [x] => o.put("mqv:filter", s(*x)),
                            v => o.put("mqv:filter", J::Arr(v.iter().map(|x| s(*x)).collect())),
                        }
                        form_term::<P>(l, "mqtt", &x, &o);
                    }
                }
            }
        }
    }
    for w in near(&PACKETS) {
        form_bad::<P>(l, "mqtt-packet", &one("mqv:controlPacket", w));
    }
    for w in near(&QOS).into_iter().chain([J::Int(2), s("quality:3"), s("quality:-1"), s("0"), s("1"), s("2")]) {
        form_bad::<P>(l, "mqtt-qos", &one("mqv:qos", w));
    }
    for w in [s("true"), J::Int(1), J::Int(0), J::Arr(vec![J::Bool(true)]), J::obj()] {
        form_bad::<P>(l, "mqtt-retain", &one("mqv:retain", w));
    }
    for w in not_string() {
        form_bad::<P>(l, "mqtt-topic", &one("mqv:topic", w));
    }
    for w in [J::Int(1), J::Bool(true), J::obj(), J::Arr(vec![J::Int(1)]), J::Arr(vec![s("a"), J::Null])] {
        form_bad::<P>(l, "mqtt-filter", &one("mqv:filter", w));
    }
}

/// Random subsets of all bindings' terms on whole things, in several stacks.
fn stacked<P: Prof>(l: &mut Local, case: u64) {
    let mut g = Gen::new(l.rng(case), P::EXTS, Mode::Parse);
    g.density = *g.r.pick(&[1, 4, 7]);
    let mut f = g.form(&[], false);
    if f.resp.is_none() && g.r.coin() {
        f.resp = Some(MResp {
            ct: "a/b".into(),
            ext: g.ext(Piece::Resp),
        });
    }
    let canon = Canon {
        exts: P::EXTS,
        st: Sty::Canon,
    }
    .form(&f);
    l.count(format!("stack {}", P::NAME));
    l.sample(|| canon.to_text());
    agree::<Form<P>>(l, "stacked", &mk_form::<P>(&f), &canon);
    match serde_json::from_str::<Form<P>>(&canon.to_text()) {
        Ok(x) => {
            l.check("stacked-content", same_model(&f, &ob_form::<P>(&x), &canon.to_text()));
        }
        Err(e) => l.fail("stacked-rejected", e.to_string()),
    }
    // A wrong value of one binding's term is not excused by the other bindings.
    let mut bad = canon.clone();
    let e = *g.r.pick(P::EXTS);
    let (k, v) = match (e, g.r.below(5)) {
        (Ext::Http, _) => ("htv:methodName", s("get")),
        (Ext::Coap, 0) => ("cov:method", s("Ipatch")),
        (Ext::Coap, 1) => ("cov:hopLimit", J::Int(256)),
        (Ext::Coap, 2) => ("cov:accept", J::Int(65536)),
        (Ext::Coap, 3) => ("cov:blockwise", one("cov:block1Size", J::Int(17))),
        (Ext::Coap, _) => ("cov:contentFormat", J::Int(-1)),
        (Ext::Mqtt, 0) => ("mqv:qos", s("quality:3")),
        (Ext::Mqtt, 1) => ("mqv:controlPacket", s("publish")),
        (Ext::Mqtt, 2) => ("mqv:retain", s("yes")),
        (Ext::Mqtt, _) => ("mqv:topic", J::Int(1)),
        (Ext::UA, _) => ("ua:form-num", s("1")),
        (Ext::UB, _) => ("ub:form-flag", s("1")),
    };
    bad.set(k, v);
    refuse::<Form<P>>(l, "stacked", &bad);
}

pub fn p12(t: Tier) -> Check {
    Check {
        pid: "P12",
        rule: "every value of every enumerated term, every subset of MQTT terms, every block-size pair, status codes 0-1000, all 16-bit numbers and the next 512 for each numeric CoAP term, every near-miss spelling and wrong type of each term, alone, on a single-binding form and on a form stacking all three, through four parsing routes and two serialization routes; plus seeded stacked forms in eight stacks; distinct counts different (term, document) pairs",
        assumptions: vec![
            "the expected names and values are tables written from the binding vocabularies, not taken from the crate",
            "null for an optional term counts as absence and is not probed",
        ],
        stack: 16 << 20,
        must_see: vec!["accepted block size", "refused block size", "accepted stacked", "refused stacked", "accepted mqtt", "refused mqtt-qos", "accepted http-headers"],
        phases: vec![
            exhaustive("http", 1, http_terms),
            exhaustive("coap", 1, coap_terms),
            exhaustive("coap-numbers", 129, coap_numbers),
            exhaustive("mqtt", 1, mqtt_terms),
            phase("stacked", t.n(20_000, 400_000), |l, c| match c % 8 {
                0 => stacked::<http::HttpProtocol>(l, c),
                1 => stacked::<coap::CoapProtocol>(l, c),
                2 => stacked::<mqtt::MqttProtocol>(l, c),
                3 => stacked::<PMC>(l, c),
                4 => stacked::<PCH>(l, c),
                5 => stacked::<PUMA>(l, c),
                _ => stacked::<PHCM>(l, c),
            }),
        ],
    }
}
