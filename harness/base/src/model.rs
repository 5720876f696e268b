//! Abstract, crate-independent model of a Thing Description, plus its canonical JSON rendering.
use crate::json::{s, J};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

impl Serialize for J {
    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
        let mut c = self.clone();
        c.sort();
        ser.serialize_str(&c.to_text())
    }
}

impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let t = String::deserialize(d)?;
        crate::json::read(&t).map_err(serde::de::Error::custom)
    }
}
/// Reads a dump back.
pub fn undump<T: serde::de::DeserializeOwned>(j: &J) -> Result<T, String> {
    serde_json::from_value(crate::json::to_value(j)).map_err(|e| e.to_string())
}

/// Structural dump of a model, used to compare and to name the first difference.
pub fn dump<T: Serialize>(t: &T) -> J {
    crate::json::from_value(&serde_json::to_value(t).expect("dump"))
}

pub type Map<T> = BTreeMap<String, T>;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Info {
    pub attype: Option<Vec<String>>,
    pub title: Option<String>,
    pub titles: Option<Map<String>>,
    pub description: Option<String>,
    pub descriptions: Option<Map<String>>,
}

/// One extension piece.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MX {
    Unit,
    User {
        text: Option<String>,
        num: Option<i64>,
        flag: bool,
        list: Vec<String>,
        any: J,
    },
    HttpForm {
        method: Option<usize>,
    },
    HttpResp {
        headers: Vec<(Option<String>, Option<String>)>,
        status: Option<u64>,
    },
    CoapForm {
        method: Option<usize>,
        blockwise: Option<(Option<u16>, Option<u16>)>,
        qblockwise: Option<(Option<u16>, Option<u16>)>,
        hop: Option<u8>,
        accept: Option<u16>,
        cf: Option<u16>,
    },
    CoapResp {
        cf: Option<u16>,
    },
    MqttForm {
        retain: bool,
        packet: Option<usize>,
        qos: Option<usize>,
        topic: Option<String>,
        filter: Vec<String>,
    },
}
pub type MExt = Vec<MX>;

pub const HTTP_METHODS: [&str; 5] = ["GET", "PUT", "POST", "DELETE", "PATCH"];
pub const COAP_METHODS: [&str; 7] = ["GET", "PUT", "POST", "DELETE", "PATCH", "FETCH", "iPATCH"];
pub const BLOCK_SIZES: [u16; 7] = [16, 32, 64, 128, 256, 512, 1024];
pub const PACKETS: [&str; 3] = ["mqv:publish", "mqv:subscribe", "mqv:unsubscribe"];
pub const QOS: [&str; 3] = ["quality:0", "quality:1", "quality:2"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Piece {
    Thing,
    Ia,
    Prop,
    Act,
    Evt,
    Form,
    Resp,
    Ds,
    Obj,
    Arr,
}
pub const PIECES: [Piece; 10] = [
    Piece::Thing,
    Piece::Ia,
    Piece::Prop,
    Piece::Act,
    Piece::Evt,
    Piece::Form,
    Piece::Resp,
    Piece::Ds,
    Piece::Obj,
    Piece::Arr,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ext {
    UA,
    UB,
    Http,
    Coap,
    Mqtt,
}

/// Member-name prefix of a user extension for a piece; every (extension, piece) pair is distinct.
pub fn user_key(e: Ext, p: Piece) -> String {
    let x = match e {
        Ext::UA => "ua",
        Ext::UB => "ub",
        _ => unreachable!(),
    };
    format!("{x}:{p:?}").to_lowercase()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bd<T> {
    In(T),
    Ex(T),
}
impl<T: Copy> Bd<T> {
    pub fn val(&self) -> T {
        match self {
            Bd::In(x) | Bd::Ex(x) => *x,
        }
    }
    pub fn excl(&self) -> bool {
        matches!(self, Bd::Ex(_))
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MDs {
    pub info: Info,
    pub constant: Option<J>,
    pub default: Option<J>,
    pub unit: Option<String>,
    pub one_of: Option<Vec<MDs>>,
    pub enumeration: Option<Vec<J>>,
    pub ro: bool,
    pub wo: bool,
    pub format: Option<String>,
    pub sub: Option<MSub>,
    pub ext: MExt,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MItems {
    One(Box<MDs>),
    Many(Vec<MDs>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MSub {
    Arr {
        items: Option<MItems>,
        min: Option<u32>,
        max: Option<u32>,
        ext: MExt,
    },
    Bool,
    Num {
        min: Option<Bd<f64>>,
        max: Option<Bd<f64>>,
        mult: Option<f64>,
    },
    Int {
        min: Option<Bd<i64>>,
        max: Option<Bd<i64>>,
        mult: Option<u64>,
    },
    Obj {
        props: Option<Map<MDs>>,
        req: Option<Vec<String>>,
        ext: MExt,
    },
    Str {
        min: Option<u32>,
        max: Option<u32>,
        pat: Option<String>,
        enc: Option<String>,
        media: Option<String>,
    },
    Null,
}

pub const OPS: [&str; 18] = [
    "readproperty",
    "writeproperty",
    "observeproperty",
    "unobserveproperty",
    "invokeaction",
    "queryaction",
    "cancelaction",
    "subscribeevent",
    "unsubscribeevent",
    "readallproperties",
    "writeallproperties",
    "readmultipleproperties",
    "writemultipleproperties",
    "observeallproperties",
    "unobserveallproperties",
    "subscribeallevents",
    "unsubscribeallevents",
    "queryallactions",
];
pub const PROP_OPS: [usize; 4] = [0, 1, 2, 3];
pub const ACT_OPS: [usize; 3] = [4, 5, 6];
pub const EVT_OPS: [usize; 2] = [7, 8];
pub const THING_OPS: [usize; 9] = [9, 10, 11, 12, 13, 14, 15, 16, 17];

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MResp {
    pub ct: String,
    pub ext: MExt,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MAddl {
    pub success: bool,
    pub ct: Option<String>,
    pub schema: Option<String>,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MForm {
    pub op: Option<Vec<usize>>,
    pub href: String,
    pub ct: Option<String>,
    pub coding: Option<String>,
    pub subproto: Option<String>,
    pub sec: Option<Vec<String>>,
    pub scopes: Option<Vec<String>>,
    pub resp: Option<MResp>,
    pub addl: Option<Vec<MAddl>>,
    pub ext: MExt,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MIa {
    pub info: Info,
    pub forms: Vec<MForm>,
    pub uri: Option<Map<MDs>>,
    pub ext: MExt,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MProp {
    pub ia: MIa,
    pub ds: MDs,
    pub observable: Option<bool>,
    pub ext: MExt,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MAct {
    pub ia: MIa,
    pub input: Option<MDs>,
    pub output: Option<MDs>,
    pub safe: bool,
    pub idem: bool,
    pub sync: Option<bool>,
    pub ext: MExt,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MEvt {
    pub ia: MIa,
    pub subscription: Option<MDs>,
    pub data: Option<MDs>,
    pub response: Option<MDs>,
    pub cancellation: Option<MDs>,
    pub ext: MExt,
}

pub const LOCS: [&str; 5] = ["header", "query", "body", "cookie", "uri"];
pub const QOPS: [&str; 2] = ["auth", "auth-int"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MSecSub {
    NoSec,
    Auto,
    OneOf(Vec<String>),
    AllOf(Vec<String>),
    Basic {
        loc: usize,
        name: Option<String>,
    },
    Digest {
        qop: usize,
        loc: usize,
        name: Option<String>,
    },
    Bearer {
        authz: Option<String>,
        alg: String,
        format: String,
        loc: usize,
        name: Option<String>,
    },
    Psk {
        identity: Option<String>,
    },
    OAuth2 {
        authz: Option<String>,
        token: Option<String>,
        refresh: Option<String>,
        scopes: Option<Vec<String>>,
        flow: String,
    },
    ApiKey {
        loc: usize,
        name: Option<String>,
    },
    Custom {
        scheme: String,
        data: J,
    },
}
impl MSecSub {
    pub fn scheme(&self) -> &str {
        match self {
            MSecSub::NoSec => "nosec",
            MSecSub::Auto => "auto",
            MSecSub::OneOf(_) | MSecSub::AllOf(_) => "combo",
            MSecSub::Basic { .. } => "basic",
            MSecSub::Digest { .. } => "digest",
            MSecSub::Bearer { .. } => "bearer",
            MSecSub::Psk { .. } => "psk",
            MSecSub::OAuth2 { .. } => "oauth2",
            MSecSub::ApiKey { .. } => "apikey",
            MSecSub::Custom { scheme, .. } => scheme,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MSec {
    pub attype: Option<Vec<String>>,
    pub description: Option<String>,
    pub descriptions: Option<Map<String>>,
    pub proxy: Option<String>,
    pub sub: MSecSub,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct MLink {
    pub href: String,
    pub ty: Option<String>,
    pub rel: Option<String>,
    pub anchor: Option<String>,
    pub sizes: Option<String>,
    pub hreflang: Option<Vec<String>>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct MDt {
    pub y: i32,
    pub mo: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub ns: u32,
    /// Offset from UTC in minutes.
    pub off: i16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MVersion {
    pub instance: String,
    pub model: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MThing {
    pub context: J,
    pub id: Option<String>,
    /// `info.title` is always set.
    pub info: Info,
    pub version: Option<MVersion>,
    pub created: Option<MDt>,
    pub modified: Option<MDt>,
    pub support: Option<String>,
    pub base: Option<String>,
    pub properties: Option<Map<MProp>>,
    pub actions: Option<Map<MAct>>,
    pub events: Option<Map<MEvt>>,
    pub links: Option<Vec<MLink>>,
    pub forms: Option<Vec<MForm>>,
    pub security: Vec<String>,
    pub secdefs: Map<MSec>,
    pub uri: Option<Map<MDs>>,
    pub profile: Option<Vec<String>>,
    pub schemas: Option<Map<MDs>>,
    pub ext: MExt,
}

pub const CTX11: &str = "https://www.w3.org/2022/wot/td/v1.1";
/// The context of the previous version.
pub const CTX10: &str = "https://www.w3.org/2019/wot/td/v1";

/// Every data schema of a Thing with its position.
pub fn each_ds<'a>(t: &'a MThing, f: &mut dyn FnMut(&str, &'a MDs)) {
    fn uri<'a>(u: &'a Option<Map<MDs>>, at: &str, f: &mut dyn FnMut(&str, &'a MDs)) {
        for v in u.iter().flat_map(|x| x.values()) {
            f(at, v);
        }
    }
    uri(&t.uri, "thing-uri", f);
    for v in t.schemas.iter().flat_map(|x| x.values()) {
        f("schema-definition", v);
    }
    for p in t.properties.iter().flat_map(|x| x.values()) {
        f("property", &p.ds);
        uri(&p.ia.uri, "property-uri", f);
    }
    for a in t.actions.iter().flat_map(|x| x.values()) {
        a.input.iter().for_each(|d| f("input", d));
        a.output.iter().for_each(|d| f("output", d));
        uri(&a.ia.uri, "action-uri", f);
    }
    for e in t.events.iter().flat_map(|x| x.values()) {
        e.subscription.iter().for_each(|d| f("subscription", d));
        e.data.iter().for_each(|d| f("data", d));
        e.response.iter().for_each(|d| f("data_response", d));
        e.cancellation.iter().for_each(|d| f("cancellation", d));
        uri(&e.ia.uri, "event-uri", f);
    }
}

/// A data schema and all those nested in it.
pub fn each_nested<'a>(d: &'a MDs, depth: usize, f: &mut dyn FnMut(&'a MDs, usize, &'static str)) {
    fn go<'a>(
        d: &'a MDs,
        depth: usize,
        at: &'static str,
        f: &mut dyn FnMut(&'a MDs, usize, &'static str),
    ) {
        f(d, depth, at);
        for o in d.one_of.iter().flatten() {
            go(o, depth + 1, "oneOf", f);
        }
        match &d.sub {
            Some(MSub::Arr { items, .. }) => match items {
                Some(MItems::One(x)) => go(x, depth + 1, "item", f),
                Some(MItems::Many(v)) => v.iter().for_each(|x| go(x, depth + 1, "tuple", f)),
                None => {}
            },
            Some(MSub::Obj { props: Some(p), .. }) => {
                p.values().for_each(|x| go(x, depth + 1, "member", f))
            }
            _ => {}
        }
    }
    go(d, depth, "top", f)
}

// ---------------------------------------------------------------------------------------------
// Canonical rendering.

/// Rendering style. `Canon` is what a serializer must emit; `Noisy` picks equivalent spellings.
pub enum Sty {
    /// Exactly the members the value has, with required/always-present members.
    Canon,
    /// As a document author might write it: defaults omitted.
    Terse,
    /// Random choice among equivalent spellings.
    Noisy(crate::rng::Rng, Noise),
}
#[derive(Clone, Copy, Debug)]
pub struct Noise {
    pub unknown: bool,
    pub one_many: bool,
    pub defaults: bool,
    pub dates: bool,
    /// Redundant looser bounds and the TD 1.1 name of event data responses.
    pub redundant: bool,
}
impl Noise {
    pub const ALL: Noise = Noise {
        unknown: true,
        one_many: true,
        defaults: true,
        dates: true,
        redundant: true,
    };
}

pub const T_THING: &[&str] = &[
    "@context", "id", "@type", "title", "titles", "description", "descriptions", "version", "created", "modified", "support", "base",
    "properties", "actions", "events", "links", "forms", "security", "securityDefinitions", "profile", "schemaDefinitions", "uriVariables",
];
pub const T_FORM: &[&str] = &[
    "op", "href", "contentType", "contentCoding", "subprotocol", "security", "scopes", "response", "additionalResponses",
];
pub const T_ADDL: &[&str] = &["success", "contentType", "schema"];
pub const T_LINK: &[&str] = &["href", "type", "rel", "anchor", "sizes", "hreflang"];
pub const T_IA: &[&str] = &["@type", "title", "titles", "description", "descriptions", "forms", "uriVariables"];
pub const T_DS: &[&str] = &[
    "@type", "title", "titles", "description", "descriptions", "const", "default", "unit", "oneOf", "enum", "readOnly", "writeOnly",
    "format", "type", "items", "minItems", "maxItems", "minimum", "exclusiveMinimum", "maximum", "exclusiveMaximum", "multipleOf",
    "properties", "required", "minLength", "maxLength", "pattern", "contentEncoding", "contentMediaType",
];
pub const T_PROP: &[&str] = &["observable"];
pub const T_ACT: &[&str] = &["input", "output", "safe", "idempotent", "synchronous"];
pub const T_EVT: &[&str] = &["subscription", "data", "dataResponse", "cancellation", "data_response"];
pub const T_SEC: &[&str] = &[
    "scheme", "@type", "description", "descriptions", "proxy", "in", "name", "qop", "alg", "format", "authorization", "token", "refresh",
    "scopes", "flow", "identity", "oneOf", "allOf",
];
pub const T_VERSION: &[&str] = &["instance", "model"];
pub const T_RESP: &[&str] = &["contentType"];
/// Terms of earlier and later drafts, of JSON Schema and of linked data.
pub const T_LEGACY: &[&str] = &[
    "mediaType", "@id", "inputData", "outputData", "link", "interaction", "writable", "writeable", "dateCreated", "created_at", "lastModified",
    "uri", "url", "inputSchema", "name", "label", "comment", "additionalProperties", "allOf", "anyOf", "not", "$defs", "minProperties",
    "examples", "deprecated", "rdfs:label", "schema", "type", "language", "lang", "encoding", "content", "head", "tail", "other",
    "subtype", "constant", "enumeration", "ty", "attype", "one_of", "data_schema", "Known", "Unknown", "info", "method", "topic",
];

impl Sty {
    /// Whether an explicit default should be written.
    fn explicit(&mut self) -> bool {
        match self {
            Sty::Canon => true,
            Sty::Terse => false,
            Sty::Noisy(r, n) => n.defaults && r.coin(),
        }
    }
    /// Whether a default that a serializer leaves out should be written.
    fn extra(&mut self) -> bool {
        match self {
            Sty::Noisy(r, n) => n.defaults && r.coin(),
            _ => false,
        }
    }
    /// Whether to use a redundant or alternative form with the same meaning.
    fn redundant(&mut self) -> bool {
        match self {
            Sty::Noisy(r, n) => n.redundant && r.coin(),
            _ => false,
        }
    }
    fn one_many(&mut self, v: Vec<J>) -> J {
        if v.len() == 1 {
            let bare = match self {
                Sty::Canon | Sty::Terse => true,
                Sty::Noisy(r, n) => !n.one_many || r.coin(),
            };
            if bare {
                return v.into_iter().next().unwrap();
            }
        }
        J::Arr(v)
    }
    fn strs(&mut self, v: &[String]) -> J {
        self.one_many(v.iter().map(s).collect())
    }
    /// Unknown members, for objects whose unknown members are ignored.
    /// Some are terms that mean something elsewhere, or nearly one of the terms of the object.
    fn junk(&mut self, o: &mut J, own: &[&[&str]]) {
        if let Sty::Noisy(r, n) = self {
            if n.unknown && r.chance(1, 4) {
                for i in 0..r.range(1, 2) {
                    let v = match r.below(7) {
                        0 => J::Null,
                        1 => J::Bool(true),
                        2 => J::Int(r.u64() as i64 as i128),
                        3 => s("type"),
                        4 => J::Arr(vec![J::Null, J::obj(), s("x")]),
                        5 => J::Obj(vec![
                            ("type".into(), s("object")),
                            ("forms".into(), J::Int(1)),
                        ]),
                        _ => J::Flt(1.5e10),
                    };
                    let k = if r.coin() {
                        r.pick(&[
                            "x:unknown", "zz", "@id", "$ref", "minimumm", "Type", "HREF", "", "unknown-member",
                            "ext:titles", "saref:hasState", "é", "0",
                        ])
                        .to_string()
                    } else {
                        let all = [T_THING, T_FORM, T_ADDL, T_LINK, T_IA, T_DS, T_PROP, T_ACT, T_EVT, T_SEC, T_VERSION, T_LEGACY];
                        let part = *r.pick(&all);
                        let term = *r.pick(part);
                        match r.below(4) {
                            0 | 1 => term.to_string(),
                            2 => term.chars().flat_map(|c| if c.is_uppercase() { format!("_{}", c.to_lowercase()) } else { c.to_string() }.chars().collect::<Vec<_>>()).collect(),
                            _ => term.to_lowercase(),
                        }
                    };
                    let k = format!("{k}{}", if i == 0 { "" } else { "~" });
                    if o.get(&k).is_none() && !own.iter().any(|v| v.contains(&&*k)) {
                        o.put(k, v);
                    }
                }
            }
        }
    }
}

fn opt_s(o: &mut J, k: &str, v: &Option<String>) {
    if let Some(x) = v {
        o.put(k, s(x));
    }
}
fn ml(m: &Map<String>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), s(v))).collect())
}
fn put_info(o: &mut J, i: &Info, st: &mut Sty) {
    if let Some(a) = &i.attype {
        o.put("@type", st.strs(a));
    }
    opt_s(o, "title", &i.title);
    if let Some(m) = &i.titles {
        o.put("titles", ml(m));
    }
    opt_s(o, "description", &i.description);
    if let Some(m) = &i.descriptions {
        o.put("descriptions", ml(m));
    }
}

pub fn put_ext(o: &mut J, exts: &[Ext], p: Piece, ext: &[MX], st: &mut Sty) {
    for (e, x) in exts.iter().zip(ext) {
        match x {
            MX::Unit => {}
            MX::User {
                text,
                num,
                flag,
                list,
                any,
            } => {
                let k = user_key(*e, p);
                if let Some(t) = text {
                    o.put(format!("{k}-text"), s(t));
                }
                if let Some(n) = num {
                    o.put(format!("{k}-num"), J::Int(*n as i128));
                }
                if *flag || st.explicit() {
                    o.put(format!("{k}-flag"), J::Bool(*flag));
                }
                if !list.is_empty() || st.extra() {
                    o.put(format!("{k}-list"), J::Arr(list.iter().map(s).collect()));
                }
                if *any != J::Null || st.explicit() {
                    o.put(format!("{k}-any"), any.clone());
                }
            }
            MX::HttpForm { method } => {
                if let Some(m) = method {
                    o.put("htv:methodName", s(HTTP_METHODS[*m]));
                }
            }
            MX::HttpResp { headers, status } => {
                if !headers.is_empty() || st.extra() {
                    o.put(
                        "htv:headers",
                        J::Arr(
                            headers
                                .iter()
                                .map(|(n, v)| {
                                    let mut h = J::obj();
                                    opt_s(&mut h, "htv:fieldName", n);
                                    opt_s(&mut h, "htv:fieldValue", v);
                                    st.junk(&mut h, &[]);
                                    h
                                })
                                .collect(),
                        ),
                    );
                }
                if let Some(x) = status {
                    o.put("htv:statusCodeValue", J::Int(*x as i128));
                }
            }
            MX::CoapForm {
                method,
                blockwise,
                qblockwise,
                hop,
                accept,
                cf,
            } => {
                if let Some(m) = method {
                    o.put("cov:method", s(COAP_METHODS[*m]));
                }
                for (k, b) in [("cov:blockwise", blockwise), ("cov:qblockwise", qblockwise)] {
                    if let Some((b2, b1)) = b {
                        let mut x = J::obj();
                        if let Some(v) = b2 {
                            x.put("cov:block2Size", J::Int(*v as i128));
                        }
                        if let Some(v) = b1 {
                            x.put("cov:block1Size", J::Int(*v as i128));
                        }
                        st.junk(&mut x, &[]);
                        o.put(k, x);
                    }
                }
                if let Some(x) = hop {
                    o.put("cov:hopLimit", J::Int(*x as i128));
                }
                if let Some(x) = accept {
                    o.put("cov:accept", J::Int(*x as i128));
                }
                if let Some(x) = cf {
                    o.put("cov:contentFormat", J::Int(*x as i128));
                }
            }
            MX::CoapResp { cf } => {
                if let Some(x) = cf {
                    o.put("cov:contentFormat", J::Int(*x as i128));
                }
            }
            MX::MqttForm {
                retain,
                packet,
                qos,
                topic,
                filter,
            } => {
                if *retain || st.extra() {
                    o.put("mqv:retain", J::Bool(*retain));
                }
                if let Some(x) = packet {
                    o.put("mqv:controlPacket", s(PACKETS[*x]));
                }
                if let Some(x) = qos {
                    o.put("mqv:qos", s(QOS[*x]));
                }
                opt_s(o, "mqv:topic", topic);
                if !filter.is_empty() || st.extra() {
                    let f = st.strs(filter);
                    o.put("mqv:filter", f);
                }
            }
        }
    }
}

pub struct Canon<'e> {
    pub exts: &'e [Ext],
    pub st: Sty,
}

fn num_or<T, F: Fn(T) -> J>(o: &mut J, k: &str, v: Option<T>, f: F) {
    if let Some(x) = v {
        o.put(k, f(x));
    }
}

impl Canon<'_> {
    fn ds_map(&mut self, m: &Map<MDs>) -> J {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), self.ds(v))).collect())
    }

    /// A float as a document may write it: integral values may be spelled as integers.
    fn flt(&mut self, f: f64) -> J {
        if let Sty::Noisy(r, n) = &mut self.st {
            if n.defaults && f.fract() == 0.0 && f.abs() < 1e15 && !(f == 0.0 && f.is_sign_negative()) && r.coin() {
                return J::Int(f as i128);
            }
        }
        J::Flt(f)
    }

    fn ds_body(&mut self, o: &mut J, d: &MDs) {
        num_or(o, "const", d.constant.clone(), |x| x);
        num_or(o, "default", d.default.clone(), |x| x);
        opt_s(o, "unit", &d.unit);
        if let Some(v) = &d.one_of {
            let l = v.iter().map(|x| self.ds(x)).collect();
            o.put("oneOf", J::Arr(l));
        }
        if let Some(v) = &d.enumeration {
            o.put("enum", J::Arr(v.clone()));
        }
        if d.ro || self.st.explicit() {
            o.put("readOnly", J::Bool(d.ro));
        }
        if d.wo || self.st.explicit() {
            o.put("writeOnly", J::Bool(d.wo));
        }
        opt_s(o, "format", &d.format);
        if let Some(sub) = &d.sub {
            self.sub(o, sub);
        }
        put_ext(o, self.exts, Piece::Ds, &d.ext, &mut self.st);
    }

    fn sub(&mut self, o: &mut J, sub: &MSub) {
        let ty = match sub {
            MSub::Arr {
                items,
                min,
                max,
                ext,
            } => {
                match items {
                    None => {}
                    Some(MItems::One(x)) => {
                        let x = self.ds(x);
                        o.put("items", x)
                    }
                    Some(MItems::Many(v)) => {
                        let l = v.iter().map(|x| self.ds(x)).collect();
                        o.put("items", J::Arr(l))
                    }
                }
                num_or(o, "minItems", *min, |x| J::Int(x as i128));
                num_or(o, "maxItems", *max, |x| J::Int(x as i128));
                put_ext(o, self.exts, Piece::Arr, ext, &mut self.st);
                "array"
            }
            MSub::Bool => "boolean",
            MSub::Null => "null",
            MSub::Num { min, max, mult } => {
                if let Some(b) = min {
                    let ks = ["minimum", "exclusiveMinimum"];
                    let v = self.flt(b.val());
                    o.put(ks[b.excl() as usize], v);
                    let y = (b.val() - (b.val().abs() * 0.5 + 1.0)).trunc();
                    if y.abs() < 1e15 && self.st.redundant() {
                        o.put(ks[!b.excl() as usize], J::Flt(y));
                    }
                }
                if let Some(b) = max {
                    let ks = ["maximum", "exclusiveMaximum"];
                    let v = self.flt(b.val());
                    o.put(ks[b.excl() as usize], v);
                    let y = (b.val() + (b.val().abs() * 0.5 + 1.0)).trunc();
                    if y.abs() < 1e15 && self.st.redundant() {
                        o.put(ks[!b.excl() as usize], J::Flt(y));
                    }
                }
                if let Some(x) = mult {
                    let v = self.flt(*x);
                    o.put("multipleOf", v);
                }
                "number"
            }
            MSub::Int { min, max, mult } => {
                if let Some(b) = min {
                    let ks = ["minimum", "exclusiveMinimum"];
                    o.put(ks[b.excl() as usize], J::Int(b.val() as i128));
                    if self.st.redundant() {
                        let by = [1, 7, 1 << 40][(b.val() as usize) % 3];
                        if let Some(x) = b.val().checked_sub(by) {
                            o.put(ks[!b.excl() as usize], J::Int(x as i128));
                        }
                    }
                }
                if let Some(b) = max {
                    let ks = ["maximum", "exclusiveMaximum"];
                    o.put(ks[b.excl() as usize], J::Int(b.val() as i128));
                    if self.st.redundant() {
                        let by = [1, 7, 1 << 40][(b.val() as usize) % 3];
                        if let Some(x) = b.val().checked_add(by) {
                            o.put(ks[!b.excl() as usize], J::Int(x as i128));
                        }
                    }
                }
                num_or(o, "multipleOf", *mult, |x| J::Int(x as i128));
                "integer"
            }
            MSub::Obj { props, req, ext } => {
                if let Some(p) = props {
                    let p = self.ds_map(p);
                    o.put("properties", p);
                }
                if let Some(r) = req {
                    o.put("required", J::Arr(r.iter().map(s).collect()));
                }
                put_ext(o, self.exts, Piece::Obj, ext, &mut self.st);
                "object"
            }
            MSub::Str {
                min,
                max,
                pat,
                enc,
                media,
            } => {
                num_or(o, "minLength", *min, |x| J::Int(x as i128));
                num_or(o, "maxLength", *max, |x| J::Int(x as i128));
                opt_s(o, "pattern", pat);
                opt_s(o, "contentEncoding", enc);
                opt_s(o, "contentMediaType", media);
                "string"
            }
        };
        o.put("type", s(ty));
    }

    pub fn ds(&mut self, d: &MDs) -> J {
        let mut o = J::obj();
        put_info(&mut o, &d.info, &mut self.st);
        self.ds_body(&mut o, d);
        self.st.junk(&mut o, &[T_DS]);
        o
    }

    pub fn form(&mut self, f: &MForm) -> J {
        let mut o = J::obj();
        if let Some(v) = &f.op {
            let l: Vec<J> = v.iter().map(|i| s(OPS[*i])).collect();
            let x = match &mut self.st {
                Sty::Noisy(..) => self.st.one_many(l),
                _ => J::Arr(l),
            };
            o.put("op", x);
        }
        o.put("href", s(&f.href));
        opt_s(&mut o, "contentType", &f.ct);
        opt_s(&mut o, "contentCoding", &f.coding);
        opt_s(&mut o, "subprotocol", &f.subproto);
        if let Some(v) = &f.sec {
            o.put("security", self.st.strs(v));
        }
        if let Some(v) = &f.scopes {
            o.put("scopes", self.st.strs(v));
        }
        if let Some(r) = &f.resp {
            let mut x = J::obj();
            x.put("contentType", s(&r.ct));
            put_ext(&mut x, self.exts, Piece::Resp, &r.ext, &mut self.st);
            self.st.junk(&mut x, &[T_RESP]);
            o.put("response", x);
        }
        if let Some(v) = &f.addl {
            let l: Vec<J> = v
                .iter()
                .map(|a| {
                    let mut x = J::obj();
                    if a.success || self.st.extra() {
                        x.put("success", J::Bool(a.success));
                    }
                    opt_s(&mut x, "contentType", &a.ct);
                    opt_s(&mut x, "schema", &a.schema);
                    self.st.junk(&mut x, &[T_ADDL]);
                    x
                })
                .collect();
            o.put("additionalResponses", self.st.one_many(l));
        }
        put_ext(&mut o, self.exts, Piece::Form, &f.ext, &mut self.st);
        self.st.junk(&mut o, &[T_FORM]);
        o
    }

    fn ia(&mut self, o: &mut J, ia: &MIa) {
        put_info(o, &ia.info, &mut self.st);
        let l = ia.forms.iter().map(|f| self.form(f)).collect();
        o.put("forms", J::Arr(l));
        if let Some(u) = &ia.uri {
            let u = self.ds_map(u);
            o.put("uriVariables", u);
        }
        put_ext(o, self.exts, Piece::Ia, &ia.ext, &mut self.st);
    }

    pub fn prop(&mut self, p: &MProp) -> J {
        let mut o = J::obj();
        let mut ia = p.ia.clone();
        let (i, d) = (&mut ia.info, &p.ds.info);
        i.attype = i.attype.take().or(d.attype.clone());
        i.title = i.title.take().or(d.title.clone());
        i.titles = i.titles.take().or(d.titles.clone());
        i.description = i.description.take().or(d.description.clone());
        i.descriptions = i.descriptions.take().or(d.descriptions.clone());
        self.ia(&mut o, &ia);
        self.ds_body(&mut o, &p.ds);
        num_or(&mut o, "observable", p.observable, J::Bool);
        put_ext(&mut o, self.exts, Piece::Prop, &p.ext, &mut self.st);
        self.st.junk(&mut o, &[T_IA, T_DS, T_PROP]);
        o
    }

    pub fn act(&mut self, a: &MAct) -> J {
        let mut o = J::obj();
        self.ia(&mut o, &a.ia);
        if let Some(d) = &a.input {
            let d = self.ds(d);
            o.put("input", d);
        }
        if let Some(d) = &a.output {
            let d = self.ds(d);
            o.put("output", d);
        }
        if a.safe || self.st.explicit() {
            o.put("safe", J::Bool(a.safe));
        }
        if a.idem || self.st.explicit() {
            o.put("idempotent", J::Bool(a.idem));
        }
        num_or(&mut o, "synchronous", a.sync, J::Bool);
        put_ext(&mut o, self.exts, Piece::Act, &a.ext, &mut self.st);
        self.st.junk(&mut o, &[T_IA, T_ACT]);
        o
    }

    pub fn evt(&mut self, e: &MEvt) -> J {
        let mut o = J::obj();
        self.ia(&mut o, &e.ia);
        for (k, d) in [
            ("subscription", &e.subscription),
            ("data", &e.data),
            ("data_response", &e.response),
            ("cancellation", &e.cancellation),
        ] {
            if let Some(d) = d {
                let d = self.ds(d);
                let td_name = k == "data_response" && self.st.redundant();
                o.put(if td_name { "dataResponse" } else { k }, d);
            }
        }
        put_ext(&mut o, self.exts, Piece::Evt, &e.ext, &mut self.st);
        self.st.junk(&mut o, &[T_IA, T_EVT]);
        o
    }

    pub fn sec(&mut self, x: &MSec) -> J {
        let mut o = J::obj();
        if let Some(a) = &x.attype {
            o.put("@type", self.st.strs(a));
        }
        opt_s(&mut o, "description", &x.description);
        if let Some(m) = &x.descriptions {
            o.put("descriptions", ml(m));
        }
        opt_s(&mut o, "proxy", &x.proxy);
        o.put("scheme", s(x.sub.scheme()));
        let mut junk = true;
        match &x.sub {
            MSecSub::NoSec | MSecSub::Auto => {}
            MSecSub::OneOf(v) => {
                o.put("oneOf", self.st.strs(v));
                junk = false;
            }
            MSecSub::AllOf(v) => {
                o.put("allOf", self.st.strs(v));
                junk = false;
            }
            MSecSub::Basic { loc, name } => {
                if *loc != 0 || self.st.explicit() {
                    o.put("in", s(LOCS[*loc]));
                }
                opt_s(&mut o, "name", name);
            }
            MSecSub::Digest { qop, loc, name } => {
                if *qop != 0 || self.st.explicit() {
                    o.put("qop", s(QOPS[*qop]));
                }
                if *loc != 0 || self.st.explicit() {
                    o.put("in", s(LOCS[*loc]));
                }
                opt_s(&mut o, "name", name);
            }
            MSecSub::Bearer {
                authz,
                alg,
                format,
                loc,
                name,
            } => {
                opt_s(&mut o, "authorization", authz);
                if alg != "ES256" || self.st.explicit() {
                    o.put("alg", s(alg));
                }
                if format != "jwt" || self.st.explicit() {
                    o.put("format", s(format));
                }
                if *loc != 0 || self.st.explicit() {
                    o.put("in", s(LOCS[*loc]));
                }
                opt_s(&mut o, "name", name);
            }
            MSecSub::Psk { identity } => opt_s(&mut o, "identity", identity),
            MSecSub::OAuth2 {
                authz,
                token,
                refresh,
                scopes,
                flow,
            } => {
                opt_s(&mut o, "authorization", authz);
                opt_s(&mut o, "token", token);
                opt_s(&mut o, "refresh", refresh);
                if let Some(v) = scopes {
                    o.put("scopes", self.st.strs(v));
                }
                o.put("flow", s(flow));
            }
            MSecSub::ApiKey { loc, name } => {
                if *loc != 1 || self.st.explicit() {
                    o.put("in", s(LOCS[*loc]));
                }
                opt_s(&mut o, "name", name);
            }
            MSecSub::Custom { data, .. } => {
                if let J::Obj(v) = data {
                    for (k, x) in v {
                        o.put(k.clone(), x.clone());
                    }
                }
                junk = false;
            }
        }
        if junk {
            self.st.junk(&mut o, &[T_SEC]);
        }
        o
    }

    pub fn link(&mut self, l: &MLink) -> J {
        let mut o = J::obj();
        o.put("href", s(&l.href));
        opt_s(&mut o, "type", &l.ty);
        opt_s(&mut o, "rel", &l.rel);
        opt_s(&mut o, "anchor", &l.anchor);
        opt_s(&mut o, "sizes", &l.sizes);
        if let Some(v) = &l.hreflang {
            o.put("hreflang", self.st.strs(v));
        }
        self.st.junk(&mut o, &[T_LINK]);
        o
    }

    fn date(&mut self, d: &MDt) -> J {
        let mut t = format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
            d.y, d.mo, d.d, d.h, d.mi, d.s
        );
        let mut zero = "Z";
        let mut frac = format!("{:09}", d.ns);
        while frac.ends_with('0') {
            frac.pop();
        }
        if let Sty::Noisy(r, n) = &mut self.st {
            if n.dates {
                if r.coin() && frac.len() < 9 {
                    let extra = r.range(1, 9 - frac.len());
                    frac.push_str(&"0".repeat(extra));
                }
                if r.coin() {
                    zero = "+00:00";
                }
                if r.chance(1, 4) {
                    t = t.replace('T', "t");
                    if zero == "Z" {
                        zero = "z";
                    }
                }
            }
        }
        if !frac.is_empty() {
            t.push('.');
            t.push_str(&frac);
        }
        if d.off == 0 {
            t.push_str(zero);
        } else {
            let a = d.off.unsigned_abs();
            t.push_str(&format!(
                "{}{:02}:{:02}",
                if d.off < 0 { '-' } else { '+' },
                a / 60,
                a % 60
            ));
        }
        s(t)
    }

    pub fn thing(&mut self, t: &MThing) -> J {
        let mut o = J::obj();
        let terse_ctx = t.context == s(CTX11) && !self.st.explicit();
        if !terse_ctx {
            o.put("@context", t.context.clone());
        }
        opt_s(&mut o, "id", &t.id);
        put_info(&mut o, &t.info, &mut self.st);
        if let Some(v) = &t.version {
            let mut x = J::obj();
            x.put("instance", s(&v.instance));
            opt_s(&mut x, "model", &v.model);
            self.st.junk(&mut x, &[T_VERSION]);
            o.put("version", x);
        }
        if let Some(d) = &t.created {
            let d = self.date(d);
            o.put("created", d);
        }
        if let Some(d) = &t.modified {
            let d = self.date(d);
            o.put("modified", d);
        }
        opt_s(&mut o, "support", &t.support);
        opt_s(&mut o, "base", &t.base);
        if let Some(m) = &t.properties {
            let v = m.iter().map(|(k, x)| (k.clone(), self.prop(x))).collect();
            o.put("properties", J::Obj(v));
        }
        if let Some(m) = &t.actions {
            let v = m.iter().map(|(k, x)| (k.clone(), self.act(x))).collect();
            o.put("actions", J::Obj(v));
        }
        if let Some(m) = &t.events {
            let v = m.iter().map(|(k, x)| (k.clone(), self.evt(x))).collect();
            o.put("events", J::Obj(v));
        }
        if let Some(l) = &t.links {
            let v = l.iter().map(|x| self.link(x)).collect();
            o.put("links", J::Arr(v));
        }
        if let Some(l) = &t.forms {
            let v = l.iter().map(|x| self.form(x)).collect();
            o.put("forms", J::Arr(v));
        }
        o.put("security", self.st.strs(&t.security));
        let v = t
            .secdefs
            .iter()
            .map(|(k, x)| (k.clone(), self.sec(x)))
            .collect();
        o.put("securityDefinitions", J::Obj(v));
        if let Some(u) = &t.uri {
            let u = self.ds_map(u);
            o.put("uriVariables", u);
        }
        if let Some(v) = &t.profile {
            o.put("profile", self.st.strs(v));
        }
        if let Some(u) = &t.schemas {
            let u = self.ds_map(u);
            o.put("schemaDefinitions", u);
        }
        put_ext(&mut o, self.exts, Piece::Thing, &t.ext, &mut self.st);
        self.st.junk(&mut o, &[T_THING]);
        o
    }
}

pub fn canon(exts: &[Ext], t: &MThing) -> J {
    Canon {
        exts,
        st: Sty::Canon,
    }
    .thing(t)
}
pub fn terse(exts: &[Ext], t: &MThing) -> J {
    Canon {
        exts,
        st: Sty::Terse,
    }
    .thing(t)
}
pub fn noisy(exts: &[Ext], t: &MThing, r: crate::rng::Rng, n: Noise) -> J {
    Canon {
        exts,
        st: Sty::Noisy(r, n),
    }
    .thing(t)
}
