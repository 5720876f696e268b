//! Seeded generators of models.
use crate::json::{s, J};
use crate::model::*;
use crate::rng::Rng;

/// What the generated model will be used for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// Anything a document can say.
    Parse,
    /// Anything the public structs can hold (property halves may differ by absence).
    Direct,
    /// Anything the builder can produce, free of build errors.
    Build,
}

pub struct Gen {
    pub r: Rng,
    pub exts: &'static [Ext],
    pub mode: Mode,
    /// Remaining node budget.
    pub fuel: i32,
    /// Names of defined security schemes / schemas, referenced in Build mode.
    pub secs: Vec<String>,
    pub schemas: Vec<String>,
    /// Probability (in 1/8) that an optional member is present.
    pub density: u64,
    /// The dimension in which this model is unusually large, if any.
    pub big: Option<Big>,
    /// What a model full of coincidences repeats: texts, numbers, values and whole parts used before.
    pub echo: Option<Box<Memory>>,
}

/// The last few things generated.
#[derive(Default)]
pub struct Memory {
    texts: Vec<String>,
    floats: Vec<f64>,
    ints: Vec<u64>,
    jsons: Vec<J>,
    maps: Vec<Map<String>>,
    infos: Vec<Info>,
    schemas: Vec<(bool, MDs)>,
    dates: Vec<MDt>,
}
fn keep<T>(v: &mut Vec<T>, x: T, at: usize) {
    if v.len() < 6 {
        v.push(x)
    } else {
        v[at % 6] = x
    }
}

/// Dimensions in which a model may be unusually large.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Big {
    Texts,
    Forms,
    Affordances,
    Members,
    Schemas,
    Depth,
    Definitions,
    Length,
    Ops,
    Json,
}
const BIGS: &[Big] = &[
    Big::Texts,
    Big::Forms,
    Big::Affordances,
    Big::Members,
    Big::Schemas,
    Big::Depth,
    Big::Definitions,
    Big::Length,
    Big::Ops,
    Big::Json,
];

pub const WORDS: &[&str] = &[
    "on", "status", "brightness", "temp", "toggle", "fade", "overheated", "lamp", "level", "a", "b", "c",
];
/// Names that are also vocabulary terms, or otherwise awkward.
pub const VOCAB: &[&str] = &[
    "properties", "actions", "events", "forms", "type", "@type", "title", "titles", "items", "oneOf", "scheme",
    "href", "readOnly", "const", "default", "enum", "securityDefinitions", "security", "null", "true", "0", "-1",
    "readproperty", "minimum", "exclusiveMaximum", "head", "tail", "other", "interaction", "data_schema",
    "subtype", "Unknown", "Known", "nosec", "__proto__", "$ref", "required", "string", "object", "name", "data",
];
/// Texts which mean something to the specification or to the crate.
pub const CONSTS: &[&str] = &[
    CTX11, CTX10, "http://www.w3.org/ns/td", "https://www.w3.org/2022/wot/td/v1.2", "nosec", "auto", "basic", "digest",
    "bearer", "psk", "oauth2", "apikey", "combo", "header", "query", "body", "cookie", "uri", "auth", "auth-int",
    "ES256", "jwt", "cwt", "code", "client", "device", "application/json", "application/octet-stream", "icon",
    "service-doc", "self", "type", "tm:ThingModel", "longpoll", "websub", "sse", "default", "GET", "en", "gzip",
];
pub const MEDIA: &[&str] = &[
    "application/json", "application/octet-stream", "text/plain", "application/td+json", "application/cbor", "image/png", "*/*",
];
pub const LANGS: &[&str] = &[
    "en", "it", "de", "fr", "ja", "en-US", "en-GB", "de-CH-1901", "zh-Hant-TW", "sl-rozaj-biske", "es-419",
    "sr-Latn", "x-private-use", "i-klingon", "en-a-bbb-x-a-ccc", "hy-Latn-IT-arevela", "art-lojban", "zh-min-nan",
];
pub const BAD_LANGS: &[&str] = &[
    "", "e!n", "e1n", "en_US", "en-", "-en", "en--US", " en", "en ", "a-", "englishlanguage", "en-US-", "i18",
    "é", "en-\u{0}", "en-x", "12", "en-a", "abcdefghi", "en-abcdefghi", "*", "en-*", "e\n",
];

impl Gen {
    pub fn new(r: Rng, exts: &'static [Ext], mode: Mode) -> Self {
        let mut g = Gen {
            r,
            exts,
            mode,
            fuel: 60,
            secs: vec![],
            schemas: vec![],
            density: 3,
            big: None,
            echo: None,
        };
        g.density = *g.r.pick(&[1, 2, 3, 4, 6, 8]);
        g.fuel = *g.r.pick(&[12, 30, 60, 60, 100, 160]);
        if g.r.chance(1, 40) {
            g.big = Some(*g.r.pick(BIGS));
            g.density = *g.r.pick(&[1, 2]);
            g.fuel = 100;
        }
        if g.r.chance(1, 4) {
            g.echo = Some(Box::default());
        }
        g
    }

    /// Something used before, if this model repeats itself, or something new, which is remembered.
    fn again<T: Clone>(&mut self, of: fn(&mut Memory) -> &mut Vec<T>, new: impl FnOnce(&mut Self) -> T) -> T {
        if let Some(m) = &mut self.echo {
            let v = of(m);
            if !v.is_empty() && self.r.chance(3, 8) {
                return v[self.r.below(v.len())].clone();
            }
        }
        let x = new(self);
        let at = self.r.below(6);
        if let Some(m) = &mut self.echo {
            keep(of(m), x.clone(), at);
        }
        x
    }
    /// A list of a model that repeats itself may hold an element twice.
    fn twice<T: Clone>(&mut self, mut v: Vec<T>) -> Vec<T> {
        if self.echo.is_some() && !v.is_empty() && self.r.chance(1, 3) {
            let x = v[self.r.below(v.len())].clone();
            let at = self.r.range(0, v.len());
            v.insert(at, x);
        }
        v
    }

    /// How many of something: `lo..=hi`, or many more in a model that is large in this dimension.
    pub fn count(&mut self, dim: Big, lo: usize, hi: usize) -> usize {
        if self.big == Some(dim) && self.r.chance(1, 3) {
            return *self.r.pick(&[8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129]);
        }
        self.r.range(lo, hi)
    }

    /// Whether an optional member is present.
    pub fn has(&mut self) -> bool {
        let d = self.density;
        self.r.chance(d, 8)
    }

    pub fn text(&mut self) -> String {
        let t = self.again(|m| &mut m.texts, Self::new_text);
        if self.echo.is_some() && self.r.chance(1, 12) {
            return match self.r.below(4) {
                0 => t.to_uppercase(),
                1 => t + " ",
                2 => t + "/",
                _ => t.to_lowercase(),
            };
        }
        t
    }
    fn new_text(&mut self) -> String {
        if self.big == Some(Big::Length) && self.r.chance(1, 4) {
            let n = *self.r.pick(&[255, 256, 257, 1023, 1024, 1025, 4096, 4097, 65_535, 65_537]);
            let c = *self.r.pick(&["x", "é", "\u{1F600}", " ", "\"", "ab"]);
            return format!("{}{}", c.repeat(n / c.len()), self.r.below(10));
        }
        match self.r.below(20) {
            16 => format!("{}{}", WORDS[self.r.below(WORDS.len())].to_uppercase(), self.r.below(1000)),
            17 => ["e\u{301}", "\u{e9}", "\u{212b}", "\u{c5}", "\u{fb01}", "ﬁ", "ß", "SS", "İ", "ı"][self.r.below(10)].to_string(),
            18 => ["true", "null", "1", "1.0", "-0", "1e5", "NaN", "[]", "{}", "\"\""][self.r.below(10)].to_string(),
            15 => self.like(CONSTS),
            19 => ["urn:dev:ops:32473", "2022-05-01T10:20:42Z", "application/json", "text/plain;charset=utf-8", "en", "16x16", "icon", "ICON", "*", "http://a/%7Eb"][self.r.below(10)].to_string(),
            0 => String::new(),
            1 => VOCAB[self.r.below(VOCAB.len())].to_string(),
            2 => "caffè ☕ 日本語 \u{1F600}\u{10FFFF}".to_string(),
            3 => "q\"uo\\te/ \n\r\t\u{8}\u{c}\u{0}\u{1f}\u{7f}".to_string(),
            4 => "x".repeat(self.r.range(1, 300)),
            5 => format!("{{\"type\":\"{}\"}}", self.r.below(100)),
            6 => format!(" {} ", WORDS[self.r.below(WORDS.len())]),
            7 => format!("{}", self.r.u64() as i64),
            8 => "\u{feff}bom\u{2028}\u{2029}\u{200b}".to_string(),
            _ => format!("{}{}", WORDS[self.r.below(WORDS.len())], self.r.below(1000)),
        }
    }
    /// One of the words, or a text close to it.
    pub fn like(&mut self, words: &[&str]) -> String {
        let w = *self.r.pick(words);
        match self.r.below(14) {
            0 => w.to_uppercase(),
            1 => w.to_lowercase(),
            2 => format!("{w} "),
            3 => format!(" {w}"),
            4 => format!("{w}/"),
            5 => format!("{w}#"),
            6 => format!("{w}s"),
            7 => w[..w.len() - 1].to_string(),
            8 => w[1..].to_string(),
            9 => w[..1].to_uppercase() + &w[1..],
            10 => format!("{w}; charset=utf-8"),
            11 => format!("{w}.{}", self.r.below(10)),
            _ => w.to_string(),
        }
    }
    pub fn uri(&mut self) -> String {
        if self.echo.is_some() && self.r.coin() {
            return self.again(|m| &mut m.texts, Self::new_uri);
        }
        self.new_uri()
    }
    fn new_uri(&mut self) -> String {
        match self.r.below(12) {
            10 => ["HTTPS://Example.COM:443/%7efoo/../a/./b//", "https://example.com", "https://example.com/", " https://x ", "urn:uuid:ABCDEF", "URN:x", "http://u:p@h/?q#", "//h/p", "../x", "http://ex.com/\u{e9}"][self.r.below(10)].to_string(),
            0 => String::new(),
            1 => "/".into(),
            2 => format!("https://example.com/{}?a=b&c=%20#frag", self.r.below(100)),
            3 => format!("coap://[::1]:5683/p{}", self.r.below(100)),
            4 => "/props{?a,b}/{c}".into(),
            5 => self.text(),
            6 => "mqtt://broker:1883/topic/#".into(),
            _ => format!("/{}/{}", WORDS[self.r.below(WORDS.len())], self.r.below(100)),
        }
    }
    pub fn key(&mut self) -> String {
        if self.echo.is_some() && self.r.coin() {
            return self.again(|m| &mut m.texts, Self::new_key);
        }
        self.new_key()
    }
    fn new_key(&mut self) -> String {
        match self.r.below(10) {
            0..=2 => VOCAB[self.r.below(VOCAB.len())].to_string(),
            3 => self.text(),
            4 => {
                // Close relatives of the ordinary keys.
                let k = format!("{}{}", WORDS[self.r.below(3)], self.r.below(4));
                match self.r.below(5) {
                    0 => k.to_uppercase(),
                    1 => format!("{k} "),
                    2 => format!(" {k}"),
                    3 => format!("{k}\u{200b}"),
                    _ => k,
                }
            }
            5 => format!("{}{}", WORDS[self.r.below(3)], self.r.below(4)),
            _ => format!("{}{}", WORDS[self.r.below(WORDS.len())], self.r.below(if self.big.is_some() { 3000 } else { 30 })),
        }
    }
    pub fn texts(&mut self, lo: usize, hi: usize) -> Vec<String> {
        let n = self.count(Big::Texts, lo, hi);
        let v = (0..n).map(|_| self.text()).collect();
        self.twice(v)
    }
    fn opt_text(&mut self) -> Option<String> {
        self.has().then(|| self.text())
    }
    /// A text of which some are usual: often one of them.
    fn opt_typical(&mut self, usual: &[&str]) -> Option<String> {
        self.has().then(|| if self.r.chance(1, 3) { self.like(usual) } else { self.text() })
    }
    fn opt_uri(&mut self) -> Option<String> {
        self.has().then(|| self.uri())
    }
    /// Lists that may be empty where the mode can express it.
    fn list(&mut self) -> Vec<String> {
        let lo = if self.mode == Mode::Build || self.r.chance(7, 8) { 1 } else { 0 };
        let hi = if self.r.chance(1, 12) { 9 } else { 3 };
        self.texts(lo, hi)
    }
    pub fn lang_map(&mut self) -> Map<String> {
        self.again(|m| &mut m.maps, Self::new_lang_map)
    }
    fn new_lang_map(&mut self) -> Map<String> {
        let mut m = Map::new();
        let lo = if self.mode == Mode::Build || self.r.chance(7, 8) { 1 } else { 0 };
        for _ in 0..self.r.range(lo, 3) {
            let k = LANGS[self.r.below(LANGS.len())].to_string();
            let v = self.text();
            m.insert(k, v);
        }
        m
    }
    pub fn info(&mut self) -> Info {
        self.again(|m| &mut m.infos, Self::new_info)
    }
    fn new_info(&mut self) -> Info {
        Info {
            attype: self.has().then(|| self.list()),
            title: self.opt_text(),
            titles: self.has().then(|| self.lang_map()),
            description: self.opt_text(),
            descriptions: self.has().then(|| self.lang_map()),
        }
    }

    /// A finite float whose shortest spelling survives the JSON library's own parser.
    pub fn float(&mut self) -> f64 {
        self.again(|m| &mut m.floats, Self::new_float)
    }
    fn new_float(&mut self) -> f64 {
        let f = match self.r.below(15) {
            12 => f64::from_bits(self.r.u64()),
            13 => self.u64v() as f64,
            14 => self.int() as f64 / 4.0,
            0 => 0.0,
            1 => -1.5,
            2 => 1e300,
            3 => -1e-300,
            4 => 0.1,
            5 => (self.r.below(2000) as f64 - 1000.0) / 8.0,
            6 => (self.r.u64() >> 12) as f64,
            7 => -((self.r.u64() >> 30) as f64) * 1e-5,
            8 => 9007199254740993.0,
            9 => self.r.below(100) as f64,
            10 => 1e15,
            _ => (self.r.below(1_000_000) as f64) / 1000.0,
        };
        if serde_json::from_str::<f64>(&format!("{f:?}")).ok() == Some(f) {
            f
        } else {
            self.r.below(50) as f64
        }
    }
    /// Numbers of every magnitude, and the neighbours of powers of two.
    pub fn u64v(&mut self) -> u64 {
        self.again(|m| &mut m.ints, Self::new_u64v)
    }
    fn new_u64v(&mut self) -> u64 {
        let bits = self.r.below(64) as u32;
        match self.r.below(8) {
            0 => 1 << bits,
            1 => (1 << bits) - 1,
            2 => (1 << bits) + 1,
            3 => u64::MAX - self.r.below(3) as u64,
            4..=5 => self.r.below(100) as u64,
            _ => self.r.u64() >> bits,
        }
    }
    pub fn int(&mut self) -> i64 {
        if self.echo.is_some() && self.r.coin() {
            return self.u64v() as i64;
        }
        match self.r.below(14) {
            10..=11 => self.u64v() as i64,
            12 => -((self.u64v() >> 1) as i64),
            13 => self.r.below(10) as i64,
            0 => 0,
            1 => i64::MAX,
            2 => i64::MIN,
            3 => -1,
            4 => 9007199254740993,
            5 => self.r.u64() as i64,
            6 => u32::MAX as i64 + 1,
            _ => self.r.below(2000) as i64 - 1000,
        }
    }
    pub fn u32v(&mut self) -> u32 {
        if self.echo.is_some() && self.r.coin() {
            return self.u64v() as u32;
        }
        match self.r.below(10) {
            8..=9 => self.u64v() as u32,
            0 => 0,
            1 => u32::MAX,
            2 => i32::MAX as u32 + 1,
            3 => self.r.u64() as u32,
            _ => self.r.below(100) as u32,
        }
    }

    pub fn json(&mut self, depth: usize) -> J {
        self.again(|m| &mut m.jsons, |g| g.new_json(depth))
    }
    fn new_json(&mut self, depth: usize) -> J {
        match self.r.below(if depth == 0 { 8 } else { 11 }) {
            0 => J::Null,
            1 => J::Bool(self.r.coin()),
            2 => J::Int(self.int() as i128),
            3 => J::Int(u64::MAX as i128 - self.r.below(3) as i128),
            4 => J::Flt(self.float()),
            5..=7 => s(self.text()),
            8 => {
                let n = self.count(Big::Json, 0, 3);
                J::Arr((0..n).map(|_| self.json(depth - 1)).collect())
            }
            _ => self.json_obj(depth - 1, &[]),
        }
    }
    pub fn json_obj(&mut self, depth: usize, reserved: &[&str]) -> J {
        let mut o = J::obj();
        for _ in 0..self.count(Big::Json, 0, 3) {
            let k = self.key();
            if o.get(&k).is_none() && !reserved.contains(&&*k) {
                let v = self.json(depth.saturating_sub(1));
                o.put(k, v);
            }
        }
        o
    }

    pub fn ext(&mut self, p: Piece) -> MExt {
        let e: Vec<Ext> = self.exts.to_vec();
        e.into_iter().map(|e| self.ext1(e, p)).collect()
    }
    pub fn ext1(&mut self, e: Ext, p: Piece) -> MX {
        match (e, p) {
            (Ext::UA | Ext::UB, _) => MX::User {
                text: self.opt_text(),
                num: self.has().then(|| self.int()),
                flag: self.r.chance(1, 3),
                list: if self.has() { self.texts(0, 3) } else { vec![] },
                any: if self.has() { self.json(2) } else { J::Null },
            },
            (Ext::Http, Piece::Form) => MX::HttpForm {
                method: self.has().then(|| self.r.below(5)),
            },
            (Ext::Http, Piece::Resp) => MX::HttpResp {
                headers: if self.has() {
                    let n = self.r.below(3);
                    let v = (0..n).map(|_| (self.opt_text(), self.opt_text())).collect();
                    self.twice(v)
                } else {
                    vec![]
                },
                status: self.has().then(|| match self.r.below(4) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 418,
                    _ => self.u64v(),
                }),
            },
            (Ext::Coap, Piece::Form) => {
                let bw = |g: &mut Self| {
                    g.has().then(|| {
                        let a = g.has().then(|| BLOCK_SIZES[g.r.below(7)]);
                        let b = g.has().then(|| BLOCK_SIZES[g.r.below(7)]);
                        (a, b)
                    })
                };
                let blockwise = bw(self);
                let qblockwise = bw(self);
                MX::CoapForm {
                    method: self.has().then(|| self.r.below(7)),
                    blockwise,
                    qblockwise,
                    hop: self.has().then(|| self.u64v() as u8),
                    accept: self.has().then(|| self.u64v() as u16),
                    cf: self.has().then(|| self.u64v() as u16),
                }
            }
            (Ext::Coap, Piece::Resp) => MX::CoapResp {
                cf: self.has().then(|| self.u64v() as u16),
            },
            (Ext::Mqtt, Piece::Form) => MX::MqttForm {
                retain: self.r.coin(),
                packet: self.has().then(|| self.r.below(3)),
                qos: self.has().then(|| self.r.below(3)),
                topic: self.opt_text(),
                filter: if self.has() { self.texts(0, 3) } else { vec![] },
            },
            _ => MX::Unit,
        }
    }

    fn bounds_f(&mut self) -> (Option<Bd<f64>>, Option<Bd<f64>>) {
        let (mut a, mut b) = (self.float(), self.float());
        if self.mode == Mode::Build {
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let strict_ok = self.mode != Mode::Build || a < b;
        let mk = |g: &mut Self, x| {
            if strict_ok && g.r.coin() {
                Bd::Ex(x)
            } else {
                Bd::In(x)
            }
        };
        let mn = self.has().then(|| mk(self, a));
        let mx = self.has().then(|| mk(self, b));
        (mn, mx)
    }
    fn bounds_i(&mut self) -> (Option<Bd<i64>>, Option<Bd<i64>>) {
        let (mut a, mut b) = (self.int(), self.int());
        if self.mode == Mode::Build && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let strict_ok = self.mode != Mode::Build || a < b;
        let mk = |g: &mut Self, x| {
            if strict_ok && g.r.coin() {
                Bd::Ex(x)
            } else {
                Bd::In(x)
            }
        };
        let mn = self.has().then(|| mk(self, a));
        let mx = self.has().then(|| mk(self, b));
        (mn, mx)
    }

    pub fn sub(&mut self, depth: usize, scalar: bool) -> MSub {
        let deep = depth > 0 && self.fuel > 0 && !scalar;
        let kind = if deep && self.big == Some(Big::Depth) && self.r.chance(15, 16) {
            self.r.range(5, 6)
        } else {
            self.r.below(if scalar { 5 } else { 7 })
        };
        match kind {
            0 => MSub::Bool,
            1 => {
                let (min, max) = self.bounds_f();
                let mult = self.has().then(|| {
                    let f = self.float();
                    if self.mode == Mode::Build && f <= 0.0 {
                        0.5
                    } else {
                        f
                    }
                });
                MSub::Num { min, max, mult }
            }
            2 => {
                let (min, max) = self.bounds_i();
                MSub::Int {
                    min,
                    max,
                    mult: self.has().then(|| self.u64v().max(1)),
                }
            }
            3 => MSub::Str {
                min: self.has().then(|| self.u32v()),
                max: self.has().then(|| self.u32v()),
                pat: self.opt_text(),
                enc: self.opt_typical(&["base64", "base16", "7bit", "quoted-printable"]),
                media: self.opt_typical(MEDIA),
            },
            4 => MSub::Null,
            5 => {
                let (mut a, mut b) = (self.u32v(), self.u32v());
                if self.mode == Mode::Build && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                let items = if deep && (self.big == Some(Big::Depth) || self.r.chance(3, 4)) {
                    Some(if self.r.coin() {
                        MItems::One(Box::new(self.ds(depth - 1, false)))
                    } else {
                        let n = self.count(Big::Schemas, 0, 3);
                        let v = (0..n).map(|_| self.ds(depth - 1, false)).collect();
                        MItems::Many(self.twice(v))
                    })
                } else {
                    None
                };
                // The builder has no length bounds for tuples.
                let free = self.mode != Mode::Build || !matches!(items, Some(MItems::Many(_)));
                MSub::Arr {
                    min: (self.has() && free).then_some(a),
                    max: (self.has() && free).then_some(b),
                    items,
                    ext: self.ext(Piece::Arr),
                }
            }
            _ => {
                let mut req = vec![];
                let props = (deep && self.r.chance(3, 4)).then(|| {
                    let lo = if self.mode == Mode::Build { 1 } else { 0 };
                    let mut m = Map::new();
                    for _ in 0..self.count(Big::Members, lo, 3) {
                        let k = self.key();
                        if !m.contains_key(&k) {
                            if self.r.coin() {
                                req.push(k.clone());
                            }
                            let d = self.ds(depth - 1, false);
                            m.insert(k, d);
                        }
                    }
                    m
                });
                let req = if self.mode == Mode::Build {
                    (!req.is_empty()).then_some(req)
                } else if self.has() {
                    Some(if self.r.coin() { req } else { self.texts(0, 3) })
                } else {
                    None
                };
                MSub::Obj {
                    props,
                    req,
                    ext: self.ext(Piece::Obj),
                }
            }
        }
    }

    pub fn ds(&mut self, depth: usize, scalar: bool) -> MDs {
        if depth > 0 || self.echo.is_none() {
            return self.new_ds(depth, scalar);
        }
        // Only small ones are repeated. What fits where objects and arrays do not fits everywhere.
        let all = |g: &mut Self| {
            let v: Vec<_> = g.echo.iter().flat_map(|m| &m.schemas).filter(|x| x.0 || !scalar).cloned().collect();
            (!v.is_empty() && g.r.chance(1, 3)).then(|| v[g.r.below(v.len())].1.clone())
        };
        if let Some(d) = all(self) {
            return d;
        }
        let d = self.new_ds(depth, scalar);
        let at = self.r.below(6);
        if let Some(m) = &mut self.echo {
            keep(&mut m.schemas, (scalar, d.clone()), at);
        }
        d
    }
    fn new_ds(&mut self, depth: usize, scalar: bool) -> MDs {
        self.fuel -= 1;
        let mut d = MDs {
            info: self.info(),
            ext: self.ext(Piece::Ds),
            unit: self.opt_typical(&["Cel", "om2:kelvin", "percent", "%"]),
            format: self.opt_typical(&["date-time", "uri", "email", "ipv4", "uuid"]),
            default: self.has().then(|| self.json(2)),
            ..Default::default()
        };
        if self.mode != Mode::Build {
            d.constant = self.has().then(|| self.json(2));
            d.enumeration = self.has().then(|| {
                let n = self.count(Big::Json, 0, 3);
                let v = (0..n).map(|_| self.json(2)).collect();
                self.twice(v)
            });
            d.ro = self.r.chance(1, 3);
            d.wo = self.r.chance(1, 3);
            if depth > 0 && self.fuel > 0 && self.r.chance(1, 6) {
                let n = self.count(Big::Schemas, 0, 2);
                let v = (0..n).map(|_| self.ds(depth - 1, scalar)).collect();
                d.one_of = Some(self.twice(v));
            }
            if self.r.chance(6, 7) {
                d.sub = Some(self.sub(depth, scalar));
            }
            return d;
        }
        // The shapes the builder can produce.
        let shape = if depth > 0 && self.big == Some(Big::Depth) {
            self.r.below(20)
        } else {
            self.r.below(10)
        };
        match shape {
            0 => {
                d.constant = Some(self.json(2));
                d.ro = true;
            }
            1 if depth > 0 && self.fuel > 0 => {
                let n = self.count(Big::Schemas, 1, 3);
                let v = (0..n).map(|_| self.ds(depth - 1, scalar)).collect();
                d.one_of = Some(self.twice(v));
            }
            2 | 3 => {
                let n = self.count(Big::Json, 1, 4);
                let v = (0..n).map(|_| self.json(2)).collect();
                d.enumeration = Some(self.twice(v));
                self.access(&mut d);
            }
            _ => {
                d.sub = Some(self.sub(depth, scalar));
                self.access(&mut d);
            }
        }
        d
    }
    fn access(&mut self, d: &mut MDs) {
        match self.r.below(4) {
            0 => d.ro = true,
            1 => d.wo = true,
            _ => {}
        }
    }

    pub fn form(&mut self, allowed: &[usize], need_op: bool) -> MForm {
        let op = if self.mode == Mode::Build {
            (need_op || self.has()).then(|| {
                let n = self.count(Big::Ops, 1, 3);
                (0..n).map(|_| *self.r.pick(allowed)).collect()
            })
        } else {
            self.has().then(|| {
                let hi = if self.r.chance(1, 10) { 18 } else { 3 };
                let n = self.count(Big::Ops, 0, hi);
                (0..n).map(|_| self.r.below(18)).collect()
            })
        };
        let build = self.mode == Mode::Build;
        MForm {
            op,
            href: self.uri(),
            ct: self.opt_typical(MEDIA),
            coding: self.opt_typical(&["gzip", "deflate", "br", "identity"]),
            subproto: self.opt_typical(&["longpoll", "websub", "sse", "cov:observe", "mqv:subscribe"]),
            sec: if build {
                if !self.secs.is_empty() && self.has() {
                    let n = self.r.range(1, 3);
                    Some((0..n).map(|_| self.r.pick(&self.secs.clone()).clone()).collect())
                } else {
                    None
                }
            } else {
                self.has().then(|| self.list())
            },
            scopes: self.has().then(|| self.list()),
            resp: self.has().then(|| MResp {
                ct: if self.r.chance(1, 3) { self.like(MEDIA) } else { self.text() },
                ext: self.ext(Piece::Resp),
            }),
            addl: self.has().then(|| {
                let n = self.count(Big::Definitions, if build { 1 } else { 0 }, 3);
                let v = (0..n)
                    .map(|_| MAddl {
                        success: self.r.coin(),
                        ct: self.opt_typical(MEDIA),
                        schema: if build {
                            if !self.schemas.is_empty() && self.has() {
                                Some(self.r.pick(&self.schemas.clone()).clone())
                            } else {
                                None
                            }
                        } else {
                            self.opt_text()
                        },
                    })
                    .collect();
                self.twice(v)
            }),
            ext: self.ext(Piece::Form),
        }
    }

    pub fn uri_map(&mut self, depth: usize) -> Option<Map<MDs>> {
        let build = self.mode == Mode::Build;
        self.has().then(|| {
            let n = self.count(Big::Members, build as usize, 2);
            let mut m = Map::new();
            for _ in 0..n {
                let k = self.key();
                let d = self.ds(depth, build);
                m.insert(k, d);
            }
            m
        })
    }

    pub fn ia(&mut self, allowed: &[usize]) -> MIa {
        self.fuel -= 1;
        let n = if self.r.chance(1, 12) { 6 } else { self.count(Big::Forms, 0, 2) };
        MIa {
            info: self.info(),
            forms: {
                let v = (0..n).map(|_| self.form(allowed, false)).collect();
                self.twice(v)
            },
            uri: self.uri_map(1),
            ext: self.ext(Piece::Ia),
        }
    }
    pub fn depth(&mut self) -> usize {
        if self.big == Some(Big::Depth) && self.r.coin() {
            return *self.r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 40]);
        }
        *self.r.pick(&[0, 1, 2, 2, 3, 4])
    }
    pub fn prop(&mut self) -> MProp {
        let ia = self.ia(&PROP_OPS);
        let depth = self.depth();
        let mut ds = self.ds(depth, false);
        if self.mode == Mode::Build {
            // String constraints cannot be set through a property builder.
            if let Some(MSub::Str { .. }) = ds.sub {
                ds.sub = Some(MSub::Str {
                    min: None,
                    max: None,
                    pat: None,
                    enc: None,
                    media: None,
                });
            }
        }
        ds.info = ia.info.clone();
        let mut p = MProp {
            ia,
            ds,
            observable: self.has().then(|| self.r.coin()),
            ext: self.ext(Piece::Prop),
        };
        if self.mode == Mode::Direct {
            // Either half may lack a shared member.
            let half = |r: &mut Rng, a: &mut Info, b: &mut Info| {
                fn one<T>(r: &mut Rng, a: &mut Option<T>, b: &mut Option<T>) {
                    match r.below(4) {
                        0 => *a = None,
                        1 => *b = None,
                        _ => {}
                    }
                }
                one(r, &mut a.attype, &mut b.attype);
                one(r, &mut a.title, &mut b.title);
                one(r, &mut a.titles, &mut b.titles);
                one(r, &mut a.description, &mut b.description);
                one(r, &mut a.descriptions, &mut b.descriptions);
            };
            half(&mut self.r, &mut p.ia.info, &mut p.ds.info);
        }
        p
    }
    pub fn act(&mut self) -> MAct {
        let (a, b) = (self.depth(), self.depth());
        MAct {
            ia: self.ia(&ACT_OPS),
            input: self.has().then(|| self.ds(a, false)),
            output: self.has().then(|| self.ds(b, false)),
            safe: self.r.coin(),
            idem: self.r.coin(),
            sync: self.has().then(|| self.r.coin()),
            ext: self.ext(Piece::Act),
        }
    }
    pub fn evt(&mut self) -> MEvt {
        let d = self.depth();
        MEvt {
            ia: self.ia(&EVT_OPS),
            subscription: self.has().then(|| self.ds(d, false)),
            data: self.has().then(|| self.ds(d, false)),
            response: self.has().then(|| self.ds(d, false)),
            cancellation: self.has().then(|| self.ds(d, false)),
            ext: self.ext(Piece::Evt),
        }
    }
    pub fn link(&mut self) -> MLink {
        let rel = self.has().then(|| {
            if self.r.coin() {
                "icon".to_string()
            } else {
                self.text()
            }
        });
        let sizes = if self.mode == Mode::Build && rel.as_deref() != Some("icon") {
            None
        } else {
            self.has().then(|| if self.r.coin() { self.like(&["16x16 32x32", "any", "16x16", "0x0"]) } else { self.text() })
        };
        MLink {
            href: self.uri(),
            ty: self.opt_typical(MEDIA),
            rel,
            anchor: self.opt_uri(),
            sizes,
            hreflang: self.has().then(|| {
                let n = self.r.range((self.mode == Mode::Build) as usize, 3);
                (0..n).map(|_| LANGS[self.r.below(LANGS.len())].to_string()).collect()
            }),
        }
    }
    pub fn sec_sub(&mut self, kind: usize) -> MSecSub {
        let loc = self.r.below(5);
        match kind {
            0 => MSecSub::NoSec,
            1 => MSecSub::Auto,
            2 | 3 => {
                let v = if self.mode == Mode::Build {
                    let n = self.r.range(1, 3);
                    (0..n).map(|_| self.r.pick(&self.secs.clone()).clone()).collect()
                } else {
                    self.texts(0, 3)
                };
                if kind == 2 {
                    MSecSub::OneOf(v)
                } else {
                    MSecSub::AllOf(v)
                }
            }
            4 => MSecSub::Basic {
                loc: if self.has() { loc } else { 0 },
                name: self.opt_text(),
            },
            5 => MSecSub::Digest {
                qop: self.r.below(2),
                loc: if self.has() { loc } else { 0 },
                name: self.opt_text(),
            },
            6 => MSecSub::Bearer {
                authz: self.opt_uri(),
                alg: if self.r.chance(1, 4) { self.like(&["ES256", "ES512"]) } else { self.opt_text().unwrap_or("ES256".into()) },
                format: if self.r.chance(1, 4) { self.like(&["jwt", "cwt"]) } else { self.opt_text().unwrap_or("jwt".into()) },
                loc: if self.has() { loc } else { 0 },
                name: self.opt_text(),
            },
            7 => MSecSub::Psk {
                identity: if self.mode == Mode::Build {
                    None
                } else {
                    self.opt_text()
                },
            },
            8 => MSecSub::OAuth2 {
                authz: self.opt_uri(),
                token: self.opt_uri(),
                refresh: self.opt_uri(),
                scopes: self.has().then(|| self.list()),
                flow: if self.r.coin() { self.like(&["code", "client", "device"]) } else { self.text() },
            },
            9 => MSecSub::ApiKey {
                loc: if self.has() { loc } else { 1 },
                name: self.opt_text(),
            },
            _ => {
                let scheme = loop {
                    let t = match self.r.below(4) {
                        0 => self.text(),
                        1 => "Basic".into(),
                        2 => "ace:ACESecurityScheme".into(),
                        _ => format!("custom{}", self.r.below(50)),
                    };
                    if !KNOWN_SCHEMES.contains(&&*t) {
                        break t;
                    }
                };
                MSecSub::Custom {
                    scheme,
                    data: self.json_obj(3, &["@type", "description", "descriptions", "proxy", "scheme"]),
                }
            }
        }
    }
    pub fn sec(&mut self, kind: usize) -> MSec {
        MSec {
            attype: self.has().then(|| self.list()),
            description: self.opt_text(),
            descriptions: self.has().then(|| self.lang_map()),
            proxy: self.opt_uri(),
            sub: self.sec_sub(kind),
        }
    }
    pub fn date(&mut self) -> MDt {
        self.again(|m| &mut m.dates, Self::new_date)
    }
    fn new_date(&mut self) -> MDt {
        MDt {
            y: *self.r.pick(&[1, 1970, 1999, 2000, 2022, 2024, 2100, 9998]),
            mo: self.r.range(1, 12) as u8,
            d: self.r.range(1, 28) as u8,
            h: self.r.below(24) as u8,
            mi: self.r.below(60) as u8,
            s: self.r.below(60) as u8,
            ns: match self.r.below(5) {
                0 | 1 => 0,
                2 => 123_000_000,
                3 => 1,
                _ => self.r.below(1_000_000_000) as u32,
            },
            off: match self.r.below(6) {
                0..=2 => 0,
                3 => *self.r.pick(&[60, -60, 330, -210, 1439, -1439, 345]),
                _ => self.r.range(0, 2878) as i16 - 1439,
            },
        }
    }
    pub fn ctx(&mut self) -> J {
        match (self.mode, self.r.below(6)) {
            (_, 0 | 1) => s(CTX11),
            (Mode::Build, n) => self.build_ctx(n),
            (_, 2) if self.r.coin() => s(CTX10),
            (_, 2) => s(self.like(&[CTX11, CTX10])),
            (_, 3) => J::Arr(vec![
                s(CTX11),
                J::Obj(vec![("saref".into(), s("https://w3id.org/saref#"))]),
            ]),
            _ => self.json(3),
        }
    }
    fn build_ctx(&mut self, n: usize) -> J {
        // TD 1.1 first, then strings and maps of strings in call order; a lone entry is bare.
        let mut l = vec![s(CTX11)];
        for _ in 0..n - 1 {
            if self.r.coin() {
                let mut t = if self.r.chance(1, 4) { self.like(&[CTX11, CTX10]) } else { self.text() };
                if t == CTX11 {
                    t.push('x');
                }
                l.push(s(t));
            } else {
                let mut o = J::obj();
                for _ in 0..self.r.range(1, 3) {
                    let (k, v) = (self.key(), self.text());
                    if o.get(&k).is_none() {
                        o.put(k, s(v));
                    }
                }
                l.push(o);
            }
        }
        J::Arr(l)
    }

    pub fn thing(&mut self) -> MThing {
        let build = self.mode == Mode::Build;
        let mut secdefs = Map::new();
        let n = self.count(Big::Definitions, 0, 4);
        for _ in 0..n {
            let kind = *self.r.pick(&[0, 1, 4, 5, 6, 7, 8, 9, 10, 10]);
            let d = self.sec(kind);
            let k = if self.r.chance(1, 3) {
                d.sub.scheme().to_string()
            } else {
                self.key()
            };
            if secdefs.contains_key(&k) {
                continue;
            }
            secdefs.insert(k.clone(), d);
            self.secs.push(k);
        }
        if !build || !self.secs.is_empty() {
            for _ in 0..self.count(Big::Definitions, 0, 2) {
                let kind = self.r.range(2, 3);
                let k = if self.r.chance(1, 3) { "combo".into() } else { self.key() };
                if secdefs.contains_key(&k) {
                    continue;
                }
                let d = self.sec(kind);
                secdefs.insert(k.clone(), d);
                self.secs.push(k);
            }
        }
        let security = if build {
            let mut v: Vec<String> = vec![];
            for k in self.secs.clone() {
                if self.r.coin() {
                    v.push(k);
                }
            }
            v
        } else {
            self.texts(0, 3)
        };
        let schemas = self.has().then(|| {
            let mut m = Map::new();
            for _ in 0..self.count(Big::Definitions, build as usize, 2) {
                let k = self.key();
                let depth = self.depth();
                let d = self.ds(depth, false);
                m.insert(k, d);
            }
            m
        });
        self.schemas = schemas.iter().flat_map(|m| m.keys().cloned()).collect();
        let mut info = self.info();
        info.title = Some(self.text());
        let mut names: Vec<String> = (0..4).map(|_| self.key()).collect();
        names.dedup();
        let nm = |g: &mut Self| {
            // Names shared between kinds on purpose.
            if g.r.coin() {
                names[g.r.below(names.len())].clone()
            } else {
                g.key()
            }
        };
        let mut properties = Map::new();
        for _ in 0..self.count(Big::Affordances, 0, 3) {
            let k = nm(self);
            let v = self.prop();
            properties.insert(k, v);
        }
        let mut actions = Map::new();
        for _ in 0..self.count(Big::Affordances, 0, 2) {
            let k = nm(self);
            let v = self.act();
            actions.insert(k, v);
        }
        let mut events = Map::new();
        for _ in 0..self.count(Big::Affordances, 0, 2) {
            let k = nm(self);
            let v = self.evt();
            events.insert(k, v);
        }
        fn opt<T>(g: &mut Gen, m: Map<T>) -> Option<Map<T>> {
            if m.is_empty() && (g.mode == Mode::Build || g.r.coin()) {
                None
            } else {
                Some(m)
            }
        }
        MThing {
            context: self.ctx(),
            id: self.opt_uri(),
            info,
            version: self.has().then(|| MVersion {
                instance: self.text(),
                model: self.opt_text(),
            }),
            created: self.has().then(|| self.date()),
            modified: self.has().then(|| self.date()),
            support: self.opt_uri(),
            base: self.opt_uri(),
            properties: opt(self, properties),
            actions: opt(self, actions),
            events: opt(self, events),
            links: self.has().then(|| {
                let n = self.count(Big::Definitions, build as usize, 3);
                let v = (0..n).map(|_| self.link()).collect();
                self.twice(v)
            }),
            forms: self.has().then(|| {
                let n = self.count(Big::Forms, build as usize, 3);
                let v = (0..n).map(|_| self.form(&THING_OPS, true)).collect();
                self.twice(v)
            }),
            security,
            secdefs,
            uri: self.uri_map(1),
            profile: self.has().then(|| self.list()),
            schemas,
            ext: self.ext(Piece::Thing),
        }
    }
}

pub const KNOWN_SCHEMES: [&str; 9] = [
    "nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey",
];
