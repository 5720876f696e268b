//! P11, shapes: extension types other than plain structs. Every extensible part carries, according to the stack, a type
//! without data that writes and requires a constant member, an internally tagged enum, or a flattened optional struct; the
//! member names differ from part to part, so a member found in the wrong place, missing or made up shows.
use crate::fw::*;
use crate::json::{diff, read, s as js, shuffle_keys, to_value, write_noisy, J};
use crate::rng::Rng;
use serde::de::{Error as _, IgnoredAny, MapAccess, Visitor};
use serde::ser::SerializeMap;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use wot_td::builder::affordance::*;
use wot_td::builder::data_schema::*;
use wot_td::extend::Extend;
use wot_td::extend::ExtendableThing;
use wot_td::hlist::{Cons, Nil};
use wot_td::thing::{FormOperation, Thing};

const THING: usize = 0;
const IA: usize = 1;
const PROP: usize = 2;
const ACT: usize = 3;
const EVT: usize = 4;
const FORM: usize = 5;
const RESP: usize = 6;
const DS: usize = 7;
const OBJ: usize = 8;
const ARR: usize = 9;
const PART: [&str; 10] = ["thing", "ia", "prop", "act", "evt", "form", "resp", "ds", "obj", "arr"];

/// No data: a constant member, which has to be there.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Mark<const K: usize>;
impl<const K: usize> Serialize for Mark<K> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(1))?;
        m.serialize_entry(&format!("mark:{}", PART[K]), &true)?;
        m.end()
    }
}
impl<'de, const K: usize> Deserialize<'de> for Mark<K> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const K: usize>;
        impl<'de, const K: usize> Visitor<'de> for V<K> {
            type Value = Mark<K>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a marked object")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Mark<K>, A::Error> {
                let own = format!("mark:{}", PART[K]);
                let mut there = false;
                while let Some(k) = a.next_key::<String>()? {
                    if k == own {
                        there = a.next_value::<bool>()?;
                    } else {
                        a.next_value::<IgnoredAny>()?;
                    }
                }
                if there {
                    Ok(Mark)
                } else {
                    Err(A::Error::custom(format!("{own} is missing")))
                }
            }
        }
        d.deserialize_map(V::<K>)
    }
}
impl ExtendableThing for Mark<THING> {
    type InteractionAffordance = Mark<IA>;
    type PropertyAffordance = Mark<PROP>;
    type ActionAffordance = Mark<ACT>;
    type EventAffordance = Mark<EVT>;
    type Form = Mark<FORM>;
    type ExpectedResponse = Mark<RESP>;
    type DataSchema = Mark<DS>;
    type ObjectSchema = Mark<OBJ>;
    type ArraySchema = Mark<ARR>;
}

macro_rules! shapes {
    ($($tag:ident $in:ident $opt:ident $k:literal $n:literal $w:literal $a:literal $b:literal;)*) => {
        $(
            /// One of three variants, named by a member.
            #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
            #[serde(tag = $k, rename_all = "lowercase")]
            pub enum $tag {
                Plain,
                Count {
                    #[serde(rename = $n)]
                    n: i64,
                },
                Words {
                    #[serde(rename = $w)]
                    w: Vec<String>,
                },
            }
            #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
            pub struct $in {
                #[serde(rename = $a)]
                a: i64,
                #[serde(rename = $b, skip_serializing_if = "Option::is_none")]
                b: Option<String>,
            }
            /// All there or not at all.
            #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
            pub struct $opt {
                #[serde(flatten)]
                x: Option<$in>,
            }
        )*
    };
}
shapes! {
    TagThing InThing OptThing "kind:thing" "n:thing" "w:thing" "a:thing" "b:thing";
    TagIa InIa OptIa "kind:ia" "n:ia" "w:ia" "a:ia" "b:ia";
    TagProp InProp OptProp "kind:prop" "n:prop" "w:prop" "a:prop" "b:prop";
    TagAct InAct OptAct "kind:act" "n:act" "w:act" "a:act" "b:act";
    TagEvt InEvt OptEvt "kind:evt" "n:evt" "w:evt" "a:evt" "b:evt";
    TagForm InForm OptForm "kind:form" "n:form" "w:form" "a:form" "b:form";
    TagResp InResp OptResp "kind:resp" "n:resp" "w:resp" "a:resp" "b:resp";
    TagDs InDs OptDs "kind:ds" "n:ds" "w:ds" "a:ds" "b:ds";
    TagObj InObj OptObj "kind:obj" "n:obj" "w:obj" "a:obj" "b:obj";
    TagArr InArr OptArr "kind:arr" "n:arr" "w:arr" "a:arr" "b:arr";
}
impl ExtendableThing for TagThing {
    type InteractionAffordance = TagIa;
    type PropertyAffordance = TagProp;
    type ActionAffordance = TagAct;
    type EventAffordance = TagEvt;
    type Form = TagForm;
    type ExpectedResponse = TagResp;
    type DataSchema = TagDs;
    type ObjectSchema = TagObj;
    type ArraySchema = TagArr;
}
impl ExtendableThing for OptThing {
    type InteractionAffordance = OptIa;
    type PropertyAffordance = OptProp;
    type ActionAffordance = OptAct;
    type EventAffordance = OptEvt;
    type Form = OptForm;
    type ExpectedResponse = OptResp;
    type DataSchema = OptDs;
    type ObjectSchema = OptObj;
    type ArraySchema = OptArr;
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Marked,
    Tagged,
    Optional,
}
use Shape::*;

/// Writes a document in the form the crate itself writes.
struct Doc<'a> {
    r: Rng,
    stack: &'a [Shape],
    /// Members every part must have, counted; the one to leave out.
    must: usize,
    without: Option<usize>,
    left: usize,
    pieces: Vec<usize>,
}
impl Doc<'_> {
    fn must(&mut self, o: &mut J, k: String, v: J) {
        if self.without != Some(self.must) {
            o.put(k, v);
        }
        self.must += 1;
    }
    fn word(&mut self) -> J {
        js(*self.r.pick(&["", "a", "plain", "mark:arr", "é\u{1f600}", "true", "ds"]))
    }
    fn ext(&mut self, o: &mut J, part: usize) {
        let p = PART[part];
        self.pieces.push(part);
        for s in self.stack {
            match s {
                Marked => self.must(o, format!("mark:{p}"), J::Bool(true)),
                Tagged => match self.r.below(3) {
                    0 => self.must(o, format!("kind:{p}"), js("plain")),
                    1 => {
                        self.must(o, format!("kind:{p}"), js("count"));
                        let n = self.r.u64() as i64 >> self.r.below(63);
                        self.must(o, format!("n:{p}"), J::Int(n as i128));
                    }
                    _ => {
                        self.must(o, format!("kind:{p}"), js("words"));
                        let w = (0..self.r.below(3)).map(|_| self.word()).collect();
                        self.must(o, format!("w:{p}"), J::Arr(w));
                    }
                },
                Optional => {
                    if self.r.coin() {
                        o.put(format!("a:{p}"), J::Int(self.r.u64() as i64 as i128));
                        if self.r.coin() {
                            let w = self.word();
                            o.put(format!("b:{p}"), w);
                        }
                    }
                }
            }
        }
    }
    fn schemas(&mut self, depth: usize, names: &[&str]) -> J {
        let mut o = J::obj();
        for n in names {
            let x = self.schema(depth);
            o.put(*n, x);
        }
        o
    }
    fn schema(&mut self, depth: usize) -> J {
        let mut o = J::obj();
        self.fill(&mut o, depth);
        o
    }
    /// The members of a data schema.
    fn fill(&mut self, o: &mut J, depth: usize) {
        self.left = self.left.saturating_sub(1);
        let deep = depth > 0 && self.left > 0;
        o.put("readOnly", J::Bool(self.r.chance(1, 5)));
        o.put("writeOnly", J::Bool(self.r.chance(1, 5)));
        if self.r.chance(1, 4) {
            let w = self.word();
            o.put("unit", w);
        }
        self.ext(o, DS);
        match self.r.below(if deep { 12 } else { 9 }) {
            0 => {}
            1 | 2 | 9 => {
                o.put("type", js("array"));
                if deep {
                    match self.r.below(4) {
                        0 => {}
                        1 => {
                            let x = self.schema(depth - 1);
                            o.put("items", x);
                        }
                        _ => {
                            let x = (0..self.r.range(1, 2)).map(|_| self.schema(depth - 1)).collect();
                            o.put("items", J::Arr(x));
                        }
                    }
                }
                if self.r.coin() {
                    o.put("maxItems", J::Int(self.r.below(9) as i128));
                }
                self.ext(o, ARR);
            }
            3 | 4 | 10 => {
                o.put("type", js("object"));
                if deep && self.r.chance(3, 4) {
                    let n = self.r.range(1, 2);
                    let x = self.schemas(depth - 1, &["x", "y"][..n]);
                    o.put("properties", x);
                }
                if self.r.coin() {
                    o.put("required", J::Arr(vec![js("x")]));
                }
                self.ext(o, OBJ);
            }
            5 => o.put("type", js("integer")),
            6 => {
                o.put("type", js("string"));
                if self.r.coin() {
                    o.put("maxLength", J::Int(3));
                }
            }
            7 => o.put("type", js("boolean")),
            8 => o.put("type", js("null")),
            _ => {
                let x = (0..self.r.range(1, 2)).map(|_| self.schema(depth - 1)).collect();
                o.put("oneOf", J::Arr(x));
            }
        }
    }
    fn form(&mut self, ops: &[&str]) -> J {
        let mut o = J::obj();
        let op = *self.r.pick(ops);
        o.put("op", J::Arr(vec![js(op)]));
        o.put("href", js("/x"));
        if self.r.chance(1, 3) {
            o.put("subprotocol", js("longpoll"));
        }
        if self.r.coin() {
            let mut e = J::obj();
            e.put("contentType", js("a/b"));
            self.ext(&mut e, RESP);
            o.put("response", e);
        }
        self.ext(&mut o, FORM);
        o
    }
    fn ia(&mut self, o: &mut J, ops: &[&str]) {
        let f = (0..self.r.below(3)).map(|_| self.form(ops)).collect();
        o.put("forms", J::Arr(f));
        if self.r.chance(1, 3) {
            let x = self.schemas(1, &["v"]);
            o.put("uriVariables", x);
        }
        self.ext(o, IA);
    }
    fn thing(&mut self) -> J {
        let mut o = J::obj();
        o.put("@context", js("https://www.w3.org/2022/wot/td/v1.1"));
        o.put("title", js("shapes"));
        o.put("security", js("n"));
        let mut d = J::obj();
        let mut n = J::obj();
        n.put("scheme", js("nosec"));
        d.put("n", n);
        o.put("securityDefinitions", d);
        if self.r.chance(3, 4) {
            let mut ps = J::obj();
            for n in &["p", "q"][..self.r.range(1, 2)] {
                let mut p = J::obj();
                self.ia(&mut p, &["readproperty", "writeproperty"]);
                self.fill(&mut p, 3);
                if self.r.coin() {
                    p.put("observable", J::Bool(true));
                }
                self.ext(&mut p, PROP);
                ps.put(*n, p);
            }
            o.put("properties", ps);
        }
        if self.r.coin() {
            let mut ps = J::obj();
            for n in &["p", "r"][..self.r.range(1, 2)] {
                let mut p = J::obj();
                self.ia(&mut p, &["invokeaction", "queryaction"]);
                for k in ["input", "output"] {
                    if self.r.coin() {
                        let x = self.schema(2);
                        p.put(k, x);
                    }
                }
                p.put("safe", J::Bool(self.r.coin()));
                p.put("idempotent", J::Bool(self.r.coin()));
                self.ext(&mut p, ACT);
                ps.put(*n, p);
            }
            o.put("actions", ps);
        }
        if self.r.coin() {
            let mut ps = J::obj();
            for n in &["p", "s"][..self.r.range(1, 2)] {
                let mut p = J::obj();
                self.ia(&mut p, &["subscribeevent", "unsubscribeevent"]);
                for k in ["subscription", "data", "cancellation"] {
                    if self.r.coin() {
                        let x = self.schema(2);
                        p.put(k, x);
                    }
                }
                self.ext(&mut p, EVT);
                ps.put(*n, p);
            }
            o.put("events", ps);
        }
        if self.r.coin() {
            let f = self.form(&["readallproperties", "writemultipleproperties"]);
            o.put("forms", J::Arr(vec![f]));
        }
        for k in ["uriVariables", "schemaDefinitions"] {
            if self.r.chance(1, 3) {
                let x = self.schemas(2, &["v", "w"]);
                o.put(k, x);
            }
        }
        self.ext(&mut o, THING);
        o
    }
}

fn through<P: ExtendableThing + Serialize + for<'a> Deserialize<'a>>(l: &mut Local, name: &str, stack: &[Shape], case: u64) {
    let mut r = l.rng(case);
    let seed = r.u64();
    let make = |without| {
        let mut d = Doc { r: Rng::new(seed), stack, must: 0, without, left: 40, pieces: vec![] };
        let j = d.thing();
        (j, d.must, d.pieces)
    };
    let (doc, must, pieces) = make(None);
    l.seen(doc.hash());
    for p in &pieces {
        l.count(format!("{name}.{}", PART[*p]));
    }
    let parse = |j: &J, r: &mut Rng| -> Result<Thing<P>, String> {
        let mut j = j.clone();
        shuffle_keys(&mut j, r);
        match r.below(3) {
            0 => serde_json::from_value(to_value(&j)).map_err(|e| e.to_string()),
            1 => serde_json::from_str(&write_noisy(&j, r)).map_err(|e| e.to_string()),
            _ => serde_json::from_slice(j.to_text().as_bytes()).map_err(|e| e.to_string()),
        }
    };
    l.doing = format!("{name} {}", doc.to_text());
    let t = match parse(&doc, &mut r) {
        Ok(t) => t,
        Err(e) => return l.fail("shape-rejected", e),
    };
    written(l, &doc, &t);
    if must > 0 {
        let i = r.below(must);
        let (j, ..) = make(Some(i));
        l.doing = format!("{name} without the member {i}: {}", j.to_text());
        match parse(&j, &mut r) {
            Err(_) => l.count("missing member refused"),
            Ok(t) => {
                let back = serde_json::to_string(&t).unwrap_or_default();
                l.fail("shape-made-up", format!("an extension is read although a member it needs is missing; it is written as {}", oneline(&back, 1500)));
            }
        }
    }
}
fn written<P: ExtendableThing + Serialize>(l: &mut Local, doc: &J, t: &Thing<P>) {
    match serde_json::to_string(t).map_err(|e| e.to_string()).and_then(|x| read(&x)) {
        Err(e) => l.fail("shape-serialize", e),
        Ok(got) => {
            if let Some(d) = diff(doc, &got) {
                l.fail("shape-written", d);
            }
        }
    }
    match serde_json::to_value(t) {
        Err(e) => l.fail("shape-serialize", e.to_string()),
        Ok(got) => {
            if let Some(d) = diff(doc, &crate::json::from_value(&got)) {
                l.fail("shape-value", d);
            }
        }
    }
    l.count("compared");
}

/// A Thing with every part marked, out of the builders.
fn marked(l: &mut Local, r: &mut Rng) {
    let ds = |o: &mut J, ty: &str| {
        o.put("readOnly", J::Bool(false));
        o.put("writeOnly", J::Bool(false));
        o.put("type", js(ty));
        o.put("mark:ds", J::Bool(true));
        match ty {
            "array" => o.put("mark:arr", J::Bool(true)),
            "object" => o.put("mark:obj", J::Bool(true)),
            _ => {}
        }
    };
    let m = |o: &mut J, p: &str| o.put(format!("mark:{p}"), J::Bool(true));
    let mut leaf = J::obj();
    ds(&mut leaf, "boolean");
    let mut arr = J::obj();
    ds(&mut arr, "array");
    let tuple = r.coin();
    arr.put("items", if tuple { J::Arr(vec![leaf.clone(), leaf.clone()]) } else { leaf.clone() });
    let mut obj = J::obj();
    ds(&mut obj, "object");
    let mut ps = J::obj();
    ps.put("x", arr.clone());
    obj.put("properties", ps);
    let form = |op: &str| {
        let mut f = J::obj();
        f.put("op", J::Arr(vec![js(op)]));
        f.put("href", js("/x"));
        let mut e = J::obj();
        e.put("contentType", js("a/b"));
        e.put("mark:resp", J::Bool(true));
        f.put("response", e);
        f.put("mark:form", J::Bool(true));
        f
    };
    let mut doc = J::obj();
    doc.put("@context", js("https://www.w3.org/2022/wot/td/v1.1"));
    doc.put("title", js("marked"));
    doc.put("security", js("nosec"));
    let mut n = J::obj();
    n.put("scheme", js("nosec"));
    let mut sd = J::obj();
    sd.put("nosec", n);
    doc.put("securityDefinitions", sd);
    m(&mut doc, "thing");
    let mut fa = form("readallproperties");
    fa.remove("response");
    doc.put("forms", J::Arr(vec![fa]));
    let mut p = obj.clone();
    p.put("forms", J::Arr(vec![form("readproperty")]));
    m(&mut p, "ia");
    m(&mut p, "prop");
    let mut q = J::obj();
    q.put("p", p);
    doc.put("properties", q);
    let mut a = J::obj();
    a.put("forms", J::Arr(vec![]));
    a.put("input", obj.clone());
    a.put("output", arr.clone());
    a.put("safe", J::Bool(false));
    a.put("idempotent", J::Bool(false));
    m(&mut a, "ia");
    m(&mut a, "act");
    let mut q = J::obj();
    q.put("a", a);
    doc.put("actions", q);
    let mut e = J::obj();
    e.put("forms", J::Arr(vec![]));
    e.put("data", arr.clone());
    m(&mut e, "ia");
    m(&mut e, "evt");
    let mut q = J::obj();
    q.put("e", e);
    doc.put("events", q);
    let mut q = J::obj();
    q.put("d", arr.clone());
    doc.put("schemaDefinitions", q);

    l.doing = format!("marked, built: {}", doc.to_text());
    l.seen(doc.hash());
    macro_rules! thing {
        ($arr:expr) => {
            Thing::builder("marked")
                .ext(Mark)
                .finish_extend()
                .form(|b| b.ext(Mark).href("/x").op(FormOperation::ReadAllProperties))
                .property("p", |b| {
                    b.ext_interaction(Mark)
                        .ext(Mark)
                        .ext_data_schema(Mark)
                        .finish_extend_data_schema()
                        .object_ext(|b| b.ext(Mark))
                        .property("x", false, $arr)
                        .form(|b| b.href("/x").ext_with(|| Mark).response("a/b", |b| b.ext(Mark)).op(FormOperation::ReadProperty))
                })
                .action("a", |b| {
                    b.ext_interaction_with(|| Mark)
                        .ext(Mark)
                        .input(|b| b.ext(Mark).finish_extend().object_ext(|b| b.ext(Mark)).property("x", false, $arr))
                        .output($arr)
                })
                .event("e", |b| b.ext_interaction(Mark).ext_with(|| Mark).data($arr))
                .schema_definition("d", $arr)
                .security(|b| b.no_sec().required())
                .build()
        };
    }
    let t = if tuple {
        thing!(|b| b.ext(Mark)
            .finish_extend()
            .tuple_ext(|b| b.ext(Mark))
            .append(|b| b.ext(Mark).finish_extend().bool())
            .append(|b| b.ext_with(|| Mark).finish_extend().bool()))
    } else {
        thing!(|b| b.ext_with(|| Mark).finish_extend().vec_ext(|b| b.ext_with(|| Mark)).set_item(|b| b.ext(Mark).finish_extend().bool()))
    };
    match t {
        Err(e) => l.fail("shape-built-rejected", format!("{e:?}")),
        Ok(t) => {
            written(l, &doc, &t);
            l.count("built");
        }
    }
}

type One<T> = Cons<T, Nil>;
type Two<T, U> = Cons<T, Cons<U, Nil>>;
type Three = Cons<OptThing, Cons<Mark<THING>, Cons<TagThing, Nil>>>;
pub fn shapes(l: &mut Local, case: u64) {
    let k = case / 9;
    match case % 9 {
        0 => through::<One<Mark<THING>>>(l, "mark", &[Marked], k),
        1 => through::<Mark<THING>>(l, "mark direct", &[Marked], k),
        2 => through::<One<TagThing>>(l, "tag", &[Tagged], k),
        3 => through::<One<OptThing>>(l, "opt", &[Optional], k),
        4 => through::<Two<TagThing, Mark<THING>>>(l, "tag+mark", &[Tagged, Marked], k),
        5 => through::<Two<Mark<THING>, OptThing>>(l, "mark+opt", &[Marked, Optional], k),
        6 => through::<Two<wot_td::protocol::http::HttpProtocol, Mark<THING>>>(l, "http+mark", &[Marked], k),
        7 => through::<Three>(l, "three", &[Optional, Marked, Tagged], k),
        _ => {
            let mut r = l.rng(k);
            marked(l, &mut r)
        }
    }
}
