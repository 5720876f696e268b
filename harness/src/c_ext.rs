//! P11: extension data stays in the part it was attached to; list laws.
use crate::conv::*;
use crate::drive::*;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::json::{diff, read, shuffle_keys, s as js, to_value, J};
use crate::model::*;
use crate::rng::hash_bytes;
use crate::{for_bprof, for_profile};
use serde::{Deserialize, Serialize};
use wot_td::hlist::{Cons, HListMut, HListRef, Nil, NonEmptyHList};
use wot_td::thing::Thing;

/// Keeps what `pick` selects, at its place, and nothing else.
fn project(j: &J, pick: &dyn Fn(&str) -> bool) -> Option<J> {
    let mut o = J::obj();
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                if pick(k) {
                    o.put(k.clone(), x.clone());
                } else if let Some(y) = project(x, pick) {
                    o.put(k.clone(), y);
                }
            }
        }
        J::Arr(v) => {
            for (i, x) in v.iter().enumerate() {
                if let Some(y) = project(x, pick) {
                    o.put(i.to_string(), y);
                }
            }
        }
        _ => {}
    }
    match &o {
        J::Obj(v) if v.is_empty() => None,
        _ => Some(o),
    }
}
fn held(m: &MThing) -> J {
    project(&dump(m), &|k| k == "ext").unwrap_or_else(J::obj)
}
const PREFIXES: [&str; 5] = ["ua:", "ub:", "htv:", "cov:", "mqv:"];
fn written(j: &J) -> J {
    project(j, &|k| PREFIXES.iter().any(|p| k.starts_with(p))).unwrap_or_else(J::obj)
}

/// Extension pieces present, by the part they belong to.
fn tally(l: &mut Local, j: &J, at: &str) {
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                if k == "ext" {
                    if let J::Arr(e) = x {
                        for _ in e {
                            l.count(format!("piece.{at}"));
                        }
                    }
                } else {
                    let skip = k.is_empty() || !["ia", "ds", "sub", "Arr", "Obj", "forms", "resp", "properties", "actions", "events", "items", "one_of", "props"].contains(&k.as_str());
                    tally(l, x, if skip { at } else { k });
                }
            }
        }
        J::Arr(v) => v.iter().for_each(|x| tally(l, x, at)),
        _ => {}
    }
}

/// Judges a Thing against the extension data it was given.
fn judge<P: Prof>(l: &mut Local, how: &str, m: &MThing, t: &Thing<P>) {
    let exp = held(m);
    let sig = |k: &str| format!("{how}-{k}");
    if let Some(d) = diff(&exp, &held(&ob_thing(t))) {
        l.fail(sig("held"), d);
    }
    let doc = written(&canon(P::EXTS, m));
    let text = match serde_json::to_string(t) {
        Ok(x) => x,
        Err(e) => return l.fail(sig("serialize"), e.to_string()),
    };
    match read(&text) {
        Err(e) => return l.fail(sig("serialize"), format!("{e}: {}", oneline(&text, 1500))),
        Ok(got) => {
            if let Some(d) = diff(&doc, &written(&got)) {
                l.fail(sig("written"), d);
            }
        }
    }
    l.count(format!("{how}.serialized"));
    match serde_json::from_str::<Thing<P>>(&text) {
        Err(e) => l.fail(sig("reparse"), format!("{e}: {}", oneline(&text, 1500))),
        Ok(u) => {
            if let Some(d) = diff(&exp, &held(&ob_thing(&u))) {
                l.fail(sig("reparsed"), d);
            }
            if &u != t {
                l.fail(sig("unequal"), format!("not equal after a round trip: {}", oneline(&text, 1500)));
            }
            l.count(format!("{how}.reparsed"));
        }
    }
}

fn built<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let m = g.thing();
    let d = dump(&m);
    l.seen(held(&m).hash());
    l.doing = format!("{} {}", P::NAME, d.to_text());
    l.count(format!("profile.{}", P::NAME));
    tally(l, &d, "thing");
    match run::<P>(&Plan::new(m.clone()), r.fork()) {
        Err(e) => l.fail("built-rejected", format!("{e:?}")),
        Ok(t) => judge(l, "built", &m, &t),
    }
    l.sample(|| held(&m).to_text());
}
fn parsed<P: Prof>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Parse);
    let m = g.thing();
    let mut j = noisy(P::EXTS, &m, r.fork(), Noise::ALL);
    shuffle_keys(&mut j, &mut r);
    l.seen(written(&j).hash());
    let text = j.to_text();
    l.doing = text.clone();
    l.count(format!("profile.{}", P::NAME));
    tally(l, &dump(&m), "thing");
    let t = if r.coin() {
        serde_json::from_str::<Thing<P>>(&text)
    } else {
        serde_json::from_value(to_value(&j))
    };
    match t {
        Err(e) => l.fail("parsed-rejected", format!("{e}: {}", oneline(&text, 1500))),
        Ok(t) => judge(l, "parsed", &m, &t),
    }
}
/// Stacks the parsing profiles do not reach: lone protocols and pairs in other orders.
fn parsed_any(l: &mut Local, case: u64) {
    let k = case / 11;
    match case % 11 {
        0..=4 => for_profile!(case, parsed(l, k)),
        5 => parsed::<wot_td::protocol::http::HttpProtocol>(l, k),
        6 => parsed::<wot_td::protocol::coap::CoapProtocol>(l, k),
        7 => parsed::<wot_td::protocol::mqtt::MqttProtocol>(l, k),
        8 => parsed::<PMC>(l, k),
        9 => parsed::<PCH>(l, k),
        _ => parsed::<PUMA>(l, k),
    }
}

// ---- one value in one place --------------------------------------------------------------------

const TOKEN: &str = "the-only-token";
/// Empties every extension piece of a dumped model.
fn blank(j: &mut J) {
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                if k == "ext" {
                    if let J::Arr(e) = x {
                        for p in e {
                            if let J::Obj(v) = p {
                                if let J::Obj(f) = &mut v[0].1 {
                                    for (k, y) in f {
                                        *y = match k.as_str() {
                                            "flag" | "retain" => J::Bool(false),
                                            "list" | "headers" | "filter" => J::Arr(vec![]),
                                            "any" => js("null"),
                                            _ => J::Null,
                                        };
                                    }
                                }
                            }
                        }
                    }
                } else {
                    blank(x);
                }
            }
        }
        J::Arr(v) => v.iter_mut().for_each(blank),
        _ => {}
    }
}
/// Visits every extension piece with content of its own.
fn pieces(j: &mut J, f: &mut dyn FnMut(&str, &mut J)) {
    match j {
        J::Obj(v) => {
            for (k, x) in v {
                if k == "ext" {
                    if let J::Arr(e) = x {
                        for p in e {
                            if let J::Obj(v) = p {
                                let (k, y) = &mut v[0];
                                f(k, y);
                            }
                        }
                    }
                } else {
                    pieces(x, f);
                }
            }
        }
        J::Arr(v) => v.iter_mut().for_each(|x| pieces(x, f)),
        _ => {}
    }
}
fn lone<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let mut d = dump(&g.thing());
    blank(&mut d);
    let mut n = 0;
    pieces(&mut d, &mut |_, _| n += 1);
    if n == 0 {
        return l.seen_trivial();
    }
    let at = r.below(n);
    let mut i = 0;
    let mut text = true;
    let mut kind = String::new();
    pieces(&mut d, &mut |k, p| {
        if i == at {
            kind = k.to_string();
            match k {
                "User" => p.set("text", js(TOKEN)),
                "MqttForm" => p.set("topic", js(TOKEN)),
                "HttpForm" => p.set("method", J::Int(4)),
                "HttpResp" => p.set("status", J::Int(299)),
                _ => p.set("cf", J::Int(54_321)),
            }
            text = k == "User" || k == "MqttForm";
        }
        i += 1;
    });
    l.count(format!("lone.{kind}"));
    let m: MThing = match undump(&d) {
        Ok(m) => m,
        Err(e) => panic!("undump: {e}"),
    };
    l.doing = format!("{} piece {at}: {}", P::NAME, d.to_text());
    l.seen(hash_bytes(l.doing.as_bytes()));
    let once = |l: &mut Local, how: &str, t: &Thing<P>| {
        if !text {
            return;
        }
        let n = serde_json::to_string(t).unwrap_or_default().matches(TOKEN).count();
        if n != 1 {
            l.fail(format!("{how}-copies"), format!("one extension value is written {n} times"));
        }
        l.count("token counted");
    };
    match run::<P>(&Plan::new(m.clone()), r.fork()) {
        Err(e) => l.fail("built-rejected", format!("{e:?}")),
        Ok(t) => {
            judge(l, "built", &m, &t);
            once(l, "built", &t);
        }
    }
    match serde_json::from_str::<Thing<P>>(&canon(P::EXTS, &m).to_text()) {
        Err(e) => l.fail("parsed-rejected", e.to_string()),
        Ok(t) => {
            judge(l, "parsed", &m, &t);
            once(l, "parsed", &t);
        }
    }
}

// ---- list laws ---------------------------------------------------------------------------------

/// Reads a list as text, element by element, head first.
trait Walk {
    fn walk(&self, out: &mut Vec<String>);
}
impl Walk for Nil {
    fn walk(&self, _: &mut Vec<String>) {}
}
impl<T: std::fmt::Debug, U: Walk> Walk for Cons<T, U> {
    fn walk(&self, out: &mut Vec<String>) {
        out.push(format!("{:?}", self.head));
        self.tail.walk(out);
    }
}
fn w(x: &impl Walk) -> Vec<String> {
    let mut v = vec![];
    x.walk(&mut v);
    v
}
trait Bump {
    fn bump(&mut self);
}
macro_rules! elem {
    ($n:ident, $k:literal) => {
        #[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
        struct $n {
            #[serde(rename = $k)]
            v: i64,
        }
        impl Bump for $n {
            fn bump(&mut self) {
                self.v = self.v.wrapping_mul(3).wrapping_add(1);
            }
        }
    };
}
elem!(E0, "a");
elem!(E1, "b");
elem!(E2, "c");
elem!(E3, "d");
elem!(E4, "e");
elem!(E5, "f");
/// Bumps every element through a list of mutable references.
trait BumpAll {
    fn bump_all(self);
}
impl BumpAll for Nil {
    fn bump_all(self) {}
}
impl<T: Bump, U: BumpAll> BumpAll for Cons<&mut T, U> {
    fn bump_all(self) {
        self.head.bump();
        self.tail.bump_all();
    }
}
/// Prepends to any list.
trait Put<T> {
    type To;
    fn put(self, x: T) -> Self::To;
}
impl<T> Put<T> for Nil {
    type To = Cons<T, Nil>;
    fn put(self, x: T) -> Cons<T, Nil> {
        Nil::cons(x)
    }
}
impl<T, A, B> Put<T> for Cons<A, B> {
    type To = Cons<T, Cons<A, B>>;
    fn put(self, x: T) -> Self::To {
        self.cons(x)
    }
}
fn eq(l: &mut Local, sig: &str, a: &[String], b: &[String]) {
    l.count(format!("law.{sig}"));
    if a != b {
        l.fail(format!("list-{sig}"), format!("{a:?} is not {b:?}"));
    }
}
fn texts<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
    v.iter().map(|x| format!("{x:?}")).collect()
}
/// Laws of one list; `want` is its expected reading, head first.
macro_rules! laws {
    ($l:ident, $list:expr, $want:expr, $t:ty) => {{
        let list: $t = $list;
        let want: Vec<String> = $want;
        let n = want.len();
        let rev: Vec<String> = want.iter().rev().cloned().collect();
        eq($l, "cons", &w(&list), &want);
        let copy = list.clone();
        if copy != list {
            $l.fail("list-clone", "a clone is not equal");
        }
        eq($l, "clone", &w(&copy), &want);
        eq($l, "to_ref", &w(&list.to_ref()), &want);
        if list.to_ref() != copy.to_ref() {
            $l.fail("list-to_ref", "views of equal lists are not equal");
        }
        let (h, t) = list.clone().split_head();
        eq($l, "split_head", &[format!("{h:?}")], &want[..1]);
        eq($l, "split_head", &w(&t), &want[1..]);
        if t.put(h) != list {
            $l.fail("list-split_head", "prepending the head again gives another list");
        }
        let (last, init) = list.clone().split_last();
        eq($l, "split_last", &[format!("{last:?}")], &want[n - 1..]);
        eq($l, "split_last", &w(&init), &want[..n - 1]);
        let back = list.clone().reverse();
        eq($l, "reverse", &w(&back), &rev);
        eq($l, "reverse", &w(&back.clone().reverse()), &want);
        if back.reverse() != list {
            $l.fail("list-reverse", "reversing twice gives another list");
        }
        eq($l, "views", &w(&list.to_ref().reverse()), &rev);
        let (last, init) = list.to_ref().split_last();
        eq($l, "views", &[format!("{last:?}")], &want[n - 1..]);
        eq($l, "views", &w(&init), &want[..n - 1]);
        let mut m = list.clone();
        eq($l, "to_mut", &w(&m.to_mut()), &want);
        m.to_mut().bump_all();
        if n > 0 && m == list {
            $l.fail("list-to_mut", "mutations through the view are lost");
        }
        let mut v = serde_json::to_value(&list).unwrap_or_default();
        let all: $t = serde_json::from_value(v.clone()).unwrap_or_default();
        eq($l, "serde", &w(&all), &want);
        if v.as_object().map(|x| x.len()) != Some(n) {
            $l.fail("list-serde", format!("{n} elements written as {v}"));
        }
        // Every element is mandatory.
        let k = v.as_object().and_then(|x| x.keys().next().cloned()).unwrap_or_default();
        v.as_object_mut().map(|x| x.remove(&k));
        if serde_json::from_value::<$t>(v).is_ok() {
            $l.fail("list-serde", "a list is read although an element is missing");
        }
        (list, m)
    }};
}
fn list_case(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut x = || match r.below(4) {
        0 => r.below(3) as i64,
        1 => i64::MAX - r.below(2) as i64,
        _ => r.u64() as i64,
    };
    let v: [i64; 6] = [x(), x(), x(), x(), x(), x()];
    l.doing = format!("{v:?}");
    l.seen(hash_bytes(l.doing.as_bytes()));
    let e = (E0 { v: v[0] }, E1 { v: v[1] }, E2 { v: v[2] }, E3 { v: v[3] }, E4 { v: v[4] }, E5 { v: v[5] });
    let t = [format!("{:?}", e.0), format!("{:?}", e.1), format!("{:?}", e.2), format!("{:?}", e.3), format!("{:?}", e.4), format!("{:?}", e.5)];
    let want = |n: usize| -> Vec<String> { t[..n].iter().rev().cloned().collect() };
    type L1 = Cons<E0>;
    type L2 = Cons<E1, L1>;
    type L3 = Cons<E2, L2>;
    type L4 = Cons<E3, L3>;
    type L5 = Cons<E4, L4>;
    type L6 = Cons<E5, L5>;
    let (l1, _) = laws!(l, Nil::cons(e.0), want(1), L1);
    let (l2, _) = laws!(l, l1.clone().cons(e.1), want(2), L2);
    let (l3, _) = laws!(l, l2.cons(e.2), want(3), L3);
    let (l4, _) = laws!(l, l3.cons(e.3), want(4), L4);
    let (l5, _) = laws!(l, l4.cons(e.4), want(5), L5);
    let (l6, m6) = laws!(l, l5.cons(e.5), want(6), L6);
    // Mutation through the view reaches each element exactly once.
    let bumped: Vec<String> = {
        let mut c = l6.clone();
        c.head.bump();
        c.tail.head.bump();
        c.tail.tail.head.bump();
        c.tail.tail.tail.head.bump();
        c.tail.tail.tail.tail.head.bump();
        c.tail.tail.tail.tail.tail.head.bump();
        w(&c)
    };
    eq(l, "to_mut", &w(&m6), &bumped);
    // Elements of one type: nothing but order tells them apart.
    let same = Nil::cons(v[0]).cons(v[1]).cons(v[2]).cons(v[3]).cons(v[4]);
    let mut h = texts(&v[..5]);
    eq(l, "same-reverse", &w(&same.reverse()), &h);
    h.reverse();
    eq(l, "same", &w(&same), &h);
    eq(l, "same-to_ref", &w(&same.to_ref()), &h);
    let (last, init) = same.split_last();
    if last != v[0] {
        l.fail("list-split_last", format!("{last} is not {}", v[0]));
    }
    eq(l, "same-init", &w(&init), &h[..4]);
    let ne = |i: usize| {
        let mut u = v;
        u[i] = u[i].wrapping_add(1);
        Nil::cons(u[0]).cons(u[1]).cons(u[2]).cons(u[3]).cons(u[4])
    };
    for i in 0..5 {
        if ne(i) == same {
            l.fail("list-eq", format!("lists differing in element {i} are equal"));
        }
        let x = ne(i);
        if x.to_ref() == same.to_ref() {
            l.fail("list-eq", format!("views of lists differing in element {i} are equal"));
        }
    }
    // Nothing.
    let nil: Nil = ().into();
    let () = nil.into();
    let got = (
        nil == Nil,
        Nil == Nil::default(),
        w(&nil.to_ref()).len(),
        serde_json::to_string(&nil).ok(),
        serde_json::from_str::<Nil>("{}").ok(),
        serde_json::from_str::<Nil>(r#"{"other":[1]}"#).ok(),
        serde_json::from_str::<Nil>("3").is_err(),
    );
    if got != (true, true, 0, Some("{}".into()), Some(Nil), Some(Nil), true) {
        l.fail("list-nil", format!("{got:?}"));
    }
    let mut n = Nil;
    if n.to_mut() != Nil {
        l.fail("list-nil", "mutable view");
    }
    l.count("law.nil");
    // The builders' own way to stack.
    use wot_td::extend::{Extend, Extendable};
    let _: Nil = <L3 as Extendable>::empty();
    let _: Nil = <Nil as Extendable>::empty();
    let x = <L3 as Extendable>::empty().ext(v[0]).ext_with(|| v[1]).ext(v[2]);
    h = texts(&[v[2], v[1], v[0]]);
    eq(l, "ext", &w(&x), &h);
}

pub fn p11(t: Tier) -> Check {
    Check {
        pid: "P11",
        rule: "Random Things over every extension stack, built through random builder programs or parsed from noisy \
               documents; only extension data is projected out of the public fields, out of the serialized document and \
               out of the reparsed Thing, each compared with the model's. In the lone phase a single extension value sits \
               in one randomly chosen part. In the shapes phase every part carries extension types without data that write a \
               constant member, tagged enums and optional structs, in canonical documents that have to come back as they \
               are and that are refused when a member such a type needs is left out of one part. List laws on lists of up to six elements of different and of equal types. \
               distinct counts different arrangements of extension data.",
        assumptions: vec!["extension types used have member names of their own, as the crate's flattening requires"],
        stack: 32 << 20,
        must_see: vec![
            "built.serialized",
            "parsed.reparsed",
            "built.reparsed",
            "profile.stacked",
            "profile.bindings",
            "profile.user+mqtt+user",
            "profile.direct",
            "profile.mqtt+coap",
            "token counted",
            "lone.User",
            "lone.HttpForm",
            "lone.HttpResp",
            "lone.CoapForm",
            "lone.MqttForm",
            "law.reverse",
            "law.split_last",
            "law.to_mut",
            "law.nil",
            "mark.arr",
            "mark direct.obj",
            "tag.resp",
            "opt.prop",
            "three.form",
            "missing member refused",
            "built",
        ],
        phases: vec![
            phase("built", t.n(8_000, 250_000), |l, c| for_bprof!(c, built(l, c))),
            phase("parsed", t.n(16_000, 400_000), parsed_any),
            phase("lone", t.n(20_000, 400_000), |l, c| for_bprof!(c, lone(l, c))),
            phase("shapes", t.n(9_000, 180_000), crate::c_shapes::shapes),
            phase("lists", t.n(5_000, 100_000), list_case),
        ],
    }
}

