//! P04..P09: the builder keeps what it is given, and refuses exactly the inconsistent.
use crate::conv::*;
use crate::drive::*;
use crate::faults::*;
use crate::for_bprof;
use crate::fw::*;
use crate::gen::{Gen, Mode, BAD_LANGS, LANGS};
use crate::json::{diff, s as js, J};
use crate::model::*;
use crate::rng::Rng;
use wot_td::builder::Error;
use wot_td::hlist::Nil;
use wot_td::thing::Thing;

// ---- P04 ---------------------------------------------------------------------------------------

fn tally(l: &mut Local, m: &MThing) {
    let mut p = Plan::new(m.clone());
    let mut v = vec![];
    each_ds_mut(&mut p, &mut |_, d| {
        let k = match (&d.constant, &d.one_of, &d.enumeration, &d.sub) {
            (Some(_), ..) => "constant",
            (_, Some(_), ..) => "oneOf",
            (_, _, Some(_), _) => "enum",
            (.., Some(MSub::Bool)) => "boolean",
            (.., Some(MSub::Null)) => "null",
            (.., Some(MSub::Num { .. })) => "number",
            (.., Some(MSub::Int { .. })) => "integer",
            (.., Some(MSub::Str { .. })) => "string",
            (.., Some(MSub::Obj { .. })) => "object",
            (.., Some(MSub::Arr { items: Some(MItems::Many(_)), .. })) => "tuple",
            (.., Some(MSub::Arr { .. })) => "array",
            _ => "bare",
        };
        let a = if d.ro {
            "readOnly"
        } else if d.wo {
            "writeOnly"
        } else {
            "plain"
        };
        v.push(format!("schema.{k}.{a}"));
    });
    for k in v {
        l.count(k);
    }
    let mut n = [0; 4];
    each_form_mut(&mut p, &mut |place, _| {
        n[["thing", "property", "action", "event"].iter().position(|x| *x == place).expect("place")] += 1
    });
    for (k, n) in ["thing", "property", "action", "event"].iter().zip(n) {
        l.add(format!("form.{k}"), n);
    }
    l.add("links", m.links.iter().flatten().count() as u64);
    for d in m.secdefs.values() {
        l.count(format!("security.{}", if matches!(d.sub, MSecSub::Custom { .. }) { "custom" } else { d.sub.scheme() }));
    }
}

fn p04_case<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let m = g.thing();
    let exp = dump(&m);
    l.seen(exp.hash());
    l.doing = format!("{} {}", P::NAME, exp.to_text());
    l.count(format!("profile.{}", P::NAME));
    tally(l, &m);
    let plan = Plan::new(m);
    let mut first: Option<Thing<P>> = None;
    for _ in 0..3 {
        match run::<P>(&plan, r.fork()) {
            Err(e) => l.fail("rejected", format!("valid calls rejected: {e:?}")),
            Ok(t) => {
                if let Some(d) = diff(&exp, &dump(&ob_thing(&t))) {
                    l.fail("content", d);
                }
                l.count("built");
                match &first {
                    Some(x) if *x != t => l.fail("order", "two orders of the same calls give unequal things"),
                    Some(_) => l.count("orders compared"),
                    None => first = Some(t),
                }
            }
        }
    }
    l.sample(|| exp.to_text());
}
/// Each call alone, then each pair of calls, on otherwise empty builders.
fn p04_sparse(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), &[], Mode::Build);
    g.density = 8;
    g.fuel = 60;
    let full = g.thing();
    g.density = 0;
    let mut m = g.thing();
    m.info.title = full.info.title.clone();
    m.secdefs.clear();
    m.security.clear();
    let n = r.range(1, 2);
    for _ in 0..n {
        match r.below(17) {
            0 => m.id = full.id.clone(),
            1 => m.info.attype = full.info.attype.clone(),
            2 => m.info.titles = full.info.titles.clone(),
            3 => m.info.description = full.info.description.clone(),
            4 => m.info.descriptions = full.info.descriptions.clone(),
            5 => m.version = full.version.clone(),
            6 => m.created = full.created,
            7 => m.modified = full.modified,
            8 => m.support = full.support.clone(),
            9 => m.base = full.base.clone(),
            10 => m.links = full.links.clone(),
            11 => m.profile = full.profile.clone(),
            12 => m.schemas = full.schemas.clone(),
            13 => m.uri = full.uri.clone(),
            14 => m.context = full.context.clone(),
            15 => {
                for (k, d) in &full.secdefs {
                    if !matches!(d.sub, MSecSub::OneOf(_) | MSecSub::AllOf(_)) && r.coin() {
                        m.secdefs.insert(k.clone(), d.clone());
                    }
                }
                m.security = full.security.iter().filter(|k| m.secdefs.contains_key(*k)).cloned().collect();
            }
            _ => {
                let k = r.below(9);
                m.forms = Some(vec![MForm {
                    op: Some(vec![THING_OPS[k]]),
                    href: "/".into(),
                    ..Default::default()
                }]);
            }
        }
    }
    let exp = dump(&m);
    l.seen(exp.hash());
    l.doing = exp.to_text();
    match run::<Nil>(&Plan::new(m), r.fork()) {
        Err(e) => l.fail("rejected", format!("valid calls rejected: {e:?}")),
        Ok(t) => {
            if let Some(d) = diff(&exp, &dump(&ob_thing(&t))) {
                l.fail("content", d);
            }
            l.count("sparse built");
        }
    }
}
pub fn p04(t: Tier) -> Check {
    Check {
        pid: "P04",
        rule: "A random model is turned three times into a random builder program: calls are interleaved at random over \
               every builder stage (before and after extensions, type and href are chosen), some single-valued setters \
               are first called with a value to be overwritten. The built Thing's public fields must dump to exactly \
               the model, and the three Things must be equal.",
        assumptions: vec!["translations, tags and references are valid; P05 to P09 cover faulty content"],
        stack: 256 << 20,
        must_see: vec![
            "built",
            "orders compared",
            "sparse built",
            "schema.tuple.writeOnly",
            "schema.constant.readOnly",
            "schema.enum.writeOnly",
            "schema.oneOf.plain",
            "form.thing",
            "form.event",
            "security.combo",
            "security.custom",
            "links",
        ],
        phases: vec![
            phase("programs", t.n(12_000, 400_000), |l, c| for_bprof!(c, p04_case(l, c))),
            phase("sparse programs", t.n(20_000, 400_000), p04_sparse),
        ],
    }
}

// ---- P05..P09 ----------------------------------------------------------------------------------

type Inject = fn(&mut Plan, &mut Gen) -> Option<String>;
type View = fn(&MThing) -> J;

/// Judges one build against the errors the plan deserves.
fn judge<P: BProf>(l: &mut Local, plan: &Plan, r: Rng, view: View) {
    let want = violations(plan);
    match run::<P>(plan, r) {
        Ok(t) => {
            if !want.is_empty() {
                l.fail("accepted", format!("built although it deserves {want:?}"));
                return;
            }
            l.count("accepted");
            let exp = view(&fold_tags(merged(plan)));
            if let Some(d) = diff(&exp, &view(&fold_tags(ob_thing(&t)))) {
                l.fail("content", d);
            }
        }
        Err(e) => {
            if want.is_empty() {
                l.fail("rejected", format!("faultless input rejected with {e:?}"));
            } else if !want.iter().any(|v| v.matches(&e)) {
                l.fail("wrong-error", format!("error is {e:?}, expected one of {want:?}"));
            } else {
                l.count(format!("refused.{}", ename(&e)));
                l.count("refused");
            }
        }
    }
}
fn ename(e: &Error) -> String {
    let t = format!("{e:?}");
    t.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("").to_string()
}
fn faulty<P: BProf>(l: &mut Local, case: u64, inject: Inject, view: View) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let mut plan = Plan::new(g.thing());
    for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 1, 2, 2, 3]) {
        if let Some(what) = inject(&mut plan, &mut g) {
            l.count(format!("injected.{what}"));
        }
    }
    let d = dump(&plan);
    l.seen(d.hash());
    l.doing = format!("{} {}", P::NAME, d.to_text());
    judge::<P>(l, &plan, r.fork(), view);
    l.sample(|| format!("deserves {:?}: {}", violations(&plan), d.to_text()));
}
fn tiny() -> MThing {
    MThing {
        context: js(CTX11),
        id: None,
        info: Info {
            title: Some("t".into()),
            ..Default::default()
        },
        version: None,
        created: None,
        modified: None,
        support: None,
        base: None,
        properties: None,
        actions: None,
        events: None,
        links: None,
        forms: None,
        security: vec![],
        secdefs: Map::new(),
        uri: None,
        profile: None,
        schemas: None,
        ext: vec![],
    }
}
fn bool_ds() -> MDs {
    MDs {
        sub: Some(MSub::Bool),
        ..Default::default()
    }
}
fn tiny_prop(forms: Vec<MForm>) -> MProp {
    MProp {
        ia: MIa {
            forms,
            ..Default::default()
        },
        ds: bool_ds(),
        ..Default::default()
    }
}
const PLACES: [&str; 4] = ["thing", "property", "action", "event"];
/// Puts forms in one of the four places.
fn place_forms(t: &mut MThing, place: usize, name: &str, forms: Vec<MForm>) {
    let ia = MIa {
        forms,
        ..Default::default()
    };
    match place {
        0 => t.forms = Some(ia.forms),
        1 => t
            .properties
            .get_or_insert_with(Map::new)
            .insert(name.into(), tiny_prop(ia.forms))
            .map_or((), |_| ()),
        2 => t
            .actions
            .get_or_insert_with(Map::new)
            .insert(name.into(), MAct { ia, ..Default::default() })
            .map_or((), |_| ()),
        _ => t
            .events
            .get_or_insert_with(Map::new)
            .insert(name.into(), MEvt { ia, ..Default::default() })
            .map_or((), |_| ()),
    }
}
fn legal(place: usize) -> &'static [usize] {
    [&THING_OPS[..], &PROP_OPS, &ACT_OPS, &EVT_OPS][place]
}
fn tform(place: usize) -> MForm {
    MForm {
        op: (place == 0).then(|| vec![9]),
        href: "/".into(),
        ..Default::default()
    }
}

// P05

fn view_sec(t: &MThing) -> J {
    let mut p = Plan::new(t.clone());
    let mut v = vec![];
    each_form_mut(&mut p, &mut |l, f| v.push(format!("{l} {} {:?}", f.href, f.sec)));
    v.sort();
    let mut o = J::obj();
    o.put("security", J::Arr(t.security.iter().map(js).collect()));
    o.put("definitions", J::Arr(t.secdefs.keys().map(js).collect()));
    o.put("forms", J::Arr(v.into_iter().map(js).collect()));
    o
}
fn sec_of(sub: MSecSub) -> MSec {
    MSec {
        attype: None,
        description: None,
        descriptions: None,
        proxy: None,
        sub,
    }
}
/// Three names, defined or not, clashing or not, one of them a combination; one form reference list.
fn p05_small(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut c = case as usize;
    let mut take = |n: usize| {
        let x = c % n;
        c /= n;
        x
    };
    let names = ["a", "b", "c", "d"];
    let mut plan = Plan::new(tiny());
    let t = &mut plan.t;
    let place = take(4);
    let refs = take(16);
    for n in ["a", "b"] {
        let k = take(3);
        if k > 0 {
            t.secdefs.insert(n.into(), sec_of(MSecSub::NoSec));
        }
        if k > 1 {
            plan.secs.push((n.into(), sec_of(MSecSub::Auto)));
        }
    }
    let k = take(31);
    if k > 0 {
        let members: Vec<String> = (0..4).filter(|i| (k.min(30) + 1) / 2 >> i & 1 == 1).map(|i| names[i].into()).collect();
        let sub = if k % 2 == 0 {
            MSecSub::OneOf(members)
        } else {
            MSecSub::AllOf(members)
        };
        t.secdefs.insert("c".into(), sec_of(sub));
    }
    let sec: Vec<String> = (0..4).filter(|i| refs >> i & 1 == 1).map(|i| names[i].into()).collect();
    let f = MForm {
        sec: (!sec.is_empty()).then_some(sec),
        ..tform(place)
    };
    let forms = match r.below(3) {
        0 => vec![f],
        1 => vec![tform(place), f],
        _ => vec![f, tform(place)],
    };
    place_forms(t, place, "x", forms);
    for k in t.secdefs.keys() {
        if r.coin() {
            t.security.push(k.clone());
        }
    }
    r.shuffle(&mut t.security);
    l.seen(dump(&plan).hash());
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r.fork(), view_sec);
}
pub fn p05(t: Tier) -> Check {
    Check {
        pid: "P05",
        rule: "Build outcome against the set of security faults of the plan (undefined names in forms and \
               combinations, clashing definitions): none means the build succeeds with exactly the required list and \
               definitions; otherwise it fails with an error naming one of the faults. A small universe of three \
               definitions, combinations over four names and reference lists is enumerated at the four form places; \
               random plans get up to three faults or near-faults at random places.",
        assumptions: vec!["an undefined name inside a combination may be reported as undefined security or schema"],
        stack: 256 << 20,
        must_see: vec!["accepted", "refused.UndefinedSecurity", "refused.DuplicatedSecurityDefinition"],
        phases: vec![
            exhaustive("small universe", 4 * 16 * 9 * 31, p05_small),
            phase("random", t.n(30_000, 800_000), |l, c| {
                for_bprof!(c, faulty(l, c, inject_security, view_sec))
            }),
        ],
    }
}

// P06

fn view_ops(t: &MThing) -> J {
    let mut p = Plan::new(t.clone());
    let mut v = vec![];
    each_form_mut(&mut p, &mut |l, f| v.push(js(format!("{l} {} {:?}", f.href, f.op))));
    J::Arr(v)
}
/// Every set of operations in every place.
fn p06_subsets(l: &mut Local, case: u64) {
    let place = (case % 4) as usize;
    let set = case / 4;
    let mut ops: Vec<usize> = (0..18).filter(|i| set >> i & 1 == 1).collect();
    let mut r = l.rng(case);
    r.shuffle(&mut ops);
    let wrong = ops.iter().any(|o| !legal(place).contains(o));
    let mut plan = Plan::new(tiny());
    let f = MForm {
        op: (!ops.is_empty()).then_some(ops),
        href: "/".into(),
        ..Default::default()
    };
    place_forms(&mut plan.t, place, "x", vec![f]);
    l.seen(case);
    l.doing = dump(&plan).to_text();
    l.count(format!("{}.{}", PLACES[place], if wrong { "illegal" } else { "legal" }));
    judge::<Nil>(l, &plan, r, view_ops);
}
/// One offending operation: place, operation, length of the legal list around it, position, form index.
fn p06_position(l: &mut Local, case: u64) {
    let mut c = case as usize;
    let mut take = |n: usize| {
        let x = c % n;
        c /= n;
        x
    };
    let (place, op, len, index, total) = (take(4), take(18), take(4), take(3), take(2));
    let mut r = l.rng(case);
    let total = index + 1 + total;
    let mut plan = Plan::new(tiny());
    let forms: Vec<MForm> = (0..total)
        .map(|i| {
            let mut ops: Vec<usize> = (0..len.max(1)).map(|_| *r.pick(legal(place))).collect();
            if i == index {
                let at = r.below(ops.len() + 1);
                ops.insert(at, op);
            }
            MForm {
                op: Some(ops),
                href: format!("/{i}"),
                ..Default::default()
            }
        })
        .collect();
    place_forms(&mut plan.t, place, "x", forms);
    // Innocent neighbours.
    for other in 1..4 {
        if other != place && r.coin() {
            let f = tform(other);
            place_forms(&mut plan.t, other, "y", vec![f]);
        }
    }
    l.seen(dump(&plan).hash());
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r, view_ops);
}
pub fn p06(t: Tier) -> Check {
    Check {
        pid: "P06",
        rule: "Build outcome against a table of which operations are legal in which place: every subset of the 18 \
               operations in every place (random order), every single offending operation at every form index, and \
               random plans with operations replaced, added or removed. Legal forms must build with their operations \
               in order; otherwise the error must carry one of the offending operations and the right place.",
        assumptions: vec![],
        stack: 256 << 20,
        must_see: vec![
            "accepted",
            "refused.InvalidOpInForm",
            "refused.MissingOpInForm",
            "thing.legal",
            "property.legal",
            "action.legal",
            "event.legal",
        ],
        phases: vec![
            exhaustive("every set of operations", 4 << 18, p06_subsets),
            exhaustive("one operation", 4 * 18 * 4 * 3 * 2, p06_position),
            phase("random", t.n(20_000, 600_000), |l, c| {
                for_bprof!(c, faulty(l, c, inject_op, view_ops))
            }),
        ],
    }
}

// P07

fn view_num(t: &MThing) -> J {
    let mut p = Plan::new(t.clone());
    let mut v = vec![];
    each_ds_mut(&mut p, &mut |l, d| {
        v.push(js(match &d.sub {
            Some(MSub::Num { min, max, mult }) => format!("{l} {min:?} {max:?} {mult:?}"),
            Some(MSub::Int { min, max, mult }) => format!("{l} {min:?} {max:?} {mult:?}"),
            Some(MSub::Arr { min, max, .. }) => format!("{l} {min:?} {max:?}"),
            _ => return,
        }))
    });
    J::Arr(v)
}
/// Constraints of every kind, faulty and not.
fn grid() -> Vec<MSub> {
    let mut out = vec![];
    let fs = [
        0.0, -0.0, 1.0, 1.0000000000000002, -1.0, f64::MAX, f64::MIN, 5e-324, f64::INFINITY, f64::NEG_INFINITY,
        f64::NAN,
    ];
    let kinds = |x: f64| {
        // An exclusive infinite bound excludes everything; left open.
        if x.is_infinite() {
            vec![Bd::In(x)]
        } else {
            vec![Bd::In(x), Bd::Ex(x)]
        }
    };
    for a in fs {
        for ka in kinds(a) {
            out.push(MSub::Num { min: Some(ka.clone()), max: None, mult: None });
            out.push(MSub::Num { min: None, max: Some(ka.clone()), mult: None });
            for b in fs {
                for kb in kinds(b) {
                    out.push(MSub::Num { min: Some(ka.clone()), max: Some(kb), mult: None });
                }
            }
        }
    }
    for m in [0.0, -0.0, -1.0, 1.0, 0.1, f64::NAN, 5e-324, -5e-324, f64::MAX, f64::MIN] {
        out.push(MSub::Num { min: None, max: None, mult: Some(m) });
        out.push(MSub::Num { min: Some(Bd::In(0.0)), max: Some(Bd::Ex(1.0)), mult: Some(m) });
    }
    let is = [0, 2, -2, i64::MAX, i64::MAX - 2, i64::MIN, i64::MIN + 2];
    for a in is {
        for b in is {
            for (ea, eb) in [(false, false), (true, false), (false, true), (true, true)] {
                let mk = |x, e| if e { Bd::Ex(x) } else { Bd::In(x) };
                out.push(MSub::Int { min: Some(mk(a, ea)), max: Some(mk(b, eb)), mult: None });
            }
        }
    }
    let us = [None, Some(0), Some(1), Some(2), Some(u32::MAX - 1), Some(u32::MAX)];
    for min in us {
        for max in us {
            out.push(MSub::Arr { items: None, min, max, ext: vec![] });
        }
    }
    out
}
/// The whole grid at a simple property.
fn p07_grid(l: &mut Local, case: u64) {
    let g = grid();
    let sub = g[case as usize % g.len()].clone();
    let mut r = l.rng(case);
    let mut p = tiny_prop(vec![]);
    p.ds.sub = Some(sub);
    match case as usize / g.len() {
        0 => {}
        1 => p.ds.ro = true,
        _ => p.ds.wo = true,
    }
    let mut plan = Plan::new(tiny());
    plan.t.properties = Some([("x".to_string(), p)].into());
    l.seen(dump(&plan).hash() ^ case);
    l.doing = format!("{:?}", plan.t.properties);
    judge::<Nil>(l, &plan, r.fork(), view_num);
}
fn faults() -> Vec<MSub> {
    let num = |min, max, mult| MSub::Num { min, max, mult };
    let arr = |a, b| MSub::Arr { items: None, min: Some(a), max: Some(b), ext: vec![] };
    let int = |a, b| MSub::Int { min: Some(a), max: Some(b), mult: None };
    vec![
        num(Some(Bd::In(2.0)), Some(Bd::In(1.0)), None),
        num(Some(Bd::In(1.0)), Some(Bd::Ex(1.0)), None),
        num(Some(Bd::Ex(1.0)), Some(Bd::In(1.0)), None),
        num(Some(Bd::In(f64::NAN)), None, None),
        num(None, Some(Bd::Ex(f64::NAN)), None),
        num(None, None, Some(0.0)),
        num(None, None, Some(f64::NAN)),
        num(None, None, Some(-1.5)),
        int(Bd::In(2), Bd::In(1)),
        int(Bd::Ex(1), Bd::In(1)),
        // Borderline but satisfiable.
        num(Some(Bd::In(1.0)), Some(Bd::In(1.0)), Some(5e-324)),
        int(Bd::In(1), Bd::In(1)),
        arr(1, 1),
        arr(2, 1),
    ]
}
/// Every fault in every position of a description that has one of every position.
fn p07_everywhere<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let plan0 = skeleton(&mut g, 1);
    let mut probe = plan0.clone();
    let v = labels(|f| each_ds_mut(&mut probe, &mut |l, _| f(l)));
    let at = case as usize;
    if at >= v.len() {
        return;
    }
    for sub in faults() {
        let mut sub = sub;
        if let MSub::Arr { ext, .. } = &mut sub {
            if v[at].contains("uriVariable") {
                continue;
            }
            *ext = g.ext(Piece::Arr);
        }
        for access in 0..3 {
            let mut plan = plan0.clone();
            let sub = sub.clone();
            nth!(each_ds_mut, &mut plan, at, |_l, d| {
                set_sub(d, sub.clone());
                d.ro = access == 1;
                d.wo = access == 2;
            });
            l.seen(Rng::new(case).u64() ^ dump(&sub).hash() ^ access);
            l.count(format!("position.{}", v[at]));
            l.doing = format!("{} {sub:?} at {}", P::NAME, v[at]);
            judge::<P>(l, &plan, r.fork(), view_num);
        }
    }
}
fn positions<P: BProf>() -> u64 {
    let mut g = Gen::new(Rng::new(1), P::EXTS, Mode::Build);
    let mut p = skeleton(&mut g, 1);
    labels(|f| each_ds_mut(&mut p, &mut |l, _| f(l))).len() as u64
}
/// One constraint at the bottom of a long chain of containers.
fn p07_deep<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let depth = r.range(1, 70);
    let mut bottom = leaf(&mut g);
    let (name, sub) = constraint(&mut g, false);
    set_sub(&mut bottom, sub);
    let (at, plan) = deep_plan(&mut g, depth, bottom);
    l.seen(dump(&plan).hash());
    l.count(format!("deep.{at}"));
    l.count(format!("deep.{}x", depth / 10 * 10));
    l.doing = format!("{} {name} {depth} levels down in {at}", P::NAME);
    judge::<P>(l, &plan, r.fork(), view_num);
}
pub fn p07(t: Tier) -> Check {
    let n = positions::<Nil>();
    Check {
        pid: "P07",
        rule: "Build outcome against an interval oracle over every data schema of the plan: a grid of bounds and \
               multiples (equal, adjacent, extreme, infinite, NaN) on a property; every fault class in every position \
               of a description containing every position, two nesting levels deep, in every access mode; random \
               plans with up to three random constraints; one constraint up to 70 containers down. Accepted schemas must keep their bounds.",
        assumptions: vec![
            "open: two exclusive integer bounds one apart; exclusive infinite bounds; alternatives of a URI variable",
        ],
        stack: 256 << 20,
        must_see: vec!["accepted", "refused.InvalidMinMax", "refused.NanMinMax", "refused.InvalidMultipleOf"],
        phases: vec![
            exhaustive("bounds grid", 3 * grid().len() as u64, p07_grid),
            exhaustive("every position", n, p07_everywhere::<Nil>),
            exhaustive("every position, extended", n, p07_everywhere::<PBA>),
            phase("random", t.n(30_000, 800_000), |l, c| {
                for_bprof!(c, faulty(l, c, inject_constraint, view_num))
            }),
            phase("deep", t.n(6_000, 200_000), |l, c| for_bprof!(c, p07_deep(l, c))),
        ],
    }
}

// P08

fn view_names(t: &MThing) -> J {
    let mut p = Plan::new(t.clone());
    let mut v: Vec<String> = vec![];
    each_uri_mut(&mut p, &mut |l, m| v.push(format!("uri {l} {:?}", m.as_ref().map(|m| m.keys().cloned().collect::<Vec<_>>()))));
    each_form_mut(&mut p, &mut |l, f| {
        v.push(format!("form {l} {} {:?}", f.href, f.addl.as_ref().map(|v| v.iter().map(|a| a.schema.clone()).collect::<Vec<_>>())))
    });
    v.push(format!("schemas {:?}", t.schemas.as_ref().map(|m| m.keys().cloned().collect::<Vec<_>>())));
    v.push(format!("properties {:?}", t.properties.as_ref().map(|m| m.keys().cloned().collect::<Vec<_>>())));
    v.push(format!("actions {:?}", t.actions.as_ref().map(|m| m.keys().cloned().collect::<Vec<_>>())));
    v.push(format!("events {:?}", t.events.as_ref().map(|m| m.keys().cloned().collect::<Vec<_>>())));
    J::Arr(v.into_iter().map(js).collect())
}
const NAMES: [&[&str]; 7] = [&[], &["x"], &["x", "y"], &["x", "x"], &["y", "x"], &["x", "y", "x"], &["y", "y", "y"]];
/// Every small multiset of names in each kind.
fn p08_affordances(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut c = case as usize;
    let mut take = || {
        let x = c % 7;
        c /= 7;
        NAMES[x]
    };
    let mut plan = Plan::new(tiny());
    for k in take() {
        plan.props.push((k.to_string(), tiny_prop(vec![])));
    }
    for k in take() {
        plan.acts.push((k.to_string(), MAct::default()));
    }
    for k in take() {
        plan.evts.push((k.to_string(), MEvt::default()));
    }
    l.seen(case);
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r.fork(), view_names);
}
/// Schema definitions crossed with references, in each place.
fn p08_schemas(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut c = case as usize;
    let mut take = |n: usize| {
        let x = c % n;
        c /= n;
        x
    };
    let (place, defs, refs, pos) = (take(4), take(4), take(8), take(3));
    let mut plan = Plan::new(tiny());
    let t = &mut plan.t;
    let names = ["s", "t"];
    let m: Map<MDs> = (0..2).filter(|i| defs >> i & 1 == 1).map(|i| (names[i].to_string(), bool_ds())).collect();
    t.schemas = (!m.is_empty()).then_some(m);
    // The same names mean nothing elsewhere.
    t.secdefs.insert("s".into(), sec_of(MSecSub::NoSec));
    let mut addl: Vec<MAddl> = ["s", "t", "u"]
        .iter()
        .enumerate()
        .filter(|(i, _)| refs >> i & 1 == 1)
        .map(|(_, k)| MAddl { success: r.coin(), ct: None, schema: Some(k.to_string()) })
        .collect();
    if r.coin() {
        addl.insert(r.below(addl.len() + 1), MAddl::default());
    }
    r.shuffle(&mut addl);
    let mut forms: Vec<MForm> = (0..3).map(|i| MForm { href: format!("/{i}"), ..tform(place) }).collect();
    forms[pos].addl = (!addl.is_empty()).then_some(addl);
    place_forms(t, place, "t", forms);
    l.seen(case);
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r.fork(), view_names);
}
/// Every type of URI variable in each place, alone or after an innocent one.
fn p08_uri(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut c = case as usize;
    let mut take = |n: usize| {
        let x = c % n;
        c /= n;
        x
    };
    let (place, kind, name, access, shape) = (take(4), take(9), take(3), take(3), take(3));
    let arr = |items| MSub::Arr { items, min: None, max: None, ext: vec![] };
    let mut d = bool_ds();
    d.sub = Some(match kind {
        0 => MSub::Bool,
        1 => MSub::Null,
        2 => MSub::Num { min: None, max: None, mult: None },
        3 => MSub::Int { min: None, max: None, mult: None },
        4 => MSub::Str { min: None, max: None, pat: None, enc: None, media: None },
        5 => MSub::Obj { props: None, req: None, ext: vec![] },
        6 => arr(None),
        7 => arr(Some(MItems::One(Box::new(bool_ds())))),
        _ => arr(Some(MItems::Many(vec![bool_ds(), bool_ds()]))),
    });
    d.ro = access == 1;
    d.wo = access == 2;
    match (kind, shape) {
        (0, 1) => {
            d = MDs { constant: Some(js("c")), ro: true, ..Default::default() };
        }
        (0, 2) => {
            d = MDs { one_of: Some(vec![bool_ds(), bool_ds()]), ..Default::default() };
        }
        (1, 1) => {
            d = MDs { enumeration: Some(vec![js("e"), J::Null]), ..Default::default() };
        }
        _ => {}
    }
    let mut m: Map<MDs> = Map::new();
    m.insert("m".into(), bool_ds());
    m.insert(["a", "m", "z"][name].into(), d);
    let mut plan = Plan::new(tiny());
    let t = &mut plan.t;
    match place {
        0 => t.uri = Some(m),
        1 => {
            let mut p = tiny_prop(vec![]);
            p.ia.uri = Some(m);
            t.properties = Some([("x".to_string(), p)].into());
        }
        2 => {
            let mut a = MAct::default();
            a.ia.uri = Some(m);
            t.actions = Some([("x".to_string(), a)].into());
        }
        _ => {
            let mut e = MEvt::default();
            e.ia.uri = Some(m);
            t.events = Some([("x".to_string(), e)].into());
        }
    }
    l.seen(case);
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r.fork(), view_names);
}
pub fn p08(t: Tier) -> Check {
    Check {
        pid: "P08",
        rule: "Build outcome against the set of naming faults of the plan. Enumerated: every multiset of up to three \
               affordance names per kind over two names, every small set of schema definitions crossed with every set \
               of references at every place and form index, every type, shape and access mode of a URI variable at \
               every place. Random plans get up to three clashes, references or URI variables.",
        assumptions: vec!["open: structured alternatives inside a URI variable's oneOf"],
        stack: 256 << 20,
        must_see: vec![
            "accepted",
            "refused.DuplicatedAffordance",
            "refused.MissingSchemaDefinition",
            "refused.InvalidUriVariables",
        ],
        phases: vec![
            exhaustive("affordance names", 343, p08_affordances),
            exhaustive("schema references", 4 * 4 * 8 * 3, p08_schemas),
            exhaustive("URI variables", 4 * 9 * 3 * 3 * 3, p08_uri),
            phase("random", t.n(30_000, 800_000), |l, c| {
                for_bprof!(c, faulty(l, c, inject_name, view_names))
            }),
        ],
    }
}

// P09

fn view_lang(t: &MThing) -> J {
    let mut p = Plan::new(t.clone());
    let mut v = vec![];
    each_lang_mut(&mut p, &mut |l, m| v.push(format!("{l} {m:?}")));
    v.sort();
    v.push(format!("{:?}", t.links));
    J::Arr(v.into_iter().map(js).collect())
}
fn tags(extra: usize) -> Vec<String> {
    let mut r = Rng::new(77);
    let mut v: Vec<String> = LANGS.iter().chain(BAD_LANGS).map(|x| x.to_string()).collect();
    for _ in 0..extra {
        v.push(good_tag(&mut r));
        v.push(bad_tag(&mut r));
    }
    v
}
fn lang_skeleton<P: BProf>(g: &mut Gen) -> Plan {
    let mut p = skeleton(g, 0);
    p.t.links = Some(vec![MLink { href: "/".into(), ..Default::default() }]);
    p
}
fn lang_positions() -> u64 {
    let mut g = Gen::new(Rng::new(1), &[], Mode::Build);
    let mut p = lang_skeleton::<Nil>(&mut g);
    labels(|f| each_lang_mut(&mut p, &mut |l, _| f(l))).len() as u64
}
/// Every tag in every position, built and parsed.
fn p09_everywhere(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), &[], Mode::Build);
    let plan0 = lang_skeleton::<Nil>(&mut g);
    let n = lang_positions();
    let mut probe = plan0.clone();
    let v = labels(|f| each_lang_mut(&mut probe, &mut |l, _| f(l)));
    for tag in tags(8) {
        let mut plan = plan0.clone();
        let at = if case < n {
            nth!(each_lang_mut, &mut plan, case as usize, |_l, m| {
                put_tag(m, "en-US");
                put_tag(m, &tag)
            });
            v[case as usize].clone()
        } else {
            let k = plan.t.links.as_mut().expect("links");
            k[0].hreflang = Some(vec!["de".into(), tag.clone()]);
            "hreflang".into()
        };
        l.seen(crate::rng::hash_bytes(tag.as_bytes()) ^ case);
        l.count(format!("position.{at}"));
        l.doing = format!("tag {tag:?} at {at}");
        judge::<Nil>(l, &plan, r.fork(), view_lang);
        parse_lang::<Nil>(l, &plan.t);
    }
}
fn parse_lang<P: BProf>(l: &mut Local, t: &MThing) {
    let bad = !violations(&Plan::new(t.clone())).iter().all(|v| !matches!(v, V::Tag(_)));
    let text = canon(P::EXTS, t).to_text();
    let from_text = serde_json::from_str::<Thing<P>>(&text);
    let from_value = serde_json::from_str::<serde_json::Value>(&text)
        .map_err(|e| e.to_string())
        .and_then(|v| serde_json::from_value::<Thing<P>>(v).map_err(|e| e.to_string()));
    for (route, x) in [("text", from_text.map_err(|e| e.to_string())), ("value", from_value)] {
        match (bad, x) {
            (true, Ok(_)) => l.fail("parsed", format!("{route}: malformed tag accepted: {text}")),
            (false, Err(e)) => l.fail("not-parsed", format!("{route}: well-formed tag refused: {e}: {text}")),
            (true, Err(_)) => l.count("parse.refused"),
            (false, Ok(x)) => {
                l.count("parse.accepted");
                if let Some(d) = diff(&view_lang(&fold_tags(t.clone())), &view_lang(&fold_tags(ob_thing(&x)))) {
                    l.fail("parsed-content", d);
                }
            }
        }
    }
}
fn p09_random<P: BProf>(l: &mut Local, case: u64) {
    faulty::<P>(l, case, inject_tag, view_lang);
    let mut r = l.rng(case ^ 1 << 60);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let mut plan = Plan::new(g.thing());
    inject_tag(&mut plan, &mut g);
    // Parsing has no rule about sizes.
    l.doing = format!("{} {}", P::NAME, dump(&plan).to_text());
    parse_lang::<P>(l, &plan.t);
}
/// Every combination of relation, sizes, languages and other members.
fn p09_sizes(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let rels = [None, Some("icon"), Some("stylesheet"), Some(""), Some("ico"), Some("icons"), Some("type"), Some("xicon"), Some("ICON"), Some("Icon"), Some(" icon"), Some("icon "), Some("icon shortcut"), Some("shortcut icon"), Some("apple-touch-icon"), Some("icon,"), Some("\u{456}con")];
    let sizes = [None, Some("16x16"), Some(""), Some("any")];
    let mut c = case as usize;
    let mut take = |n: usize| {
        let x = c % n;
        c /= n;
        x
    };
    let (rel, size, at, total) = (rels[take(17)], sizes[take(4)], take(3), 1 + take(3));
    let mut v: Vec<MLink> = (0..total)
        .map(|i| MLink {
            href: format!("/{i}"),
            rel: Some("icon".into()),
            sizes: Some("1x1".into()),
            ..Default::default()
        })
        .collect();
    let at = at.min(total - 1);
    let (langs, more) = (take(5), take(2) == 1);
    let langs: &[&str] = [&[][..], &["en"], &["en US"], &["de", "i18"], &["", "fr"]][langs];
    v[at].hreflang = (!langs.is_empty()).then(|| langs.iter().map(|x| x.to_string()).collect());
    if more {
        v[at].ty = Some("image/svg+xml".into());
        v[at].anchor = Some("#a".into());
    }
    v[at].rel = rel.map(Into::into);
    v[at].sizes = size.map(Into::into);
    let mut plan = Plan::new(tiny());
    plan.t.links = Some(v);
    l.seen(case);
    l.doing = dump(&plan).to_text();
    judge::<Nil>(l, &plan, r.fork(), view_lang);
}
/// One tag at the bottom of a long chain of containers.
fn p09_deep<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let depth = r.range(1, 50);
    let bad = r.coin();
    let tag = if bad { bad_tag(&mut r) } else { good_tag(&mut r) };
    let mut bottom = leaf(&mut g);
    put_tag(if r.coin() { &mut bottom.info.titles } else { &mut bottom.info.descriptions }, &tag);
    let (at, plan) = deep_plan(&mut g, depth, bottom);
    l.seen(dump(&plan).hash());
    l.count(format!("deep.{at}"));
    l.doing = format!("{} tag {tag:?} {depth} levels down in {at}", P::NAME);
    judge::<P>(l, &plan, r.fork(), view_lang);
    if depth <= 40 {
        parse_lang::<P>(l, &plan.t);
    }
}
pub fn p09(t: Tier) -> Check {
    Check {
        pid: "P09",
        rule: "Build and parse outcomes against an independent recognizer of the RFC 5646 tag grammar and the \
               sizes-needs-icon rule: a list of well-formed and malformed tags in every translation and link language \
               position of a description that has every position, built and parsed over two routes; every relation, \
               sizes and languages combination at every link index; random plans with random tags from the grammar and \
               mutations outside it; one tag up to 50 containers down.",
        assumptions: vec!["tags are compared up to letter case; repeated variants or singletons are not generated"],
        stack: 256 << 20,
        must_see: vec![
            "accepted",
            "refused.InvalidLanguageTag",
            "refused.SizesWithRelNotIcon",
            "parse.accepted",
            "parse.refused",
        ],
        phases: vec![
            exhaustive("every position", lang_positions() + 1, p09_everywhere),
            exhaustive("sizes", 17 * 4 * 3 * 3 * 5 * 2, p09_sizes),
            phase("random", t.n(20_000, 500_000), |l, c| for_bprof!(c, p09_random(l, c))),
            phase("deep", t.n(6_000, 200_000), |l, c| for_bprof!(c, p09_deep(l, c))),
        ],
    }
}
