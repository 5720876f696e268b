//! P19: printed operations and errors.
use crate::conv::*;
use crate::drive::*;
use crate::faults::*;
use crate::for_bprof;
use crate::fw::*;
use crate::gen::{Gen, Mode};
use crate::model::*;
use wot_td::builder::{AffordanceType, Error, FormContext};
use wot_td::hlist::Nil;
use wot_td::thing::*;

fn ops(l: &mut Local, case: u64) {
    let i = case as usize % 18;
    let (op, term) = (OPERATIONS[i], OPS[i]);
    let printed = op.to_string();
    l.seen(case);
    l.doing = term.into();
    if printed != term {
        l.fail("op-text", format!("{op:?} prints {printed:?}, TD term is {term:?}"));
    }
    let json = format!("\"{term}\"");
    match serde_json::to_string(&op) {
        Ok(x) if x == json => {}
        x => l.fail("op-serialized", format!("{op:?} serializes to {x:?}")),
    }
    match serde_json::to_value(op) {
        Ok(serde_json::Value::String(x)) if x == printed => {}
        x => l.fail("op-value", format!("{op:?} has value {x:?}, prints {printed:?}")),
    }
    for route in 0..3 {
        let x: Result<FormOperation, _> = match route {
            0 => serde_json::from_str(&json),
            1 => serde_json::from_slice(json.as_bytes()),
            _ => serde_json::from_value(serde_json::Value::String(term.into())),
        };
        match x {
            Ok(x) if x == op => {}
            x => l.fail("op-parsed", format!("{term} parses to {x:?}")),
        }
    }
    for j in 0..18 {
        if (OPERATIONS[j].to_string() == printed) != (i == j) {
            l.fail("op-clash", format!("{i} and {j} print alike"));
        }
    }
    // The same term inside a form, one or many, formatted with options as well.
    for text in [
        format!("{{\"href\":\"/\",\"op\":\"{term}\"}}"),
        format!("{{\"op\":[\"{term}\"],\"href\":\"/\"}}"),
    ] {
        match serde_json::from_str::<Form<Nil>>(&text) {
            Ok(f) => match &f.op {
                DefaultedFormOperations::Custom(v) if *v == [op] => {
                    let back = serde_json::to_string(&f).unwrap_or_default();
                    if !back.contains(&json) {
                        l.fail("op-form", format!("form of {term} serializes to {back}"));
                    }
                }
                x => l.fail("op-form", format!("{text} parses to {x:?}")),
            },
            Err(e) => l.fail("op-form", format!("{text}: {e}")),
        }
    }
    l.count("operations");
}
fn words(t: &str) -> Vec<String> {
    t.split(|c: char| !c.is_alphanumeric())
        .filter(|w| !w.is_empty())
        .map(|w| w.to_lowercase())
        .collect()
}
const KINDS: [&str; 4] = ["thing", "property", "action", "event"];

/// The message of an error must mention what the error carries.
fn mentions(e: &Error) -> Result<&'static str, String> {
    let text = e.to_string();
    if text.trim().is_empty() {
        return Err(format!("{e:?} prints nothing"));
    }
    let has = |x: &str| {
        if text.contains(x) {
            Ok(())
        } else {
            Err(format!("{e:?} prints {text:?} without {x:?}"))
        }
    };
    Ok(match e {
        Error::DuplicatedSecurityDefinition(n) => {
            has(n)?;
            "duplicated security"
        }
        Error::UndefinedSecurity(n) => {
            has(n)?;
            "undefined security"
        }
        Error::MissingSchemaDefinition(n) => {
            has(n)?;
            "missing schema"
        }
        Error::InvalidLanguageTag(n) => {
            has(n)?;
            "language tag"
        }
        Error::DuplicatedAffordance { ty, name } => {
            has(name)?;
            let kind = match ty {
                AffordanceType::Property => "property",
                AffordanceType::Action => "action",
                AffordanceType::Event => "event",
            };
            // The name itself may contain the word.
            let rest = text.replacen(&format!("\"{name}\""), "", 1);
            let rest = if name.is_empty() { rest } else { rest.replace(name.as_str(), " ") };
            if !KINDS.contains(&name.as_str()) && !words(&rest).iter().any(|w| w.contains(kind)) && !kind.contains(name.as_str()) {
                return Err(format!("{e:?} prints {text:?} without the kind"));
            }
            "duplicated affordance"
        }
        Error::InvalidOpInForm { context, operation } => {
            let op = OPERATIONS.iter().position(|x| x == operation).expect("operation");
            let w = words(&text);
            if !w.iter().any(|w| w == OPS[op]) {
                return Err(format!("{e:?} prints {text:?} without {}", OPS[op]));
            }
            let kind = match context {
                FormContext::Thing => "thing",
                FormContext::Property => "property",
                FormContext::Action => "action",
                FormContext::Event => "event",
            };
            if !w.iter().any(|w| w != OPS[op] && w.contains(kind)) {
                return Err(format!("{e:?} prints {text:?} without the place"));
            }
            "operation"
        }
        Error::MissingOpInForm => "missing operation",
        Error::InvalidMinMax => "range",
        Error::NanMinMax => "NaN",
        Error::InvalidMultipleOf => "multiple",
        Error::InvalidUriVariables => "URI variables",
        Error::SizesWithRelNotIcon => "sizes",
    })
}
fn report(l: &mut Local, e: &Error) {
    match mentions(e) {
        Ok(k) => l.count(format!("error.{k}")),
        Err(x) => l.fail("error-text", x),
    }
    // Other ways to print it.
    let a = format!("{e}");
    let b: Box<dyn std::error::Error> = Box::new(e.clone());
    if a != b.to_string() || format!("{e:?}").is_empty() {
        l.fail("error-routes", format!("{e:?} prints differently as a boxed error"));
    }
}
fn built<P: BProf>(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), P::EXTS, Mode::Build);
    let mut plan = Plan::new(g.thing());
    let all = [inject_security, inject_op, inject_constraint, inject_name, inject_tag];
    for _ in 0..2 {
        let f = *r.pick(&all);
        f(&mut plan, &mut g);
    }
    l.seen(dump(&plan).hash());
    l.doing = dump(&plan).to_text();
    match run::<P>(&plan, r.fork()) {
        Ok(_) => l.count("no error"),
        Err(e) => {
            l.sample(|| e.to_string());
            // What the error carries must be a fault of this plan.
            let want = violations(&plan);
            if !want.iter().any(|v| v.matches(&e)) {
                l.fail("error-content", format!("error is {e:?}, the plan's faults are {want:?}"));
            }
            report(l, &e)
        }
    }
}
/// Every variant with arbitrary content.
fn made(l: &mut Local, case: u64) {
    let mut r = l.rng(case);
    let mut g = Gen::new(r.fork(), &[], Mode::Build);
    let n = g.text();
    let kinds = [AffordanceType::Property, AffordanceType::Action, AffordanceType::Event];
    let places = [FormContext::Thing, FormContext::Property, FormContext::Action, FormContext::Event];
    let e = match case % 12 {
        0 => Error::DuplicatedSecurityDefinition(n),
        1 => Error::UndefinedSecurity(n),
        2 => Error::MissingSchemaDefinition(n),
        3 => Error::InvalidLanguageTag(n),
        4 | 5 => Error::DuplicatedAffordance {
            ty: kinds[r.below(3)].clone(),
            name: n,
        },
        6 => Error::MissingOpInForm,
        7 => Error::InvalidMinMax,
        8 => Error::NanMinMax,
        9 => Error::InvalidMultipleOf,
        10 => Error::InvalidUriVariables,
        _ => Error::SizesWithRelNotIcon,
    };
    l.doing = format!("{e:?}");
    l.seen(crate::rng::hash_bytes(l.doing.as_bytes()));
    report(l, &e);
    for (i, p) in places.iter().enumerate() {
        let t = p.to_string().to_lowercase();
        for (j, k) in KINDS.iter().enumerate() {
            if t.contains(k) != (i == j) {
                l.fail("place-text", format!("{p:?} prints {t:?}"));
            }
        }
        let e = Error::InvalidOpInForm {
            context: p.clone(),
            operation: OPERATIONS[(case % 18) as usize],
        };
        report(l, &e);
    }
    for (i, k) in kinds.iter().enumerate() {
        let t = k.to_string().to_lowercase();
        for (j, w) in KINDS[1..].iter().enumerate() {
            if t.contains(w) != (i == j) {
                l.fail("kind-text", format!("{k:?} prints {t:?}"));
            }
        }
    }
}
pub fn p19(t: Tier) -> Check {
    Check {
        pid: "P19",
        rule: "Every operation's printed, serialized and parsed name against the TD term table, alone and in forms. \
               Every error variant with arbitrary content, and every error that builds with up to two random faults \
               return, must print a message that contains the carried name, tag or operation term, and a word for the \
               carried place or kind; what a returned error carries must be a fault of the plan.",
        assumptions: vec!["wording is free apart from what it must mention"],
        stack: 16 << 20,
        must_see: vec![
            "operations",
            "error.duplicated security",
            "error.undefined security",
            "error.missing schema",
            "error.language tag",
            "error.duplicated affordance",
            "error.operation",
            "error.missing operation",
            "error.range",
            "error.NaN",
            "error.multiple",
            "error.URI variables",
            "error.sizes",
        ],
        phases: vec![
            exhaustive("operations", 18, ops),
            phase("any content", t.n(20_000, 200_000), made),
            phase("faulty builds", t.n(20_000, 400_000), |l, c| for_bprof!(c, built(l, c))),
        ],
    }
}
