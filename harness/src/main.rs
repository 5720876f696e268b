pub(crate) use driver::{conv, drive};
#[allow(unused_imports)]
pub(crate) use driver::{for_bprof, for_profile};
pub(crate) use base::{alloc, fw, gen, json, model, rng};
mod c_build;
mod c_eq;
mod c_ext;
mod c_shapes;
mod c_hostile;
mod c_parse;
mod c_proto;
mod c_sec;
mod c_slots;
mod c_text;
mod c_vocab;
mod faults;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use fw::{Check, Opts, Tier};
use std::path::PathBuf;

fn checks(pid: &str, tier: Tier) -> Option<Check> {
    Some(match pid {
        "P01" => c_parse::p01(tier),
        "P02" => c_parse::p02(tier),
        "P03" => c_parse::p03(tier),
        "P18" => c_parse::p18(tier),
        "P15" => c_hostile::p15(tier),
        "P16" => c_vocab::p16(tier),
        "P04" => c_build::p04(tier),
        "P05" => c_build::p05(tier),
        "P06" => c_build::p06(tier),
        "P07" => c_build::p07(tier),
        "P08" => c_build::p08(tier),
        "P09" => c_build::p09(tier),
        "P10" => c_sec::p10(tier),
        "P19" => c_text::p19(tier),
        "P17" => c_slots::p17(tier),
        "P11" => c_ext::p11(tier),
        "P12" => c_proto::p12(tier),
        "P13" => c_eq::p13(tier),
        "P14" => c_eq::p14(tier),
        _ => return None,
    })
}

fn usage() -> ! {
    eprintln!("usage: harness check PID quick|thorough SEED DIR | harness replay FILE");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let at = |i: usize| a.get(i).cloned().unwrap_or_else(|| usage());
    let tier = |t: &str| {
        if t == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    };
    let mode = at(1);
    if mode == "replay" {
        let t = std::fs::read_to_string(at(2)).expect("replay file");
        let j = json::read(&t).expect("replay json");
        let st = |k: &str| match j.get(k) {
            Some(json::J::Str(x)) => x.clone(),
            _ => panic!("no {k}"),
        };
        let num = |k: &str| match j.get(k) {
            Some(json::J::Int(x)) => *x as u64,
            _ => panic!("no {k}"),
        };
        let o = Opts {
            pid: st("property"),
            tier: tier(&st("tier")),
            seed: num("seed"),
            dir: PathBuf::from(a.get(3).cloned().unwrap_or_else(|| ".".into())),
            only: Some((st("phase"), num("case"))),
        };
        let c = checks(&o.pid, o.tier).unwrap_or_else(|| usage());
        std::process::exit(fw::worker(&c, &o));
    }
    if mode == "chain" {
        let num = |i: usize| at(i).parse().unwrap_or_else(|_| usage());
        std::process::exit(c_hostile::chain_child(num(2), num(3)));
    }
    let o = Opts {
        pid: at(2),
        tier: tier(&at(3)),
        seed: at(4).parse().unwrap_or_else(|_| usage()),
        dir: PathBuf::from(at(5)),
        only: a.get(6).map(|p| (p.clone(), at(7).parse().unwrap())),
    };
    let c = checks(&o.pid, o.tier).unwrap_or_else(|| usage());
    std::process::exit(match mode.as_str() {
        "check" => fw::supervise(&c, &o),
        "worker" => fw::worker(&c, &o),
        _ => usage(),
    });
}
