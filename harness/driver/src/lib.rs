//! Model <-> crate conversions and the builder driver. In a crate of its own, and instantiated here for every profile,
//! because it is big: this crate is compiled without optimization.
pub(crate) use base::{json, model, rng};
pub mod conv;
pub mod drive;

use conv::*;
use drive::*;

/// Makes the generic code come out of this crate.
macro_rules! instances {
    ($m:ident, $($n:ident: $p:ty),* $(,)?) => {
        pub mod $m {
            use super::*;
            $(
                #[inline(never)]
                pub fn $n(a: &model::MThing, p: &Plan, r: rng::Rng) -> model::MThing {
                    let t = mk_thing::<$p>(a);
                    let _ = standalone::<$p>(&model::MDs::default(), r.clone());
                    match run::<$p>(p, r) {
                        Ok(b) => ob_thing(&b),
                        Err(_) => ob_thing(&t),
                    }
                }
            )*
        }
    };
}
instances!(built, nil: wot_td::hlist::Nil, a: PA, b: PBA, c: PHCM, d: PUMA);
macro_rules! conversions {
    ($($n:ident: $p:ty),* $(,)?) => {
        pub mod converted {
            use super::*;
            $(
                #[inline(never)]
                pub fn $n(a: &model::MThing) -> model::MThing {
                    ob_thing(&mk_thing::<$p>(a))
                }
            )*
        }
    };
}
conversions!(a: UaThing, b: PMC, c: PCH, d: wot_td::protocol::http::HttpProtocol,
    e: wot_td::protocol::coap::CoapProtocol, f: wot_td::protocol::mqtt::MqttProtocol);
