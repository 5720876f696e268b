//! Drives the crate's builders from a model: every call sequence is a random interleaving of the
//! calls the model needs, with overwritten calls thrown in, so that one model stands for many
//! programs that must all build the same value.
use crate::conv::*;
use crate::json::{s as js, to_value, J};
use crate::model::*;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::num::NonZeroU64;
use wot_td::builder::*;
use wot_td::extend::{Extend, Extendable, ExtendableThing};
use wot_td::hlist::Nil;
use wot_td::protocol::{coap::CoapProtocol, http::HttpProtocol, mqtt::MqttProtocol};
use wot_td::thing::*;

type D<P> = <P as ExtendableThing>::DataSchema;
type A<P> = <P as ExtendableThing>::ArraySchema;
type O<P> = <P as ExtendableThing>::ObjectSchema;
type Emp<T> = <T as Extendable>::Empty;
pub type B0<P> = DataSchemaBuilder<Emp<D<P>>, A<P>, O<P>, ToExtend>;
type B1<P> = DataSchemaBuilder<D<P>, A<P>, O<P>, ToExtend>;
pub type Un<P> = UncheckedDataSchema<D<P>, A<P>, O<P>>;
type Ia<P> = <P as ExtendableThing>::InteractionAffordance;
type Pa<P> = <P as ExtendableThing>::PropertyAffordance;
type Aa<P> = <P as ExtendableThing>::ActionAffordance;
type Ea<P> = <P as ExtendableThing>::EventAffordance;
type Fo<P> = <P as ExtendableThing>::Form;
type P0<P> = PropertyAffordanceBuilder<
    P,
    PartialDataSchemaBuilder<Emp<D<P>>, A<P>, O<P>, ToExtend>,
    Emp<Ia<P>>,
    Emp<Pa<P>>,
>;
type Pu<P> = PropertyAffordanceBuilder<P, PartialDataSchema<D<P>, A<P>, O<P>>, Ia<P>, Pa<P>>;
type Ab0<P> = ActionAffordanceBuilder<P, Emp<Ia<P>>, Emp<Aa<P>>>;
type Eb0<P> = EventAffordanceBuilder<P, Emp<Ia<P>>, Emp<Ea<P>>>;
type Fb0<P> = FormBuilder<P, (), Emp<Fo<P>>>;

// ---- calls -----------------------------------------------------------------------------------

enum CInfo {
    AtType(String),
    Title(String),
    Titles(Map<String>),
    Desc(String),
    Descs(Map<String>),
}
enum CData {
    Unit(String),
    Format(String),
    Default(J),
}
enum CSpec {
    MinF(Bd<f64>),
    MaxF(Bd<f64>),
    MultF(f64),
    MinI(Bd<i64>),
    MaxI(Bd<i64>),
    MultI(u64),
    MinLen(u32),
    MaxLen(u32),
    Pat(String),
    Enc(String),
    Media(String),
    MinItems(u32),
    MaxItems(u32),
    Item(MDs),
    Member(String, bool, MDs),
    Value(J),
    Alt(MDs),
}
enum CAff {
    Form(MForm),
    Uri(String, MDs),
    Observable(bool),
    Safe,
    Idem,
    Sync(bool),
    Input(MDs),
    Output(MDs),
    Subscription(MDs),
    Data(MDs),
    Response(MDs),
    Cancellation(MDs),
}
enum CForm {
    Op(usize),
    Ct(String),
    Coding(String),
    Sub(String),
    Sec(String),
    Scope(String),
    Addl(MAddl),
    Resp(MResp),
}
enum CSec {
    AtType(String),
    Desc(String),
    Descs(Map<String>),
    Proxy(String),
    Key(String),
    Required,
}
enum CThing {
    Id(String),
    Desc(String),
    Version(MVersion),
    Created(MDt),
    Modified(MDt),
    Support(String),
    Base(String),
    Ctx(J),
    AtType(String),
    Titles(Map<String>),
    Descs(Map<String>),
    Link(MLink),
    Sec(String, MSec, bool),
    Profile(String),
}
enum CBody {
    Form(MForm),
    Uri(String, MDs),
    Prop(String, MProp),
    Act(String, MAct),
    Evt(String, MEvt),
    Schema(String, MDs),
}

/// Random merge that keeps the order within each group.
fn merge<T>(r: &mut Rng, groups: Vec<Vec<T>>) -> VecDeque<T> {
    let mut q: Vec<VecDeque<T>> = groups.into_iter().filter(|g| !g.is_empty()).map(Into::into).collect();
    let mut out = VecDeque::new();
    while !q.is_empty() {
        let i = r.below(q.len());
        out.push_back(q[i].pop_front().expect("non-empty group"));
        if q[i].is_empty() {
            q.swap_remove(i);
        }
    }
    out
}

/// Calls of one builder, split in the queues that become available at different stages.
pub struct Calls {
    r: Rng,
    info: VecDeque<CInfo>,
    data: VecDeque<CData>,
    spec: VecDeque<CSpec>,
    aff: VecDeque<CAff>,
    form: VecDeque<CForm>,
    ia_ext: MExt,
    own_ext: MExt,
    /// Where calls landed relative to the stage changes: early, middle, late.
    pub shape: &'static str,
}
impl Calls {
    fn new(r: Rng) -> Self {
        Calls {
            r,
            info: Default::default(),
            data: Default::default(),
            spec: Default::default(),
            aff: Default::default(),
            form: Default::default(),
            ia_ext: vec![],
            own_ext: vec![],
            shape: "",
        }
    }
    /// The calls that set one single-valued member, possibly after calls that it overwrites.
    fn last<T, C>(&mut self, v: &Option<T>, decoy: impl Fn(&mut Rng, &T) -> T, c: impl Fn(T) -> C) -> Vec<C>
    where
        T: Clone,
    {
        let mut out = vec![];
        if let Some(v) = v {
            if self.r.chance(1, 5) {
                for _ in 0..self.r.range(1, 2) {
                    let d = decoy(&mut self.r, v);
                    out.push(c(d));
                }
            }
            out.push(c(v.clone()));
        }
        out
    }
    fn set_info(&mut self, i: &Info) {
        let g = vec![
            i.attype.iter().flatten().cloned().map(CInfo::AtType).collect(),
            self.last(&i.title, decoy_s, CInfo::Title),
            self.last(&i.titles, decoy_m, CInfo::Titles),
            self.last(&i.description, decoy_s, CInfo::Desc),
            self.last(&i.descriptions, decoy_m, CInfo::Descs),
        ];
        self.info = merge(&mut self.r, g);
    }
    fn set_data(&mut self, d: &MDs) {
        let g = vec![
            self.last(&d.unit, decoy_s, CData::Unit),
            self.last(&d.format, decoy_s, CData::Format),
            self.last(&d.default, |_, _| js("decoy"), CData::Default),
        ];
        self.data = merge(&mut self.r, g);
        let g = match (&d.sub, &d.enumeration, &d.one_of) {
            (_, Some(v), _) => vec![v.iter().cloned().map(CSpec::Value).collect()],
            (_, _, Some(v)) => vec![v.iter().cloned().map(CSpec::Alt).collect()],
            (Some(MSub::Num { min, max, mult }), ..) => vec![
                self.last(min, decoy_f, CSpec::MinF),
                self.last(max, decoy_f, CSpec::MaxF),
                self.last(mult, |r, _| r.below(9) as f64 - 4.0, CSpec::MultF),
            ],
            (Some(MSub::Int { min, max, mult }), ..) => vec![
                self.last(min, decoy_i, CSpec::MinI),
                self.last(max, decoy_i, CSpec::MaxI),
                self.last(mult, |r, _| r.range(1, 9) as u64, CSpec::MultI),
            ],
            (Some(MSub::Str { min, max, pat, enc, media }), ..) => vec![
                self.last(min, decoy_u, CSpec::MinLen),
                self.last(max, decoy_u, CSpec::MaxLen),
                self.last(pat, decoy_s, CSpec::Pat),
                self.last(enc, decoy_s, CSpec::Enc),
                self.last(media, decoy_s, CSpec::Media),
            ],
            (Some(MSub::Arr { items, min, max, .. }), ..) => {
                let it = match items {
                    None => vec![],
                    Some(MItems::One(x)) => self.last(&Some((**x).clone()), decoy_d, CSpec::Item),
                    Some(MItems::Many(v)) => v.iter().cloned().map(CSpec::Item).collect(),
                };
                vec![
                    self.last(min, decoy_u, CSpec::MinItems),
                    self.last(max, decoy_u, CSpec::MaxItems),
                    it,
                ]
            }
            (Some(MSub::Obj { props, req, .. }), ..) => {
                let mut m = props.clone().unwrap_or_default();
                let req: Vec<_> = req
                    .iter()
                    .flatten()
                    .map(|k| CSpec::Member(k.clone(), true, m.remove(k).expect("required member")))
                    .collect();
                let mut rest: Vec<_> = m.into_iter().map(|(k, v)| CSpec::Member(k, false, v)).collect();
                self.r.shuffle(&mut rest);
                vec![req, rest]
            }
            _ => vec![],
        };
        self.spec = merge(&mut self.r, g);
    }
    fn set_ia(&mut self, ia: &MIa, more: Vec<Vec<CAff>>) {
        let mut uri: Vec<_> = ia.uri.iter().flatten().map(|(k, v)| CAff::Uri(k.clone(), v.clone())).collect();
        self.r.shuffle(&mut uri);
        let mut g = more;
        g.push(ia.forms.iter().cloned().map(CAff::Form).collect());
        g.push(uri);
        self.aff = merge(&mut self.r, g);
        self.ia_ext = ia.ext.clone();
    }
    fn go(&mut self, all: bool) -> bool {
        all || self.r.chance(2, 5)
    }

    fn info<B: BuildableHumanReadableInfo>(&mut self, mut b: B, all: bool) -> B {
        while !self.info.is_empty() && self.go(all) {
            b = ap_info(b, self.info.pop_front().expect("call"));
        }
        b
    }
    fn data<DS, AS, OS, S, B: BuildableDataSchema<DS, AS, OS, S>>(&mut self, mut b: B, all: bool) -> B {
        while !self.data.is_empty() && self.go(all) {
            b = match self.data.pop_front().expect("call") {
                CData::Unit(x) => b.unit(x),
                CData::Format(x) => b.format(x),
                CData::Default(x) => b.default_value(to_value(&x)),
            };
        }
        b
    }
}

fn decoy_s(r: &mut Rng, _: &String) -> String {
    format!("decoy{}", r.below(9))
}
fn decoy_u(r: &mut Rng, _: &u32) -> u32 {
    r.below(99) as u32
}
fn decoy_f(r: &mut Rng, _: &Bd<f64>) -> Bd<f64> {
    let x = r.below(99) as f64;
    match r.below(5) {
        0 | 1 => Bd::In(x),
        2 | 3 => Bd::Ex(x),
        _ => Bd::In(f64::NAN),
    }
}
fn decoy_i(r: &mut Rng, _: &Bd<i64>) -> Bd<i64> {
    let x = r.below(99) as i64;
    if r.coin() {
        Bd::In(x)
    } else {
        Bd::Ex(x)
    }
}
fn decoy_m(r: &mut Rng, _: &Map<String>) -> Map<String> {
    let mut m = Map::new();
    for t in ["it", "en", "fr-CA"] {
        if r.coin() {
            m.insert(t.into(), "decoy".into());
        }
    }
    m
}
fn decoy_d(_: &mut Rng, d: &MDs) -> MDs {
    let mut d = d.clone();
    d.unit = Some("decoy".into());
    d
}

fn ml<'a>(b: &'a mut MultiLanguageBuilder<String>, m: &Map<String>) -> &'a mut MultiLanguageBuilder<String> {
    for (k, v) in m {
        if v.len() % 5 == 1 {
            b.add(k.as_str(), "decoy");
        }
        b.add(k.as_str(), v.as_str());
    }
    b
}
fn ap_info<B: BuildableHumanReadableInfo>(b: B, c: CInfo) -> B {
    match c {
        CInfo::AtType(x) => b.attype(x),
        CInfo::Title(x) => b.title(x),
        CInfo::Titles(m) => b.titles(|b| ml(b, &m)),
        CInfo::Desc(x) => b.description(x),
        CInfo::Descs(m) => b.descriptions(|b| ml(b, &m)),
    }
}

// ---- data schemas ------------------------------------------------------------------------------

fn mid_ds<P: BProf, B>(c: &mut Calls, b: B, all: bool) -> B
where
    B: BuildableHumanReadableInfo + BuildableDataSchema<D<P>, A<P>, O<P>, Extended>,
{
    if c.r.coin() {
        let b = c.info(b, all);
        c.data::<D<P>, A<P>, O<P>, Extended, B>(b, all)
    } else {
        let b = c.data::<D<P>, A<P>, O<P>, Extended, B>(b, all);
        c.info(b, all)
    }
}
fn mid_prop<P: BProf, C, I, X>(
    c: &mut Calls,
    mut b: PropertyAffordanceBuilder<P, C, I, X>,
    all: bool,
) -> PropertyAffordanceBuilder<P, C, I, X>
where
    C: BuildableDataSchema<D<P>, A<P>, O<P>, Extended>,
{
    if c.r.coin() {
        b = c.data::<D<P>, A<P>, O<P>, Extended, _>(b, all);
        pre_prop(c, b, all)
    } else {
        b = pre_prop(c, b, all);
        c.data::<D<P>, A<P>, O<P>, Extended, _>(b, all)
    }
}
/// Calls a property builder accepts at any stage.
fn pre_prop<P: BProf, C, I, X>(
    c: &mut Calls,
    b: PropertyAffordanceBuilder<P, C, I, X>,
    all: bool,
) -> PropertyAffordanceBuilder<P, C, I, X> {
    let mut b = c.info(b, all);
    while !c.aff.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.aff.pop_front().expect("call") {
            CAff::Form(f) => b.form(|b| form::<P>(b, &f, r)),
            CAff::Uri(k, d) => b.uri_variable(k, |b| ds::<P>(b, &d, r)),
            CAff::Observable(x) => b.observable(x),
            _ => unreachable!(),
        };
    }
    b
}

fn sp_num<P: BProf, B: NumberDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        b = match c.spec.pop_front().expect("call") {
            CSpec::MinF(Bd::In(x)) => b.minimum(x),
            CSpec::MinF(Bd::Ex(x)) => b.exclusive_minimum(x),
            CSpec::MaxF(Bd::In(x)) => b.maximum(x),
            CSpec::MaxF(Bd::Ex(x)) => b.exclusive_maximum(x),
            CSpec::MultF(x) => b.multiple_of(x),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_int<P: BProf, B: IntegerDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        b = match c.spec.pop_front().expect("call") {
            CSpec::MinI(Bd::In(x)) => b.minimum(x),
            CSpec::MinI(Bd::Ex(x)) => b.exclusive_minimum(x),
            CSpec::MaxI(Bd::In(x)) => b.maximum(x),
            CSpec::MaxI(Bd::Ex(x)) => b.exclusive_maximum(x),
            CSpec::MultI(x) => b.multiple_of(NonZeroU64::new(x).expect("non-zero")),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_str<P: BProf, B: StringDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        b = match c.spec.pop_front().expect("call") {
            CSpec::MinLen(x) => b.min_length(x),
            CSpec::MaxLen(x) => b.max_length(x),
            CSpec::Pat(x) => b.pattern(x),
            CSpec::Enc(x) => b.content_encoding(x),
            CSpec::Media(x) => b.content_media_type(x),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_none<P: BProf, B>(c: &mut Calls, b: B, all: bool) -> B {
    assert!(!all || c.spec.is_empty(), "calls this builder does not have");
    b
}
fn sp_vec<P: BProf, B: VecDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.spec.pop_front().expect("call") {
            CSpec::MinItems(x) => b.min_items(x),
            CSpec::MaxItems(x) => b.max_items(x),
            CSpec::Item(d) => b.set_item(|b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_tup<P: BProf, B: TupleDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.spec.pop_front().expect("call") {
            CSpec::Item(d) => b.append(|b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_obj<P: BProf, B: ObjectDataSchemaBuilderLike<D<P>, A<P>, O<P>>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.spec.pop_front().expect("call") {
            CSpec::Member(k, req, d) => b.property(k, req, |b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_enm<P: BProf, B: EnumerableDataSchema<D<P>, A<P>, O<P>, Extended, Target = B>>(
    c: &mut Calls,
    mut b: B,
    all: bool,
) -> B {
    while !c.spec.is_empty() && c.go(all) {
        b = match c.spec.pop_front().expect("call") {
            CSpec::Value(x) => b.enumeration(to_value(&x)),
            _ => unreachable!(),
        };
    }
    b
}
fn sp_alt<P: BProf, B: UnionDataSchema<D<P>, A<P>, O<P>, Target = B>>(c: &mut Calls, mut b: B, all: bool) -> B {
    while !c.spec.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.spec.pop_front().expect("call") {
            CSpec::Alt(d) => b.one_of(|b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}

macro_rules! both {
    ($P:ident, $c:ident, $b:expr, $mid:ident, $spec:ident) => {{
        if $c.r.coin() {
            let b = $spec::<$P, _>($c, $b, true);
            $mid!($P, $c, b, true)
        } else {
            let b = $mid!($P, $c, $b, true);
            $spec::<$P, _>($c, b, true)
        }
    }};
}
/// Finishes a builder of a chosen type: direct, read-only or write-only.
macro_rules! access {
    ($P:ident, $b:expr, $m:expr, $c:ident, $mid:ident, $fin:ident, $spec:ident, $after:ident) => {{
        let b = $spec::<$P, _>($c, $b, false);
        let b = $mid!($P, $c, b, false);
        if $m.ro {
            let b = b.read_only();
            let b = both!($P, $c, b, $mid, $after);
            $fin!($P, $c, b)
        } else if $m.wo {
            let b = b.write_only();
            let b = both!($P, $c, b, $mid, $after);
            $fin!($P, $c, b)
        } else {
            let b = both!($P, $c, b, $mid, $spec);
            $fin!($P, $c, b)
        }
    }};
}
/// Gives a builder the shape of the model and finishes it.
macro_rules! shape {
    ($P:ident, $b:expr, $m:expr, $c:ident, $mid:ident, $fin:ident, $str:ident) => {{
        let m: &MDs = $m;
        let b = $mid!($P, $c, $b, false);
        if let Some(x) = &m.constant {
            $c.shape = "constant";
            let b = b.constant(to_value(x));
            let b = $mid!($P, $c, b, true);
            $fin!($P, $c, b)
        } else if m.one_of.is_some() {
            $c.shape = "oneOf";
            let r = $c.r.fork();
            let b = match $c.spec.pop_front() {
                Some(CSpec::Alt(d)) => b.one_of(|b| ds::<$P>(b, &d, r)),
                _ => unreachable!(),
            };
            let b = both!($P, $c, b, $mid, sp_alt);
            $fin!($P, $c, b)
        } else if m.enumeration.is_some() {
            $c.shape = "enum";
            let b = match $c.spec.pop_front() {
                Some(CSpec::Value(x)) => b.enumeration(to_value(&x)),
                _ => unreachable!(),
            };
            access!($P, b, m, $c, $mid, $fin, sp_enm, sp_enm)
        } else {
            match m.sub.as_ref().expect("a buildable schema") {
                MSub::Bool => {
                    $c.shape = "boolean";
                    access!($P, b.bool(), m, $c, $mid, $fin, sp_none, sp_none)
                }
                MSub::Null => {
                    $c.shape = "null";
                    access!($P, b.null(), m, $c, $mid, $fin, sp_none, sp_none)
                }
                MSub::Num { .. } => {
                    $c.shape = "number";
                    access!($P, b.number(), m, $c, $mid, $fin, sp_num, sp_num)
                }
                MSub::Int { .. } => {
                    $c.shape = "integer";
                    access!($P, b.integer(), m, $c, $mid, $fin, sp_int, sp_int)
                }
                MSub::Str { .. } => {
                    $c.shape = "string";
                    let b = $str::<$P, _>($c, b.string(), true);
                    access!($P, b, m, $c, $mid, $fin, sp_none, sp_none)
                }
                MSub::Obj { ext, .. } => {
                    $c.shape = "object";
                    let x = <O<$P> as PieceT>::mk(ext);
                    let b = if x == Default::default() && $c.r.coin() {
                        b.object()
                    } else {
                        b.object_ext(|e| <$P as BProf>::mk_obj(e, ext))
                    };
                    access!($P, b, m, $c, $mid, $fin, sp_obj, sp_obj)
                }
                MSub::Arr { ext, items, .. } => {
                    let x = <A<$P> as PieceT>::mk(ext);
                    let plain = x == Default::default() && $c.r.coin();
                    if let Some(MItems::Many(_)) = items {
                        $c.shape = "tuple";
                        let b = if plain {
                            b.tuple()
                        } else {
                            b.tuple_ext(|e| <$P as BProf>::mk_arr(e, ext))
                        };
                        access!($P, b, m, $c, $mid, $fin, sp_tup, sp_tup)
                    } else {
                        $c.shape = "array";
                        let b = if plain {
                            b.vec()
                        } else {
                            b.vec_ext(|e| <$P as BProf>::mk_arr(e, ext))
                        };
                        access!($P, b, m, $c, $mid, $fin, sp_vec, sp_vec)
                    }
                }
            }
        }
    }};
}
macro_rules! m_ds {
    ($P:ident, $c:ident, $b:expr, $all:expr) => {
        mid_ds::<$P, _>($c, $b, $all)
    };
}
macro_rules! m_prop {
    ($P:ident, $c:ident, $b:expr, $all:expr) => {
        mid_prop::<$P, _, _, _>($c, $b, $all)
    };
}
macro_rules! f_ds {
    ($P:ident, $c:ident, $b:expr) => {
        Into::<Un<$P>>::into($b)
    };
}
macro_rules! f_early {
    ($P:ident, $c:ident, $b:expr) => {
        IntoUsable::<Pu<$P>>::into_usable($b)
    };
}
macro_rules! f_late {
    ($P:ident, $c:ident, $b:expr) => {{
        let b = <$P as BProf>::ext_prop($b, $c);
        IntoUsable::<Pu<$P>>::into_usable(b)
    }};
}

/// Builds one data schema.
pub fn ds<P: BProf>(b: B0<P>, m: &MDs, r: Rng) -> Un<P> {
    let mut c = Calls::new(r);
    let c = &mut c;
    c.set_info(&m.info);
    c.set_data(m);
    let b = P::ext_ds(b, &m.ext, c);
    shape!(P, b.finish_extend(), m, c, m_ds, f_ds, sp_str)
}
/// A schema built on its own and converted without the checks of a whole Thing.
pub fn standalone<P: BProf>(m: &MDs, r: Rng) -> Result<Ds<P>, Error> {
    let mut c = Calls::new(r);
    let c = &mut c;
    c.set_info(&m.info);
    c.set_data(m);
    let b: DataSchemaBuilder<D<P>, A<P>, O<P>, Extended> = Default::default();
    let u: Un<P> = shape!(P, b, m, c, m_ds, f_ds, sp_str);
    u.try_into()
}

fn prop<P: BProf>(b: P0<P>, m: &MProp, r: Rng) -> Pu<P> {
    let mut c = Calls::new(r);
    let c = &mut c;
    c.set_info(&m.ia.info);
    c.set_data(&m.ds);
    let ob = c.last(&m.observable, |_, x| !x, CAff::Observable);
    c.set_ia(&m.ia, vec![ob]);
    c.own_ext = m.ext.clone();
    let b = pre_prop::<P, _, _, _>(c, b, false);
    if c.r.coin() {
        let b = if c.r.coin() {
            let b = P::ext_prop(b, c);
            P::ext_prop_ds(b, &m.ds.ext, c)
        } else {
            let b = P::ext_prop_ds(b, &m.ds.ext, c);
            P::ext_prop(b, c)
        };
        shape!(P, b.finish_extend_data_schema(), &m.ds, c, m_prop, f_early, sp_none)
    } else {
        let b = P::ext_prop_ds(b, &m.ds.ext, c);
        shape!(P, b.finish_extend_data_schema(), &m.ds, c, m_prop, f_late, sp_none)
    }
}

fn mid_act<P: BProf, I, X>(
    c: &mut Calls,
    b: ActionAffordanceBuilder<P, I, X>,
    all: bool,
) -> ActionAffordanceBuilder<P, I, X> {
    let mut b = c.info(b, all);
    while !c.aff.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.aff.pop_front().expect("call") {
            CAff::Form(f) => b.form(|b| form::<P>(b, &f, r)),
            CAff::Uri(k, d) => b.uri_variable(k, |b| ds::<P>(b, &d, r)),
            CAff::Safe => b.safe(),
            CAff::Idem => b.idempotent(),
            CAff::Sync(x) => b.synchronous(x),
            CAff::Input(d) => b.input(|b| ds::<P>(b, &d, r)),
            CAff::Output(d) => b.output(|b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}
fn act<P: BProf>(b: Ab0<P>, m: &MAct, r: Rng) -> ActionAffordanceBuilder<P, Ia<P>, Aa<P>> {
    let mut c = Calls::new(r);
    let c = &mut c;
    c.set_info(&m.ia.info);
    let mut g = vec![
        c.last(&m.input, decoy_d, CAff::Input),
        c.last(&m.output, decoy_d, CAff::Output),
        c.last(&m.sync, |_, x| !x, CAff::Sync),
    ];
    if m.safe {
        g.push(vec![CAff::Safe]);
    }
    if m.idem {
        g.push(vec![CAff::Idem]);
    }
    c.set_ia(&m.ia, g);
    c.own_ext = m.ext.clone();
    let b = mid_act::<P, _, _>(c, b, false);
    let b = P::ext_act(b, c);
    mid_act::<P, _, _>(c, b, true)
}
fn mid_evt<P: BProf, I, X>(
    c: &mut Calls,
    b: EventAffordanceBuilder<P, I, X>,
    all: bool,
) -> EventAffordanceBuilder<P, I, X> {
    let mut b = c.info(b, all);
    while !c.aff.is_empty() && c.go(all) {
        let r = c.r.fork();
        b = match c.aff.pop_front().expect("call") {
            CAff::Form(f) => b.form(|b| form::<P>(b, &f, r)),
            CAff::Uri(k, d) => b.uri_variable(k, |b| ds::<P>(b, &d, r)),
            CAff::Subscription(d) => b.subscription(|b| ds::<P>(b, &d, r)),
            CAff::Data(d) => b.data(|b| ds::<P>(b, &d, r)),
            CAff::Response(d) => b.data_response(|b| ds::<P>(b, &d, r)),
            CAff::Cancellation(d) => b.cancellation(|b| ds::<P>(b, &d, r)),
            _ => unreachable!(),
        };
    }
    b
}
fn evt<P: BProf>(b: Eb0<P>, m: &MEvt, r: Rng) -> EventAffordanceBuilder<P, Ia<P>, Ea<P>> {
    let mut c = Calls::new(r);
    let c = &mut c;
    c.set_info(&m.ia.info);
    let g = vec![
        c.last(&m.subscription, decoy_d, CAff::Subscription),
        c.last(&m.data, decoy_d, CAff::Data),
        c.last(&m.response, decoy_d, CAff::Response),
        c.last(&m.cancellation, decoy_d, CAff::Cancellation),
    ];
    c.set_ia(&m.ia, g);
    c.own_ext = m.ext.clone();
    let b = mid_evt::<P, _, _>(c, b, false);
    let b = P::ext_evt(b, c);
    mid_evt::<P, _, _>(c, b, true)
}

fn mid_form<P: BProf, H, F>(c: &mut Calls, mut b: FormBuilder<P, H, F>, all: bool) -> FormBuilder<P, H, F> {
    while !c.form.is_empty() && c.go(all) {
        b = match c.form.pop_front().expect("call") {
            CForm::Op(i) => b.op(OPERATIONS[i]),
            CForm::Ct(x) => b.content_type(x),
            CForm::Coding(x) => b.content_coding(x),
            CForm::Sub(x) => b.subprotocol(x),
            CForm::Sec(x) => b.security(x),
            CForm::Scope(x) => b.scope(x),
            CForm::Addl(a) => {
                let flip = c.r.coin();
                b.additional_response(|b| {
                    if let (Some(x), true) = (&a.schema, flip) {
                        b.schema(x.as_str());
                    }
                    if let Some(x) = &a.ct {
                        b.content_type(x.as_str());
                    }
                    if let (Some(x), false) = (&a.schema, flip) {
                        b.schema("decoy").schema(x.as_str());
                    }
                    if a.success {
                        b.success();
                    }
                    b
                })
            }
            CForm::Resp(m) => {
                let x = <P::ExpectedResponse as PieceT>::mk(&m.ext);
                if x == Default::default() && c.r.coin() {
                    b.response_default_ext(m.ct)
                } else {
                    b.response(m.ct, |e| P::mk_resp(e, &m.ext))
                }
            }
        };
    }
    b
}
pub fn form<P: BProf>(b: Fb0<P>, m: &MForm, r: Rng) -> FormBuilder<P, String, Fo<P>> {
    let mut c = Calls::new(r);
    let c = &mut c;
    let g = vec![
        m.op.iter().flatten().map(|i| CForm::Op(*i)).collect(),
        c.last(&m.ct, decoy_s, CForm::Ct),
        c.last(&m.coding, decoy_s, CForm::Coding),
        c.last(&m.subproto, decoy_s, CForm::Sub),
        m.sec.iter().flatten().cloned().map(CForm::Sec).collect(),
        m.scopes.iter().flatten().cloned().map(CForm::Scope).collect(),
        m.addl.iter().flatten().cloned().map(CForm::Addl).collect(),
        c.last(
            &m.resp,
            |_, x| MResp {
                ct: "decoy".into(),
                ext: x.ext.clone(),
            },
            CForm::Resp,
        ),
    ];
    c.form = merge(&mut c.r, g);
    c.own_ext = m.ext.clone();
    let b = mid_form::<P, _, _>(c, b, false);
    let b = if c.r.coin() {
        let b = b.href(m.href.as_str());
        let b = mid_form::<P, _, _>(c, b, false);
        P::ext_form(b, c)
    } else {
        let b = P::ext_form(b, c);
        b.href(m.href.as_str())
    };
    mid_form::<P, _, _>(c, b, true)
}

// ---- security ----------------------------------------------------------------------------------

struct SecCalls {
    r: Rng,
    q: VecDeque<CSec>,
}
fn mid_sec<S>(c: &mut SecCalls, mut b: SecuritySchemeBuilder<S>, all: bool) -> SecuritySchemeBuilder<S> {
    while !c.q.is_empty() && (all || c.r.chance(2, 5)) {
        b = match c.q.pop_front().expect("call") {
            CSec::AtType(x) => b.attype(x),
            CSec::Desc(x) => b.description(x),
            CSec::Descs(m) => b.descriptions(|b| ml(b, &m)),
            CSec::Proxy(x) => b.proxy(x),
            CSec::Key(x) => b.with_key(x),
            CSec::Required => b.required(),
        };
    }
    b
}
fn name_loc<S: HasNameLocation>(
    c: &mut SecCalls,
    mut b: SecuritySchemeBuilder<S>,
    name: &Option<String>,
    loc: usize,
    dflt: usize,
) -> SecuritySchemeBuilder<S> {
    let flip = c.r.coin();
    let set = loc != dflt || c.r.coin();
    if flip && set {
        b = b.location(LOCATIONS[loc].clone());
    }
    b = mid_sec(c, b, false);
    if let Some(x) = name {
        if c.r.chance(1, 5) {
            b = b.name("decoy");
        }
        b = b.name(x.as_str());
    }
    if !flip && set {
        if c.r.chance(1, 5) {
            b = b.location(LOCATIONS[(loc + 1) % 5].clone());
        }
        b = b.location(LOCATIONS[loc].clone());
    }
    b
}
/// Defines one security scheme.
pub fn sec<P: ExtendableThing, St>(
    tb: ThingBuilder<P, St>,
    key: &str,
    m: &MSec,
    required: bool,
    mut r: Rng,
) -> ThingBuilder<P, St> {
    let combo = matches!(m.sub, MSecSub::OneOf(_) | MSecSub::AllOf(_));
    let mut own = Calls::new(r.fork());
    let mut keys = own.last(&Some(key.to_string()), decoy_s, CSec::Key);
    // A combination also takes its key through `name`.
    let by_name = combo && r.coin();
    if by_name || (key == m.sub.scheme() && r.coin()) {
        keys.clear();
    }
    let g = vec![
        m.attype.iter().flatten().cloned().map(CSec::AtType).collect(),
        own.last(&m.description, decoy_s, CSec::Desc),
        own.last(&m.descriptions, decoy_m, CSec::Descs),
        own.last(&m.proxy, decoy_s, CSec::Proxy),
        keys,
        if required { vec![CSec::Required] } else { vec![] },
    ];
    let q = merge(&mut r, g);
    let mut c = SecCalls { r, q };
    let c = &mut c;
    match &m.sub {
        MSecSub::NoSec => tb.security(|b| {
            let b = mid_sec(c, b, false).no_sec();
            mid_sec(c, b, true)
        }),
        MSecSub::Auto => tb.security(|b| {
            let b = mid_sec(c, b, false).auto();
            mid_sec(c, b, true)
        }),
        MSecSub::OneOf(v) => tb.security(|b| {
            let mut b = mid_sec(c, b, false).combo();
            let early = c.r.coin();
            if by_name && early {
                b = b.name(key);
            }
            let b = mid_sec(c, b, false);
            let k = c.r.below(v.len() + 1);
            let mut b = b.one_of(v[..k].iter().cloned());
            b = mid_sec(c, b, false);
            if by_name && !early {
                b = b.name(key);
            }
            if c.r.coin() {
                b = b.extend(v[k..].iter().cloned());
            } else {
                for x in &v[k..] {
                    b = b.push(x.as_str());
                }
            }
            mid_sec(c, b, true)
        }),
        MSecSub::AllOf(v) => tb.security(|b| {
            let mut b = mid_sec(c, b, false).combo();
            let early = c.r.coin();
            if by_name && early {
                b = b.name(key);
            }
            let b = mid_sec(c, b, false);
            let k = c.r.below(v.len() + 1);
            let mut b = b.all_of(v[..k].iter().cloned());
            b = mid_sec(c, b, false);
            if by_name && !early {
                b = b.name(key);
            }
            if c.r.coin() {
                b = b.extend(v[k..].iter().cloned());
            } else {
                for x in &v[k..] {
                    b = b.push(x.as_str());
                }
            }
            mid_sec(c, b, true)
        }),
        MSecSub::Basic { loc, name } => tb.security(|b| {
            let b = mid_sec(c, b, false).basic();
            let b = name_loc(c, b, name, *loc, 0);
            mid_sec(c, b, true)
        }),
        MSecSub::Digest { qop, loc, name } => tb.security(|b| {
            let mut b = mid_sec(c, b, false).digest();
            let early = c.r.coin();
            let q = || {
                if *qop == 0 {
                    QualityOfProtection::Auth
                } else {
                    QualityOfProtection::AuthInt
                }
            };
            let set = *qop != 0 || c.r.coin();
            if early && set {
                b = b.qop(QualityOfProtection::AuthInt).qop(q());
            }
            b = name_loc(c, b, name, *loc, 0);
            if !early && set {
                b = b.qop(q());
            }
            mid_sec(c, b, true)
        }),
        MSecSub::Bearer {
            authz,
            alg,
            format,
            loc,
            name,
        } => tb.security(|b| {
            let mut b = mid_sec(c, b, false).bearer();
            if c.r.coin() {
                b = name_loc(c, b, name, *loc, 0);
                if let Some(x) = authz {
                    b = b.authorization(x.as_str());
                }
                if alg != "ES256" || c.r.coin() {
                    b = b.alg(alg.clone());
                }
                b = mid_sec(c, b, false);
                if format != "jwt" || c.r.coin() {
                    b = b.format(format.clone());
                }
            } else {
                if format != "jwt" || c.r.coin() {
                    b = b.format("decoy").format(format.clone());
                }
                if alg != "ES256" || c.r.coin() {
                    b = b.alg("decoy").alg(alg.clone());
                }
                if let Some(x) = authz {
                    b = b.authorization("decoy").authorization(x.as_str());
                }
                b = name_loc(c, b, name, *loc, 0);
            }
            mid_sec(c, b, true)
        }),
        MSecSub::Psk { identity } => tb.security(|b| {
            assert!(identity.is_none(), "the builder has no identity setter");
            let b = mid_sec(c, b, false).psk();
            mid_sec(c, b, true)
        }),
        MSecSub::OAuth2 {
            authz,
            token,
            refresh,
            scopes,
            flow,
        } => tb.security(|b| {
            let mut b = mid_sec(c, b, false).oauth2(flow.as_str());
            let mut g: Vec<Vec<(usize, &str)>> = vec![scopes.iter().flatten().map(|x| (3, x.as_str())).collect()];
            for (i, o) in [authz, token, refresh].into_iter().enumerate() {
                if let Some(x) = o {
                    g.push(if c.r.chance(1, 5) {
                        vec![(i, "decoy"), (i, x.as_str())]
                    } else {
                        vec![(i, x.as_str())]
                    });
                }
            }
            for (i, x) in merge(&mut c.r, g) {
                b = match i {
                    0 => b.authorization(x),
                    1 => b.token(x),
                    2 => b.refresh(x),
                    _ => b.scope(x),
                };
                b = mid_sec(c, b, false);
            }
            mid_sec(c, b, true)
        }),
        MSecSub::ApiKey { loc, name } => tb.security(|b| {
            let b = mid_sec(c, b, false).apikey();
            let b = name_loc(c, b, name, *loc, 1);
            mid_sec(c, b, true)
        }),
        MSecSub::Custom { scheme, data } => tb.security(|b| {
            let mut b = mid_sec(c, b, false).custom(scheme.as_str());
            b = mid_sec(c, b, false);
            if *data != J::obj() || c.r.coin() {
                if c.r.chance(1, 5) {
                    b = b.data(serde_json::json!({"decoy": 1}));
                }
                b = b.data(to_value(data));
            }
            mid_sec(c, b, true)
        }),
    }
}

// ---- things ------------------------------------------------------------------------------------

/// What to build: a model plus definitions that clash with it by name.
#[derive(Clone, serde::Serialize)]
pub struct Plan {
    pub t: MThing,
    pub props: Vec<(String, MProp)>,
    pub acts: Vec<(String, MAct)>,
    pub evts: Vec<(String, MEvt)>,
    pub secs: Vec<(String, MSec)>,
}
impl Plan {
    pub fn new(t: MThing) -> Self {
        Plan {
            t,
            props: vec![],
            acts: vec![],
            evts: vec![],
            secs: vec![],
        }
    }
}

pub struct ThingCalls {
    r: Rng,
    top: VecDeque<CThing>,
    body: VecDeque<CBody>,
    ext: MExt,
}
impl ThingCalls {
    fn new(p: &Plan, mut r: Rng) -> Self {
        let t = &p.t;
        let mut c = Calls::new(r.fork());
        let mut ctx: Vec<CThing> = match &t.context {
            J::Arr(v) => v[1..].iter().cloned().map(CThing::Ctx).collect(),
            _ => vec![],
        };
        for _ in 0..2 {
            // Stating the implied context again changes nothing.
            if r.chance(1, 4) {
                let at = r.below(ctx.len() + 1);
                ctx.insert(at, CThing::Ctx(js(CTX11)));
            }
        }
        let mut defs = t.secdefs.clone();
        let mut req: Vec<_> = t
            .security
            .iter()
            .map(|k| {
                let d = defs.remove(k).expect("required definition");
                CThing::Sec(k.clone(), d, true)
            })
            .collect();
        let mut free: Vec<_> = defs.into_iter().map(|(k, d)| CThing::Sec(k, d, false)).collect();
        for (k, d) in &p.secs {
            // A clashing definition may come first or second.
            let v = if r.coin() { &mut req } else { &mut free };
            let at = r.below(v.len() + 1);
            v.insert(at, CThing::Sec(k.clone(), d.clone(), r.coin()));
        }
        if p.secs.is_empty() {
            r.shuffle(&mut free);
        }
        let g = vec![
            c.last(&t.id, decoy_s, CThing::Id),
            c.last(&t.info.description, decoy_s, CThing::Desc),
            c.last(
                &t.version,
                |_, _| MVersion {
                    instance: "decoy".into(),
                    model: Some("decoy".into()),
                },
                CThing::Version,
            ),
            c.last(&t.created, decoy_t, CThing::Created),
            c.last(&t.modified, decoy_t, CThing::Modified),
            c.last(&t.support, decoy_s, CThing::Support),
            c.last(&t.base, decoy_s, CThing::Base),
            ctx,
            t.info.attype.iter().flatten().cloned().map(CThing::AtType).collect(),
            c.last(&t.info.titles, decoy_m, CThing::Titles),
            c.last(&t.info.descriptions, decoy_m, CThing::Descs),
            t.links.iter().flatten().cloned().map(CThing::Link).collect(),
            req,
            free,
            t.profile.iter().flatten().cloned().map(CThing::Profile).collect(),
        ];
        let top = merge(&mut r, g);
        let mut g: Vec<Vec<CBody>> = vec![t.forms.iter().flatten().cloned().map(CBody::Form).collect()];
        for (k, v) in t.uri.iter().flatten() {
            g.push(vec![CBody::Uri(k.clone(), v.clone())]);
        }
        for (k, v) in t.schemas.iter().flatten() {
            g.push(vec![CBody::Schema(k.clone(), v.clone())]);
        }
        for (k, v) in t.properties.iter().flatten().chain(p.props.iter().map(|(k, v)| (k, v))) {
            g.push(vec![CBody::Prop(k.clone(), v.clone())]);
        }
        for (k, v) in t.actions.iter().flatten().chain(p.acts.iter().map(|(k, v)| (k, v))) {
            g.push(vec![CBody::Act(k.clone(), v.clone())]);
        }
        for (k, v) in t.events.iter().flatten().chain(p.evts.iter().map(|(k, v)| (k, v))) {
            g.push(vec![CBody::Evt(k.clone(), v.clone())]);
        }
        let body = merge(&mut r, g);
        ThingCalls {
            r,
            top,
            body,
            ext: t.ext.clone(),
        }
    }
}
fn decoy_t(r: &mut Rng, d: &MDt) -> MDt {
    MDt {
        y: 1980 + r.below(9) as i32,
        ..*d
    }
}

fn link(b: LinkBuilder<()>, m: &MLink, mut r: Rng) -> LinkBuilder<String> {
    let mut c = Calls::new(r.fork());
    let mut g: Vec<Vec<(usize, String)>> = vec![
        c.last(&m.ty, decoy_s, |x| (0, x)),
        c.last(&m.rel, decoy_s, |x| (1, x)),
        c.last(&m.anchor, decoy_s, |x| (2, x)),
        c.last(&m.sizes, decoy_s, |x| (3, x)),
        m.hreflang.iter().flatten().map(|x| (4, x.clone())).collect(),
    ];
    g.retain(|v| !v.is_empty());
    fn ap<H>(b: LinkBuilder<H>, (i, x): (usize, String)) -> LinkBuilder<H> {
        match i {
            0 => b.ty(x),
            1 => b.rel(x),
            2 => b.anchor(x),
            3 => b.sizes(x),
            _ => b.hreflang(x),
        }
    }
    let mut q = merge(&mut r, g);
    let k = r.below(q.len() + 1);
    let mut b = b;
    for _ in 0..k {
        b = ap(b, q.pop_front().expect("call"));
    }
    let mut b = b.href(m.href.as_str());
    for x in q {
        b = ap(b, x);
    }
    b
}

fn mid_top<P: ExtendableThing, S>(c: &mut ThingCalls, mut b: ThingBuilder<P, S>, all: bool) -> ThingBuilder<P, S> {
    while !c.top.is_empty() && (all || c.r.chance(2, 5)) {
        let mut r = c.r.fork();
        b = match c.top.pop_front().expect("call") {
            CThing::Id(x) => b.id(x),
            CThing::Desc(x) => b.description(x),
            CThing::Version(v) => match v.model {
                None if r.coin() => b.version(v.instance.as_str()),
                model => b.version(VersionInfo {
                    instance: v.instance,
                    model,
                }),
            },
            CThing::Created(d) => b.created(mk_date(&d)),
            CThing::Modified(d) => b.modified(mk_date(&d)),
            CThing::Support(x) => b.support(x),
            CThing::Base(x) => b.base(x),
            CThing::Ctx(J::Str(x)) => b.context(x),
            CThing::Ctx(j) => b.context_map(|b| {
                if let J::Obj(v) = &j {
                    for (k, x) in v {
                        if let J::Str(x) = x {
                            if r.chance(1, 5) {
                                b.context(k.as_str(), "decoy");
                            }
                            b.context(k.as_str(), x.as_str());
                        }
                    }
                }
                b
            }),
            CThing::AtType(x) => b.attype(x),
            CThing::Titles(m) => b.titles(|b| ml(b, &m)),
            CThing::Descs(m) => b.descriptions(|b| ml(b, &m)),
            CThing::Link(l) => {
                let bare = l.ty.is_none()
                    && l.rel.is_none()
                    && l.anchor.is_none()
                    && l.sizes.is_none()
                    && l.hreflang.is_none();
                if bare && r.coin() {
                    b.link(l.href)
                } else {
                    b.link_with(|b| link(b, &l, r))
                }
            }
            CThing::Sec(k, m, req) => sec(b, &k, &m, req, r),
            CThing::Profile(x) => b.profile(x),
        };
    }
    b
}

/// Runs one random program for the plan.
pub fn run<P: BProf>(p: &Plan, r: Rng) -> Result<Thing<P>, Error> {
    let mut c = ThingCalls::new(p, r);
    let c = &mut c;
    let title = p.t.info.title.clone().expect("title");
    let b = P::start(title, c);
    let mut b: ThingBuilder<P, Extended> = b.finish_extend();
    while !c.body.is_empty() {
        b = mid_top(c, b, false);
        let r = c.r.fork();
        b = match c.body.pop_front().expect("call") {
            CBody::Form(f) => b.form(|b| form::<P>(b, &f, r)),
            CBody::Uri(k, d) => b.uri_variable(k, |b| ds::<P>(b, &d, r)),
            CBody::Schema(k, d) => b.schema_definition(k, |b| ds::<P>(b, &d, r)),
            CBody::Prop(k, m) => b.property(k, |b| prop::<P>(b, &m, r)),
            CBody::Act(k, m) => b.action(k, |b| act::<P>(b, &m, r)),
            CBody::Evt(k, m) => b.event(k, |b| evt::<P>(b, &m, r)),
        };
    }
    mid_top(c, b, true).build()
}

// ---- profiles ----------------------------------------------------------------------------------

/// A stack of extensions that can be assembled through the builders.
pub trait BProf:
    Prof
    + Extendable
    + ExtendableThing<
        InteractionAffordance: Extendable,
        PropertyAffordance: Extendable,
        ActionAffordance: Extendable,
        EventAffordance: Extendable,
        Form: Extendable,
        ExpectedResponse: Extendable,
        DataSchema: Extendable,
        ArraySchema: Extendable,
        ObjectSchema: Extendable,
    >
{
    fn start(title: String, c: &mut ThingCalls) -> ThingBuilder<Self, ToExtend>;
    fn ext_ds(b: B0<Self>, m: &[MX], c: &mut Calls) -> B1<Self>;
    fn ext_prop_ds<I, X>(
        b: PropertyAffordanceBuilder<Self, PartialDataSchemaBuilder<Emp<D<Self>>, A<Self>, O<Self>, ToExtend>, I, X>,
        m: &[MX],
        c: &mut Calls,
    ) -> PropertyAffordanceBuilder<Self, PartialDataSchemaBuilder<D<Self>, A<Self>, O<Self>, ToExtend>, I, X>;
    fn ext_prop<C>(
        b: PropertyAffordanceBuilder<Self, C, Emp<Ia<Self>>, Emp<Pa<Self>>>,
        c: &mut Calls,
    ) -> PropertyAffordanceBuilder<Self, C, Ia<Self>, Pa<Self>>;
    fn ext_act(b: Ab0<Self>, c: &mut Calls) -> ActionAffordanceBuilder<Self, Ia<Self>, Aa<Self>>;
    fn ext_evt(b: Eb0<Self>, c: &mut Calls) -> EventAffordanceBuilder<Self, Ia<Self>, Ea<Self>>;
    fn ext_form<H>(b: FormBuilder<Self, H, Emp<Fo<Self>>>, c: &mut Calls) -> FormBuilder<Self, H, Fo<Self>>;
    fn mk_resp(e: Emp<Self::ExpectedResponse>, m: &[MX]) -> Self::ExpectedResponse;
    fn mk_arr(e: Emp<A<Self>>, m: &[MX]) -> A<Self>;
    fn mk_obj(e: Emp<O<Self>>, m: &[MX]) -> O<Self>;
}

fn one<T: PieceT>(m: &[MX], i: usize) -> T {
    T::mk(&m[i..i + 1])
}

macro_rules! bprof {
    ($t:ty: $(($i:literal, $e:ty)),*) => {
        #[allow(unused_variables)]
        impl BProf for $t {
            fn start(title: String, c: &mut ThingCalls) -> ThingBuilder<Self, ToExtend> {
                let b = if c.r.coin() {
                    ThingBuilder::<Nil, ToExtend>::new(title)
                } else {
                    ThingBuilder::<Self, ToExtend>::new_empty(title)
                };
                $(
                    let b = mid_top(c, b, false);
                    let x: $e = one(&c.ext, $i);
                    let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                )*
                b
            }
            fn ext_ds(b: B0<Self>, m: &[MX], c: &mut Calls) -> B1<Self> {
                let b = c.info(b, false);
                $(
                    let x: <$e as ExtendableThing>::DataSchema = one(m, $i);
                    let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                    let b = c.info(b, false);
                    let b = c.data::<_, _, _, _, _>(b, false);
                )*
                b
            }
            fn ext_prop_ds<I, X>(
                b: PropertyAffordanceBuilder<Self, PartialDataSchemaBuilder<Emp<D<Self>>, A<Self>, O<Self>, ToExtend>, I, X>,
                m: &[MX],
                c: &mut Calls,
            ) -> PropertyAffordanceBuilder<Self, PartialDataSchemaBuilder<D<Self>, A<Self>, O<Self>, ToExtend>, I, X> {
                $(
                    let x: <$e as ExtendableThing>::DataSchema = one(m, $i);
                    let b = if c.r.coin() { b.ext_data_schema(x) } else { b.ext_data_schema_with(|| x) };
                    let b = pre_prop(c, b, false);
                )*
                b
            }
            fn ext_prop<C>(
                b: PropertyAffordanceBuilder<Self, C, Emp<Ia<Self>>, Emp<Pa<Self>>>,
                c: &mut Calls,
            ) -> PropertyAffordanceBuilder<Self, C, Ia<Self>, Pa<Self>> {
                let (ia, pa) = (c.ia_ext.clone(), c.own_ext.clone());
                if c.r.coin() {
                    $(
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = if c.r.coin() { b.ext_interaction(x) } else { b.ext_interaction_with(|| x) };
                        let b = pre_prop(c, b, false);
                    )*
                    $(
                        let x: <$e as ExtendableThing>::PropertyAffordance = one(&pa, $i);
                        let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                        let b = pre_prop(c, b, false);
                    )*
                    b
                } else {
                    $(
                        let x: <$e as ExtendableThing>::PropertyAffordance = one(&pa, $i);
                        let b = b.ext(x);
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = b.ext_interaction(x);
                        let b = pre_prop(c, b, false);
                    )*
                    b
                }
            }
            fn ext_act(b: Ab0<Self>, c: &mut Calls) -> ActionAffordanceBuilder<Self, Ia<Self>, Aa<Self>> {
                let (ia, own) = (c.ia_ext.clone(), c.own_ext.clone());
                if c.r.coin() {
                    $(
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = if c.r.coin() { b.ext_interaction(x) } else { b.ext_interaction_with(|| x) };
                        let b = mid_act(c, b, false);
                    )*
                    $(
                        let x: <$e as ExtendableThing>::ActionAffordance = one(&own, $i);
                        let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                        let b = mid_act(c, b, false);
                    )*
                    b
                } else {
                    $(
                        let x: <$e as ExtendableThing>::ActionAffordance = one(&own, $i);
                        let b = b.ext(x);
                        let b = mid_act(c, b, false);
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = b.ext_interaction(x);
                    )*
                    b
                }
            }
            fn ext_evt(b: Eb0<Self>, c: &mut Calls) -> EventAffordanceBuilder<Self, Ia<Self>, Ea<Self>> {
                let (ia, own) = (c.ia_ext.clone(), c.own_ext.clone());
                if c.r.coin() {
                    $(
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = if c.r.coin() { b.ext_interaction(x) } else { b.ext_interaction_with(|| x) };
                        let b = mid_evt(c, b, false);
                    )*
                    $(
                        let x: <$e as ExtendableThing>::EventAffordance = one(&own, $i);
                        let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                        let b = mid_evt(c, b, false);
                    )*
                    b
                } else {
                    $(
                        let x: <$e as ExtendableThing>::EventAffordance = one(&own, $i);
                        let b = b.ext(x);
                        let b = mid_evt(c, b, false);
                        let x: <$e as ExtendableThing>::InteractionAffordance = one(&ia, $i);
                        let b = b.ext_interaction(x);
                    )*
                    b
                }
            }
            fn ext_form<H>(b: FormBuilder<Self, H, Emp<Fo<Self>>>, c: &mut Calls) -> FormBuilder<Self, H, Fo<Self>> {
                let own = c.own_ext.clone();
                $(
                    let x: <$e as ExtendableThing>::Form = one(&own, $i);
                    let b = if c.r.coin() { b.ext(x) } else { b.ext_with(|| x) };
                    let b = mid_form(c, b, false);
                )*
                b
            }
            fn mk_resp(e: Emp<Self::ExpectedResponse>, m: &[MX]) -> Self::ExpectedResponse {
                $(let e = e.ext(one::<<$e as ExtendableThing>::ExpectedResponse>(m, $i));)*
                e
            }
            fn mk_arr(e: Emp<A<Self>>, m: &[MX]) -> A<Self> {
                $(let e = e.ext(one::<<$e as ExtendableThing>::ArraySchema>(m, $i));)*
                e
            }
            fn mk_obj(e: Emp<O<Self>>, m: &[MX]) -> O<Self> {
                $(let e = e.ext_with(|| one::<<$e as ExtendableThing>::ObjectSchema>(m, $i));)*
                e
            }
        }
    };
}
bprof!(Nil:);
bprof!(PA: (0, UaThing));
bprof!(PBA: (1, UaThing), (0, UbThing));
bprof!(PHCM: (2, MqttProtocol), (1, CoapProtocol), (0, HttpProtocol));
bprof!(PUMA: (2, UaThing), (1, MqttProtocol), (0, UbThing));

/// Runs a generic function for a buildable profile chosen by index.
#[macro_export]
macro_rules! for_bprof {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 5 {
            0 => $f::<wot_td::hlist::Nil>($($a),*),
            1 => $f::<$crate::conv::PA>($($a),*),
            2 => $f::<$crate::conv::PBA>($($a),*),
            3 => $f::<$crate::conv::PUMA>($($a),*),
            _ => $f::<$crate::conv::PHCM>($($a),*),
        }
    };
}
