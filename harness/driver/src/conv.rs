//! Extension types, profiles (stacks of extensions) and conversions between the crate's public
//! structs and the model. Observation reads public fields only, never the crate's own equality.
use crate::json::{from_value, s as js, to_value, J};
use crate::model::*;
use oxilangtag::LanguageTag;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use wot_td::extend::ExtendableThing;
use wot_td::hlist::{Cons, Nil};
use wot_td::protocol::{coap, http, mqtt};
use wot_td::thing::*;

macro_rules! user_piece {
    ($name:ident, $t:literal, $n:literal, $f:literal, $l:literal, $a:literal) => {
        #[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
        pub struct $name {
            #[serde(rename = $t, default, skip_serializing_if = "Option::is_none")]
            pub text: Option<String>,
            #[serde(rename = $n, default, skip_serializing_if = "Option::is_none")]
            pub num: Option<i64>,
            #[serde(rename = $f, default)]
            pub flag: bool,
            #[serde(rename = $l, default, skip_serializing_if = "Vec::is_empty")]
            pub list: Vec<String>,
            /// Always written, null when unset.
            #[serde(rename = $a, default)]
            pub any: serde_json::Value,
        }
        impl PieceT for $name {
            const N: usize = 1;
            fn mk(m: &[MX]) -> Self {
                match &m[0] {
                    MX::User { text, num, flag, list, any } => Self {
                        text: text.clone(),
                        num: *num,
                        flag: *flag,
                        list: list.clone(),
                        any: to_value(any),
                    },
                    x => panic!("piece mismatch {x:?}"),
                }
            }
            fn ob(&self, out: &mut MExt) {
                out.push(MX::User {
                    text: self.text.clone(),
                    num: self.num,
                    flag: self.flag,
                    list: self.list.clone(),
                    any: from_value(&self.any),
                });
            }
        }
    };
}
user_piece!(UaThing, "ua:thing-text", "ua:thing-num", "ua:thing-flag", "ua:thing-list", "ua:thing-any");
user_piece!(UaIa, "ua:ia-text", "ua:ia-num", "ua:ia-flag", "ua:ia-list", "ua:ia-any");
user_piece!(UaProp, "ua:prop-text", "ua:prop-num", "ua:prop-flag", "ua:prop-list", "ua:prop-any");
user_piece!(UaAct, "ua:act-text", "ua:act-num", "ua:act-flag", "ua:act-list", "ua:act-any");
user_piece!(UaEvt, "ua:evt-text", "ua:evt-num", "ua:evt-flag", "ua:evt-list", "ua:evt-any");
user_piece!(UaForm, "ua:form-text", "ua:form-num", "ua:form-flag", "ua:form-list", "ua:form-any");
user_piece!(UaResp, "ua:resp-text", "ua:resp-num", "ua:resp-flag", "ua:resp-list", "ua:resp-any");
user_piece!(UaDs, "ua:ds-text", "ua:ds-num", "ua:ds-flag", "ua:ds-list", "ua:ds-any");
user_piece!(UaObj, "ua:obj-text", "ua:obj-num", "ua:obj-flag", "ua:obj-list", "ua:obj-any");
user_piece!(UaArr, "ua:arr-text", "ua:arr-num", "ua:arr-flag", "ua:arr-list", "ua:arr-any");

impl ExtendableThing for UaThing {
    type InteractionAffordance = UaIa;
    type PropertyAffordance = UaProp;
    type ActionAffordance = UaAct;
    type EventAffordance = UaEvt;
    type Form = UaForm;
    type ExpectedResponse = UaResp;
    type DataSchema = UaDs;
    type ObjectSchema = UaObj;
    type ArraySchema = UaArr;
}
user_piece!(UbThing, "ub:thing-text", "ub:thing-num", "ub:thing-flag", "ub:thing-list", "ub:thing-any");
user_piece!(UbIa, "ub:ia-text", "ub:ia-num", "ub:ia-flag", "ub:ia-list", "ub:ia-any");
user_piece!(UbProp, "ub:prop-text", "ub:prop-num", "ub:prop-flag", "ub:prop-list", "ub:prop-any");
user_piece!(UbAct, "ub:act-text", "ub:act-num", "ub:act-flag", "ub:act-list", "ub:act-any");
user_piece!(UbEvt, "ub:evt-text", "ub:evt-num", "ub:evt-flag", "ub:evt-list", "ub:evt-any");
user_piece!(UbForm, "ub:form-text", "ub:form-num", "ub:form-flag", "ub:form-list", "ub:form-any");
user_piece!(UbResp, "ub:resp-text", "ub:resp-num", "ub:resp-flag", "ub:resp-list", "ub:resp-any");
user_piece!(UbDs, "ub:ds-text", "ub:ds-num", "ub:ds-flag", "ub:ds-list", "ub:ds-any");
user_piece!(UbObj, "ub:obj-text", "ub:obj-num", "ub:obj-flag", "ub:obj-list", "ub:obj-any");
user_piece!(UbArr, "ub:arr-text", "ub:arr-num", "ub:arr-flag", "ub:arr-list", "ub:arr-any");

impl ExtendableThing for UbThing {
    type InteractionAffordance = UbIa;
    type PropertyAffordance = UbProp;
    type ActionAffordance = UbAct;
    type EventAffordance = UbEvt;
    type Form = UbForm;
    type ExpectedResponse = UbResp;
    type DataSchema = UbDs;
    type ObjectSchema = UbObj;
    type ArraySchema = UbArr;
}

/// A typed extension piece convertible to and from the model.
pub trait PieceT: Clone + Debug + Default + PartialEq {
    /// Number of model entries it stands for.
    const N: usize;
    fn mk(m: &[MX]) -> Self;
    fn ob(&self, out: &mut MExt);
}
impl PieceT for Nil {
    const N: usize = 0;
    fn mk(_: &[MX]) -> Self {
        Nil
    }
    fn ob(&self, _: &mut MExt) {}
}
impl PieceT for () {
    const N: usize = 1;
    fn mk(_: &[MX]) -> Self {}
    fn ob(&self, out: &mut MExt) {
        out.push(MX::Unit);
    }
}
impl<T: PieceT, U: PieceT> PieceT for Cons<T, U> {
    const N: usize = T::N + U::N;
    fn mk(m: &[MX]) -> Self {
        Cons {
            head: T::mk(&m[..T::N]),
            tail: U::mk(&m[T::N..]),
        }
    }
    fn ob(&self, out: &mut MExt) {
        self.head.ob(out);
        self.tail.ob(out);
    }
}
macro_rules! unit_piece {
    ($($t:ty),*) => {$(
        impl PieceT for $t {
            const N: usize = 1;
            fn mk(_: &[MX]) -> Self {
                Self::default()
            }
            fn ob(&self, out: &mut MExt) {
                out.push(MX::Unit);
            }
        }
    )*};
}
unit_piece!(http::HttpProtocol, coap::CoapProtocol, mqtt::MqttProtocol);

fn ix<T: PartialEq>(v: &[T], x: &T) -> usize {
    v.iter().position(|y| y == x).expect("enumerated value")
}
pub const HM: [http::Method; 5] = [
    http::Method::Get,
    http::Method::Put,
    http::Method::Post,
    http::Method::Delete,
    http::Method::Patch,
];
pub const CM: [coap::Method; 7] = [
    coap::Method::Get,
    coap::Method::Put,
    coap::Method::Post,
    coap::Method::Delete,
    coap::Method::Patch,
    coap::Method::Fetch,
    coap::Method::Ipatch,
];
pub const BS: [coap::BlockSize; 7] = [
    coap::BlockSize::Size16,
    coap::BlockSize::Size32,
    coap::BlockSize::Size64,
    coap::BlockSize::Size128,
    coap::BlockSize::Size256,
    coap::BlockSize::Size512,
    coap::BlockSize::Size1024,
];
pub const CP: [mqtt::ControlPacket; 3] = [
    mqtt::ControlPacket::Publish,
    mqtt::ControlPacket::Subscribe,
    mqtt::ControlPacket::Unsubscribe,
];
pub const MQ: [mqtt::QoS; 3] = [
    mqtt::QoS::AtMostOnce,
    mqtt::QoS::AtLeastOnce,
    mqtt::QoS::ExactlyOnce,
];

impl PieceT for http::Form {
    const N: usize = 1;
    fn mk(m: &[MX]) -> Self {
        match &m[0] {
            MX::HttpForm { method } => http::Form {
                method_name: method.map(|i| HM[i]),
            },
            x => panic!("piece mismatch {x:?}"),
        }
    }
    fn ob(&self, out: &mut MExt) {
        out.push(MX::HttpForm {
            method: self.method_name.map(|m| ix(&HM, &m)),
        });
    }
}
impl PieceT for http::Response {
    const N: usize = 1;
    fn mk(m: &[MX]) -> Self {
        match &m[0] {
            MX::HttpResp { headers, status } => http::Response {
                headers: headers
                    .iter()
                    .map(|(a, b)| http::MessageHeader {
                        field_name: a.clone(),
                        field_value: b.clone(),
                    })
                    .collect(),
                status_code_value: status.map(|x| x as usize),
            },
            x => panic!("piece mismatch {x:?}"),
        }
    }
    fn ob(&self, out: &mut MExt) {
        out.push(MX::HttpResp {
            headers: self
                .headers
                .iter()
                .map(|h| (h.field_name.clone(), h.field_value.clone()))
                .collect(),
            status: self.status_code_value.map(|x| x as u64),
        });
    }
}
type Bw = Option<(Option<u16>, Option<u16>)>;
fn mk_bw(b: &Bw) -> Option<coap::BlockWiseTransferParameters> {
    b.as_ref().map(|(b2, b1)| coap::BlockWiseTransferParameters {
        block2_size: b2.map(|x| BS[ix(&BLOCK_SIZES, &x)]),
        block1_size: b1.map(|x| BS[ix(&BLOCK_SIZES, &x)]),
    })
}
fn ob_bw(b: &Option<coap::BlockWiseTransferParameters>) -> Bw {
    b.as_ref().map(|b| {
        (
            b.block2_size.map(|x| BLOCK_SIZES[ix(&BS, &x)]),
            b.block1_size.map(|x| BLOCK_SIZES[ix(&BS, &x)]),
        )
    })
}
impl PieceT for coap::Form {
    const N: usize = 1;
    fn mk(m: &[MX]) -> Self {
        match &m[0] {
            MX::CoapForm {
                method,
                blockwise,
                qblockwise,
                hop,
                accept,
                cf,
            } => coap::Form {
                method: method.map(|i| CM[i]),
                blockwise: mk_bw(blockwise),
                qblockwise: mk_bw(qblockwise),
                hop_limit: *hop,
                accept: *accept,
                content_format: *cf,
            },
            x => panic!("piece mismatch {x:?}"),
        }
    }
    fn ob(&self, out: &mut MExt) {
        out.push(MX::CoapForm {
            method: self.method.map(|m| ix(&CM, &m)),
            blockwise: ob_bw(&self.blockwise),
            qblockwise: ob_bw(&self.qblockwise),
            hop: self.hop_limit,
            accept: self.accept,
            cf: self.content_format,
        });
    }
}
impl PieceT for coap::ExpectedResponse {
    const N: usize = 1;
    fn mk(m: &[MX]) -> Self {
        match &m[0] {
            MX::CoapResp { cf } => coap::ExpectedResponse { content_format: *cf },
            x => panic!("piece mismatch {x:?}"),
        }
    }
    fn ob(&self, out: &mut MExt) {
        out.push(MX::CoapResp {
            cf: self.content_format,
        });
    }
}
impl PieceT for mqtt::Form {
    const N: usize = 1;
    fn mk(m: &[MX]) -> Self {
        match &m[0] {
            MX::MqttForm {
                retain,
                packet,
                qos,
                topic,
                filter,
            } => mqtt::Form {
                retain: *retain,
                control_packet: packet.map(|i| CP[i]),
                qos: qos.map(|i| MQ[i]),
                topic: topic.clone(),
                filter: filter.clone(),
            },
            x => panic!("piece mismatch {x:?}"),
        }
    }
    fn ob(&self, out: &mut MExt) {
        out.push(MX::MqttForm {
            retain: self.retain,
            packet: self.control_packet.map(|x| ix(&CP, &x)),
            qos: self.qos.map(|x| ix(&MQ, &x)),
            topic: self.topic.clone(),
            filter: self.filter.clone(),
        });
    }
}

/// A stack of extensions.
pub trait Prof:
    ExtendableThing<
        InteractionAffordance: PieceT,
        PropertyAffordance: PieceT,
        ActionAffordance: PieceT,
        EventAffordance: PieceT,
        Form: PieceT,
        ExpectedResponse: PieceT,
        DataSchema: PieceT,
        ObjectSchema: PieceT,
        ArraySchema: PieceT,
    > + PieceT
    + Serialize
    + for<'a> Deserialize<'a>
    + 'static
{
    const NAME: &'static str;
    const EXTS: &'static [Ext];
}
impl Prof for Nil {
    const NAME: &'static str = "none";
    const EXTS: &'static [Ext] = &[];
}
pub type PA = Cons<UaThing, Nil>;
impl Prof for PA {
    const NAME: &'static str = "single";
    const EXTS: &'static [Ext] = &[Ext::UA];
}
pub type PBA = Cons<UbThing, Cons<UaThing, Nil>>;
impl Prof for PBA {
    const NAME: &'static str = "stacked";
    const EXTS: &'static [Ext] = &[Ext::UB, Ext::UA];
}
impl Prof for UaThing {
    const NAME: &'static str = "direct";
    const EXTS: &'static [Ext] = &[Ext::UA];
}
pub type PHCM = Cons<http::HttpProtocol, Cons<coap::CoapProtocol, Cons<mqtt::MqttProtocol, Nil>>>;
impl Prof for PHCM {
    const NAME: &'static str = "bindings";
    const EXTS: &'static [Ext] = &[Ext::Http, Ext::Coap, Ext::Mqtt];
}

macro_rules! bare_prof {
    ($($t:ty, $n:literal, $e:expr;)*) => {$(
        impl Prof for $t {
            const NAME: &'static str = $n;
            const EXTS: &'static [Ext] = $e;
        }
    )*};
}
pub type PMC = Cons<mqtt::MqttProtocol, Cons<coap::CoapProtocol, Nil>>;
pub type PCH = Cons<coap::CoapProtocol, Cons<http::HttpProtocol, Nil>>;
pub type PUMA = Cons<UbThing, Cons<mqtt::MqttProtocol, Cons<UaThing, Nil>>>;
bare_prof! {
    http::HttpProtocol, "http", &[Ext::Http];
    coap::CoapProtocol, "coap", &[Ext::Coap];
    mqtt::MqttProtocol, "mqtt", &[Ext::Mqtt];
    PMC, "mqtt+coap", &[Ext::Mqtt, Ext::Coap];
    PCH, "coap+http", &[Ext::Coap, Ext::Http];
    PUMA, "user+mqtt+user", &[Ext::UB, Ext::Mqtt, Ext::UA];
}

pub type Ds<P> = DataSchema<
    <P as ExtendableThing>::DataSchema,
    <P as ExtendableThing>::ArraySchema,
    <P as ExtendableThing>::ObjectSchema,
>;

// ---- model -> crate -------------------------------------------------------------------------

pub fn tag(t: &str) -> LanguageTag<String> {
    LanguageTag::parse(t.to_string()).unwrap_or_else(|_| panic!("generator produced bad tag {t:?}"))
}
fn mk_ml(m: &Option<Map<String>>) -> Option<HashMap<LanguageTag<String>, String>> {
    m.as_ref()
        .map(|m| m.iter().map(|(k, v)| (tag(k), v.clone())).collect())
}
fn mk_map<T, U>(m: &Option<Map<T>>, f: impl Fn(&T) -> U) -> Option<HashMap<String, U>> {
    m.as_ref()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}

pub const OPERATIONS: [FormOperation; 18] = [
    FormOperation::ReadProperty,
    FormOperation::WriteProperty,
    FormOperation::ObserveProperty,
    FormOperation::UnobserveProperty,
    FormOperation::InvokeAction,
    FormOperation::QueryAction,
    FormOperation::CancelAction,
    FormOperation::SubscribeEvent,
    FormOperation::UnsubscribeEvent,
    FormOperation::ReadAllProperties,
    FormOperation::WriteAllProperties,
    FormOperation::ReadMultipleProperties,
    FormOperation::WriteMultipleProperties,
    FormOperation::ObserveAllProperties,
    FormOperation::UnobserveAllProperties,
    FormOperation::SubscribeAllEvents,
    FormOperation::UnsubscribeAllEvents,
    FormOperation::QueryAllActions,
];
pub const LOCATIONS: [SecurityAuthenticationLocation; 5] = [
    SecurityAuthenticationLocation::Header,
    SecurityAuthenticationLocation::Query,
    SecurityAuthenticationLocation::Body,
    SecurityAuthenticationLocation::Cookie,
    SecurityAuthenticationLocation::Uri,
];

pub fn mk_ds<P: Prof>(d: &MDs) -> Ds<P> {
    DataSchema {
        attype: d.info.attype.clone(),
        title: d.info.title.clone(),
        titles: mk_ml(&d.info.titles),
        description: d.info.description.clone(),
        descriptions: mk_ml(&d.info.descriptions),
        constant: d.constant.as_ref().map(to_value),
        default: d.default.as_ref().map(to_value),
        unit: d.unit.clone(),
        one_of: d.one_of.as_ref().map(|v| v.iter().map(mk_ds::<P>).collect()),
        enumeration: d.enumeration.as_ref().map(|v| v.iter().map(to_value).collect()),
        read_only: d.ro,
        write_only: d.wo,
        format: d.format.clone(),
        subtype: d.sub.as_ref().map(mk_sub::<P>),
        other: PieceT::mk(&d.ext),
    }
}
fn mk_min<T: Copy>(b: &Option<Bd<T>>) -> Option<Minimum<T>> {
    b.as_ref().map(|b| match b {
        Bd::In(x) => Minimum::Inclusive(*x),
        Bd::Ex(x) => Minimum::Exclusive(*x),
    })
}
fn mk_max<T: Copy>(b: &Option<Bd<T>>) -> Option<Maximum<T>> {
    b.as_ref().map(|b| match b {
        Bd::In(x) => Maximum::Inclusive(*x),
        Bd::Ex(x) => Maximum::Exclusive(*x),
    })
}
pub fn mk_sub<P: Prof>(
    x: &MSub,
) -> DataSchemaSubtype<P::DataSchema, P::ArraySchema, P::ObjectSchema> {
    match x {
        MSub::Bool => DataSchemaSubtype::Boolean,
        MSub::Null => DataSchemaSubtype::Null,
        MSub::Num { min, max, mult } => DataSchemaSubtype::Number(NumberSchema {
            maximum: mk_max(max),
            minimum: mk_min(min),
            multiple_of: *mult,
        }),
        MSub::Int { min, max, mult } => DataSchemaSubtype::Integer(IntegerSchema {
            maximum: mk_max(max),
            minimum: mk_min(min),
            multiple_of: mult.map(|x| std::num::NonZeroU64::new(x).expect("non-zero")),
        }),
        MSub::Str {
            min,
            max,
            pat,
            enc,
            media,
        } => DataSchemaSubtype::String(StringSchema {
            min_length: *min,
            max_length: *max,
            pattern: pat.clone(),
            content_encoding: enc.clone(),
            content_media_type: media.clone(),
        }),
        MSub::Arr {
            items,
            min,
            max,
            ext,
        } => DataSchemaSubtype::Array(ArraySchema {
            items: items.as_ref().map(|i| match i {
                MItems::One(x) => BoxedElemOrVec::Elem(Box::new(mk_ds::<P>(x))),
                MItems::Many(v) => BoxedElemOrVec::Vec(v.iter().map(mk_ds::<P>).collect()),
            }),
            min_items: *min,
            max_items: *max,
            other: PieceT::mk(ext),
        }),
        MSub::Obj { props, req, ext } => DataSchemaSubtype::Object(ObjectSchema {
            properties: mk_map(props, mk_ds::<P>),
            required: req.clone(),
            other: PieceT::mk(ext),
        }),
    }
}
pub fn mk_form<P: Prof>(f: &MForm) -> Form<P> {
    Form {
        op: match &f.op {
            None => DefaultedFormOperations::Default,
            Some(v) => DefaultedFormOperations::Custom(v.iter().map(|i| OPERATIONS[*i]).collect()),
        },
        href: f.href.clone(),
        content_type: f.ct.clone(),
        content_coding: f.coding.clone(),
        subprotocol: f.subproto.clone(),
        security: f.sec.clone(),
        scopes: f.scopes.clone(),
        response: f.resp.as_ref().map(|r| ExpectedResponse {
            content_type: r.ct.clone(),
            other: PieceT::mk(&r.ext),
        }),
        additional_responses: f.addl.as_ref().map(|v| {
            v.iter()
                .map(|a| AdditionalExpectedResponse {
                    success: a.success,
                    content_type: a.ct.clone(),
                    schema: a.schema.clone(),
                })
                .collect()
        }),
        other: PieceT::mk(&f.ext),
    }
}
pub fn mk_ia<P: Prof>(i: &MIa) -> InteractionAffordance<P> {
    InteractionAffordance {
        attype: i.info.attype.clone(),
        title: i.info.title.clone(),
        titles: mk_ml(&i.info.titles),
        description: i.info.description.clone(),
        descriptions: mk_ml(&i.info.descriptions),
        forms: i.forms.iter().map(mk_form::<P>).collect(),
        uri_variables: mk_map(&i.uri, mk_ds::<P>),
        other: PieceT::mk(&i.ext),
    }
}
pub fn mk_prop<P: Prof>(p: &MProp) -> PropertyAffordance<P> {
    PropertyAffordance {
        interaction: mk_ia::<P>(&p.ia),
        data_schema: mk_ds::<P>(&p.ds),
        observable: p.observable,
        other: PieceT::mk(&p.ext),
    }
}
pub fn mk_act<P: Prof>(a: &MAct) -> ActionAffordance<P> {
    ActionAffordance {
        interaction: mk_ia::<P>(&a.ia),
        input: a.input.as_ref().map(mk_ds::<P>),
        output: a.output.as_ref().map(mk_ds::<P>),
        safe: a.safe,
        idempotent: a.idem,
        synchronous: a.sync,
        other: PieceT::mk(&a.ext),
    }
}
pub fn mk_evt<P: Prof>(e: &MEvt) -> EventAffordance<P> {
    EventAffordance {
        interaction: mk_ia::<P>(&e.ia),
        subscription: e.subscription.as_ref().map(mk_ds::<P>),
        data: e.data.as_ref().map(mk_ds::<P>),
        data_response: e.response.as_ref().map(mk_ds::<P>),
        cancellation: e.cancellation.as_ref().map(mk_ds::<P>),
        other: PieceT::mk(&e.ext),
    }
}
pub fn mk_sec(x: &MSec) -> SecurityScheme {
    use KnownSecuritySchemeSubtype as K;
    let l = |i: &usize| LOCATIONS[*i].clone();
    let known = match &x.sub {
        MSecSub::NoSec => K::NoSec,
        MSecSub::Auto => K::Auto,
        MSecSub::OneOf(v) => K::Combo(ComboSecurityScheme::OneOf(v.clone())),
        MSecSub::AllOf(v) => K::Combo(ComboSecurityScheme::AllOf(v.clone())),
        MSecSub::Basic { loc, name } => K::Basic(BasicSecurityScheme {
            location: l(loc),
            name: name.clone(),
        }),
        MSecSub::Digest { qop, loc, name } => K::Digest(DigestSecurityScheme {
            qop: if *qop == 0 {
                QualityOfProtection::Auth
            } else {
                QualityOfProtection::AuthInt
            },
            location: l(loc),
            name: name.clone(),
        }),
        MSecSub::Bearer {
            authz,
            alg,
            format,
            loc,
            name,
        } => K::Bearer(BearerSecurityScheme {
            authorization: authz.clone(),
            alg: alg.clone().into(),
            format: format.clone().into(),
            location: l(loc),
            name: name.clone(),
        }),
        MSecSub::Psk { identity } => K::Psk(PskSecurityScheme {
            identity: identity.clone(),
        }),
        MSecSub::OAuth2 {
            authz,
            token,
            refresh,
            scopes,
            flow,
        } => K::OAuth2(OAuth2SecurityScheme {
            authorization: authz.clone(),
            token: token.clone(),
            refresh: refresh.clone(),
            scopes: scopes.clone(),
            flow: flow.clone(),
        }),
        MSecSub::ApiKey { loc, name } => K::ApiKey(ApiKeySecurityScheme {
            location: l(loc),
            name: name.clone(),
        }),
        MSecSub::Custom { .. } => K::NoSec,
    };
    SecurityScheme {
        attype: x.attype.clone(),
        description: x.description.clone(),
        descriptions: mk_ml(&x.descriptions),
        proxy: x.proxy.clone(),
        subtype: match &x.sub {
            MSecSub::Custom { scheme, data } => {
                SecuritySchemeSubtype::Unknown(UnknownSecuritySchemeSubtype {
                    scheme: scheme.clone(),
                    data: to_value(data),
                })
            }
            _ => SecuritySchemeSubtype::Known(known),
        },
    }
}
pub fn mk_link(l: &MLink) -> Link {
    Link {
        href: l.href.clone(),
        ty: l.ty.clone(),
        rel: l.rel.clone(),
        anchor: l.anchor.clone(),
        sizes: l.sizes.clone(),
        hreflang: l.hreflang.as_ref().map(|v| v.iter().map(|t| tag(t)).collect()),
    }
}
pub fn mk_date(d: &MDt) -> time::OffsetDateTime {
    let date = time::Date::from_calendar_date(
        d.y,
        time::Month::try_from(d.mo).expect("month"),
        d.d,
    )
    .expect("date");
    let t = time::Time::from_hms_nano(d.h, d.mi, d.s, d.ns).expect("time");
    let off = time::UtcOffset::from_hms((d.off / 60) as i8, (d.off % 60) as i8, 0).expect("offset");
    time::PrimitiveDateTime::new(date, t).assume_offset(off)
}
pub fn mk_thing<P: Prof>(t: &MThing) -> Thing<P> {
    Thing {
        context: to_value(&t.context),
        id: t.id.clone(),
        attype: t.info.attype.clone(),
        title: t.info.title.clone().expect("title"),
        titles: mk_ml(&t.info.titles),
        description: t.info.description.clone(),
        descriptions: mk_ml(&t.info.descriptions),
        version: t.version.as_ref().map(|v| VersionInfo {
            instance: v.instance.clone(),
            model: v.model.clone(),
        }),
        created: t.created.as_ref().map(mk_date),
        modified: t.modified.as_ref().map(mk_date),
        support: t.support.clone(),
        base: t.base.clone(),
        properties: mk_map(&t.properties, mk_prop::<P>),
        actions: mk_map(&t.actions, mk_act::<P>),
        events: mk_map(&t.events, mk_evt::<P>),
        links: t.links.as_ref().map(|v| v.iter().map(mk_link).collect()),
        forms: t.forms.as_ref().map(|v| v.iter().map(mk_form::<P>).collect()),
        security: t.security.clone(),
        security_definitions: t.secdefs.iter().map(|(k, v)| (k.clone(), mk_sec(v))).collect(),
        uri_variables: mk_map(&t.uri, mk_ds::<P>),
        profile: t.profile.clone(),
        schema_definitions: mk_map(&t.schemas, mk_ds::<P>),
        other: PieceT::mk(&t.ext),
    }
}

// ---- crate -> model -------------------------------------------------------------------------

fn ob_ml(m: &Option<HashMap<LanguageTag<String>, String>>) -> Option<Map<String>> {
    m.as_ref().map(|m| {
        m.iter()
            .map(|(k, v)| (k.as_str().to_string(), v.clone()))
            .collect()
    })
}
fn ob_map<T, U>(m: &Option<HashMap<String, T>>, f: impl Fn(&T) -> U) -> Option<Map<U>> {
    m.as_ref()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), f(v))).collect())
}
fn ob_ext<T: PieceT>(t: &T) -> MExt {
    let mut v = vec![];
    t.ob(&mut v);
    v
}
pub fn ob_ds<D: PieceT, A: PieceT, O: PieceT>(d: &DataSchema<D, A, O>) -> MDs {
    MDs {
        info: Info {
            attype: d.attype.clone(),
            title: d.title.clone(),
            titles: ob_ml(&d.titles),
            description: d.description.clone(),
            descriptions: ob_ml(&d.descriptions),
        },
        constant: d.constant.as_ref().map(from_value),
        default: d.default.as_ref().map(from_value),
        unit: d.unit.clone(),
        one_of: d.one_of.as_ref().map(|v| v.iter().map(ob_ds).collect()),
        enumeration: d.enumeration.as_ref().map(|v| v.iter().map(from_value).collect()),
        ro: d.read_only,
        wo: d.write_only,
        format: d.format.clone(),
        sub: d.subtype.as_ref().map(ob_sub),
        ext: ob_ext(&d.other),
    }
}
fn ob_min<T: Copy>(b: &Option<Minimum<T>>) -> Option<Bd<T>> {
    b.as_ref().map(|b| match b {
        Minimum::Inclusive(x) => Bd::In(*x),
        Minimum::Exclusive(x) => Bd::Ex(*x),
    })
}
fn ob_max<T: Copy>(b: &Option<Maximum<T>>) -> Option<Bd<T>> {
    b.as_ref().map(|b| match b {
        Maximum::Inclusive(x) => Bd::In(*x),
        Maximum::Exclusive(x) => Bd::Ex(*x),
    })
}
fn ob_sub<D: PieceT, A: PieceT, O: PieceT>(x: &DataSchemaSubtype<D, A, O>) -> MSub {
    match x {
        DataSchemaSubtype::Boolean => MSub::Bool,
        DataSchemaSubtype::Null => MSub::Null,
        DataSchemaSubtype::Number(n) => MSub::Num {
            min: ob_min(&n.minimum),
            max: ob_max(&n.maximum),
            mult: n.multiple_of,
        },
        DataSchemaSubtype::Integer(n) => MSub::Int {
            min: ob_min(&n.minimum),
            max: ob_max(&n.maximum),
            mult: n.multiple_of.map(|x| x.get()),
        },
        DataSchemaSubtype::String(x) => MSub::Str {
            min: x.min_length,
            max: x.max_length,
            pat: x.pattern.clone(),
            enc: x.content_encoding.clone(),
            media: x.content_media_type.clone(),
        },
        DataSchemaSubtype::Array(a) => MSub::Arr {
            items: a.items.as_ref().map(|i| match i {
                BoxedElemOrVec::Elem(x) => MItems::One(Box::new(ob_ds(x))),
                BoxedElemOrVec::Vec(v) => MItems::Many(v.iter().map(ob_ds).collect()),
            }),
            min: a.min_items,
            max: a.max_items,
            ext: ob_ext(&a.other),
        },
        DataSchemaSubtype::Object(o) => MSub::Obj {
            props: ob_map(&o.properties, ob_ds),
            req: o.required.clone(),
            ext: ob_ext(&o.other),
        },
    }
}
pub fn ob_form<P: Prof>(f: &Form<P>) -> MForm {
    MForm {
        op: match &f.op {
            DefaultedFormOperations::Default => None,
            DefaultedFormOperations::Custom(v) => {
                Some(v.iter().map(|o| ix(&OPERATIONS, o)).collect())
            }
        },
        href: f.href.clone(),
        ct: f.content_type.clone(),
        coding: f.content_coding.clone(),
        subproto: f.subprotocol.clone(),
        sec: f.security.clone(),
        scopes: f.scopes.clone(),
        resp: f.response.as_ref().map(|r| MResp {
            ct: r.content_type.clone(),
            ext: ob_ext(&r.other),
        }),
        addl: f.additional_responses.as_ref().map(|v| {
            v.iter()
                .map(|a| MAddl {
                    success: a.success,
                    ct: a.content_type.clone(),
                    schema: a.schema.clone(),
                })
                .collect()
        }),
        ext: ob_ext(&f.other),
    }
}
pub fn ob_ia<P: Prof>(i: &InteractionAffordance<P>) -> MIa {
    MIa {
        info: Info {
            attype: i.attype.clone(),
            title: i.title.clone(),
            titles: ob_ml(&i.titles),
            description: i.description.clone(),
            descriptions: ob_ml(&i.descriptions),
        },
        forms: i.forms.iter().map(ob_form).collect(),
        uri: ob_map(&i.uri_variables, ob_ds),
        ext: ob_ext(&i.other),
    }
}
pub fn ob_prop<P: Prof>(p: &PropertyAffordance<P>) -> MProp {
    MProp {
        ia: ob_ia(&p.interaction),
        ds: ob_ds(&p.data_schema),
        observable: p.observable,
        ext: ob_ext(&p.other),
    }
}
pub fn ob_act<P: Prof>(a: &ActionAffordance<P>) -> MAct {
    MAct {
        ia: ob_ia(&a.interaction),
        input: a.input.as_ref().map(ob_ds),
        output: a.output.as_ref().map(ob_ds),
        safe: a.safe,
        idem: a.idempotent,
        sync: a.synchronous,
        ext: ob_ext(&a.other),
    }
}
pub fn ob_evt<P: Prof>(e: &EventAffordance<P>) -> MEvt {
    MEvt {
        ia: ob_ia(&e.interaction),
        subscription: e.subscription.as_ref().map(ob_ds),
        data: e.data.as_ref().map(ob_ds),
        response: e.data_response.as_ref().map(ob_ds),
        cancellation: e.cancellation.as_ref().map(ob_ds),
        ext: ob_ext(&e.other),
    }
}
pub fn ob_sec(x: &SecurityScheme) -> MSec {
    use KnownSecuritySchemeSubtype as K;
    let l = |x: &SecurityAuthenticationLocation| ix(&LOCATIONS, x);
    MSec {
        attype: x.attype.clone(),
        description: x.description.clone(),
        descriptions: ob_ml(&x.descriptions),
        proxy: x.proxy.clone(),
        sub: match &x.subtype {
            SecuritySchemeSubtype::Unknown(u) => MSecSub::Custom {
                scheme: u.scheme.clone(),
                data: from_value(&u.data),
            },
            SecuritySchemeSubtype::Known(k) => match k {
                K::NoSec => MSecSub::NoSec,
                K::Auto => MSecSub::Auto,
                K::Combo(ComboSecurityScheme::OneOf(v)) => MSecSub::OneOf(v.clone()),
                K::Combo(ComboSecurityScheme::AllOf(v)) => MSecSub::AllOf(v.clone()),
                K::Basic(b) => MSecSub::Basic {
                    loc: l(&b.location),
                    name: b.name.clone(),
                },
                K::Digest(b) => MSecSub::Digest {
                    qop: match b.qop {
                        QualityOfProtection::Auth => 0,
                        QualityOfProtection::AuthInt => 1,
                    },
                    loc: l(&b.location),
                    name: b.name.clone(),
                },
                K::Bearer(b) => MSecSub::Bearer {
                    authz: b.authorization.clone(),
                    alg: b.alg.to_string(),
                    format: b.format.to_string(),
                    loc: l(&b.location),
                    name: b.name.clone(),
                },
                K::Psk(b) => MSecSub::Psk {
                    identity: b.identity.clone(),
                },
                K::OAuth2(b) => MSecSub::OAuth2 {
                    authz: b.authorization.clone(),
                    token: b.token.clone(),
                    refresh: b.refresh.clone(),
                    scopes: b.scopes.clone(),
                    flow: b.flow.clone(),
                },
                K::ApiKey(b) => MSecSub::ApiKey {
                    loc: l(&b.location),
                    name: b.name.clone(),
                },
            },
        },
    }
}
pub fn ob_link(l: &Link) -> MLink {
    MLink {
        href: l.href.clone(),
        ty: l.ty.clone(),
        rel: l.rel.clone(),
        anchor: l.anchor.clone(),
        sizes: l.sizes.clone(),
        hreflang: l
            .hreflang
            .as_ref()
            .map(|v| v.iter().map(|t| t.as_str().to_string()).collect()),
    }
}
pub fn ob_date(d: &time::OffsetDateTime) -> MDt {
    let (oh, om, _) = d.offset().as_hms();
    MDt {
        y: d.year(),
        mo: d.month() as u8,
        d: d.day(),
        h: d.hour(),
        mi: d.minute(),
        s: d.second(),
        ns: d.nanosecond(),
        off: oh as i16 * 60 + om as i16,
    }
}
pub fn ob_thing<P: Prof>(t: &Thing<P>) -> MThing {
    MThing {
        context: from_value(&t.context),
        id: t.id.clone(),
        info: Info {
            attype: t.attype.clone(),
            title: Some(t.title.clone()),
            titles: ob_ml(&t.titles),
            description: t.description.clone(),
            descriptions: ob_ml(&t.descriptions),
        },
        version: t.version.as_ref().map(|v| MVersion {
            instance: v.instance.clone(),
            model: v.model.clone(),
        }),
        created: t.created.as_ref().map(ob_date),
        modified: t.modified.as_ref().map(ob_date),
        support: t.support.clone(),
        base: t.base.clone(),
        properties: ob_map(&t.properties, ob_prop),
        actions: ob_map(&t.actions, ob_act),
        events: ob_map(&t.events, ob_evt),
        links: t.links.as_ref().map(|v| v.iter().map(ob_link).collect()),
        forms: t.forms.as_ref().map(|v| v.iter().map(ob_form).collect()),
        security: t.security.clone(),
        secdefs: t
            .security_definitions
            .iter()
            .map(|(k, v)| (k.clone(), ob_sec(v)))
            .collect::<BTreeMap<_, _>>(),
        uri: ob_map(&t.uri_variables, ob_ds),
        profile: t.profile.clone(),
        schemas: ob_map(&t.schema_definitions, ob_ds),
        ext: ob_ext(&t.other),
    }
}

/// Runs a generic function for a profile chosen by index.
#[macro_export]
macro_rules! for_profile {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i % 5 {
            0 => $f::<wot_td::hlist::Nil>($($a),*),
            1 => $f::<$crate::conv::PA>($($a),*),
            2 => $f::<$crate::conv::PBA>($($a),*),
            3 => $f::<$crate::conv::UaThing>($($a),*),
            _ => $f::<$crate::conv::PHCM>($($a),*),
        }
    };
}

#[allow(unused)]
fn _unused() -> J {
    js("")
}
