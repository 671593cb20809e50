//! The contracts that are serialized, and how a baseline of them looks.
use mcx::{ensure, viol, Res};
use std::any::TypeId;
use std::collections::BTreeMap;
use tp_client::apply_to_state_id;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::dynamic::{DynTpPrimitive, DynTpPrimitiveRef as P, DynTpProperty, DynTpPropertyRef};
use tp_client::contract::properties::dynamic::TpPropertyType;
use tp_client::contract::properties::states::dyn_state::DynStateRef;
use tp_client::contract::properties::states::IStates;
use tp_client::contract::properties::traits::ITpPropertyStatic;
use tp_client::contract::{states, Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

macro_rules! contract {
    ($c:ident, $s:ty, $new:expr, $name:literal, $v:expr) => {
        pub struct $c {
            handle: ContractDataHandle,
            states: $s,
        }
        impl Contract for $c {
            type States = $s;
            type Channels = ();
            const ID: ContractId = ContractId { name: $name, version: $v };
            fn new(handle: ContractDataHandle) -> Self {
                $c { handle, states: $new(handle) }
            }
            fn states(&self) -> &$s {
                &self.states
            }
            fn channels(&self) -> &() {
                &()
            }
            fn handle(&self) -> ContractDataHandle {
                self.handle
            }
        }
    };
}
macro_rules! fields {
    ($s:ident { $($f:ident: $t:ty),+ }) => {
        #[allow(dead_code)]
        #[states]
        pub struct $s { $($f: $t),+ }
    };
}
/// `#[states]` does not take lists.
macro_rules! lists {
    ($s:ident { $($f:ident: $t:ty),+ }) => {
        pub struct $s;
        impl $s {
            fn new(_: ContractDataHandle) -> Self {
                $s
            }
        }
        impl IStates for $s {
            fn type_ids() -> &'static [TypeId] {
                Box::leak(vec![$(TypeId::of::<$t>()),+].into())
            }
            fn enumerate_types() -> &'static [TpPropertyType] {
                &[$(<$t as ITpPropertyStatic>::PROPERTY_TYPE),+]
            }
            fn field_names() -> &'static [&'static str] {
                &[$(stringify!($f)),+]
            }
        }
    };
}
fn none(_: ContractDataHandle) {}
contract!(Leaf, (), none, "mc.leaf", (0, 0, 0));
fields!(NodeS { tag: u8, next: ObjectHandle, kind: ContractDataHandle });
contract!(Node, NodeS, NodeS::new, "mc.node", (1, 2, 3));
fields!(PairS { tag: u8, a: ObjectHandle, b: ObjectHandle });
contract!(Pair, PairS, PairS::new, "mc.pair", (0, 0, 1));
fields!(AllS { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: bool, j: f32, k: f64, l: String, m: ObjectHandle, n: ContractDataHandle });
contract!(All, AllS, AllS::new, "mc.all", (65535, 256, 255));
lists!(VecS { tag: u8, v: Vec<u8> });
contract!(Vecs, VecS, VecS::new, "mc.vecs", (0, 0, 1));
lists!(Vec2S { tag: u8, v: Vec<String>, w: u8 });
contract!(Vecs2, Vec2S, Vec2S::new, "mc.vecs2", (0, 0, 1));
pub struct ChanC;
impl tp_client::contract::properties::channels::IChannels for ChanC {
    fn type_ids() -> &'static [TypeId] {
        Box::leak(vec![TypeId::of::<u8>(), TypeId::of::<String>()].into())
    }
    fn enumerate_types() -> &'static [TpPropertyType] {
        &[<u8 as ITpPropertyStatic>::PROPERTY_TYPE, <String as ITpPropertyStatic>::PROPERTY_TYPE]
    }
    fn field_names() -> &'static [&'static str] {
        &["c", "d"]
    }
}
/// With channels, which are not written
pub struct Chan(ContractDataHandle, NodeS);
impl Contract for Chan {
    type States = NodeS;
    type Channels = ChanC;
    const ID: ContractId = ContractId { name: "mc.chan", version: (0, 0, 2) };
    fn new(handle: ContractDataHandle) -> Self {
        Chan(handle, NodeS::new(handle))
    }
    fn states(&self) -> &NodeS {
        &self.1
    }
    fn channels(&self) -> &ChanC {
        &ChanC
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}
// What takes the place of objects that are not made yet has this id while a baseline is read.
contract!(Null, (), none, "teleportal.serialize.NullContract", (0, 0, 0));
// nearly `Node`
contract!(NodeMajor, NodeS, NodeS::new, "mc.node", (2, 2, 3));
contract!(NodeMinor, NodeS, NodeS::new, "mc.node", (1, 3, 3));
contract!(NodePatch, NodeS, NodeS::new, "mc.node", (1, 2, 4));
contract!(NodeName, NodeS, NodeS::new, "mc.nodf", (1, 2, 3));
contract!(NodeLonger, NodeS, NodeS::new, "mc.node2", (1, 2, 3));
contract!(NodeShorter, NodeS, NodeS::new, "mc.nod", (1, 2, 3));
contract!(NodeLeaf, (), none, "mc.node", (1, 2, 3));
fields!(FieldS { tag: u8, nexu: ObjectHandle, kind: ContractDataHandle });
contract!(NodeField, FieldS, FieldS::new, "mc.node", (1, 2, 3));
fields!(TypeS { tag: i8, next: ObjectHandle, kind: ContractDataHandle });
contract!(NodeType, TypeS, TypeS::new, "mc.node", (1, 2, 3));
fields!(Type2S { tag: u8, next: ObjectHandle, kind: ObjectHandle });
contract!(NodeType2, Type2S, Type2S::new, "mc.node", (1, 2, 3));
fields!(OrderS { next: ObjectHandle, tag: u8, kind: ContractDataHandle });
contract!(NodeOrder, OrderS, OrderS::new, "mc.node", (1, 2, 3));
fields!(MoreS { tag: u8, next: ObjectHandle, kind: ContractDataHandle, more: bool });
contract!(NodeMore, MoreS, MoreS::new, "mc.node", (1, 2, 3));
fields!(LessS { tag: u8, next: ObjectHandle });
contract!(NodeLess, LessS, LessS::new, "mc.node", (1, 2, 3));
lists!(ListS { tag: Vec<u8>, next: ObjectHandle, kind: ContractDataHandle });
contract!(NodeList, ListS, ListS::new, "mc.node", (1, 2, 3));

/// A value as it is compared between baselines
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// which type, and its bits
    Num(&'static str, u64),
    Text(String),
    Obj(ObjectHandle),
    Con(ContractDataHandle),
}
pub fn vals<C: Contract>(b: &Baseline, c: &C, o: ObjectHandle) -> Res<Vec<Val>> {
    let mut v = vec![];
    for id in c.state_iter() {
        let got: Result<Val, String> = apply_to_state_id!(id, |id| -> Result<Val, String> {
            let h = b.bind_state(id, o).map_err(|e| format!("{e:#}"))?;
            let s = DynStateRef::from(b.state(h).map_err(|e| format!("{e:#}"))?);
            Ok(match s.0 {
                DynTpPropertyRef::Primitive(p) => match p {
                    P::U8(x) => Val::Num("u8", *x as u64),
                    P::U16(x) => Val::Num("u16", *x as u64),
                    P::U32(x) => Val::Num("u32", *x as u64),
                    P::U64(x) => Val::Num("u64", *x),
                    P::I8(x) => Val::Num("i8", *x as i64 as u64),
                    P::I16(x) => Val::Num("i16", *x as i64 as u64),
                    P::I32(x) => Val::Num("i32", *x as i64 as u64),
                    P::I64(x) => Val::Num("i64", *x as u64),
                    P::Bool(x) => Val::Num("bool", *x as u64),
                    // flatbuffers do not keep the sign of zero
                    P::F32(x) => Val::Num("f32", if *x == 0.0 { 0 } else { x.to_bits() as u64 }),
                    P::F64(x) => Val::Num("f64", if *x == 0.0 { 0 } else { x.to_bits() }),
                    P::String(x) => Val::Text(x.clone()),
                    P::ObjectHandle(x) => Val::Obj(*x),
                    P::ContractDataHandle(x) => Val::Con(*x),
                },
                DynTpPropertyRef::Vec(_) => Val::Text("a vector".into()),
            })
        });
        match got {
            Ok(x) => v.push(x),
            Err(e) => return viol("unreadable", format!("a state of {} cannot be read: {e}", C::ID.name)),
        }
    }
    Ok(v)
}
pub fn prop(p: impl Into<DynTpPrimitive>) -> DynTpProperty {
    DynTpProperty::Primitive(p.into())
}

/// Every object of a baseline with its contract's number and its values
pub type Seen = BTreeMap<u64, (ObjectHandle, usize, Vec<Val>)>;
/// The contracts of a baseline, by number
#[derive(Default)]
pub struct Cons {
    pub leaf: Option<Leaf>,
    pub node: Option<Node>,
    pub pair: Option<Pair>,
    pub all: Option<All>,
}
impl Cons {
    pub fn handles(&self) -> Vec<(usize, ContractDataHandle)> {
        [self.leaf.as_ref().map(|c| c.handle()), self.node.as_ref().map(|c| c.handle()), self.pair.as_ref().map(|c| c.handle()), self.all.as_ref().map(|c| c.handle())]
            .into_iter()
            .enumerate()
            .filter_map(|(i, h)| h.map(|h| (i, h)))
            .collect()
    }
    pub fn number(&self, h: ContractDataHandle) -> Option<usize> {
        self.handles().into_iter().find(|x| x.1 == h).map(|x| x.0)
    }
    pub fn look(&self, b: &Baseline, what: &str) -> Res<Vec<(ObjectHandle, usize, Vec<Val>)>> {
        let mut v = vec![];
        for (h, o) in b.iter_objects() {
            let Some(c) = self.number(o.contract()) else { return viol("foreign", format!("{what} has an object of a contract that is none of its own")) };
            let vals = match c {
                0 => vals(b, self.leaf.as_ref().unwrap(), h)?,
                1 => vals(b, self.node.as_ref().unwrap(), h)?,
                2 => vals(b, self.pair.as_ref().unwrap(), h)?,
                _ => vals(b, self.all.as_ref().unwrap(), h)?,
            };
            v.push((h, c, vals))
        }
        for (i, h) in self.handles() {
            let Ok(d) = b.contract_data(h) else { return viol("contracts", format!("{what}: contract {i} is not registered")) };
            let mine: Vec<ObjectHandle> = v.iter().filter(|x| x.1 == i).map(|x| x.0).collect();
            ensure!(d.objects().len() == mine.len() && mine.iter().all(|m| d.objects().contains(m)), "contracts", "{what}: contract {i} lists {} objects, there are {}", d.objects().len(), mine.len());
        }
        Ok(v)
    }
}
