//! The 28 property types, their value alphabets, and type-erased operations on the real code.
use arena::generational_arena as ga;
use tp_client::baseline::Baseline;
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle::{DynStateHandlePrimitive, DynStateHandleVec};
use tp_client::contract::properties::channels::dyn_handle::{DynChannelHandlePrimitive, DynChannelHandleVec};
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::states::id::{DynStateIdPrimitive, DynStateIdVec};
use tp_client::contract::properties::channels::{DynChannelIdPrimitive, DynChannelIdVec};
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::*;
use tp_client::contract::ContractDataHandle;
use tp_client::object::{Object, ObjectHandle};

pub const NT: usize = 28;
/// Decoding result for a value that is not in the alphabet.
pub const ALIEN: u8 = 255;

/// Primitive types: number, alphabet, bitwise comparison.
pub trait Prim: ITpData {
    const P: usize;
    fn alpha() -> Vec<Self>;
    fn same(a: &Self, b: &Self) -> bool;
    /// The type's own equality.
    fn equal(a: &Self, b: &Self) -> bool {
        Self::same(a, b)
    }
    fn long(_len: usize, _at: Option<usize>) -> Option<Self> {
        None
    }
}
fn bit(i: usize, at: Option<usize>) -> usize {
    (i % 2 + i / 7 % 2 + (at == Some(i)) as usize) % 2
}
macro_rules! ints {
    ($($p:literal $t:ident),+) => {$(
        impl Prim for $t {
            const P: usize = $p;
            fn alpha() -> Vec<$t> {
                vec![3, <$t>::MAX, 0, <$t>::MIN, 1, <$t>::MAX / 2 + 1, (0 as $t).wrapping_sub(1) / 3, 127, <$t>::MAX - 1]
            }
            fn same(a: &$t, b: &$t) -> bool { a == b }
        }
    )+};
}
ints!(0 u8, 1 u16, 2 u32, 3 u64, 4 i8, 5 i16, 6 i32, 7 i64);
impl Prim for bool {
    const P: usize = 8;
    fn alpha() -> Vec<bool> { vec![true, false] }
    fn same(a: &bool, b: &bool) -> bool { a == b }
}
macro_rules! floats {
    ($($p:literal $t:ident),+) => {$(
        impl Prim for $t {
            const P: usize = $p;
            fn alpha() -> Vec<$t> {
                vec![1.5, -2.25, 0.0, -0.0, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN]
            }
            fn same(a: &$t, b: &$t) -> bool { a.to_bits() == b.to_bits() }
            fn equal(a: &$t, b: &$t) -> bool { a == b }
        }
    )+};
}
floats!(9 f32, 10 f64);
impl Prim for String {
    const P: usize = 11;
    fn alpha() -> Vec<String> {
        vec!["a".into(), "\u{10FFFF}\u{0}é漢".into(), "".into(), " a".into(), "A".into(), "long ".repeat(80)]
    }
    fn same(a: &String, b: &String) -> bool { a.as_bytes() == b.as_bytes() }
    fn long(len: usize, at: Option<usize>) -> Option<String> { Some((0..len).map(|i| ['x', 'y'][bit(i, at)]).collect()) }
}
fn idx(i: usize, g: u64) -> ga::Index { ga::Index::from_raw_parts(i, g) }
impl Prim for ObjectHandle {
    const P: usize = 12;
    fn alpha() -> Vec<Self> {
        [(1, 1), (2, 1), (1, 2), (0, 0), (usize::MAX, u64::MAX)].map(|(i, g)| arena::Index::new(idx(i, g))).to_vec()
    }
    fn same(a: &Self, b: &Self) -> bool { ga::Index::from(*a).into_raw_parts() == ga::Index::from(*b).into_raw_parts() }
}
impl Prim for ContractDataHandle {
    const P: usize = 13;
    fn alpha() -> Vec<Self> {
        [(1, 1), (2, 1), (1, 2), (0, 0), (usize::MAX, u64::MAX)].map(|(i, g)| arena::Index::new(idx(i, g))).to_vec()
    }
    fn same(a: &Self, b: &Self) -> bool { ga::Index::from(*a).into_raw_parts() == ga::Index::from(*b).into_raw_parts() }
}

/// A property type (primitive or vector of one), with explicit, per-variant conversions that do not
/// go through the conversions under test.
pub trait Prop: ITpPropertyStatic + Sized {
    const TY: usize;
    fn alpha() -> Vec<Self>;
    fn same(a: &Self, b: &Self) -> bool;
    fn equal(a: &Self, b: &Self) -> bool;
    fn to_dyn(self) -> DynTpProperty;
    fn from_dyn(d: &DynTpProperty) -> Option<&Self>;
    fn ref_same(d: &DynTpPropertyRef<'_>, v: &Self) -> bool;
    fn ref_decode(d: &DynTpPropertyRef<'_>) -> Option<Self>;
    fn mut_decode(d: &DynTpPropertyMut<'_>) -> Option<Self>;
    /// Stores through a dynamic mutable reference; `false` where the form cannot hold the value.
    fn mut_store(d: DynTpPropertyMut<'_>, v: Self) -> bool;
    fn state_handle(h: StateHandle<Self>) -> DynStateHandle;
    fn chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle;
    fn state_id(h: StateId<Self>) -> DynStateId;
    fn chan_id(h: ChannelId<Self>) -> DynChannelId;
    fn from_state_id(d: &DynStateId) -> Option<StateId<Self>>;
    fn from_chan_id(d: &DynChannelId) -> Option<ChannelId<Self>>;
    fn channel(c: Channel<Self>) -> DynChannel;
    fn from_channel(c: &DynChannel) -> Option<&Channel<Self>>;
    fn chan_ref<'a>(c: DynChannelRef<'a>) -> Option<&'a Channel<Self>>;
    fn chan_mut<'a>(c: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>>;
    fn prop_type_spec() -> TpPropertyType;
    fn vlen(&self) -> usize;
    /// A text or vector of any length, with one of its parts replaced. Other types have none.
    fn long(_len: usize, _at: Option<usize>) -> Option<Self> {
        None
    }
}
macro_rules! props {
    ($($t:ident $v:ident),+ $(,)?) => {$(
        impl Prop for $t {
            const TY: usize = <$t as Prim>::P;
            fn alpha() -> Vec<Self> { <$t as Prim>::alpha() }
            fn same(a: &Self, b: &Self) -> bool { <$t as Prim>::same(a, b) }
            fn equal(a: &Self, b: &Self) -> bool { <$t as Prim>::equal(a, b) }
            fn to_dyn(self) -> DynTpProperty { DynTpProperty::Primitive(DynTpPrimitive::$v(self)) }
            fn from_dyn(d: &DynTpProperty) -> Option<&Self> {
                if let DynTpProperty::Primitive(DynTpPrimitive::$v(x)) = d { Some(x) } else { None }
            }
            fn ref_same(d: &DynTpPropertyRef<'_>, v: &Self) -> bool {
                if let DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$v(x)) = d { <$t as Prim>::same(x, v) } else { false }
            }
            fn ref_decode(d: &DynTpPropertyRef<'_>) -> Option<Self> {
                if let DynTpPropertyRef::Primitive(DynTpPrimitiveRef::$v(x)) = d { Some((*x).clone()) } else { None }
            }
            fn mut_decode(d: &DynTpPropertyMut<'_>) -> Option<Self> {
                if let DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$v(x)) = d { Some((**x).clone()) } else { None }
            }
            fn mut_store(d: DynTpPropertyMut<'_>, v: Self) -> bool {
                if let DynTpPropertyMut::Primitive(DynTpPrimitiveMut::$v(x)) = d { *x = v; true } else { false }
            }
            fn state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::Primitive(DynStateHandlePrimitive::$v(h)) }
            fn chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v(h)) }
            fn state_id(h: StateId<Self>) -> DynStateId { DynStateId::Primitive(DynStateIdPrimitive::$v(h)) }
            fn chan_id(h: ChannelId<Self>) -> DynChannelId { DynChannelId::Primitive(DynChannelIdPrimitive::$v(h)) }
            fn from_state_id(d: &DynStateId) -> Option<StateId<Self>> {
                if let DynStateId::Primitive(DynStateIdPrimitive::$v(x)) = d { Some(x.clone()) } else { None }
            }
            fn from_chan_id(d: &DynChannelId) -> Option<ChannelId<Self>> {
                if let DynChannelId::Primitive(DynChannelIdPrimitive::$v(x)) = d { Some(x.clone()) } else { None }
            }
            fn channel(c: Channel<Self>) -> DynChannel { DynChannel::Primitive(DynChannelPrimitive::$v(c)) }
            fn from_channel(c: &DynChannel) -> Option<&Channel<Self>> {
                if let DynChannel::Primitive(DynChannelPrimitive::$v(x)) = c { Some(x) } else { None }
            }
            fn chan_ref<'a>(c: DynChannelRef<'a>) -> Option<&'a Channel<Self>> {
                if let DynChannelRef::Primitive(DynChannelPrimitiveRef::$v(x)) = c { Some(x) } else { None }
            }
            fn chan_mut<'a>(c: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>> {
                if let DynChannelMut::Primitive(DynChannelPrimitiveMut::$v(x)) = c { Some(x) } else { None }
            }
            fn prop_type_spec() -> TpPropertyType { TpPropertyType::Primitive(TpPrimitiveType::$v) }
            fn vlen(&self) -> usize { 0 }
            fn long(len: usize, at: Option<usize>) -> Option<Self> { <$t as Prim>::long(len, at) }
        }
        impl Prop for Vec<$t> {
            const TY: usize = 14 + <$t as Prim>::P;
            fn alpha() -> Vec<Self> {
                let a = <$t as Prim>::alpha();
                vec![
                    vec![a[0].clone(), a[1].clone()], vec![a[1].clone(), a[0].clone()], vec![], vec![a[0].clone()], vec![a[1].clone()],
                    a.clone(), (0..300).map(|i| a[i % a.len()].clone()).collect(),
                    // equal neighbours, ends alike
                    vec![a[0].clone(), a[0].clone()], vec![a[1].clone(), a[0].clone(), a[0].clone(), a[1].clone()],
                ]
            }
            fn same(a: &Self, b: &Self) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| <$t as Prim>::same(x, y)) }
            fn equal(a: &Self, b: &Self) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| <$t as Prim>::equal(x, y)) }
            fn to_dyn(self) -> DynTpProperty { DynTpProperty::Vec(DynTpVec::$v(self)) }
            fn from_dyn(d: &DynTpProperty) -> Option<&Self> {
                if let DynTpProperty::Vec(DynTpVec::$v(x)) = d { Some(x) } else { None }
            }
            fn ref_same(d: &DynTpPropertyRef<'_>, v: &Self) -> bool {
                if let DynTpPropertyRef::Vec(DynTpVecRef::$v(x)) = d { x.len() == v.len() && x.iter().zip(v).all(|(x, y)| <$t as Prim>::same(x, y)) } else { false }
            }
            fn ref_decode(d: &DynTpPropertyRef<'_>) -> Option<Self> {
                if let DynTpPropertyRef::Vec(DynTpVecRef::$v(x)) = d { Some(x.to_vec()) } else { None }
            }
            fn mut_decode(d: &DynTpPropertyMut<'_>) -> Option<Self> {
                if let DynTpPropertyMut::Vec(DynTpVecMut::$v(x)) = d { Some(x.to_vec()) } else { None }
            }
            fn mut_store(d: DynTpPropertyMut<'_>, v: Self) -> bool {
                if let DynTpPropertyMut::Vec(DynTpVecMut::$v(x)) = d {
                    if x.len() != v.len() { return false; }
                    x.clone_from_slice(&v);
                    true
                } else { false }
            }
            fn state_handle(h: StateHandle<Self>) -> DynStateHandle { DynStateHandle::Vec(DynStateHandleVec::$v(h)) }
            fn chan_handle(h: ChannelHandle<Self>) -> DynChannelHandle { DynChannelHandle::Vec(DynChannelHandleVec::$v(h)) }
            fn state_id(h: StateId<Self>) -> DynStateId { DynStateId::Vec(DynStateIdVec::$v(h)) }
            fn chan_id(h: ChannelId<Self>) -> DynChannelId { DynChannelId::Vec(DynChannelIdVec::$v(h)) }
            fn from_state_id(d: &DynStateId) -> Option<StateId<Self>> {
                if let DynStateId::Vec(DynStateIdVec::$v(x)) = d { Some(x.clone()) } else { None }
            }
            fn from_chan_id(d: &DynChannelId) -> Option<ChannelId<Self>> {
                if let DynChannelId::Vec(DynChannelIdVec::$v(x)) = d { Some(x.clone()) } else { None }
            }
            fn channel(c: Channel<Self>) -> DynChannel { DynChannel::Vec(DynChannelVec::$v(c)) }
            fn from_channel(c: &DynChannel) -> Option<&Channel<Self>> {
                if let DynChannel::Vec(DynChannelVec::$v(x)) = c { Some(x) } else { None }
            }
            fn chan_ref<'a>(c: DynChannelRef<'a>) -> Option<&'a Channel<Self>> {
                if let DynChannelRef::Vec(DynChannelVecRef::$v(x)) = c { Some(x) } else { None }
            }
            fn chan_mut<'a>(c: DynChannelMut<'a>) -> Option<&'a mut Channel<Self>> {
                if let DynChannelMut::Vec(DynChannelVecMut::$v(x)) = c { Some(x) } else { None }
            }
            fn prop_type_spec() -> TpPropertyType { TpPropertyType::Vec(TpPrimitiveType::$v) }
            fn vlen(&self) -> usize { self.len() }
            fn long(len: usize, at: Option<usize>) -> Option<Self> {
                let a = <$t as Prim>::alpha();
                Some((0..len).map(|i| a[bit(i, at)].clone()).collect())
            }
        }
    )+
        pub const NAMES: [&str; 28] = [$(stringify!($t)),+, $(concat!("Vec<", stringify!($t), ">")),+];
        pub fn ops() -> &'static [Ops; 28] {
            static O: std::sync::OnceLock<[Ops; 28]> = std::sync::OnceLock::new();
            O.get_or_init(|| [$(make::<$t>()),+, $(make::<Vec<$t>>()),+])
        }
    };
}
props!(u8 U8, u16 U16, u32 U32, u64 U64, i8 I8, i16 I16, i32 I32, i64 I64, bool Bool, f32 F32, f64 F64,
    String String, ObjectHandle ObjectHandle, ContractDataHandle ContractDataHandle);

/// The alphabet of `T`, made once.
pub fn alpha<T: Prop>() -> &'static Vec<T> {
    use std::sync::OnceLock;
    // one cell per type, kept in a type-erased table
    static TAB: [OnceLock<Box<dyn std::any::Any + Send + Sync>>; 28] = {
        const C: OnceLock<Box<dyn std::any::Any + Send + Sync>> = OnceLock::new();
        [C; 28]
    };
    TAB[T::TY]
        .get_or_init(|| {
            let mut a: Vec<T> = vec![];
            for x in T::alpha() {
                if !a.iter().any(|y| T::same(y, &x)) {
                    a.push(x)
                }
            }
            Box::new(a)
        })
        .downcast_ref()
        .unwrap()
}
pub fn val<T: Prop>(i: u8) -> T {
    alpha::<T>()[i as usize].clone()
}
pub fn decode<T: Prop>(v: &T) -> u8 {
    alpha::<T>().iter().position(|a| T::same(a, v)).map_or(ALIEN, |i| i as u8)
}
pub type Kfs = Vec<(u64, u8)>; // (time bits, value)
pub fn mk_chan<T: Prop>(k: &[(u64, u8)]) -> Channel<T> {
    Channel::new(k.iter().map(|(t, v)| Keyframe::new(val::<T>(*v), f64::from_bits(*t))))
}
pub fn decode_chan<T: Prop>(c: &Channel<T>) -> Kfs {
    c.keyframes().iter().map(|k| (k.time().to_bits(), decode(k.value()))).collect()
}

/// Ways to reach a state or channel.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Path {
    Typed,
    TypedMut,
    Dyn,
    DynMut,
    Handle,
    HandleMut,
    DynHandle,
    DynHandleMut,
    Index,
    IndexMut,
}
pub const STATE_READS: [Path; 10] = [Path::Typed, Path::TypedMut, Path::Dyn, Path::DynMut, Path::Handle, Path::HandleMut, Path::DynHandle, Path::DynHandleMut, Path::Index, Path::IndexMut];
pub const CHAN_READS: [Path; 8] = [Path::Typed, Path::TypedMut, Path::Handle, Path::HandleMut, Path::DynHandle, Path::DynHandleMut, Path::Index, Path::IndexMut];
pub const STATE_WRITES: [Path; 5] = [Path::TypedMut, Path::DynMut, Path::HandleMut, Path::DynHandleMut, Path::IndexMut];
pub const CHAN_WRITES: [Path; 4] = [Path::TypedMut, Path::HandleMut, Path::DynHandleMut, Path::IndexMut];

/// Operations on a property whose type is known only at run time. Handles are erased to raw indices.
pub struct Ops {
    pub ty: usize,
    pub n: fn() -> usize,
    pub veclen: fn(u8) -> usize,
    pub equal: fn(u8, u8) -> bool,
    pub type_id: fn() -> std::any::TypeId,
    pub spec: fn() -> TpPropertyType,
    pub stat: fn() -> TpPropertyType,
    pub mk: fn(u8) -> DynTpProperty,
    pub decode: fn(&DynTpProperty) -> Option<u8>,
    pub mk_chan: fn(&[(u64, u8)]) -> DynChannel,
    pub bind_state: fn(&Baseline, usize, ContractDataHandle, ObjectHandle) -> Option<ga::Index>,
    pub bind_chan: fn(&Baseline, usize, ContractDataHandle, ObjectHandle) -> Option<ga::Index>,
    pub obj_state: fn(&Object, usize, ContractDataHandle) -> ga::Index,
    pub obj_chan: fn(&Object, usize, ContractDataHandle) -> ga::Index,
    pub bind_dyn_state: fn(&Baseline, &DynStateId, ObjectHandle) -> Option<Option<ga::Index>>,
    pub bind_dyn_chan: fn(&Baseline, &DynChannelId, ObjectHandle) -> Option<Option<ga::Index>>,
    /// Is this the id of field `.1` of contract `.2` with this type?
    pub state_id_is: fn(&DynStateId, usize, ContractDataHandle) -> bool,
    pub chan_id_is: fn(&DynChannelId, usize, ContractDataHandle) -> bool,
    pub dyn_state_handle: fn(ga::Index) -> DynStateHandle,
    pub dyn_chan_handle: fn(ga::Index) -> DynChannelHandle,
    /// `None`: the lookup reported an error.
    pub read_state: fn(&mut Baseline, ga::Index, Path) -> Option<u8>,
    pub write_state: fn(&mut Baseline, ga::Index, Path, u8) -> bool,
    pub read_chan: fn(&mut Baseline, ga::Index, Path) -> Option<Kfs>,
    pub write_chan: fn(&mut Baseline, ga::Index, Path, &[(u64, u8)]) -> bool,
}

fn make<T: Prop>() -> Ops {
    fn sh<T: Prop>(i: ga::Index) -> StateHandle<T> {
        arena::Index::new(i)
    }
    fn chh<T: Prop>(i: ga::Index) -> ChannelHandle<T> {
        arena::Index::new(i)
    }
    fn read_state<T: Prop>(b: &mut Baseline, i: ga::Index, p: Path) -> Option<u8> {
        let h = sh::<T>(i);
        let dec = |o: Option<T>| o.map_or(ALIEN, |v| decode(&v));
        Some(match p {
            Path::Typed => decode(&b.state(h).ok()?.value),
            Path::TypedMut => decode(&b.state_mut(h).ok()?.value),
            Path::Dyn => dec(T::ref_decode(&b.state(T::state_handle(h)).ok()?.0)),
            Path::DynMut => dec(T::mut_decode(&b.state_mut(T::state_handle(h)).ok()?.0)),
            Path::Handle => decode(&IStateHandle::get(&h, b).ok()?.value),
            Path::HandleMut => decode(&IStateHandle::get_mut(&h, b).ok()?.value),
            Path::DynHandle => dec(T::ref_decode(&IStateHandle::get(&T::state_handle(h), b).ok()?.0)),
            Path::DynHandleMut => dec(T::mut_decode(&IStateHandle::get_mut(&T::state_handle(h), b).ok()?.0)),
            Path::Index => decode(&(*b)[h].value),
            Path::IndexMut => decode(&(&mut (*b)[h]).value),
        })
    }
    fn write_state<T: Prop>(b: &mut Baseline, i: ga::Index, p: Path, v: u8) -> bool {
        let h = sh::<T>(i);
        let v = val::<T>(v);
        match p {
            Path::TypedMut => b.state_mut(h).map(|s| s.value = v).is_ok(),
            Path::DynMut => b.state_mut(T::state_handle(h)).map_or(false, |s| T::mut_store(s.0, v)),
            Path::HandleMut => IStateHandle::get_mut(&h, b).map(|s| s.value = v).is_ok(),
            Path::DynHandleMut => IStateHandle::get_mut(&T::state_handle(h), b).map_or(false, |s| T::mut_store(s.0, v)),
            Path::IndexMut => {
                b[h].value = v;
                true
            }
            _ => panic!("HARNESS: not a write path"),
        }
    }
    fn read_chan<T: Prop>(b: &mut Baseline, i: ga::Index, p: Path) -> Option<Kfs> {
        let h = chh::<T>(i);
        let alien = || vec![(0, ALIEN)];
        Some(match p {
            Path::Typed => decode_chan(b.channel(h).ok()?),
            Path::TypedMut => decode_chan(b.channel_mut(h).ok()?),
            Path::Handle => decode_chan(IChannelHandle::get(&h, b).ok()?),
            Path::HandleMut => decode_chan(IChannelHandle::get_mut(&h, b).ok()?),
            Path::DynHandle => T::chan_ref(IChannelHandle::get(&T::chan_handle(h), b).ok()?).map_or_else(alien, decode_chan),
            Path::DynHandleMut => T::chan_mut(IChannelHandle::get_mut(&T::chan_handle(h), b).ok()?).map_or_else(alien, |c| decode_chan(c)),
            Path::Index => decode_chan(&(*b)[h]),
            Path::IndexMut => decode_chan(&mut (*b)[h]),
            _ => panic!("HARNESS: not a channel path"),
        })
    }
    fn write_chan<T: Prop>(b: &mut Baseline, i: ga::Index, p: Path, k: &[(u64, u8)]) -> bool {
        let h = chh::<T>(i);
        let new = || k.iter().map(|(t, v)| Keyframe::new(val::<T>(*v), f64::from_bits(*t))).collect::<Vec<_>>();
        match p {
            Path::TypedMut => b.channel_mut(h).map(|c| *c.keyframes_mut() = new()).is_ok(),
            Path::HandleMut => IChannelHandle::get_mut(&h, b).map(|c| *c.keyframes_mut() = new()).is_ok(),
            Path::DynHandleMut => match IChannelHandle::get_mut(&T::chan_handle(h), b) {
                Ok(c) => T::chan_mut(c).map(|c| *c.keyframes_mut() = new()).is_some(),
                Err(_) => false,
            },
            Path::IndexMut => {
                *b[h].keyframes_mut() = new();
                true
            }
            _ => panic!("HARNESS: not a channel write path"),
        }
    }
    fn n<T: Prop>() -> usize {
        alpha::<T>().len()
    }
    fn stat<T: Prop>() -> TpPropertyType {
        T::PROPERTY_TYPE
    }
    fn mk<T: Prop>(i: u8) -> DynTpProperty {
        val::<T>(i).to_dyn()
    }
    fn dec<T: Prop>(d: &DynTpProperty) -> Option<u8> {
        T::from_dyn(d).map(decode)
    }
    fn mkc<T: Prop>(k: &[(u64, u8)]) -> DynChannel {
        T::channel(mk_chan(k))
    }
    fn bs<T: Prop>(b: &Baseline, i: usize, c: ContractDataHandle, o: ObjectHandle) -> Option<ga::Index> {
        b.bind_state(StateId::<T>::new(i, c), o).ok().map(Into::into)
    }
    fn bc<T: Prop>(b: &Baseline, i: usize, c: ContractDataHandle, o: ObjectHandle) -> Option<ga::Index> {
        b.bind_channel(ChannelId::<T>::new(i, c), o).ok().map(Into::into)
    }
    fn os<T: Prop>(o: &Object, i: usize, c: ContractDataHandle) -> ga::Index {
        ObjBind::<T>::state(o, i, c)
    }
    fn oc<T: Prop>(o: &Object, i: usize, c: ContractDataHandle) -> ga::Index {
        ObjBind::<T>::chan(o, i, c)
    }
    fn bds<T: Prop>(b: &Baseline, d: &DynStateId, o: ObjectHandle) -> Option<Option<ga::Index>> {
        T::from_state_id(d).map(|id| b.bind_state(id, o).ok().map(Into::into))
    }
    fn bdc<T: Prop>(b: &Baseline, d: &DynChannelId, o: ObjectHandle) -> Option<Option<ga::Index>> {
        T::from_chan_id(d).map(|id| b.bind_channel(id, o).ok().map(Into::into))
    }
    fn dsh<T: Prop>(i: ga::Index) -> DynStateHandle {
        T::state_handle(sh(i))
    }
    fn dch<T: Prop>(i: ga::Index) -> DynChannelHandle {
        T::chan_handle(chh(i))
    }
    Ops {
        ty: T::TY,
        n: n::<T>,
        equal: |a, b| T::equal(&val(a), &val(b)),
        veclen: |v| val::<T>(v).vlen(),
        type_id: std::any::TypeId::of::<T>,
        spec: T::prop_type_spec,
        stat: stat::<T>,
        mk: mk::<T>,
        decode: dec::<T>,
        mk_chan: mkc::<T>,
        bind_state: bs::<T>,
        bind_chan: bc::<T>,
        obj_state: os::<T>,
        obj_chan: oc::<T>,
        bind_dyn_state: bds::<T>,
        bind_dyn_chan: bdc::<T>,
        state_id_is: |d, i, h| T::from_state_id(d) == Some(StateId::new(i, h)),
        chan_id_is: |d, i, h| T::from_chan_id(d) == Some(ChannelId::new(i, h)),
        dyn_state_handle: dsh::<T>,
        dyn_chan_handle: dch::<T>,
        read_state: read_state::<T>,
        write_state: write_state::<T>,
        read_chan: read_chan::<T>,
        write_chan: write_chan::<T>,
    }
}
/// `Object::state` exists only for primitive types; vectors have no such route.
struct ObjBind<T>(std::marker::PhantomData<T>);
impl<T: Prop> ObjBind<T> {
    fn state(o: &Object, i: usize, c: ContractDataHandle) -> ga::Index {
        macro_rules! go { ($($t:ty),+) => { match T::TY { $(x if x == <$t as Prim>::P => o.state(StateId::<$t>::new(i, c)).into(),)+ _ => panic!("HARNESS: no Object::state for vectors") } } }
        go!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle)
    }
    fn chan(o: &Object, i: usize, c: ContractDataHandle) -> ga::Index {
        macro_rules! go { ($($t:ty),+) => { match T::TY { $(x if x == <$t as Prim>::P => o.channel(ChannelId::<$t>::new(i, c)).into(),)+ _ => panic!("HARNESS: no Object::channel for vectors") } } }
        go!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle)
    }
}
pub fn o(ty: usize) -> &'static Ops {
    &ops()[ty]
}
/// All 28 types in one place: the static type table must agree with our own numbering.
pub fn type_of(ty: usize) -> TpPropertyType {
    (o(ty).spec)()
}
pub fn ty_of(t: TpPropertyType) -> usize {
    (0..NT).find(|i| type_of(*i) == t).expect("HARNESS: unknown type")
}
pub fn same_kfs(got: &[(u64, u8)], k: &[(u64, u8)]) -> bool {
    let (mut a, mut b) = (got.to_vec(), k.to_vec());
    a.sort();
    b.sort();
    a == b && got.windows(2).all(|w| !(f64::from_bits(w[0].0) > f64::from_bits(w[1].0)))
}
