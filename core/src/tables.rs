//! Dynamic forms of values, handles, ids, states and channels (C17) and their equality (C18).
use mc_core::types::*;
use better_borrow::{BBorrow, BBorrowMut};
use mcx::{ensure, fnv, hash_of, Ctx};
use std::any::TypeId;
use tp_client::contract::properties::channels::dyn_channel::*;
use tp_client::contract::properties::channels::dyn_handle::{DynChannelHandlePrimitive, DynChannelHandleVec};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::dyn_handle::{DynStateHandlePrimitive, DynStateHandleVec};
use tp_client::contract::properties::states::dyn_state::{DynStateMut, DynStateRef};
use tp_client::contract::properties::states::id::{DynStateIdPrimitive, DynStateIdVec};
use tp_client::contract::properties::states::*;
use tp_client::contract::properties::traits::*;
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use tp_client::{apply_to_channel, apply_to_channel_handle, apply_to_channel_id, apply_to_channel_mut, apply_to_channel_ref, apply_to_prop, apply_to_state_handle, apply_to_state_id};

fn raw(i: usize, g: u64) -> arena::generational_arena::Index {
    arena::generational_arena::Index::from_raw_parts(i, g)
}
fn contract(n: usize) -> ContractDataHandle {
    arena::Index::new(raw(n, 7 + n as u64))
}

/// (form, value as seen through it, type as reported by it)
type Views = Vec<(&'static str, u8, TpPropertyType)>;

/// Conversions of one property type, erased to value numbers.
struct Conv {
    ty: usize,
    data_type: Option<TpPrimitiveType>,
    /// Every way of making the owned dynamic form.
    owned: fn(u8) -> Vec<(&'static str, DynTpProperty)>,
    /// Every way of extracting this type from an owned dynamic value.
    extract: fn(&DynTpProperty) -> Vec<(&'static str, Option<u8>)>,
    refs: fn(u8) -> Views,
    muts: fn(u8, u8) -> Views,
    states: fn(u8, u8) -> Views,
    /// Channel forms; keyframes are decoded and compared here.
    chans: fn(&[(u64, u8)], &[(u64, u8)]) -> Vec<(&'static str, bool, TpPropertyType)>,
    chan_extract: fn(&[(u64, u8)], usize) -> Vec<(&'static str, bool)>,
    handles: fn(usize, u64) -> Vec<(&'static str, Option<(usize, u64)>, TpPropertyType)>,
    sh_extract: fn(DynStateHandle) -> Vec<(&'static str, Option<(usize, u64)>)>,
    ch_extract: fn(DynChannelHandle) -> Vec<(&'static str, Option<(usize, u64)>)>,
    dsh: fn(usize, u64) -> DynStateHandle,
    dch: fn(usize, u64) -> DynChannelHandle,
    ids: fn(usize, usize) -> Vec<(&'static str, bool)>,
    id_extract: fn(TpPropertyType, usize, usize) -> Vec<(&'static str, Option<bool>)>,
    static_types: fn(u8) -> Vec<(&'static str, TpPropertyType)>,
    chan_owned: fn(&[(u64, u8)]) -> Vec<(&'static str, bool, TpPropertyType)>,
    // ---- equality ----
    rich: fn() -> usize,
    rich_dyn: fn(usize) -> DynTpProperty,
    rich_equal: fn(usize, usize) -> bool,
    /// Compares a dynamic value with our value `i` in every implemented way.
    eq_static: fn(&mut DynTpProperty, usize) -> Vec<(&'static str, bool)>,
    /// Makes a long value with nothing or one part replaced, and compares it with a long one in every
    /// implemented way; then the expected outcome. `None` for types without long values.
    eq_long: fn(usize, usize, Option<usize>) -> Option<(Vec<(&'static str, bool)>, bool)>,
    /// A long value through every dynamic form: the forms that changed it.
    through_long: fn(usize) -> Option<Vec<&'static str>>,
}

/// More values, for equality: all single-bit changes, near-equal texts and vectors.
trait Rich: Prim {
    fn flips() -> Vec<Self>;
}
macro_rules! rich_ints { ($($t:ident),+) => {$(
    impl Rich for $t {
        fn flips() -> Vec<$t> { (0..<$t>::BITS).map(|b| (3 as $t) ^ ((1 as $t) << b)).chain(<$t as Prim>::alpha()).collect() }
    }
)+}; }
rich_ints!(u8, u16, u32, u64, i8, i16, i32, i64);
impl Rich for bool {
    fn flips() -> Vec<bool> { vec![true, false] }
}
impl Rich for f32 {
    fn flips() -> Vec<f32> { (0..32).map(|b| f32::from_bits(1.5f32.to_bits() ^ (1 << b))).chain(<f32 as Prim>::alpha()).chain([f32::from_bits(0x7fc00001), f32::from_bits(1)]).collect() }
}
impl Rich for f64 {
    fn flips() -> Vec<f64> { (0..64).map(|b| f64::from_bits(1.5f64.to_bits() ^ (1 << b))).chain(<f64 as Prim>::alpha()).chain([f64::from_bits(0x7ff8000000000001), f64::from_bits(1), 0.1f32 as f64]).collect() }
}
impl Rich for String {
    fn flips() -> Vec<String> {
        let mut v: Vec<String> = <String as Prim>::alpha();
        for b in 0..7 {
            v.push(String::from_utf8(vec![b'a' ^ (1 << b)]).unwrap());
            v.push(String::from_utf8(vec![b'a', b'b' ^ (1 << b)]).unwrap());
        }
        v.extend(["a\0", "\0a", "a ", "aa", "é", "e\u{301}", "ß", "SS", "\u{feff}a", "0", "false"].map(String::from));
        v
    }
}
macro_rules! rich_handles { ($($t:ident),+) => {$(
    impl Rich for $t {
        fn flips() -> Vec<$t> {
            let mut v = <$t as Prim>::alpha();
            for b in [0, 1, 7, 8, 31, 32, 63] {
                v.push(arena::Index::new(raw(5 ^ (1 << b), 9)));
                v.push(arena::Index::new(raw(5, 9 ^ (1 << b))));
            }
            v.push(arena::Index::new(raw(9, 5)));
            v
        }
    }
)+}; }
rich_handles!(ObjectHandle, ContractDataHandle);

/// Values for the equality checks, made once per type.
trait RichProp: Prop {
    fn rich_make() -> Vec<Self>;
}
macro_rules! rich_props { ($($t:ident),+) => {$(
    impl RichProp for $t { fn rich_make() -> Vec<$t> { <$t as Rich>::flips() } }
    impl RichProp for Vec<$t> {
        fn rich_make() -> Vec<Vec<$t>> {
            let f = <$t as Rich>::flips();
            let mut v: Vec<Vec<$t>> = f.iter().map(|x| vec![x.clone()]).collect();
            let few: Vec<$t> = f.iter().take(4).cloned().chain(<$t as Prim>::alpha()).collect();
            for a in &few { for b in &few { v.push(vec![a.clone(), b.clone()]); } }
            v.extend(<Vec<$t> as Prop>::alpha());
            // long ones that differ in one place only
            let base: Vec<$t> = (0..40).map(|i| few[i % 2].clone()).collect();
            for at in [0, 1, 19, 38, 39] { let mut w = base.clone(); w[at] = few[(at + 1) % 2].clone(); v.push(w); }
            v.push(base[..39].to_vec());
            v.push(base);
            v
        }
    }
)+}; }
rich_props!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle);
fn rich<T: RichProp>() -> &'static Vec<T> {
    use std::sync::OnceLock;
    static TAB: [OnceLock<Box<dyn std::any::Any + Send + Sync>>; 28] = {
        const C: OnceLock<Box<dyn std::any::Any + Send + Sync>> = OnceLock::new();
        [C; 28]
    };
    TAB[T::TY]
        .get_or_init(|| {
            let mut a: Vec<T> = vec![];
            for x in T::alpha().into_iter().chain(T::rich_make()) {
                if !a.iter().any(|y| T::same(y, &x)) {
                    a.push(x)
                }
            }
            Box::new(a)
        })
        .downcast_ref()
        .unwrap()
}

fn chan_is<T: Prop>(c: &Channel<T>, k: &[(u64, u8)]) -> bool {
    same_kfs(&decode_chan(c), k)
}
/// Is `got` the keyframes of `k`, ordered by time? (Those of the same time may come in any order.)

// what a visitor was given
fn own_ty<T: Prop>(x: &T) -> (usize, u8, TypeId) {
    (T::TY, decode(x), TypeId::of::<T>())
}
fn sh_ty<T: Prop>(h: StateHandle<T>) -> (usize, (usize, u64)) {
    (T::TY, arena::generational_arena::Index::from(h).into_raw_parts())
}
fn ch_ty<T: Prop>(h: ChannelHandle<T>) -> (usize, (usize, u64)) {
    (T::TY, arena::generational_arena::Index::from(h).into_raw_parts())
}
fn sid_ty<T: Prop>(h: StateId<T>, i: usize, c: ContractDataHandle) -> (usize, bool) {
    (T::TY, h == StateId::new(i, c) && h.contract() == c)
}
fn cid_ty<T: Prop>(h: ChannelId<T>, i: usize, c: ContractDataHandle) -> (usize, bool) {
    (T::TY, h == ChannelId::new(i, c) && h.contract() == c)
}
fn chan_ty<T: Prop>(c: &Channel<T>) -> (usize, Kfs) {
    (T::TY, decode_chan(c))
}

macro_rules! convs {
    ($($t:ident $v:ident),+ $(,)?) => {
        fn convs() -> &'static [Conv; 28] {
            static C: std::sync::OnceLock<[Conv; 28]> = std::sync::OnceLock::new();
            C.get_or_init(|| [$(prim::$t::conv()),+, $(vecs::$t::conv()),+])
        }
        #[allow(non_snake_case)]
        mod prim {
            $(pub mod $t {
                use super::super::*;
                type T = $t;
                const D: &str = stringify!($t);
                fn owned(v: u8) -> Vec<(&'static str, DynTpProperty)> {
                    let x = || val::<T>(v);
                    vec![
                        ("DynTpProperty::from(T)", DynTpProperty::from(x())),
                        ("T.into()", x().into()),
                        ("DynTpProperty::from(DynTpPrimitive::from(T))", DynTpProperty::from(DynTpPrimitive::from(x()))),
                        ("DynTpProperty::Primitive(T.into())", DynTpProperty::Primitive(x().into())),
                        ("clone", DynTpProperty::from(x()).clone()),
                        ("DynState::from(State::new(T)).0", DynState::from(State::new(x())).0),
                        ("DynTpProperty::from(DynState)", DynTpProperty::from(DynState::from(State::new(x())))),
                        ("DynState(DynTpProperty).clone()", DynState::from(DynTpProperty::from(x())).clone().0),
                    ]
                }
                fn extract(d: &DynTpProperty) -> Vec<(&'static str, Option<u8>)> {
                    let p: Option<DynTpPrimitive> = d.clone().try_into().ok();
                    let p2: Option<DynTpPrimitive> = DynTpPrimitive::try_from(d.clone()).ok();
                    vec![
                        ("try_into::<DynTpPrimitive>()?.try_into::<T>()", p.and_then(|p| { let r: Result<T, _> = p.try_into(); r.ok() }).map(|x| decode(&x))),
                        ("T::try_from(DynTpPrimitive::try_from(d)?)", p2.and_then(|p| T::try_from(p).ok()).map(|x| decode(&x))),
                    ]
                }
                fn seen(f: &'static str, r: DynTpPropertyRef<'_>) -> [(&'static str, u8, TpPropertyType); 1] {
                    let t = r.prop_type();
                    [(f, T::ref_decode(&r).map_or(ALIEN, |x| decode(&x)), t)]
                }
                fn refs(v: u8) -> Views {
                    let x = val::<T>(v);
                    let d = DynTpProperty::from(x.clone());
                    let mut o = vec![];
                    o.extend(seen("DynTpPropertyRef::from(&T)", DynTpPropertyRef::from(&x)));
                    let p = DynTpPrimitiveRef::from(&x);
                    o.push(("DynTpPrimitiveRef::prop_type", v, p.prop_type()));
                    o.extend(seen("DynTpPropertyRef::from(DynTpPrimitiveRef)", DynTpPropertyRef::from(p)));
                    o.extend(seen("clone of a DynTpPrimitiveRef", DynTpPropertyRef::Primitive(p.clone())));
                    o.extend(seen("DynTpPropertyRef::from(&DynTpProperty)", DynTpPropertyRef::from(&d)));
                    o.extend(seen("BBorrow::borrow(&DynTpProperty)", BBorrow::<DynTpPropertyRef>::borrow(&d)));
                    o.extend(seen("BBorrow::borrow(&&DynTpProperty)", BBorrow::<DynTpPropertyRef>::borrow(&&d)));
                    let r = DynTpPropertyRef::from(&d);
                    o.extend(seen("clone of a DynTpPropertyRef", r.clone()));
                    let c = r;
                    o.extend(seen("copy of a DynTpPropertyRef", c));
                    o
                }
                fn muts(v: u8, w: u8) -> Views {
                    let mut o = vec![];
                    let ways: [(&'static str, fn(&mut T, &mut DynTpProperty, &mut dyn FnMut(DynTpPropertyMut<'_>)) -> bool); 6] = [
                        ("DynTpPropertyMut::from(&mut T)", |x, _, f| { f(DynTpPropertyMut::from(x)); false }),
                        ("DynTpPropertyMut::from(DynTpPrimitiveMut::from(&mut T))", |x, _, f| { f(DynTpPropertyMut::from(DynTpPrimitiveMut::from(x))); false }),
                        ("DynTpPropertyMut::from(&mut DynTpProperty)", |_, d, f| { f(DynTpPropertyMut::from(d)); true }),
                        ("BBorrowMut::borrow_mut(&mut DynTpProperty)", |_, d, f| { f(BBorrowMut::<DynTpPropertyMut>::borrow_mut(d)); true }),
                        ("BBorrowMut::borrow_mut(&mut &mut DynTpProperty)", |_, mut d, f| { f(BBorrowMut::<DynTpPropertyMut>::borrow_mut(&mut d)); true }),
                        ("DynTpPropertyMut::Primitive((&mut T).into())", |x, _, f| { f(DynTpPropertyMut::Primitive(x.into())); false }),
                    ];
                    for (name, way) in ways {
                        let mut x = val::<T>(v);
                        let mut d = DynTpProperty::from(x.clone());
                        let mut ty = TpPropertyType::Vec(TpPrimitiveType::U8);
                        let mut got = ALIEN;
                        let dynamic = way(&mut x, &mut d, &mut |m| {
                            ty = m.prop_type();
                            got = T::mut_decode(&m).map_or(ALIEN, |x| decode(&x));
                            if !T::mut_store(m, val::<T>(w)) { got = ALIEN }
                        });
                        let after = if dynamic { T::from_dyn(&d).map_or(ALIEN, decode) } else { decode(&x) };
                        o.push((name, if after == w { got } else { ALIEN }, ty));
                    }
                    let mut x = val::<T>(v);
                    o.push(("DynTpPrimitiveMut::prop_type", v, DynTpPrimitiveMut::from(&mut x).prop_type()));
                    o
                }
                pub(in super::super) fn conv() -> Conv {
                    Conv {
                        data_type: Some(<T as ITpData>::DATA_TYPE), owned, extract, refs, muts, chan_extract, handles, sh_extract, ch_extract, id_extract, eq_static, eq_long,
                        static_types: |v| {
                            let x = val::<T>(v);
                            let p = DynTpPrimitive::from(x.clone());
                            let d = DynTpProperty::from(x.clone());
                            vec![
                                ("T::PROPERTY_TYPE", T::PROPERTY_TYPE), ("ITpProperty::prop_type(&T)", ITpProperty::prop_type(&x)),
                                ("DynTpPrimitive::prop_type", p.prop_type()), ("DynTpProperty::prop_type", d.prop_type()),
                                ("ITpProperty::prop_type(&DynTpProperty)", ITpProperty::prop_type(&d)),
                            ]
                        },
                        chan_owned: |k| {
                            let d = DynChannel::from(DynChannelPrimitive::from(mk_chan::<T>(k)));
                            let p = DynChannelPrimitive::from(mk_chan::<T>(k));
                            let (t, u) = (d.prop_type(), p.prop_type());
                            vec![
                                ("DynChannel::from(..::from(Channel<T>))", T::from_channel(&d).map_or(false, |c| chan_is(c, k)), t),
                                ("DynChannelPrimitive::prop_type", true, u),
                            ]
                        },
                        ..generic::<T>()
                    }
                }
                fn chan_extract(k: &[(u64, u8)], ty: usize) -> Vec<(&'static str, bool)> {
                    // a channel of type `ty`: is it extracted as ours, with its keyframes?
                    let d = (o(ty).mk_chan)(k);
                    let r: Option<DynChannelPrimitive> = d.try_into().ok();
                    let r: Option<Channel<T>> = r.and_then(|p| p.try_into().ok());
                    vec![("try_into", r.map_or(false, |c| chan_is(&c, k)))]
                }
                fn handles(i: usize, g: u64) -> Vec<(&'static str, Option<(usize, u64)>, TpPropertyType)> {
                    let s: StateHandle<T> = arena::Index::new(raw(i, g));
                    let c: ChannelHandle<T> = arena::Index::new(raw(i, g));
                    let ds = |d: &DynStateHandle| if let DynStateHandle::Primitive(DynStateHandlePrimitive::$v(h)) = d { Some(arena::generational_arena::Index::from(*h).into_raw_parts()) } else { None };
                    let dc = |d: &DynChannelHandle| if let DynChannelHandle::Primitive(DynChannelHandlePrimitive::$v(h)) = d { Some(arena::generational_arena::Index::from(*h).into_raw_parts()) } else { None };
                    let a = DynStateHandle::from(s);
                    let b = DynStateHandle::from(DynStateHandlePrimitive::from(s));
                    let e = DynChannelHandle::from(DynChannelHandlePrimitive::from(c));
                    vec![
                        ("DynStateHandle::from(StateHandle<T>)", ds(&a), IStateHandle::prop_type(&a)),
                        ("DynStateHandle::from(DynStateHandlePrimitive)", ds(&b), IStateHandle::prop_type(&b)),
                        ("clone of a DynStateHandle", ds(&a.clone()), IStateHandle::prop_type(&a.clone())),
                        ("StateHandle<T>::prop_type", Some((i, g)), IStateHandle::prop_type(&s)),
                        ("DynChannelHandle::from(DynChannelHandlePrimitive)", dc(&e), IChannelHandle::prop_type(&e)),
                        ("clone of a DynChannelHandle", dc(&e.clone()), IChannelHandle::prop_type(&e)),
                        ("ChannelHandle<T>::prop_type", Some((i, g)), IChannelHandle::prop_type(&c)),
                    ]
                }
                fn sh_extract(d: DynStateHandle) -> Vec<(&'static str, Option<(usize, u64)>)> {
                    let p: Option<DynStateHandlePrimitive> = d.try_into().ok();
                    let h: Option<StateHandle<T>> = p.and_then(|p| p.try_into().ok());
                    vec![("try_into", h.map(|h| arena::generational_arena::Index::from(h).into_raw_parts()))]
                }
                fn ch_extract(d: DynChannelHandle) -> Vec<(&'static str, Option<(usize, u64)>)> {
                    let p: Option<DynChannelHandlePrimitive> = d.try_into().ok();
                    let h: Option<ChannelHandle<T>> = p.and_then(|p| p.try_into().ok());
                    vec![("try_into", h.map(|h| arena::generational_arena::Index::from(h).into_raw_parts()))]
                }
                fn id_extract(ty: TpPropertyType, i: usize, c: usize) -> Vec<(&'static str, Option<bool>)> {
                    let s: Option<DynStateIdPrimitive> = DynStateId::new(contract(c), i, ty).try_into().ok();
                    let s: Option<StateId<T>> = s.and_then(|p| p.try_into().ok());
                    let k: Option<DynChannelIdPrimitive> = DynChannelId::new(contract(c), i, ty).try_into().ok();
                    let k: Option<ChannelId<T>> = k.and_then(|p| p.try_into().ok());
                    vec![
                        ("DynStateId try_into", s.map(|s| s == StateId::new(i, contract(c)))),
                        ("DynChannelId try_into", k.map(|s| s == ChannelId::new(i, contract(c)))),
                    ]
                }
                fn eq_static(d: &mut DynTpProperty, i: usize) -> Vec<(&'static str, bool)> {
                    eq_with(d, &rich::<T>()[i])
                }
                fn eq_long(a: usize, b: usize, at: Option<usize>) -> Option<(Vec<(&'static str, bool)>, bool)> {
                    let (x, y) = (<T as Prop>::long(a, None)?, <T as Prop>::long(b, at)?);
                    let want = <T as Prop>::equal(&x, &y);
                    let mut o = eq_with(&mut DynTpProperty::from(x.clone()), &y);
                    let (mut d, mut e) = (DynTpProperty::from(x), DynTpProperty::from(y));
                    o.push(("DynTpProperty == DynTpProperty", d == e && !(d != e)));
                    o.push(("DynTpPropertyRef == DynTpPropertyRef", DynTpPropertyRef::from(&d) == DynTpPropertyRef::from(&e)));
                    o.push(("DynTpPropertyMut == DynTpPropertyMut", DynTpPropertyMut::from(&mut d) == DynTpPropertyMut::from(&mut e)));
                    o.push(("DynState == DynState", DynState(d.clone()) == DynState(e.clone())));
                    Some((o, want))
                }
                fn eq_with(d: &mut DynTpProperty, x: &T) -> Vec<(&'static str, bool)> {
                    let mut o = vec![
                        ("DynTpProperty == T", *d == *x), ("!(DynTpProperty != T)", !(*d != *x)),
                        ("T == DynTpProperty", *x == *d), ("!(T != DynTpProperty)", !(*x != *d)),
                    ];
                    if let DynTpProperty::Primitive(p) = d {
                        o.push(("DynTpPrimitive == T", *p == *x));
                        o.push(("T == DynTpPrimitive", *x == *p));
                        o.push(("!(DynTpPrimitive != T)", !(*p != *x)));
                        o.push(("!(T != DynTpPrimitive)", !(*x != *p)));
                        let q = DynTpPrimitive::from(x.clone());
                        o.push(("DynTpPrimitive == DynTpPrimitive", *p == q && q == *p));
                        o.push(("DynTpProperty == DynTpPrimitive", DynTpProperty::Primitive(p.clone()) == q));
                    } else {
                        let q = DynTpPrimitive::from(x.clone());
                        o.push(("DynTpProperty == DynTpPrimitive", *d == q));
                    }
                    o
                }
            })+
        }
        #[allow(non_snake_case)]
        mod vecs {
            $(pub mod $t {
                use super::super::*;
                type P = $t;
                type T = Vec<$t>;
                fn owned(v: u8) -> Vec<(&'static str, DynTpProperty)> {
                    let x = || val::<T>(v);
                    vec![
                        ("DynTpProperty::from(Vec<T>)", DynTpProperty::from(x())),
                        ("Vec<T>.into()", x().into()),
                        ("DynTpProperty::from(DynTpVec::from(Vec<T>))", DynTpProperty::from(DynTpVec::from(x()))),
                        ("DynTpProperty::Vec(Vec<T>.into())", DynTpProperty::Vec(x().into())),
                        ("clone", DynTpProperty::from(x()).clone()),
                        ("DynState::from(State::new(Vec<T>)).0", DynState::from(State::new(x())).0),
                        ("DynTpProperty::from(DynState)", DynTpProperty::from(DynState::from(State::new(x())))),
                        ("DynState(DynTpProperty).clone()", DynState::from(DynTpProperty::from(x())).clone().0),
                    ]
                }
                fn extract(d: &DynTpProperty) -> Vec<(&'static str, Option<u8>)> {
                    let p: Option<DynTpVec> = d.clone().try_into().ok();
                    let p2: Option<DynTpVec> = DynTpVec::try_from(d.clone()).ok();
                    vec![
                        ("try_into::<DynTpVec>()?.try_into::<Vec<T>>()", p.and_then(|p| { let r: Result<T, _> = p.try_into(); r.ok() }).map(|x| decode(&x))),
                        ("Vec::<T>::try_from(DynTpVec::try_from(d)?)", p2.and_then(|p| T::try_from(p).ok()).map(|x| decode(&x))),
                    ]
                }
                fn seen(f: &'static str, r: DynTpPropertyRef<'_>) -> [(&'static str, u8, TpPropertyType); 1] {
                    let t = r.prop_type();
                    [(f, T::ref_decode(&r).map_or(ALIEN, |x| decode(&x)), t)]
                }
                fn refs(v: u8) -> Views {
                    let x = val::<T>(v);
                    let d = DynTpProperty::from(x.clone());
                    let mut o = vec![];
                    o.extend(seen("DynTpPropertyRef::from(&Vec<T>)", DynTpPropertyRef::from(&x)));
                    o.extend(seen("DynTpPropertyRef::from(&[T])", DynTpPropertyRef::from(x.as_slice())));
                    let p = DynTpVecRef::from(&x);
                    o.push(("DynTpVecRef::prop_type", v, p.prop_type()));
                    o.extend(seen("DynTpVecRef::from(&Vec<T>)", DynTpPropertyRef::from(p)));
                    o.extend(seen("DynTpVecRef::from(&[T])", DynTpPropertyRef::from(DynTpVecRef::from(x.as_slice()))));
                    o.extend(seen("clone of a DynTpVecRef", DynTpPropertyRef::Vec(p.clone())));
                    o.extend(seen("DynTpPropertyRef::from(&DynTpProperty)", DynTpPropertyRef::from(&d)));
                    o.extend(seen("BBorrow::borrow(&DynTpProperty)", BBorrow::<DynTpPropertyRef>::borrow(&d)));
                    o.extend(seen("BBorrow::borrow(&&DynTpProperty)", BBorrow::<DynTpPropertyRef>::borrow(&&d)));
                    let r = DynTpPropertyRef::from(&d);
                    o.extend(seen("clone of a DynTpPropertyRef", r.clone()));
                    let c = r;
                    o.extend(seen("copy of a DynTpPropertyRef", c));
                    o
                }
                fn muts(v: u8, w: u8) -> Views {
                    let mut o = vec![];
                    // slices cannot change their length: overwrite each element with the elements of `w`, cyclically
                    let src = val::<T>(w);
                    let fill = |m: &mut [P]| for (i, e) in m.iter_mut().enumerate() { if !src.is_empty() { *e = src[i % src.len()].clone() } };
                    let ways: [(&'static str, fn(&mut T, &mut DynTpProperty, &mut dyn FnMut(DynTpPropertyMut<'_>)) -> bool); 7] = [
                        ("DynTpPropertyMut::from(&mut Vec<T>)", |x, _, f| { f(DynTpPropertyMut::from(x)); false }),
                        ("DynTpPropertyMut::from(&mut [T])", |x, _, f| { f(DynTpPropertyMut::from(x.as_mut_slice())); false }),
                        ("DynTpPropertyMut::from(DynTpVecMut::from(&mut Vec<T>))", |x, _, f| { f(DynTpPropertyMut::from(DynTpVecMut::from(x))); false }),
                        ("DynTpPropertyMut::from(DynTpVecMut::from(&mut [T]))", |x, _, f| { f(DynTpPropertyMut::from(DynTpVecMut::from(x.as_mut_slice()))); false }),
                        ("DynTpPropertyMut::from(&mut DynTpProperty)", |_, d, f| { f(DynTpPropertyMut::from(d)); true }),
                        ("BBorrowMut::borrow_mut(&mut DynTpProperty)", |_, d, f| { f(BBorrowMut::<DynTpPropertyMut>::borrow_mut(d)); true }),
                        ("BBorrowMut::borrow_mut(&mut &mut DynTpProperty)", |_, mut d, f| { f(BBorrowMut::<DynTpPropertyMut>::borrow_mut(&mut d)); true }),
                    ];
                    for (name, way) in ways {
                        let mut x = val::<T>(v);
                        let mut d = DynTpProperty::from(x.clone());
                        let mut want = val::<T>(v);
                        fill(&mut want);
                        let mut ty = TpPropertyType::Primitive(TpPrimitiveType::U8);
                        let mut got = ALIEN;
                        let dynamic = way(&mut x, &mut d, &mut |m| {
                            ty = m.prop_type();
                            got = T::mut_decode(&m).map_or(ALIEN, |x| decode(&x));
                            if let DynTpPropertyMut::Vec(DynTpVecMut::$v(s)) = m { fill(s) }
                        });
                        let after = if dynamic { T::from_dyn(&d).map_or(false, |y| T::same(y, &want)) } else { T::same(&x, &want) };
                        o.push((name, if after { got } else { ALIEN }, ty));
                    }
                    let mut x = val::<T>(v);
                    o.push(("DynTpVecMut::prop_type", v, DynTpVecMut::from(&mut x).prop_type()));
                    o
                }
                pub(in super::super) fn conv() -> Conv {
                    Conv {
                        data_type: None, owned, extract, refs, muts, chan_extract, handles, sh_extract, ch_extract, id_extract, eq_static, eq_long,
                        static_types: |v| {
                            let x = val::<T>(v);
                            let p = DynTpVec::from(x.clone());
                            let d = DynTpProperty::from(x.clone());
                            vec![
                                ("T::PROPERTY_TYPE", T::PROPERTY_TYPE), ("ITpProperty::prop_type(&T)", ITpProperty::prop_type(&x)),
                                ("DynTpVec::prop_type", p.prop_type()), ("DynTpProperty::prop_type", d.prop_type()),
                                ("ITpProperty::prop_type(&DynTpProperty)", ITpProperty::prop_type(&d)),
                            ]
                        },
                        chan_owned: |k| {
                            let d = DynChannel::from(DynChannelVec::from(mk_chan::<T>(k)));
                            let p = DynChannelVec::from(mk_chan::<T>(k));
                            let (t, u) = (d.prop_type(), p.prop_type());
                            vec![
                                ("DynChannel::from(..::from(Channel<T>))", T::from_channel(&d).map_or(false, |c| chan_is(c, k)), t),
                                ("DynChannelVec::prop_type", true, u),
                            ]
                        },
                        ..generic::<T>()
                    }
                }
                fn chan_extract(k: &[(u64, u8)], ty: usize) -> Vec<(&'static str, bool)> {
                    let d = (o(ty).mk_chan)(k);
                    let r: Option<DynChannelVec> = d.try_into().ok();
                    let r: Option<Channel<T>> = r.and_then(|p| p.try_into().ok());
                    vec![("try_into", r.map_or(false, |c| chan_is(&c, k)))]
                }
                fn handles(i: usize, g: u64) -> Vec<(&'static str, Option<(usize, u64)>, TpPropertyType)> {
                    let s: StateHandle<T> = arena::Index::new(raw(i, g));
                    let c: ChannelHandle<T> = arena::Index::new(raw(i, g));
                    let ds = |d: &DynStateHandle| if let DynStateHandle::Vec(DynStateHandleVec::$v(h)) = d { Some(arena::generational_arena::Index::from(*h).into_raw_parts()) } else { None };
                    let dc = |d: &DynChannelHandle| if let DynChannelHandle::Vec(DynChannelHandleVec::$v(h)) = d { Some(arena::generational_arena::Index::from(*h).into_raw_parts()) } else { None };
                    let a = DynStateHandle::from(s);
                    let b = DynStateHandle::from(DynStateHandleVec::from(s));
                    let e = DynChannelHandle::from(DynChannelHandleVec::from(c));
                    vec![
                        ("DynStateHandle::from(StateHandle<Vec<T>>)", ds(&a), IStateHandle::prop_type(&a)),
                        ("DynStateHandle::from(DynStateHandleVec)", ds(&b), IStateHandle::prop_type(&b)),
                        ("clone of a DynStateHandle", ds(&a.clone()), IStateHandle::prop_type(&a.clone())),
                        ("StateHandle<Vec<T>>::prop_type", Some((i, g)), IStateHandle::prop_type(&s)),
                        ("DynChannelHandle::from(DynChannelHandleVec)", dc(&e), IChannelHandle::prop_type(&e)),
                        ("clone of a DynChannelHandle", dc(&e.clone()), IChannelHandle::prop_type(&e)),
                        ("ChannelHandle<Vec<T>>::prop_type", Some((i, g)), IChannelHandle::prop_type(&c)),
                    ]
                }
                fn sh_extract(d: DynStateHandle) -> Vec<(&'static str, Option<(usize, u64)>)> {
                    let p: Option<DynStateHandleVec> = d.try_into().ok();
                    let h: Option<StateHandle<T>> = p.and_then(|p| p.try_into().ok());
                    vec![("try_into", h.map(|h| arena::generational_arena::Index::from(h).into_raw_parts()))]
                }
                fn ch_extract(d: DynChannelHandle) -> Vec<(&'static str, Option<(usize, u64)>)> {
                    let p: Option<DynChannelHandleVec> = d.try_into().ok();
                    let h: Option<ChannelHandle<T>> = p.and_then(|p| p.try_into().ok());
                    vec![("try_into", h.map(|h| arena::generational_arena::Index::from(h).into_raw_parts()))]
                }
                fn id_extract(ty: TpPropertyType, i: usize, c: usize) -> Vec<(&'static str, Option<bool>)> {
                    let s: Option<DynStateIdVec> = DynStateId::new(contract(c), i, ty).try_into().ok();
                    let s: Option<StateId<T>> = s.and_then(|p| p.try_into().ok());
                    let k: Option<DynChannelIdVec> = DynChannelId::new(contract(c), i, ty).try_into().ok();
                    let k: Option<ChannelId<T>> = k.and_then(|p| p.try_into().ok());
                    vec![
                        ("DynStateId try_into", s.map(|s| s == StateId::new(i, contract(c)))),
                        ("DynChannelId try_into", k.map(|s| s == ChannelId::new(i, contract(c)))),
                    ]
                }
                fn eq_static(d: &mut DynTpProperty, i: usize) -> Vec<(&'static str, bool)> {
                    eq_with(d, &rich::<T>()[i])
                }
                fn eq_long(a: usize, b: usize, at: Option<usize>) -> Option<(Vec<(&'static str, bool)>, bool)> {
                    let (x, y) = (<T as Prop>::long(a, None)?, <T as Prop>::long(b, at)?);
                    let want = <T as Prop>::equal(&x, &y);
                    let mut o = eq_with(&mut DynTpProperty::from(x.clone()), &y);
                    let (mut d, mut e) = (DynTpProperty::from(x), DynTpProperty::from(y));
                    o.push(("DynTpProperty == DynTpProperty", d == e && !(d != e)));
                    o.push(("DynTpPropertyRef == DynTpPropertyRef", DynTpPropertyRef::from(&d) == DynTpPropertyRef::from(&e)));
                    o.push(("DynTpPropertyMut == DynTpPropertyMut", DynTpPropertyMut::from(&mut d) == DynTpPropertyMut::from(&mut e)));
                    o.push(("DynState == DynState", DynState(d.clone()) == DynState(e.clone())));
                    Some((o, want))
                }
                fn eq_with(d: &mut DynTpProperty, x: &T) -> Vec<(&'static str, bool)> {
                    let s: &[P] = x.as_slice();
                    let mut o = vec![
                        ("DynTpProperty == Vec<T>", *d == *x), ("!(DynTpProperty != Vec<T>)", !(*d != *x)),
                        ("Vec<T> == DynTpProperty", *x == *d), ("!(Vec<T> != DynTpProperty)", !(*x != *d)),
                        ("DynTpProperty == &[T]", *d == s), ("!(DynTpProperty != &[T])", !(*d != s)),
                        ("&[T] == DynTpProperty", s == *d), ("!(&[T] != DynTpProperty)", !(s != *d)),
                    ];
                    if let DynTpProperty::Vec(p) = d {
                        o.push(("DynTpVec == Vec<T>", *p == *x));
                        o.push(("Vec<T> == DynTpVec", *x == *p));
                        o.push(("!(DynTpVec != Vec<T>)", !(*p != *x)));
                        o.push(("!(Vec<T> != DynTpVec)", !(*x != *p)));
                        o.push(("DynTpVec == &[T]", *p == s));
                        o.push(("&[T] == DynTpVec", s == *p));
                        o.push(("!(DynTpVec != &[T])", !(*p != s)));
                        o.push(("!(&[T] != DynTpVec)", !(s != *p)));
                        let q = DynTpVec::from(x.clone());
                        o.push(("DynTpVec == DynTpVec", *p == q && q == *p));
                    }
                    o
                }
            })+
        }
    };
}

convs!(u8 U8, u16 U16, u32 U32, u64 U64, i8 I8, i16 I16, i32 I32, i64 I64, bool Bool, f32 F32, f64 F64,
    String String, ObjectHandle ObjectHandle, ContractDataHandle ContractDataHandle);

/// What can be written once for all types. (The other entries are replaced by the caller.)
fn generic<T: RichProp>() -> Conv
where
    for<'a> DynStateRef<'a>: From<&'a State<T>>,
    for<'a> DynStateMut<'a>: From<&'a mut State<T>>,
    for<'a> DynChannelRef<'a>: From<&'a Channel<T>>,
    for<'a> DynChannelMut<'a>: From<&'a mut Channel<T>>,
{
    fn states<T: RichProp>(v: u8, w: u8) -> Views
    where
        for<'a> DynStateRef<'a>: From<&'a State<T>>,
        for<'a> DynStateMut<'a>: From<&'a mut State<T>>,
    {
        let mut s = State::new(val::<T>(v));
        let mut o = vec![];
        let r = DynStateRef::from(&s);
        let dec = |r: &DynTpPropertyRef<'_>| T::ref_decode(r).map_or(ALIEN, |x| decode(&x));
        o.push(("DynStateRef::from(&State<T>)", dec(&r.0), r.0.prop_type()));
        let c = r.clone();
        o.push(("clone of a DynStateRef", dec(&c.0), c.0.prop_type()));
        let p: DynTpPropertyRef<'_> = c.into();
        o.push(("DynTpPropertyRef from DynStateRef", dec(&p), p.prop_type()));
        let m = DynStateMut::from(&mut s);
        let ty = m.0.prop_type();
        let got = T::mut_decode(&m.0).map_or(ALIEN, |x| decode(&x));
        let fits = T::mut_store(m.0, val::<T>(w));
        let want = if fits { w } else { v };
        o.push(("DynStateMut::from(&mut State<T>)", if decode(&s.value) == want { got } else { ALIEN }, ty));
        o
    }
    fn chans<T: RichProp>(k: &[(u64, u8)], k2: &[(u64, u8)]) -> Vec<(&'static str, bool, TpPropertyType)>
    where
        for<'a> DynChannelRef<'a>: From<&'a Channel<T>>,
        for<'a> DynChannelMut<'a>: From<&'a mut Channel<T>>,
    {
        let mut c = mk_chan::<T>(k);
        let mut o = vec![("Channel::new", chan_is(&c, k), T::PROPERTY_TYPE)];
        let r = DynChannelRef::from(&c);
        let q = r;
        o.push(("DynChannelRef::from(&Channel<T>)", T::chan_ref(r).map_or(false, |c| chan_is(c, k)), r.prop_type()));
        o.push(("clone of a DynChannelRef", T::chan_ref(q.clone()).map_or(false, |c| chan_is(c, k)), q.prop_type()));
        let inner = match r {
            DynChannelRef::Primitive(p) => p.prop_type(),
            DynChannelRef::Vec(p) => p.prop_type(),
        };
        o.push(("DynChannel(Primitive|Vec)Ref::prop_type", true, inner));
        let m = DynChannelMut::from(&mut c);
        let ty = m.prop_type();
        let inner = match &m {
            DynChannelMut::Primitive(p) => p.prop_type(),
            DynChannelMut::Vec(p) => p.prop_type(),
        };
        o.push(("DynChannel(Primitive|Vec)Mut::prop_type", true, inner));
        let ok = T::chan_mut(m).map_or(false, |c| {
            let ok = chan_is(c, k);
            *c.keyframes_mut() = mk_kfs::<T>(k2);
            ok
        });
        o.push(("DynChannelMut::from(&mut Channel<T>)", ok && decode_chan(&c) == k2, ty));
        o
    }
    fn ids<T: RichProp>(i: usize, c: usize) -> Vec<(&'static str, bool)> {
        let (s, k) = (StateId::<T>::new(i, contract(c)), ChannelId::<T>::new(i, contract(c)));
        let ds = DynStateId::new(contract(c), i, T::prop_type_spec());
        let dk = DynChannelId::new(contract(c), i, T::prop_type_spec());
        vec![
            ("StateId::contract", s.contract() == contract(c)),
            ("ChannelId::contract", k.contract() == contract(c)),
            ("clone of a StateId", s.clone() == s),
            ("clone of a ChannelId", k.clone() == k),
            ("StateId ==", s == StateId::new(i, contract(c)) && s != StateId::new(i + 1, contract(c)) && s != StateId::new(i, contract(c + 1))),
            ("ChannelId ==", k == ChannelId::new(i, contract(c)) && k != ChannelId::new(i + 1, contract(c)) && k != ChannelId::new(i, contract(c + 1))),
            ("DynStateId::new", T::from_state_id(&ds).map_or(false, |x| x == s && x.contract() == contract(c))),
            ("DynChannelId::new", T::from_chan_id(&dk).map_or(false, |x| x == k && x.contract() == contract(c))),
        ]
    }
    fn dsh<T: Prop>(i: usize, g: u64) -> DynStateHandle {
        T::state_handle(arena::Index::new(raw(i, g)))
    }
    fn dch<T: Prop>(i: usize, g: u64) -> DynChannelHandle {
        T::chan_handle(arena::Index::new(raw(i, g)))
    }
    fn none<A, R>(_: A) -> R {
        panic!("HARNESS: table entry not filled")
    }
    fn none2<A, B, R>(_: A, _: B) -> R {
        panic!("HARNESS: table entry not filled")
    }
    fn through_long<T: RichProp>(len: usize) -> Option<Vec<&'static str>>
    where
        for<'a> DynStateRef<'a>: From<&'a State<T>>,
        for<'a> DynStateMut<'a>: From<&'a mut State<T>>,
    {
        let (x, y) = (T::long(len, None)?, T::long(len, Some(len - 1))?);
        let is = |a: Option<T>, b: &T| a.map_or(false, |a| T::same(&a, b));
        let mut bad = vec![];
        let mut check = |name, ok: bool| {
            if !ok {
                bad.push(name)
            }
        };
        let mut d = x.clone().to_dyn();
        check("owned", T::from_dyn(&d).map_or(false, |a| T::same(a, &x)));
        check("clone", T::from_dyn(&d.clone()).map_or(false, |a| T::same(a, &x)));
        check("shared", T::ref_same(&DynTpPropertyRef::from(&d), &x));
        check("shared, decoded", is(T::ref_decode(&DynTpPropertyRef::from(&d)), &x));
        check("mutable", is(T::mut_decode(&DynTpPropertyMut::from(&mut d)), &x));
        if T::mut_store(DynTpPropertyMut::from(&mut d), y.clone()) {
            check("stored", T::from_dyn(&d).map_or(false, |a| T::same(a, &y)))
        }
        let mut s = State::new(x.clone());
        check("state", T::ref_same(&DynStateRef::from(&s).0, &x));
        check("mutable state", is(T::mut_decode(&DynStateMut::from(&mut s).0), &x));
        let c = Channel::<T>::new([(x.clone(), 1.0), (y.clone(), 0.5)].into_iter().map(|(v, t)| Keyframe::new(v, t)));
        let k = |c: &Channel<T>| c.keyframes().len() == 2 && T::same(c.keyframes()[0].value(), &y) && T::same(c.keyframes()[1].value(), &x);
        check("channel", k(&c));
        let dc = T::channel(c);
        check("dynamic channel", T::from_channel(&dc).map_or(false, k));
        Some(bad)
    }
    Conv {
        eq_long: |_, _, _| None,
        through_long: through_long::<T>,
        ty: T::TY,
        data_type: None,
        owned: none,
        extract: |_| none(()),
        refs: none,
        muts: none2,
        states: states::<T>,
        chans: chans::<T>,
        chan_owned: |_| none(()),
        chan_extract: |_, _| none(()),
        handles: none2,
        sh_extract: none,
        ch_extract: none,
        dsh: dsh::<T>,
        dch: dch::<T>,
        ids: ids::<T>,
        id_extract: |_, _, _| none(()),
        static_types: none,
        rich: || rich::<T>().len(),
        rich_dyn: |i| rich::<T>()[i].clone().to_dyn(),
        rich_equal: |i, j| T::equal(&rich::<T>()[i], &rich::<T>()[j]),
        eq_static: |_, _| none(()),
    }
}
fn mk_kfs<T: Prop>(k: &[(u64, u8)]) -> Vec<Keyframe<T>> {
    k.iter().map(|(t, v)| Keyframe::new(val::<T>(*v), f64::from_bits(*t))).collect()
}
fn cv(ty: usize) -> &'static Conv {
    let c = &convs()[ty];
    assert!(c.ty == ty, "HARNESS: table order");
    c
}

const T64: fn(f64) -> u64 = f64::to_bits;

pub fn c17(ctx: &Ctx) {
    ctx.assume("the visiting macros for shared and mutable property references (apply_to_prop_ref / _mut) name a private module and cannot be expanded outside tp_client; those forms are taken apart by their public variants instead");
    ctx.explore("values", 2, "all 28 types x all boundary values x every owned, shared and mutable dynamic form x every second value written through the mutable forms", |ch| {
        let ty = ch.pick(28);
        let c = cv(ty);
        let n = (o(ty).n)();
        let v = ch.pick(n) as u8;
        let want = type_of(ty);
        ch.log(|| format!("{} value {v}", NAMES[ty]));
        ensure!(want == (o(ty).stat)(), "static-type", "{}::PROPERTY_TYPE is {:?}", NAMES[ty], (o(ty).stat)());
        ensure!(want.primitive_type() == type_of(ty % 14).primitive_type(), "primitive-type", "{want:?}.primitive_type() is {:?}", want.primitive_type());
        if let Some(d) = c.data_type {
            ensure!(TpPropertyType::Primitive(d) == want, "data-type", "{}::DATA_TYPE is {d:?}", NAMES[ty]);
        }
        for (f, t) in (c.static_types)(v) {
            ch.step();
            ensure!(t == want, "reported-type", "{}: {f} is {t:?}", NAMES[ty]);
        }
        for (f, d) in (c.owned)(v) {
            ch.step();
            ensure!((o(ty).decode)(&d) == Some(v), "owned-value", "{} value {v} through {f} became {d:?}", NAMES[ty]);
            ensure!(d.prop_type() == want, "owned-type", "{}: {f} reports {:?}", NAMES[ty], d.prop_type());
            let (vt, vv, id) = apply_to_prop!(d, |x| own_ty(&x));
            ensure!(vt == ty && vv == v && id == (o(ty).type_id)(), "visit", "visiting {} value {v} (made by {f}) reached {} value {vv}", NAMES[ty], NAMES[vt]);
        }
        for (f, got, t) in (c.refs)(v) {
            ch.step();
            ensure!(got == v, "ref-value", "{} value {v} seen as {got} through {f}", NAMES[ty]);
            ensure!(t == want, "ref-type", "{}: {f} reports {t:?}", NAMES[ty]);
        }
        for w in 0..n as u8 {
            for (f, got, t) in (c.muts)(v, w).into_iter().chain((c.states)(v, w)) {
                ch.step();
                ensure!(got == v, "mut-value", "{} value {v}, overwritten by {w} through {f}: seen or left wrong ({got})", NAMES[ty]);
                ensure!(t == want, "mut-type", "{}: {f} reports {t:?}", NAMES[ty]);
            }
        }
        ch.state(fnv(fnv(0, ty as u64), v as u64));
        ch.outcome(ty as u64);
        Ok(())
    });
    ctx.explore("long", 2, "texts and vectors of all 14 types of every length up to 70, and of 255 to 257, 1025, 4097, 65535 to 65537 and 70000 parts, through every dynamic form, a state and a channel", |ch| {
        let ty = [11, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27][ch.pick(15)];
        let k = ch.pick(79);
        let n = if k < 70 { k + 1 } else { [255, 256, 257, 1025, 4097, 65535, 65536, 65537, 70_000][k - 70] };
        ch.step();
        ch.log(|| format!("{} of {n} parts", NAMES[ty]));
        let bad = (cv(ty).through_long)(n).expect("HARNESS: no long value");
        ensure!(bad.is_empty(), "long-value", "{} of {n} parts is changed by: {bad:?}", NAMES[ty]);
        ch.state(fnv(fnv(1, ty as u64), n as u64));
        Ok(())
    });
    ctx.explore("extraction", 2, "all 28 x 28 pairs of actual and requested type x all boundary values, for owned values, handles, ids and channels", |ch| {
        let (a, b) = (ch.pick(28), ch.pick(28));
        let cb = cv(b);
        ch.log(|| format!("a {} extracted as {}", NAMES[a], NAMES[b]));
        for v in 0..(o(a).n)() as u8 {
            for (f, d) in (cv(a).owned)(v) {
                for (g, r) in (cb.extract)(&d) {
                    ch.step();
                    let want = if a == b { Some(v) } else { None };
                    ensure!(r == want, "extract", "{} value {v} ({f}) extracted as {} by {g}: {r:?}", NAMES[a], NAMES[b]);
                }
            }
            let k = [(T64(1.0), v), (T64(0.5), 0), (T64(1.0), 1)];
            for k in [&k[..], &k[..1], &[]] {
                for (g, r) in (cb.chan_extract)(k, a) {
                    ch.step();
                    ensure!(r == (a == b), "extract-channel", "channel of {} extracted as one of {} by {g}: {r}", NAMES[a], NAMES[b]);
                }
            }
        }
        for (i, g) in [(0, 0), (3, 9), (usize::MAX, u64::MAX)] {
            for (f, r) in (cb.sh_extract)((cv(a).dsh)(i, g)).into_iter().chain((cb.ch_extract)((cv(a).dch)(i, g))) {
                ch.step();
                ensure!(r == if a == b { Some((i, g)) } else { None }, "extract-handle", "handle of {} extracted as one of {} by {f}: {r:?}", NAMES[a], NAMES[b]);
            }
            for (f, r) in (cb.id_extract)(type_of(a), i, 2) {
                ch.step();
                ensure!(r == if a == b { Some(true) } else { None }, "extract-id", "id of {} extracted as one of {} by {f}: {r:?}", NAMES[a], NAMES[b]);
            }
        }
        ch.state(fnv(fnv(0, a as u64), b as u64));
        ch.outcome((a == b) as u64);
        Ok(())
    });
    ctx.explore("handles-ids", 2, "all 28 types x positions {0,1,7,usize::MAX-1} x generations or contracts, every dynamic form and visitor", |ch| {
        let ty = ch.pick(28);
        let i = ch.of(&[0usize, 1, 7, 255, 256, usize::MAX - 1]);
        let g = ch.of(&[0u64, 1, 6, u64::MAX]);
        let c = cv(ty);
        let want = type_of(ty);
        ch.log(|| format!("{} position {i} generation {g}", NAMES[ty]));
        for (f, r, t) in (c.handles)(i, g) {
            ch.step();
            ensure!(r == Some((i, g)), "handle-form", "{}: {f} holds {r:?} instead of ({i}, {g})", NAMES[ty]);
            ensure!(t == want, "handle-type", "{}: {f} reports {t:?}", NAMES[ty]);
        }
        let r = apply_to_state_handle!((c.dsh)(i, g), |h| sh_ty(h));
        ensure!(r == (ty, (i, g)), "visit-state-handle", "visiting a state handle of {} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        let r = apply_to_channel_handle!((c.dch)(i, g), |h| ch_ty(h));
        ensure!(r == (ty, (i, g)), "visit-channel-handle", "visiting a channel handle of {} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        let k = (g % 5) as usize;
        for (f, r) in (c.ids)(i, k) {
            ch.step();
            ensure!(r, "id-form", "{} position {i} contract {k}: {f}", NAMES[ty]);
        }
        let r = apply_to_state_id!(DynStateId::new(contract(k), i, want), |h| sid_ty(h, i, contract(k)));
        ensure!(r == (ty, true), "visit-state-id", "visiting a state id of {} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        let r = apply_to_channel_id!(DynChannelId::new(contract(k), i, want), |h| cid_ty(h, i, contract(k)));
        ensure!(r == (ty, true), "visit-channel-id", "visiting a channel id of {} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        ch.state(fnv(fnv(fnv(0, ty as u64), i as u64), g));
        ch.outcome(ty as u64);
        Ok(())
    });
    let deep = ctx.by(4, 5);
    ctx.explore("channels", 2, "all 28 types x keyframe lists up to length 4 (thorough: 5) over 3 times and 3 values, every dynamic form of a channel", move |ch| {
        let ty = ch.pick(28);
        let len = ch.pick(deep + 1);
        let nv = (o(ty).n)().min(3);
        let k: Kfs = (0..len).map(|_| (T64(ch.of(&[0.0, -1.5, 2.0])), ch.pick(nv) as u8)).collect();
        let c = cv(ty);
        let want = type_of(ty);
        ch.log(|| format!("channel of {} {k:?}", NAMES[ty]));
        let k2: Kfs = vec![(T64(9.0), 1), (T64(8.0), 0)];
        for (f, ok, t) in (c.chan_owned)(&k).into_iter().chain((c.chans)(&k, &k2)) {
            ch.step();
            ensure!(ok, "channel-form", "channel of {} {k:?} through {f}: content differs", NAMES[ty]);
            ensure!(t == want, "channel-type", "channel of {}: {f} reports {t:?}", NAMES[ty]);
        }
        let mut d = (o(ty).mk_chan)(&k);
        let r: (usize, Kfs) = apply_to_channel_mut!(chan_as_mut(&mut d), |c| chan_ty(c));
        ensure!(r.0 == ty && same_kfs(&r.1, &k), "visit-channel-mut", "visiting a mutable channel of {} {k:?} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        let r: (usize, Kfs) = apply_to_channel_ref!(chan_as_ref(&d), |c| chan_ty(c));
        ensure!(r.0 == ty && same_kfs(&r.1, &k), "visit-channel-ref", "visiting a shared channel of {} {k:?} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        let r: (usize, Kfs) = apply_to_channel!(d, |c| chan_ty(&c));
        ensure!(r.0 == ty && same_kfs(&r.1, &k), "visit-channel", "visiting a channel of {} {k:?} reached {} {:?}", NAMES[ty], NAMES[r.0], r.1);
        ch.state(fnv(fnv(0, ty as u64), hash_of(&k)));
        ch.outcome(len as u64);
        Ok(())
    });
}
macro_rules! chan_forms { ($($v:ident),+) => {
    fn chan_as_ref(d: &DynChannel) -> DynChannelRef<'_> {
        match d {
            $(DynChannel::Primitive(DynChannelPrimitive::$v(c)) => DynChannelRef::from(c),
              DynChannel::Vec(DynChannelVec::$v(c)) => DynChannelRef::from(c),)+
        }
    }
    fn chan_as_mut(d: &mut DynChannel) -> DynChannelMut<'_> {
        match d {
            $(DynChannel::Primitive(DynChannelPrimitive::$v(c)) => DynChannelMut::from(c),
              DynChannel::Vec(DynChannelVec::$v(c)) => DynChannelMut::from(c),)+
        }
    }
} }
chan_forms!(U8, U16, U32, U64, I8, I16, I32, I64, Bool, F32, F64, String, ObjectHandle, ContractDataHandle);

pub fn c18(ctx: &Ctx) {
    ctx.explore("values", 2, "all pairs of values of the same type over boundary values, all single-bit changes and near-equal texts and vectors; and all pairs over the boundary values (first 40 values) of different types; every operand order and form", |ch| {
        let (a, b) = (ch.pick(28), ch.pick(28));
        let (ca, cb) = (cv(a), cv(b));
        let cut = |n: usize| if a == b { n } else { n.min(40) };
        let i = ch.pick(cut((ca.rich)()));
        let mut d = (ca.rich_dyn)(i);
        ch.log(|| format!("{d:?} against every {}", NAMES[b]));
        for j in 0..cut((cb.rich)()) {
            let want = a == b && (ca.rich_equal)(i, j);
            ch.outcome(want as u64);
            for (f, r) in (cb.eq_static)(&mut d, j) {
                ch.step();
                ensure!(r == want, "static-equality", "{d:?} with the {} {:?}: {f} is {r}", NAMES[b], (cb.rich_dyn)(j));
            }
            let mut e = (cb.rich_dyn)(j);
            let mut both = |name: &str, r: bool| {
                ch.step();
                mcx::ensure!(r == want, "dynamic-equality", "{name} of {:?} and {:?} is {r}", (ca.rich_dyn)(i), (cb.rich_dyn)(j));
                Ok(())
            };
            both("DynTpProperty ==", d == e)?;
            both("DynTpProperty == (reversed)", e == d)?;
            both("!(DynTpProperty !=)", !(d != e))?;
            both("DynTpPropertyRef ==", DynTpPropertyRef::from(&d) == DynTpPropertyRef::from(&e))?;
            both("!(DynTpPropertyRef !=)", !(DynTpPropertyRef::from(&d) != DynTpPropertyRef::from(&e)))?;
            both("DynStateRef ==", DynStateRef::from(DynTpPropertyRef::from(&d)) == DynStateRef::from(DynTpPropertyRef::from(&e)))?;
            both("DynTpPropertyMut ==", DynTpPropertyMut::from(&mut d) == DynTpPropertyMut::from(&mut e))?;
            both("!(DynTpPropertyMut !=)", !(DynTpPropertyMut::from(&mut d) != DynTpPropertyMut::from(&mut e)))?;
            both("DynStateMut ==", DynStateMut::from(DynTpPropertyMut::from(&mut d)) == DynStateMut::from(DynTpPropertyMut::from(&mut e)))?;
            both("DynState ==", DynState(d.clone()) == DynState(e.clone()))?;
            match (DynTpPropertyRef::from(&d), DynTpPropertyRef::from(&e)) {
                (DynTpPropertyRef::Primitive(p), DynTpPropertyRef::Primitive(q)) => both("DynTpPrimitiveRef ==", p == q)?,
                (DynTpPropertyRef::Vec(p), DynTpPropertyRef::Vec(q)) => both("DynTpVecRef ==", p == q)?,
                _ => {}
            }
        }
        ch.state(fnv(fnv(fnv(0, a as u64), b as u64), i as u64));
        Ok(())
    });
    const N: [usize; 4] = [257, 1025, 4097, 70_000];
    ctx.explore("long", 2, &format!("texts and vectors of all 14 types of {N:?} parts, against the same with one part replaced around every power of two or at the end, or cut by 1, 255, 256, 65535 or 65536 parts; every form"), |ch| {
        let ty = [11, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27][ch.pick(15)];
        let n = ch.of(&N);
        let mut at = vec![None, Some(n / 3), Some(n - 2), Some(n - 1)];
        at.extend((0..17).flat_map(|b| [(1 << b) - 1, 1 << b]).filter(|i| *i < n - 2).map(Some));
        let cuts: Vec<usize> = [1, 255, 256, 65535, 65536].into_iter().filter(|c| *c <= n).collect();
        let k = ch.pick(at.len() + cuts.len());
        let (m, at) = if k < at.len() { (n, at[k]) } else { (n - cuts[k - at.len()], None) };
        ch.log(|| format!("{}: {n} parts against {m}, replaced: {at:?}", NAMES[ty]));
        let (o, want) = (cv(ty).eq_long)(n, m, at).expect("HARNESS: no long value");
        for (f, r) in o {
            ch.step();
            ensure!(r == want, "long-equality", "{}: {n} parts against {m}, replaced: {at:?}: {f} is {r}", NAMES[ty]);
        }
        ch.state(fnv(fnv(fnv(0, ty as u64), n as u64), k as u64));
        ch.outcome(want as u64);
        Ok(())
    });
    ctx.explore("handles", 2, "all 28 x 28 pairs of types x all pairs of 6 positions and generations: dynamic state and channel handles, equality and hash", |ch| {
        let (a, b) = (ch.pick(28), ch.pick(28));
        let hs = [(0usize, 0u64), (0, 1), (1, 0), (1, 1), (256, 1), (1, 256)];
        let (x, y) = (ch.of(&hs), ch.of(&hs));
        let want = a == b && x == y;
        ch.log(|| format!("{} {x:?} and {} {y:?}", NAMES[a], NAMES[b]));
        let (p, q) = ((cv(a).dsh)(x.0, x.1), (cv(b).dsh)(y.0, y.1));
        ch.steps(2);
        ensure!((p == q) == want && (q == p) == want && (p != q) != want, "state-handle-equality", "DynStateHandle == on {p:?} and {q:?} is {}", p == q);
        ensure!(!want || hash_of(&p) == hash_of(&q), "state-handle-hash", "{p:?} hashes in two ways");
        let (p, q) = ((cv(a).dch)(x.0, x.1), (cv(b).dch)(y.0, y.1));
        ensure!((p == q) == want && (q == p) == want && (p != q) != want, "channel-handle-equality", "DynChannelHandle == on {p:?} and {q:?} is {}", p == q);
        ch.state(fnv(hash_of(&(a, b)), hash_of(&(x, y))));
        ch.outcome(want as u64);
        Ok(())
    });
    ctx.explore("types", 1, "all 28 x 28 pairs of property types", |ch| {
        let (a, b) = (ch.pick(28), ch.pick(28));
        ch.step();
        ch.log(|| format!("{} and {}", NAMES[a], NAMES[b]));
        ensure!((type_of(a) == type_of(b)) == (a == b), "type-equality", "{:?} == {:?} is {}", type_of(a), type_of(b), type_of(a) == type_of(b));
        ch.state(fnv(fnv(0, a as u64), b as u64));
        Ok(())
    });
}
