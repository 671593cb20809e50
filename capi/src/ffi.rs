//! The exported C functions, declared by symbol name as a C program sees them: opaque pointers, plain
//! structs. One table per primitive property type.
use mc_core::types::{alpha, Kfs, Prop, ALIEN};
use paste::paste;
use tp_client::contract::c_api::ContractDataHandle as CCh;
use tp_client::contract::properties::channels::c_api as ch_api;
use tp_client::contract::properties::channels::{Channel, ChannelId, Keyframe};
use tp_client::contract::properties::states::c_api as st_api;
use tp_client::contract::properties::states::StateId;
use tp_client::contract::ContractDataHandle;
use tp_client::object::c_api::ObjectHandle as COh;
use tp_client::object::ObjectHandle;

#[repr(C)]
pub struct Opaque([u8; 0]);
pub type P = *mut Opaque;
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CVec {
    pub ptr: P,
    pub len: usize,
    pub cap: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CSlice<T> {
    pub ptr: *const T,
    pub len: usize,
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Version {
    pub major: u16,
    pub minor: u16,
    pub patch: u16,
}

extern "C" {
    pub fn rsharp__String__value(s: P) -> CSlice<u8>;
    pub fn rsharp__String__drop(s: P);
    pub fn rsharp__String__copy_utf8(s: CSlice<u8>) -> P;
    pub fn rsharp__String__copy_utf16(s: CSlice<u16>) -> P;

    pub fn tp_client__object__ObjectHandle__drop(h: P);
    pub fn tp_client__object__RVec_ObjectHandle__new() -> CVec;
    pub fn tp_client__object__RVec_ObjectHandle__push(v: *mut CVec, h: P);
    pub fn tp_client__object__RVec_ObjectHandle__get(v: *const CVec, i: usize) -> P;
    pub fn tp_client__object__RVec_ObjectHandle__set(v: *mut CVec, i: usize, h: P);
    pub fn tp_client__object__RVec_ObjectHandle__drop(v: CVec);
    pub fn tp_client__contract__ContractDataHandle__drop(h: P);
    pub fn tp_client__contract__ContractData__id(c: P) -> P;
    pub fn tp_client__contract__ContractData__objects(c: P) -> CVec;
    pub fn tp_client__contract__ContractId__name(c: P) -> CSlice<u8>;
    pub fn tp_client__contract__ContractId__version(c: P) -> Version;

    pub fn tp_client__baseline__Baseline__new(kind: u8) -> P;
    pub fn tp_client__baseline__Baseline__drop(b: P);
    pub fn tp_client__baseline__Baseline__kind(b: P) -> u8;
    pub fn tp_client__baseline__Baseline__contract_data(b: P, c: P) -> P;
    pub fn tp_client__baseline__Baseline__object(b: P, h: P) -> P;
    pub fn tp_client__baseline__Baseline__object_mut(b: P, h: P) -> P;

    pub fn tp_contract_example__ExampleContract__register(b: P) -> P;
    pub fn tp_contract_example__ExampleContract__drop(c: P);
    pub fn tp_contract_example__ExampleContract__handle(c: P) -> P;
    pub fn tp_contract_example__ExampleContract__states(c: P) -> P;
    pub fn tp_contract_example__ExampleContract__object_create(c: P, b: P, u8_0: u8, u8_1: u8, i8_0: i8, i8_1: i8, f32_0: f32, f32_1: f32, str_0: P, oh_0: P, ch_0: P) -> P;
    pub fn tp_contract_example__ExampleContract__object_remove(b: P, o: P);

    pub fn BallContract__register(b: P) -> P;
    pub fn BallContract__unregister(b: P, c: P);
    pub fn BallContract__drop(c: P);
    pub fn BallContract__handle(c: P) -> P;
    pub fn BallContract__states(c: P) -> P;
    pub fn BallContract__object_create(b: P, c: P, x: f32, y: f32, z: f32, ex: i16, ey: i16, ez: i16, sx: f32, sy: f32, sz: f32, color: u64) -> P;
    pub fn BallContract__object_remove(b: P, o: P);
}
macro_rules! field_ids {
    ($name:ident, $prefix:ident: $($f:ident),+) => { paste! {
        extern "C" { $(fn [<$prefix $f>](s: P) -> P;)+ }
        pub static $name: &[unsafe extern "C" fn(P) -> P] = &[$([<$prefix $f>]),+];
    } };
}
field_ids!(EX_FIELDS, tp_contract_example__ExampleStates__: u8_0, u8_1, i8_0, i8_1, f32_0, f32_1, str_0, oh_0, ch_0);
field_ids!(BALL_FIELDS, BallStates__: pos_x, pos_y, pos_z, euler_x, euler_y, euler_z, scale_x, scale_y, scale_z, color);
pub const EX_TYPES: [usize; 9] = [0, 0, 4, 4, 9, 9, 11, 12, 13];
pub const BALL_TYPES: [usize; 10] = [9, 9, 9, 5, 5, 5, 9, 9, 9, 3];

type F0<R> = unsafe extern "C" fn() -> R;
type F1<A, R> = unsafe extern "C" fn(A) -> R;
type F2<A, B, R> = unsafe extern "C" fn(A, B) -> R;
type F3<A, B, C, R> = unsafe extern "C" fn(A, B, C) -> R;

/// What C can do with one property type, and a few conversions of ours.
pub struct Ffi {
    pub name: &'static str,
    /// number of different values
    pub n: u8,
    pub equal: fn(u8, u8) -> bool,
    /// a value on the heap as C makes it (value types, text) or receives it (handles)
    pub boxed: fn(u8) -> P,
    pub unbox: fn(P),
    /// which value a pointer shows
    pub read: unsafe fn(P) -> u8,
    pub size: usize,

    pub state_new: F1<P, P>,
    pub state_drop: F1<P, ()>,
    pub state_value: F1<P, P>,
    pub state_value_set: F2<P, P, ()>,
    pub sid_contract: F1<P, P>,
    pub sid_drop: F1<P, ()>,
    pub sh_drop: F1<P, ()>,
    pub cid_contract: F1<P, P>,
    pub cid_drop: F1<P, ()>,
    pub ch_drop: F1<P, ()>,
    pub kf_new: F2<P, f64, P>,
    pub kf_drop: F1<P, ()>,
    pub kf_value: F1<P, P>,
    pub kf_time: F1<P, f64>,
    pub rv_new: F0<CVec>,
    pub rv_push: F2<*mut CVec, P, ()>,
    pub rv_get: F2<*const CVec, usize, P>,
    pub rv_set: F3<*mut CVec, usize, P, ()>,
    pub rv_drop: F1<CVec, ()>,
    pub chan_new: F1<CVec, P>,
    pub chan_drop: F1<P, ()>,
    pub chan_keyframes: F1<P, CVec>,
    pub chan_keyframes_mut: F1<P, CVec>,
    pub chan_keyframes_drop: F1<CVec, ()>,
    pub chan_keyframes_mut_drop: F1<CVec, ()>,
    pub b_state: F2<P, P, P>,
    pub b_state_mut: F2<P, P, P>,
    pub b_channel: F2<P, P, P>,
    pub b_channel_mut: F2<P, P, P>,
    pub b_bind_state: F3<P, P, P, P>,
    pub b_bind_channel: F3<P, P, P, P>,

    /// What a C program gets from its own contracts: a boxed id.
    pub mk_sid: fn(usize, ContractDataHandle) -> P,
    pub mk_cid: fn(usize, ContractDataHandle) -> P,
    pub sid_is: unsafe fn(P, usize, ContractDataHandle) -> bool,
    pub sh_raw: unsafe fn(P) -> arena::generational_arena::Index,
    pub ch_raw: unsafe fn(P) -> arena::generational_arena::Index,
    /// overwrites the keyframe behind a mutable pointer
    pub kf_overwrite: unsafe fn(P, u8, f64),
    /// what a channel made in Rust from these keyframes holds
    pub rust_chan: fn(&[(u64, u8)]) -> Kfs,
}
pub fn to_p<T>(b: Box<T>) -> P {
    Box::into_raw(b) as P
}
unsafe fn code<T: Prop>(v: &T) -> u8 {
    alpha::<T>().iter().position(|a| T::same(a, v)).map_or(ALIEN, |i| i as u8)
}

/// How each type crosses the border.
pub trait Cross: Prop {
    fn boxed(&self) -> P;
    unsafe fn unbox(p: P);
    unsafe fn get(p: P) -> u8;
}
macro_rules! value_types {
    ($($n:ident $t:ident),+) => { paste! { $(
        extern "C" {
            fn [<rsharp__Box_ $n __new>](v: $t) -> P;
            fn [<rsharp__Box_ $n __drop>](p: P);
        }
        impl Cross for $t {
            fn boxed(&self) -> P { unsafe { [<rsharp__Box_ $n __new>](*self) } }
            unsafe fn unbox(p: P) { [<rsharp__Box_ $n __drop>](p) }
            unsafe fn get(p: P) -> u8 { code::<$t>(&*(p as *const $t)) }
        }
    )+ } };
}
value_types!(U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64, F32 f32, F64 f64);
extern "C" {
    fn rsharp__Box_Bool__new(v: bool) -> P;
    fn rsharp__Box_Bool__drop(p: P);
}
impl Cross for bool {
    fn boxed(&self) -> P {
        unsafe { rsharp__Box_Bool__new(*self) }
    }
    unsafe fn unbox(p: P) {
        rsharp__Box_Bool__drop(p)
    }
    unsafe fn get(p: P) -> u8 {
        // not read as a bool: it may be a broken one
        match *(p as *const u8) {
            0 => code::<bool>(&false),
            1 => code::<bool>(&true),
            _ => ALIEN,
        }
    }
}
pub fn utf8(s: &str) -> P {
    unsafe { rsharp__String__copy_utf8(CSlice { ptr: s.as_ptr(), len: s.len() }) }
}
pub unsafe fn text<'a>(p: P) -> &'a [u8] {
    let s = rsharp__String__value(p);
    std::slice::from_raw_parts(s.ptr, s.len)
}
impl Cross for String {
    fn boxed(&self) -> P {
        utf8(self)
    }
    unsafe fn unbox(p: P) {
        rsharp__String__drop(p)
    }
    unsafe fn get(p: P) -> u8 {
        let t = text(p);
        alpha::<String>().iter().position(|a| a.as_bytes() == t).map_or(ALIEN, |i| i as u8)
    }
}
impl Cross for ObjectHandle {
    fn boxed(&self) -> P {
        to_p(Box::new(COh::from(*self)))
    }
    unsafe fn unbox(p: P) {
        tp_client__object__ObjectHandle__drop(p)
    }
    unsafe fn get(p: P) -> u8 {
        code::<ObjectHandle>(&(*(p as *const COh)).inner)
    }
}
impl Cross for ContractDataHandle {
    fn boxed(&self) -> P {
        to_p(Box::new(CCh::from(*self)))
    }
    unsafe fn unbox(p: P) {
        tp_client__contract__ContractDataHandle__drop(p)
    }
    unsafe fn get(p: P) -> u8 {
        code::<ContractDataHandle>(&(*(p as *const CCh)).inner)
    }
}

macro_rules! table {
    ($($n:ident $t:ident),+ $(,)?) => { paste! {
        extern "C" { $(
            fn [<tp_client__contract__properties__states__State_ $n __new>](v: P) -> P;
            fn [<tp_client__contract__properties__states__State_ $n __drop>](s: P);
            fn [<tp_client__contract__properties__states__State_ $n __value>](s: P) -> P;
            fn [<tp_client__contract__properties__states__State_ $n __value_set>](s: P, v: P);
            fn [<tp_client__contract__properties__states__StateId_ $n __contract>](i: P) -> P;
            fn [<tp_client__contract__properties__states__StateId_ $n __drop>](i: P);
            fn [<tp_client__contract__properties__states__StateHandle_ $n __drop>](i: P);
            fn [<tp_client__contract__properties__channels__ChannelId_ $n __contract>](i: P) -> P;
            fn [<tp_client__contract__properties__channels__ChannelId_ $n __drop>](i: P);
            fn [<tp_client__contract__properties__channels__ChannelHandle_ $n __drop>](i: P);
            fn [<tp_client__contract__properties__channels__Keyframe_ $n __new>](v: P, t: f64) -> P;
            fn [<tp_client__contract__properties__channels__Keyframe_ $n __drop>](k: P);
            fn [<tp_client__contract__properties__channels__Keyframe_ $n __value>](k: P) -> P;
            fn [<tp_client__contract__properties__channels__Keyframe_ $n __time>](k: P) -> f64;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __new>]() -> CVec;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __push>](v: *mut CVec, k: P);
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __get>](v: *const CVec, i: usize) -> P;
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __set>](v: *mut CVec, i: usize, k: P);
            fn [<tp_client__contract__properties__channels__RVec_Keyframe $n __drop>](v: CVec);
            fn [<tp_client__contract__properties__channels__Channel_ $n __new>](v: CVec) -> P;
            fn [<tp_client__contract__properties__channels__Channel_ $n __drop>](c: P);
            fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes>](c: P) -> CVec;
            fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut>](c: P) -> CVec;
            fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_drop>](c: CVec);
            fn [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut_drop>](c: CVec);
            fn [<tp_client__baseline__Baseline__state_ $n>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__state_mut_ $n>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__channel_ $n>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__channel_mut_ $n>](b: P, h: P) -> P;
            fn [<tp_client__baseline__Baseline__bind_state_ $n>](b: P, i: P, o: P) -> P;
            fn [<tp_client__baseline__Baseline__bind_channel_ $n>](b: P, i: P, o: P) -> P;
        )+ }
        pub static FFI: [fn() -> Ffi; 14] = [$(|| Ffi {
            name: stringify!($t),
            n: alpha::<$t>().len() as u8,
            equal: |a, b| <$t as Prop>::equal(&alpha::<$t>()[a as usize], &alpha::<$t>()[b as usize]),
            boxed: |v| alpha::<$t>()[v as usize].boxed(),
            unbox: |p| unsafe { <$t as Cross>::unbox(p) },
            read: |p| unsafe { <$t as Cross>::get(p) },
            size: std::mem::size_of::<$t>(),
            state_new: [<tp_client__contract__properties__states__State_ $n __new>],
            state_drop: [<tp_client__contract__properties__states__State_ $n __drop>],
            state_value: [<tp_client__contract__properties__states__State_ $n __value>],
            state_value_set: [<tp_client__contract__properties__states__State_ $n __value_set>],
            sid_contract: [<tp_client__contract__properties__states__StateId_ $n __contract>],
            sid_drop: [<tp_client__contract__properties__states__StateId_ $n __drop>],
            sh_drop: [<tp_client__contract__properties__states__StateHandle_ $n __drop>],
            cid_contract: [<tp_client__contract__properties__channels__ChannelId_ $n __contract>],
            cid_drop: [<tp_client__contract__properties__channels__ChannelId_ $n __drop>],
            ch_drop: [<tp_client__contract__properties__channels__ChannelHandle_ $n __drop>],
            kf_new: [<tp_client__contract__properties__channels__Keyframe_ $n __new>],
            kf_drop: [<tp_client__contract__properties__channels__Keyframe_ $n __drop>],
            kf_value: [<tp_client__contract__properties__channels__Keyframe_ $n __value>],
            kf_time: [<tp_client__contract__properties__channels__Keyframe_ $n __time>],
            rv_new: [<tp_client__contract__properties__channels__RVec_Keyframe $n __new>],
            rv_push: [<tp_client__contract__properties__channels__RVec_Keyframe $n __push>],
            rv_get: [<tp_client__contract__properties__channels__RVec_Keyframe $n __get>],
            rv_set: [<tp_client__contract__properties__channels__RVec_Keyframe $n __set>],
            rv_drop: [<tp_client__contract__properties__channels__RVec_Keyframe $n __drop>],
            chan_new: [<tp_client__contract__properties__channels__Channel_ $n __new>],
            chan_drop: [<tp_client__contract__properties__channels__Channel_ $n __drop>],
            chan_keyframes: [<tp_client__contract__properties__channels__Channel_ $n __keyframes>],
            chan_keyframes_mut: [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut>],
            chan_keyframes_drop: [<tp_client__contract__properties__channels__Channel_ $n __keyframes_drop>],
            chan_keyframes_mut_drop: [<tp_client__contract__properties__channels__Channel_ $n __keyframes_mut_drop>],
            b_state: [<tp_client__baseline__Baseline__state_ $n>],
            b_state_mut: [<tp_client__baseline__Baseline__state_mut_ $n>],
            b_channel: [<tp_client__baseline__Baseline__channel_ $n>],
            b_channel_mut: [<tp_client__baseline__Baseline__channel_mut_ $n>],
            b_bind_state: [<tp_client__baseline__Baseline__bind_state_ $n>],
            b_bind_channel: [<tp_client__baseline__Baseline__bind_channel_ $n>],
            mk_sid: |i, c| to_p(Box::new(st_api::[<StateId_ $n>]::from(StateId::new(i, c)))),
            mk_cid: |i, c| to_p(Box::new(ch_api::[<ChannelId_ $n>]::from(ChannelId::new(i, c)))),
            sid_is: |p, i, c| unsafe { (*(p as *const st_api::[<StateId_ $n>])).inner == StateId::new(i, c) },
            sh_raw: |p| unsafe { (*(p as *const st_api::[<StateHandle_ $n>])).inner.into() },
            ch_raw: |p| unsafe { (*(p as *const ch_api::[<ChannelHandle_ $n>])).inner.into() },
            kf_overwrite: |p, v, t| unsafe { (*(p as *mut ch_api::[<Keyframe_ $n>])).inner = Keyframe::new(alpha::<$t>()[v as usize].clone(), t) },
            rust_chan: |k| Channel::<$t>::new(k.iter().map(|(t, v)| Keyframe::new(alpha::<$t>()[*v as usize].clone(), f64::from_bits(*t)))).keyframes().iter().map(|k| (k.time().to_bits(), unsafe { code::<$t>(k.value()) })).collect(),
        }),+];
    } };
}
table!(U8 u8, U16 u16, U32 u32, U64 u64, I8 i8, I16 i16, I32 i32, I64 i64, Bool bool, F32 f32, F64 f64,
    String String, ObjectHandle ObjectHandle, ContractDataHandle ContractDataHandle);
pub fn f(t: usize) -> &'static Ffi {
    static T: std::sync::OnceLock<Vec<Ffi>> = std::sync::OnceLock::new();
    &T.get_or_init(|| FFI.iter().map(|f| f()).collect())[t]
}
pub unsafe fn coh(p: P) -> ObjectHandle {
    (*(p as *const COh)).inner
}
pub unsafe fn cch(p: P) -> ContractDataHandle {
    (*(p as *const CCh)).inner
}
