//! Contracts with arbitrary shapes, and the reference model of a baseline.
use crate::types::*;
use arena::generational_arena as ga;
use mcx::{catch, fnv};
use std::any::TypeId;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_client::time::Ticks;

// ---- contracts whose fields are chosen at run time ----

#[derive(Debug)]
pub struct Shape {
    pub st: Vec<usize>,
    pub ch: Vec<usize>,
    st_t: Vec<TpPropertyType>,
    ch_t: Vec<TpPropertyType>,
    st_i: Vec<TypeId>,
    ch_i: Vec<TypeId>,
    names: Vec<&'static str>,
}
pub fn shape(st: &[usize], ch: &[usize]) -> &'static Shape {
    static TAB: Mutex<Option<HashMap<(Vec<usize>, Vec<usize>), &'static Shape>>> = Mutex::new(None);
    let mut t = TAB.lock().unwrap();
    t.get_or_insert_with(HashMap::new).entry((st.to_vec(), ch.to_vec())).or_insert_with(|| {
        Box::leak(Box::new(Shape {
            st: st.to_vec(),
            ch: ch.to_vec(),
            st_t: st.iter().map(|t| type_of(*t)).collect(),
            ch_t: ch.iter().map(|t| type_of(*t)).collect(),
            st_i: st.iter().map(|t| (o(*t).type_id)()).collect(),
            ch_i: ch.iter().map(|t| (o(*t).type_id)()).collect(),
            names: (0..st.len().max(ch.len())).map(|i| &*Box::leak(format!("field{i}").into_boxed_str())).collect(),
        }))
    })
}
/// Number of contract kinds.
pub const NK: usize = 8;
/// These and more whose ids are near one another.
pub const NX: usize = mcx::ids::NEAR.len();
#[allow(clippy::declare_interior_mutable_const)]
const NO_SHAPE: Cell<Option<&'static Shape>> = Cell::new(None);
thread_local! {
    static SHAPES: [Cell<Option<&'static Shape>>; NX] = const { [NO_SHAPE; NX] };
}
pub fn set_shape(kind: usize, s: &'static Shape) {
    SHAPES.with(|t| t[kind].set(Some(s)))
}
pub fn shape_of(kind: usize) -> &'static Shape {
    SHAPES.with(|t| t[kind].get()).expect("HARNESS: shape not set")
}
use mcx::ids::NEAR as IDS;
pub struct KS<const I: usize>;
pub struct KC<const I: usize>;
impl<const I: usize> IStates for KS<I> {
    fn type_ids() -> &'static [TypeId] {
        &shape_of(I).st_i
    }
    fn enumerate_types() -> &'static [TpPropertyType] {
        &shape_of(I).st_t
    }
    fn field_names() -> &'static [&'static str] {
        &shape_of(I).names[..shape_of(I).st.len()]
    }
}
impl<const I: usize> IChannels for KC<I> {
    fn type_ids() -> &'static [TypeId] {
        &shape_of(I).ch_i
    }
    fn enumerate_types() -> &'static [TpPropertyType] {
        &shape_of(I).ch_t
    }
    fn field_names() -> &'static [&'static str] {
        &shape_of(I).names[..shape_of(I).ch.len()]
    }
}
pub struct K<const I: usize> {
    h: ContractDataHandle,
    s: KS<I>,
    c: KC<I>,
}
impl<const I: usize> Contract for K<I> {
    type States = KS<I>;
    type Channels = KC<I>;
    const ID: ContractId = ContractId { name: IDS[I].0, version: IDS[I].1 };
    fn new(h: ContractDataHandle) -> Self {
        K { h, s: KS, c: KC }
    }
    fn states(&self) -> &KS<I> {
        &self.s
    }
    fn channels(&self) -> &KC<I> {
        &self.c
    }
    fn handle(&self) -> ContractDataHandle {
        self.h
    }
}
/// Operations of one contract kind.
pub struct KV {
    pub id: ContractId,
    pub reg: fn(&mut Baseline) -> Option<ContractDataHandle>,
    pub unreg: fn(&mut Baseline, ContractDataHandle) -> bool,
    pub create: fn(&mut Baseline, ContractDataHandle, Vec<DynTpProperty>, Vec<DynChannel>, bool) -> Option<ObjectHandle>,
    pub remove: fn(&mut Baseline, ObjectHandle) -> bool,
    pub state_id: fn(ContractDataHandle, usize) -> Option<DynStateId>,
    pub chan_id: fn(ContractDataHandle, usize) -> Option<DynChannelId>,
    pub state_iter: fn(ContractDataHandle) -> Vec<DynStateId>,
    pub chan_iter: fn(ContractDataHandle) -> Vec<DynChannelId>,
}
fn kv<const I: usize>() -> KV {
    KV {
        id: K::<I>::ID,
        reg: |b| b.register_contract::<K<I>>().ok().map(|c| c.handle()),
        unreg: |b, h| b.unregister_contract::<K<I>>(h).is_ok(),
        // `loose`: iterators that do not know their length
        create: |b, h, s, c, loose| {
            if loose {
                b.object_create(&K::<I>::new(h), s.into_iter().filter(|_| true), c.into_iter().filter(|_| true)).ok()
            } else {
                b.object_create(&K::<I>::new(h), s.into_iter(), c.into_iter()).ok()
            }
        },
        remove: |b, o| b.object_remove::<K<I>>(o).is_ok(),
        state_id: |h, i| K::<I>::new(h).state_id(i),
        chan_id: |h, i| K::<I>::new(h).chan_id(i),
        state_iter: |h| K::<I>::new(h).state_iter().collect(),
        chan_iter: |h| K::<I>::new(h).chan_iter().collect(),
    }
}
/// Only registering and unregistering, which is all that is done with the contracts after the first [`NK`]
fn near<const I: usize>() -> KV {
    KV {
        id: K::<I>::ID,
        reg: |b| b.register_contract::<K<I>>().ok().map(|c| c.handle()),
        unreg: |b, h| b.unregister_contract::<K<I>>(h).is_ok(),
        create: |_, _, _, _, _| unreachable!("HARNESS"),
        remove: |_, _| unreachable!("HARNESS"),
        state_id: |_, _| unreachable!("HARNESS"),
        chan_id: |_, _| unreachable!("HARNESS"),
        state_iter: |_| unreachable!("HARNESS"),
        chan_iter: |_| unreachable!("HARNESS"),
    }
}
macro_rules! kinds { ($($i:literal)+; $($n:literal)+) => { [$(kv::<$i>(),)+ $(near::<$n>()),+] } }
pub fn k(i: usize) -> &'static KV {
    static T: std::sync::OnceLock<[KV; NX]> = std::sync::OnceLock::new();
    &T.get_or_init(|| kinds!(0 1 2 3 4 5 6 7; 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55))[i]
}

// ---- the model ----

pub struct Inst {
    pub kind: usize,
    pub alive: bool,
    pub h: ContractDataHandle,
}
#[derive(Clone, Debug)]
pub struct St {
    pub ty: usize,
    pub raw: ga::Index,
    pub v: u8,
}
#[derive(Clone, Debug)]
pub struct Cn {
    pub ty: usize,
    pub raw: ga::Index,
    pub kfs: Kfs,
}
pub struct Obj {
    pub inst: usize,
    pub alive: bool,
    pub h: ObjectHandle,
    pub st: Vec<St>,
    pub ch: Vec<Cn>,
    pub warp: (i32, i32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Good,
    NoState,
    ExtraState,
    WrongState(usize),
    NoChan,
    ExtraChan,
    WrongChan(usize),
    Swapped,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Start,
    Register(usize),
    Unregister(usize, usize),
    Create(usize, u8, Bad),
    Remove(usize, usize),
    Write(usize, usize, Path, u8),
    WriteChan(usize, usize, Path, u8),
    Warp(usize, i32),
}
/// What kind of statement was violated.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    /// an operation succeeded or failed unexpectedly
    Outcome,
    /// contract data, object sets, enumeration
    Member,
    /// a handle resolves though its entity is gone, or fails though it exists
    Resolve,
    /// two handles are equal that must differ, or the reverse
    Alias,
    /// a property has the wrong value
    Value,
    /// a field id binds wrongly
    Bind,
    /// an operation panicked
    Panic,
}
pub struct Fail {
    pub cat: Cat,
    pub op: Op,
    pub refused: bool,
    pub key: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;

#[derive(Default)]
pub struct Model {
    pub insts: Vec<Inst>,
    pub objs: Vec<Obj>,
    pub last: Option<Op>,
    pub refused: bool,
    // every raw index ever issued: (what, type) -> set
    seen: HashSet<(u8, usize, (usize, u64))>,
}

/// The keyframe lists used as channel values (strictly ordered by time).
pub fn kfs(ty: usize, v: u8) -> Kfs {
    let n = (o(ty).n)() as u8;
    let t = |x: f64| x.to_bits();
    match v % 5 {
        0 => vec![(t(0.5), 0)],
        1 => vec![(t(-1.0), 1), (t(2.0), 0), (t(3.5), 1 % n)],
        2 => vec![],
        3 => vec![(t(0.5), 1)],
        _ => (0..7).map(|i| (t(i as f64 - 3.0), (i as u8) % n.min(2))).collect(),
    }
}
/// The value of field `f` for creation variant `v`.
pub fn field_val(ty: usize, f: usize, v: u8) -> u8 {
    ((f + v as usize) % (o(ty).n)()) as u8
}

macro_rules! check {
    ($self:expr, $cond:expr, $cat:ident, $key:expr, $($fmt:tt)+) => {
        if !$cond { return Err($self.fail(Cat::$cat, $key, format!($($fmt)+))); }
    };
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Depth {
    /// typed and dynamic reads, binding of each object's own ids
    Light,
    /// every read path, every id against every object, index panics
    Full,
}

impl Model {
    pub fn fail(&self, cat: Cat, key: &str, msg: String) -> Fail {
        let op = self.last.unwrap_or(Op::Start);
        Fail { cat, op, refused: self.refused, key: key.into(), msg: format!("after {op:?}{}: {msg}", if self.refused { " (refused)" } else { "" }) }
    }
    pub fn live_insts(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.insts.len()).filter(|i| self.insts[*i].alive)
    }
    pub fn live_objs(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.objs.len()).filter(|i| self.objs[*i].alive)
    }
    fn issue(&mut self, what: u8, ty: usize, i: ga::Index) -> bool {
        self.seen.insert((what, ty, i.into_raw_parts()))
    }
    fn kill(&mut self, o: usize) {
        self.objs[o].alive = false;
    }

    /// Runs `op` on the baseline and the model.
    pub fn apply(&mut self, b: &mut Baseline, op: Op) -> R {
        self.last = Some(op);
        self.refused = false;
        let r = catch(|| self.apply2(b, op));
        match r {
            Ok(r) => r,
            Err((m, l)) if m.starts_with("HARNESS") => panic!("{m} at {l}"),
            Err((m, l)) => Err(self.fail(Cat::Panic, "panic", format!("panicked: {m} at {l}"))),
        }
    }
    fn apply2(&mut self, b: &mut Baseline, op: Op) -> R {
        match op {
            Op::Start => {}
            Op::Register(kind) => {
                let want = !self.insts.iter().any(|i| i.alive && k(i.kind).id == k(kind).id);
                self.refused = !want;
                let got = (k(kind).reg)(b);
                check!(self, got.is_some() == want, Outcome, "register", "registering contract {:?} {}", k(kind).id, if want { "was refused" } else { "succeeded though already registered" });
                if let Some(h) = got {
                    self.insts.push(Inst { kind, alive: true, h });
                    let fresh = self.issue(0, 0, h.into());
                    check!(self, fresh, Alias, "contract-handle-reused", "a new contract got a handle that was issued before");
                }
            }
            Op::Unregister(kind, i) => {
                let want = self.insts[i].alive && k(self.insts[i].kind).id == k(kind).id;
                self.refused = !want;
                let got = (k(kind).unreg)(b, self.insts[i].h);
                check!(self, got == want, Outcome, "unregister", "unregistering gave ok={got}, expected {want}");
                if got {
                    self.insts[i].alive = false;
                    for o in 0..self.objs.len() {
                        if self.objs[o].inst == i {
                            self.kill(o)
                        }
                    }
                }
            }
            Op::Create(i, v, bad) => {
                let kind = self.insts[i].kind;
                let sh = shape_of(kind);
                let mut st: Vec<(usize, u8)> = sh.st.iter().enumerate().map(|(f, t)| (*t, field_val(*t, f, v))).collect();
                let mut ch: Vec<(usize, Kfs)> = sh.ch.iter().enumerate().map(|(f, t)| (*t, kfs(*t, f as u8 + v))).collect();
                match bad {
                    Bad::Good => {}
                    Bad::NoState => drop(st.pop()),
                    Bad::ExtraState => st.push((3, 0)),
                    Bad::WrongState(ty) => {
                        if let Some(x) = st.last_mut() {
                            *x = (ty, 0)
                        }
                    }
                    Bad::NoChan => drop(ch.pop()),
                    Bad::ExtraChan => ch.push((3, kfs(3, 1))),
                    Bad::WrongChan(ty) => {
                        if let Some(x) = ch.last_mut() {
                            *x = (ty, kfs(ty, 0))
                        }
                    }
                    Bad::Swapped => {
                        st.reverse();
                        ch.reverse();
                    }
                }
                self.create(b, i, st, ch, v % 2 == 1)?;
            }
            Op::Remove(kind, ob) => {
                let obj = &self.objs[ob];
                let want = obj.alive && k(self.insts[obj.inst].kind).id == k(kind).id;
                self.refused = !want;
                let got = (k(kind).remove)(b, obj.h);
                check!(self, got == want, Outcome, "remove", "removing an object gave ok={got}, expected {want}");
                if got {
                    self.kill(ob)
                }
            }
            Op::Write(ob, f, p, v) => {
                let (alive, s) = (self.objs[ob].alive, self.objs[ob].st[f].clone());
                let ops = o(s.ty);
                if !alive && p == Path::IndexMut {
                    panic!("HARNESS: index write to a dead state")
                }
                // the dynamic mutable form of a vector is a slice: it cannot change its length
                let fits = !matches!(p, Path::DynMut | Path::DynHandleMut) || (ops.veclen)(s.v) == (ops.veclen)(v);
                self.refused = !alive;
                let got = (ops.write_state)(b, s.raw, p, v);
                check!(self, got == (alive && fits), Resolve, "write-state", "writing {} through {p:?} gave ok={got}, alive={alive}", NAMES[s.ty]);
                if got {
                    self.objs[ob].st[f].v = v;
                }
            }
            Op::WriteChan(ob, f, p, v) => {
                let (alive, c) = (self.objs[ob].alive, self.objs[ob].ch[f].clone());
                if !alive && p == Path::IndexMut {
                    panic!("HARNESS: index write to a dead channel")
                }
                self.refused = !alive;
                let new = kfs(c.ty, v);
                let got = (o(c.ty).write_chan)(b, c.raw, p, &new);
                check!(self, got == alive, Resolve, "write-channel", "writing channel of {} through {p:?} gave ok={got}, alive={alive}", NAMES[c.ty]);
                if got {
                    self.objs[ob].ch[f].kfs = new;
                }
            }
            Op::Warp(ob, v) => {
                let (alive, h) = (self.objs[ob].alive, self.objs[ob].h);
                self.refused = !alive;
                match b.object_mut(h) {
                    Ok(x) => {
                        check!(self, alive, Resolve, "object-mut", "a removed object resolves");
                        x.time_warp_mut().offset = Ticks::new(v);
                        self.objs[ob].warp = (v, self.objs[ob].warp.1);
                    }
                    Err(_) => check!(self, !alive, Resolve, "object-mut", "a live object does not resolve"),
                }
            }
        }
        Ok(())
    }
    /// Creates an object with the given states and channels; refused exactly if they do not fit.
    pub fn create(&mut self, b: &mut Baseline, i: usize, st: Vec<(usize, u8)>, ch: Vec<(usize, Kfs)>, loose: bool) -> R<Option<usize>> {
        let inst = &self.insts[i];
        let (kind, ih, alive) = (inst.kind, inst.h, inst.alive);
        let sh = shape_of(kind);
        let want = alive && st.iter().map(|x| x.0).eq(sh.st.iter().copied()) && ch.iter().map(|x| x.0).eq(sh.ch.iter().copied());
        self.refused = !want;
        let ds = st.iter().map(|(t, v)| (o(*t).mk)(*v)).collect();
        let dc = ch.iter().map(|(t, v)| (o(*t).mk_chan)(v)).collect();
        let got = (k(kind).create)(b, ih, ds, dc, loose);
        check!(self, got.is_some() == want, Outcome, "create", "creating an object from {st:?} {ch:?} for fields {:?} {:?} gave ok={}, expected {want}", sh.st, sh.ch, got.is_some());
        let Some(h) = got else { return Ok(None) };
        let fresh = self.issue(1, 0, h.into());
        check!(self, fresh, Alias, "object-handle-reused", "a new object got a handle that was issued before");
        let mut obj = Obj { inst: i, alive: true, h, st: vec![], ch: vec![], warp: (0, 1024) };
        for (f, (ty, v)) in st.into_iter().enumerate() {
            let raw = (o(ty).bind_state)(b, f, ih, h);
            let Some(raw) = raw else { return Err(self.fail(Cat::Bind, "bind-new", format!("state {f} of a new object does not bind"))) };
            let fresh = self.issue(2, ty, raw);
            let shared = !fresh && self.objs.iter().any(|o| o.alive && o.st.iter().any(|x| x.ty == ty && x.raw == raw));
            check!(self, !shared, Value, "state-shared", "state {f} ({}) of a new object is one of another object that is there", NAMES[ty]);
            check!(self, fresh, Alias, "state-handle-reused", "state {f} ({}) of a new object got a handle that was issued before", NAMES[ty]);
            obj.st.push(St { ty, raw, v });
        }
        for (f, (ty, kfs)) in ch.into_iter().enumerate() {
            let raw = (o(ty).bind_chan)(b, f, ih, h);
            let Some(raw) = raw else { return Err(self.fail(Cat::Bind, "bind-new", format!("channel {f} of a new object does not bind"))) };
            let fresh = self.issue(3, ty, raw);
            let shared = !fresh && self.objs.iter().any(|o| o.alive && o.ch.iter().any(|x| x.ty == ty && x.raw == raw));
            check!(self, !shared, Value, "channel-shared", "channel {f} ({}) of a new object is one of another object that is there", NAMES[ty]);
            check!(self, fresh, Alias, "channel-handle-reused", "channel {f} ({}) of a new object got a handle that was issued before", NAMES[ty]);
            obj.ch.push(Cn { ty, raw, kfs });
        }
        self.objs.push(obj);
        Ok(Some(self.objs.len() - 1))
    }

    /// Compares everything observable with the model.
    pub fn observe(&self, b: &mut Baseline, kind: BaselineKind, d: Depth) -> R {
        match catch(|| self.observe2(b, kind, d)) {
            Ok(r) => r,
            Err((m, l)) if m.starts_with("HARNESS") => panic!("{m} at {l}"),
            Err((m, l)) => Err(self.fail(Cat::Panic, "panic-observe", format!("panicked: {m} at {l}"))),
        }
    }
    fn observe2(&self, b: &mut Baseline, kind: BaselineKind, d: Depth) -> R {
        let full = d == Depth::Full;
        check!(self, b.kind() == kind, Outcome, "kind", "the baseline reports kind {:?}, expected {kind:?}", b.kind());
        // contracts and membership
        for (n, i) in self.insts.iter().enumerate() {
            match b.contract_data(i.h) {
                Ok(c) => {
                    check!(self, i.alive, Resolve, "contract-resolves", "the handle of unregistered contract #{n} resolves");
                    check!(self, c.id() == k(i.kind).id, Member, "contract-id", "contract #{n} has id {:?}", c.id());
                    let want = self.objs.iter().filter(|o| o.alive && o.inst == n).count();
                    check!(self, c.objects().len() == want, Member, "objects-len", "contract #{n} has {} objects, expected {want}", c.objects().len());
                    for o in self.objs.iter().filter(|o| o.alive && o.inst == n) {
                        check!(self, c.objects().contains(&o.h), Member, "objects", "an object is missing from its contract's set");
                    }
                }
                Err(_) => check!(self, !i.alive, Resolve, "contract-resolves", "the handle of registered contract #{n} does not resolve"),
            }
        }
        let live = self.objs.iter().filter(|o| o.alive).count();
        let mut found = vec![false; self.objs.len()];
        let by_handle: HashMap<(usize, u64), usize> = if self.objs.len() > 64 { self.objs.iter().enumerate().map(|(n, o)| (ga::Index::from(o.h).into_raw_parts(), n)).collect() } else { Default::default() };
        for (h, ob) in b.iter_objects() {
            let n = if self.objs.len() > 64 { by_handle.get(&ga::Index::from(h).into_raw_parts()).copied().filter(|n| self.objs[*n].h == h) } else { self.objs.iter().position(|o| o.h == h) };
            let Some(n) = n else { return Err(self.fail(Cat::Member, "iter-objects", "enumeration yields an unknown object".into())) };
            check!(self, self.objs[n].alive && !found[n], Member, "iter-objects", "enumeration yields object #{n} wrongly (alive {}, again {})", self.objs[n].alive, found[n]);
            found[n] = true;
            check!(self, ob.contract() == self.insts[self.objs[n].inst].h, Member, "iter-contract", "enumeration yields object #{n} with another contract");
        }
        let n = found.iter().filter(|f| **f).count();
        check!(self, n == live, Member, "iter-objects", "enumeration yields {n} objects, {live} are live");
        // handles are pairwise different
        if full && self.objs.len() < 2000 {
            for (n, x) in self.objs.iter().enumerate() {
                for (m, y) in self.objs.iter().enumerate() {
                    check!(self, (x.h == y.h) == (n == m), Alias, "object-eq", "handles of objects #{n} and #{m} compare equal={}", x.h == y.h);
                }
            }
            for (n, x) in self.insts.iter().enumerate() {
                for (m, y) in self.insts.iter().enumerate() {
                    check!(self, (x.h == y.h) == (n == m), Alias, "contract-eq", "handles of contracts #{n} and #{m} compare equal={}", x.h == y.h);
                }
            }
        }
        // objects
        for (n, ob) in self.objs.iter().enumerate() {
            match b.object(ob.h) {
                Ok(x) => {
                    check!(self, ob.alive, Resolve, "object-resolves", "the handle of removed object #{n} resolves");
                    check!(self, x.contract() == self.insts[ob.inst].h, Value, "object-contract", "object #{n} has another contract");
                    let w = x.time_warp();
                    let got = (w.offset.as_millis(), w.scale.numerator());
                    check!(self, got == ob.warp, Value, "object-warp", "object #{n} has time warp {got:?}, expected {:?}", ob.warp);
                }
                Err(_) => check!(self, !ob.alive, Resolve, "object-resolves", "live object #{n} does not resolve"),
            }
            if full {
                check!(self, b.object_mut(ob.h).is_ok() == ob.alive, Resolve, "object-mut", "object_mut of object #{n} (alive {})", ob.alive);
                let ix = catch(|| b[ob.h].contract()).ok();
                check!(self, ix.is_some() == ob.alive, Resolve, "object-index", "indexing with object #{n} (alive {}) gave {ix:?}", ob.alive);
            }
            // fields
            let own = self.insts[ob.inst].h;
            for (f, s) in ob.st.iter().enumerate() {
                let ops = o(s.ty);
                let bound = (ops.bind_state)(b, f, own, ob.h);
                check!(self, bound == ob.alive.then_some(s.raw), Bind, "bind-state", "state {f} of object #{n} (alive {}) binds to {bound:?}, expected {:?}", ob.alive, s.raw);
                for p in if full { &STATE_READS[..] } else { &STATE_READS[..4] } {
                    if !ob.alive && matches!(p, Path::Index | Path::IndexMut) {
                        let r = catch(|| (ops.read_state)(b, s.raw, *p));
                        check!(self, r.is_err(), Resolve, "state-index", "indexing with a state of removed object #{n} yields a value");
                        continue;
                    }
                    match (ops.read_state)(b, s.raw, *p) {
                        Some(v) => {
                            check!(self, ob.alive, Resolve, "state-resolves", "state {f} ({}) of removed object #{n} resolves through {p:?}", NAMES[s.ty]);
                            check!(self, v == s.v, Value, "state-value", "state {f} ({}) of object #{n} reads value #{v} through {p:?}, expected #{}", NAMES[s.ty], s.v);
                        }
                        None => check!(self, !ob.alive, Resolve, "state-resolves", "state {f} ({}) of live object #{n} does not resolve through {p:?}", NAMES[s.ty]),
                    }
                }
            }
            for (f, c) in ob.ch.iter().enumerate() {
                let ops = o(c.ty);
                let bound = (ops.bind_chan)(b, f, own, ob.h);
                check!(self, bound == ob.alive.then_some(c.raw), Bind, "bind-channel", "channel {f} of object #{n} (alive {}) binds to {bound:?}, expected {:?}", ob.alive, c.raw);
                for p in if full { &CHAN_READS[..] } else { &CHAN_READS[..2] } {
                    if !ob.alive && matches!(p, Path::Index | Path::IndexMut) {
                        let r = catch(|| (ops.read_chan)(b, c.raw, *p));
                        check!(self, r.is_err(), Resolve, "channel-index", "indexing with a channel of removed object #{n} yields a value");
                        continue;
                    }
                    match (ops.read_chan)(b, c.raw, *p) {
                        Some(v) => {
                            check!(self, ob.alive, Resolve, "channel-resolves", "channel {f} ({}) of removed object #{n} resolves through {p:?}", NAMES[c.ty]);
                            check!(self, v == c.kfs, Value, "channel-value", "channel {f} ({}) of object #{n} reads {v:?} through {p:?}, expected {:?}", NAMES[c.ty], c.kfs);
                        }
                        None => check!(self, !ob.alive, Resolve, "channel-resolves", "channel {f} ({}) of live object #{n} does not resolve through {p:?}", NAMES[c.ty]),
                    }
                }
            }
        }
        Ok(())
    }

    /// Every field id of every registration against every object, by every route.
    pub fn observe_binding(&self, b: &mut Baseline) -> R {
        match catch(|| self.observe_binding2(b)) {
            Ok(r) => r,
            Err((m, l)) if m.starts_with("HARNESS") => panic!("{m} at {l}"),
            Err((m, l)) => Err(self.fail(Cat::Panic, "panic-bind", format!("panicked: {m} at {l}"))),
        }
    }
    fn observe_binding2(&self, b: &mut Baseline) -> R {
        for (n, inst) in self.insts.iter().enumerate() {
            let kv = k(inst.kind);
            let sh = shape_of(inst.kind);
            let (si, ci) = ((kv.state_iter)(inst.h), (kv.chan_iter)(inst.h));
            check!(self, si.len() == sh.st.len() && ci.len() == sh.ch.len(), Bind, "iter-len", "contract #{n} enumerates {} states and {} channels", si.len(), ci.len());
            for (m, ob) in self.objs.iter().enumerate() {
                let can = ob.alive && ob.inst == n;
                for f in 0..sh.st.len() {
                    let ops = o(sh.st[f]);
                    let want = can.then(|| ob.st[f].raw);
                    let a = (ops.bind_state)(b, f, inst.h, ob.h);
                    check!(self, a == want, Bind, "bind-state", "state {f} of contract #{n} binds to object #{m} as {a:?}, expected {want:?}");
                    for (route, id) in [("iterator", Some(&si[f])), ("position", (kv.state_id)(inst.h, f).as_ref())] {
                        let a = id.and_then(|id| (ops.bind_dyn_state)(b, id, ob.h));
                        check!(self, a == Some(want), Bind, "bind-dyn-state", "state {f} by {route} of contract #{n} binds to object #{m} as {a:?}, expected {want:?}");
                    }
                    if let Some(w) = want {
                        check!(self, (ops.read_state)(b, w, Path::Typed) == Some(ob.st[f].v), Bind, "bind-reads", "state {f} of object #{m} reached through its id has another value");
                    }
                    if sh.st[f] < 14 {
                        if let Ok(x) = b.object(ob.h) {
                            let a = catch(|| (ops.obj_state)(x, f, inst.h)).ok();
                            check!(self, a == want, Bind, "object-state", "Object::state({f}) of contract #{n} on object #{m} gave {a:?}, expected {want:?}");
                        }
                    }
                }
                for f in 0..sh.ch.len() {
                    let ops = o(sh.ch[f]);
                    let want = can.then(|| ob.ch[f].raw);
                    let a = (ops.bind_chan)(b, f, inst.h, ob.h);
                    check!(self, a == want, Bind, "bind-channel", "channel {f} of contract #{n} binds to object #{m} as {a:?}, expected {want:?}");
                    for (route, id) in [("iterator", Some(&ci[f])), ("position", (kv.chan_id)(inst.h, f).as_ref())] {
                        let a = id.and_then(|id| (ops.bind_dyn_chan)(b, id, ob.h));
                        check!(self, a == Some(want), Bind, "bind-dyn-channel", "channel {f} by {route} of contract #{n} binds to object #{m} as {a:?}, expected {want:?}");
                    }
                    if let Some(w) = want {
                        check!(self, (ops.read_chan)(b, w, Path::Typed).as_ref() == Some(&ob.ch[f].kfs), Bind, "bind-reads", "channel {f} of object #{m} reached through its id has other keyframes");
                    }
                    if sh.ch[f] < 14 {
                        if let Ok(x) = b.object(ob.h) {
                            let a = catch(|| (ops.obj_chan)(x, f, inst.h)).ok();
                            check!(self, a == want, Bind, "object-channel", "Object::channel({f}) of contract #{n} on object #{m} gave {a:?}, expected {want:?}");
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0;
        for i in &self.insts {
            h = fnv(h, (i.kind * 2 + i.alive as usize) as u64);
        }
        for ob in &self.objs {
            h = fnv(h, (ob.inst * 2 + ob.alive as usize) as u64 + 1000);
            if ob.alive {
                for s in &ob.st {
                    h = fnv(h, s.v as u64);
                }
                for c in &ob.ch {
                    for (t, v) in &c.kfs {
                        h = fnv(fnv(h, *t), *v as u64);
                    }
                }
                h = fnv(h, ob.warp.0 as u64);
            }
        }
        h
    }
}
