//! A baseline driven through the C functions, next to a model (C20), with everything that is handed
//! out accounted for (C21).
use crate::ffi::*;
use arena::generational_arena as ga;
use mc_core::types::*;
use mc_core::world::{k, kfs, set_shape, shape};
pub use crate::meter::Meter;
use mcx::alloc::take_fault;
use mcx::{ensure, fnv, Ch, Ctx, Res};
use std::collections::{HashMap, HashSet};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;

/// Does this run judge values (C20) or ownership (C21)?
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Judge {
    Values,
    Memory,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Example,
    Ball,
    /// all fourteen types, registered by a Rust part of the program
    All,
}
struct Inst {
    which: Which,
    alive: bool,
    h: ContractDataHandle,
    c: P,
    /// held like a client would keep it
    handle: P,
}
struct Obj {
    inst: usize,
    alive: bool,
    h: ObjectHandle,
    handle: P,
    st: Vec<(usize, u8)>,
    ch: Vec<(usize, Kfs)>,
}
pub struct World {
    b: P,
    kind: BaselineKind,
    pub m: Meter,
    insts: Vec<Inst>,
    objs: Vec<Obj>,
    /// every object handle that was given out, and its number
    given: HashMap<ObjectHandle, usize>,
    /// handles and ids that a client keeps for good: released at the end
    kept: Vec<(P, unsafe extern "C" fn(P))>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Register(Which),
    UnregisterBall(usize),
    Create(usize, u8),
    Remove(usize),
    Write(usize, usize, u8),
    Keep(usize, usize),
}

const ALL: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
const HANDLE_DROP: unsafe extern "C" fn(P) = tp_client__contract__ContractDataHandle__drop;
const OBJ_DROP: unsafe extern "C" fn(P) = tp_client__object__ObjectHandle__drop;

impl World {
    pub fn new(kind: BaselineKind) -> World {
        set_shape(0, shape(&ALL, &ALL));
        let mut m = Meter::default();
        let b = m.c(|| unsafe { tp_client__baseline__Baseline__new(kind as u8) });
        World { b, kind, m, insts: vec![], objs: vec![], given: HashMap::new(), kept: vec![] }
    }
    fn rust(&mut self) -> &mut Baseline {
        unsafe { &mut *(self.b as *mut Baseline) }
    }
    pub fn enabled(&self, vals: u8, wide: bool) -> Vec<Op> {
        let mut v = vec![];
        for w in [Which::Example, Which::Ball, Which::All] {
            if !self.insts.iter().any(|i| i.alive && i.which == w) {
                v.push(Op::Register(w))
            }
        }
        for (n, i) in self.insts.iter().enumerate().filter(|i| i.1.alive) {
            if i.which == Which::Ball {
                v.push(Op::UnregisterBall(n))
            }
            for x in 0..vals {
                v.push(Op::Create(n, x))
            }
        }
        for (n, o) in self.objs.iter().enumerate().filter(|o| o.1.alive) {
            v.push(Op::Remove(n));
            let fields: Vec<usize> = match self.insts[o.inst].which {
                Which::Example => vec![1, 6, 7],
                Which::Ball => vec![4, 9],
                Which::All => vec![8, 11, 13],
            };
            for f in fields.into_iter().take(if wide { 3 } else { 2 }) {
                v.push(Op::Write(n, f, 1));
                if wide {
                    v.push(Op::Keep(n, f))
                }
            }
        }
        v
    }
    pub fn apply(&mut self, op: Op) -> Res {
        let b = self.b;
        match op {
            Op::Register(w) => {
                let (c, handle) = self.m.c(|| unsafe {
                    match w {
                        Which::Example => {
                            let c = tp_contract_example__ExampleContract__register(b);
                            (c, tp_contract_example__ExampleContract__handle(c))
                        }
                        Which::Ball => {
                            let c = BallContract__register(b);
                            (c, BallContract__handle(c))
                        }
                        Which::All => {
                            let h = (k(0).reg)(&mut *(b as *mut Baseline)).expect("HARNESS: not registered");
                            (std::ptr::null_mut(), Cross::boxed(&h))
                        }
                    }
                });
                let h = unsafe { cch(handle) };
                ensure!(!self.insts.iter().any(|i| i.h == h), "contract-handle", "registering {w:?} gave a handle that was given before");
                self.insts.push(Inst { which: w, alive: true, h, c, handle });
            }
            Op::UnregisterBall(i) => {
                let h = self.insts[i].h;
                // the function takes the handle over
                self.m.c(|| unsafe { BallContract__unregister(b, Cross::boxed(&h)) });
                self.insts[i].alive = false;
                for o in self.objs.iter_mut().filter(|o| o.inst == i) {
                    o.alive = false
                }
            }
            Op::Create(i, v) => {
                let inst = &self.insts[i];
                let (c, w, ih) = (inst.c, inst.which, inst.h);
                let types: &[usize] = match w {
                    Which::Example => &EX_TYPES,
                    Which::Ball => &BALL_TYPES,
                    Which::All => &ALL,
                };
                let st: Vec<(usize, u8)> = types.iter().enumerate().map(|(f, t)| (*t, ((f as u8) + v * 3) % crate::ffi::f(*t).n)).collect();
                let ch: Vec<(usize, Kfs)> = if w == Which::All { ALL.iter().map(|t| (*t, kfs(*t, *t as u8 + v))).collect() } else { vec![] };
                let val = |f: usize| st[f].1;
                macro_rules! v { ($t:ty, $f:expr) => { alpha::<$t>()[val($f) as usize].clone() } }
                let handle = match w {
                    Which::Example => self.m.c(|| unsafe {
                        tp_contract_example__ExampleContract__object_create(c, b, v!(u8, 0), v!(u8, 1), v!(i8, 2), v!(i8, 3), v!(f32, 4), v!(f32, 5), (crate::ffi::f(11).boxed)(val(6)), (crate::ffi::f(12).boxed)(val(7)), (crate::ffi::f(13).boxed)(val(8)))
                    }),
                    Which::Ball => self.m.c(|| unsafe { BallContract__object_create(b, c, v!(f32, 0), v!(f32, 1), v!(f32, 2), v!(i16, 3), v!(i16, 4), v!(i16, 5), v!(f32, 6), v!(f32, 7), v!(f32, 8), v!(u64, 9)) }),
                    Which::All => self.m.c(|| {
                        let ds = st.iter().map(|(t, v)| (o(*t).mk)(*v)).collect();
                        let dc = ch.iter().map(|(t, v)| (o(*t).mk_chan)(v)).collect();
                        let h = (k(0).create)(unsafe { &mut *(b as *mut Baseline) }, ih, ds, dc, false).expect("HARNESS: not created");
                        Cross::boxed(&h)
                    }),
                };
                let h = unsafe { coh(handle) };
                ensure!(self.given.insert(h, self.objs.len()).is_none(), "object-handle", "creating an object gave a handle that was given before");
                self.objs.push(Obj { inst: i, alive: true, h, handle, st, ch });
            }
            Op::Remove(n) => {
                let h = self.objs[n].h;
                let w = self.insts[self.objs[n].inst].which;
                self.m.c(|| unsafe {
                    match w {
                        Which::Example => tp_contract_example__ExampleContract__object_remove(b, Cross::boxed(&h)),
                        Which::Ball => BallContract__object_remove(b, Cross::boxed(&h)),
                        Which::All => assert!((k(0).remove)(&mut *(b as *mut Baseline), h), "HARNESS: not removed"),
                    }
                });
                self.objs[n].alive = false;
            }
            Op::Write(n, fd, dv) => {
                let (t, old) = self.objs[n].st[fd];
                let ff = crate::ffi::f(t);
                let v = (old + dv) % ff.n;
                let oh = self.objs[n].handle;
                let (which, ic, ih) = { let i = &self.insts[self.objs[n].inst]; (i.which, i.c, i.h) };
                self.m.c(|| unsafe {
                    let id = field(which, ic, ih, fd);
                    let h = (ff.b_bind_state)(b, id, oh);
                    let s = (ff.b_state_mut)(b, h);
                    (ff.state_value_set)(s, (ff.boxed)(v));
                    (ff.sh_drop)(h);
                    (ff.sid_drop)(id);
                });
                self.objs[n].st[fd].1 = v;
            }
            Op::Keep(n, fd) => {
                let (t, _) = self.objs[n].st[fd];
                let ff = crate::ffi::f(t);
                let oh = self.objs[n].handle;
                let insts = &self.insts;
                let i = &insts[self.objs[n].inst];
                let (which, ic, ih) = (i.which, i.c, i.h);
                let (id, h) = self.m.c(|| unsafe {
                    let id = field(which, ic, ih, fd);
                    (id, (ff.b_bind_state)(b, id, oh))
                });
                self.kept.push((id, ff.sid_drop));
                self.kept.push((h, ff.sh_drop));
            }
        }
        Ok(())
    }
    /// Compares what C sees with the model and with what Rust sees.
    pub fn observe(&mut self) -> Res {
        let b = self.b;
        let kind = unsafe { tp_client__baseline__Baseline__kind(b) };
        ensure!(kind == self.kind as u8, "kind", "the baseline reports kind {kind}");
        for n in 0..self.insts.len() {
            let i = &self.insts[n];
            if !i.alive {
                continue;
            }
            let (h, handle, which, c) = (i.h, i.handle, i.which, i.c);
            let (name, version): (&str, (u16, u16, u16)) = match which {
                Which::Example => ("teleportal.example-ffi-contract", (1, 2, 3)),
                Which::Ball => ("Ball", (0, 0, 0)),
                Which::All => (k(0).id.name, k(0).id.version),
            };
            if which != Which::All {
                let again = self.m.c(|| unsafe {
                    if which == Which::Example { tp_contract_example__ExampleContract__handle(c) } else { BallContract__handle(c) }
                });
                let same = unsafe { cch(again) } == h;
                self.m.c(|| unsafe { HANDLE_DROP(again) });
                ensure!(same, "contract-handle", "contract #{n} ({which:?}) reports another handle");
            }
            let d = unsafe { tp_client__baseline__Baseline__contract_data(b, handle) };
            let id = unsafe { tp_client__contract__ContractData__id(d) };
            let got = unsafe { tp_client__contract__ContractId__name(id) };
            let got = unsafe { std::slice::from_raw_parts(got.ptr, got.len) };
            ensure!(got == name.as_bytes(), "contract-name", "contract #{n} ({which:?}) is called {:?}", std::string::String::from_utf8_lossy(got));
            let got = unsafe { tp_client__contract__ContractId__version(id) };
            ensure!((got.major, got.minor, got.patch) == version, "contract-version", "contract #{n} ({which:?}) has version {got:?}, expected {version:?}");
            let list = self.m.c(|| unsafe { tp_client__contract__ContractData__objects(d) });
            let mut seen = HashSet::new();
            let mut extra = 0;
            for j in 0..list.len {
                let p = unsafe { tp_client__object__RVec_ObjectHandle__get(&list, j) };
                let oh = unsafe { coh(p) };
                match self.given.get(&oh) {
                    Some(x) if self.objs[*x].alive && self.objs[*x].inst == n => drop(seen.insert(*x)),
                    _ => extra += 1,
                }
            }
            let len = list.len;
            self.m.c(|| unsafe { tp_client__object__RVec_ObjectHandle__drop(list) });
            let want = self.objs.iter().filter(|o| o.alive && o.inst == n).count();
            ensure!(extra == 0 && seen.len() == want && len == want, "contract-objects", "contract #{n} ({which:?}) lists {len} objects ({extra} wrong, {} of {want} right)", seen.len());
        }
        for n in 0..self.objs.len() {
            if !self.objs[n].alive {
                continue;
            }
            let (h, oh) = (self.objs[n].h, self.objs[n].handle);
            let ih = self.insts[self.objs[n].inst].h;
            let ob = unsafe { (tp_client__baseline__Baseline__object(b, oh), tp_client__baseline__Baseline__object_mut(b, oh)) };
            let want = self.rust().object(h).map_or(std::ptr::null(), |o| o as *const _ as *const Opaque);
            ensure!(ob.0 as *const Opaque == want && ob.1 as *const Opaque == want, "object", "object #{n} is {ob:?} for C and {want:?} for Rust");
            for fd in 0..self.objs[n].st.len() {
                let (t, v) = self.objs[n].st[fd];
                let ff = crate::ffi::f(t);
                let (which, ic) = { let i = &self.insts[self.objs[n].inst]; (i.which, i.c) };
                let id = self.m.c(|| unsafe { field(which, ic, ih, fd) });
                ensure!(unsafe { (ff.sid_is)(id, fd, ih) }, "field-id", "the id of field {fd} of {which:?} designates another field");
                let cp = self.m.c(|| unsafe { (ff.sid_contract)(id) });
                let same = unsafe { cch(cp) } == ih;
                self.m.c(|| unsafe { HANDLE_DROP(cp) });
                ensure!(same, "id-contract", "state id {fd} of object #{n} reports another contract");
                let sh = self.m.c(|| unsafe { (ff.b_bind_state)(b, id, oh) });
                let raw = unsafe { (ff.sh_raw)(sh) };
                let want: Option<ga::Index> = (o(t).bind_state)(self.rust(), fd, ih, h);
                ensure!(want == Some(raw), "bind", "state {fd} of object #{n} is bound to {raw:?} for C and {want:?} for Rust");
                let (s1, s2) = unsafe { ((ff.b_state)(b, sh), (ff.b_state_mut)(b, sh)) };
                let got = unsafe { ((ff.read)((ff.state_value)(s1)), (ff.read)((ff.state_value)(s2))) };
                ensure!(got == (v, v), "state", "state {fd} ({}) of object #{n} reads as #{}/#{}, expected #{v}", ff.name, got.0, got.1);
                let rust = (o(t).read_state)(self.rust(), raw, Path::Typed);
                ensure!(rust == Some(v), "state-rust", "state {fd} ({}) of object #{n} reads as {rust:?} for Rust, expected #{v}", ff.name);
                self.m.c(|| unsafe {
                    (ff.sh_drop)(sh);
                    (ff.sid_drop)(id)
                });
            }
            for fd in 0..self.objs[n].ch.len() {
                let (t, v) = self.objs[n].ch[fd].clone();
                let ff = crate::ffi::f(t);
                let id = self.m.c(|| (ff.mk_cid)(fd, ih));
                let cp = self.m.c(|| unsafe { (ff.cid_contract)(id) });
                let same = unsafe { cch(cp) } == ih;
                self.m.c(|| unsafe { HANDLE_DROP(cp) });
                ensure!(same, "id-contract", "channel id {fd} of object #{n} reports another contract");
                let chh = self.m.c(|| unsafe { (ff.b_bind_channel)(b, id, oh) });
                let raw = unsafe { (ff.ch_raw)(chh) };
                let want: Option<ga::Index> = (o(t).bind_chan)(self.rust(), fd, ih, h);
                ensure!(want == Some(raw), "bind", "channel {fd} of object #{n} is bound to {raw:?} for C and {want:?} for Rust");
                let c1 = unsafe { (ff.b_channel)(b, chh) };
                let l = self.m.c(|| unsafe { (ff.chan_keyframes)(c1) });
                let got = unsafe { list_kfs(t, l) };
                self.m.c(|| unsafe { (ff.chan_keyframes_drop)(l) });
                ensure!(got == v, "channel", "channel {fd} ({}) of object #{n} has keyframes {got:?}, expected {v:?}", ff.name);
                let c2 = unsafe { (ff.b_channel_mut)(b, chh) };
                let l = self.m.c(|| unsafe { (ff.chan_keyframes_mut)(c2) });
                let got = unsafe { list_kfs(t, l) };
                self.m.c(|| unsafe { (ff.chan_keyframes_mut_drop)(l) });
                ensure!(got == v, "channel", "channel {fd} ({}) of object #{n} has mutable keyframes {got:?}, expected {v:?}", ff.name);
                self.m.c(|| unsafe {
                    (ff.ch_drop)(chh);
                    (ff.cid_drop)(id)
                });
            }
        }
        Ok(())
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7;
        for i in &self.insts {
            h = fnv(h, i.which as u64 * 2 + i.alive as u64);
        }
        for o in &self.objs {
            h = fnv(h, o.inst as u64 * 2 + o.alive as u64 + 100);
            if o.alive {
                for s in &o.st {
                    h = fnv(h, s.1 as u64);
                }
            }
        }
        fnv(h, self.kept.len() as u64)
    }
    /// Releases everything a client holds, in one of several orders.
    pub fn finish(mut self, order: usize) -> Meter {
        let mut all: Vec<(P, unsafe extern "C" fn(P))> = vec![(self.b, tp_client__baseline__Baseline__drop)];
        for i in &self.insts {
            all.push((i.handle, HANDLE_DROP));
            match i.which {
                Which::Example => all.push((i.c, tp_contract_example__ExampleContract__drop)),
                Which::Ball => all.push((i.c, BallContract__drop)),
                Which::All => {}
            }
        }
        all.extend(self.objs.iter().map(|o| (o.handle, OBJ_DROP)));
        all.append(&mut self.kept);
        match order % 3 {
            0 => {}
            1 => all.reverse(),
            _ => all.rotate_left(1),
        }
        for (p, d) in all {
            self.m.c(|| unsafe { d(p) })
        }
        self.m
    }
}
/// The id of a state field, as a client gets it.
unsafe fn field(which: Which, c: P, h: ContractDataHandle, f: usize) -> P {
    match which {
        Which::Example => EX_FIELDS[f](tp_contract_example__ExampleContract__states(c)),
        Which::Ball => BALL_FIELDS[f](BallContract__states(c)),
        Which::All => (crate::ffi::f(f).mk_sid)(f, h),
    }
}
/// Reads a list of pointers to keyframes.
pub unsafe fn list_kfs(t: usize, l: CVec) -> Kfs {
    let ff = f(t);
    let p = if l.len == 0 { &[][..] } else { std::slice::from_raw_parts(l.ptr as *const P, l.len) };
    p.iter().map(|k| ((ff.kf_time)(*k).to_bits(), (ff.read)((ff.kf_value)(*k)))).collect()
}

pub fn histories(ctx: &Ctx, j: Judge) {
    warm_up();
    let (depth, vals, wide) = match j {
        Judge::Values => (ctx.by(4, 6), 2u8, false),
        Judge::Memory => (ctx.by(4, 5), 1, true),
    };
    ctx.explore("histories", 3, &format!("from the empty baseline and from one with the three contracts and an object each: all histories of {depth} operations (register, unregister, create with {vals} value sets, remove, write{}) through the C functions of both example contracts and a contract with all 14 types", if wide { ", keep ids and handles" } else { "" }), move |ch: &mut Ch| {
        take_fault();
        let mut w = World::new(BaselineKind::Main);
        let r = start(ch, &mut w).and_then(|_| run(ch, &mut w, depth, vals, wide, j));
        let m = w.finish(if r.is_ok() && j == Judge::Memory { ch.pick(3) } else { 0 });
        r?;
        if j == Judge::Memory {
            m.settled("after the history")?;
        }
        Ok(())
    });
}
/// More objects than a byte, and than two bytes, can count.
pub fn crowds(ctx: &Ctx, j: Judge) {
    warm_up();
    let sizes: &[usize] = &[260, 1100, 66000];
    ctx.explore("crowds", 2, &format!("{sizes:?} objects of the three contracts in rotation or all of one (66000: of BallContract); then each 7th one written, then each third or all but the last removed or none, then 5 more created; everything read after each stage"), move |ch: &mut Ch| {
        take_fault();
        let n = ch.of(sizes);
        let one = if n > 2000 { 1 } else { ch.pick(4) };
        let less = ch.pick(3);
        ch.log(|| format!("{n} objects, {}, removal {less}", if one == 3 { "of all contracts".into() } else { format!("of contract {one}") }));
        ch.steps(n as u64);
        let mut w = World::new(BaselineKind::Main);
        let r = crowd(&mut w, n, one, less, j);
        let m = w.finish(if r.is_ok() && j == Judge::Memory { ch.pick(3) } else { 0 });
        ch.state((n * 20 + one * 4 + less) as u64);
        ch.outcome((n * 20 + one * 4 + less) as u64);
        r?;
        if j == Judge::Memory {
            m.settled("after the history")?;
        }
        Ok(())
    });
}
fn crowd(w: &mut World, n: usize, one: usize, less: usize, j: Judge) -> Res {
    let look = |w: &mut World| match w.observe() {
        Err(e) if j == Judge::Values => Err(e),
        _ => Ok(()),
    };
    for x in [Which::Example, Which::Ball, Which::All] {
        w.apply(Op::Register(x))?
    }
    for i in 0..n {
        w.apply(Op::Create(if one == 3 { i % 3 } else { one }, (i % 3) as u8))?
    }
    look(w)?;
    for i in (0..n).step_by(7) {
        let f = match w.insts[w.objs[i].inst].which {
            Which::Example => [1, 6, 7],
            Which::Ball => [4, 9, 3],
            Which::All => [8, 11, 13],
        };
        w.apply(Op::Write(i, f[i / 7 % 3], 1))?
    }
    look(w)?;
    match less {
        0 => {}
        1 => {
            for i in (0..n).step_by(3) {
                w.apply(Op::Remove(i))?
            }
        }
        _ => {
            for i in 0..n - 1 {
                w.apply(Op::Remove(i))?
            }
        }
    }
    for i in 0..5 {
        w.apply(Op::Create(i % 3, 2))?
    }
    look(w)
}
/// Begins with nothing or with all three contracts registered and an object in each.
fn start(ch: &mut Ch, w: &mut World) -> Res {
    if ch.flip() {
        for x in [Which::Example, Which::Ball, Which::All] {
            w.apply(Op::Register(x))?
        }
        for i in 0..3 {
            w.apply(Op::Create(i, 0))?
        }
    }
    Ok(())
}
fn run(ch: &mut Ch, w: &mut World, depth: usize, vals: u8, wide: bool, j: Judge) -> Res {
    for _ in 0..depth {
        let ops = w.enabled(vals, wide);
        let op = ops[ch.pick(ops.len())];
        ch.step();
        ch.log(|| format!("{op:?}"));
        w.apply(op)?;
        if ch.fresh() {
            let r = w.observe();
            if j == Judge::Values {
                r?
            }
            ch.state(w.hash());
            ch.outcome(w.hash());
        }
    }
    Ok(())
}
/// Statics that allocate on first use are not leaks.
pub fn warm_up() {
    let mut w = World::new(BaselineKind::Fork);
    for op in [Op::Register(Which::Example), Op::Register(Which::Ball), Op::Register(Which::All), Op::Create(0, 0), Op::Create(1, 0), Op::Create(2, 0)] {
        let _ = w.apply(op);
    }
    let _ = w.observe();
    w.finish(0);
    take_fault();
}

/// Contract metadata for every name and version, and the two kinds of baseline.
pub fn identity(ctx: &Ctx) {
    warm_up();
    ctx.explore("identity", 1, "both kinds of baseline x 56 contracts with different names and versions (long, not ASCII, with a zero byte, high numbers) x each position among up to 2 others", |ch: &mut Ch| {
        let kind = ch.of(&[BaselineKind::Main, BaselineKind::Fork]);
        let which = ch.pick(mc_core::world::NX);
        let before = ch.pick(3);
        ch.step();
        for i in 0..mc_core::world::NX {
            set_shape(i, shape(&[0], &[]))
        }
        ch.log(|| format!("{kind:?}: contract kind {which}, after {before} others"));
        unsafe {
            let b = tp_client__baseline__Baseline__new(kind as u8);
            let rb = &mut *(b as *mut Baseline);
            let mut r = Ok(());
            let (c_kind, r_kind) = (tp_client__baseline__Baseline__kind(b), rb.kind());
            if c_kind != kind as u8 || r_kind != kind {
                r = mcx::viol("kind", format!("a baseline made as {kind:?} reports {c_kind} to C and {r_kind:?} to Rust"));
            }
            for i in 0..before {
                let _ = (k((which + 1 + i) % mc_core::world::NX).reg)(rb);
            }
            if let Some(h) = (k(which).reg)(rb) {
                let p = Cross::boxed(&h);
                let id = tp_client__contract__ContractData__id(tp_client__baseline__Baseline__contract_data(b, p));
                let n = tp_client__contract__ContractId__name(id);
                let n = std::slice::from_raw_parts(n.ptr, n.len);
                let v = tp_client__contract__ContractId__version(id);
                let w = k(which).id;
                if n != w.name.as_bytes() {
                    r = mcx::viol("contract-name", format!("the contract {w:?} is called {:?}", std::string::String::from_utf8_lossy(n)))
                }
                if (v.major, v.minor, v.patch) != w.version {
                    r = mcx::viol("contract-version", format!("the contract {w:?} has version {v:?}"))
                }
                HANDLE_DROP(p);
            }
            tp_client__baseline__Baseline__drop(b);
            ch.state((which * 2 + (kind as usize)) as u64);
            ch.outcome((which * 2 + (kind as usize)) as u64);
            r
        }
    });
}
