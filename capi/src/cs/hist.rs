//! Programs in C# against a baseline in Rust: what is read is what was written last (C26).
use super::facts::finalize_all;
use super::interp::{Interp, V};
use super::native::Prim;
use super::program::*;
use mcx::{ensure, Ch, Ctx, Res};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum F {
    U8,
    I8,
    I16,
    F32,
    U64,
    Str,
}
impl F {
    fn name(self) -> &'static str {
        match self {
            F::Str => "String",
            F::U8 => "U8",
            F::I8 => "I8",
            F::I16 => "I16",
            F::F32 => "F32",
            F::U64 => "U64",
        }
    }
    /// Value `v`, different for each field.
    fn value(self, i: usize, v: u8) -> V {
        let k = (i as i128 + 1) * 11 + v as i128 * 3;
        match self {
            F::U8 => V::Int(Prim::U8, if v == 2 { 255 - i as i128 } else { k }),
            F::I8 => V::Int(Prim::I8, if v == 2 { -128 + i as i128 } else { -k }),
            F::I16 => V::Int(Prim::I16, if v == 2 { -32768 + i as i128 } else { -k * 100 }),
            F::U64 => V::Int(Prim::U64, if v == 2 { u64::MAX as i128 - i as i128 } else { k << 33 }),
            F::F32 => V::Flt(Prim::F32, (k as f32 * if v == 2 { -1.0e30 } else { 0.1 }) as f64),
            F::Str => V::Str(Rc::new((if v == 2 { String::new() } else { format!("text {k} \u{20ac}\u{1f600}") }).encode_utf16().collect())),
        }
    }
}
const BALL: [(&str, F); 10] = [
    ("PosX", F::F32),
    ("PosY", F::F32),
    ("PosZ", F::F32),
    ("EulerX", F::I16),
    ("EulerY", F::I16),
    ("EulerZ", F::I16),
    ("ScaleX", F::F32),
    ("ScaleY", F::F32),
    ("ScaleZ", F::F32),
    ("Color", F::U64),
];
const EXAMPLE: [(&str, F); 7] = [("U8_0", F::U8), ("U8_1", F::U8), ("I8_0", F::I8), ("I8_1", F::I8), ("F32_0", F::F32), ("F32_1", F::F32), ("Str_0", F::Str)];
fn fields(k: usize) -> &'static [(&'static str, F)] {
    if k == 0 {
        &BALL
    } else {
        &EXAMPLE
    }
}
const KINDS: [&str; 2] = ["BallContract", "Teleportal.Example.Contract.ExampleContract"];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Register(usize),
    Unregister,
    Create(usize, u8),
    Remove(usize),
    DisposeObject(usize),
    DisposeContract(usize),
    Write(usize, usize, u8, bool),
    Collect,
}
struct Object {
    kind: usize,
    wrapper: V,
    /// still has its handle
    held: bool,
    values: Vec<u8>,
    handles: Vec<V>,
    /// in the baseline
    there: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Con {
    No,
    Here,
    Gone,
    Disposed,
}
struct World {
    it: Interp,
    base: V,
    shared: V,
    main: bool,
    con: [Con; 2],
    wrapper: [Option<V>; 2],
    states: [Option<V>; 2],
    objects: Vec<Object>,
    /// a ball that objects of the other kind refer to
    other: Option<(V, V)>,
}
fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Int(p, a), V::Int(q, b)) => p == q && a == b,
        (V::Flt(p, a), V::Flt(q, b)) => p == q && a.to_bits() == b.to_bits(),
        (V::Str(a), V::Str(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        _ => false,
    }
}
impl World {
    fn new(l: &Loaded, main: bool, kinds: &[usize]) -> Res<World> {
        let mut it = Interp::new(l.ready()?);
        let r = it.new_by_name("Teleportal.Client.Baseline", vec![V::Bool(main)]);
        let base = must(&it, "new Baseline", r)?;
        let r = it.enum_value("RSharp.OwnershipSemantics", "SharedRef");
        let s = must(&it, "SharedRef", r)?;
        let r = it.get(&base, "Inner").and_then(|p| it.get(&p, "Value"));
        let p = must(&it, "Inner.Value", r)?;
        let r = it.new_by_name("Teleportal.Client.Baseline", vec![p, s]);
        let shared = must(&it, "new Baseline", r)?;
        let mut w = World { it, base, shared, main, con: [Con::No; 2], wrapper: Default::default(), states: Default::default(), objects: vec![], other: None };
        if kinds.contains(&1) {
            // what object handles of the example refer to
            w.apply(Op::Register(0))?;
            w.apply(Op::Create(0, 0))?;
            let o = w.objects.pop().unwrap();
            w.other = Some((o.wrapper, o.handles[0].clone()))
        }
        Ok(w)
    }
    fn enabled(&self, kinds: &[usize], vals: u8, via: &[bool]) -> Vec<Op> {
        let mut o = vec![];
        for k in kinds {
            match self.con[*k] {
                Con::No => o.push(Op::Register(*k)),
                Con::Here => {
                    if self.objects.len() < 2 {
                        for v in 0..vals {
                            o.push(Op::Create(*k, v))
                        }
                    }
                    if *k == 0 && self.other.is_none() {
                        o.push(Op::Unregister)
                    }
                    if *k == 0 || self.other.is_some() {
                        o.push(Op::DisposeContract(*k))
                    }
                }
                Con::Gone => o.push(Op::DisposeContract(*k)),
                Con::Disposed => {}
            }
        }
        for (i, b) in self.objects.iter().enumerate() {
            if b.held {
                if b.there {
                    o.push(Op::Remove(i))
                }
                o.push(Op::DisposeObject(i))
            }
            if b.there {
                for f in 0..fields(b.kind).len() {
                    for v in 0..vals {
                        if v != b.values[f] {
                            for m in via {
                                o.push(Op::Write(i, f, v, *m))
                            }
                        }
                    }
                }
            }
        }
        o.push(Op::Collect);
        o
    }
    fn show(&self, op: Op) -> String {
        match op {
            Op::Register(k) => format!("c{k} = {}.Register(b)", KINDS[k]),
            Op::Unregister => "c0.Unregister(b)".into(),
            Op::Create(k, v) => format!("o{} = c{k}.ObjectCreate(b, values {v})", self.objects.len()),
            Op::Remove(i) => format!("{}.ObjectRemove(b, o{i})", KINDS[self.objects[i].kind]),
            Op::DisposeObject(i) => format!("o{i}.Dispose()"),
            Op::DisposeContract(k) => format!("c{k}.Dispose()"),
            Op::Write(i, f, v, m) => {
                let (n, t) = fields(self.objects[i].kind)[f];
                format!("b.State{}(handle of o{i}'s {n}).Value = {}", if m { "Mut" } else { "" }, self.it.shows_value(&t.value(f, v)))
            }
            Op::Collect => "the garbage is collected".into(),
        }
    }
    /// `o.Inner.Value.p`, or what is moved out of it.
    fn raw(&mut self, o: &V, moved: bool) -> Res<V> {
        let r = if moved { self.it.call_method(o, "StealInner", vec![]) } else { self.it.get(o, "Inner").and_then(|p| self.it.get(&p, "Value")) };
        let p = must(&self.it, "Inner.Value", r)?;
        let r = self.it.get(&p, "p");
        must(&self.it, "p", r)
    }
    fn wrap(&mut self, class: &str, p: V, owned: bool) -> Res<V> {
        let r = self.it.structure("RSharp.Ptr", vec![p]);
        let p = must(&self.it, "new Ptr", r)?;
        let mut a = vec![p];
        if owned {
            let r = self.it.enum_value("RSharp.OwnershipSemantics", "Owned");
            a.push(must(&self.it, "Owned", r)?)
        }
        let r = self.it.new_by_name(class, a);
        must(&self.it, class, r)
    }
    fn apply(&mut self, op: Op) -> Res {
        let what = self.show(op);
        match op {
            Op::Register(k) => {
                let b = self.base.clone();
                let r = self.it.call_static(KINDS[k], if k == 0 { "Register" } else { "register" }, vec![b]);
                let c = must(&self.it, &what, r)?;
                let r = self.it.get(&c, "States");
                self.states[k] = Some(must(&self.it, "States", r)?);
                self.wrapper[k] = Some(c);
                self.con[k] = Con::Here
            }
            Op::Unregister => {
                let (b, c) = (self.base.clone(), self.wrapper[0].clone().unwrap());
                let r = self.it.call_method(&c, "Unregister", vec![b]);
                must(&self.it, &what, r)?;
                self.con[0] = Con::Gone;
                for o in &mut self.objects {
                    if o.kind == 0 {
                        o.there = false
                    }
                }
            }
            Op::Create(k, v) => {
                let (b, c) = (self.base.clone(), self.wrapper[k].clone().unwrap());
                let vals = fields(k).iter().enumerate().map(|(i, f)| f.1.value(i, v));
                let o = if k == 0 {
                    let mut a = vec![b];
                    a.extend(vals);
                    let r = self.it.call_method(&c, "ObjectCreate", a);
                    must(&self.it, &what, r)?
                } else {
                    // the wrapper does not have all parameters (known)
                    let vals: Vec<V> = vals.collect();
                    let mut a = vec![self.raw(&c, false)?, self.raw(&b, false)?];
                    a.extend(vals[..6].iter().cloned());
                    let r = self.it.new_by_name("RSharp.RString", vec![vals[6].clone()]);
                    let s = must(&self.it, "new RString", r)?;
                    a.push(self.raw(&s, true)?);
                    // there is no way to copy a handle in C#, so it comes from an object of its own
                    let ball = self.wrapper[0].clone().unwrap();
                    let r = self.it.call_method(&ball, "ObjectCreate", super::facts::ball_args(&b));
                    let oh = must(&self.it, "ObjectCreate", r)?;
                    a.push(self.raw(&oh, true)?);
                    let r = self.it.get(&ball, "Handle");
                    let ch = must(&self.it, "Handle", r)?;
                    a.push(self.raw(&ch, true)?);
                    let r = self.it.direct("tp_contract_example__ExampleContract__object_create", a);
                    let p = must(&self.it, &what, r)?;
                    self.wrap("Teleportal.Client.Object.ObjectHandle", p, true)?
                };
                let mut handles = vec![];
                for i in 0..fields(k).len() {
                    handles.push(self.bind(k, i, &o, true)?.unwrap())
                }
                self.objects.push(Object { kind: k, wrapper: o, held: true, values: vec![v; fields(k).len()], handles, there: true })
            }
            Op::Remove(i) => {
                let (b, o, k) = (self.base.clone(), self.objects[i].wrapper.clone(), self.objects[i].kind);
                let r = if k == 0 {
                    self.it.call_static(KINDS[k], "ObjectRemove", vec![b, o])
                } else {
                    let c = self.wrapper[1].clone().unwrap();
                    self.it.call_method(&c, "ObjectRemove", vec![b, o])
                };
                must(&self.it, &what, r)?;
                self.objects[i].held = false;
                self.objects[i].there = false
            }
            Op::DisposeObject(i) => {
                let o = self.objects[i].wrapper.clone();
                let r = self.it.call_method(&o, "Dispose", vec![]);
                must(&self.it, &what, r)?;
                self.objects[i].held = false
            }
            Op::DisposeContract(k) => {
                let c = self.wrapper[k].clone().unwrap();
                let r = self.it.call_method(&c, "Dispose", vec![]);
                must(&self.it, &what, r)?;
                self.con[k] = Con::Disposed
            }
            Op::Write(i, f, v, m) => {
                let (b, h, t) = (self.base.clone(), self.objects[i].handles[f].clone(), fields(self.objects[i].kind)[f].1);
                let class = if t == F::Str { "RSharp.RString".to_string() } else { format!("RSharp.RBox_{}", t.name()) };
                let r = self.it.new_by_name(&class, vec![t.value(f, v)]);
                let x = must(&self.it, &class, r)?;
                let r = self.it.call_method(&b, if m { "StateMut" } else { "State" }, vec![h]);
                let s = must(&self.it, &what, r)?;
                let r = self.it.set(&s, "Value", x).map(|_| V::Void);
                must(&self.it, &what, r)?;
                self.objects[i].values[f] = v
            }
            Op::Collect => {
                let mut held: Vec<V> = vec![self.base.clone(), self.shared.clone()];
                held.extend(self.wrapper.iter().flatten().cloned());
                held.extend(self.states.iter().flatten().cloned());
                held.extend(self.other.iter().flat_map(|o| [o.0.clone(), o.1.clone()]));
                for o in &self.objects {
                    held.push(o.wrapper.clone());
                    held.extend(o.handles.iter().cloned())
                }
                let lost: Vec<_> = self.it.objects.iter().filter(|o| !held.iter().any(|h| matches!(h, V::Obj(h) if Rc::ptr_eq(h, o)))).cloned().collect();
                for o in lost {
                    let r = self.it.finalize(&o).map(|_| V::Void);
                    must(&self.it, "a finalizer", r)?;
                }
            }
        }
        Ok(())
    }
    /// A new handle of the object's field, or what must be refused.
    fn bind(&mut self, k: usize, f: usize, o: &V, ok: bool) -> Res<Option<V>> {
        let (n, t) = fields(k)[f];
        let s = self.states[k].clone().unwrap();
        let r = self.it.get(&s, n);
        let id = must(&self.it, n, r)?;
        let b = self.base.clone();
        let r = self.it.call_method(&b, &format!("BindState{}", t.name()), vec![id, o.clone()]);
        self.expect(&format!("BindState{}({n}, object)", t.name()), r, ok, "System.InvalidOperationException")
    }
    fn expect(&mut self, what: &str, r: super::interp::R, ok: bool, class: &str) -> Res<Option<V>> {
        match out(&self.it, r)? {
            Out::Ok(v) if ok => Ok(Some(v)),
            Out::Ok(_) => mcx::viol("unnoticed", format!("{what} does not throw {class}")),
            Out::Threw(c, m) if ok => mcx::viol("throws", format!("{what} throws {c}: {m}")),
            Out::Threw(c, _) if c == class => Ok(None),
            Out::Threw(c, m) => mcx::viol("throws", format!("{what} throws {c}: {m}, expected {class}")),
        }
    }
    fn read(&mut self, h: &V, m: bool) -> super::interp::R {
        let b = if m { self.base.clone() } else { self.shared.clone() };
        let s = self.it.call_method(&b, if m { "StateMut" } else { "State" }, vec![h.clone()])?;
        let v = self.it.get(&s, "Value")?;
        let g = self.it.get(&v, "Value")?;
        if m {
            // what is only looked at stays, whatever becomes of the wrappers
            self.it.call_method(&v, "Dispose", vec![])?;
            self.it.call_method(&s, "Dispose", vec![])?;
        }
        Ok(g)
    }
    /// Looks at a state, and disposes of the wrappers in some way.
    fn look(&mut self, i: usize, f: usize, m: bool, how: usize) -> Res {
        let (b, h, k) = (self.base.clone(), self.objects[i].handles[f].clone(), self.objects[i].kind);
        let what = format!("State{} of {}, {}", if m { "Mut" } else { "" }, fields(k)[f].0, LOOK[how]);
        let r = self.it.call_method(&b, if m { "StateMut" } else { "State" }, vec![h]);
        let s = must(&self.it, &what, r)?;
        let r = self.it.get(&s, "Value");
        let v = must(&self.it, &what, r)?;
        let gone: Vec<&V> = match how {
            0 => vec![],
            1 => vec![&v],
            2 => vec![&s],
            3 => vec![&v, &s],
            4 => vec![&s, &v],
            _ => vec![&v, &v, &s, &s],
        };
        for x in &gone {
            let r = self.it.call_method(x, "Dispose", vec![]);
            must(&self.it, &what, r)?;
        }
        for x in &gone {
            let r = self.it.get(x, "Inner");
            let inner = must(&self.it, "Inner", r)?;
            ensure!(matches!(inner, V::None), "inner", "{what}: a wrapper that was disposed of still has its pointer");
        }
        Ok(())
    }
    fn check(&mut self, at: &str) -> Res {
        for b in [self.base.clone(), self.shared.clone()] {
            let r = self.it.get(&b, "IsMain");
            let g = must(&self.it, "IsMain", r)?;
            ensure!(eq(&g, &V::Bool(self.main)), "main", "{at}: IsMain is {}", self.it.shows_value(&g))
        }
        for k in 0..2 {
            let Some(c) = self.wrapper[k].clone() else { continue };
            let r = self.it.get(&c, "Handle");
            let ok = self.con[k] != Con::Disposed;
            let h = self.expect(&format!("{at}: c{k}.Handle"), r, ok, "System.InvalidOperationException")?;
            if self.con[k] == Con::Here {
                self.identity(at, k, &h.unwrap())?
            }
            self.refusals(at, k, &c)?
        }
        for i in 0..self.objects.len() {
            let (k, o, held, there) = (self.objects[i].kind, self.objects[i].wrapper.clone(), self.objects[i].held, self.objects[i].there);
            // the ids are parts of the contract's wrapper
            let ids = matches!(self.con[k], Con::Here | Con::Gone);
            for f in 0..fields(k).len() {
                let (n, t) = fields(k)[f];
                if !there {
                    if !held && ids {
                        self.bind(k, f, &o, false)?;
                    }
                    continue;
                }
                let want = t.value(f, self.objects[i].values[f]);
                let mut hs = vec![self.objects[i].handles[f].clone()];
                if ids {
                    hs.extend(self.bind(k, f, &o, held)?)
                }
                for (m, h) in hs.into_iter().enumerate() {
                    let r = self.read(&h, m == 0);
                    let what = format!("{at}: {n} of o{i}");
                    let g = must(&self.it, &what, r)?;
                    ensure!(eq(&g, &want), "value", "{what} is {}, expected {}", self.it.shows_value(&g), self.it.shows_value(&want))
                }
            }
        }
        if let Some((_, h)) = self.other.clone() {
            let r = self.read(&h, false);
            let g = must(&self.it, "PosX", r)?;
            ensure!(eq(&g, &BALL[0].1.value(0, 0)), "value", "{at}: PosX of an object that nothing was written to is {}", self.it.shows_value(&g))
        }
        Ok(())
    }
    /// The baseline knows the contract by this handle, and by every id of the contract.
    fn identity(&mut self, at: &str, k: usize, h: &V) -> Res {
        let s = self.states[k].clone().unwrap();
        let mut hs = vec![h.clone()];
        for (n, _) in fields(k) {
            let r = self.it.get(&s, n).and_then(|id| self.it.get(&id, "Contract"));
            hs.push(must(&self.it, &format!("{n}.Contract"), r)?)
        }
        for h in hs {
            let b = self.shared.clone();
            let r = self.it.call_method(&b, "ContractData", vec![h]).and_then(|d| self.it.get(&d, "Id"));
            let id = must(&self.it, "ContractData(handle).Id", r)?;
            let r = self.it.get(&id, "Name");
            let n = must(&self.it, "Name", r)?;
            let (want, version) = if k == 0 { ("Ball", (0, 0, 0)) } else { ("teleportal.example-ffi-contract", (1, 2, 3)) };
            ensure!(self.it.span_text(&n).as_deref() == Some(want), "identity", "{at}: the contract's name is {:?}, expected {want:?}", self.it.span_text(&n));
            let r = self.it.get(&id, "Version");
            let v = must(&self.it, "Version", r)?;
            let ok = matches!(&v, V::Tuple(t) if matches!(t.as_slice(), [V::Int(_, a), V::Int(_, b), V::Int(_, c)] if (*a, *b, *c) == version));
            ensure!(ok, "identity", "{at}: the contract's version is {}, expected {version:?}", self.it.shows_value(&v))
        }
        Ok(())
    }
    /// Nothing is changed through a reference that is only for reading.
    fn refusals(&mut self, at: &str, k: usize, c: &V) -> Res {
        let s = self.shared.clone();
        let own = "RSharp.OwnershipException";
        let mutable = "RSharp.MutabilityException";
        let r = self.it.call_static(KINDS[k], if k == 0 { "Register" } else { "register" }, vec![s.clone()]);
        self.expect(&format!("{at}: register on a read-only baseline"), r, false, mutable)?;
        if k == 0 {
            let r = self.it.call_method(c, "Unregister", vec![s.clone()]);
            self.expect(&format!("{at}: Unregister on a read-only baseline"), r, false, mutable)?;
            let r = self.it.call_method(c, "ObjectCreate", super::facts::ball_args(&s));
            self.expect(&format!("{at}: ObjectCreate on a read-only baseline"), r, false, mutable)?;
        }
        for i in 0..self.objects.len() {
            if self.objects[i].kind != k {
                continue;
            }
            let o = self.objects[i].wrapper.clone();
            let r = if k == 0 { self.it.call_static(KINDS[k], "ObjectRemove", vec![s.clone(), o.clone()]) } else { self.it.call_method(c, "ObjectRemove", vec![s.clone(), o.clone()]) };
            self.expect(&format!("{at}: ObjectRemove on a read-only baseline"), r, false, if k == 0 { mutable } else { own })?;
            let r = self.it.get(&o, "Inner");
            let inner = must(&self.it, "Inner", r)?;
            ensure!(matches!(inner, V::None) != self.objects[i].held, "refused", "{at}: a refused ObjectRemove took o{i}'s handle");
            for h in self.objects[i].handles.clone() {
                let r = self.it.call_method(&s, "StateMut", vec![h]);
                self.expect(&format!("{at}: StateMut on a read-only baseline"), r, false, mutable)?;
            }
        }
        Ok(())
    }
    fn hash(&self) -> u64 {
        let o: Vec<_> = self.objects.iter().map(|o| (o.kind, o.held, o.there, o.values.clone())).collect();
        mcx::hash_of(&(self.main, self.con, o))
    }
    fn end(mut self, rev: bool) -> Res {
        // what Rust hands out ends with the baseline
        finalize_all(&mut self.it, rev)?;
        let m = &self.it.mem.meter;
        ensure!(m.bytes == 0 && m.blocks == 0, "leak", "{} bytes in {} blocks are never released", m.bytes, m.blocks);
        Ok(())
    }
}
fn history(ch: &mut Ch, l: &Loaded, kinds: &[usize], depth: usize, vals: u8, via: &[bool], prefix: &[Op]) -> Res {
    let mut w = World::new(l, ch.flip(), kinds)?;
    for op in prefix {
        let s = w.show(*op);
        ch.log(|| s.clone());
        w.apply(*op)?
    }
    for d in 0..depth {
        let ops = w.enabled(kinds, vals, via);
        let i = ch.pick(ops.len() + 1);
        if i == ops.len() {
            break;
        }
        ch.step();
        let s = w.show(ops[i]);
        ch.log(|| s.clone());
        w.apply(ops[i])?;
        if ch.fresh() || d + 1 == depth {
            w.check(&format!("after {s}"))?
        }
        ch.state(w.hash());
    }
    let rev = ch.flip();
    ch.log(|| if rev { "finalizers, the last object first".into() } else { "finalizers".into() });
    ch.outcome(w.hash());
    w.end(rev)
}
/// What Rust makes once and keeps is made before anything is counted.
pub fn warm(l: &Loaded) {
    let _ = World::new(l, true, &[1]).and_then(|mut w| {
        w.apply(Op::Register(1))?;
        w.apply(Op::Create(1, 0))?;
        w.end(true)
    });
    mcx::alloc::take_fault();
}
pub fn hist(ctx: &Ctx, l: &Loaded) {
    let d = ctx.by(4, 5);
    ctx.explore("balls", 2, &format!("histories of up to {d} operations from an empty baseline: registering, creating and removing objects, writing each of 10 states, disposing, collecting; two values, written through State and StateMut"), |ch: &mut Ch| quiet(history(ch, l, &[0], d, 2, &[true, false], &[])));
    let d = ctx.by(4, 5);
    ctx.explore("examples", 2, &format!("the same with the example contract (7 states, three values), next to balls; up to {d} operations"), |ch: &mut Ch| quiet(history(ch, l, &[1], d, 3, &[true], &[])));
    let d = ctx.by(2, 3);
    ctx.explore("an example", 2, &format!("one object of the example contract, then up to {d} operations; three values"), |ch: &mut Ch| quiet(history(ch, l, &[1], d, 3, &[true, false], &[Op::Register(1), Op::Create(1, 0)])));
    ctx.explore("two balls", 2, &format!("two objects, then up to {d} operations; three values"), |ch: &mut Ch| quiet(history(ch, l, &[0], d, 3, &[true, false], &[Op::Register(0), Op::Create(0, 0), Op::Create(0, 1)])));
    names(ctx, l)
}
const LOOK: [&str; 6] = ["wrappers kept for the collector", "the value's wrapper disposed of", "the state's wrapper disposed of", "the value's wrapper disposed of, then the state's", "the state's wrapper disposed of, then the value's", "both disposed of twice"];
/// What a baseline owns is never released through wrappers that look at it (C27).
pub fn refs(ctx: &Ctx, l: &Loaded) {
    let d = ctx.by(2, 3);
    ctx.explore("looking into a baseline", 2, &format!("a ball or an example object: up to {d} times three of its states looked at through State or StateMut, with the wrappers disposed of in 6 ways, or written, or the garbage collected, or the object removed; everything read after each"), |ch: &mut Ch| quiet((|| {
        let k = ch.pick(2);
        let mut w = World::new(l, ch.flip(), &[k])?;
        w.apply(Op::Register(k))?;
        w.apply(Op::Create(k, 0))?;
        let fs: [usize; 3] = if k == 0 { [0, 3, 9] } else { [0, 4, 6] };
        for _ in 0..d {
            let there = w.objects[0].there;
            let i = ch.pick(if there { 3 * 14 + 3 } else { 2 });
            if i == 0 {
                break;
            }
            ch.step();
            let what;
            match i {
                1 => {
                    what = w.show(Op::Collect);
                    ch.log(|| what.clone());
                    w.apply(Op::Collect)?
                }
                2 => {
                    what = w.show(Op::Remove(0));
                    ch.log(|| what.clone());
                    w.apply(Op::Remove(0))?
                }
                _ => {
                    let (f, how) = (fs[(i - 3) / 14], (i - 3) % 14);
                    let m = how % 2 == 1;
                    if how >= 12 {
                        let v = 1 - w.objects[0].values[f].min(1);
                        what = w.show(Op::Write(0, f, v, m));
                        ch.log(|| what.clone());
                        w.apply(Op::Write(0, f, v, m))?
                    } else {
                        what = format!("{} of o0 is looked at through State{}, {}", fields(k)[f].0, if m { "Mut" } else { "" }, LOOK[how / 2]);
                        ch.log(|| what.clone());
                        w.look(0, f, m, how / 2)?
                    }
                }
            }
            w.check(&format!("after {what}"))?;
            ch.state(mcx::hash_of(&(w.hash(), i)));
        }
        let rev = ch.flip();
        ch.outcome(w.hash());
        w.end(rev)
    })()))
}
/// Every contract id is read as it is.
fn names(ctx: &Ctx, l: &Loaded) {
    let mut all: Vec<(&'static str, (u16, u16, u16))> = mcx::ids::NEAR.to_vec();
    let part = [0u16, 1, 255, 256, 65535];
    for i in 0..125 {
        all.push(("v", (part[i / 25], part[i / 5 % 5], part[i % 5])))
    }
    let all: &'static [_] = all.leak();
    ctx.explore("ids", 1, &format!("{} names and versions: each part one of {part:?}, and names that are near one another, empty, long, not ASCII", all.len()), |ch: &mut Ch| quiet((|| {
        let (name, version) = all[ch.pick(all.len())];
        let mut it = Interp::new(l.ready()?);
        let id: &'static tp_client::contract::ContractId = Box::leak(Box::new(tp_client::contract::ContractId { name, version }));
        let a = id as *const _ as u64;
        it.mem.stack.push((a, std::mem::size_of_val(id), None));
        let p = it.new_by_name("RSharp.Ptr", vec![V::Ptr(None, a)]);
        let p = must(&it, "new Ptr<ContractId>", p)?;
        let o = it.new_by_name("Teleportal.Client.Contract.ContractId", vec![p]);
        let o = must(&it, "new ContractId", o)?;
        ch.step();
        ch.log(|| format!("ContractId {{ name: {name:?}, version: {version:?} }}"));
        let r = it.get(&o, "Name");
        let n = must(&it, "Name", r)?;
        ensure!(it.span_text(&n).as_deref() == Some(name), "identity", "the name of the contract {name:?} is {:?}", it.span_text(&n));
        let r = it.get(&o, "Version");
        let v = must(&it, "Version", r)?;
        let ok = matches!(&v, V::Tuple(t) if matches!(t.as_slice(), [V::Int(_, a), V::Int(_, b), V::Int(_, c)] if (*a, *b, *c) == (version.0 as i128, version.1 as i128, version.2 as i128)));
        ensure!(ok, "identity", "the version of the contract {name:?} is {}, expected {version:?}", it.shows_value(&v));
        ch.state(mcx::hash_of(&(name, version)));
        ch.outcome(mcx::hash_of(&(name, version)));
        Ok(())
    })()))
}
