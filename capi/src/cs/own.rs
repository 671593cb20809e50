//! Histories of the C# wrappers of boxes, states, keyframes and lists: who owns what (C27).
use super::facts::{ball_args, finalize_all};
use super::interp::{Interp, Program, R, V};
use super::native::Prim;
use super::program::*;
use mcx::{ensure, Ch, Ctx, Res};
use std::rc::Rc;

pub const TYPES: [&str; 14] = ["U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "Bool", "F32", "F64", "String", "ObjectHandle", "ContractDataHandle"];
fn str16(s: &str) -> V {
    V::Str(Rc::new(s.encode_utf16().collect()))
}
/// Value `v` of type `t`.
fn value(t: usize, v: u8) -> V {
    use Prim::*;
    let big = v == 1;
    match t {
        0 => V::Int(U8, if big { 255 } else { 7 }),
        1 => V::Int(U16, if big { 0xfffe } else { 7 }),
        2 => V::Int(U32, if big { 0xffff_fffe } else { 7 }),
        3 => V::Int(U64, if big { u64::MAX as i128 - 1 } else { 7 }),
        4 => V::Int(I8, if big { -128 } else { 7 }),
        5 => V::Int(I16, if big { -32768 } else { 7 }),
        6 => V::Int(I32, if big { i32::MIN as i128 } else { 7 }),
        7 => V::Int(I64, if big { i64::MIN as i128 } else { 7 }),
        8 => V::Bool(big),
        9 => V::Flt(F32, if big { -0.5 } else { 1.25 }),
        10 => V::Flt(F64, if big { 1e300 } else { 0.1 }),
        _ => str16(if big { "zwei \u{20ac} \u{1f600}" } else { "one" }),
    }
}
fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Int(p, a), V::Int(q, b)) => p == q && a == b,
        (V::Flt(p, a), V::Flt(q, b)) => p == q && a.to_bits() == b.to_bits(),
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        _ => false,
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Is {
    /// never made
    No,
    /// owns a value
    Own(u8),
    /// looks at what this slot owns
    Ref(usize),
    /// moved away or disposed of
    Gone,
}
/// Slots: two boxes, two states, a keyframe, a reference.
const B0: usize = 0;
const S0: usize = 2;
const K: usize = 4;
const REF: usize = 5;
const SLOTS: usize = 6;
const NAMES: [&str; SLOTS] = ["b0", "b1", "s0", "s1", "k", "r"];
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    New(usize, u8),
    /// a state or keyframe made from a box or reference
    Make(usize, usize),
    Look(usize),
    Set(usize, usize),
    /// `s0.Value = s1.Value`, without a name in between
    SetFrom(usize, usize),
    Dispose(usize),
    Push(usize),
    Put(usize, usize),
    DisposeVec,
    Collect,
}
struct World {
    it: Interp,
    t: usize,
    is: [Is; SLOTS],
    v: [Option<V>; SLOTS],
    vec: Option<(V, Vec<u8>, bool)>,
    /// where the values of handle types come from
    source: Option<(V, V)>,
    with_vec: bool,
    /// a list was disposed of with items or without
    lists: usize,
}
impl World {
    fn new(p: &'static Program, t: usize, with_vec: bool) -> Res<World> {
        let mut w = World { it: Interp::new(p), t, is: [Is::No; SLOTS], v: Default::default(), vec: None, source: None, with_vec, lists: 0 };
        if t >= 12 {
            let b = w.it.new_by_name("Teleportal.Client.Baseline", vec![V::Bool(true)]);
            let b = must(&w.it, "new Baseline", b)?;
            let c = w.it.call_static("BallContract", "Register", vec![b.clone()]);
            let c = must(&w.it, "BallContract.Register", c)?;
            w.source = Some((b, c))
        }
        if with_vec {
            let v = w.it.new_by_name("Teleportal.Client.Contract.Properties.Channels.RVec_Keyframe_U8", vec![]);
            let v = must(&w.it, "new RVec_Keyframe_U8", v)?;
            w.vec = Some((v, vec![], true))
        }
        Ok(w)
    }
    fn usable(&self, s: usize) -> bool {
        match self.is[s] {
            Is::No => false,
            // what a reference looks at must be kept alive by the program
            Is::Ref(o) => matches!(self.is[o], Is::Own(_)),
            _ => true,
        }
    }
    fn enabled(&self, vals: u8) -> Vec<Op> {
        let mut o = vec![];
        for b in B0..S0 {
            if !matches!(self.is[b], Is::Own(_)) && (b == B0 || self.is[b - 1] != Is::No) {
                for v in 0..vals {
                    o.push(Op::New(b, v))
                }
            }
        }
        let sources: Vec<usize> = [0, 1, REF].into_iter().filter(|s| self.usable(*s)).collect();
        for s in [S0, S0 + 1, K] {
            for f in &sources {
                if matches!(self.is[s], Is::No | Is::Gone) && (s != S0 + 1 || self.is[S0] != Is::No) {
                    o.push(Op::Make(s, *f))
                }
                if s != K && self.is[s] != Is::No {
                    o.push(Op::Set(s, *f))
                }
            }
            if self.usable(s) {
                o.push(Op::Look(s))
            }
        }
        for (a, b) in [(S0, S0 + 1), (S0, S0), (S0, K)] {
            if self.is[a] != Is::No && self.is[b] != Is::No {
                o.push(Op::SetFrom(a, b))
            }
        }
        for s in 0..SLOTS {
            if self.is[s] != Is::No {
                o.push(Op::Dispose(s))
            }
        }
        if let Some((_, items, _)) = &self.vec {
            if self.is[K] != Is::No {
                o.push(Op::Push(K));
                for i in 0..items.len() {
                    o.push(Op::Put(i, K))
                }
            }
            o.push(Op::DisposeVec)
        }
        o.push(Op::Collect);
        o
    }
    fn class(&self, s: usize) -> String {
        let n = TYPES[self.t];
        match s {
            0 | 1 => match self.t {
                11 => "RSharp.RString".into(),
                12 => "Teleportal.Client.Object.ObjectHandle".into(),
                13 => "Teleportal.Client.Contract.ContractDataHandle".into(),
                _ => format!("RSharp.RBox_{n}"),
            },
            K => format!("Teleportal.Client.Contract.Properties.Channels.Keyframe_{n}"),
            _ => format!("Teleportal.Client.Contract.Properties.States.State_{n}"),
        }
    }
    fn done(&mut self, op: &str, r: R, ok: bool) -> Res<Option<V>> {
        match out(&self.it, r)? {
            Out::Ok(v) if ok => Ok(Some(v)),
            Out::Ok(_) => mcx::viol("unnoticed", format!("{op} does not throw")),
            Out::Threw(..) if !ok => Ok(None),
            Out::Threw(c, m) => mcx::viol("throws", format!("{op} throws {c}: {m}")),
        }
    }
    fn apply(&mut self, op: Op) -> Res {
        let what = self.show(op);
        match op {
            Op::New(b, v) => {
                let c = self.class(b);
                let r = match &self.source {
                    None => self.it.new_by_name(&c, vec![value(self.t, v)]),
                    Some((_, con)) if self.t == 13 => self.it.get(&con.clone(), "Handle"),
                    Some((base, con)) => {
                        let a = ball_args(base);
                        let con = con.clone();
                        self.it.call_method(&con, "ObjectCreate", a)
                    }
                };
                let x = self.done(&what, r, true)?.unwrap();
                self.v[b] = Some(x);
                self.is[b] = Is::Own(v)
            }
            Op::Make(s, f) => {
                let ok = matches!(self.is[f], Is::Own(_));
                let c = self.class(s);
                let mut a = vec![self.v[f].clone().unwrap()];
                if s == K {
                    a.push(V::Flt(Prim::F64, 2.5))
                }
                let r = self.it.new_by_name(&c, a);
                if let Some(x) = self.done(&what, r, ok)? {
                    // what the slot held before has ended, and so has the reference to it
                    if self.is[REF] == Is::Ref(s) {
                        self.is[REF] = Is::No
                    }
                    self.v[s] = Some(x);
                    self.is[s] = self.is[f];
                    self.is[f] = Is::Gone
                }
            }
            Op::Look(s) => {
                let ok = matches!(self.is[s], Is::Own(_));
                let o = self.v[s].clone().unwrap();
                let r = self.it.get(&o, "Value");
                if let Some(x) = self.done(&what, r, ok)? {
                    let (is, want) = (self.it.class_name(&x), self.class(B0));
                    ensure!(is == want, "class", "{what} is a {is}, expected a {want}");
                    self.v[REF] = Some(x);
                    self.is[REF] = Is::Ref(s)
                }
            }
            Op::Set(s, f) => {
                let ok = matches!(self.is[s], Is::Own(_)) && matches!(self.is[f], Is::Own(_));
                let (o, x) = (self.v[s].clone().unwrap(), self.v[f].clone().unwrap());
                let r = self.it.set(&o, "Value", x).map(|_| V::Void);
                if self.done(&what, r, ok)?.is_some() {
                    self.is[s] = self.is[f];
                    self.is[f] = Is::Gone
                }
            }
            Op::SetFrom(s, f) => {
                // what is looked at is not owned
                let (o, x) = (self.v[s].clone().unwrap(), self.v[f].clone().unwrap());
                let r = self.it.get(&x, "Value").and_then(|x| self.it.set(&o, "Value", x)).map(|_| V::Void);
                self.done(&what, r, false)?;
            }
            Op::Dispose(s) => {
                let o = self.v[s].clone().unwrap();
                let r = self.it.call_method(&o, "Dispose", vec![]);
                self.done(&what, r, true)?;
                self.is[s] = Is::Gone
            }
            Op::Push(k) => {
                let (vec, _, alive) = self.vec.as_ref().unwrap();
                let (vec, alive) = (vec.clone(), *alive);
                let ok = alive && matches!(self.is[k], Is::Own(_));
                let x = self.v[k].clone().unwrap();
                let r = self.it.call_method(&vec, "push", vec![x]);
                if self.done(&what, r, ok)?.is_some() {
                    let Is::Own(v) = self.is[k] else { unreachable!() };
                    self.vec.as_mut().unwrap().1.push(v);
                    self.is[k] = Is::Gone
                }
            }
            Op::Put(i, k) => {
                let (vec, _, alive) = self.vec.as_ref().unwrap();
                let (vec, alive) = (vec.clone(), *alive);
                let ok = alive && matches!(self.is[k], Is::Own(_));
                let x = self.v[k].clone().unwrap();
                let r = self.it.set_index(&vec, vec![V::Int(Prim::I32, i as i128)], x).map(|_| V::Void);
                if self.done(&what, r, ok)?.is_some() {
                    let Is::Own(v) = self.is[k] else { unreachable!() };
                    self.vec.as_mut().unwrap().1[i] = v;
                    self.is[k] = Is::Gone
                }
            }
            Op::DisposeVec => {
                let vec = self.vec.as_ref().unwrap().0.clone();
                self.remember_list(&vec)?;
                let r = self.it.call_method(&vec, "Dispose", vec![]);
                self.done(&what, r, true)?;
                let v = self.vec.as_mut().unwrap();
                v.2 = false;
                v.1.clear()
            }
            Op::Collect => {
                // the garbage collector finalizes everything that the program holds no longer
                let held: Vec<V> = self.v.iter().flatten().cloned().chain(self.vec.iter().map(|v| v.0.clone())).chain(self.source.iter().flat_map(|s| [s.0.clone(), s.1.clone()])).collect();
                let lost: Vec<_> = self.it.objects.iter().filter(|o| !held.iter().any(|h| matches!(h, V::Obj(h) if Rc::ptr_eq(h, o)))).cloned().collect();
                for o in lost {
                    let r = self.it.finalize(&o).map(|_| V::Void);
                    self.done("a finalizer", r, true)?;
                }
            }
        }
        Ok(())
    }
    /// A list that is disposed of is not released (known): released here, so that nothing else hides behind it.
    fn remember_list(&mut self, vec: &V) -> Res {
        let r = self.it.get(vec, "Inner");
        if let V::Nat(..) = must(&self.it, "Inner", r)? {
            self.lists += 1
        }
        Ok(())
    }
    fn read(&mut self, s: usize) -> R {
        let o = self.v[s].clone().unwrap();
        if s == REF || s < S0 {
            return match self.t {
                12 | 13 => self.it.get(&o, "Inner").and_then(|x| self.it.get(&x, "Value")).map(|_| V::Void),
                _ => self.it.get(&o, "Value"),
            };
        }
        let v = self.it.get(&o, "Value")?;
        if self.t >= 12 {
            return Ok(V::Void);
        }
        self.it.get(&v, "Value")
    }
    /// Every wrapper gives what the model says, or throws.
    fn check(&mut self, at: &str) -> Res {
        for s in 0..SLOTS {
            if !self.usable(s) {
                continue;
            }
            let want = match self.is[s] {
                Is::Own(v) => Some(v),
                Is::Ref(o) => match self.is[o] {
                    Is::Own(v) => Some(v),
                    _ => None,
                },
                _ => None,
            };
            let what = format!("{at}: {}.Value", NAMES[s]);
            let r = self.read(s);
            let got = self.done(&what, r, want.is_some())?;
            if let (Some(g), Some(w), true) = (&got, want, self.t < 12) {
                ensure!(eq(g, &value(self.t, w)), "value", "{what} is {}, expected {}", self.it.shows_value(g), self.it.shows_value(&value(self.t, w)));
            }
            let o = self.v[s].clone().unwrap();
            let inner = self.it.get(&o, "Inner");
            let inner = must(&self.it, "Inner", inner)?;
            ensure!(matches!(inner, V::None) == want.is_none(), "inner", "{at}: {}.Inner is {}", NAMES[s], if want.is_none() { "kept" } else { "null" });
            if s == K && want.is_some() {
                let r = self.it.get(&o, "Time");
                let t = must(&self.it, "k.Time", r)?;
                ensure!(matches!(t, V::Flt(_, x) if x == 2.5), "value", "{at}: k.Time is {}", self.it.shows_value(&t));
            }
        }
        if let Some((vec, items, alive)) = self.vec.clone() {
            for (i, v) in items.iter().enumerate() {
                let what = format!("{at}: v[{i}]");
                let r = self.it.index(&vec, vec![V::Int(Prim::I32, i as i128)]);
                let k = must(&self.it, &what, r)?;
                let r = self.it.get(&k, "Value").and_then(|x| self.it.get(&x, "Value"));
                let g = must(&self.it, &what, r)?;
                ensure!(eq(&g, &value(0, *v)), "value", "{what} is {}", self.it.shows_value(&g));
            }
            if !alive {
                let r = self.it.index(&vec, vec![V::Int(Prim::I32, 0)]);
                self.done(&format!("{at}: v[0]"), r, false)?;
            }
        }
        Ok(())
    }
    fn show(&self, op: Op) -> String {
        let n = TYPES[self.t];
        match op {
            Op::New(b, v) => format!("{} = new {}({})", NAMES[b], self.class(b), if self.t < 12 { self.it.shows_value(&value(self.t, v)) } else { String::new() }),
            Op::Make(K, f) => format!("k = new Keyframe_{n}({}, 2.5)", NAMES[f]),
            Op::Make(s, f) => format!("{} = new State_{n}({})", NAMES[s], NAMES[f]),
            Op::Look(s) => format!("r = {}.Value", NAMES[s]),
            Op::Set(s, f) => format!("{}.Value = {}", NAMES[s], NAMES[f]),
            Op::SetFrom(s, f) => format!("{}.Value = {}.Value", NAMES[s], NAMES[f]),
            Op::Dispose(s) => format!("{}.Dispose()", NAMES[s]),
            Op::Push(k) => format!("v.push({})", NAMES[k]),
            Op::Put(i, k) => format!("v[{i}] = {}", NAMES[k]),
            Op::DisposeVec => "v.Dispose()".into(),
            Op::Collect => "the garbage is collected".into(),
        }
    }
    fn end(mut self, rev: bool) -> Res {
        let mut left = self.vec.as_ref().map_or(0, |v| v.2 as usize);
        left += self.lists;
        finalize_all(&mut self.it, rev)?;
        let m = &self.it.mem.meter;
        if self.with_vec && left > 0 && m.bytes != 0 {
            return mcx::viol("leak:RVec_Keyframe_U8", format!("RVec_Keyframe_U8 does not release its list: {} bytes in {} blocks are left", m.bytes, m.blocks));
        }
        ensure!(m.bytes == 0 && m.blocks == 0, "leak", "{} bytes in {} blocks are never released", m.bytes, m.blocks);
        Ok(())
    }
}
fn history(ch: &mut Ch, l: &Loaded, types: &[usize], depth: usize, with_vec: bool, vals: u8, prefix: &[Op]) -> Res {
    let p = l.ready()?;
    let t = types[ch.pick(types.len())];
    let mut w = World::new(p, t, with_vec)?;
    for op in prefix {
        let s = w.show(*op);
        ch.log(|| s.clone());
        w.apply(*op)?
    }
    let mut h = mcx::fnv(3, t as u64);
    for d in 0..depth {
        let ops = w.enabled(vals);
        let i = ch.pick(ops.len() + 1);
        if i == ops.len() {
            break;
        }
        ch.step();
        let op = ops[i];
        let s = w.show(op);
        ch.log(|| s.clone());
        w.apply(op)?;
        // only once per history
        if ch.fresh() || d + 1 == depth {
            w.check(&format!("after {s}"))?
        }
        h = mcx::hash_of(&(t, w.is, w.vec.as_ref().map(|v| (v.1.clone(), v.2))));
        ch.state(h);
    }
    let rev = ch.flip();
    ch.log(|| if rev { "finalizers, the last object first".into() } else { "finalizers".into() });
    ch.outcome(h);
    w.end(rev)
}
/// A wrapper that does not take the class of its own type's values, but another class of the sources.
fn refused(p: &Program, v: mcx::Viol) -> mcx::Viol {
    let named = |c: &&str| p.classes.iter().any(|x| x.full == **c || x.name == **c);
    let kinds = v.msg.split_once(": a ").and_then(|(_, x)| x.strip_suffix(" is wanted")).and_then(|x| x.split_once(" is given where "));
    match kinds {
        Some((a, b)) if v.key == "compile" && named(&a) && named(&b) => mcx::Viol { key: "class".into(), msg: v.msg },
        _ => v,
    }
}
/// What the values of states and keyframes are to a program (C26).
pub fn kinds(ctx: &Ctx, l: &Loaded) {
    ctx.explore("kinds of values", 2, "states and keyframes of all 14 types, made from both values, read, replaced and read again", |ch: &mut Ch| quiet((|| {
        let p = l.ready()?;
        let t = ch.pick(TYPES.len());
        let s = [S0, K][ch.pick(2)];
        let v = ch.pick(2) as u8;
        let mut w = World::new(p, t, false)?;
        let mut ops = vec![Op::New(B0, v), Op::Make(s, B0), Op::Look(s)];
        if s == S0 {
            ops.extend([Op::New(B0, 1 - v), Op::Set(s, B0), Op::Look(s)])
        }
        for op in ops {
            let text = w.show(op);
            ch.step();
            ch.log(|| text.clone());
            w.apply(op).map_err(|v| refused(p, v))?;
            w.check(&format!("after {text}"))?;
            let h = mcx::hash_of(&(t, w.is));
            ch.state(h);
            ch.outcome(h)
        }
        Ok(())
    })()));
}
pub fn own(ctx: &Ctx, l: &Loaded) {
    let d = ctx.by(6, 7);
    ctx.explore("wrappers", 3, &format!("two boxes, two states, a keyframe and a reference of U8 and String; histories of up to {d} operations, with finalizers in two orders"), |ch: &mut Ch| quiet(history(ch, l, &[0, 11], d, false, 1, &[])));
    let d = ctx.by(4, 5);
    let all: Vec<usize> = (0..14).collect();
    ctx.explore("wrappers of every type", 3, &format!("the same for all 14 types and two values each; up to {d} operations"), |ch: &mut Ch| quiet(history(ch, l, &all, d, false, 2, &[])));
    let d = ctx.by(6, 7);
    ctx.explore("lists", 3, &format!("the same with a list of keyframes (U8); up to {d} operations"), |ch: &mut Ch| quiet(history(ch, l, &[0], d, true, 1, &[])));
    // a list of up to two keyframes, and the next keyframe
    let one = |v| [Op::New(B0, v), Op::Make(K, B0)];
    let mut items = vec![];
    for n in 0..3u8 {
        items.push(items.last().cloned().unwrap_or_else(|| one(0).to_vec()));
        if n > 0 {
            let l = items.last_mut().unwrap();
            l.push(Op::Push(K));
            l.extend(one(n % 2))
        }
    }
    let d = ctx.by(3, 5);
    ctx.explore("lists with keyframes", 3, &format!("a list of 0 to 2 keyframes (U8) and the next keyframe, then up to {d} operations; two values"), |ch: &mut Ch| {
        let n = ch.pick(3);
        quiet(history(ch, l, &[0], d, true, 2, &items[n]))
    });
    super::hist::refs(ctx, l);
    let n = ctx.by(40, 130);
    ctx.explore("long lists", 1, &format!("lists of up to {n} keyframes (U8), read after every push, with any of them replaced; released, and read again"), |ch: &mut Ch| quiet((|| {
        let n = ch.pick(n + 1);
        let at = ch.pick(4);
        let mut w = World::new(l.ready()?, 0, true)?;
        let mut ops = vec![];
        for i in 0..n {
            ops.extend(one(i as u8 % 2));
            ops.push(Op::Push(K))
        }
        if at < 3 && n > 0 {
            let i = [0, n / 2, n - 1][at];
            ops.extend(one(1 - i as u8 % 2));
            ops.push(Op::Put(i, K))
        }
        ops.push(Op::Collect);
        ch.step();
        ch.log(|| format!("{n} keyframes are pushed{}", if at < 3 && n > 0 { format!(", number {} is replaced", [0, n / 2, n - 1][at]) } else { String::new() }));
        for op in ops {
            let s = w.show(op);
            w.apply(op)?;
            if !matches!(op, Op::New(..) | Op::Make(..)) {
                w.check(&format!("after {s}"))?
            }
        }
        w.apply(Op::DisposeVec)?;
        w.check("after v.Dispose()")?;
        ch.state(mcx::hash_of(&(n, at)));
        ch.outcome(mcx::hash_of(&(n, at)));
        w.end(ch.flip())
    })()));
}
