//! Single values crossing the border: states, keyframes, lists of them, channels. Every sequence of
//! calls that a C program is allowed to make, per type.
use crate::border::{list_kfs, Judge, Meter};
use crate::ffi::*;
use mc_core::types::Kfs;
use mcx::alloc::take_fault;
use mcx::{ensure, fnv, Ch, Ctx, Res};

const TIMES: [f64; 4] = [1.0, -0.5, 0.0, 1.0];

#[derive(Clone, Debug)]
enum Thing {
    Value(u8, P),
    State(u8, P),
    Kf((u64, u8), P),
    List(Kfs, CVec),
    Chan(Kfs, P),
}
#[derive(Clone, Copy, Debug)]
enum Op {
    NewValue,
    /// a state takes over value i
    NewState(usize),
    SetState(usize, usize),
    /// a keyframe takes over value i
    NewKf(usize, usize),
    NewList,
    Push(usize, usize),
    SetItem(usize, usize, usize),
    NewChan(usize),
    Keyframes(usize),
    Overwrite(usize, usize),
    Drop(usize),
}
struct Pool {
    t: usize,
    things: Vec<Thing>,
    m: Meter,
    made: usize,
}
impl Pool {
    fn ops(&self) -> Vec<Op> {
        use Thing::*;
        let mut v = vec![];
        let pos = |p: fn(&Thing) -> bool| -> Vec<usize> { self.things.iter().enumerate().filter(|x| p(x.1)).map(|x| x.0).collect() };
        let vals = pos(|t| matches!(t, Value(..)));
        let kfs = pos(|t| matches!(t, Kf(..)));
        let lists = pos(|t| matches!(t, List(..)));
        // things of a sort are taken over oldest first: which of two equal boxes goes first only
        // matters for where they go
        if vals.len() < 2 {
            v.push(Op::NewValue)
        }
        if let Some(i) = vals.first() {
            v.push(Op::NewState(*i));
            v.push(Op::NewKf(*i, self.made % TIMES.len()));
        }
        if lists.is_empty() {
            v.push(Op::NewList)
        }
        for (i, t) in self.things.iter().enumerate() {
            match t {
                State(..) => {
                    if let Some(x) = vals.first() {
                        v.push(Op::SetState(i, *x))
                    }
                }
                List(l, _) => {
                    if let Some(k) = kfs.first() {
                        v.push(Op::Push(i, *k));
                        for j in 0..l.len() {
                            v.push(Op::SetItem(i, j, *k))
                        }
                    }
                    v.push(Op::NewChan(i))
                }
                Chan(l, _) => {
                    v.push(Op::Keyframes(i));
                    if !l.is_empty() {
                        v.push(Op::Overwrite(i, l.len() - 1))
                    }
                }
                _ => {}
            }
            v.push(Op::Drop(i))
        }
        v
    }
    fn apply(&mut self, op: Op) -> Res {
        let ff = f(self.t);
        let m = &mut self.m;
        let made = self.made;
        match op {
            Op::NewValue => {
                let v = (made % ff.n as usize) as u8;
                let p = m.c(|| (ff.boxed)(v));
                self.made += 1;
                self.things.push(Thing::Value(v, p));
            }
            Op::NewState(i) => {
                let Thing::Value(v, p) = self.things.remove(i) else { unreachable!() };
                let s = m.c(|| unsafe { (ff.state_new)(p) });
                self.things.push(Thing::State(v, s));
            }
            Op::SetState(s, i) => {
                let Thing::Value(v, p) = self.things[i] else { unreachable!() };
                let Thing::State(ref mut cur, sp) = self.things[s] else { unreachable!() };
                *cur = v;
                m.c(|| unsafe { (ff.state_value_set)(sp, p) });
                self.things.remove(i);
            }
            Op::NewKf(i, time) => {
                let Thing::Value(v, p) = self.things.remove(i) else { unreachable!() };
                let k = m.c(|| unsafe { (ff.kf_new)(p, TIMES[time]) });
                self.things.push(Thing::Kf((TIMES[time].to_bits(), v), k));
            }
            Op::NewList => {
                let l = m.c(|| unsafe { (ff.rv_new)() });
                self.things.push(Thing::List(vec![], l));
            }
            Op::Push(l, k) => {
                let Thing::Kf(v, kp) = self.things[k] else { unreachable!() };
                let Thing::List(ref mut model, ref mut c) = self.things[l] else { unreachable!() };
                model.push(v);
                m.c(|| unsafe { (ff.rv_push)(c, kp) });
                self.things.remove(k);
            }
            Op::SetItem(l, j, k) => {
                let Thing::Kf(v, kp) = self.things[k] else { unreachable!() };
                let Thing::List(ref mut model, ref mut c) = self.things[l] else { unreachable!() };
                model[j] = v;
                m.c(|| unsafe { (ff.rv_set)(c, j, kp) });
                self.things.remove(k);
            }
            Op::NewChan(l) => {
                let Thing::List(model, c) = self.things.remove(l) else { unreachable!() };
                let ch = m.c(|| unsafe { (ff.chan_new)(c) });
                // what Rust makes of the same keyframes
                let model = (ff.rust_chan)(&model);
                self.things.push(Thing::Chan(model, ch));
            }
            Op::Keyframes(i) => {
                let Thing::Chan(_, c) = self.things[i] else { unreachable!() };
                m.c(|| unsafe {
                    let l = (ff.chan_keyframes)(c);
                    (ff.chan_keyframes_drop)(l);
                    let l = (ff.chan_keyframes_mut)(c);
                    (ff.chan_keyframes_mut_drop)(l);
                });
            }
            Op::Overwrite(i, j) => {
                let v = ((made + 1) % ff.n as usize) as u8;
                let Thing::Chan(ref mut model, c) = self.things[i] else { unreachable!() };
                model[j] = (2.5f64.to_bits(), v);
                let r = m.c(|| unsafe {
                    let l = (ff.chan_keyframes_mut)(c);
                    let ok = l.len > j;
                    if ok {
                        (ff.kf_overwrite)(*(l.ptr as *const P).add(j), v, 2.5);
                    }
                    (ff.chan_keyframes_mut_drop)(l);
                    ok
                });
                ensure!(r, "keyframes-mut", "the mutable keyframes of a channel are too few");
            }
            Op::Drop(i) => {
                let t = self.things.remove(i);
                drop_thing(self.t, t, m)
            }
        }
        Ok(())
    }
    fn observe(&self) -> Res {
        let ff = f(self.t);
        for (i, t) in self.things.iter().enumerate() {
            let name = ff.name;
            match t {
                Thing::Value(v, p) => {
                    let got = unsafe { (ff.read)(*p) };
                    ensure!(got == *v, "value", "boxed {name} reads as #{got}, expected #{v}");
                }
                Thing::State(v, p) => {
                    let got = unsafe { (ff.read)((ff.state_value)(*p)) };
                    ensure!(got == *v, "state", "state of {name} reads as #{got}, expected #{v}");
                }
                Thing::Kf(v, p) => {
                    let got = unsafe { ((ff.kf_time)(*p).to_bits(), (ff.read)((ff.kf_value)(*p))) };
                    ensure!(got == *v, "keyframe", "keyframe of {name} reads as {got:x?}, expected {v:x?}");
                }
                Thing::List(v, l) => {
                    ensure!(l.len == v.len() && l.cap >= l.len, "list", "list of keyframes of {name} has length {}, expected {}", l.len, v.len());
                    for (j, want) in v.iter().enumerate() {
                        let k = unsafe { (ff.rv_get)(l, j) };
                        let got = unsafe { ((ff.kf_time)(k).to_bits(), (ff.read)((ff.kf_value)(k))) };
                        ensure!(got == *want, "list", "item {j} of the list of keyframes of {name} reads as {got:x?}, expected {want:x?}");
                    }
                }
                Thing::Chan(v, c) => {
                    for mutable in [false, true] {
                        let got = unsafe {
                            let l = if mutable { (ff.chan_keyframes_mut)(*c) } else { (ff.chan_keyframes)(*c) };
                            let got = list_kfs(self.t, l);
                            if mutable { (ff.chan_keyframes_mut_drop)(l) } else { (ff.chan_keyframes_drop)(l) }
                            got
                        };
                        ensure!(got == *v, "channel", "thing {i}: keyframes of the channel of {name} (mutable: {mutable}) are {got:x?}, expected {v:x?}");
                    }
                }
            }
        }
        Ok(())
    }
    fn hash(&self) -> u64 {
        let mut h = self.t as u64;
        let l = |mut h: u64, l: &Kfs| {
            for (a, b) in l {
                h = fnv(fnv(h, *a), *b as u64)
            }
            h
        };
        for t in &self.things {
            h = match t {
                Thing::Value(v, _) => fnv(h, *v as u64),
                Thing::State(v, _) => fnv(h, *v as u64 + 100),
                Thing::Kf(k, _) => fnv(fnv(h, k.0), k.1 as u64 + 200),
                Thing::List(v, _) => l(fnv(h, 300), v),
                Thing::Chan(v, _) => l(fnv(h, 400), v),
            }
        }
        h
    }
}
fn drop_thing(t: usize, x: Thing, m: &mut Meter) {
    let ff = f(t);
    m.c(|| unsafe {
        match x {
            Thing::Value(_, p) => (ff.unbox)(p),
            Thing::State(_, p) => (ff.state_drop)(p),
            Thing::Kf(_, p) => (ff.kf_drop)(p),
            Thing::List(_, l) => (ff.rv_drop)(l),
            Thing::Chan(_, c) => (ff.chan_drop)(c),
        }
    })
}
pub fn pool(ctx: &Ctx, j: Judge) {
    let depth = if j == Judge::Memory { ctx.by(7, 9) } else { ctx.by(8, 10) };
    ctx.explore("values", 4, &format!("per type (14): all sequences of {depth} calls that make, take over, overwrite, list and release values, states, keyframes, lists and channels, two values at a time, one list"), move |ch: &mut Ch| {
        take_fault();
        let t = ch.pick(14);
        ch.log(|| format!("type {}", f(t).name));
        let mut p = Pool { t, things: vec![], m: Meter::default(), made: 0 };
        let r = run(ch, &mut p, depth, j);
        let order = r.is_ok() && j == Judge::Memory && ch.flip();
        let Pool { mut things, mut m, .. } = p;
        if order {
            things.reverse()
        }
        for x in things {
            drop_thing(t, x, &mut m)
        }
        r?;
        if j == Judge::Memory {
            m.settled(&format!("{} values", f(t).name))?
        }
        Ok(())
    });
    let max = ctx.by(40, 130);
    ctx.explore("long lists", 2, &format!("per type (14): lists of every length up to {max}, of 255 to 257 and of 1000 keyframes, an item replaced or not; released, or made a channel whose keyframes are read, of which one is overwritten, and which is released"), move |ch: &mut Ch| {
        take_fault();
        let t = ch.pick(14);
        let mut n = ch.pick(max + 5);
        if n > max {
            n = [255, 256, 257, 1000][n - max - 1]
        }
        let (end, set) = (ch.pick(3), ch.flip());
        ch.step();
        ch.log(|| format!("{n} keyframes of type {}{}; {}", f(t).name, if set { ", one replaced" } else { "" }, ["released", "a channel", "a channel, one keyframe overwritten"][end]));
        let mut p = Pool { t, things: vec![], m: Meter::default(), made: 0 };
        let r = long(&mut p, n, end, set, j);
        let Pool { things, mut m, .. } = p;
        for x in things {
            drop_thing(t, x, &mut m)
        }
        r?;
        if j == Judge::Memory {
            m.settled(&format!("{} values", f(t).name))?
        }
        ch.state(mcx::hash_of(&(t, n, end, set)));
        ch.outcome(mcx::hash_of(&(t, n, end, set)));
        Ok(())
    });
}
fn long(p: &mut Pool, n: usize, end: usize, set: bool, j: Judge) -> Res {
    let look = |p: &Pool| if j == Judge::Values { p.observe() } else { Ok(()) };
    p.apply(Op::NewList)?;
    for _ in 0..n {
        p.apply(Op::NewValue)?;
        p.apply(Op::NewKf(1, p.made * 5 / 3 % TIMES.len()))?;
        p.apply(Op::Push(0, 1))?;
    }
    look(p)?;
    if set && n > 0 {
        p.apply(Op::NewValue)?;
        p.apply(Op::NewKf(1, 1))?;
        p.apply(Op::SetItem(0, n * 2 / 3, 1))?;
        look(p)?
    }
    if end > 0 {
        p.apply(Op::NewChan(0))?;
        look(p)?;
        p.apply(Op::Keyframes(0))?;
        if end > 1 && n > 0 {
            p.apply(Op::Overwrite(0, n / 2))?;
            look(p)?
        }
    }
    p.apply(Op::Drop(0))
}
fn run(ch: &mut Ch, p: &mut Pool, depth: usize, j: Judge) -> Res {
    for _ in 0..depth {
        let ops = p.ops();
        let op = ops[ch.pick(ops.len())];
        ch.step();
        ch.log(|| format!("{op:?}"));
        p.apply(op)?;
        if ch.fresh() {
            if j == Judge::Values {
                p.observe()?
            }
            ch.state(p.hash());
            ch.outcome(p.hash());
        }
    }
    Ok(())
}
