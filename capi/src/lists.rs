//! Lists that C makes behave like lists (C23).
use crate::border::Meter;
use crate::ffi::*;
use mcx::alloc::take_fault;
use mcx::{ensure, fnv, Ch, Ctx, Res};

/// Keyframe lists of the 14 types, and lists of object handles.
const SORTS: usize = 15;
const NAMES: [&str; 2] = ["keyframes of ", "object handles"];
#[derive(Clone, Copy)]
struct Fns {
    sort: usize,
    new: unsafe extern "C" fn() -> CVec,
    push: unsafe extern "C" fn(*mut CVec, P),
    get: unsafe extern "C" fn(*const CVec, usize) -> P,
    set: unsafe extern "C" fn(*mut CVec, usize, P),
    drop: unsafe extern "C" fn(CVec),
}
fn fns(sort: usize) -> Fns {
    if sort == 14 {
        return Fns {
            sort,
            new: tp_client__object__RVec_ObjectHandle__new,
            push: tp_client__object__RVec_ObjectHandle__push,
            get: tp_client__object__RVec_ObjectHandle__get,
            set: tp_client__object__RVec_ObjectHandle__set,
            drop: tp_client__object__RVec_ObjectHandle__drop,
        };
    }
    let t = f(sort);
    Fns { sort, new: t.rv_new, push: t.rv_push, get: t.rv_get, set: t.rv_set, drop: t.rv_drop }
}
impl Fns {
    /// Items are numbers: the value, and for keyframes the time.
    fn item(&self, i: u64) -> P {
        if self.sort == 14 {
            (f(12).boxed)((i % f(12).n as u64) as u8)
        } else {
            let t = f(self.sort);
            unsafe { (t.kf_new)((t.boxed)((i % t.n as u64) as u8), i as f64 * 0.5) }
        }
    }
    fn is(&self, p: P, i: u64) -> bool {
        unsafe {
            if self.sort == 14 {
                (f(12).read)(p) as u64 == i % f(12).n as u64
            } else {
                let t = f(self.sort);
                (t.kf_time)(p) == i as f64 * 0.5 && (t.read)((t.kf_value)(p)) as u64 == i % t.n as u64
            }
        }
    }
    fn name(&self) -> String {
        if self.sort == 14 { NAMES[1].into() } else { format!("{}{}", NAMES[0], f(self.sort).name) }
    }
    fn like(&self, l: &CVec, model: &[u64]) -> Res {
        let n = self.name();
        ensure!(l.len == model.len(), "length", "the list of {n} has {} items, expected {}", l.len, model.len());
        ensure!(l.cap >= l.len, "capacity", "the list of {n} has {} items but room for {}", l.len, l.cap);
        let mut first = std::ptr::null_mut();
        let mut step = 0;
        for (j, want) in model.iter().enumerate() {
            let p = unsafe { (self.get)(l, j) };
            ensure!(self.is(p, *want), "item", "item {j} of the list of {n} is not item {want}, which was put there");
            // C reads the items as an array, too
            match j {
                0 => {
                    first = p;
                    ensure!(p == l.ptr, "array", "item 0 of the list of {n} is not at its start");
                }
                1 => step = p as usize - first as usize,
                _ => ensure!(p as usize == first as usize + j * step, "array", "item {j} of the list of {n} is out of line"),
            }
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    New,
    Push(usize),
    Set(usize, usize),
    Drop(usize),
}
pub fn lists(ctx: &Ctx) {
    huge(ctx);
    let depth = ctx.by(9, 10);
    ctx.explore("sequences", 4, &format!("15 sorts of list: all sequences of {depth} of new, push, set (any index) and drop on up to two lists; all items read after every call"), move |ch: &mut Ch| {
        take_fault();
        let f = fns(ch.pick(SORTS));
        ch.log(|| f.name());
        let mut l: Vec<(CVec, Vec<u64>)> = vec![];
        let mut m = Meter::default();
        let r = run(ch, f, depth, &mut l, &mut m);
        for (v, _) in l {
            m.c(|| unsafe { (f.drop)(v) })
        }
        r?;
        m.settled(&f.name())
    });
    let n = ctx.by(70, 600);
    ctx.explore("growth", 2, &format!("15 sorts of list: every length up to {n}, an item replaced at the start, the middle or the end"), move |ch: &mut Ch| {
        take_fault();
        let f = fns(ch.pick(SORTS));
        let n = ch.pick(n) + 1;
        let at = [0, n / 2, n - 1][ch.pick(3)];
        ch.log(|| format!("{}: {n} items, {at} replaced", f.name()));
        ch.steps(n as u64 + 1);
        let mut m = Meter::default();
        let mut l = m.c(|| unsafe { (f.new)() });
        let mut model: Vec<u64> = (0..n as u64).collect();
        m.c(|| unsafe {
            for i in 0..n as u64 {
                (f.push)(&mut l, f.item(i))
            }
        });
        let a = f.like(&l, &model);
        model[at] = 7777;
        m.c(|| unsafe { (f.set)(&mut l, at, f.item(7777)) });
        let b = f.like(&l, &model);
        m.c(|| unsafe { (f.drop)(l) });
        ch.state((f.sort * 1000 + n) as u64);
        ch.outcome((f.sort * 3000 + n * 3 + at) as u64);
        a.and(b)?;
        m.settled(&f.name())
    });
}
/// Lengths that no byte and no pair of bytes counts.
fn huge(ctx: &Ctx) {
    const N: [usize; 5] = [255, 257, 1025, 4097, 66000];
    ctx.explore("huge", 2, &format!("15 sorts of list: {N:?} items in a scrambled order, an item replaced at the start, the middle or the end; of each list of keyframes a channel is made and its keyframes compared with those of a channel made in Rust"), move |ch: &mut Ch| {
        take_fault();
        let f = fns(ch.pick(SORTS));
        let n = ch.of(&N);
        let at = [0, n / 2, n - 1][ch.pick(3)];
        ch.log(|| format!("{}: {n} items, {at} replaced", f.name()));
        ch.steps(n as u64 + 2);
        let mut m = Meter::default();
        let mut l = m.c(|| unsafe { (f.new)() });
        let mut model: Vec<u64> = (0..n as u64).map(|i| i * 7919 % n as u64).collect();
        m.c(|| unsafe {
            for i in &model {
                (f.push)(&mut l, f.item(*i))
            }
        });
        let a = f.like(&l, &model);
        model[at] = 77777;
        m.c(|| unsafe { (f.set)(&mut l, at, f.item(77777)) });
        let b = f.like(&l, &model);
        let mut c = Ok(());
        if f.sort == 14 {
            m.c(|| unsafe { (f.drop)(l) })
        } else {
            let t = crate::ffi::f(f.sort);
            let want = (t.rust_chan)(&model.iter().map(|i| ((*i as f64 * 0.5).to_bits(), (*i % t.n as u64) as u8)).collect::<Vec<_>>());
            // the channel takes the list over
            let chan = m.c(|| unsafe { (t.chan_new)(l) });
            let k = m.c(|| unsafe { (t.chan_keyframes)(chan) });
            let got = unsafe { crate::border::list_kfs(f.sort, k) };
            m.c(|| unsafe {
                (t.chan_keyframes_drop)(k);
                (t.chan_drop)(chan)
            });
            if got != want {
                let j = got.iter().zip(&want).position(|(g, w)| g != w);
                c = mcx::viol("channel", format!("a channel made of a list of {n} {} has {} keyframes, expected {}; the first that differs is {j:?}", f.name(), got.len(), want.len()))
            }
        }
        ch.state((f.sort * 100_000 + n) as u64);
        ch.outcome((f.sort * 300_000 + n * 3 + at) as u64);
        a.and(b).and(c)?;
        m.settled(&f.name())
    });
}
fn run(ch: &mut Ch, f: Fns, depth: usize, l: &mut Vec<(CVec, Vec<u64>)>, m: &mut Meter) -> Res {
    for step in 0..depth {
        let mut ops = vec![];
        if l.len() < 2 {
            ops.push(Op::New)
        }
        for (i, x) in l.iter().enumerate() {
            ops.push(Op::Push(i));
            ops.extend((0..x.1.len()).map(|j| Op::Set(i, j)));
            ops.push(Op::Drop(i));
        }
        let op = ops[ch.pick(ops.len())];
        ch.step();
        ch.log(|| format!("{op:?}"));
        let item = step as u64 + 1;
        match op {
            Op::New => {
                let v = m.c(|| unsafe { (f.new)() });
                l.push((v, vec![]))
            }
            Op::Push(i) => {
                m.c(|| unsafe { (f.push)(&mut l[i].0, f.item(item)) });
                l[i].1.push(item)
            }
            Op::Set(i, j) => {
                m.c(|| unsafe { (f.set)(&mut l[i].0, j, f.item(item)) });
                l[i].1[j] = item
            }
            Op::Drop(i) => {
                let (v, _) = l.remove(i);
                m.c(|| unsafe { (f.drop)(v) })
            }
        }
        if ch.fresh() {
            let mut h = f.sort as u64;
            for (v, model) in l.iter() {
                f.like(v, model)?;
                h = model.iter().fold(fnv(h, 77), |h, x| fnv(h, *x));
            }
            ch.state(h);
            ch.outcome(h);
        }
    }
    Ok(())
}
