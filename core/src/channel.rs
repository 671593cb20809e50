//! Channels and their keyframes (C15).
use mc_core::types::*;
use mc_core::world::*;
use mcx::{ensure, fnv, hash_of, viol, Ctx, Res};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{Channel, Keyframe};

/// Times that are easy to get wrong.
const TIMES: [f64; 11] = [1.0, 0.0, -1.0, f64::NAN, -0.0, f64::INFINITY, f64::NEG_INFINITY, 2.0, 5e-324, f64::MAX, -f64::NAN];

/// Builds a channel of `times.len()` keyframes whose values are their positions.
fn build(times: &[f64], how: usize) -> Channel<u64> {
    let mut it = times.iter().enumerate().map(|(i, t)| Keyframe::new(i as u64, *t));
    match how {
        0 => Channel::new(times.iter().enumerate().map(|(i, t)| Keyframe::new(i as u64, *t)).collect::<Vec<_>>().into_iter()),
        1 => Channel::new(it.filter(|_| true)),
        2 => Channel::new(std::iter::from_fn(move || it.next())),
        _ => {
            let half = times.len() / 2;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|k| (*k.value() as usize) < half);
            Channel::new(a.into_iter().chain(b))
        }
    }
}
/// Exactly the given keyframes, in order of time but for those that are not a number.
fn ordered(c: &Channel<u64>, times: &[f64]) -> Res {
    let got: Vec<(u64, f64)> = c.keyframes().iter().map(|k| (*k.value(), k.time())).collect();
    let mut seen = vec![false; times.len()];
    for (v, t) in &got {
        let i = *v as usize;
        ensure!(i < times.len() && !seen[i], "keyframes", "{times:?}: value {i} occurs twice or never existed: {got:?}");
        seen[i] = true;
        ensure!(times[i].to_bits() == t.to_bits(), "keyframe-time", "{times:?}: keyframe {i} has time {t}: {got:?}");
    }
    ensure!(got.len() == times.len(), "keyframes-lost", "{times:?}: {got:?}");
    let mut last = f64::NEG_INFINITY;
    for (_, t) in got.iter().filter(|k| !k.1.is_nan()) {
        ensure!(*t >= last, "order", "{times:?} is kept as {got:?}");
        last = *t;
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    let (nt, len) = ctx.by((9, 6), (11, 7));
    ctx.explore("lists", 3, &format!("all keyframe lists up to length {len} over the times {:?}", &TIMES[..nt]), move |ch| {
        let n = ch.pick(len + 1);
        let ts: Vec<f64> = (0..n).map(|_| TIMES[ch.pick(nt)]).collect();
        ch.step();
        ch.log(|| format!("keyframes at {ts:?}"));
        ordered(&build(&ts, n % 4), &ts)?;
        ch.state(hash_of(&ts.iter().map(|t| t.to_bits()).collect::<Vec<_>>()));
        ch.outcome(n as u64);
        Ok(())
    });
    let n = ctx.by(8, 10);
    ctx.explore("permutations", 2, &format!("all {n}! orders of {n} keyframes, from four kinds of iterators"), move |ch| {
        let mut rest: Vec<f64> = (0..n).map(|i| i as f64 - 3.5).collect();
        let mut ts = vec![];
        while !rest.is_empty() {
            let i = ch.pick(rest.len());
            ts.push(rest.remove(i));
        }
        ch.step();
        ch.log(|| format!("keyframes at {ts:?}"));
        ordered(&build(&ts, (ts[0] + 4.0) as usize % 4), &ts)?;
        if ch.fresh() {
            ch.state(hash_of(&ts.iter().map(|t| t.to_bits()).collect::<Vec<_>>()));
        }
        Ok(())
    });
    let max = ctx.by(130, 700);
    ctx.explore("long", 2, &format!("lists of every length up to {max}: sorted, reversed, organ pipe, saw tooth, few distinct, all equal, interleaved, one out of place, one NaN at every place"), move |ch| {
        let n = ch.pick(max + 1);
        let shape = ch.pick(10);
        let f = |g: &dyn Fn(usize) -> f64| (0..n).map(g).collect::<Vec<f64>>();
        let m = n.max(1);
        let lists: Vec<Vec<f64>> = match shape {
            0 => vec![f(&|i| i as f64)],
            1 => vec![f(&|i| (n - i) as f64)],
            2 => vec![f(&|i| i.min(n - i) as f64), f(&|i| -(i.min(n - i) as f64))],
            3 => vec![f(&|i| (i % 7) as f64), f(&|i| (i % 13) as f64 * -1.5)],
            4 => vec![f(&|i| (i * 7919 % m) as f64), f(&|i| (i * i % m) as f64)],
            5 => vec![f(&|_| 4.0)],
            6 => vec![f(&|i| if i % 2 == 0 { i as f64 } else { -(i as f64) })],
            7 => (0..n).step_by(1 + n / 40).map(|p| f(&|i| if i == p { -1.0 } else { i as f64 })).collect(),
            8 => (0..n).step_by(1 + n / 40).map(|p| f(&|i| if i == p { f64::NAN } else { (n - i) as f64 })).collect(),
            _ => vec![f(&|i| TIMES[i * 5 % TIMES.len()]), f(&|i| if i % 3 == 0 { f64::NAN } else { (n - i) as f64 })],
        };
        ch.log(|| format!("length {n}, shape {shape}"));
        for ts in &lists {
            ch.step();
            ordered(&build(ts, n % 4), ts)?;
        }
        ch.state(fnv(n as u64, shape as u64));
        Ok(())
    });
    let big: Vec<usize> = ctx.by(vec![257, 1025, 4097, 65535, 65536, 65537, 70001], vec![257, 1025, 4097, 65535, 65536, 65537, 70001, 300001]);
    ctx.explore("huge", 2, &format!("lists of {big:?} keyframes: sorted, reversed, saw tooth, shuffled by a fixed permutation, all equal, alternating signs, special times"), move |ch| {
        let n = ch.of(&big);
        let shape = ch.pick(7);
        let ts: Vec<f64> = (0..n)
            .map(|i| match shape {
                0 => i as f64,
                1 => (n - i) as f64,
                2 => (i % 97) as f64,
                3 => (i * 7919 % n) as f64,
                4 => 4.0,
                5 => if i % 2 == 0 { i as f64 } else { -(i as f64) },
                _ => TIMES[i * 5 % TIMES.len()],
            })
            .collect();
        ch.log(|| format!("length {n}, shape {shape}"));
        ch.step();
        ordered(&build(&ts, shape % 4), &ts)?;
        ch.state(fnv(n as u64, shape as u64));
        Ok(())
    });
    let len = ctx.by(3, 4);
    ctx.explore("types", 2, &format!("all 28 types x keyframe lists up to length {len} over 4 times and 3 values, between two other channels of an object and next to a second object, read back through every path"), move |ch| {
        let ty = ch.pick(28);
        let nv = (o(ty).n)().min(3);
        let n = ch.pick(len + 1);
        let ks: Kfs = (0..n).map(|_| (ch.of(&[2.0, -0.5, f64::INFINITY, 0.0]).to_bits(), ch.pick(nv) as u8)).collect();
        ch.step();
        ch.log(|| format!("{} {ks:?}", NAMES[ty]));
        let side: Kfs = vec![(1f64.to_bits(), 1), (4f64.to_bits(), 0)];
        let sh = shape(&[], &[ty, ty, (ty + 1) % 28]);
        set_shape(0, sh);
        let mut b = Baseline::new(BaselineKind::Main);
        let h = (k(0).reg)(&mut b).expect("register");
        let mk = |ks: &Kfs| vec![(o(ty).mk_chan)(&side), (o(ty).mk_chan)(ks), (o((ty + 1) % 28).mk_chan)(&side)];
        let first = (k(0).create)(&mut b, h, vec![], mk(&ks), n % 2 == 1).expect("create");
        let other = (k(0).create)(&mut b, h, vec![], mk(&side), false).expect("create");
        for (obj, f, t, want) in [(first, 1, ty, &ks), (first, 0, ty, &side), (first, 2, (ty + 1) % 28, &side), (other, 1, ty, &side)] {
            let raw = (o(t).bind_chan)(&b, f, h, obj).expect("bind");
            for p in CHAN_READS {
                let got = (o(t).read_chan)(&mut b, raw, p);
                let ok = got.as_ref().map_or(false, |g| same_kfs(g, want));
                ensure!(ok, "stored", "channel {f} of type {} made from {want:?} reads {got:?} through {p:?}", NAMES[t]);
            }
        }
        ch.state(fnv(ty as u64, hash_of(&ks)));
        Ok(())
    });
    let depth = ctx.by(3, 4);
    ctx.explore("edits", 2, &format!("all sequences of {depth} edits (push, insert, remove, swap, clear, truncate, reverse, sort, replace) through every mutable path, for 6 types, read through every path after each edit"), move |ch| {
        let ty = ch.of(&[9usize, 11, 0, 12, 25, 19]);
        let sh = shape(&[], &[ty, ty]);
        set_shape(0, sh);
        let mut b = Baseline::new(BaselineKind::Fork);
        let h = (k(0).reg)(&mut b).expect("register");
        let start: Kfs = vec![(0f64.to_bits(), 0), (1f64.to_bits(), 1)];
        let obj = (k(0).create)(&mut b, h, vec![], vec![(o(ty).mk_chan)(&start), (o(ty).mk_chan)(&start)], false).expect("create");
        let raw = (o(ty).bind_chan)(&b, 0, h, obj).expect("bind");
        let side = (o(ty).bind_chan)(&b, 1, h, obj).expect("bind");
        let mut want = start.clone();
        for _ in 0..depth {
            let p = ch.of(&CHAN_WRITES);
            let e = ch.pick(9);
            let at = want.len() / 2;
            match e {
                0 => want.push((9f64.to_bits(), 1)),
                1 => want.insert(0, (f64::NAN.to_bits(), 0)),
                2 => {
                    if !want.is_empty() {
                        want.remove(at);
                    }
                }
                3 => {
                    let n = want.len();
                    if n > 1 {
                        want.swap(0, n - 1)
                    }
                }
                4 => want.clear(),
                5 => want.truncate(1),
                6 => want.reverse(),
                7 => want.sort_by(|a, b| b.cmp(a)),
                _ => {
                    if let Some(x) = want.last_mut() {
                        *x = (3f64.to_bits(), 0)
                    }
                }
            }
            ch.log(|| format!("edit {e} through {p:?}: {want:?}"));
            if !edit(ty, &mut b, raw, p, e) {
                return viol("edit", format!("no mutable access through {p:?}"));
            }
            ch.step();
            for p in CHAN_READS {
                let got = (o(ty).read_chan)(&mut b, raw, p);
                ensure!(got.as_ref() == Some(&want), "edited", "{} reads {got:?} through {p:?} instead of {want:?}", NAMES[ty]);
            }
            let got = (o(ty).read_chan)(&mut b, side, Path::Typed);
            ensure!(got.as_ref() == Some(&start), "edit-elsewhere", "the other channel reads {got:?}");
            ch.state(fnv(ty as u64, hash_of(&want)));
        }
        Ok(())
    });
}

/// Edits the keyframes in place, through the given path.
fn edit(ty: usize, b: &mut Baseline, raw: arena::generational_arena::Index, p: Path, e: usize) -> bool {
    macro_rules! go { ($($n:literal $t:ty),+) => { match ty { $($n => edit_t::<$t>(b, raw, p, e),)+ _ => panic!("HARNESS: type") } } }
    go!(9 f32, 11 String, 0 u8, 12 tp_client::object::ObjectHandle, 25 Vec<String>, 19 Vec<i16>)
}
fn edit_t<T: Prop>(b: &mut Baseline, raw: arena::generational_arena::Index, p: Path, e: usize) -> bool {
    use tp_client::contract::properties::channels::{ChannelHandle, IChannelHandle};
    let h: ChannelHandle<T> = arena::Index::new(raw);
    let f = |c: &mut Channel<T>| {
        let v = c.keyframes_mut();
        let at = v.len() / 2;
        let kf = |t: f64, i: u8| Keyframe::new(val::<T>(i), t);
        match e {
            0 => v.push(kf(9.0, 1)),
            1 => v.insert(0, kf(f64::NAN, 0)),
            2 => {
                if !v.is_empty() {
                    v.remove(at);
                }
            }
            3 => {
                let n = v.len();
                if n > 1 {
                    v.swap(0, n - 1)
                }
            }
            4 => v.clear(),
            5 => v.truncate(1),
            6 => v.reverse(),
            7 => v.sort_by(|a, b| (b.time().to_bits(), decode(b.value())).cmp(&(a.time().to_bits(), decode(a.value())))),
            _ => {
                if let Some(x) = v.last_mut() {
                    *x = kf(3.0, 0)
                }
            }
        }
    };
    match p {
        Path::TypedMut => b.channel_mut(h).map(f).is_ok(),
        Path::HandleMut => IChannelHandle::get_mut(&h, b).map(f).is_ok(),
        Path::DynHandleMut => match IChannelHandle::get_mut(&T::chan_handle(h), b) {
            Ok(c) => T::chan_mut(c).map(f).is_some(),
            Err(_) => false,
        },
        _ => {
            f(&mut b[h]);
            true
        }
    }
}
