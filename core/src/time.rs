//! Time arithmetic (C13), time warps (C14) and tweens (C16).
use mc_core::world::*;
use mcx::{catch, ensure, fnv, viol, Ch, Ctx, Res};
use tp_client::action::property::{PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::misc::{IntTweenable, JumpTweenable};
use tp_client::engine::Engine;
use tp_client::realm::{Realm, RealmID};
use tp_client::time::{ChannelTime, RealmTime, Ticks, TimeScale, TimeWarp};

fn sat(x: i128) -> i32 {
    x.clamp(i32::MIN as i128, i32::MAX as i128) as i32
}
/// Every power of two and its neighbours, both signs, and the neighbourhood of the ends.
fn boundary(near: i64) -> Vec<i32> {
    let mut v = vec![];
    let mut add = |x: i64| {
        if let Ok(x) = i32::try_from(x) {
            v.push(x)
        }
    };
    for k in 0..=31 {
        for d in -near..=near {
            add((1i64 << k) + d);
            add(-(1i64 << k) + d);
        }
    }
    for d in 0..=near {
        for c in [999, 1000, 1023, 1024, 1025, 60_000, 3_600_000, 1_000_000_000] {
            add(c + d);
            add(-c - d);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Runs of tick values: all of them (thorough), or dense windows around 0 and every power of two.
fn windows(ctx: &Ctx) -> (Vec<(i64, i64)>, &'static str) {
    if !ctx.quick() {
        const N: i64 = 4096;
        let span = (1i64 << 32) / N;
        return ((0..N).map(|i| (i32::MIN as i64 + i * span, i32::MIN as i64 + (i + 1) * span)).collect(), "all 2^32 tick values");
    }
    let mut v = vec![];
    for i in -250..250 {
        v.push((i * 20_000, (i + 1) * 20_000));
    }
    for k in 22..=31 {
        for c in [1i64 << k, -(1i64 << k)] {
            v.push(((c - 200_000).max(i32::MIN as i64), (c + 200_000).min(i32::MAX as i64 + 1)));
        }
    }
    (v, "all tick values in +-5000000 and within 200000 of each power of two of either sign")
}

pub fn c13(ctx: &Ctx) {
    let near = ctx.by(8, 40);
    let b = boundary(near);
    ctx.note("boundary_values", b.len());
    ctx.explore("arithmetic", 1, &format!("all pairs of {} boundary values (each power of two +-{near}, both signs): addition, subtraction, their assigning forms and all comparisons of Ticks, ChannelTime and RealmTime", b.len()), |ch| {
        let a = ch.of(&b);
        ch.log(|| format!("{a} with {} values", b.len()));
        for &c in &b {
            arith(a, c)?;
        }
        ch.steps(b.len() as u64);
        ch.state(fnv(1, a as u64));
        ch.outcome(a.signum() as u64);
        Ok(())
    });
    ctx.explore("dense-arithmetic", 1, "all pairs in -300..=300", |ch| {
        let a = ch.pick(601) as i32 - 300;
        ch.log(|| format!("{a} with -300..=300"));
        for c in -300..=300 {
            arith(a, c)?;
        }
        ch.steps(601);
        ch.state(fnv(2, a as u64));
        Ok(())
    });
    let (wins, what) = windows(ctx);
    ctx.explore("conversions", 1, &format!("{what}: new, as_millis, as_millis_i64, as_secs, as_secs_f32"), |ch| {
        let (lo, hi) = ch.of(&wins);
        ch.log(|| format!("{lo}..{hi}"));
        let per = Ticks::ticks_per_second();
        ensure!(per == 1000, "ticks-per-second", "ticks_per_second is {per}, the unit of as_millis says 1000");
        for x in lo..hi {
            let t = Ticks::new(x as i32);
            let s = t.as_secs_f32();
            let exact = x as f64 / 1000.0;
            if t.as_millis() as i64 != x || t.as_millis_i64() != x || t.as_secs() as i64 != x / 1000 || !((s as f64 - exact).abs() <= exact.abs() * 3e-7) {
                return viol("conversion", format!("Ticks::new({x}): as_millis {}, as_millis_i64 {}, as_secs {}, as_secs_f32 {s}", t.as_millis(), t.as_millis_i64(), t.as_secs()));
            }
        }
        ch.steps((hi - lo) as u64);
        ch.state(fnv(3, lo as u64));
        Ok(())
    });
    let depth = ctx.by(5, 6);
    ctx.explore("ticking", 2, &format!("all sequences of {depth} steps over 9 tick amounts and empty, accepted and rejected collactions, observed after each step"), move |ch| {
        let mut realm = Realm::new(RealmID::new("r".into()));
        let start = RealmTime::default();
        ensure!(realm.time() == start && realm.time().ticks().as_millis() == 0, "start", "a new realm starts at {:?}", realm.time());
        let _ = realm.baseline_mut(BaselineKind::Main);
        let (mut e, tx) = Engine::new(realm, None);
        let mut want = 0i32;
        for _ in 0..depth {
            ch.step();
            let amounts = [1, 1000, 0, -7, i32::MAX, i32::MIN, i32::MAX / 2 + 1, -1, 86_400_000];
            let op = ch.pick(amounts.len() + 3);
            match op {
                x if x < amounts.len() => {
                    e.tick(Ticks::new(amounts[x]));
                    want = sat(want as i128 + amounts[x] as i128);
                    ch.log(|| format!("tick {}", amounts[x]));
                }
                x => {
                    let kind = x - amounts.len();
                    if kind > 0 {
                        let actions = if kind == 1 { vec![] } else { vec![never()] };
                        ensure!(tx.send(Collaction::new(actions)).is_ok(), "send", "sending failed");
                    }
                    ch.log(|| ["apply (nothing pending)", "apply an empty collaction", "apply a rejected collaction"][kind].into());
                    match (kind, e.try_apply()) {
                        (0, Err(_)) => {}
                        (1, Ok(Ok(_))) => {}
                        (2, Ok(Err(_))) => {}
                        (_, _) => return viol("apply", format!("unexpected outcome of apply ({kind})")),
                    }
                }
            }
            let t = e.realm().time();
            ensure!(t.ticks() == Ticks::new(want) && t.ticks().as_millis() == want && t == RealmTime::from(Ticks::new(want)), "realm-time", "realm time is {} instead of {want}", t.ticks().as_millis());
            ensure!((t > start) == (want > 0) && (t < start) == (want < 0), "realm-time-order", "realm time {want} compares wrongly with 0");
            ch.state(fnv(4, want as u64));
        }
        ch.outcome(want as u64);
        Ok(())
    });
    let pend: Vec<usize> = ctx.by(vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 1000, 1025, 4097, 66000], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4095, 4097, 10000, 66000, 140000]);
    ctx.explore("ticking with collactions pending", 1, &format!("{pend:?} collactions pending (all empty, all rejected, or mixed), unbounded or in a queue of exactly that capacity, the sender kept or gone, a tick of 4 amounts after 3 starting times before and after each of the next applies, by both apply calls; then the time is changed directly"), move |ch| {
        let n = ch.of(&pend);
        let kind = ch.pick(3);
        let bounded = ch.flip();
        let gone = ch.flip();
        let amount = ch.of(&[1i32, -7, 86_400_000, i32::MAX]);
        let start = ch.of(&[0i32, i32::MAX - 3, i32::MIN + 3]);
        ch.log(|| format!("{n} pending, kind {kind}, bounded {bounded}, sender gone {gone}, ticks of {amount} from {start}"));
        let (mut e, tx) = Engine::new(Realm::new(RealmID::new("r".into())), bounded.then_some(n));
        *e.realm_mut().time_mut().ticks_mut() = Ticks::new(start);
        let mut want = start;
        for k in 0..n {
            let bad = kind == 1 || kind == 2 && k % 3 == 1;
            ensure!(tx.try_send(Collaction::new(if bad { vec![never()] } else { vec![] })).is_ok(), "send", "collaction {k} of {n} was not accepted");
        }
        let mut tx = Some(tx);
        if gone {
            tx = None;
        }
        for k in 0..n.min(12) + 2 {
            for _ in 0..2 {
                e.tick(Ticks::new(amount));
                want = sat(want as i128 + amount as i128);
                ensure!(e.realm().time().ticks().as_millis() == want, "realm-time", "realm time is {} instead of {want} after {k} applies", e.realm().time().ticks().as_millis());
            }
            ch.step();
            let ok = if k % 2 == 0 { e.try_apply().is_ok() } else { e.apply_timeout(std::time::Duration::ZERO).is_ok() };
            ensure!(ok == (k < n), "apply", "apply {k} with {n} pending: {ok}");
            ensure!(e.realm().time().ticks().as_millis() == want, "realm-time", "apply {k} moved the time to {} from {want}", e.realm().time().ticks().as_millis());
        }
        let other = sat(-(want as i128) / 2);
        *e.realm_mut().time_mut().ticks_mut() = Ticks::new(other);
        e.tick(Ticks::new(amount));
        let want = sat(other as i128 + amount as i128);
        ensure!(e.realm().time().ticks().as_millis() == want, "realm-time", "realm time is {} instead of {want} after it was set to {other}", e.realm().time().ticks().as_millis());
        drop(tx);
        ch.state(fnv(fnv(n as u64, kind as u64), want as u64));
        Ok(())
    });
    let many = ctx.by(300_000, 2_000_000);
    ctx.explore("many ticks", 1, &format!("{many} ticks in a row, of one of 7 amounts or of amounts that alternate, are 1 in all or every 2, 3, 256 or 65536 ticks, from 3 starting times"), move |ch| {
        let amount = ch.of(&[1i32, -1, 0, 7, 1000, -65_536, i32::MAX]);
        let every = ch.of(&[1usize, 2, 3, 256, 65536]);
        let rest = ch.of(&[0i32, -1, 2]);
        let start = ch.of(&[0i32, i32::MAX - 100_000, i32::MIN + 100_000]);
        ch.log(|| format!("{many} ticks from {start}: {amount} at every {every}th, {rest} at the others"));
        let (mut e, _tx) = Engine::new(Realm::new(RealmID::new("r".into())), None);
        *e.realm_mut().time_mut().ticks_mut() = Ticks::new(start);
        let mut want = start;
        for k in 0..many {
            let a = if k % every == 0 { amount } else { rest };
            e.tick(Ticks::new(a));
            want = sat(want as i128 + a as i128);
            if e.realm().time().ticks().as_millis() != want {
                return viol("realm-time", format!("realm time is {} instead of {want} after {} ticks", e.realm().time().ticks().as_millis(), k + 1));
            }
        }
        ch.steps(many as u64);
        ch.state(fnv(fnv(amount as u64, every as u64), fnv(rest as u64, want as u64)));
        Ok(())
    });
}
fn never() -> Action {
    let h: tp_client::contract::properties::states::StateHandle<u8> = arena::Index::new(arena::generational_arena::Index::from_raw_parts(0, 0));
    Action::Property(PropertyAction::State(StateAction::Assert { data: 1u8.into(), handle: h.into() }))
}
fn arith(a: i32, c: i32) -> Res {
    let (x, y) = (Ticks::new(a), Ticks::new(c));
    let (add, sub) = (sat(a as i128 + c as i128), sat(a as i128 - c as i128));
    let mut xa = x;
    xa += y;
    let mut xs = x;
    xs -= y;
    ensure!((x + y).as_millis() == add && xa.as_millis() == add, "add", "{a} + {c} = {} / {} instead of {add}", (x + y).as_millis(), xa.as_millis());
    ensure!((x - y).as_millis() == sub && xs.as_millis() == sub, "sub", "{a} - {c} = {} / {} instead of {sub}", (x - y).as_millis(), xs.as_millis());
    macro_rules! order {
        ($p:expr, $q:expr, $n:literal) => {
            let (p, q) = ($p, $q);
            ensure!(
                p.cmp(&q) == a.cmp(&c) && p.partial_cmp(&q) == Some(a.cmp(&c)) && (p == q) == (a == c) && (p < q) == (a < c) && (p <= q) == (a <= c) && (p > q) == (a > c) && (p >= q) == (a >= c) && (p != q) == (a != c) && p.max(q) == if a > c { p } else { q },
                "order", "{} {a} and {c} compare as {:?}", $n, p.cmp(&q)
            );
        };
    }
    order!(x, y, "Ticks");
    order!(ChannelTime::from(x), ChannelTime::from(y), "ChannelTime");
    order!(RealmTime::from(x), RealmTime::from(y), "RealmTime");
    let mut r = RealmTime::from(x);
    *r.ticks_mut() += y;
    ensure!(r.ticks().as_millis() == add && ChannelTime::from(x).ticks() == x && Ticks::from(a) == x, "time-add", "RealmTime {a} += {c} = {}", r.ticks().as_millis());
    Ok(())
}

fn warp_ref(p: i32, o: i32, s: i32) -> i32 {
    let d = sat(p as i128 - o as i128) as i128;
    sat((d * s as i128).div_euclid(1024))
}
/// All parents, in increasing order, under one offset and scale.
fn warps(ps: &[i32], o: i32, s: i32) -> Res {
    let w = TimeWarp { offset: Ticks::new(o), scale: TimeScale::from(s) };
    let w2 = w.clone();
    let w3 = TimeWarp::from((Ticks::new(o), TimeScale::from(s)));
    let mut last: Option<ChannelTime> = None;
    for &p in ps {
        let want = warp_ref(p, o, s);
        let ct = ChannelTime::from(Ticks::new(p));
        let a = w.apply(ct);
        let others = [ct.warp(&w), w2.apply(ct), w3.apply(ct)];
        if a.ticks().as_millis() != want || others.iter().any(|x| *x != a) {
            return viol("warp", format!("parent {p}, offset {o}, scale {s}/1024: {} ({others:?}) instead of {want}", a.ticks().as_millis()));
        }
        if let Some(l) = last {
            ensure!(if s > 0 { a >= l } else if s < 0 { a <= l } else { a == l }, "monotone", "offset {o}, scale {s}: parent {p} gives {a:?} after {l:?}");
        }
        last = Some(a);
        // the factors by themselves
        let want = sat((p as i128 * s as i128).div_euclid(1024));
        let m = Ticks::new(p) * TimeScale::from(s);
        let mut n = Ticks::new(p);
        n *= TimeScale::from(s);
        ensure!(m.as_millis() == want && n == m, "scale", "{p} * {s}/1024 = {} / {} instead of {want}", m.as_millis(), n.as_millis());
    }
    Ok(())
}
pub fn c14(ctx: &Ctx) {
    let near = ctx.by(2, 5);
    let b = boundary(near);
    ctx.note("boundary_values", b.len());
    ctx.explore("grid", 2, &format!("all triples of parent, offset and scale over {} boundary values each", b.len()), |ch| {
        let (o, s) = (ch.of(&b), ch.of(&b));
        ch.log(|| format!("offset {o}, scale {s}"));
        warps(&b, o, s)?;
        ch.steps(b.len() as u64);
        ch.state(fnv(fnv(1, o as u64), s as u64));
        Ok(())
    });
    let (lim, offs): (i32, &[i32]) = ctx.by((1100, &[0, 1, -513]), (2100, &[0, 1, -1, 500, -513, i32::MAX, i32::MIN]));
    ctx.explore("dense", 2, &format!("all parents and scales in +-{lim} for the offsets {offs:?}, relative to the offset"), move |ch| {
        let o = ch.of(offs);
        let s = ch.pick(2 * lim as usize + 1) as i32 - lim;
        let ps: Vec<i32> = (-lim..=lim).map(|p| sat(p as i128 + o as i128)).collect();
        ch.log(|| format!("offset {o}, scale {s}"));
        warps(&ps, o, s)?;
        ch.steps(ps.len() as u64);
        ch.state(fnv(fnv(2, o as u64), s as u64));
        Ok(())
    });
    let (wins, what) = windows(ctx);
    ctx.explore("identity", 1, &format!("the default warp, on {what}"), |ch| {
        let (lo, hi) = ch.of(&wins);
        ch.log(|| format!("parents {lo}..{hi}"));
        let w = TimeWarp::default();
        ensure!(w.scale == TimeScale::from(1024) && w.offset == Ticks::new(0) && TimeScale::default() == w.scale, "default-warp", "the default warp is {w:?}");
        for p in lo..hi {
            let t = ChannelTime::from(Ticks::new(p as i32));
            if w.apply(t) != t {
                return viol("identity", format!("the default warp takes {p} to {}", w.apply(t).ticks().as_millis()));
            }
        }
        ch.steps((hi - lo) as u64);
        ch.state(fnv(3, lo as u64));
        Ok(())
    });
    ctx.explore("scales", 1, "accessors of every boundary scale", |ch| {
        let s = ch.of(&b);
        let t = TimeScale::from(s);
        ch.step();
        ch.log(|| format!("scale {s}"));
        ensure!(TimeScale::denominator() == 1024 && TimeScale::denominator_as_log2() == 10, "denominator", "the denominator is {}", TimeScale::denominator());
        let exact = s as f64 / 1024.0;
        ensure!(t.numerator() == s && t.numerator_as_i64() == s as i64 && t.as_f64() == exact && (t.as_f32() as f64 - exact).abs() <= exact.abs() * 3e-7, "scale-accessors", "scale {s}: {} {} {} {}", t.numerator(), t.numerator_as_i64(), t.as_f32(), t.as_f64());
        ch.state(fnv(4, s as u64));
        Ok(())
    });
    let few = [0, 1, -1, 1024, 512, 2048, -512, 4096, i32::MAX, i32::MIN];
    ctx.explore("objects", 2, "two objects, every pair of warps over 10 offsets and scales set on one of them in two steps: the other keeps the identity", move |ch| {
        let sh = shape(&[], &[]);
        set_shape(0, sh);
        let mut b = Baseline::new(BaselineKind::Main);
        let h = (k(0).reg)(&mut b).expect("register");
        let a = (k(0).create)(&mut b, h, vec![], vec![], false).expect("create");
        let c = (k(0).create)(&mut b, h, vec![], vec![], false).expect("create");
        let (x, y) = if ch.flip() { (a, c) } else { (c, a) };
        let (o, s, o2) = (ch.of(&few), ch.of(&few), ch.of(&few));
        ch.log(|| format!("offset {o}, scale {s}, then offset {o2}"));
        for (o, s) in [(o, s), (o2, s)] {
            let w = b.object_mut(x).expect("object").time_warp_mut();
            *w = TimeWarp { offset: Ticks::new(o), scale: TimeScale::from(s) };
            for p in few {
                ch.step();
                let t = ChannelTime::from(Ticks::new(p));
                let (gx, gy) = (t.warp(b.object(x).expect("object").time_warp()), t.warp(b.object(y).expect("object").time_warp()));
                ensure!(gx.ticks().as_millis() == warp_ref(p, o, s), "object-warp", "object warped by ({o}, {s}) takes {p} to {gx:?}");
                ensure!(gy == t, "object-default-warp", "an untouched object's warp takes {p} to {gy:?}");
            }
        }
        ch.state(fnv(fnv(fnv(5, o as u64), s as u64), o2 as u64));
        Ok(())
    });
}

// ---- tweens ----

trait Int: keyframe::num_traits::PrimInt + keyframe::num_traits::AsPrimitive<f32> + keyframe::num_traits::FromPrimitive + std::fmt::Debug + Send + Sync + 'static {
    const N: &'static str;
}
macro_rules! ints { ($($t:ident),+) => { $(impl Int for $t { const N: &'static str = stringify!($t); })+ } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

/// Progress values in increasing order, from exactly 0 to exactly 1.
fn progress(n: u32) -> Vec<f64> {
    let mut v: Vec<f64> = (0..=n).map(|i| i as f64 / n as f64).collect();
    v.extend([f64::MIN_POSITIVE, 1e-300, f32::MIN_POSITIVE as f64, 1.0 - f64::EPSILON / 2.0, 1.0 - f32::EPSILON as f64 / 2.0, 0.1, 0.3, 1.0 / 3.0, 0.999999, 0.5 - 1e-9, 0.5 + 1e-9]);
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup();
    v
}
fn tween<T: Int>(a: T, b: T, grid: &[f64]) -> Res {
    use keyframe::CanTween;
    let n = |x: T| x.to_i128().unwrap();
    let (lo, hi, up) = (a.min(b), a.max(b), b >= a);
    for f in [32, 64] {
        let mut last = a;
        for &p in grid {
            let p = if f == 32 { p as f32 as f64 } else { p };
            let r = catch(|| if f == 32 { IntTweenable::ease(IntTweenable(a), IntTweenable(b), p as f32).0 } else { IntTweenable::ease(IntTweenable(a), IntTweenable(b), p).0 });
            let r = match r {
                Ok(r) => r,
                Err((m, l)) => return viol("panic", format!("{} from {a:?} to {b:?} at {p} (f{f}) panicked: {m} at {l}", T::N)),
            };
            let at = || format!("{} from {a:?} to {b:?} at progress {p} (f{f}) gives {r:?}", T::N);
            if p == 0.0 && r != a {
                return viol("start", at());
            }
            if p == 1.0 && r != b {
                return viol("target", at());
            }
            if r < lo || r > hi {
                return viol("between", at());
            }
            if (up && r < last) || (!up && r > last) {
                return viol("monotone", format!("{}, after {last:?}", at()));
            }
            // at the middle it is about half-way (within one and the float's precision)
            if p == 0.5 {
                let mid = n(a) + (n(b) - n(a)) / 2;
                let tol = 1 + (n(b) - n(a)).abs() / (1 << 20);
                if (n(r) - mid).abs() > tol {
                    return viol("half-way", at());
                }
            }
            last = r;
        }
    }
    Ok(())
}
fn overshoot<T: Int>(a: T, b: T) -> Res {
    use keyframe::CanTween;
    for p in [-0.5, -1.0, -2.5, 1.5, 2.0, 1e30, -1e30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        if let Err((m, l)) = catch(|| (IntTweenable::ease(IntTweenable(a), IntTweenable(b), p), IntTweenable::ease(IntTweenable(a), IntTweenable(b), p as f32))) {
            return viol("panic", format!("{} from {a:?} to {b:?} at {p} panicked: {m} at {l}", T::N));
        }
    }
    Ok(())
}
fn eased<T: Int>(a: T, b: T) -> Res {
    use keyframe::functions::*;
    let (lo, hi) = (a.min(b), a.max(b));
    macro_rules! each { ($($f:ident),+) => { $(
        for i in 0..=8 {
            let p = i as f64 / 8.0;
            let r = keyframe::ease($f, IntTweenable(a), IntTweenable(b), p).0;
            let bad = r < lo || r > hi || (i == 0 && r != a) || (i == 8 && r != b);
            if bad { return viol("eased", format!("{} from {a:?} to {b:?} at {p} through {}: {r:?}", T::N, stringify!($f))); }
        }
    )+ } }
    each!(Linear, EaseIn, EaseOut, EaseInOut, EaseInCubic, Step);
    Ok(())
}
fn ints<T: Int>(near: i64) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let mut add = |x: i128| {
        if let Some(x) = <T as keyframe::num_traits::NumCast>::from(x) {
            v.push(x)
        }
    };
    for k in 0..=64 {
        for d in -near as i128..=near as i128 {
            add((1i128 << k) + d);
            add(-(1i128 << k) + d);
        }
    }
    add(0);
    add(100);
    add(-100);
    add(T::max_value().to_i128().unwrap());
    add(T::min_value().to_i128().unwrap());
    v.sort();
    v.dedup();
    v
}
fn wide<T: Int>(ch: &mut Ch, near: i64, grid: &[f64]) -> Res {
    let v = ints::<T>(near);
    let a = v[ch.pick(v.len())];
    ch.log(|| format!("{} from {a:?} to each of {} values", T::N, v.len()));
    for &b in &v {
        tween(a, b, grid)?;
        overshoot(a, b)?;
        eased(a, b)?;
    }
    ch.steps((v.len() * grid.len() * 2) as u64);
    ch.state(fnv(T::N.len() as u64 * 256 + T::N.as_bytes()[0] as u64, a.to_i128().unwrap() as u64));
    Ok(())
}
pub fn c16(ctx: &Ctx) {
    let grid = progress(ctx.by(64, 1024));
    ctx.note("progress_values", grid.len());
    ctx.explore("8-bit", 2, "all pairs of i8 and of u8 end points x all progress values, f32 and f64", |ch| {
        let signed = ch.flip();
        let i = ch.pick(256);
        ch.log(|| format!("{} from {i}", if signed { "i8" } else { "u8" }));
        for j in 0..256 {
            if signed {
                tween(i as u8 as i8, j as u8 as i8, &grid)?;
                overshoot(i as u8 as i8, j as u8 as i8)?;
                eased(i as u8 as i8, j as u8 as i8)?;
            } else {
                tween(i as u8, j as u8, &grid)?;
                overshoot(i as u8, j as u8)?;
                eased(i as u8, j as u8)?;
            }
        }
        ch.steps(256 * grid.len() as u64 * 2);
        ch.state(fnv(signed as u64 + 1, i as u64));
        Ok(())
    });
    let near = ctx.by(1, 3);
    ctx.explore("wide", 2, "all pairs of boundary end points (powers of two and neighbours) of the 16- to 64-bit types and usize / isize, same progress values", |ch| match ch.pick(8) {
        0 => wide::<u16>(ch, near, &grid),
        1 => wide::<u32>(ch, near, &grid),
        2 => wide::<u64>(ch, near, &grid),
        3 => wide::<usize>(ch, near, &grid),
        4 => wide::<i16>(ch, near, &grid),
        5 => wide::<i32>(ch, near, &grid),
        6 => wide::<i64>(ch, near, &grid),
        _ => wide::<isize>(ch, near, &grid),
    });
    let mut jp = grid.clone();
    jp.extend([-0.0, -0.25, -0.999, -1.0, -1.5, -2.0, -1e30, f64::NEG_INFINITY, 1.25, 1.999, 2.0, 3.5, 1e30, f64::INFINITY]);
    ctx.explore("jump", 1, "jump tweens of integers, floats, text and handles at every progress value, below 0 and above 1 included, f32 and f64", move |ch| {
        use keyframe::CanTween;
        let p = ch.of(&jp);
        let ty = ch.pick(4);
        ch.step();
        ch.log(|| format!("progress {p}"));
        for f in [32, 64] {
            let late = if f == 32 { p as f32 >= 1.0 } else { p >= 1.0 };
            macro_rules! go {
                ($a:expr, $b:expr) => {{
                    let r = if f == 32 { JumpTweenable::ease(JumpTweenable($a), JumpTweenable($b), p as f32).0 } else { JumpTweenable::ease(JumpTweenable($a), JumpTweenable($b), p).0 };
                    r == if late { $b } else { $a }
                }};
            }
            let ok = match ty {
                0 => go!(-2i32, 8i32),
                1 => go!("from".to_string(), "to".to_string()),
                2 => go!(1.5f64, f64::INFINITY),
                _ => go!(u64::MAX, 0u64),
            };
            ensure!(ok, "jump", "a jump tween at progress {p} (f{f}) gives the {}", if late { "start" } else { "target" });
        }
        ch.state(fnv(p.to_bits(), ty as u64));
        ch.outcome((p >= 1.0) as u64);
        Ok(())
    });
}
