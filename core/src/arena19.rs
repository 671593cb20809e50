//! The typed arena (C19).
use arena::generational_arena as ga;
use arena::{Arena, Index};
use mcx::{catch, ensure, fnv, hash_of, viol, Ch, Ctx, Res};
use std::cmp::Ordering;

type V = (u32, String);
/// The reference: every index ever issued, with its value while it lives.
#[derive(Clone, Default)]
struct Ref {
    all: Vec<(Index<V>, Option<V>)>,
    next: u32,
}
fn raw(i: Index<V>) -> (usize, u64) {
    ga::Index::from(i).into_raw_parts()
}
impl Ref {
    fn value(&mut self) -> V {
        self.next += 1;
        (self.next, format!("v{}", self.next))
    }
    fn add(&mut self, i: Index<V>, v: V) -> Res {
        ensure!(!self.all.iter().any(|x| raw(x.0) == raw(i)), "index-reused", "insert returned {i:?}, which was issued before");
        self.all.push((i, Some(v)));
        Ok(())
    }
    fn live(&self) -> Vec<((usize, u64), V)> {
        let mut v: Vec<_> = self.all.iter().filter_map(|(i, v)| v.clone().map(|v| (raw(*i), v))).collect();
        v.sort();
        v
    }
    fn hash(&self) -> u64 {
        let mut h = 0;
        for (i, v) in &self.all {
            h = fnv(fnv(fnv(h, raw(*i).0 as u64), raw(*i).1), v.as_ref().map_or(0, |v| v.0 as u64));
        }
        h
    }
}
/// Everything that can be observed without changing the arena.
fn observe(a: &mut Arena<V>, r: &Ref, full: bool) -> Res {
    let live = r.live();
    let n = live.len();
    ensure!(a.len() == n && a.is_empty() == (n == 0), "len", "len {} is_empty {} with {n} live entries", a.len(), a.is_empty());
    ensure!(a.capacity() >= n, "capacity", "capacity {} with {n} entries", a.capacity());
    for (i, v) in &r.all {
        ensure!(a.get(*i) == v.as_ref(), "get", "{i:?} yields {:?} instead of {v:?}", a.get(*i));
        ensure!(a.get_mut(*i).map(|x| x.clone()) == *v, "get-mut", "{i:?} yields {:?} mutably instead of {v:?}", a.get_mut(*i));
        ensure!(a.contains(*i) == v.is_some(), "contains", "contains({i:?}) is {}", a.contains(*i));
        match v {
            Some(v) => {
                ensure!(a[*i] == *v, "index", "[{i:?}] is {:?}", a[*i]);
                let m = &mut a[*i];
                ensure!(*m == *v, "index-mut", "[{i:?}] is {m:?} mutably");
            }
            None if full => {
                ensure!(catch(|| a[*i].clone()).is_err(), "index-dead", "[{i:?}] of a removed entry did not panic");
                ensure!(catch(|| a[*i] = (0, String::new())).is_err(), "index-dead", "[{i:?}] of a removed entry could be assigned");
            }
            None => {}
        }
    }
    for never in [(0, u64::MAX), (usize::MAX, 0), (n + 50, 1), (usize::MAX, u64::MAX)] {
        let i = Index::new(ga::Index::from_raw_parts(never.0, never.1));
        ensure!(a.get(i).is_none() && a.get_mut(i).is_none() && !a.contains(i), "never", "{i:?} was never issued but resolves");
    }
    // iteration: all mixes of front and back for short arenas, a few for longer ones
    let patterns: Vec<u32> = if n + 2 <= 6 { (0..1u32 << (n + 2)).collect() } else { vec![0, u32::MAX, 0x5555_5555, 0xaaaa_aaaa, 0x0f0f_0f0f] };
    for pat in patterns {
        let mut it = a.iter();
        let mut got = vec![];
        for k in 0..n + 2 {
            let left = n.saturating_sub(k);
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "iter-len", "after {k} of {n} steps: len {} hint {:?}", it.len(), it.size_hint());
            let it2 = it.clone();
            ensure!(k > 1 || it2.count() == left, "iter-clone", "a clone of the iterator after {k} of {n} steps does not have {left} left");
            let x = if pat >> (k % 32) & 1 == 1 { it.next_back() } else { it.next() };
            ensure!(x.is_some() == (k < n), "iter-end", "step {k} of {n} (pattern {pat:b}) yields {x:?}");
            got.extend(x.map(|(i, v)| (raw(i), v.clone())));
        }
        got.sort();
        ensure!(got == live, "iter", "iteration (pattern {pat:b}) yields {got:?} instead of {live:?}");
        let mut it = a.iter_mut();
        let mut got = vec![];
        for k in 0..n + 2 {
            let left = n.saturating_sub(k);
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "iter-mut-len", "after {k} of {n} steps: len {} hint {:?}", it.len(), it.size_hint());
            let x = if pat >> (k % 32) & 1 == 1 { it.next_back() } else { it.next() };
            ensure!(x.is_some() == (k < n), "iter-mut-end", "step {k} of {n} (pattern {pat:b}) yields {x:?}");
            got.extend(x.map(|(i, v)| (raw(i), v.clone())));
        }
        got.sort();
        ensure!(got == live, "iter-mut", "mutable iteration (pattern {pat:b}) yields {got:?} instead of {live:?}");
    }
    let f: Vec<_> = a.iter().map(|(i, _)| raw(i)).collect();
    let mut b: Vec<_> = a.iter().rev().map(|(i, _)| raw(i)).collect();
    b.reverse();
    ensure!(f == b, "iter-reverse", "forwards {f:?}, backwards reversed {b:?}");
    let m: Vec<_> = (&mut *a).into_iter().map(|(i, v)| (raw(i), v.clone())).collect();
    ensure!(m.iter().map(|x| x.0).eq(f.iter().copied()), "into-iter-mut", "&mut arena iterates {m:?}");
    Ok(())
}
/// Conversions, which consume (a clone of) the arena.
fn consume(a: &Arena<V>, r: &Ref) -> Res {
    let live = r.live();
    let mut c = a.clone();
    observe(&mut c, r, false)?;
    let mut vals: Vec<V> = c.into_iter().collect();
    vals.sort();
    let mut want: Vec<V> = live.iter().map(|x| x.1.clone()).collect();
    want.sort();
    ensure!(vals == want, "into-iter", "into_iter yields {vals:?} instead of {want:?}");
    let g: ga::Arena<V> = a.clone().into();
    ensure!(g.len() == live.len(), "into-inner", "the inner arena has {} entries", g.len());
    for (i, v) in &r.all {
        ensure!(g.get((*i).into()) == v.as_ref(), "into-inner", "the inner arena has {:?} at {i:?}", g.get((*i).into()));
    }
    let f: Arena<V> = want.iter().cloned().collect();
    let got: Vec<V> = f.iter().map(|x| x.1.clone()).collect();
    let mut sorted = got.clone();
    sorted.sort();
    ensure!(f.len() == want.len() && sorted == want, "from-iter", "collecting {want:?} gives {got:?}");
    for (i, v) in f.iter() {
        ensure!(f.get(i) == Some(v), "from-iter-index", "index {i:?} of a collected arena yields {:?}", f.get(i));
    }
    Ok(())
}
/// Every mix of steps from both ends and every way of consuming the rest, against the entries in the order in
/// which single steps forward yield them (`order`: their values).
fn walk<I: DoubleEndedIterator + ExactSizeIterator>(ch: &mut Ch, order: &[V], depth: usize, mut it: I, is: &dyn Fn(&I::Item, &V) -> bool) -> Res
where
    I::Item: std::fmt::Debug,
{
    let mut left: std::collections::VecDeque<&V> = order.iter().collect();
    let same = |got: &Option<I::Item>, want: Option<&V>| match (got, want) {
        (Some(g), Some(w)) => is(g, w),
        (None, None) => true,
        _ => false,
    };
    for _ in 0..depth {
        let n = left.len();
        ensure!(it.len() == n && it.size_hint() == (n, Some(n)), "iter-len", "len {} hint {:?} with {n} entries left", it.len(), it.size_hint());
        let op = ch.pick(12);
        ch.step();
        if op == 11 {
            break;
        }
        let skip = [0, 0, 1, 2, 3, n, usize::MAX][if op < 7 { op } else { op - 5 }].min(n + 1);
        let back = op == 1 || op >= 7;
        for _ in 0..skip {
            if back { left.pop_back() } else { left.pop_front() };
        }
        let want = if back { left.pop_back() } else { left.pop_front() };
        let n_arg = if (if op < 7 { op } else { op - 5 }) == 6 { usize::MAX } else { skip };
        let got = match op {
            0 => it.next(),
            1 => it.next_back(),
            2..=6 => it.nth(n_arg),
            _ => it.nth_back(n_arg),
        };
        ch.log(|| format!("{}{}({n_arg}) -> {got:?}", if op < 2 { "next" } else { "nth" }, if back { "_back" } else { "" }));
        ensure!(same(&got, want), "iter-step", "yields {got:?} instead of {want:?}");
    }
    let want: Vec<&V> = left.into_iter().collect();
    let n = want.len();
    ensure!(it.len() == n && it.size_hint() == (n, Some(n)), "iter-len", "len {} hint {:?} with {n} entries left", it.len(), it.size_hint());
    let k = ch.pick(4);
    let end = ch.pick(15);
    ch.step();
    ch.log(|| format!("{} ({k})", ["count", "last", "rev + last", "fold", "rfold", "for_each", "skip", "rev + skip", "step_by", "rev + step_by", "find", "rfind", "position", "rposition", "by_ref + take"][end]));
    let at = |i: usize| want.get(i).copied();
    let (got, expect): (Vec<I::Item>, Vec<&V>) = match end {
        0 => {
            let c = it.count();
            ensure!(c == n, "iter-count", "count gives {c} with {n} entries left");
            (vec![], vec![])
        }
        1 => (it.last().into_iter().collect(), want.last().copied().into_iter().collect()),
        2 => (it.rev().last().into_iter().collect(), want.first().copied().into_iter().collect()),
        3 => (it.fold(vec![], |mut v, x| { v.push(x); v }), want.clone()),
        4 => (it.rfold(vec![], |mut v, x| { v.push(x); v }), want.iter().rev().copied().collect()),
        5 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            (v, want.clone())
        }
        6 => (it.skip(k).collect(), want.iter().skip(k).copied().collect()),
        7 => (it.rev().skip(k).collect(), want.iter().rev().skip(k).copied().collect()),
        8 => (it.step_by(k + 1).collect(), want.iter().step_by(k + 1).copied().collect()),
        9 => (it.rev().step_by(k + 1).collect(), want.iter().rev().step_by(k + 1).copied().collect()),
        10 => {
            let f = it.find(|x| at(k).map_or(false, |w| is(x, w)));
            let mut g: Vec<I::Item> = f.into_iter().collect();
            let mut e: Vec<&V> = at(k).into_iter().collect();
            g.extend(it);
            e.extend(want.iter().skip(k + 1).copied());
            (g, e)
        }
        11 => {
            let f = it.rfind(|x| at(k).map_or(false, |w| is(x, w)));
            let mut g: Vec<I::Item> = f.into_iter().collect();
            let mut e: Vec<&V> = at(k).into_iter().collect();
            g.extend(it);
            e.extend(want.iter().take(if k < n { k } else { 0 }).copied());
            (g, e)
        }
        12 => {
            let p = it.position(|x| at(k).map_or(false, |w| is(&x, w)));
            ensure!(p == (k < n).then_some(k), "iter-position", "position gives {p:?} for entry {k} of {n} left");
            (vec![], vec![])
        }
        13 => {
            let p = it.rposition(|x| at(k).map_or(false, |w| is(&x, w)));
            ensure!(p == (k < n).then_some(k), "iter-position", "rposition gives {p:?} for entry {k} of {n} left");
            (vec![], vec![])
        }
        _ => {
            let mut v: Vec<I::Item> = it.by_ref().take(k).collect();
            ensure!(it.len() == n.saturating_sub(k), "iter-len", "len {} after taking {k} of {n}", it.len());
            v.extend(it.by_ref());
            ensure!(it.next().is_none() && it.next_back().is_none() && it.nth(k).is_none() && it.nth_back(k).is_none() && it.len() == 0, "iter-fused", "the exhausted iterator yields more");
            (v, want.clone())
        }
    };
    ensure!(got.len() == expect.len() && got.iter().zip(&expect).all(|(g, w)| is(g, w)), "iter-adaptor", "yields {got:?} instead of {expect:?}");
    ch.state(fnv(fnv(end as u64, k as u64), n as u64));
    Ok(())
}
fn start(ch: &mut Ch, r: &mut Ref) -> Res<Arena<V>> {
    let n = ch.pick(9);
    ch.log(|| ["new", "default", "with_capacity(0)", "with_capacity(1)", "with_capacity(5)", "collected from 0", "collected from 3", "dense, 3 inserted", "sparse: 5 inserted, 3 removed"][n].into());
    let mut a = match n {
        0 => Arena::new(),
        1 => Arena::default(),
        2 => Arena::with_capacity(0),
        3 => Arena::with_capacity(1),
        4 => Arena::with_capacity(5),
        5 | 6 => {
            let vs: Vec<V> = (0..if n == 5 { 0 } else { 3 }).map(|_| r.value()).collect();
            let a: Arena<V> = vs.iter().cloned().collect();
            let idx: Vec<_> = a.iter().map(|(i, v)| (i, v.clone())).collect();
            ensure!(idx.len() == vs.len(), "from-iter", "collecting {vs:?} gives {idx:?}");
            for (i, v) in idx {
                r.add(i, v)?
            }
            a
        }
        _ => Arena::new(),
    };
    if n >= 4 && n < 5 {
        ensure!(a.capacity() >= 5, "with-capacity", "with_capacity(5) has capacity {}", a.capacity());
    }
    if n >= 7 {
        for _ in 0..if n == 7 { 3 } else { 5 } {
            let v = r.value();
            r.add(a.insert(v.clone()), v)?;
        }
        if n == 8 {
            for k in [3, 0, 4] {
                let got = a.remove(r.all[k].0);
                let want = r.all[k].1.take();
                ensure!(got == want, "remove", "remove gave {got:?}");
            }
        }
    }
    Ok(a)
}

pub fn c19(ctx: &Ctx) {
    let depth = ctx.by(5, 7);
    ctx.explore("histories", 3, &format!("all sequences of {depth} operations (insert, remove any index ever issued or never issued, write through get_mut / index / iter_mut, reserve, clone and go on with the clone) from 9 starting arenas; complete observation after each"), move |ch| {
        let mut r = Ref::default();
        let mut a = start(ch, &mut r)?;
        let mut kept: Option<(Arena<V>, Ref)> = None;
        if ch.fresh() {
            observe(&mut a, &r, true)?;
        }
        for _ in 0..depth {
            // remove: the 4 oldest and the newest index; equal positions beyond are symmetric
            let n = r.all.len();
            let cand: Vec<usize> = if n <= 5 { (0..n).collect() } else { vec![0, 1, n - 3, n - 2, n - 1] };
            let op = ch.pick(5 + cand.len());
            ch.step();
            match op {
                0 => {
                    let v = r.value();
                    let i = a.insert(v.clone());
                    ch.log(|| format!("insert -> {i:?}"));
                    r.add(i, v)?;
                }
                1 => {
                    ch.log(|| "write to every entry".into());
                    let live: Vec<usize> = (0..r.all.len()).filter(|i| r.all[*i].1.is_some()).collect();
                    for (k, j) in live.iter().enumerate() {
                        let v = r.value();
                        let i = r.all[*j].0;
                        match k % 2 {
                            0 => *a.get_mut(i).unwrap() = v.clone(),
                            _ => a[i] = v.clone(),
                        }
                        r.all[*j].1 = Some(v);
                    }
                }
                2 => {
                    ch.log(|| "write through iter_mut".into());
                    let base = r.next;
                    for (i, v) in a.iter_mut() {
                        v.0 += 1000 + base;
                        if let Some(x) = r.all.iter_mut().find(|x| raw(x.0) == raw(i)) {
                            if let Some(x) = &mut x.1 {
                                x.0 += 1000 + base
                            }
                        }
                    }
                }
                3 => {
                    let extra = r.all.len() % 4;
                    let len = a.len();
                    a.reserve(extra);
                    ch.log(|| format!("reserve({extra})"));
                    ensure!(a.capacity() >= len + extra, "reserve", "capacity {} after reserve({extra}) with {len} entries", a.capacity());
                }
                4 => {
                    ch.log(|| "clone, go on with the clone".into());
                    let c = a.clone();
                    kept = Some((std::mem::replace(&mut a, c), r.clone()));
                }
                x => {
                    let k = cand[x - 5];
                    let i = r.all[k].0;
                    let got = a.remove(i);
                    let want = r.all[k].1.take();
                    ch.log(|| format!("remove({i:?}) -> {got:?}"));
                    ensure!(got == want, "remove", "remove({i:?}) gave {got:?} instead of {want:?}");
                }
            }
            if ch.fresh() {
                observe(&mut a, &r, true)?;
                if let Some((k, kr)) = &mut kept {
                    observe(k, kr, false)?;
                }
                consume(&a, &r)?;
                ch.state(r.hash());
            }
        }
        let i = Index::new(ga::Index::from_raw_parts(77, 3));
        if a.remove(i).is_some() {
            return viol("remove-never", "removing an index never issued gave a value");
        }
        ch.outcome(r.live().len() as u64);
        Ok(())
    });
    let steps = ctx.by(3, 4);
    ctx.explore("iterator steps", 3, &format!("all sequences of up to {steps} steps (next, nth of 0 to 3, to the end and far past it, from either end) and 15 ways of consuming the rest, for shared, mutable and consuming iteration over arenas of 0 to 14 entries, dense and with holes"), move |ch| {
        let n = ch.of(&[0usize, 1, 2, 3, 5, 14]);
        let holes = ch.pick(3);
        let kind = ch.pick(3);
        let mut r = Ref::default();
        let mut a: Arena<V> = Arena::new();
        let mut idx = vec![];
        // 0: dense; 1: one hole before, between and after; 2: runs of holes
        for k in 0..n {
            for _ in 0..[0, 1, k % 3 * 2][holes] {
                idx.push((a.insert((9999, "gone".into())), true));
            }
            idx.push((a.insert(r.value()), false));
        }
        for _ in 0..holes {
            idx.push((a.insert((9999, "gone".into())), true));
        }
        for (i, gone) in &idx {
            if *gone {
                a.remove(*i);
            }
        }
        ch.log(|| format!("{n} entries, holes {holes}, {}", ["iter", "iter_mut", "into_iter"][kind]));
        let mut order = vec![];
        let mut where_ = std::collections::HashMap::new();
        let mut it = a.iter();
        while let Some((i, v)) = it.next() {
            order.push(v.clone());
            where_.insert(v.0, raw(i));
        }
        ensure!(order.len() == n, "iter", "{} of {n} entries", order.len());
        match kind {
            0 => walk(ch, &order, steps, a.iter(), &|x, v| *x.1 == *v && where_[&v.0] == raw(x.0)),
            1 => walk(ch, &order, steps, a.iter_mut(), &|x, v| *x.1 == *v && where_[&v.0] == raw(x.0)),
            _ => {
                let order: Vec<V> = order;
                let mut c = a.clone().into_iter();
                let mut same = vec![];
                while let Some(v) = c.next() {
                    same.push(v);
                }
                let mut sorted = (same.clone(), order.clone());
                sorted.0.sort();
                sorted.1.sort();
                ensure!(sorted.0 == sorted.1, "into-iter", "into_iter yields {same:?} instead of {order:?}");
                walk(ch, &same, steps, a.into_iter(), &|x, v| x == v)
            }
        }
    });
    let big: Vec<usize> = ctx.by(vec![300, 1100, 66000], vec![300, 1100, 4200, 66000, 140000]);
    ctx.explore("large", 1, &format!("{big:?} entries, inserted or collected, removed in 5 patterns, then half as many inserted again; complete observation after each"), move |ch| {
        let n = ch.of(&big);
        let pat = ch.pick(5);
        let collected = ch.flip();
        ch.log(|| format!("{n} entries, pattern {pat}, collected {collected}"));
        let mut r = Ref::default();
        let mut ever = std::collections::HashSet::new();
        let mut a: Arena<V> = Arena::new();
        if collected {
            let vs: Vec<V> = (0..n).map(|_| r.value()).collect();
            a = vs.iter().cloned().collect();
            for (i, v) in a.iter() {
                ensure!(ever.insert(raw(i)), "index-reused", "{i:?} stands for two entries");
                r.all.push((i, Some(v.clone())));
            }
        } else {
            for _ in 0..n {
                let v = r.value();
                let i = a.insert(v.clone());
                ensure!(ever.insert(raw(i)), "index-reused", "insert returned {i:?}, which was issued before");
                r.all.push((i, Some(v)));
            }
        }
        ensure!(r.all.len() == n, "len", "{} of {n} entries", r.all.len());
        ch.step();
        observe(&mut a, &r, false)?;
        let gone: Vec<usize> = match pat {
            0 => (0..n).collect(),
            1 => (0..n).rev().filter(|i| i % 2 == 1).collect(),
            2 => (0..n / 2).collect(),
            3 => (n / 2..n).rev().collect(),
            _ => (0..n).filter(|i| i % 256 == 255 || i % 256 == 0).collect(),
        };
        for k in gone {
            let got = a.remove(r.all[k].0);
            let want = r.all[k].1.take();
            ensure!(got == want, "remove", "remove of entry {k} gave {got:?} instead of {want:?}");
        }
        ch.step();
        observe(&mut a, &r, false)?;
        for _ in 0..n / 2 {
            let v = r.value();
            let i = a.insert(v.clone());
            ensure!(ever.insert(raw(i)), "index-reused", "insert returned {i:?}, which was issued before");
            r.all.push((i, Some(v)));
        }
        ch.step();
        observe(&mut a, &r, false)?;
        consume(&a, &r)?;
        ch.state(r.hash());
        Ok(())
    });
    let cycles = ctx.by(66000, 140000);
    ctx.explore("reuse", 1, &format!("{cycles} rounds of removing and inserting 1 to 4 of 1 to 6 entries, from front or back; no index ever repeats"), move |ch| {
        let n = 1 + ch.pick(6);
        let k = (1 + ch.pick(4)).min(n);
        let back = ch.flip();
        let mut a: Arena<V> = Arena::new();
        let mut ever = std::collections::HashSet::new();
        let mut cur: Vec<Index<V>> = vec![];
        ch.log(|| format!("{n} entries, {k} replaced per round, back {back}"));
        for c in 0..cycles {
            while cur.len() < n {
                let i = a.insert((c as u32, "x".into()));
                ensure!(ever.insert(raw(i)), "index-reused", "round {c}: {i:?} was issued before");
                cur.push(i);
            }
            for _ in 0..k {
                let i = if back { cur.pop().unwrap() } else { cur.remove(0) };
                ensure!(a.remove(i).is_some() && a.get(i).is_none(), "remove", "round {c}: {i:?}");
            }
            ensure!(a.len() == n - k, "len", "round {c}: len {}", a.len());
            ch.step();
        }
        ch.state(fnv(fnv(n as u64, k as u64), back as u64));
        Ok(())
    });
    let vals: Vec<(usize, u64)> = {
        let g = [0u64, 1, 2, 255, 256, u32::MAX as u64, 1 << 32, u64::MAX];
        let i = [0usize, 1, 2, 255, 256, u32::MAX as usize, 1 << 32, usize::MAX];
        i.iter().flat_map(|i| g.iter().map(move |g| (*i, *g))).collect()
    };
    ctx.explore("indices", 1, "all triples of 64 indices: equality, order and hash agree with one another and with the raw parts; copies, clones and conversions are faithful", |ch| {
        let p = ch.of(&vals);
        let q = ch.of(&vals);
        ch.step();
        ch.log(|| format!("{p:?} {q:?}"));
        let mk = |p: (usize, u64)| Index::<V>::new(ga::Index::from_raw_parts(p.0, p.1));
        let (x, y) = (mk(p), mk(q));
        #[allow(clippy::clone_on_copy)]
        let c = x.clone();
        let copy = x;
        ensure!(raw(x) == p && raw(c) == p && raw(copy) == p, "index-conversion", "{p:?} became {x:?} / {c:?}");
        ensure!((x == y) == (p == q) && (x != y) == (p != q), "index-eq", "{x:?} == {y:?} is {}", x == y);
        ensure!(p != q || hash_of(&x) == hash_of(&y), "index-hash", "{x:?} hashes in two ways");
        let o = x.cmp(&y);
        ensure!(x.partial_cmp(&y) == Some(o) && y.cmp(&x) == o.reverse() && (o == Ordering::Equal) == (p == q), "index-order", "{x:?} and {y:?} compare as {o:?} / {:?} / {:?}", x.partial_cmp(&y), y.cmp(&x));
        ensure!((x < y) == (o == Ordering::Less) && (x <= y) == (o != Ordering::Greater), "index-order", "{x:?} < {y:?} disagrees with cmp");
        for r in &vals {
            let z = mk(*r);
            ensure!(!(x <= y && y <= z) || x <= z, "index-transitive", "{x:?} <= {y:?} <= {z:?}");
        }
        ch.steps(vals.len() as u64);
        ch.state(hash_of(&(p, q)));
        Ok(())
    });
}
