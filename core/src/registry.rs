//! Histories of registry, object and property operations (C01 to C06, C08, C09).
use mc_core::types::*;
use mc_core::world::*;
use mcx::{alloc, catch, ensure, viol, Ch, Ctx, Res};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::realm::{Realm, RealmID};

static CUT: AtomicU64 = AtomicU64::new(0);

/// Does a failure break the property being checked? (Failures of other properties end the run.)
fn concerns(prop: &str, f: &Fail) -> bool {
    use Cat::*;
    let removal = matches!(f.op, Op::Remove(..) | Op::Unregister(..)) && !f.refused;
    let write = matches!(f.op, Op::Write(..) | Op::WriteChan(..));
    let registry = matches!(f.op, Op::Register(_) | Op::Unregister(..) | Op::Create(..) | Op::Remove(..));
    match prop {
        "C01" => match f.cat {
            Member => true,
            Outcome => registry,
            Resolve => f.key.starts_with("contract") || f.key.starts_with("object") || matches!(f.op, Op::Unregister(..)),
            Panic => registry || f.key == "panic-observe",
            _ => false,
        },
        "C02" => matches!(f.cat, Resolve | Alias | Value) || f.key == "panic-observe",
        "C03" => matches!(f.cat, Value | Resolve) || (write && f.cat == Panic),
        "C04" => removal,
        "C05" => f.refused,
        "C06" => matches!(f.op, Op::Create(..)) && matches!(f.cat, Outcome | Value | Panic | Bind | Resolve),
        "C08" => f.cat == Bind || f.key.starts_with("panic-"),
        _ => panic!("HARNESS: no mask for {prop}"),
    }
}
fn judge(prop: &str, r: R) -> Res<bool> {
    match r {
        Ok(()) => Ok(true),
        Err(f) if concerns(prop, &f) => viol(f.key, f.msg),
        Err(_) => {
            CUT.fetch_add(1, Relaxed);
            Ok(false)
        }
    }
}

#[derive(Clone)]
struct Cfg {
    shapes: Vec<(usize, &'static Shape)>,
    start: Vec<Op>,
    alpha: fn(&Model, &[(usize, &'static Shape)]) -> Vec<Op>,
    depth: usize,
    obs: Depth,
    binding: bool,
}
fn run(prop: &str, ch: &mut Ch, c: &Cfg, kind: BaselineKind) -> Res {
    for (k, s) in &c.shapes {
        set_shape(*k, s);
    }
    let mut b = Baseline::new(kind);
    let mut m = Model::default();
    for op in &c.start {
        ch.log(|| format!("{op:?}"));
        if !judge(prop, m.apply(&mut b, *op))? {
            return Ok(());
        }
        if ch.fresh() && !judge(prop, m.observe(&mut b, kind, Depth::Light))? {
            return Ok(());
        }
    }
    for _ in 0..c.depth {
        let ops = (c.alpha)(&m, &c.shapes);
        if ops.is_empty() {
            break;
        }
        let op = ch.of(&ops);
        ch.log(|| format!("{op:?}"));
        ch.step();
        if !judge(prop, m.apply(&mut b, op))? {
            return Ok(());
        }
        if ch.fresh() {
            ch.state(m.hash());
            if !judge(prop, m.observe(&mut b, kind, c.obs))? {
                return Ok(());
            }
            if c.binding && !judge(prop, m.observe_binding(&mut b))? {
                return Ok(());
            }
        }
    }
    Ok(())
}

// ---- alphabets ----

fn kinds(s: &[(usize, &'static Shape)]) -> Vec<usize> {
    s.iter().map(|x| x.0).collect()
}
/// Registering and unregistering only.
fn a_ids(m: &Model, s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut v: Vec<Op> = kinds(s).into_iter().map(Op::Register).collect();
    for (i, x) in m.insts.iter().enumerate() {
        v.push(Op::Unregister(x.kind, i));
    }
    v
}
/// Registry operations, all but hopeless ones.
fn a_registry(m: &Model, s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let ks = kinds(s);
    let mut v = vec![];
    for k in &ks {
        v.push(Op::Register(*k));
    }
    for i in m.live_insts() {
        v.push(Op::Create(i, (m.objs.len() % 3) as u8, Bad::Good));
        v.push(Op::Unregister(m.insts[i].kind, i));
    }
    for i in m.live_objs() {
        v.push(Op::Remove(m.insts[m.objs[i].inst].kind, i));
    }
    v
}
/// Everything that changes something, and everything that must be refused.
fn a_all(m: &Model, s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let ks = kinds(s);
    let mut v = vec![];
    for k in &ks {
        v.push(Op::Register(*k));
    }
    for (i, x) in m.insts.iter().enumerate() {
        for k in &ks {
            v.push(Op::Unregister(*k, i));
        }
        v.push(Op::Create(i, (m.objs.len() % 3) as u8, Bad::Good));
        if !x.alive {
            continue;
        }
        let sh = shape_of(x.kind);
        for bad in [Bad::NoState, Bad::ExtraState, Bad::NoChan, Bad::ExtraChan, Bad::Swapped] {
            v.push(Op::Create(i, 1, bad));
        }
        for t in [0, 11, 14] {
            if sh.st.last() != Some(&t) {
                v.push(Op::Create(i, 1, Bad::WrongState(t)));
            }
            if sh.ch.last() != Some(&t) {
                v.push(Op::Create(i, 1, Bad::WrongChan(t)));
            }
        }
    }
    for i in 0..m.objs.len() {
        for k in &ks {
            v.push(Op::Remove(*k, i));
        }
        if !m.objs[i].alive {
            for f in 0..m.objs[i].st.len().min(2) {
                v.push(Op::Write(i, f, Path::TypedMut, 1));
                v.push(Op::Write(i, f, Path::DynMut, 1));
            }
            for f in 0..m.objs[i].ch.len().min(2) {
                v.push(Op::WriteChan(i, f, Path::TypedMut, 1));
                v.push(Op::WriteChan(i, f, Path::DynHandleMut, 1));
            }
            v.push(Op::Warp(i, 9));
        }
    }
    v
}
/// Writes to every field by every path, and the operations that move things around.
fn a_writes(m: &Model, _s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut v = vec![];
    for i in m.live_objs() {
        let ob = &m.objs[i];
        for (f, s) in ob.st.iter().enumerate() {
            let n = (o(s.ty).n)() as u8;
            for (k, p) in STATE_WRITES.iter().enumerate() {
                v.push(Op::Write(i, f, *p, (s.v + 1 + k as u8 % 2) % n));
            }
        }
        for f in 0..ob.ch.len() {
            for (k, p) in CHAN_WRITES.iter().enumerate() {
                v.push(Op::WriteChan(i, f, *p, (k % 3) as u8 + 1));
            }
        }
        v.push(Op::Warp(i, 7 + i as i32));
        v.push(Op::Remove(m.insts[ob.inst].kind, i));
    }
    for i in m.live_insts() {
        v.push(Op::Create(i, (m.objs.len() % 3) as u8, Bad::Good));
    }
    v
}
/// Every value of every field by every path.
fn a_values(m: &Model, _s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut v = vec![];
    for i in m.live_objs() {
        let ob = &m.objs[i];
        for (f, s) in ob.st.iter().enumerate() {
            for x in 0..(o(s.ty).n)() as u8 {
                for p in STATE_WRITES {
                    v.push(Op::Write(i, f, p, x));
                }
            }
        }
        for f in 0..ob.ch.len() {
            for x in 0..5 {
                for p in CHAN_WRITES {
                    v.push(Op::WriteChan(i, f, p, x));
                }
            }
        }
    }
    v
}
/// One new value for every field, and the removals.
fn a_each(m: &Model, _s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut v = vec![];
    for i in m.live_objs() {
        let ob = &m.objs[i];
        for (f, s) in ob.st.iter().enumerate() {
            v.push(Op::Write(i, f, Path::TypedMut, (s.v + 1) % (o(s.ty).n)() as u8));
        }
        for f in 0..ob.ch.len() {
            v.push(Op::WriteChan(i, f, Path::DynHandleMut, (f % 4) as u8 + 1));
        }
        v.push(Op::Remove(m.insts[ob.inst].kind, i));
    }
    v
}
/// Few operations, for big populations.
fn a_pop(m: &Model, s: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut v = vec![];
    for k in kinds(s) {
        v.push(Op::Register(k));
    }
    for i in m.live_insts() {
        v.push(Op::Create(i, (m.objs.len() % 3) as u8, Bad::Good));
        v.push(Op::Unregister(m.insts[i].kind, i));
    }
    let live: Vec<usize> = m.live_objs().collect();
    let n = live.len();
    let mut picks: Vec<usize> = if n == 0 { vec![] } else { vec![0, n / 3, n / 2, n - 1] };
    picks.dedup();
    for p in picks {
        let i = live[p];
        v.push(Op::Remove(m.insts[m.objs[i].inst].kind, i));
        if !m.objs[i].st.is_empty() {
            v.push(Op::Write(i, 0, Path::TypedMut, (m.objs[i].st[0].v + 1) % 2));
        }
        if !m.objs[i].ch.is_empty() {
            v.push(Op::WriteChan(i, 0, Path::DynHandleMut, 4));
        }
    }
    v
}

// ---- shapes ----

/// Shapes of contracts A and B that share types, and the empty contract Z: set `k` of 14.
fn set(k: usize) -> Vec<(usize, &'static Shape)> {
    let (p, q, v) = (k % 14, (k + 5) % 14, 14 + k % 14);
    vec![(0, shape(&[p, v, p], &[q, v])), (1, shape(&[q, p], &[v, q, p])), (6, shape(&[], &[]))]
}
fn small(k: usize) -> Vec<(usize, &'static Shape)> {
    let (p, v) = (k % 14, 14 + k % 14);
    vec![(0, shape(&[p, v], &[p])), (1, shape(&[p], &[v]))]
}
fn regs(s: &[(usize, &'static Shape)]) -> Vec<Op> {
    s.iter().map(|x| Op::Register(x.0)).collect()
}
/// All 28 types, as states and channels.
fn wide() -> Vec<(usize, &'static Shape)> {
    let all: Vec<usize> = (0..28).collect();
    let rev: Vec<usize> = (0..28).rev().collect();
    vec![(0, shape(&all, &rev)), (1, shape(&rev, &all))]
}

fn hist(ctx: &Ctx, name: &str, what: &str, split: usize, c: &(dyn Fn(usize) -> Cfg + Sync), n: usize) {
    let prop = ctx.prop.clone();
    let what = what.replace("{d}", &c(0).depth.to_string());
    ctx.explore(name, split + 1, &what, |ch| {
        let s = ch.pick(n);
        run(&prop, ch, &c(s), if s % 2 == 0 { BaselineKind::Main } else { BaselineKind::Fork })
    });
}

/// Populations of `n` objects, a removal pattern, then every short continuation.
fn populations(ctx: &Ctx, sizes: &[usize], depth: usize, obs: Depth, binding: bool) {
    let prop = ctx.prop.clone();
    let sizes = sizes.to_vec();
    ctx.explore(
        "populations",
        3,
        &format!("{sizes:?} objects of two contracts, 7 removal patterns, 4 shape sets, every continuation of {depth} operations"),
        |ch| {
            let s = ch.pick(4);
            let n = ch.of(&sizes);
            let pat = ch.pick(7);
            let shapes = small([0, 11, 12, 9][s]);
            let mut start = regs(&shapes);
            for i in 0..n {
                start.push(Op::Create(if pat == 6 { 0 } else { i % 2 }, (i % 3) as u8, Bad::Good));
            }
            let owner = |i: usize| if pat == 6 { 0 } else { i % 2 };
            let gone: Vec<usize> = match pat {
                0 | 6 => vec![],
                1 => (0..n).filter(|i| i % 2 == 0).collect(),
                2 => (0..n / 2).collect(),
                3 => (0..n.saturating_sub(1)).collect(),
                4 => (0..n).rev().collect(),
                _ => (0..n).filter(|i| i % 4 != 3).rev().collect(),
            };
            // the object set of an inst is in `kind` order, so kinds are 0 and 1
            for i in gone {
                start.push(Op::Remove(owner(i), i));
            }
            let c = Cfg { shapes, start: vec![], alpha: a_pop, depth, obs, binding };
            for (k, s) in &c.shapes {
                set_shape(*k, s);
            }
            let kind = BaselineKind::Main;
            let mut b = Baseline::new(kind);
            let mut m = Model::default();
            for op in start {
                if !judge(&prop, m.apply(&mut b, op))? {
                    return Ok(());
                }
                ch.step();
            }
            if ch.fresh() && !judge(&prop, m.observe(&mut b, kind, c.obs))? {
                return Ok(());
            }
            for _ in 0..depth {
                let ops = a_pop(&m, &c.shapes);
                let op = ch.of(&ops);
                ch.log(|| format!("{op:?}"));
                ch.step();
                if !judge(&prop, m.apply(&mut b, op))? {
                    return Ok(());
                }
                if ch.fresh() {
                    ch.state(m.hash());
                    if !judge(&prop, m.observe(&mut b, kind, Depth::Light))? || (binding && !judge(&prop, m.observe_binding(&mut b))?) {
                        return Ok(());
                    }
                }
            }
            Ok(())
        },
    );
}

/// Long histories that create and remove in one place, for reuse of handles.
/// Baselines far larger than any count that fits a byte or two.
fn large(ctx: &Ctx, sizes: &[usize], obs: Depth) {
    let prop = ctx.prop.clone();
    let sizes = sizes.to_vec();
    ctx.explore("large", 2, &format!("{sizes:?} objects of two contracts, 5 removal patterns, then new objects, writes around every power of two, refused operations, and the second contract unregistered, with everything compared after each"), |ch| {
        let n = ch.of(&sizes);
        let pat = ch.pick(5);
        let shapes = vec![(0, shape(&[2], &[])), (1, shape(&[], &[0]))];
        for (k, s) in &shapes {
            set_shape(*k, s);
        }
        let kind = BaselineKind::Main;
        let mut b = Baseline::new(kind);
        let mut m = Model::default();
        macro_rules! go {
            ($ops:expr) => {
                for op in $ops {
                    ch.step();
                    if !judge(&prop, m.apply(&mut b, op))? {
                        return Ok(());
                    }
                }
            };
        }
        macro_rules! look {
            ($obs:expr) => {
                ch.state(m.hash());
                if !judge(&prop, m.observe(&mut b, kind, $obs))? {
                    return Ok(());
                }
            };
        }
        go!(regs(&shapes));
        // few of the second contract, so that the first has nearly all of them
        let owner = |i: usize| if pat < 3 { i % 2 } else { (i % 97 == 5) as usize };
        go!((0..n).map(|i| Op::Create(owner(i), (i % 3) as u8, Bad::Good)));
        look!(obs);
        let marks: Vec<usize> = (0..usize::BITS).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).filter(|i| *i < n).chain([n - 1]).collect();
        let gone: Vec<usize> = match pat {
            0 => (0..n).filter(|i| i % 3 == 0).collect(),
            1 => (0..n / 2).rev().collect(),
            2 => marks.iter().copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect(),
            3 => (0..n).filter(|i| i % 97 != 5).collect(),
            _ => vec![],
        };
        go!(gone.iter().map(|i| Op::Remove(owner(*i), *i)));
        look!(Depth::Light);
        go!((0..n / 3).map(|i| Op::Create(i % 2, (i % 2) as u8, Bad::Good)));
        let writes: Vec<Op> = marks.iter().map(|i| *i).filter(|i| m.objs[*i].alive).map(|i| if m.objs[i].st.is_empty() { Op::WriteChan(i, 0, Path::TypedMut, 1) } else { Op::Write(i, 0, Path::TypedMut, 3) }).collect();
        go!(writes);
        let refused: Vec<Op> = marks.iter().flat_map(|i| [Op::Remove(1 - owner(*i), *i), if m.objs[*i].alive { Op::Register(0) } else { Op::Remove(owner(*i), *i) }]).chain([Op::Create(0, 0, Bad::ExtraState), Op::Create(1, 0, Bad::NoChan)]).collect();
        go!(refused);
        look!(Depth::Light);
        go!([Op::Unregister(1, 1)]);
        look!(obs);
        go!([Op::Register(1), Op::Create(2, 0, Bad::Good), Op::Unregister(0, 0)]);
        look!(Depth::Light);
        Ok(())
    });
}
fn cycles(ctx: &Ctx, n: usize) {
    let prop = ctx.prop.clone();
    ctx.explore("cycles", 2, &format!("{n} rounds of creating and removing (6 orders) beside a permanent object, 4 shape sets, and of registering and unregistering"), |ch| {
        let s = ch.pick(4);
        let pat = ch.pick(7);
        let shapes = small([0, 11, 12, 9][s]);
        for (k, s) in &shapes {
            set_shape(*k, s);
        }
        let kind = BaselineKind::Main;
        let mut b = Baseline::new(kind);
        let mut m = Model::default();
        let mut ops = regs(&shapes);
        ops.push(Op::Create(0, 0, Bad::Good));
        for op in ops {
            if !judge(&prop, m.apply(&mut b, op))? {
                return Ok(());
            }
        }
        let mut held: std::collections::VecDeque<usize> = Default::default();
        let mut old: Vec<(u8, ContractAny)> = vec![];
        for round in 0..n {
            if pat == 6 {
                // the registration of contract 1 itself
                let i = m.insts.len() - 1;
                let op = if m.insts[i].alive && m.insts[i].kind == 1 { Op::Unregister(1, i) } else { Op::Register(1) };
                ch.step();
                if !judge(&prop, m.apply(&mut b, op))? {
                    return Ok(());
                }
                if let Some(x) = m.insts.iter().position(|x| !x.alive) {
                    // keep the model small: forget dead registrations after checking them
                    let ok = b.contract_data(m.insts[x].h).is_err();
                    ensure!(ok, "contract-resolves", "the handle of an unregistered contract resolves after {round} rounds");
                    old.push((0, ContractAny(m.insts[x].h)));
                    if m.insts.len() > 4 {
                        m.insts.remove(x);
                        for ob in &mut m.objs {
                            if ob.inst > x {
                                ob.inst -= 1
                            }
                        }
                    }
                }
                if round % 64 == 0 {
                    for (_, h) in &old {
                        ensure!(b.contract_data(h.0).is_err(), "contract-resolves", "an old contract handle resolves after {round} rounds");
                    }
                }
                continue;
            }
            let op = Op::Create(if pat == 5 { 1 } else { 0 }, (round % 3) as u8, Bad::Good);
            ch.step();
            if !judge(&prop, m.apply(&mut b, op))? {
                return Ok(());
            }
            held.push_back(m.objs.len() - 1);
            let window = [1, 2, 3, 3, 8, 1][pat];
            if held.len() >= window {
                let i = if pat == 2 || pat == 5 { held.pop_back() } else { held.pop_front() }.unwrap();
                let kd = m.insts[m.objs[i].inst].kind;
                if !judge(&prop, m.apply(&mut b, Op::Remove(kd, i)))? {
                    return Ok(());
                }
            }
            if m.objs.len() > 60 {
                // forget the oldest dead objects, after a full look
                if !judge(&prop, m.observe(&mut b, kind, Depth::Light))? {
                    return Ok(());
                }
                let keep: Vec<bool> = m.objs.iter().map(|x| x.alive).collect();
                let map: Vec<usize> = keep.iter().scan(0, |a, k| { let r = *a; if *k { *a += 1 } Some(r) }).collect();
                let objs = std::mem::take(&mut m.objs);
                m.objs = objs.into_iter().filter(|x| x.alive).collect();
                for h in &mut held {
                    *h = map[*h];
                }
            }
        }
        ch.state(m.hash());
        judge(&prop, m.observe(&mut b, kind, Depth::Full))?;
        Ok(())
    });
}
/// Which contracts count as the same.
fn ids(ctx: &Ctx) {
    ctx.explore("ids", 1, &format!("all pairs of {NX} contract ids that differ in one component, by case, spaces, zero bytes, composition, order, prefix, suffix, by numbers that collide when packed or added, by place in memory only, or not at all; with none, one or both of two others registered before: the second is refused exactly if name and version are equal, and taken once the first is gone"), |ch| {
        for i in 0..NX {
            set_shape(i, shape(&[0], &[]))
        }
        let (i, j) = (ch.pick(NX), ch.pick(NX));
        let others: Vec<usize> = [vec![], vec![(i + 1) % NX], vec![(j + 1) % NX], vec![(i + 3) % NX, (j + 5) % NX]][ch.pick(4)].iter().copied().filter(|o| k(*o).id != k(i).id && k(*o).id != k(j).id).collect();
        let same = (k(i).id.name, k(i).id.version) == (k(j).id.name, k(j).id.version);
        ch.steps(6);
        ch.log(|| format!("{:?} and {:?} after {others:?}", k(i).id, k(j).id));
        let r = catch(|| {
            let mut b = Baseline::new(BaselineKind::Fork);
            for o in &others {
                let _ = (k(*o).reg)(&mut b);
            }
            let Some(a) = (k(i).reg)(&mut b) else { return viol("register", format!("{:?} is refused though it is not registered (others: {others:?})", k(i).id)) };
            let c = (k(j).reg)(&mut b);
            ensure!(c.is_none() == same, "same", "with {:?} registered, {:?} is {}", k(i).id, k(j).id, if c.is_some() { "taken" } else { "refused" });
            ensure!(c != Some(a), "handles", "{:?} and {:?} have the same handle", k(i).id, k(j).id);
            ensure!((k(i).unreg)(&mut b, a), "unregister", "{:?} cannot be unregistered", k(i).id);
            let d = (k(j).reg)(&mut b);
            ensure!(d.is_some() == same, "again", "{:?} is {} after {:?} was unregistered", k(j).id, if d.is_some() { "taken" } else { "refused" }, k(i).id);
            let e = (k(i).reg)(&mut b);
            ensure!(e.is_some() != same, "again", "{:?} is {} beside {:?}", k(i).id, if e.is_some() { "taken" } else { "refused" }, k(j).id);
            Ok(())
        });
        ch.state(mcx::hash_of(&(i, j, others.len())));
        ch.outcome(same as u64);
        r.unwrap_or_else(|(m, l)| viol("panic", format!("panicked: {m} at {l}")))
    });
}
struct ContractAny(tp_client::contract::ContractDataHandle);

/// Every shape (short lists over `types`) with every supplied list.
fn creation(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    // 1: one list over all 28 types
        let lists = |types: &[usize], len: usize| {
        let mut all: Vec<Vec<usize>> = vec![vec![]];
        let mut last = all.clone();
        for _ in 0..len {
            last = last.iter().flat_map(|l| types.iter().map(move |t| { let mut l = l.clone(); l.push(*t); l })).collect();
            all.extend(last.clone());
        }
        all
    };
    let all28: Vec<usize> = (0..28).collect();
    let l2 = lists(&all28, 2);
    let try_one = |ch: &mut Ch, sh: &'static Shape, st: &[usize], cs: &[usize], v: u8, loose: bool| -> Res {
        set_shape(0, sh);
        set_shape(1, shape(&[3, 11], &[3]));
        let mut b = Baseline::new(BaselineKind::Fork);
        let mut m = Model::default();
        for op in [Op::Register(1), Op::Register(0), Op::Create(0, 0, Bad::Good)] {
            if !judge(&prop, m.apply(&mut b, op))? {
                return Ok(());
            }
        }
        let s: Vec<_> = st.iter().enumerate().map(|(f, t)| (*t, field_val(*t, f, v))).collect();
        let c: Vec<_> = cs.iter().enumerate().map(|(f, t)| (*t, kfs(*t, f as u8 + v))).collect();
        m.last = Some(Op::Create(1, v, Bad::Good));
        let r = match catch(|| m.create(&mut b, 1, s, c, loose).map(|_| ())) {
            Ok(r) => r,
            Err((msg, l)) => Err(m.fail(Cat::Panic, "panic", format!("creating an object from states {st:?} and channels {cs:?} for fields {:?} {:?} panicked: {msg} at {l}", sh.st, sh.ch))),
        };
        ch.step();
        if !judge(&prop, r)? {
            return Ok(());
        }
        ch.state(mcx::hash_of(&(&sh.st, &sh.ch, m.hash())));
        judge(&prop, m.observe(&mut b, BaselineKind::Fork, Depth::Light))?;
        Ok(())
    };
    for chans in [false, true] {
        ctx.explore(
            if chans { "shapes28-channels" } else { "shapes28-states" },
            1,
            &format!("all {0} declared lists of length up to 2 over the 28 types with all {0} supplied ones", l2.len()),
            |ch| {
                let d = &l2[ch.pick(l2.len())];
                let s = &l2[ch.pick(l2.len())];
                ch.log(|| format!("declared {d:?}, supplied {s:?}"));
                if chans {
                    try_one(ch, shape(&[], d), &[], s, 0, false)
                } else {
                    try_one(ch, shape(d, &[]), s, &[], 0, false)
                }
            },
        );
    }
    // 2: states and channels together, longer lists, few types
    let types = [0, 11, 14];
    let l = lists(&types, 2);
    let lt = lists(&types, ctx.by(2, 3));
    ctx.explore("shapes3", 2, &format!("declared states and channels: all lists of length up to 2 over 3 types; supplied: all of length up to {}; both kinds of iterator", ctx.by(2, 3)), |ch| {
        let (ds, dc) = (&l[ch.pick(l.len())], &l[ch.pick(l.len())]);
        let (s, c) = (&lt[ch.pick(lt.len())], &lt[ch.pick(lt.len())]);
        let loose = ch.flip();
        ch.log(|| format!("declared {ds:?} {dc:?}, supplied {s:?} {c:?}"));
        try_one(ch, shape(ds, dc), s, c, 1, loose)
    });
    // 3: every value of every type in every position of a longer list
    ctx.explore("values", 1, "lists of 1 to 6 fields of rotating types, every alphabet value, supplied exactly, one short, one long, or with one type changed", |ch| {
        let t = ch.pick(28);
        let len = 1 + ch.pick(6);
        let v = ch.pick(9) as u8;
        let how = ch.pick(4 + len);
        let ts: Vec<usize> = (0..len).map(|i| (t + i * 9) % 28).collect();
        let mut st = ts.clone();
        let mut cs = ts.clone();
        match how {
            0 => {}
            1 => drop(st.pop()),
            2 => cs.push(t),
            3 => drop(cs.remove(0)),
            x => {
                let i = x - 4;
                if v % 2 == 0 {
                    st[i] = (st[i] + 14) % 28
                } else {
                    cs[i] = (cs[i] + 14) % 28
                }
            }
        }
        try_one(ch, shape(&ts, &ts), &st, &cs, v, v % 2 == 1)
    });
    // 4: long lists
    let longs = ctx.by(vec![16usize, 17, 33, 64, 65, 100, 129, 255, 256, 257, 300], vec![16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025]);
    ctx.explore("long", 1, &format!("{longs:?} fields, exact, one short, one long, one type changed anywhere"), |ch| {
        let n = ch.of(&longs);
        let ts: Vec<usize> = (0..n).map(|i| (i * 5 + i / 28) % 28).collect();
        let how = ch.pick(3 + 4);
        let (mut st, mut cs) = (ts.clone(), ts.clone());
        match how {
            0 => {}
            1 => drop(st.pop()),
            2 => cs.push(ts[0]),
            x => {
                let i = [0, n / 2, n - 2, n - 1][x - 3];
                if ch.flip() {
                    st[i] = (st[i] + 1) % 28
                } else {
                    cs[i] = (cs[i] + 1) % 28
                }
            }
        }
        try_one(ch, shape(&ts, &ts), &st, &cs, 0, false)
    });
    let huge = ctx.by(vec![1025usize, 66_000], vec![4097, 66_000, 140_000]);
    ctx.explore("huge", 2, &format!("{huge:?} fields, states or channels: exact, cut or extended by 1, 256 or 65536, or one type changed around every power of two or at the end"), |ch| {
        let n = ch.of(&huge);
        let chans = ch.flip();
        let ts: Vec<usize> = (0..n).map(|i| (i * 5 + i / 28) % 28).collect();
        let mut l = ts.clone();
        let mut at: Vec<usize> = (0..17).flat_map(|b| [(1 << b) - 1, 1 << b]).filter(|i| *i < n - 2).collect();
        at.extend([n - 2, n - 1]);
        at.dedup();
        let cuts: Vec<usize> = [1, 256, 65536].into_iter().filter(|c| *c < n).collect();
        let how = ch.pick(1 + 2 * cuts.len() + at.len());
        if how == 0 {
        } else if how <= cuts.len() {
            l.truncate(n - cuts[how - 1])
        } else if how <= 2 * cuts.len() {
            l.extend_from_within(..cuts[how - 1 - cuts.len()])
        } else {
            let i = at[how - 1 - 2 * cuts.len()];
            l[i] = (l[i] + 1) % 28
        }
        ch.log(|| format!("{n} {}, {how}", if chans { "channels" } else { "states" }));
        if chans {
            try_one(ch, shape(&[], &ts), &[], &l, 0, false)
        } else {
            try_one(ch, shape(&ts, &[]), &l, &[], 0, false)
        }
    });
}

/// The memory of removed objects is released.
fn memory(ctx: &Ctx) {
    ctx.explore("memory", 1, "every type as state and as channel, with short and long values, 1 to 3 objects, removed singly, in reverse or by unregistering: live heap returns to what it was", |ch| {
        let ty = ch.pick(28);
        let how = ch.pick(4);
        let nobj = 1 + ch.pick(3);
        let v = ch.of(&[0u8, 1, 5, 6]);
        let form = ch.pick(3);
        let sh = match form {
            0 => shape(&[ty, 11], &[]),
            1 => shape(&[], &[ty, 11]),
            _ => shape(&[ty, 0, ty], &[ty, 25, ty]),
        };
        set_shape(0, sh);
        set_shape(1, shape(&[0], &[0]));
        ch.step();
        let r = catch(|| -> Res {
            let mut b = Baseline::new(BaselineKind::Main);
            let keep = (k(1).reg)(&mut b).unwrap();
            (k(1).create)(&mut b, keep, vec![(o(0).mk)(0)], vec![(o(0).mk_chan)(&kfs(0, 0))], false).unwrap();
            let mut h = (k(0).reg)(&mut b).unwrap();
            let mut round = |b: &mut Baseline| -> (i64, i64) {
                let mut objs = vec![];
                for _ in 0..nobj {
                    let st: Vec<_> = sh.st.iter().map(|t| (o(*t).mk)(v % (o(*t).n)() as u8)).collect();
                    let cs: Vec<_> = sh.ch.iter().map(|t| (o(*t).mk_chan)(&kfs(*t, if v == 6 { 4 } else { v }))).collect();
                    objs.push((k(0).create)(b, h, st, cs, false).unwrap());
                }
                let full = alloc::live().0;
                match how {
                    0 => objs.drain(..).for_each(|x| assert!((k(0).remove)(b, x), "removing a live object failed")),
                    1 => objs.drain(..).rev().for_each(|x| assert!((k(0).remove)(b, x), "removing a live object failed")),
                    _ => {
                        assert!((k(0).unreg)(b, h), "unregistering failed");
                        objs.clear();
                        h = (k(0).reg)(b).unwrap();
                    }
                }
                drop(objs);
                (full, alloc::live().0)
            };
            for _ in 0..4 {
                round(&mut b);
            }
            let base = alloc::live().0;
            for n in 0..24 {
                let (full, after) = round(&mut b);
                ensure!(after <= base, "leak", "after {n} more rounds of creating and removing {nobj} objects with {} fields, {} more bytes are live ({} while they existed)", NAMES[ty], after - base, full - base);
            }
            Ok(())
        });
        match r {
            Ok(r) => r,
            Err((m, l)) => viol("panic", format!("creating and removing objects with {} panicked: {m} at {l}", NAMES[ty])),
        }
    });
}

/// Refusals leave nothing behind: repeating one keeps the live heap constant.
fn nothing_left(ctx: &Ctx) {
    ctx.explore("nothing-left", 2, "every refused operation possible in 5 starts, 14 shape sets, and every mismatched property list of every type: repeated 64 times, the live heap stops growing after the first 16", |ch| {
        let set_no = ch.pick(14 + 28);
        let sh = if set_no < 14 { set(set_no) } else {
            let t = set_no - 14;
            vec![(0, shape(&[t, t, 11], &[t, 25, t])), (1, shape(&[(t + 1) % 28], &[t]))]
        };
        for (k, s) in &sh {
            set_shape(*k, s);
        }
        let mut start = regs(&sh);
        start.extend(match ch.pick(5) {
            0 => vec![],
            1 => vec![good(0, 0), good(1, 1), good(0, 2)],
            2 => vec![good(0, 0), good(1, 1), Op::Remove(0, 0), good(0, 1)],
            3 => vec![good(0, 0), good(1, 1), Op::Unregister(0, 0)],
            _ => vec![good(0, 0), Op::Unregister(0, 0), Op::Register(0), good(sh.len(), 1)],
        });
        let mut b = Baseline::new(BaselineKind::Fork);
        let mut m = Model::default();
        for op in start {
            if m.apply(&mut b, op).is_err() {
                CUT.fetch_add(1, Relaxed);
                return Ok(());
            }
        }
        let ops = a_all(&m, &sh);
        let op = ch.of(&ops);
        ch.log(|| format!("{op:?}"));
        let before = m.hash();
        let mut base = 0;
        for n in 0..64 {
            if n == 16 {
                base = alloc::live().0;
            }
            ch.step();
            if !judge("C05", m.apply(&mut b, op))? || !m.refused {
                return Ok(());
            }
        }
        let more = alloc::live().0 - base;
        ch.state(before);
        ensure!(more <= 0, "leak", "48 repetitions of the refused operation {op:?} left {more} more bytes on the heap");
        Ok(())
    });
}

fn good(i: usize, v: u8) -> Op {
    Op::Create(i, v, Bad::Good)
}
/// Registrations and three objects.
fn three(sh: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut st = regs(sh);
    st.extend([good(0, 0), good(1, 1), good(0, 2)]);
    st
}
fn two(sh: &[(usize, &'static Shape)]) -> Vec<Op> {
    let mut st = regs(sh);
    st.extend([good(0, 0), good(1, 1)]);
    st
}

pub fn main(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let by = |q: usize, t: usize| ctx.by(q, t);
    let full_or_light = ctx.by(Depth::Full, Depth::Light);
    let big: Vec<usize> = ctx.by(vec![70000], vec![1100, 4200, 70000, 140000]);
    let pops: Vec<usize> = ctx.by(vec![1, 5, 17, 40, 260], vec![1, 4, 5, 16, 17, 40, 65, 130, 260, 520]);
    let some = [0, 8, 11, 12, 9];
    match prop.as_str() {
        "C01" => {
            ids(ctx);
            hist(ctx, "identities", "all histories of {d} registrations and unregistrations of 8 contracts whose names and versions differ in one component", 2,
                &|_| Cfg { shapes: (0..NK).map(|k| (k, shape(&[], &[]))).collect(), start: vec![], alpha: a_ids, depth: by(6, 7), obs: Depth::Light, binding: false }, 1);
            hist(ctx, "histories", "all histories of {d} registry operations over 3 contracts, two of one name, 2 shape sets", 3,
                &|s| { let mut sh = small([0, 11][s]); sh.push((2, shape(&[0], &[]))); Cfg { shapes: sh, start: vec![], alpha: a_registry, depth: by(8, 9), obs: Depth::Light, binding: false } }, 2);
            hist(ctx, "all-ops", "all histories of {d} operations, refused ones included, after creating objects of 2 contracts, 5 shape sets", 2,
                &|s| { let sh = set(some[s]); Cfg { start: three(&sh), shapes: sh, alpha: a_all, depth: by(2, 3), obs: Depth::Light, binding: false } }, 5);
            populations(ctx, &pops, by(2, 3), Depth::Light, false);
            cycles(ctx, by(66000, 140000));
            large(ctx, &big, Depth::Light);
        }
        "C02" => {
            hist(ctx, "histories", "all histories of {d} registry operations after one creation over 2 contracts that share types, 14 shape sets, every read path after each", 3,
                &|s| Cfg { shapes: small(s), start: vec![Op::Register(0), good(0, 0)], alpha: a_registry, depth: by(5, 7), obs: Depth::Full, binding: false }, 14);
            hist(ctx, "deep", "all histories of {d} registry operations over 2 contracts that share types, 2 shape sets", 3,
                &|s| Cfg { shapes: small([0, 11][s]), start: vec![Op::Register(0)], alpha: a_registry, depth: by(8, 9), obs: Depth::Light, binding: false }, 2);
            hist(ctx, "writes", "all histories of {d} writes, creations and removals after 3 creations and a removal, 14 shape sets", 2,
                &|s| { let sh = set(s); let mut st = three(&sh); st.push(Op::Remove(0, 0)); Cfg { shapes: sh, start: st, alpha: a_writes, depth: by(2, 3), obs: Depth::Light, binding: false } }, 14);
            populations(ctx, &pops, by(2, 3), Depth::Full, false);
            cycles(ctx, by(66000, 140000));
            large(ctx, &big, Depth::Light);
        }
        "C03" => {
            hist(ctx, "writes", "all histories of {d} writes by every path, creations and removals after 3 creations, 14 shape sets with repeated types", 2,
                &|s| { let sh = set(s); Cfg { start: three(&sh), shapes: sh, alpha: a_writes, depth: by(2, 3), obs: full_or_light, binding: false } }, 14);
            hist(ctx, "deep-writes", "all histories of {d} writes, creations and removals on small contracts, 3 shape sets", 3,
                &|s| { let p = [0, 11, 10][s]; let sh = vec![(0, shape(&[p, p], &[p]))]; let mut st = regs(&sh); st.push(good(0, 0)); Cfg { shapes: sh, start: st, alpha: a_writes, depth: by(4, 5), obs: Depth::Light, binding: false } }, 3);
            hist(ctx, "all-types", "2 objects with all 28 types as states and channels: every field, value and path written, every property re-read by every path", 1,
                &|_| { let sh = wide(); Cfg { start: two(&sh), shapes: sh, alpha: a_values, depth: 1, obs: Depth::Full, binding: false } }, 1);
            hist(ctx, "all-types-pairs", "the same objects: all histories of {d} writes, one value per field", 1,
                &|_| { let sh = wide(); Cfg { start: two(&sh), shapes: sh, alpha: a_each, depth: 2, obs: Depth::Light, binding: false } }, 1);
            populations(ctx, &pops, by(2, 3), Depth::Full, false);
            large(ctx, &big, Depth::Full);
        }
        "C04" => {
            hist(ctx, "histories", "all histories of {d} registry operations after 3 creations, 14 shape sets, every read path after each", 2,
                &|s| { let sh = set(s); Cfg { start: three(&sh), shapes: sh, alpha: a_registry, depth: by(4, 5), obs: Depth::Full, binding: false } }, 14);
            hist(ctx, "deep", "all histories of {d} registry operations over 2 contracts that share types, 2 shape sets", 3,
                &|s| Cfg { shapes: small([0, 11][s]), start: vec![Op::Register(0), Op::Register(1)], alpha: a_registry, depth: by(7, 8), obs: Depth::Light, binding: false }, 2);
            hist(ctx, "all-types", "all histories of {d} creations, removals and unregistrations with all 28 types as states and channels", 1,
                &|_| { let sh = wide(); Cfg { start: two(&sh), shapes: sh, alpha: a_registry, depth: by(4, 5), obs: full_or_light, binding: false } }, 1);
            hist(ctx, "every-type", "28 contracts of one type as state and channel: all histories of {d}", 1,
                &|s| { let sh = vec![(0, shape(&[s], &[s])), (1, shape(&[s, s], &[s, s]))]; Cfg { start: two(&sh), shapes: sh, alpha: a_registry, depth: by(4, 5), obs: Depth::Full, binding: false } }, 28);
            populations(ctx, &pops, by(2, 3), Depth::Light, false);
            large(ctx, &big, Depth::Light);
            memory(ctx);
        }
        "C05" => {
            let starts = |sh: &[(usize, &'static Shape)], s: usize| {
                let mut st = regs(sh);
                st.extend(match s {
                    0 => vec![good(0, 0), good(1, 1), good(0, 2)],
                    1 => vec![good(0, 0), good(1, 1), Op::Remove(0, 0), good(0, 1)],
                    2 => vec![good(0, 0), good(1, 1), Op::Unregister(0, 0)],
                    _ => vec![good(0, 0), Op::Unregister(0, 0), Op::Register(0), good(sh.len(), 1)],
                });
                st
            };
            hist(ctx, "refusals", "all histories of {d} operations, valid and refused (every kind of stale, foreign, mistyped and duplicate argument), from 4 starts, 5 shape sets, every read path and binding after each", 2,
                &|s| { let sh = set(some[s / 4]); Cfg { start: starts(&sh, s % 4), shapes: sh, alpha: a_all, depth: by(2, 3), obs: full_or_light, binding: true } }, 20);
            hist(ctx, "refusals-all", "the same with all 14 shape sets: histories of {d}", 2,
                &|s| { let sh = set(s / 4); Cfg { start: starts(&sh, s % 4), shapes: sh, alpha: a_all, depth: by(1, 2), obs: Depth::Full, binding: true } }, 56);
            hist(ctx, "histories", "all histories of {d} operations, valid and refused, 2 small contracts, 2 shape sets", 3,
                &|s| Cfg { shapes: small([0, 11][s]), start: vec![], alpha: a_all, depth: by(5, 6), obs: Depth::Light, binding: false }, 2);
            hist(ctx, "all-types", "all histories of {d} operations, valid and refused, with all 28 types as states and channels", 1,
                &|_| { let sh = wide(); Cfg { start: two(&sh), shapes: sh, alpha: a_all, depth: by(2, 3), obs: full_or_light, binding: false } }, 1);
            large(ctx, &big, Depth::Light);
            nothing_left(ctx);
        }
        "C06" => creation(ctx),
        "C08" => {
            hist(ctx, "histories", "all histories of {d} registry operations after a creation over 2 contracts that share types, 14 shape sets: every id of every registration against every object by every route", 3,
                &|s| Cfg { shapes: small(s), start: vec![Op::Register(0), Op::Register(1), good(0, 0)], alpha: a_registry, depth: by(5, 6), obs: Depth::Light, binding: true }, 14);
            hist(ctx, "shapes", "the same with wider contracts after two creations: histories of {d}", 2,
                &|s| { let sh = set(s); Cfg { start: two(&sh), shapes: sh, alpha: a_registry, depth: by(4, 5), obs: Depth::Light, binding: true } }, 14);
            hist(ctx, "all-types", "the same with all 28 types as states and channels: histories of {d}", 1,
                &|_| { let sh = wide(); Cfg { start: two(&sh), shapes: sh, alpha: a_registry, depth: by(3, 5), obs: Depth::Light, binding: true } }, 1);
            populations(ctx, &pops[..3], by(1, 2), Depth::Light, true);
        }
        _ => unreachable!(),
    }
    ctx.note("runs_cut_by_other_properties", CUT.load(Relaxed));
}

/// C09: two baselines of one realm.
pub fn realm(ctx: &Ctx) {
    let depth = ctx.by(4, 5);
    ctx.explore("two-baselines", 3, &format!("all histories of {depth} operations spread over both baselines of a realm, 4 shape sets, after two different starts; after each the untouched baseline is compared with its model by every read path"), |ch| {
        let shapes = small([0, 11, 12, 9][ch.pick(4)]);
        let start = ch.pick(2);
        for (k, s) in &shapes {
            set_shape(*k, s);
        }
        let mut realm = Realm::new(RealmID::new("r".into()));
        let mut models = [Model::default(), Model::default()];
        let kinds = [BaselineKind::Main, BaselineKind::Fork];
        if start == 1 {
            // same content on both sides, so that a mix-up of handles would resolve
            for w in 0..2 {
                for op in [Op::Register(0), Op::Register(1), Op::Create(0, w as u8, Bad::Good)] {
                    if models[w].apply(realm.baseline_mut(kinds[w]), op).is_err() {
                        CUT.fetch_add(1, Relaxed);
                        return Ok(());
                    }
                }
            }
        }
        for _ in 0..depth {
            let w = ch.pick(2);
            let m = &models[w];
            let mut ops = a_registry(m, &shapes);
            for i in m.live_objs() {
                if !m.objs[i].st.is_empty() {
                    ops.push(Op::Write(i, 0, Path::TypedMut, (m.objs[i].st[0].v + 1) % 2));
                    ops.push(Op::Write(i, 0, Path::DynMut, (m.objs[i].st[0].v + 1) % 2));
                }
                if !m.objs[i].ch.is_empty() {
                    ops.push(Op::WriteChan(i, 0, Path::TypedMut, 1));
                }
                ops.push(Op::Warp(i, 3));
            }
            let op = ch.of(&ops);
            ch.log(|| format!("{:?}: {op:?}", kinds[w]));
            ch.step();
            if models[w].apply(realm.baseline_mut(kinds[w]), op).is_err() {
                CUT.fetch_add(1, Relaxed);
                return Ok(());
            }
            if ch.fresh() {
                ch.state(models[0].hash() ^ models[1].hash().rotate_left(7));
                for x in [w, 1 - w] {
                    let b = realm.baseline_mut(kinds[x]);
                    ensure!(b.kind() == kinds[x], "kind", "the {:?} baseline reports {:?}", kinds[x], b.kind());
                }
                ensure!(realm.baseline(kinds[w]).kind() == kinds[w], "kind", "the shared accessor gives another baseline");
                ensure!(realm.time().ticks().as_millis() == 0, "time", "a baseline operation changed the realm time");
                if let Err(f) = models[1 - w].observe(realm.baseline_mut(kinds[1 - w]), kinds[1 - w], Depth::Full) {
                    // did the operation on the other side do it?
                    return viol(f.key, format!("an operation on the {:?} baseline ({op:?}) changed the {:?} one: {}", kinds[w], kinds[1 - w], f.msg));
                }
            }
        }
        Ok(())
    });
    ctx.note("runs_cut_by_other_properties", CUT.load(Relaxed));
}
