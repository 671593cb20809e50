//! The ways of enumerating a contract's fields (C07).
use mc_core::types::*;
use mc_core::world::*;
use arena::generational_arena as ga;
use mcx::{ensure, fnv, hash_of, Ch, Ctx, Res};
use std::any::TypeId;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::{ChannelId, ChannelsIter, DynChannel, DynChannelId, IChannels};
use tp_client::contract::properties::dynamic::{DynTpProperty, TpPropertyType};
use tp_client::contract::properties::states::{DynStateId, IStates, StateId, StatesIter};
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;

/// A declared set of fields.
pub trait Mk {
    fn mk(h: ContractDataHandle) -> Self;
    /// Whether the accessor of each field yields that field's id (with its type, checked statically).
    fn accessors(&self, h: ContractDataHandle) -> Vec<bool>;
}
impl Mk for () {
    fn mk(_: ContractDataHandle) {}
    fn accessors(&self, _: ContractDataHandle) -> Vec<bool> {
        vec![]
    }
}
fn sid<T: Prop>(id: StateId<T>, i: usize, h: ContractDataHandle) -> bool {
    id == StateId::new(i, h) && id.contract() == h
}
fn cid<T: Prop>(id: ChannelId<T>, i: usize, h: ContractDataHandle) -> bool {
    id == ChannelId::new(i, h) && id.contract() == h
}
/// A contract of declared fields.
struct Gen<S, C> {
    h: ContractDataHandle,
    s: S,
    c: C,
}
impl<S: IStates + Mk, C: IChannels + Mk> Contract for Gen<S, C> {
    type States = S;
    type Channels = C;
    const ID: ContractId = ContractId { name: "generated", version: (3, 1, 4) };
    fn new(h: ContractDataHandle) -> Self {
        Gen { h, s: S::mk(h), c: C::mk(h) }
    }
    fn states(&self) -> &S {
        &self.s
    }
    fn channels(&self) -> &C {
        &self.c
    }
    fn handle(&self) -> ContractDataHandle {
        self.h
    }
}

/// What is said about one side (states or channels) of a contract.
struct Side {
    names: &'static [&'static str],
    types: &'static [TpPropertyType],
    ids: &'static [TypeId],
}
pub struct Decl {
    channels: bool,
    src: &'static str,
    fields: Vec<(&'static str, usize)>,
    side: fn() -> Side,
    accessors: fn(ContractDataHandle) -> Vec<bool>,
    ids: fn(ContractDataHandle, &[usize]) -> Res,
    whole: Option<fn(&[usize]) -> Res>,
    walk: Option<fn(&mut Ch, &[usize], usize) -> Res>,
}
/// Only the tables, accessors and ids (compiling everything for every declaration takes minutes).
fn thin_s<S: IStates + Mk + 'static>(src: &'static str, fields: &[(&'static str, usize)]) -> Decl {
    Decl {
        channels: false,
        src,
        fields: fields.to_vec(),
        side: || Side { names: S::field_names(), types: S::enumerate_types(), ids: S::type_ids() },
        accessors: |h| S::mk(h).accessors(h),
        ids: |h, f| listed(&mut StatesIter::<S>::new(h), f.len(), &|x, i| is_state(x, i, f[i], h)),
        whole: None,
        walk: None,
    }
}
fn thin_c<C: IChannels + Mk + 'static>(src: &'static str, fields: &[(&'static str, usize)]) -> Decl {
    Decl {
        channels: true,
        src,
        fields: fields.to_vec(),
        side: || Side { names: C::field_names(), types: C::enumerate_types(), ids: C::type_ids() },
        accessors: |h| C::mk(h).accessors(h),
        ids: |h, f| listed(&mut ChannelsIter::<C>::new(h), f.len(), &|x, i| is_chan(x, i, f[i], h)),
        whole: None,
        walk: None,
    }
}
fn listed<D: std::fmt::Debug>(it: &mut dyn Iterator<Item = D>, n: usize, is: &dyn Fn(&D, usize) -> bool) -> Res {
    for i in 0..n {
        let left = n - i;
        ensure!(it.size_hint() == (left, Some(left)), "size-hint", "size_hint {:?} with {left} of {n} fields left", it.size_hint());
        let x = it.next();
        ensure!(x.as_ref().map_or(false, |x| is(x, i)), "step", "{x:?} where field {i} of {n} is due");
    }
    ensure!(it.size_hint() == (0, Some(0)) && it.next().is_none() && it.next().is_none(), "fused", "the iterator over {n} fields yields more");
    Ok(())
}
fn decl_s<S: IStates + Mk + 'static>(src: &'static str, fields: &[(&'static str, usize)]) -> Decl {
    Decl {
        whole: Some(|f| whole::<Gen<S, ()>>(f, &[])),
        walk: Some(|ch, f, d| {
            let h = contract(5);
            walk(ch, f.len(), d, || StatesIter::<S>::new(h), &|x, i| is_state(x, i, f[i], h))
        }),
        ..thin_s::<S>(src, fields)
    }
}
fn decl_c<C: IChannels + Mk + 'static>(src: &'static str, fields: &[(&'static str, usize)]) -> Decl {
    Decl {
        whole: Some(|f| whole::<Gen<(), C>>(&[], f)),
        walk: Some(|ch, f, d| {
            let h = contract(5);
            walk(ch, f.len(), d, || ChannelsIter::<C>::new(h), &|x, i| is_chan(x, i, f[i], h))
        }),
        ..thin_c::<C>(src, fields)
    }
}
mod gen {
    #![allow(clippy::all)]
    use super::*;
    use tp_client::contract::{channels, states};
    include!(concat!(env!("OUT_DIR"), "/decls.rs"));
    type Alias = u64;
    /// Declarations that look different.
    pub mod odd {
        use super::*;
        #[states]
        #[derive(Clone, Debug)]
        #[allow(dead_code)]
        pub(crate) struct Odd {
            /// documented
            pub one: ::std::string::String,
            #[allow(unused)]
            pub(super) two: Alias,
            three: tp_client::object::ObjectHandle,
            r4: std::primitive::bool,
        }
        impl Mk for Odd {
            fn mk(h: ContractDataHandle) -> Self {
                Odd::new(h).clone()
            }
            fn accessors(&self, h: ContractDataHandle) -> Vec<bool> {
                vec![sid::<String>(self.one(), 0, h), sid::<u64>(self.two(), 1, h), sid::<ObjectHandle>(self.three(), 2, h), sid::<bool>(self.r4(), 3, h)]
            }
        }
        #[channels]
        #[derive(Clone, Debug)]
        #[allow(dead_code)]
        pub(crate) struct OddC {
            b: ::std::primitive::i64,
            /** documented */
            a: super::Alias,
        }
        impl Mk for OddC {
            fn mk(h: ContractDataHandle) -> Self {
                OddC::new(h).clone()
            }
            fn accessors(&self, h: ContractDataHandle) -> Vec<bool> {
                vec![cid::<i64>(self.b(), 0, h), cid::<u64>(self.a(), 1, h)]
            }
        }
    }
    pub fn all() -> Vec<Decl> {
        let mut v = decls();
        v.push(decl_s::<odd::Odd>("one, two, three, r4 (aliases, attributes)", &[("one", 11), ("two", 3), ("three", 12), ("r4", 8)]));
        v.push(decl_c::<odd::OddC>("b, a (aliases, attributes)", &[("b", 7), ("a", 3)]));
        v.push(decl_s::<()>("()", &[]));
        v.push(decl_c::<()>("()", &[]));
        v
    }
    /// Declared states and declared channels in one contract.
    pub fn mixed() -> Vec<(fn(&[usize], &[usize]) -> Res, Vec<usize>, Vec<usize>)> {
        vec![
            (whole::<Gen<odd::Odd, odd::OddC>>, vec![11, 3, 12, 8], vec![7, 3]),
            (whole::<Gen<S1, C1>>, vec![0], vec![0]),
            (whole::<Gen<S15, C29>>, vec![0, 0], vec![0, 1]),
            (whole::<Gen<S72, C71>>, (0..14).rev().collect(), (0..14).collect()),
        ]
    }
}

fn contract(n: usize) -> ContractDataHandle {
    arena::Index::new(ga::Index::from_raw_parts(n, 7 + n as u64))
}
fn is_state(x: &DynStateId, i: usize, ty: usize, h: ContractDataHandle) -> bool {
    (o(ty).state_id_is)(x, i, h)
}
fn is_chan(x: &DynChannelId, i: usize, ty: usize, h: ContractDataHandle) -> bool {
    (o(ty).chan_id_is)(x, i, h)
}

fn tables(s: &Side, fields: &[(&str, usize)], what: &str) -> Res {
    let n = fields.len();
    ensure!(s.names.len() == n && s.types.len() == n && s.ids.len() == n, "table-length", "{what}: {n} fields, but {} names, {} types, {} type ids", s.names.len(), s.types.len(), s.ids.len());
    for (i, (name, ty)) in fields.iter().enumerate() {
        ensure!(s.names[i] == *name, "name", "{what}: field {i} is named {:?} instead of {name:?}", s.names[i]);
        ensure!(s.types[i] == type_of(*ty), "type", "{what}: field {i} has type {:?} instead of {:?}", s.types[i], type_of(*ty));
        ensure!(s.ids[i] == (o(*ty).type_id)(), "type-id", "{what}: field {i} does not have the Rust type id of {:?}", type_of(*ty));
    }
    Ok(())
}
/// The fields of a live contract, by position, by iterator and end to end through an object.
fn whole<C: Contract>(st: &[usize], chs: &[usize]) -> Res {
    let mut b = Baseline::new(BaselineKind::Main);
    let c: C = b.register_contract().map_err(|e| mcx::Viol { key: "register".into(), msg: e.to_string() })?;
    let h = c.handle();
    let (n, m) = (st.len(), chs.len());
    for far in [0, 1, 2, 50, usize::MAX / 2, usize::MAX - 1 - n.max(m)] {
        ensure!(c.state_id(n + far).is_none(), "past-end", "state_id({}) of {n} states exists", n + far);
        ensure!(c.chan_id(m + far).is_none(), "past-end", "chan_id({}) of {m} channels exists", m + far);
    }
    let iter_s: Vec<DynStateId> = c.state_iter().collect();
    let iter_c: Vec<DynChannelId> = c.chan_iter().collect();
    ensure!(iter_s.len() == n && iter_c.len() == m, "iter-length", "{n} states and {m} channels, but {} and {} ids", iter_s.len(), iter_c.len());
    for (i, t) in st.iter().enumerate() {
        let id = c.state_id(i);
        ensure!(id.as_ref().map_or(false, |x| is_state(x, i, *t, h)), "state-id", "state_id({i}) is {id:?}, not field {i} of type {:?}", type_of(*t));
        ensure!(is_state(&iter_s[i], i, *t, h), "state-iter", "the iterator yields {:?} for field {i} of type {:?}", iter_s[i], type_of(*t));
    }
    for (i, t) in chs.iter().enumerate() {
        let id = c.chan_id(i);
        ensure!(id.as_ref().map_or(false, |x| is_chan(x, i, *t, h)), "chan-id", "chan_id({i}) is {id:?}, not field {i} of type {:?}", type_of(*t));
        ensure!(is_chan(&iter_c[i], i, *t, h), "chan-iter", "the iterator yields {:?} for field {i} of type {:?}", iter_c[i], type_of(*t));
    }
    // end to end: the id of field i reaches the i-th value
    let sv = |i: usize| (i % (o(st[i]).n)()) as u8;
    let ck = |i: usize| vec![(((i + 1) as f64).to_bits(), (i % (o(chs[i]).n)()) as u8)];
    for extra in 0..2u8 {
        // a second object has every value shifted, so that mixing up objects shows
        let sv = |i: usize| (sv(i) + extra) % (o(st[i]).n)() as u8;
        let vals: Vec<DynTpProperty> = (0..n).map(|i| (o(st[i]).mk)(sv(i))).collect();
        let kfs: Vec<DynChannel> = (0..m).map(|i| (o(chs[i]).mk_chan)(&ck(i))).collect();
        let obj = match b.object_create(&c, vals.into_iter(), kfs.into_iter()) {
            Ok(o) => o,
            Err(e) => return mcx::viol("create", format!("an object with the enumerated types is refused: {e}")),
        };
        let mut seen = std::collections::HashSet::new();
        for (i, t) in st.iter().enumerate() {
            let op = o(*t);
            let x = (op.bind_dyn_state)(&b, &iter_s[i], obj);
            let Some(Some(x)) = x else { return mcx::viol("bind", format!("the id of state {i} does not bind: {x:?}")) };
            ensure!(Some(x) == (op.bind_state)(&b, i, h, obj), "bind", "the dynamic and the typed id of state {i} bind differently");
            ensure!(seen.insert((*t, x)), "bind", "two states share {x:?}");
            let v = (op.read_state)(&mut b, x, Path::Typed);
            ensure!(v == Some(sv(i)), "value", "state {i} of type {:?} reads {v:?} instead of value {}", type_of(*t), sv(i));
        }
        for (i, t) in chs.iter().enumerate() {
            let op = o(*t);
            let x = (op.bind_dyn_chan)(&b, &iter_c[i], obj);
            let Some(Some(x)) = x else { return mcx::viol("bind", format!("the id of channel {i} does not bind: {x:?}")) };
            ensure!(Some(x) == (op.bind_chan)(&b, i, h, obj), "bind", "the dynamic and the typed id of channel {i} bind differently");
            let v = (op.read_chan)(&mut b, x, Path::Typed);
            ensure!(v == Some(ck(i)), "value", "channel {i} of type {:?} reads {v:?} instead of {:?}", type_of(*t), ck(i));
        }
    }
    Ok(())
}

/// All sequences of iterator steps, against a cursor into the field list.
fn walk<I: Iterator>(ch: &mut Ch, n: usize, depth: usize, mk: impl Fn() -> I, is: &dyn Fn(&I::Item, usize) -> bool) -> Res
where
    I::Item: std::fmt::Debug,
{
    let mut it = mk();
    let mut pos = 0;
    let check = |got: &Option<I::Item>, want: usize, what: &str| -> Res {
        let ok = match got {
            Some(x) => want < n && is(x, want),
            None => want >= n,
        };
        ensure!(ok, "step", "{what} yields {got:?} where field {want} of {n} is due");
        Ok(())
    };
    for _ in 0..depth {
        let left = n - pos;
        ensure!(it.size_hint() == (left, Some(left)), "size-hint", "size_hint {:?} with {left} of {n} fields left", it.size_hint());
        let op = ch.pick(7);
        ch.step();
        let skip = match op {
            0 => 0,
            1 => 0,
            2 => 1,
            3 => 2,
            4 => left,
            5 => left + 1,
            _ => usize::MAX,
        };
        let (got, what) = if op == 0 { (it.next(), "next".to_string()) } else { (it.nth(skip), format!("nth({skip})")) };
        ch.log(|| format!("{what} -> {got:?}"));
        let want = pos.saturating_add(skip);
        check(&got, want, &what)?;
        pos = want.saturating_add(1).min(n);
        ch.state(fnv(n as u64, pos as u64));
    }
    let left = n - pos;
    ensure!(it.size_hint() == (left, Some(left)), "size-hint", "size_hint {:?} with {left} of {n} fields left", it.size_hint());
    let k = ch.pick(4);
    let a = [0, 1, 2, 5][k];
    let end = ch.pick(9);
    ch.step();
    // the remaining fields, as each way of consuming the iterator sees them
    let want: Vec<usize> = match end {
        2 => (pos..n).skip(a).collect(),
        3 => (pos..n).step_by(a + 1).collect(),
        4 => (pos..n).take(a).collect(),
        5 => (pos..n).skip(a).step_by(2).collect(),
        _ => (pos..n).collect(),
    };
    ch.log(|| format!("{} with {a}", ["count", "last", "skip", "step_by", "take", "skip + step_by", "collect", "for_each", "by_ref + zip"][end]));
    let got: Vec<I::Item> = match end {
        0 => {
            let c = it.count();
            ensure!(c == left, "count", "count {c} with {left} of {n} fields left");
            return Ok(());
        }
        1 => {
            let l = it.last();
            ensure!(l.is_some() == (left > 0), "last", "last is {l:?} with {left} of {n} fields left");
            if let Some(l) = &l {
                ensure!(is(l, n - 1), "last", "last is {l:?} of {n} fields");
            }
            return Ok(());
        }
        2 => it.skip(a).collect(),
        3 => it.step_by(a + 1).collect(),
        4 => it.take(a).collect(),
        5 => it.skip(a).step_by(2).collect(),
        6 => it.collect(),
        7 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            v
        }
        _ => {
            let mut v: Vec<I::Item> = it.by_ref().take(a).collect();
            let h = it.size_hint();
            let l = left.saturating_sub(a);
            ensure!(h == (l, Some(l)), "size-hint", "size_hint {h:?} with {l} of {n} fields left after by_ref().take({a})");
            v.extend(it.by_ref());
            for _ in 0..2 {
                ensure!(it.next().is_none() && it.nth(a).is_none() && it.size_hint() == (0, Some(0)), "fused", "the exhausted iterator yields more");
            }
            v
        }
    };
    ensure!(got.len() == want.len(), "adaptor", "{} ids instead of {} from position {pos} of {n}", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        ensure!(is(g, *w), "adaptor", "{g:?} where field {w} of {n} is due");
    }
    ch.outcome(hash_of(&want));
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    let all = gen::all();
    let mixed = gen::mixed();
    ctx.assume("the field types that the macros accept are the 14 primitive property types: a field of any other type does not compile");
    ctx.explore("declarations", 1, "macro-declared states and channels: no field, one field of each of the 14 types, pairs and triples with each type in each position, longer lists up to 600 fields, aliases, attributes and visibilities; tables, accessors, ids and iterators against the declaration", |ch| {
        let d = &all[ch.pick(all.len())];
        ch.step();
        ch.log(|| format!("{} {{ {} }}", if d.channels { "channels" } else { "states" }, d.src));
        tables(&(d.side)(), &d.fields, "the declaration")?;
        tables(&(d.side)(), &d.fields, "the second look")?;
        for n in [0, 1, 9] {
            let acc = (d.accessors)(contract(n));
            ensure!(acc.len() == d.fields.len(), "accessor", "HARNESS: accessors");
            if let Some(i) = acc.iter().position(|x| !x) {
                return mcx::viol("accessor", format!("accessor {} does not yield the id of field {i}", d.fields[i].0));
            }
        }
        let tys: Vec<usize> = d.fields.iter().map(|f| f.1).collect();
        (d.ids)(contract(3), &tys)?;
        if let Some(whole) = d.whole {
            whole(&tys)?
        }
        ch.state(fnv(hash_of(&d.fields), d.channels as u64));
        Ok(())
    });
    ctx.explore("both sides", 1, "contracts with declared states and declared channels", |ch| {
        let (f, s, c) = &mixed[ch.pick(mixed.len())];
        ch.step();
        f(s, c)?;
        ch.state(hash_of(&(s, c)));
        Ok(())
    });
    ctx.explore("hand-written", 2, "hand-written contracts: all pairs of states and of channels over the 28 types, and the 4 others around them; ids, iterators and bindings", |ch| {
        let a = ch.pick(28);
        let b = ch.pick(28);
        let v = ch.pick(4);
        let (st, cs): (Vec<usize>, Vec<usize>) = match v {
            0 => (vec![a, b], vec![]),
            1 => (vec![], vec![a, b]),
            2 => (vec![a, b, a], vec![b]),
            _ => (vec![b], vec![a, b, b, a]),
        };
        set_shape(0, shape(&st, &cs));
        ch.step();
        ch.log(|| format!("states {st:?} channels {cs:?}"));
        whole::<K<0>>(&st, &cs)?;
        ch.state(hash_of(&(st, cs)));
        Ok(())
    });
    let sizes = ctx.by(vec![70usize, 127, 128, 129, 255, 256, 257, 300, 1025, 66_000], vec![70, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025, 4097, 66_000, 140_000]);
    ctx.explore("many fields, hand-written", 1, &format!("contracts of {sizes:?} states or channels over all 28 types: ids, iterators and bindings"), |ch| {
        let n = ch.of(&sizes);
        let chan = ch.flip();
        let ts: Vec<usize> = (0..n).map(|i| (i * 5 + i / 28) % 28).collect();
        ch.step();
        ch.log(|| format!("{n} {}", if chan { "channels" } else { "states" }));
        let (st, cs) = if chan { (vec![], ts) } else { (ts, vec![]) };
        set_shape(0, shape(&st, &cs));
        ch.state(hash_of(&(n, chan)));
        whole::<K<0>>(&st, &cs)
    });
    let depth = ctx.by(4, 6);
    let some: Vec<&Decl> = {
        let mut v: Vec<&Decl> = vec![];
        for c in [false, true] {
            for n in [0, 1, 2, 3, 14, 40] {
                v.push(all.iter().rev().find(|d| d.walk.is_some() && d.channels == c && d.fields.len() == n).unwrap());
            }
        }
        v
    };
    ctx.explore("iterator steps", 2, &format!("all sequences of {depth} steps (next, nth of 0, 1, 2, just inside, just past and far past the end) and every way of consuming the rest (count, last, skip, step_by, take, both, collect, for_each, by_ref), for declared contracts of 0, 1, 2, 3, 14 and 40 fields"), |ch| {
        let d = some[ch.pick(some.len())];
        let tys: Vec<usize> = d.fields.iter().map(|f| f.1).collect();
        ch.log(|| format!("{} {{ {} }}", if d.channels { "channels" } else { "states" }, d.src));
        (d.walk.unwrap())(ch, &tys, depth)
    });
    let sizes = ctx.by(5, 8);
    ctx.explore("iterator steps, hand-written", 2, &format!("the same for hand-written contracts of 0 to {sizes} and of 300 fields over primitive and vector types"), |ch| {
        let n = ch.pick(sizes + 2);
        let n = if n > sizes { 300 } else { n };
        let tys: Vec<usize> = (0..n).map(|i| [3, 17, 11, 3, 27, 14, 0, 25][i % 8]).collect();
        let chan = ch.flip();
        set_shape(0, if chan { shape(&[], &tys) } else { shape(&tys, &[]) });
        let h = contract(2);
        let c = K::<0>::new(h);
        if chan {
            walk(ch, n, depth, || c.chan_iter(), &|x, i| is_chan(x, i, tys[i], h))
        } else {
            walk(ch, n, depth, || c.state_iter(), &|x, i| is_state(x, i, tys[i], h))
        }
    });
}
