//! Contracts whose names, versions and fields are near one another (C29): which are accepted for which.
use crate::contracts::*;
use crate::{guard, made};
use flatbuffers::FlatBufferBuilder;
use mcx::ids::NEAR;
use mcx::{ensure, hash_of, viol, Ch, Ctx, Res};
use std::any::TypeId;
use std::cell::Cell;
use std::sync::OnceLock;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::dynamic::{TpPrimitiveType as P, TpPropertyType};
use tp_client::contract::properties::states::IStates;
use tp_client::contract::{Contract, ContractDataHandle, ContractId};
use tp_client::object::ObjectHandle;
use tp_serialize::{Deserializer, DeserializerBuilder, Serializer};

struct Fields {
    names: Vec<&'static str>,
    types: Vec<TpPropertyType>,
    ids: Vec<TypeId>,
    /// as it was declared, for comparing
    what: (Vec<String>, Vec<usize>),
}
const PRIMS: [P; 14] = [P::U8, P::U16, P::U32, P::U64, P::I8, P::I16, P::I32, P::I64, P::Bool, P::F32, P::F64, P::String, P::ObjectHandle, P::ContractDataHandle];
fn type_id(t: usize) -> TypeId {
    macro_rules! of { ($($t:ty),+) => { [$(TypeId::of::<$t>()),+, $(TypeId::of::<Vec<$t>>()),+] } }
    of!(u8, u16, u32, u64, i8, i16, i32, i64, bool, f32, f64, String, ObjectHandle, ContractDataHandle)[t]
}
/// Field lists; types from 14 on are lists of the type 14 before
fn fields() -> &'static Vec<Fields> {
    static T: OnceLock<Vec<Fields>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<(Vec<String>, Vec<usize>)> = vec![];
        let mut n = |a: &[&str]| v.push((a.iter().map(|s| s.to_string()).collect(), vec![0; a.len()]));
        n(&["tag", "next"]);
        n(&["Tag", "next"]);
        n(&["tag", "Next"]);
        n(&["tag ", "next"]);
        n(&[" tag", "next"]);
        n(&["tag\0", "next"]);
        n(&["tag", "next\0"]);
        n(&["next", "tag"]);
        n(&["tag", "nex"]);
        n(&["tag", "nextt"]);
        n(&["ag", "next"]);
        n(&["ta", "gnext"]);
        n(&["tagn", "ext"]);
        n(&["", "tagnext"]);
        n(&["tag", ""]);
        n(&["", "next"]);
        n(&["", ""]);
        n(&["tag", "tag"]);
        n(&["next", "next"]);
        n(&["t\u{e4}g", "next"]);
        n(&["tag_", "next"]);
        n(&["gat", "txen"]);
        n(&["a", "b"]);
        n(&["tag"]);
        n(&["next"]);
        n(&["tag", "next", "more"]);
        n(&["tag", "next", ""]);
        n(&["more", "tag", "next"]);
        n(&["tag", "next", "tag", "next"]);
        n(&[]);
        let long = "x".repeat(299);
        n(&[&format!("{long}y"), "next"]);
        n(&[&format!("{long}z"), "next"]);
        for at in 0..2 {
            for t in 1..28 {
                let mut ty = vec![0, 0];
                ty[at] = t;
                v.push((vec!["tag".into(), "next".into()], ty))
            }
        }
        v.into_iter()
            .map(|what| Fields {
                names: what.0.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect(),
                types: what.1.iter().map(|t| if *t < 14 { TpPropertyType::Primitive(PRIMS[*t]) } else { TpPropertyType::Vec(PRIMS[*t - 14]) }).collect(),
                ids: what.1.iter().map(|t| type_id(*t)).collect(),
                what,
            })
            .collect()
    })
}
thread_local! {
    static NOW: [Cell<usize>; 2] = const { [Cell::new(0), Cell::new(0)] };
}
fn now(side: usize) -> &'static Fields {
    &fields()[NOW.with(|n| n[side].get())]
}
/// The fields that are set for a side
struct S<const SIDE: usize>;
impl<const SIDE: usize> IStates for S<SIDE> {
    fn type_ids() -> &'static [TypeId] {
        &now(SIDE).ids
    }
    fn enumerate_types() -> &'static [TpPropertyType] {
        &now(SIDE).types
    }
    fn field_names() -> &'static [&'static str] {
        &now(SIDE).names
    }
}
struct C<const I: usize, const SIDE: usize>(ContractDataHandle, S<SIDE>);
impl<const I: usize, const SIDE: usize> Contract for C<I, SIDE> {
    type States = S<SIDE>;
    type Channels = ();
    const ID: ContractId = ContractId { name: NEAR[I].0, version: NEAR[I].1 };
    fn new(handle: ContractDataHandle) -> Self {
        C(handle, S)
    }
    fn states(&self) -> &S<SIDE> {
        &self.1
    }
    fn channels(&self) -> &() {
        &()
    }
    fn handle(&self) -> ContractDataHandle {
        self.0
    }
}
struct Fns {
    put: fn(&mut Baseline, &[u8]) -> ContractDataHandle,
    write: fn(&mut Serializer, ContractDataHandle) -> eyre::Result<()>,
    ask: fn(&mut DeserializerBuilder) -> eyre::Result<ContractDataHandle>,
    read: fn(&mut Deserializer, ContractDataHandle) -> eyre::Result<()>,
    values: fn(&Baseline, ContractDataHandle, ObjectHandle) -> Res<Vec<Val>>,
}
fn fns<const I: usize>() -> Fns {
    Fns {
        put: |b, tags| {
            let c: C<I, 0> = b.register_contract().expect("HARNESS");
            for t in tags {
                b.object_create(&c, now(0).types.iter().map(|_| prop(*t)), [].into_iter()).expect("HARNESS");
            }
            c.0
        },
        write: |s, h| s.serialize(&C::<I, 0>::new(h)),
        ask: |d| Ok(d.register_contract::<C<I, 1>>()?.0),
        read: |d, h| d.deserialize_objects(&C::<I, 1>::new(h)),
        values: |b, h, o| vals(b, &C::<I, 1>::new(h), o),
    }
}
macro_rules! table { ($($i:literal)+) => { [$(fns::<$i>()),+] } }
fn f(i: usize) -> &'static Fns {
    static T: OnceLock<[Fns; NEAR.len()]> = OnceLock::new();
    &T.get_or_init(|| table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55))[i]
}
fn set(side: usize, k: usize) {
    NOW.with(|n| n[side].set(k))
}
fn write(b: &Baseline, what: &[(usize, ContractDataHandle)]) -> Res<Vec<u8>> {
    let data = guard("the serializer", || {
        let mut s = Serializer::new(FlatBufferBuilder::new(), b);
        for (i, h) in what {
            (f(*i).write)(&mut s, *h)?
        }
        Ok::<_, eyre::Report>(s.finish().finished_data().to_vec())
    })?;
    made("serializing", data)
}

pub fn near(ctx: &Ctx) {
    let n = NEAR.len();
    ctx.explore("near ids", 1, &format!("all pairs of {n} contract names and versions that differ in one component, by case, spaces, zero bytes, composition, order, prefix, suffix or by numbers that collide when packed or added: one is written (alone, or with the other before or after it), the other is asked for: accepted exactly if it was written, with its own object"), move |ch: &mut Ch| {
        let (i, j) = (ch.pick(n), ch.pick(n));
        let same = NEAR[i] == NEAR[j];
        let both = if same { 0 } else { ch.pick(3) };
        ch.step();
        set(0, 0);
        set(1, 0);
        ch.log(|| format!("written: {:?}{}, asked for: {:?}", NEAR[i], [" alone", " and the other", ", after the other"][both], NEAR[j]));
        let mut b = Baseline::new(BaselineKind::Main);
        let mut w = vec![(i, (f(i).put)(&mut b, &[1]))];
        if both > 0 {
            w.push((j, (f(j).put)(&mut b, &[2])))
        }
        if both == 2 {
            w.reverse()
        }
        let data = write(&b, &w)?;
        let (asked, first) = guard("the deserializer", || {
            let mut d = DeserializerBuilder::new(&data, BaselineKind::Fork).map_err(|e| format!("{e:#}"))?;
            let asked = (f(j).ask)(&mut d).is_ok();
            let first = if same { None } else { Some((f(i).ask)(&mut d).map_err(|e| format!("{e:#}"))?) };
            Ok::<_, String>((asked, first))
        })?
        .or_else(|e| viol("refused", format!("reading what was written fails: {e}")))?;
        let _ = first;
        ensure!(asked == (same || both > 0), if asked { "unnoticed" } else { "refused" }, "{:?} is {} where {} written", NEAR[j], if asked { "accepted" } else { "not accepted" }, if both > 0 { "both were" } else { "the other was" });
        if asked {
            let got = guard("the deserializer", || {
                let mut d = DeserializerBuilder::new(&data, BaselineKind::Fork)?;
                let h = (f(j).ask)(&mut d)?;
                let mut d = d.finish();
                (f(j).read)(&mut d, h)?;
                Ok::<_, eyre::Report>((d.finish()?, h))
            })?;
            let (b2, h) = made("reading", got)?;
            let Ok(d) = b2.contract_data(h) else { return viol("contracts", "the contract is not registered") };
            let mut all = vec![];
            for o in d.objects() {
                all.push((f(j).values)(&b2, h, *o)?)
            }
            let t = Val::Num("u8", if same { 1 } else { 2 });
            ensure!(all == [vec![t.clone(), t.clone()]], "objects", "{:?} has the objects {all:?}", NEAR[j]);
        }
        ch.state((i * n + j) as u64 * 3 + both as u64);
        ch.outcome(asked as u64);
        Ok(())
    });
    let m = fields().len();
    ctx.explore("near fields", 1, &format!("all pairs of {m} lists of fields that differ in one name (by case, spaces, zero bytes, a letter, where one name ends, order), in number, or in the type of one field (28 types): a contract with the second is accepted for one with the first exactly if they are the same, and lists are refused"), move |ch: &mut Ch| {
        let (i, j) = (ch.pick(m), ch.pick(m));
        ch.step();
        let (a, b) = (&fields()[i].what, &fields()[j].what);
        set(0, i);
        set(1, j);
        ch.log(|| format!("written with {a:?}, asked for with {b:?}"));
        let mut base = Baseline::new(BaselineKind::Main);
        let plain = a.1.iter().all(|t| *t == 0);
        let h = (f(1).put)(&mut base, if plain { &[3, 4] } else { &[] });
        let lists = a.1.iter().any(|t| *t >= 14);
        let w = guard("the serializer", || {
            let mut s = Serializer::new(FlatBufferBuilder::new(), &base);
            (f(1).write)(&mut s, h)?;
            Ok::<_, eyre::Report>(s.finish().finished_data().to_vec())
        })?;
        ensure!(w.is_err() == lists, if lists { "unnoticed" } else { "refused" }, "a contract with {a:?} is {}", if w.is_ok() { "written" } else { "not written" });
        let Ok(data) = w else { return Ok(()) };
        let asked = guard("the deserializer", || {
            let mut d = made("reading", DeserializerBuilder::new(&data, BaselineKind::Fork))?;
            let r = (f(1).ask)(&mut d);
            let Ok(h) = r else { return Ok(None) };
            let mut d = d.finish();
            let r = (f(1).read)(&mut d, h);
            Ok(Some((h, made("reading the objects", r.and_then(|_| d.finish()))?)))
        })??;
        ensure!(asked.is_some() == (a == b), if asked.is_some() { "unnoticed" } else { "refused" }, "a contract with {b:?} is {} where one with {a:?} was written", if asked.is_some() { "accepted" } else { "not accepted" });
        if let Some((h, b2)) = asked {
            let Ok(d) = b2.contract_data(h) else { return viol("contracts", "the contract is not registered") };
            let mut all = vec![];
            for o in d.objects() {
                all.push((f(1).values)(&b2, h, *o)?)
            }
            all.sort_by_key(|v| format!("{v:?}"));
            let want: Vec<Vec<Val>> = if plain { [3, 4].iter().map(|t| vec![Val::Num("u8", *t); a.0.len()]).collect() } else { vec![] };
            ensure!(all == want, "objects", "the objects are {all:?} instead of {want:?}");
        }
        ch.state((i * m + j) as u64);
        ch.outcome(hash_of(&(a == b, b.1.len())));
        Ok(())
    });
}
