//! Buffers that no baseline was written to: made by hand with faults, and with bytes changed.
use crate::contracts::*;
use crate::{read, sane, Plan, Read};
use flatbuffers::{FlatBufferBuilder, UnionWIPOffset, WIPOffset};
use mcx::{ensure, fnv, Ch, Ctx, Res};
use std::collections::BTreeMap;
use tp_client::baseline::BaselineKind;
use tp_serialize::{baseline as tb, contract as tc, object as to, primitive as tp, state as ts};

/// What a state holds: its tag, as in the union of the format, and its bits
#[derive(Clone, Debug, PartialEq)]
enum Pay {
    Num(u8, u64),
    Text(Option<String>),
    Obj(u32),
    Con(u16),
}
impl Pay {
    fn tag(&self) -> u8 {
        match self {
            Pay::Num(t, _) => *t,
            Pay::Text(_) => 12,
            Pay::Obj(_) => 13,
            Pay::Con(_) => 14,
        }
    }
}
#[derive(Clone, Debug)]
struct Con {
    /// name, version
    id: Option<(Option<String>, [u16; 3])>,
    /// names, types
    states: Option<(Option<Vec<String>>, Option<Vec<i8>>)>,
}
/// What a buffer says
#[derive(Clone, Debug)]
struct Content {
    cons: Option<Vec<Con>>,
    /// tag, payload
    states: Option<Vec<(u8, Option<Pay>)>>,
    /// contract, states
    objs: Option<Vec<(Option<u16>, Option<Vec<u32>>)>>,
}
/// Which contracts are asked for: their numbers in `Cons`, name, version, fields
const WANT: [(usize, &str, [u16; 3], &[(&str, i8)]); 3] = [
    (0, "mc.leaf", [0, 0, 0], &[]),
    (1, "mc.node", [1, 2, 3], &[("tag", 0), ("next", 12), ("kind", 13)]),
    (3, "mc.all", [65535, 256, 255], &[("a", 0), ("b", 1), ("c", 2), ("d", 3), ("e", 4), ("f", 5), ("g", 6), ("h", 7), ("i", 8), ("j", 9), ("k", 10), ("l", 11), ("m", 12), ("n", 13)]),
];
impl Content {
    fn good(all: bool) -> Content {
        let con = |i: usize| Con {
            id: Some((Some(WANT[i].1.into()), WANT[i].2)),
            states: Some((Some(WANT[i].3.iter().map(|f| f.0.to_string()).collect()), Some(WANT[i].3.iter().map(|f| f.1).collect()))),
        };
        let mut cons = vec![con(1), con(0)];
        let mut s = vec![Pay::Num(1, 7), Pay::Obj(2), Pay::Con(0), Pay::Num(1, 9), Pay::Obj(1), Pay::Con(1)];
        let mut objs = vec![(Some(0), Some(vec![0, 1, 2])), (Some(1), Some(vec![])), (Some(0), Some(vec![3, 4, 5]))];
        if all {
            cons.push(con(2));
            s.extend((1..12).map(|t| Pay::Num(t, [5, 300, 70000, 1 << 40, -3i64 as u64, -300i64 as u64, -70000i64 as u64, -1i64 as u64 - (1 << 40), 1, 1.5f32.to_bits() as u64, (-2.5f64).to_bits()][t as usize - 1])));
            s.extend([Pay::Text(Some("text".into())), Pay::Obj(3), Pay::Con(2)]);
            objs.push((Some(2), Some((6..20).collect())));
        }
        Content { cons: Some(cons), states: Some(s.into_iter().map(|p| (p.tag(), Some(p))).collect()), objs: Some(objs) }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut f = FlatBufferBuilder::new();
        let f = &mut f;
        let cons = self.cons.as_ref().map(|cons| {
            let v: Vec<_> = cons
                .iter()
                .map(|c| {
                    let id = c.id.as_ref().map(|(n, v)| {
                        let name = n.as_ref().map(|n| f.create_string(n));
                        tc::ContractId::create(f, &tc::ContractIdArgs { name, v_major: v[0], v_minor: v[1], v_patch: v[2] })
                    });
                    let states = c.states.as_ref().map(|(n, t)| {
                        let names = n.as_ref().map(|n| {
                            let n: Vec<_> = n.iter().map(|n| f.create_string(n)).collect();
                            f.create_vector(&n)
                        });
                        let types = t.as_ref().map(|t| {
                            let t: Vec<_> = t.iter().map(|t| tp::TpPrimitiveKind(*t)).collect();
                            f.create_vector(&t)
                        });
                        tc::ContractStates::create(f, &tc::ContractStatesArgs { names, types })
                    });
                    tc::Contract::create(f, &tc::ContractArgs { id, states })
                })
                .collect();
            f.create_vector(&v)
        });
        let states = self.states.as_ref().map(|s| {
            let v: Vec<_> = s
                .iter()
                .map(|(tag, p)| {
                    macro_rules! num { ($t:ident, $a:ident, $v:expr) => { tp::$t::create(f, &tp::$a { v: $v }).as_union_value() } }
                    let p: Option<WIPOffset<UnionWIPOffset>> = p.as_ref().map(|p| match p {
                        Pay::Num(1, x) => num!(U8, U8Args, *x as u8),
                        Pay::Num(2, x) => num!(U16, U16Args, *x as u16),
                        Pay::Num(3, x) => num!(U32, U32Args, *x as u32),
                        Pay::Num(4, x) => num!(U64, U64Args, *x),
                        Pay::Num(5, x) => num!(I8, I8Args, *x as i8),
                        Pay::Num(6, x) => num!(I16, I16Args, *x as i16),
                        Pay::Num(7, x) => num!(I32, I32Args, *x as i32),
                        Pay::Num(8, x) => num!(I64, I64Args, *x as i64),
                        Pay::Num(9, x) => num!(Bool, BoolArgs, *x != 0),
                        Pay::Num(10, x) => num!(F32, F32Args, f32::from_bits(*x as u32)),
                        Pay::Num(_, x) => num!(F64, F64Args, f64::from_bits(*x)),
                        Pay::Text(t) => {
                            let v = t.as_ref().map(|t| f.create_string(t));
                            tp::FbString::create(f, &tp::FbStringArgs { v }).as_union_value()
                        }
                        Pay::Obj(i) => to::ObjectHandle::create(f, &to::ObjectHandleArgs { idx: *i }).as_union_value(),
                        Pay::Con(i) => tc::ContractDataHandle::create(f, &tc::ContractDataHandleArgs { idx: *i }).as_union_value(),
                    });
                    ts::State::create(f, &ts::StateArgs { p_type: tp::TpPrimitive(*tag), p })
                })
                .collect();
            f.create_vector(&v)
        });
        let objs = self.objs.as_ref().map(|o| {
            let v: Vec<_> = o
                .iter()
                .map(|(c, s)| {
                    let contract = c.map(|idx| tc::ContractDataHandle::create(f, &tc::ContractDataHandleArgs { idx }));
                    let states = s.as_ref().map(|s| {
                        let s: Vec<_> = s.iter().map(|idx| ts::StateHandle::create(f, &ts::StateHandleArgs { idx: *idx })).collect();
                        f.create_vector(&s)
                    });
                    to::Object::create(f, &to::ObjectArgs { contract, states })
                })
                .collect();
            f.create_vector(&v)
        });
        let root = tb::Baseline::create(f, &tb::BaselineArgs { contracts: cons, states, objects: objs });
        f.finish(root, Some(tp_serialize::PREFIX));
        f.finished_data().to_vec()
    }
    /// What the buffer means to someone who asks for the contracts `asked`: `Err` if it must be refused; else
    /// the objects and whether it may be refused all the same.
    fn meaning(&self, asked: &[usize]) -> Result<(Vec<Told>, bool), String> {
        let mut soft = false;
        let cons = self.cons.as_deref().unwrap_or(&[]);
        let mut found: BTreeMap<usize, usize> = BTreeMap::new();
        for a in asked {
            let w = WANT.iter().find(|w| w.0 == *a).unwrap();
            let is: Vec<usize> = cons
                .iter()
                .enumerate()
                .filter(|(_, c)| {
                    let id = matches!(&c.id, Some((Some(n), v)) if n == w.1 && *v == w.2);
                    let st = matches!(&c.states, Some((Some(n), Some(t))) if n.len() == w.3.len() && t.len() == w.3.len() && n.iter().zip(t).zip(w.3).all(|((n, t), w)| n == w.0 && *t == w.1));
                    id && st
                })
                .map(|x| x.0)
                .collect();
            let Some(first) = is.first() else { return Err(format!("{} is not in the buffer", w.1)) };
            if is.len() > 1 {
                soft = true // which of them it is is left open
            }
            found.insert(*first, *a);
        }
        let unclear = soft;
        let none = vec![];
        let states = self.states.as_ref().unwrap_or(&none);
        // things that nobody asks for may be refused
        soft |= states.iter().any(|(t, p)| !p.as_ref().map_or(false, |p| p.tag() == *t && *p != Pay::Text(None)));
        let objs = self.objs.as_deref().unwrap_or(&[]);
        soft |= objs.iter().any(|(c, _)| !c.map_or(false, |c| (c as usize) < cons.len()));
        let con_of = |o: usize| objs.get(o).and_then(|x| x.0).and_then(|c| found.get(&(c as usize)).copied());
        let mut out = vec![];
        let mut used = vec![];
        for (o, (_, s)) in objs.iter().enumerate() {
            let Some(c) = con_of(o) else { continue };
            let w = WANT.iter().find(|w| w.0 == c).unwrap();
            let s = s.as_deref().unwrap_or(&[]);
            if s.len() != w.3.len() {
                return Err(format!("object {o} has {} states", s.len()));
            }
            let mut vals = vec![];
            for (i, f) in s.iter().zip(w.3) {
                if used.contains(i) {
                    soft = true // what a shared state means is left open
                }
                used.push(*i);
                let Some((t, p)) = states.get(*i as usize) else { return Err(format!("there is no state {i}")) };
                if *t as i8 != f.1 + 1 {
                    return Err(format!("state {i} has the tag {t}"));
                }
                match p {
                    None => return Err(format!("state {i} is empty")),
                    Some(Pay::Text(None)) if *t == 12 => return Err(format!("state {i} has no text")),
                    Some(Pay::Obj(r)) if *t == 13 && con_of(*r as usize).is_none() => {
                        if unclear {
                            return Ok((vec![], true));
                        }
                        return Err(format!("state {i} refers to object {r}"));
                    }
                    Some(Pay::Con(r)) if *t == 14 && !found.contains_key(&(*r as usize)) => {
                        if unclear {
                            return Ok((vec![], true));
                        }
                        return Err(format!("state {i} refers to contract {r}"));
                    }
                    Some(p) if p.tag() == *t => vals.push(Some(match p {
                        Pay::Num(t, x) => Told::num(*t, *x),
                        Pay::Text(x) => Is::Val(Val::Text(x.clone().unwrap())),
                        Pay::Obj(r) => Is::Obj(*r as usize),
                        Pay::Con(r) => Is::Con(found[&(*r as usize)]),
                    })),
                    // whatever a payload of another type gives
                    Some(_) => {
                        soft = true;
                        vals.push(None)
                    }
                }
            }
            out.push(Told { o, con: c, vals });
        }
        Ok((if unclear { vec![] } else { out }, soft))
    }
}
/// An object as the buffer tells of it
#[derive(Debug)]
struct Told {
    o: usize,
    con: usize,
    vals: Vec<Option<Is>>,
}
#[derive(Debug)]
enum Is {
    Val(Val),
    Obj(usize),
    Con(usize),
}
impl Told {
    fn num(t: u8, x: u64) -> Is {
        Is::Val(Val::Num(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64"][t as usize - 1], x))
    }
}
#[derive(Clone, Debug)]
enum Fault {
    Cons(bool),
    States(bool),
    Objs(bool),
    SwapCons,
    DupCon(usize),
    ConId(usize, Option<(Option<String>, [u16; 3])>),
    ConStates(usize, Option<(Option<Vec<String>>, Option<Vec<i8>>)>),
    ObjCon(usize, Option<u16>),
    ObjStates(usize, Option<Vec<u32>>),
    Tag(usize, u8),
    Payload(usize, Option<Pay>),
    Less(bool),
    More,
    DupObj(usize),
}
impl Fault {
    fn all(g: &Content, big: bool) -> Vec<Fault> {
        use Fault::*;
        let (cons, states, objs) = (g.cons.as_ref().unwrap(), g.states.as_ref().unwrap(), g.objs.as_ref().unwrap());
        let mut v = vec![Cons(false), Cons(true), States(false), States(true), Objs(false), Objs(true), SwapCons, Less(true), Less(false), More];
        for (i, c) in cons.iter().enumerate() {
            v.push(DupCon(i));
            let (n, x) = c.id.clone().unwrap();
            v.push(ConId(i, None));
            v.push(ConId(i, Some((None, x))));
            for other in ["".to_string(), "mc.lea".into(), "mc.node ".into(), "MC.ALL".into()] {
                v.push(ConId(i, Some((Some(other), x))))
            }
            for k in 0..3 {
                for d in [1, 255, 256, 65535] {
                    let mut x = x;
                    x[k] = x[k].wrapping_add(d);
                    v.push(ConId(i, Some((n.clone(), x))))
                }
            }
            let (names, types) = c.states.clone().unwrap();
            let (nv, tv) = (names.clone().unwrap(), types.clone().unwrap());
            v.push(ConStates(i, None));
            v.push(ConStates(i, Some((None, types.clone()))));
            v.push(ConStates(i, Some((names.clone(), None))));
            let more = |n: bool, t: bool| {
                let (mut a, mut b) = (nv.clone(), tv.clone());
                if n {
                    a.push("more".into())
                }
                if t {
                    b.push(0)
                }
                Some((Some(a), Some(b)))
            };
            v.extend([ConStates(i, more(true, false)), ConStates(i, more(false, true)), ConStates(i, more(true, true))]);
            for k in 0..nv.len() {
                let (mut a, mut b) = (nv.clone(), tv.clone());
                a.remove(k);
                v.push(ConStates(i, Some((Some(a.clone()), Some(tv.clone())))));
                b.remove(k);
                v.push(ConStates(i, Some((Some(nv.clone()), Some(b.clone())))));
                v.push(ConStates(i, Some((Some(a), Some(b)))));
                let mut a = nv.clone();
                a[k].push('x');
                v.push(ConStates(i, Some((Some(a), Some(tv.clone())))));
                for t in (-1..15).chain([127, -128]).filter(|t| *t != tv[k]).filter(|t| big || [-1, 0, 4, 12, 13, 14].contains(t)) {
                    let mut b = tv.clone();
                    b[k] = t;
                    v.push(ConStates(i, Some((Some(nv.clone()), Some(b)))))
                }
            }
        }
        for (i, (c, s)) in objs.iter().enumerate() {
            v.push(DupObj(i));
            for x in (0..=cons.len() as u16).chain([255, 256, 65535]).map(Some).chain([None]).filter(|x| x != c) {
                v.push(ObjCon(i, x))
            }
            let s = s.clone().unwrap();
            v.push(ObjStates(i, None));
            v.push(ObjStates(i, Some(s.iter().copied().chain([0]).collect())));
            for k in 0..s.len() {
                let mut a = s.clone();
                a.remove(k);
                v.push(ObjStates(i, Some(a)));
                for x in (0..=states.len() as u32).chain([255, 65536, u32::MAX]).filter(|x| *x != s[k]) {
                    let mut a = s.clone();
                    a[k] = x;
                    v.push(ObjStates(i, Some(a)))
                }
            }
        }
        for (i, (t, p)) in states.iter().enumerate() {
            for x in (0..17).chain([127, 128, 255]).filter(|x| x != t).filter(|x| big || [0, 1, 5, 12, 13, 14, 15, 255].contains(x)) {
                v.push(Tag(i, x))
            }
            v.push(Payload(i, None));
            for x in [Pay::Num(1, 1), Pay::Num(4, 5), Pay::Num(11, 0), Pay::Text(None), Pay::Text(Some("".into())), Pay::Text(Some("abc".into()))].into_iter().chain((0..=objs.len() as u32).chain([u32::MAX]).map(Pay::Obj)).chain((0..=cons.len() as u16).chain([u16::MAX]).map(Pay::Con)) {
                if Some(&x) != p.as_ref() && (big || x.tag() == *t || matches!(x, Pay::Num(4, _) | Pay::Text(None) | Pay::Obj(0))) {
                    v.push(Payload(i, Some(x)))
                }
            }
        }
        v
    }
    fn put(&self, c: &mut Content) {
        use Fault::*;
        let clear = |empty: &bool| if *empty { Some(()) } else { None };
        match self {
            Cons(e) => c.cons = clear(e).map(|_| vec![]),
            States(e) => c.states = clear(e).map(|_| vec![]),
            Objs(e) => c.objs = clear(e).map(|_| vec![]),
            SwapCons => {
                if let Some(c) = &mut c.cons {
                    c.reverse()
                }
            }
            DupCon(i) => {
                if let Some(c) = &mut c.cons {
                    if let Some(x) = c.get(*i).cloned() {
                        c.push(x)
                    }
                }
            }
            DupObj(i) => {
                if let Some(o) = &mut c.objs {
                    if let Some(x) = o.get(*i).cloned() {
                        o.push(x)
                    }
                }
            }
            ConId(i, x) => {
                if let Some(c) = c.cons.as_mut().and_then(|c| c.get_mut(*i)) {
                    c.id = x.clone()
                }
            }
            ConStates(i, x) => {
                if let Some(c) = c.cons.as_mut().and_then(|c| c.get_mut(*i)) {
                    c.states = x.clone()
                }
            }
            ObjCon(i, x) => {
                if let Some(o) = c.objs.as_mut().and_then(|o| o.get_mut(*i)) {
                    o.0 = *x
                }
            }
            ObjStates(i, x) => {
                if let Some(o) = c.objs.as_mut().and_then(|o| o.get_mut(*i)) {
                    o.1 = x.clone()
                }
            }
            Tag(i, t) => {
                if let Some(s) = c.states.as_mut().and_then(|s| s.get_mut(*i)) {
                    s.0 = *t
                }
            }
            Payload(i, p) => {
                if let Some(s) = c.states.as_mut().and_then(|s| s.get_mut(*i)) {
                    s.1 = p.clone()
                }
            }
            Less(first) => {
                if let Some(s) = &mut c.states {
                    if !s.is_empty() {
                        s.remove(if *first { 0 } else { s.len() - 1 });
                    }
                }
            }
            More => {
                if let Some(s) = &mut c.states {
                    s.push((1, Some(Pay::Num(1, 1))))
                }
            }
        }
    }
}
fn try_content(ch: &mut Ch, c: &Content, asked: &[usize], reading: Vec<usize>) -> Res {
    let data = c.bytes();
    let meaning = c.meaning(asked);
    ch.log(|| format!("{c:?}; it means {meaning:?}"));
    let p = Plan { write: vec![], register: asked.to_vec(), read: reading, kind: BaselineKind::Main };
    let r = read(&data, &p)?;
    ch.step();
    let end = match (r, meaning) {
        (Read::Done(..), Err(e)) => return mcx::viol("unnoticed", format!("a buffer is accepted in which {e}")),
        (Read::Done(mut b, cons), Ok((told, soft))) => {
            let seen = sane(&mut b, &cons, p.kind)?;
            if !(told.is_empty() && soft) {
                tell(&told, &seen, &cons)?
            }
            1 + soft as u64
        }
        (Read::No(n, _), Err(_)) => 3 + n as u64,
        (Read::No(n, _), Ok((_, true))) => 7 + n as u64,
        (Read::No(_, e), Ok((_, false))) => return mcx::viol("refused", format!("a good buffer is refused: {e}")),
    };
    ch.outcome(end);
    Ok(())
}
/// There is a way to see the objects told of in the ones that were read.
fn tell(told: &[Told], seen: &[(tp_client::object::ObjectHandle, usize, Vec<Val>)], cons: &Cons) -> Res {
    ensure!(told.len() == seen.len(), "objects", "{} objects are read of {}", seen.len(), told.len());
    fn fits(told: &[Told], seen: &[(tp_client::object::ObjectHandle, usize, Vec<Val>)], cons: &Cons, map: &mut Vec<usize>) -> bool {
        if map.len() == told.len() {
            let at = |o: usize| told.iter().position(|t| t.o == o).map(|k| seen[map[k]].0);
            return told.iter().zip(map.iter()).all(|(t, m)| {
                t.vals.iter().zip(&seen[*m].2).all(|(w, v)| match (w, v) {
                    (Some(Is::Obj(o)), Val::Obj(h)) => at(*o) == Some(*h),
                    (Some(Is::Con(c)), Val::Con(h)) => cons.number(*h) == Some(*c),
                    (Some(Is::Val(w)), v) => w == v,
                    (None, _) => true,
                    _ => false,
                })
            });
        }
        let t = &told[map.len()];
        for m in 0..seen.len() {
            if map.contains(&m) || seen[m].1 != t.con || seen[m].2.len() != t.vals.len() {
                continue;
            }
            if t.vals.iter().zip(&seen[m].2).any(|(w, v)| matches!(w, Some(Is::Val(w)) if w != v)) {
                continue;
            }
            map.push(m);
            if fits(told, seen, cons, map) {
                return true;
            }
            map.pop();
        }
        false
    }
    ensure!(fits(told, seen, cons, &mut vec![]), "value", "the objects {seen:?} are read of {told:?}");
    Ok(())
}
const BYTES: [u8; 8] = [0, 1, 2, 4, 127, 128, 254, 255];
/// The contract asked for is one of many
fn crowd(ctx: &Ctx) {
    const N: [usize; 6] = [2, 255, 256, 257, 300, 600];
    ctx.explore("many contracts", 1, "a buffer written by hand with 2 to 600 contracts with the same states and two objects each, interleaved or not; the one asked for at the first, last or another place (with 255, 256, 257 others before or after): exactly its own two objects are read", |ch: &mut Ch| {
        let n = N[ch.pick(N.len())];
        let places: Vec<usize> = { let mut p = vec![0, 1, 44, 127, 128, 254, 255, 256, 257, 299, 511, 512, n - 1]; p.retain(|x| *x < n); p.sort(); p.dedup(); p };
        let at = places[ch.pick(places.len())];
        let other = places[ch.pick(places.len())];
        let mixed = ch.flip();
        ch.step();
        let con = |name: String| Con { id: Some((Some(name), WANT[1].2)), states: Some((Some(WANT[1].3.iter().map(|f| f.0.to_string()).collect()), Some(WANT[1].3.iter().map(|f| f.1).collect()))) };
        let mut cons: Vec<Con> = (0..n).map(|i| con(if i == at { WANT[1].1.into() } else { format!("mc.node.{i}") })).collect();
        if other != at {
            cons[other] = Con { id: Some((Some(WANT[0].1.into()), WANT[0].2)), states: Some((Some(vec![]), Some(vec![]))) };
        }
        let (mut states, mut objs): (Vec<(u8, Option<Pay>)>, Vec<(Option<u16>, Option<Vec<u32>>)>) = (vec![], vec![]);
        let places: Vec<usize> = if mixed { (0..n).chain((0..n).rev()).collect() } else { (0..2 * n).map(|k| k / 2).collect() };
        // a node refers to the next node of its contract that there is, the leaves are empty
        let own: Vec<Vec<u32>> = { let mut v = vec![vec![]; n]; for (o, c) in places.iter().enumerate() { v[*c].push(o as u32) } v };
        for (o, c) in places.iter().enumerate() {
            if *c == other && other != at {
                objs.push((Some(*c as u16), Some(vec![])));
                continue;
            }
            let next = if own[*c][0] == o as u32 { own[*c][1] } else { own[*c][0] };
            let s = states.len() as u32;
            for p in [Pay::Num(1, (*c as u64 * 7 + (next > o as u32) as u64) % 256), Pay::Obj(next), Pay::Con(if other != at && next > o as u32 { other as u16 } else { *c as u16 })] {
                states.push((p.tag(), Some(p)))
            }
            objs.push((Some(*c as u16), Some(vec![s, s + 1, s + 2])));
        }
        ch.state(fnv(fnv(n as u64, at as u64), other as u64 * 2 + mixed as u64));
        ch.log(|| format!("{n} contracts, mc.node at {at}, mc.leaf at {other}, objects {}", if mixed { "interleaved" } else { "in order" }));
        let c = Content { cons: Some(cons), states: Some(states), objs: Some(objs) };
        let (asked, reading): (&[usize], _) = if other == at { (&[1], vec![1]) } else { (&[1, 0], vec![0, 1]) };
        let data = c.bytes();
        let (told, soft) = match c.meaning(asked) {
            Ok(x) => x,
            Err(e) => panic!("HARNESS: {e}"),
        };
        assert!(!soft && told.len() == 2 * asked.len(), "HARNESS");
        let p = Plan { write: vec![], register: asked.to_vec(), read: reading, kind: BaselineKind::Fork };
        match read(&data, &p)? {
            Read::Done(mut b, cons) => {
                let seen = sane(&mut b, &cons, p.kind)?;
                tell(&told, &seen, &cons)?
            }
            Read::No(_, e) => return mcx::viol("refused", format!("a good buffer with {n} contracts is refused: {e}")),
        }
        ch.outcome(n as u64);
        Ok(())
    });
}
pub fn corrupt(ctx: &Ctx) {
    crowd(ctx);
    for all in [true, false] {
        let good = Content::good(all);
        let asked: &[usize] = if all { &[3, 0, 1] } else { &[1, 0] };
        let n = if all { 6 } else { 2 };
        let orders: Vec<Vec<usize>> = if all { vec![vec![0, 1, 3], vec![3, 1, 0], vec![1, 0, 3], vec![0, 3, 1], vec![1, 3, 0], vec![3, 0, 1]] } else { vec![vec![0, 1], vec![1, 0]] };
        let orders = &orders;
        let faults = Fault::all(&good, all);
        let (g, f) = (&good, &faults);
        if all {
            ctx.explore("faults", 2, &format!("a buffer written by hand with three contracts, four objects and all types of values, with each of {} faults (parts missing, empty, longer, shorter, with indices out of range, of other types, referred to twice), read in {n} orders: refused, or read as it says", faults.len()), |ch: &mut Ch| {
                let k = ch.pick(f.len() + 1);
                let order = orders[ch.pick(n)].clone();
                let mut c = g.clone();
                if k > 0 {
                    f[k - 1].put(&mut c)
                }
                ch.state(k as u64);
                try_content(ch, &c, asked, order)
            });
        } else {
            let wide = ctx.by(false, true);
            ctx.explore("two faults", 2, &format!("a buffer with two contracts and three objects, with each {} of {} faults", if wide { "two in each order" } else { "two" }, faults.len()), |ch: &mut Ch| {
                let x = ch.pick(f.len());
                let y = if wide { ch.pick(f.len()) } else { x + ch.pick(f.len() - x) };
                let order = orders[if wide { ch.pick(n) } else { (x + y) % n }].clone();
                let mut c = g.clone();
                f[x].put(&mut c);
                f[y].put(&mut c);
                ch.state(fnv(x as u64, y as u64));
                try_content(ch, &c, asked, order)
            });
            let data = g.bytes();
            let (data, len) = (&data, data.len());
            let p = Plan { write: vec![], register: asked.to_vec(), read: vec![0, 1], kind: BaselineKind::Main };
            let p = &p;
            let run = |ch: &mut Ch, d: &[u8]| -> Res {
                let r = read(d, p)?;
                ch.step();
                ch.outcome(match r {
                    Read::Done(mut b, c) => {
                        sane(&mut b, &c, p.kind)?;
                        9
                    }
                    Read::No(n, _) => n as u64,
                });
                Ok(())
            };
            ctx.explore("bytes", 2, &format!("a good buffer of {len} bytes with each byte set to each of the 255 other values: refused, or everything that is read is in order"), |ch: &mut Ch| {
                let at = ch.pick(len);
                let to = ch.pick(256) as u8;
                let mut d = data.clone();
                d[at] = to;
                ch.state(fnv(at as u64, to as u64));
                ch.log(|| format!("byte {at} of {len} is {to} instead of {}", data[at]));
                run(ch, &d)
            });
            ctx.explore("cut", 1, "a good buffer cut off at every place, and from every place on, and with every word of 4 bytes left out", |ch: &mut Ch| {
                let at = ch.pick(len + 1);
                let how = ch.pick(3);
                let d = match how {
                    0 => data[..at].to_vec(),
                    1 => data[at..].to_vec(),
                    _ => data.iter().enumerate().filter(|x| x.0 < at || x.0 >= at + 4).map(|x| *x.1).collect(),
                };
                ch.state(fnv(at as u64, how as u64));
                run(ch, &d)
            });
            if ctx.by(false, true) {
                ctx.explore("two bytes", 2, &format!("a good buffer with each two of its bytes set to two of {} values", BYTES.len()), |ch: &mut Ch| {
                    let x = ch.pick(len);
                    let y = x + ch.pick(len - x);
                    let mut d = data.clone();
                    d[x] = BYTES[ch.pick(8)];
                    if y > x {
                        d[y] = BYTES[ch.pick(8)];
                    }
                    ch.state(fnv(x as u64, y as u64));
                    run(ch, &d)
                });
            }
        }
    }
}
