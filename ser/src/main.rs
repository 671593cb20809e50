//! What a baseline is after it was serialized and read back (C29), through the real serializer of /repo.
mod contracts;
mod corrupt;
mod near;
use contracts::*;
use flatbuffers::FlatBufferBuilder;
use mcx::{catch, ensure, fnv, hash_of, viol, Ch, Ctx, Res};
use std::collections::BTreeMap;
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::dynamic::{TpPrimitiveType, TpPropertyType};
use tp_client::contract::properties::channels::{dyn_channel::{DynChannel, DynChannelPrimitive}, Channel};
use tp_client::contract::{Contract, ContractDataHandle};
use tp_client::object::ObjectHandle;
use tp_client::time::{Ticks, TimeWarp};
use tp_serialize::primitive::{TpPrimitive, TpPrimitiveKind};
use tp_serialize::{DeserializerBuilder, Serializer};

pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match catch(f) {
        Ok(x) => Ok(x),
        Err((at, m)) => viol("panic", format!("{what} panics at {at}: {m}")),
    }
}
fn made<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Res<T> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => viol("refused", format!("{what} fails: {e:#}")),
    }
}
/// What objects there are and what they refer to, by number
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Graph {
    leaves: usize,
    /// next, kind
    nodes: Vec<(usize, usize)>,
    pairs: Vec<(usize, usize)>,
    /// object, contract
    alls: Vec<(usize, usize)>,
    /// which removals came before
    holes: usize,
}
impl Graph {
    fn size(&self) -> usize {
        self.leaves + self.nodes.len() + self.pairs.len() + self.alls.len()
    }
    fn con_of(&self, o: usize) -> usize {
        if o < self.leaves { 0 } else if o < self.leaves + self.nodes.len() { 1 } else if o < self.size() - self.alls.len() { 2 } else { 3 }
    }
    /// Object references and contract references of object `o`
    fn refs(&self, o: usize) -> (Vec<usize>, Vec<usize>) {
        let i = o - [0, self.leaves, self.leaves + self.nodes.len(), self.size() - self.alls.len()][self.con_of(o)];
        match self.con_of(o) {
            0 => (vec![], vec![]),
            1 => (vec![self.nodes[i].0], vec![self.nodes[i].1]),
            2 => (vec![self.pairs[i].0, self.pairs[i].1], vec![]),
            _ => (vec![self.alls[i].0], vec![self.alls[i].1]),
        }
    }
}
/// The baseline of a graph; `fill` gives the plain fields of the `All` objects.
fn build(g: &Graph, fill: &dyn Fn(usize, &mut Baseline, &All, ObjectHandle) -> Res) -> Res<(Baseline, Cons)> {
    let mut b = Baseline::new(if g.size() % 2 == 0 { BaselineKind::Fork } else { BaselineKind::Main });
    let e = |e: eyre::Report| format!("{e:#}");
    let c = Cons {
        leaf: Some(b.register_contract().map_err(e).expect("HARNESS")),
        node: Some(b.register_contract().map_err(e).expect("HARNESS")),
        pair: Some(b.register_contract().map_err(e).expect("HARNESS")),
        all: Some(b.register_contract().map_err(e).expect("HARNESS")),
    };
    let (leaf, node, pair, all) = (c.leaf.as_ref().unwrap(), c.node.as_ref().unwrap(), c.pair.as_ref().unwrap(), c.all.as_ref().unwrap());
    let cons: Vec<ContractDataHandle> = c.handles().into_iter().map(|x| x.1).collect();
    // refers to nothing yet
    let first = b.object_create(leaf, [].into_iter(), [].into_iter()).expect("HARNESS");
    let mut extra = vec![];
    let mut hs = vec![];
    for o in 0..g.size() {
        if g.holes > 0 && o % 2 == 0 {
            extra.push(b.object_create(leaf, [].into_iter(), [].into_iter()).expect("HARNESS"));
        }
        let tag = o as u8;
        hs.push(match g.con_of(o) {
            0 => b.object_create(leaf, [].into_iter(), [].into_iter()),
            1 => b.object_create(node, [prop(tag), prop(first), prop(cons[0])].into_iter(), [].into_iter()),
            2 => b.object_create(pair, [prop(tag), prop(first), prop(first)].into_iter(), [].into_iter()),
            _ => b.object_create(all, [prop(tag), prop(0u16), prop(0u32), prop(0u64), prop(0i8), prop(0i16), prop(0i32), prop(0i64), prop(false), prop(0f32), prop(0f64), prop(String::new()), prop(first), prop(cons[0])].into_iter(), [].into_iter()),
        }.expect("HARNESS"));
        if g.holes > 1 && o == 0 {
            // the next object takes a used place
            b.object_remove::<Leaf>(extra.pop().unwrap()).expect("HARNESS");
        }
    }
    macro_rules! set {
        ($o:expr, $id:expr, $v:expr) => {{
            let h = b.bind_state($id, hs[$o]).expect("HARNESS");
            b.state_mut(h).expect("HARNESS").value = $v;
        }};
    }
    for o in 0..g.size() {
        let (r, k) = g.refs(o);
        match g.con_of(o) {
            0 => {}
            1 => {
                set!(o, node.states().next(), hs[r[0]]);
                set!(o, node.states().kind(), cons[k[0]])
            }
            2 => {
                set!(o, pair.states().a(), hs[r[0]]);
                set!(o, pair.states().b(), hs[r[1]])
            }
            _ => {
                set!(o, all.states().m(), hs[r[0]]);
                set!(o, all.states().n(), cons[k[0]]);
                fill(o, &mut b, all, hs[o])?
            }
        }
    }
    for x in extra.into_iter().chain([first]) {
        b.object_remove::<Leaf>(x).expect("HARNESS");
    }
    for (o, h) in hs.iter().enumerate().filter(|x| x.0 % 3 == 1) {
        // not part of what is written
        *b.object_mut(*h).expect("HARNESS").time_warp_mut() = TimeWarp { offset: Ticks::from(o as i32 - 2), scale: Default::default() };
    }
    Ok((b, c))
}
/// The result has these contracts' objects, with the same values, and nothing else.
fn same(a: &[(ObjectHandle, usize, Vec<Val>)], ac: &Cons, b: &[(ObjectHandle, usize, Vec<Val>)], bc: &Cons, of: &[usize]) -> Res {
    let a: Vec<_> = a.iter().filter(|x| of.contains(&x.1)).collect();
    for c in 0..4 {
        let (n, m) = (a.iter().filter(|x| x.1 == c).count(), b.iter().filter(|x| x.1 == c).count());
        ensure!(n == m, "objects", "{m} objects of contract {c} are read back of {n}");
    }
    let mut to: BTreeMap<usize, usize> = BTreeMap::new();
    let place = |l: &[&(ObjectHandle, usize, Vec<Val>)], h: ObjectHandle| l.iter().position(|x| x.0 == h);
    let bs: Vec<_> = b.iter().collect();
    let mut todo = vec![];
    for (i, x) in a.iter().enumerate().filter(|x| x.1 .1 != 0) {
        let Some(j) = b.iter().position(|y| y.1 == x.1 && y.2[0] == x.2[0]) else { return viol("value", format!("no object of contract {} has the tag {:?}", x.1, x.2[0])) };
        to.insert(i, j);
        todo.push((i, j));
    }
    for (i, j) in todo {
        let (x, y) = (a[i], bs[j]);
        ensure!(x.2.len() == y.2.len(), "value", "an object has {} states instead of {}", y.2.len(), x.2.len());
        for (k, (v, w)) in x.2.iter().zip(&y.2).enumerate() {
            let at = format!("state {k} of the object tagged {:?}", x.2[0]);
            match (v, w) {
                (Val::Obj(v), Val::Obj(w)) => {
                    let Some(v) = place(&a, *v) else { return viol("reference", format!("{at} refers to an object whose contract was left out")) };
                    let Some(w) = place(&bs, *w) else { return viol("reference", format!("{at} refers to an object that does not exist")) };
                    ensure!(a[v].1 == bs[w].1, "reference", "{at} refers to an object of contract {}, not {}", bs[w].1, a[v].1);
                    let old = *to.entry(v).or_insert(w);
                    ensure!(old == w && to.values().filter(|z| **z == w).count() == 1, "reference", "{at} refers to another object than before");
                }
                (Val::Con(v), Val::Con(w)) => ensure!(bc.number(*w).is_some() && ac.number(*v) == bc.number(*w), "reference", "{at} refers to contract {:?} instead of {:?}", bc.number(*w), ac.number(*v)),
                (v, w) => ensure!(v == w, "value", "{at} is {w:?} instead of {v:?}"),
            }
        }
    }
    Ok(())
}
const PERMS: [[usize; 4]; 24] = {
    let mut p = [[0; 4]; 24];
    let (mut n, mut i) = (0, 0);
    while i < 256 {
        let q = [i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6];
        if q[0] != q[1] && q[0] != q[2] && q[0] != q[3] && q[1] != q[2] && q[1] != q[3] && q[2] != q[3] {
            p[n] = q;
            n += 1
        }
        i += 1
    }
    p
};
/// Which contracts are written, registered and read, each in order
#[derive(Clone, Debug)]
struct Plan {
    write: Vec<usize>,
    register: Vec<usize>,
    read: Vec<usize>,
    kind: BaselineKind,
}
impl Plan {
    fn all(w: [usize; 4], g: [usize; 4], r: [usize; 4], kind: BaselineKind) -> Plan {
        Plan { write: w.to_vec(), register: g.to_vec(), read: r.to_vec(), kind }
    }
}
fn write(b: &Baseline, c: &Cons, order: &[usize]) -> Res<Vec<u8>> {
    let r = guard("the serializer", || {
        let mut s = Serializer::new(FlatBufferBuilder::new(), b);
        for i in order {
            match i {
                0 => s.serialize(c.leaf.as_ref().unwrap()),
                1 => s.serialize(c.node.as_ref().unwrap()),
                2 => s.serialize(c.pair.as_ref().unwrap()),
                _ => s.serialize(c.all.as_ref().unwrap()),
            }?
        }
        Ok::<_, eyre::Report>(s.finish().finished_data().to_vec())
    })?;
    made("serializing", r)
}
enum Read {
    Done(Baseline, Cons),
    /// refused at a stage: 0 the buffer itself, 1 registering, 2 reading objects, 3 the end
    No(usize, String),
}
fn read(data: &[u8], p: &Plan) -> Res<Read> {
    guard("the deserializer", || {
        let mut c = Cons::default();
        let mut d = match DeserializerBuilder::new(data, p.kind) {
            Ok(d) => d,
            Err(e) => return Read::No(0, format!("{e:#}")),
        };
        for i in &p.register {
            let r = match i {
                0 => d.register_contract().map(|x| c.leaf = Some(x)),
                1 => d.register_contract().map(|x| c.node = Some(x)),
                2 => d.register_contract().map(|x| c.pair = Some(x)),
                _ => d.register_contract().map(|x| c.all = Some(x)),
            };
            if let Err(e) = r {
                return Read::No(1, format!("{e:#}"));
            }
        }
        let mut d = d.finish();
        for i in &p.read {
            let r = match i {
                0 => d.deserialize_objects(c.leaf.as_ref().unwrap()),
                1 => d.deserialize_objects(c.node.as_ref().unwrap()),
                2 => d.deserialize_objects(c.pair.as_ref().unwrap()),
                _ => d.deserialize_objects(c.all.as_ref().unwrap()),
            };
            if let Err(e) = r {
                return Read::No(2, format!("{e:#}"));
            }
        }
        match d.finish() {
            Ok(b) => Read::Done(b, c),
            Err(e) => Read::No(3, format!("{e:#}")),
        }
    })
}
/// A baseline that was read: of the right kind, everything in it resolves, nothing is left over.
fn sane(b: &mut Baseline, c: &Cons, kind: BaselineKind) -> Res<Vec<(ObjectHandle, usize, Vec<Val>)>> {
    ensure!(b.kind() == kind, "kind", "a baseline of kind {:?} is read as {:?}", kind, b.kind());
    let seen = c.look(b, "what was read")?;
    for (_, n, v) in &seen {
        for (k, v) in v.iter().enumerate() {
            match v {
                Val::Obj(o) => ensure!(seen.iter().any(|x| x.0 == *o), "reference", "state {k} of an object of contract {n} refers to an object that does not exist"),
                Val::Con(h) => ensure!(c.number(*h).is_some(), "reference", "state {k} of an object of contract {n} refers to no contract"),
                _ => {}
            }
        }
    }
    let r: Result<Null, _> = b.register_contract();
    ensure!(r.is_ok(), "leftover", "the contract of the stand-in object is still registered");
    Ok(seen)
}
fn trip(ch: &mut Ch, g: &Graph, p: &Plan, fill: &dyn Fn(usize, &mut Baseline, &All, ObjectHandle) -> Res) -> Res {
    let (b, c) = build(g, fill)?;
    let before = c.look(&b, "the baseline")?;
    ch.log(|| format!("{g:?}, {p:?}"));
    let data = write(&b, &c, &p.write)?;
    ch.step();
    ensure!(data[4..8] == *tp_serialize::PREFIX.as_bytes(), "prefix", "the buffer is marked {:?}", &data[4..8]);
    ensure!(c.look(&b, "the baseline")? == before, "changed", "serializing changes the baseline");
    let r = read(&data, p)?;
    ch.step();
    // what must become of it
    let unknown = p.register.iter().any(|i| !p.write.contains(i));
    let objs = || (0..g.size()).filter(|o| p.read.contains(&g.con_of(*o)));
    let lost_con = objs().any(|o| g.refs(o).1.iter().any(|k| !p.register.contains(k)));
    let lost_obj = objs().any(|o| g.refs(o).0.iter().any(|t| !p.read.contains(&g.con_of(*t))));
    ch.state(hash_of(&(g, &p.write, &p.register, &p.read)));
    let stage = match r {
        Read::Done(mut b2, c2) => {
            ensure!(!unknown, "unnoticed", "a contract that was not serialized is registered");
            ensure!(!lost_con && !lost_obj, "unnoticed", "a reference to something that was not read goes unnoticed");
            let seen = sane(&mut b2, &c2, p.kind)?;
            same(&before, &c, &seen, &c2, &p.read)?;
            4
        }
        Read::No(stage, e) => {
            let ok = match stage {
                0 => false,
                1 => unknown,
                2 => lost_con,
                _ => lost_obj,
            };
            ensure!(ok, "refused", "reading fails: {e}");
            stage
        }
    };
    ch.outcome(fnv(g.size() as u64, stage as u64));
    Ok(())
}
fn plain(_: usize, _: &mut Baseline, _: &All, _: ObjectHandle) -> Res {
    Ok(())
}
const KINDS: [BaselineKind; 2] = [BaselineKind::Main, BaselineKind::Fork];
fn graphs(ctx: &Ctx) {
    let (perms, objs) = ctx.by((6usize, 3usize), (24, 4));
    ctx.explore("graphs", 3, &format!("all graphs of up to {objs} objects of four contracts (leaves, nodes and records with an object and a contract reference, pairs of object references): every assignment of references to live objects, with and without removed objects before; {perms} orders of writing, the reverse ones of registering, all of reading"), |ch: &mut Ch| {
        let mut g = Graph { leaves: ch.pick(3.min(objs)), ..Default::default() };
        let (n, p, a) = loop {
            // how the rest is shared out
            let rest = objs - g.leaves;
            let n = ch.pick(rest + 1);
            let p = ch.pick(rest - n + 1);
            let a = ch.pick((rest - n - p).min(1) + 1);
            break (n, p, a);
        };
        let all = g.leaves + n + p + a;
        if all == 0 {
            return Ok(());
        }
        for _ in 0..n {
            g.nodes.push((ch.pick(all), ch.pick(4)))
        }
        for _ in 0..p {
            g.pairs.push((ch.pick(all), ch.pick(all)))
        }
        for _ in 0..a {
            g.alls.push((ch.pick(all), 0))
        }
        g.holes = ch.pick(3);
        let w = PERMS[ch.pick(perms) * (24 / perms)];
        let mut reg = w;
        reg.reverse();
        let r = PERMS[ch.pick(perms) * (24 / perms) + (24 / perms) / 2];
        trip(ch, &g, &Plan::all(w, reg, r, KINDS[g.holes & 1]), &plain)
    });
    ctx.explore("parts", 3, "two graphs; all subsets of the contracts written, and of those registered and read, in which nothing refers to what is not written: references to parts that are left out are refused", |ch: &mut Ch| {
        let g = [Graph { leaves: 1, nodes: vec![(0, 0), (2, 2)], pairs: vec![(0, 3)], alls: vec![(4, 1)], holes: 1 }, Graph { leaves: 2, nodes: vec![(2, 1)], pairs: vec![(0, 1), (3, 3)], alls: vec![(1, 3)], holes: 2 }][ch.pick(2)].clone();
        let pick = |ch: &mut Ch, of: &[usize]| -> Vec<usize> {
            let m = ch.pick(1 << of.len());
            of.iter().enumerate().filter(|x| m >> x.0 & 1 == 1).map(|x| *x.1).collect()
        };
        let write = pick(ch, &[0, 1, 2, 3]);
        if (0..g.size()).filter(|o| write.contains(&g.con_of(*o))).any(|o| g.refs(o).0.iter().any(|t| !write.contains(&g.con_of(*t))) || g.refs(o).1.iter().any(|k| !write.contains(k))) {
            return Ok(());
        }
        let mut register = pick(ch, &[0, 1, 2, 3]);
        let read = pick(ch, &register.clone());
        if ch.flip() {
            register.reverse()
        }
        let kind = KINDS[ch.pick(2)];
        trip(ch, &g, &Plan { write, register, read, kind }, &plain)
    });
}
fn values(ctx: &Ctx) {
    macro_rules! ints { ($($t:ident $id:ident),+) => { vec![$(
        {
            let v: Vec<$t> = vec![0, 1, 2, $t::MAX, $t::MAX - 1, $t::MIN, $t::MIN + 1, $t::MAX / 2, $t::MAX / 2 + 1, 127, 100 ];
            (stringify!($t), v.into_iter().map(|v| Box::new(move |b: &mut Baseline, c: &All, o: ObjectHandle| put(b, c.states().$id(), o, v)) as Set).collect::<Vec<Set>>())
        }
    ),+] } }
    type Set = Box<dyn Fn(&mut Baseline, &All, ObjectHandle) + Sync + Send>;
    fn put<T: tp_client::contract::properties::traits::ITpPropertyStatic>(b: &mut Baseline, id: tp_client::contract::properties::states::StateId<T>, o: ObjectHandle, v: T) {
        let h = b.bind_state(id, o).expect("HARNESS");
        b.state_mut(h).expect("HARNESS").value = v;
    }
    let mut all: Vec<(&str, Vec<Set>)> = ints!(u16 b, u32 c, u64 d, i8 e, i16 f, i32 g, i64 h);
    all.push(("bool", [true, false].map(|v| Box::new(move |b: &mut Baseline, c: &All, o: ObjectHandle| put(b, c.states().i(), o, v)) as Set).into_iter().collect()));
    all.push(("f32", [0.0, -0.0, 1.0, -1.5, f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::from_bits(1), f32::from_bits(0xffc0_1234)].map(|v| Box::new(move |b: &mut Baseline, c: &All, o: ObjectHandle| put(b, c.states().j(), o, v)) as Set).into_iter().collect()));
    all.push(("f64", [0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::from_bits(1), f64::from_bits(0xfff8_0000_0012_3456)].map(|v| Box::new(move |b: &mut Baseline, c: &All, o: ObjectHandle| put(b, c.states().k(), o, v)) as Set).into_iter().collect()));
    let texts: Vec<String> = ["", "a", "\0", "a\0b", "\u{feff}x", "zwei \u{20ac}", "\u{1f600}\u{10ffff}", " \n\t", "\u{80}\u{7ff}\u{800}\u{ffff}"].iter().map(|s| s.to_string()).chain((1..20).map(|n| "x".repeat(n))).chain([255, 256, 65535, 65536, 70001].map(|n| "y".repeat(n))).collect();
    all.push(("String", texts.into_iter().map(|v| Box::new(move |b: &mut Baseline, c: &All, o: ObjectHandle| put(b, c.states().l(), o, v.clone())) as Set).collect()));
    let all = &all;
    let flat: Vec<(usize, usize)> = all.iter().enumerate().flat_map(|(t, x)| (0..x.1.len()).map(move |v| (t, v))).collect();
    let flat = &flat;
    let pairs = ctx.by(false, true);
    ctx.explore("values", 2, &format!("records with a field of every type: each of {} values of each field alone in one object and as default in another, and all pairs of values {}", flat.len(), if pairs { "of all fields" } else { "of each field, in two objects" }), |ch: &mut Ch| {
        let x = flat[ch.pick(flat.len())];
        let y = if pairs { flat[ch.pick(flat.len())] } else { (x.0, ch.pick(all[x.0].1.len())) };
        let g = Graph { leaves: 1, alls: vec![(0, 0), (2, 3)], ..Default::default() };
        let fill = |o: usize, b: &mut Baseline, c: &All, h: ObjectHandle| -> Res {
            if o == 1 {
                all[x.0].1[x.1](b, c, h)
            }
            if o == 2 || x.0 != y.0 {
                all[y.0].1[y.1](b, c, h)
            }
            Ok(())
        };
        ch.log(|| format!("value {} of {} in the first object, value {} of {} in the second", x.1, all[x.0].0, y.1, all[y.0].0));
        let r = trip(ch, &g, &Plan::all([0, 1, 2, 3], [0, 1, 2, 3], [3, 2, 1, 0], BaselineKind::Main), &fill);
        ch.state(hash_of(&(x, y)));
        ch.outcome(x.0 as u64);
        r
    });
    ctx.explore("many", 1, "chains, rings and stars of 1 to 40 nodes and of 300, 3000, with every other one removed before or not", |ch: &mut Ch| {
        let n = [1, 2, 3, 7, 8, 9, 40, 300, 3000][ch.pick(9)];
        let shape = ch.pick(4);
        // tags are a byte, so chains are told apart in pairs of objects of up to 256
        let m = n.min(256);
        let g = match shape {
            0 => Graph { nodes: (0..m).map(|i| ((i + 1).min(m - 1), i % 4)).collect(), ..Default::default() },
            1 => Graph { nodes: (0..m).map(|i| ((i + 1) % m, i % 3)).collect(), ..Default::default() },
            2 => Graph { leaves: 1, pairs: (0..m.min(255)).map(|i| (0, i / 2)).collect(), ..Default::default() },
            _ => Graph { leaves: n, nodes: vec![(n - 1, 1)], ..Default::default() },
        };
        if shape == 3 && n > 200 {
            let g = Graph { leaves: n, ..Default::default() };
            return trip(ch, &g, &Plan::all([0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], BaselineKind::Main), &plain);
        }
        let g = Graph { holes: ch.pick(3), ..g };
        trip(ch, &g, &Plan::all([0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], BaselineKind::Main), &plain)
    });
}
/// Numbers of more than two bytes
fn large(ctx: &Ctx) {
    ctx.explore("large", 1, "a ring of 200 nodes behind 66000 leaves, and 22000 nodes (66000 states), written and read in two orders", |ch: &mut Ch| {
        let states = ch.flip();
        let order: Vec<usize> = if ch.flip() { vec![0, 1] } else { vec![1, 0] };
        ch.state(states as u64 * 2 + order[0] as u64);
        ch.outcome(order[0] as u64);
        let g = if states { Graph { leaves: 1, nodes: (0..22000).map(|i| (0, i & 1)).collect(), ..Default::default() } } else { Graph { leaves: 66000, nodes: (0..200).map(|i| (66000 + (i + 1) % 200, i & 1)).collect(), ..Default::default() } };
        let p = Plan { write: order.clone(), register: order.clone(), read: order, kind: BaselineKind::Main };
        if !states {
            return trip(ch, &g, &p, &plain);
        }
        let (b, c) = build(&g, &plain)?;
        let data = write(&b, &c, &p.write)?;
        let sum = |b: &Baseline, c: &Cons| -> Res<Vec<(u64, Option<usize>)>> {
            let mut v = vec![];
            let leaf: Vec<ObjectHandle> = b.contract_data(c.leaf.as_ref().unwrap().handle()).expect("HARNESS").objects().iter().copied().collect();
            for (_, k, vals) in c.look(b, "a large baseline")?.into_iter().filter(|x| x.1 == 1) {
                let (Val::Num("u8", tag), Val::Obj(o), Val::Con(h)) = (&vals[0], &vals[1], &vals[2]) else { return viol("value", format!("an object of contract {k} has the values {vals:?}")) };
                ensure!(leaf == [*o], "reference", "a node does not refer to the one leaf");
                v.push((*tag, c.number(*h)));
            }
            v.sort();
            Ok(v)
        };
        ch.step();
        match read(&data, &p)? {
            Read::Done(b2, c2) => ensure!(sum(&b, &c)? == sum(&b2, &c2)?, "value", "the values of 22000 nodes are not the same"),
            Read::No(_, e) => return viol("refused", format!("reading fails: {e}")),
        }
        Ok(())
    });
}
/// Contracts that are nearly the one that was written, or cannot be written
fn near(ctx: &Ctx) {
    ctx.explore("near misses", 1, "a contract that differs in one part of its version, its name, its fields' names, types, order or number: refused, and nothing is lost by asking", |ch: &mut Ch| {
        let g = Graph { leaves: 1, nodes: vec![(1, 1), (0, 0)], ..Default::default() };
        let (b, c) = build(&g, &plain)?;
        let before = c.look(&b, "the baseline")?;
        let data = write(&b, &c, &[0, 1, 2, 3])?;
        let first = ch.flip();
        let which = ch.pick(14);
        ch.step();
        ch.state(which as u64 * 2 + first as u64);
        ch.log(|| format!("near miss {which}, asked for {}", if first { "first" } else { "last" }));
        let (r, out) = guard("the deserializer", || {
            let mut d = DeserializerBuilder::new(&data, BaselineKind::Main).map_err(|e| format!("{e:#}"))?;
            let mut c = Cons::default();
            let mut r = Ok(());
            for step in 0..2 {
                if (step == 0) == first {
                    r = match which {
                        0 => d.register_contract::<NodeMajor>().map(|_| ()),
                        1 => d.register_contract::<NodeMinor>().map(|_| ()),
                        2 => d.register_contract::<NodePatch>().map(|_| ()),
                        3 => d.register_contract::<NodeName>().map(|_| ()),
                        4 => d.register_contract::<NodeLonger>().map(|_| ()),
                        5 => d.register_contract::<NodeShorter>().map(|_| ()),
                        6 => d.register_contract::<NodeLeaf>().map(|_| ()),
                        7 => d.register_contract::<NodeField>().map(|_| ()),
                        8 => d.register_contract::<NodeType>().map(|_| ()),
                        9 => d.register_contract::<NodeType2>().map(|_| ()),
                        10 => d.register_contract::<NodeOrder>().map(|_| ()),
                        11 => d.register_contract::<NodeMore>().map(|_| ()),
                        12 => d.register_contract::<NodeList>().map(|_| ()),
                        _ => d.register_contract::<NodeLess>().map(|_| ()),
                    };
                } else {
                    c.leaf = Some(d.register_contract().map_err(|e| format!("{e:#}"))?);
                    c.node = Some(d.register_contract().map_err(|e| format!("{e:#}"))?);
                    c.pair = Some(d.register_contract().map_err(|e| format!("{e:#}"))?);
                    c.all = Some(d.register_contract().map_err(|e| format!("{e:#}"))?);
                }
            }
            let mut d = d.finish();
            d.deserialize_objects(c.node.as_ref().unwrap()).map_err(|e| format!("{e:#}"))?;
            d.deserialize_objects(c.leaf.as_ref().unwrap()).map_err(|e| format!("{e:#}"))?;
            Ok::<_, String>((r, d.finish().map(|b| (b, c)).map_err(|e| format!("{e:#}"))))
        })?.or_else(|e| viol("refused", format!("reading fails: {e}")))?;
        ensure!(r.is_err(), "unnoticed", "a contract is accepted for one that it differs from");
        let (mut b2, c2) = made("reading", out)?;
        let seen = sane(&mut b2, &c2, BaselineKind::Main)?;
        same(&before, &c, &seen, &c2, &[0, 1])?;
        ch.outcome(which as u64);
        Ok(())
    });
    ctx.explore("several alike", 1, "five contracts that differ in their version or name only, written in 5 orders and registered in 5: each gets its own objects", |ch: &mut Ch| {
        let (w, r) = (ch.pick(5), ch.pick(5));
        ch.step();
        ch.state((w * 5 + r) as u64);
        ch.outcome((w * 5 + r) as u64);
        let mut b = Baseline::new(BaselineKind::Main);
        macro_rules! with { ($i:expr, $f:ident $(, $a:expr)*) => { match $i { 0 => $f::<Node>($($a),*), 1 => $f::<NodeMajor>($($a),*), 2 => $f::<NodeMinor>($($a),*), 3 => $f::<NodePatch>($($a),*), _ => $f::<NodeName>($($a),*) } } }
        fn fill<C: Contract<States = NodeS>>(b: &mut Baseline, n: u8, leaf: ObjectHandle, kind: ContractDataHandle) -> ContractDataHandle {
            let c: C = b.register_contract().expect("HARNESS");
            for i in 0..=n {
                b.object_create(&c, [prop(n * 10 + i), prop(leaf), prop(kind)].into_iter(), [].into_iter()).expect("HARNESS");
            }
            c.handle()
        }
        let leaf: Leaf = b.register_contract().expect("HARNESS");
        let o = b.object_create(&leaf, [].into_iter(), [].into_iter()).expect("HARNESS");
        let mut hs = vec![];
        for i in 0..5u8 {
            let kind = hs.last().copied().unwrap_or(leaf.handle());
            hs.push(with!(i, fill, &mut b, i, o, kind))
        }
        let hs = &hs;
        let data = guard("the serializer", || {
            let mut s = Serializer::new(FlatBufferBuilder::new(), &b);
            s.serialize(&leaf)?;
            fn one<C: Contract>(s: &mut Serializer, h: ContractDataHandle) -> eyre::Result<()> {
                s.serialize(&C::new(h))
            }
            for i in 0..5 {
                let i = (i + w) % 5;
                with!(i, one, &mut s, hs[i])?
            }
            Ok::<_, eyre::Report>(s.finish().finished_data().to_vec())
        })?;
        let data = made("serializing", data)?;
        let got = guard("the deserializer", || {
            let mut d = DeserializerBuilder::new(&data, BaselineKind::Main)?;
            fn reg<C: Contract>(d: &mut DeserializerBuilder) -> eyre::Result<ContractDataHandle> {
                Ok(d.register_contract::<C>()?.handle())
            }
            fn objs<C: Contract>(d: &mut impl Reads, h: ContractDataHandle) -> eyre::Result<()> {
                d.deserialize_objects(&C::new(h))
            }
            let leaf: Leaf = d.register_contract()?;
            let mut hs = vec![leaf.handle(); 5];
            for i in 0..5 {
                let i = (i + r) % 5;
                hs[i] = with!(i, reg, &mut d)?
            }
            let mut d = d.finish();
            d.deserialize_objects(&leaf)?;
            for i in 0..5 {
                with!(i, objs, &mut d, hs[i])?
            }
            Ok::<_, eyre::Report>((d.finish()?, leaf.handle(), hs))
        })?;
        let (b2, l2, h2) = made("reading", got)?;
        for i in 0..5 {
            let Ok(d) = b2.contract_data(h2[i]) else { return viol("contracts", "a contract is not registered") };
            let mut tags = vec![];
            for o in d.objects() {
                let v = vals(&b2, &Node::new(h2[i]), *o)?;
                ensure!(v[2] == Val::Con(if i == 0 { l2 } else { h2[i - 1] }), "reference", "an object of contract {i} refers to another contract than before");
                tags.push(v[0].clone())
            }
            tags.sort_by_key(|t| format!("{t:?}"));
            let want: Vec<Val> = (0..=i as u64).map(|k| Val::Num("u8", i as u64 * 10 + k)).collect();
            ensure!(tags == want, "objects", "contract {i} has the objects {tags:?} instead of {want:?}");
        }
        Ok(())
    });
    ctx.explore("channels", 1, "a contract with two channels and 0 to 2 objects that others refer to or not, written before or after them, and read or not: refused or read as written, the rest as without it", |ch: &mut Ch| {
        let (n, first, asked, refer) = (ch.pick(3), ch.flip(), ch.pick(3), ch.flip());
        ch.step();
        ch.state((n * 12 + asked * 4 + first as usize * 2 + refer as usize) as u64);
        let g = Graph { leaves: 1, nodes: vec![(1, 1), (0, 0)], ..Default::default() };
        let (mut b, c) = build(&g, &plain)?;
        let before = c.look(&b, "the baseline")?;
        let x: Chan = b.register_contract().expect("HARNESS");
        let leaf = before.iter().find(|o| o.1 == 0).unwrap().0;
        let own: Vec<ObjectHandle> = (0..n)
            .map(|k| {
                let chans = [DynChannel::Primitive(DynChannelPrimitive::U8(Channel::new([].into_iter()))), DynChannel::Primitive(DynChannelPrimitive::String(Channel::new([].into_iter())))];
                b.object_create(&x, [prop(70 + k as u8), prop(leaf), prop(x.handle())].into_iter(), chans.into_iter()).expect("HARNESS")
            })
            .collect();
        let refer = refer && n > 0;
        let node = c.node.as_ref().unwrap();
        if refer {
            let o = before.iter().find(|o| o.1 == 1).unwrap().0;
            let h = b.bind_state(node.states().next(), o).expect("HARNESS");
            b.state_mut(h).expect("HARNESS").value = own[0];
        }
        let data = guard("the serializer", || {
            let mut s = Serializer::new(FlatBufferBuilder::new(), &b);
            if first {
                s.serialize(&x)?
            }
            s.serialize(node)?;
            s.serialize(c.leaf.as_ref().unwrap())?;
            if !first {
                s.serialize(&x)?
            }
            Ok::<_, eyre::Report>(s.finish().finished_data().to_vec())
        })?;
        // a contract with channels may be refused here as well, but then nothing was lost
        let Ok(data) = data else { return Ok(()) };
        let got = guard("the deserializer", || {
            let mut d = DeserializerBuilder::new(&data, BaselineKind::Fork)?;
            let c2 = Cons { leaf: Some(d.register_contract()?), node: Some(d.register_contract()?), ..Default::default() };
            let x2: Option<Chan> = if asked > 0 { Some(d.register_contract()?) } else { None };
            let mut d = d.finish();
            if asked == 1 {
                d.deserialize_objects(x2.as_ref().unwrap())?
            }
            d.deserialize_objects(c2.leaf.as_ref().unwrap())?;
            d.deserialize_objects(c2.node.as_ref().unwrap())?;
            if asked == 2 {
                d.deserialize_objects(x2.as_ref().unwrap())?
            }
            Ok::<_, eyre::Report>((d.finish()?, c2, x2))
        })?;
        ch.outcome(got.is_ok() as u64);
        match got {
            Err(e) => ensure!((asked > 0 && n > 0) || refer, "refused", "reading fails: {e:#}"),
            Ok((mut b2, c2, x2)) => {
                ensure!(!refer || asked > 0, "unnoticed", "a reference to an object that was not read goes unnoticed");
                if let Some(x2) = x2 {
                    let Ok(d) = b2.contract_data(x2.handle()) else { return viol("contracts", "the contract is not registered") };
                    let mut tags = vec![];
                    for o in d.objects().clone() {
                        let v = vals(&b2, &x2, o)?;
                        ensure!(v[2] == Val::Con(x2.handle()), "reference", "an object with channels refers to another contract");
                        tags.push(format!("{:?}", v[0]));
                        made("binding a channel", b2.object(o).map(|_| ()))?;
                    }
                    tags.sort();
                    let want: Vec<String> = (0..n).map(|k| format!("{:?}", Val::Num("u8", 70 + k as u64))).collect();
                    ensure!(tags == want, "objects", "the objects with channels are {tags:?} instead of {want:?}");
                } else {
                    let seen = sane(&mut b2, &c2, BaselineKind::Fork)?;
                    same(&before, &c, &seen, &c2, &[0, 1])?
                }
            }
        }
        Ok(())
    });
    ctx.explore("lists", 1, "contracts with list states, before, between and after others, with and without objects: refused, and the rest is written as without them", |ch: &mut Ch| {
        let (at, which, objects) = (ch.pick(3), ch.pick(2), ch.flip());
        ch.step();
        ch.state((at * 4 + which * 2 + objects as usize) as u64);
        ch.outcome(at as u64);
        let g = Graph { leaves: 1, nodes: vec![(1, 1), (0, 0)], ..Default::default() };
        let (mut b, c) = build(&g, &plain)?;
        let before = c.look(&b, "the baseline")?;
        use tp_client::contract::properties::dynamic::{DynTpPrimitive as D, DynTpProperty, DynTpVec};
        let v: Vecs = b.register_contract().expect("HARNESS");
        let w: Vecs2 = b.register_contract().expect("HARNESS");
        if objects {
            let _ = D::U8(1);
            b.object_create(&v, [prop(1u8), DynTpProperty::Vec(DynTpVec::U8(vec![1, 2]))].into_iter(), [].into_iter()).expect("HARNESS");
            b.object_create(&w, [prop(1u8), DynTpProperty::Vec(DynTpVec::String(vec!["x".into()])), prop(2u8)].into_iter(), [].into_iter()).expect("HARNESS");
        }
        let data = guard("the serializer", || {
            let mut s = Serializer::new(FlatBufferBuilder::new(), &b);
            let mut refused = false;
            for i in 0..3 {
                if i == at {
                    refused = if which == 0 { s.serialize(&v).is_err() } else { s.serialize(&w).is_err() };
                }
                if i == 0 {
                    s.serialize(c.node.as_ref().unwrap())?
                }
                if i == 1 {
                    s.serialize(c.leaf.as_ref().unwrap())?
                }
            }
            Ok::<_, eyre::Report>((refused, s.finish().finished_data().to_vec()))
        })?;
        let (refused, data) = made("serializing", data)?;
        ensure!(refused, "unnoticed", "a contract with list states is serialized");
        let p = Plan { write: vec![0, 1], register: vec![0, 1], read: vec![1, 0], kind: BaselineKind::Fork };
        match read(&data, &p)? {
            Read::Done(mut b2, c2) => {
                let seen = sane(&mut b2, &c2, p.kind)?;
                same(&before, &c, &seen, &c2, &[0, 1])
            }
            Read::No(_, e) => viol("refused", format!("reading fails: {e}")),
        }
    });
}
/// `tp_serialize` does not export the type that reads objects under every name; this is its one method.
trait Reads {
    fn deserialize_objects<C: Contract>(&mut self, c: &C) -> eyre::Result<()>;
}
impl Reads for tp_serialize::Deserializer<'_> {
    fn deserialize_objects<C: Contract>(&mut self, c: &C) -> eyre::Result<()> {
        tp_serialize::Deserializer::deserialize_objects(self, c)
    }
}
/// The tags of the format and the types of Rust
fn tags(ctx: &Ctx) {
    use TpPrimitiveType as T;
    const TYPES: [T; 14] = [T::U8, T::U16, T::U32, T::U64, T::I8, T::I16, T::I32, T::I64, T::Bool, T::F32, T::F64, T::String, T::ObjectHandle, T::ContractDataHandle];
    ctx.explore("tags", 1, "all pairs of the 256 tags of values, 256 tags of types and 28 property types, compared both ways", |ch: &mut Ch| {
        let t = ch.pick(256);
        let value = TpPrimitive(t as u8);
        ch.step();
        ch.state(t as u64);
        ch.outcome(t.min(15) as u64);
        for k in 0..256usize {
            let kind = TpPrimitiveKind(k as u8 as i8);
            let want = t == k + 1 && k < 14;
            ensure!((value == kind) == want && (kind == value) == want, "tags", "{value:?} and {kind:?} are {} equal", if want { "not" } else { "said to be" });
        }
        for (i, ty) in TYPES.iter().enumerate() {
            for (p, vec) in [(TpPropertyType::Primitive(*ty), false), (TpPropertyType::Vec(*ty), true)] {
                let want = !vec && t == i + 1;
                ensure!((value == p) == want && (p == value) == want, "tags", "{value:?} and {p:?} are {} equal", if want { "not" } else { "said to be" });
                let kind = TpPrimitiveKind(t as u8 as i8);
                let want = !vec && t == i;
                ensure!((kind == p) == want && (p == kind) == want, "tags", "{kind:?} and {p:?} are {} equal", if want { "not" } else { "said to be" });
            }
            if t == i {
                let k = TpPrimitiveKind::from(*ty);
                ensure!(k == TpPrimitiveKind(i as i8), "tags", "{ty:?} is written as {k:?}");
            }
        }
        Ok(())
    });
}

fn main() {
    let ctx = Ctx::from_args();
    tags(&ctx);
    graphs(&ctx);
    values(&ctx);
    large(&ctx);
    near(&ctx);
    near::near(&ctx);
    corrupt::corrupt(&ctx);
    ctx.assume("flatbuffers, its compiler, bimap and dynpath are not available here: stand-ins written from the format's description, with the same interface and a verifier of the same strictness");
    ctx.assume("the sign of a zero is not part of a value: flatbuffers leave out fields that equal their default");
    ctx.finish();
}
