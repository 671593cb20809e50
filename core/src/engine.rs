//! Collactions and their queue (C09, C10, C11, C12).
use mc_core::types::*;
use mc_core::world::*;
use arena::generational_arena as ga;
use crossbeam_channel::{RecvTimeoutError, TryRecvError, TrySendError};
use mcx::{catch, ensure, fnv, viol, Ch, Ctx, Res};
use std::collections::VecDeque;
use std::time::{Duration, Instant};
use tp_client::action::property::{ChannelAction, PropertyAction, StateAction};
use tp_client::action::{Action, Collaction};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::states::DynStateHandle;
use tp_client::engine::{ActionSender, Engine};
use tp_client::realm::{Realm, RealmID};
use tp_client::time::Ticks;

/// Where an action points.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    /// state of object 0
    State(usize),
    /// state of a removed object
    Gone(usize),
    /// an index never issued, of this type
    Never(usize),
    /// channel of object 0 / of the removed object
    Chan(usize),
    GoneChan(usize),
    /// state of an object that only the main baseline has, in some runs
    Extra(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Act {
    assert: bool,
    at: At,
    ty: usize,
    v: u8,
}
/// A realm whose fork holds object 0 (live), object 1 (removed) and object 2 (live, a bystander)
/// of one contract, and whose main holds the same at other values.
struct Sys {
    e: Engine,
    tx: Option<ActionSender>,
    m: [Model; 2],
    time: i32,
    /// states of an object that only some main baselines have
    extra: Vec<ga::Index>,
}
const KINDS: [BaselineKind; 2] = [BaselineKind::Main, BaselineKind::Fork];
const MAIN: usize = 0;
const FORK: usize = 1;
fn sys(sh: &'static Shape, cap: Option<usize>) -> Option<Sys> {
    set_shape(0, sh);
    let mut realm = Realm::new(RealmID::new("r".into()));
    let mut m = [Model::default(), Model::default()];
    for w in [MAIN, FORK] {
        for op in [Op::Register(0), Op::Create(0, if w == MAIN { 1 } else { 0 }, Bad::Good), Op::Create(0, 2, Bad::Good), Op::Create(0, 1, Bad::Good), Op::Remove(0, 1)] {
            m[w].apply(realm.baseline_mut(KINDS[w]), op).ok()?;
        }
    }
    let (mut e, tx) = Engine::new(realm, cap);
    e.tick(Ticks::new(5));
    Some(Sys { e, tx: Some(tx), m, time: 5, extra: vec![] })
}
impl Sys {
    fn handle(&self, at: At) -> DynStateHandle {
        match at {
            At::State(f) => (o(self.m[FORK].objs[0].st[f].ty).dyn_state_handle)(self.m[FORK].objs[0].st[f].raw),
            At::Gone(f) => (o(self.m[FORK].objs[1].st[f].ty).dyn_state_handle)(self.m[FORK].objs[1].st[f].raw),
            At::Extra(f) => (o(self.m[FORK].objs[0].st[f].ty).dyn_state_handle)(self.extra[f]),
            At::Never(ty) => (o(ty).dyn_state_handle)(ga::Index::from_raw_parts(77, 9)),
            _ => panic!("HARNESS: not a state"),
        }
    }
    fn make(&self, a: &Act) -> Action {
        let data = (o(a.ty).mk)(a.v);
        Action::Property(match a.at {
            At::Chan(f) | At::GoneChan(f) => {
                let c = &self.m[FORK].objs[if matches!(a.at, At::Chan(_)) { 0 } else { 1 }].ch[f];
                let handle = (o(c.ty).dyn_chan_handle)(c.raw);
                PropertyAction::Channel(if a.assert { ChannelAction::Assert { handle, data } } else { ChannelAction::Write { handle, data } })
            }
            _ => {
                let handle = self.handle(a.at);
                PropertyAction::State(if a.assert { StateAction::Assert { handle, data } } else { StateAction::Write { handle, data } })
            }
        })
    }
    fn collaction(&self, acts: &[Act]) -> Collaction {
        Collaction::new(acts.iter().map(|a| self.make(a)).collect())
    }
    /// Is this the collaction made from `acts`? `applied`: the data of writes may have been exchanged.
    fn is(&self, c: &Collaction, acts: &[Act], applied: bool) -> Res {
        ensure!(c.actions().len() == acts.len(), "handed-back", "the collaction handed back has {} actions, {} were submitted", c.actions().len(), acts.len());
        for (i, (x, a)) in c.actions().iter().zip(acts).enumerate() {
            let Action::Property(p) = x;
            let (assert, state, data) = match p {
                PropertyAction::State(StateAction::Assert { handle, data }) => (true, Some(*handle), data),
                PropertyAction::State(StateAction::Write { handle, data }) => (false, Some(*handle), data),
                PropertyAction::Channel(ChannelAction::Assert { data, .. }) => (true, None, data),
                PropertyAction::Channel(ChannelAction::Write { data, .. }) => (false, None, data),
            };
            ensure!(assert == a.assert, "handed-back", "action {i} of the collaction handed back is another one");
            ensure!(state.is_none() == matches!(a.at, At::Chan(_) | At::GoneChan(_)), "handed-back", "action {i} of the collaction handed back is another one");
            if let Some(h) = state {
                ensure!(h == self.handle(a.at), "handed-back", "action {i} of the collaction handed back has another handle");
            }
            if !applied || assert {
                let got = (o(a.ty).decode)(data);
                ensure!(got == Some(a.v), "handed-back", "action {i} ({a:?}) of the collaction handed back carries value {got:?} of {}", NAMES[a.ty]);
            }
        }
        Ok(())
    }
    /// The reference: does the collaction apply? If so, its writes are made in the model.
    fn spec(&mut self, acts: &[Act]) -> bool {
        let mut vals: Vec<u8> = self.m[FORK].objs[0].st.iter().map(|s| s.v).collect();
        for a in acts {
            match a.at {
                At::State(f) => {
                    if self.m[FORK].objs[0].st[f].ty != a.ty {
                        return false;
                    }
                    if a.assert {
                        if !(o(a.ty).equal)(vals[f], a.v) {
                            return false;
                        }
                    } else {
                        vals[f] = a.v;
                    }
                }
                At::Gone(_) | At::Never(_) | At::Extra(_) => return false,
                // not implemented: no effect
                At::Chan(_) | At::GoneChan(_) => {}
            }
        }
        for (s, v) in self.m[FORK].objs[0].st.iter_mut().zip(vals) {
            s.v = v;
        }
        true
    }
    fn observe(&mut self, which: &[usize]) -> Res {
        ensure!(self.e.realm().time().ticks().as_millis() == self.time, "time", "the realm time is {:?}, expected {}", self.e.realm().time(), self.time);
        for &w in which {
            let b = self.e.realm_mut().baseline_mut(KINDS[w]);
            if let Err(f) = self.m[w].observe(b, KINDS[w], Depth::Light) {
                return viol(f.key, format!("{:?} baseline: {}", KINDS[w], f.msg.trim_start_matches("after Remove(0, 1): ")));
            }
        }
        Ok(())
    }
    fn hash(&self) -> u64 {
        fnv(self.m[FORK].hash(), self.time as u64)
    }
    /// Submits and applies one collaction, and compares the verdict, what is handed back and all
    /// that is observable.
    fn submit(&mut self, acts: &[Act], timed: bool) -> Res<bool> {
        let c = self.collaction(acts);
        let sent = self.tx.as_ref().unwrap().try_send(c).is_ok();
        ensure!(sent, "send", "an unbounded queue refused a collaction");
        let r = catch(|| if timed { self.e.apply_timeout(Duration::from_secs(5)).map_err(|_| ()) } else { self.e.try_apply().map_err(|_| ()) });
        let r = match r {
            Ok(r) => r,
            Err((m, l)) => return viol("panic", format!("applying {acts:?} panicked: {m} at {l}")),
        };
        let Ok(r) = r else { return viol("lost", format!("the submitted collaction {acts:?} was not found")) };
        let want = self.spec(acts);
        ensure!(r.is_ok() == want, "verdict", "the collaction {acts:?} was {}, expected it to be {}", if r.is_ok() { "accepted" } else { "rejected" }, if want { "accepted" } else { "rejected" });
        let c = match &r {
            Ok(c) => c,
            Err(c) => c,
        };
        self.is(c, acts, want)?;
        Ok(want)
    }
}

fn s(f: usize, ty: usize, assert: bool, v: u8) -> Act {
    Act { assert, at: At::State(f), ty, v }
}

/// Actions over three states (two of one type), a removed state and a never-issued handle.
fn alphabet(t: usize, u: usize, channels: bool) -> Vec<Act> {
    let mut v = vec![];
    for assert in [false, true] {
        // states 0 and 1 have type t (initially values 0 and 1), state 2 type u (value 2)
        v.push(s(0, t, assert, 0));
        v.push(s(0, t, assert, 1));
        v.push(s(1, t, assert, 1));
        v.push(s(1, t, assert, 0));
        v.push(s(2, u, assert, 2 % (o(u).n)() as u8));
        v.push(s(2, u, assert, 0));
        v.push(s(0, u, assert, 0));
        v.push(Act { assert, at: At::Gone(0), ty: t, v: 0 });
        v.push(Act { assert, at: At::Never(t), ty: t, v: 0 });
        if channels {
            v.push(Act { assert, at: At::Chan(0), ty: t, v: 0 });
            v.push(Act { assert, at: At::GoneChan(0), ty: t, v: 0 });
        }
    }
    v
}
fn lists(ctx: &Ctx, name: &str, len: usize, pairs: &[(usize, usize)], channels: bool, what: &str) {
    let pairs = pairs.to_vec();
    ctx.explore(name, 3, &what.replace("{d}", &len.to_string()).replace("{n}", &pairs.len().to_string()), |ch| {
        let (t, u) = ch.of(&pairs);
        let al = alphabet(t, u, channels);
        let n = ch.pick(len + 1);
        let acts: Vec<Act> = (0..n).map(|_| ch.of(&al)).collect();
        ch.log(|| format!("{acts:?}"));
        one(ch, shape(&[t, t, u], &[t]), &[acts])
    });
}
/// Applies collactions in turn to a fresh system.
fn one(ch: &mut Ch, sh: &'static Shape, cs: &[Vec<Act>]) -> Res {
    let Some(mut y) = sys(sh, None) else { return Ok(()) };
    for (i, acts) in cs.iter().enumerate() {
        ch.step();
        let ok = y.submit(acts, i % 2 == 1)?;
        ch.outcome(ok as u64);
        if ok && acts.iter().any(|a| matches!(a.at, At::Chan(_) | At::GoneChan(_))) {
            // what a channel action does is not stated
            return Ok(());
        }
        ch.state(y.hash());
        y.observe(&[FORK, MAIN])?;
    }
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    let few = [(0, 11), (10, 25), (8, 0)];
    let all: Vec<_> = (0..28).map(|t| (t, (t + 3) % 28)).collect();
    lists(ctx, "lists", ctx.by(4, 5), &few, false, "all collactions of up to {d} actions over 18 actions (assertions and writes, passing, failing, mistyped, with removed and unknown handles), {n} pairs of types");
    lists(ctx, "lists-all-types", ctx.by(3, 4), &all, false, "all collactions of up to {d} of the 18 actions, {n} pairs of types covering all 28");
    lists(ctx, "lists-channels", 3, &few, true, "all collactions of up to {d} of these and channel actions");
    ctx.explore("sequences", 3, &format!("all sequences of 3 collactions of up to 2 actions, the first two of which are {} over 18 actions", ctx.by("of one action or none", "any")), |ch| {
        let (t, u) = few[1];
        let al = alphabet(t, u, false);
        let cs: Vec<Vec<Act>> = (0..3)
            .map(|k| {
                let n = ch.pick(if k < 2 && ctx.quick() { 2 } else { 3 });
                (0..n).map(|_| ch.of(&al)).collect()
            })
            .collect();
        ch.log(|| format!("{cs:?}"));
        one(ch, shape(&[t, t, u], &[t]), &cs)
    });
    long(ctx);
    huge(ctx);
}
/// Long collactions that fail at every possible place.
fn long(ctx: &Ctx) {
    let lens: Vec<usize> = ctx.by(vec![8, 16, 17, 33, 65], vec![8, 16, 17, 32, 33, 64, 65, 128, 129, 257, 500]);
    ctx.explore("long", 1, &format!("collactions of {lens:?} writes to 3 states in 4 orders, with an assertion on the latest values before every write or none, failing at every place in 5 ways or not at all"), |ch| {
        let n = ch.of(&lens);
        let order = ch.pick(4);
        let asserts = ch.flip();
        let (t, u) = [(3, 11), (24, 0)][ch.pick(2)];
        let how = ch.pick(6);
        let at = if how == 5 { 0 } else { ch.pick(n + 1) };
        let mut acts = vec![];
        let mut vals = [0u8, 1, 2];
        for i in 0..n {
            let f = [i % 3, 0, (i / 2) % 3, if i == 0 { 1 } else { 0 }][order];
            let ty = if f == 2 { u } else { t };
            if asserts {
                acts.push(s(f, ty, true, vals[f]));
            }
            let v = (i % 3) as u8;
            acts.push(s(f, ty, false, v));
            vals[f] = v;
        }
        let bad = [
            Act { assert: false, at: At::Gone(1), ty: t, v: 0 },
            s(0, u, false, 0),
            s(0, u, true, 0),
            Act { assert: true, at: At::Never(t), ty: t, v: 0 },
            s(1, t, true, 4),
        ];
        if how < 5 {
            let k = if asserts { 2 * at } else { at };
            acts.insert(k.min(acts.len()), bad[how]);
        }
        ch.log(|| format!("{acts:?}"));
        let mut again = acts.clone();
        again.reverse();
        one(ch, shape(&[t, t, u], &[t]), &[acts, again])
    });
}

/// Collactions longer than any count that fits two bytes.
fn huge(ctx: &Ctx) {
    let n = ctx.by(67000, 140000);
    ctx.explore("huge", 1, &format!("a collaction of {n} writes to 3 states, failing after 1, 255 to 257, 65535 to 65537, all but one or all of them in 5 ways, or not at all; then its reverse"), |ch| {
        let (t, u) = (3, 11);
        let at = ch.of(&[1, 255, 256, 257, 1024, 4096, 65535, 65536, 65537, n - 1, n]);
        let how = if at == n { ch.pick(6) } else { ch.pick(5) };
        let mut acts: Vec<Act> = (0..n).map(|i| s(i % 3, if i % 3 == 2 { u } else { t }, false, (i / 3 % 3) as u8)).collect();
        let bad = [Act { assert: false, at: At::Gone(1), ty: t, v: 0 }, s(0, u, false, 0), s(0, u, true, 0), Act { assert: true, at: At::Never(t), ty: t, v: 0 }, s(1, t, true, 4)];
        if how < 5 {
            acts.insert(at, bad[how]);
        }
        ch.log(|| format!("{n} writes, failure {how} after {at}"));
        let mut again = acts.clone();
        again.reverse();
        one(ch, shape(&[t, t, u], &[t]), &[acts, again])
    });
}

pub fn c12(ctx: &Ctx) {
    // every state type and value against every data type and value
    ctx.explore("one-action", 1, "one assertion or write: every state type and value with every data type and value (28 types), a live, removed or never-issued handle", |ch| {
        let t = ch.pick(28);
        let init = ch.pick((o(t).n)()) as u8;
        let d = ch.pick(28);
        let v = ch.pick((o(d).n)()) as u8;
        let assert = ch.flip();
        let at = ch.of(&[At::State(0), At::Gone(0), At::Never(t)]);
        // set the state, then act, then see that an assertion changed nothing
        let acts = vec![Act { assert, at, ty: d, v }];
        ch.log(|| format!("state of {} at #{init}: {acts:?}", NAMES[t]));
        one(ch, shape(&[t], &[]), &[vec![s(0, t, false, init)], acts])
    });
    // lists on one state of every type
    let len = ctx.by(4, 5);
    ctx.explore("one-state", 2, &format!("all collactions of up to {len} actions on one state of each of the 28 types: assert or write one of 3 values, or a value of the vector/element type"), |ch| {
        let t = ch.pick(28);
        let n = (o(t).n)() as u8;
        let mut al = vec![];
        for assert in [false, true] {
            for v in 0..3.min(n) {
                al.push(s(0, t, assert, v));
            }
            al.push(s(0, (t + 14) % 28, assert, 0));
        }
        if n > 3 {
            al.push(s(0, t, true, n - 1));
            al.push(s(0, t, false, n - 1));
        }
        let k = 1 + ch.pick(len);
        let acts: Vec<Act> = (0..k).map(|_| ch.of(&al)).collect();
        ch.log(|| format!("{acts:?}"));
        one(ch, shape(&[t], &[]), &[acts])
    });
    lists(ctx, "lists", ctx.by(3, 4), &(0..28).map(|t| (t, (t + 3) % 28)).collect::<Vec<_>>(), false, "all collactions of up to {d} over 18 actions on 3 states, {n} pairs of types covering all 28");
}

/// C09: collactions change the fork only.
pub fn c09(ctx: &Ctx) {
    let len = 3;
    ctx.explore("collactions", 3, &format!("all collactions of up to {len} over 18 actions, 28 pairs of types; the main baseline is compared with its model afterwards"), |ch| {
        let t = ch.pick(28);
        let u = (t + 3) % 28;
        let al = alphabet(t, u, true);
        let n = ch.pick(len + 1);
        let acts: Vec<Act> = (0..n).map(|_| ch.of(&al)).collect();
        ch.log(|| format!("{acts:?}"));
        let Some(mut y) = sys(shape(&[t, t, u], &[t]), None) else { return Ok(()) };
        let c = y.collaction(&acts);
        let _ = y.tx.as_ref().unwrap().try_send(c);
        ch.step();
        let _ = catch(|| y.e.try_apply());
        for (w, k) in KINDS.iter().enumerate() {
            let got = y.e.realm().baseline(*k).kind();
            ensure!(got == KINDS[w], "kind", "the {k:?} baseline reports {got:?}");
        }
        y.observe(&[MAIN])
    });
}

/// C09: what the main baseline holds makes no difference to a collaction.
pub fn c09_blind(ctx: &Ctx) {
    let len = ctx.by(2, 3);
    ctx.explore("blind-to-main", 3, &format!("all collactions of up to {len} over 20 actions (handles live in both baselines, in one, in none), 28 pairs of types, each run with 4 contents of the main baseline (the same, other values, nothing, more objects): same verdict, same fork afterwards"), |ch| {
        let t = ch.pick(28);
        let u = (t + 3) % 28;
        let mut al = alphabet(t, u, false);
        for assert in [false, true] {
            // a state that is live in the richest main baseline only
            al.push(Act { assert, at: At::Extra(0), ty: t, v: 0 });
        }
        let n = 1 + ch.pick(len);
        let acts: Vec<Act> = (0..n).map(|_| ch.of(&al)).collect();
        ch.log(|| format!("{acts:?}"));
        let sh = shape(&[t, t, u], &[t]);
        let mut first = None;
        let mut extra = vec![];
        for main in [3, 0, 1, 2] {
            let Some(mut y) = sys(sh, None) else { return Ok(()) };
            let r = &mut y.m[MAIN];
            let b = y.e.realm_mut().baseline_mut(BaselineKind::Main);
            let ops: Vec<Op> = match main {
                0 => vec![],
                1 => (0..3).map(|f| Op::Write(0, f, Path::TypedMut, 2 % (o([t, t, u][f]).n)() as u8)).collect(),
                2 => vec![Op::Unregister(0, 0)],
                _ => vec![Op::Create(0, 0, Bad::Good), Op::Create(0, 0, Bad::Good)],
            };
            for op in ops {
                if r.apply(b, op).is_err() {
                    return Ok(());
                }
            }
            if main == 3 {
                extra = r.objs.last().unwrap().st.iter().map(|s| s.raw).collect();
            }
            y.extra = extra.clone();
            let c = y.collaction(&acts);
            let _ = y.tx.as_ref().unwrap().try_send(c);
            ch.step();
            let verdict = match catch(|| y.e.try_apply()) {
                Ok(Ok(r)) => if r.is_ok() { "accepted" } else { "rejected" },
                Ok(Err(_)) => "not found",
                Err(_) => "a panic",
            };
            // the values of the fork's states
            let fork = y.e.realm_mut().baseline_mut(BaselineKind::Fork);
            let st: Vec<(usize, ga::Index)> = [0, 2].iter().flat_map(|i| y.m[FORK].objs[*i].st.iter().map(|s| (s.ty, s.raw))).collect();
            let vals: Vec<Option<u8>> = st.into_iter().map(|(t, raw)| (o(t).read_state)(fork, raw, Path::Typed)).collect();
            let got = (verdict, vals);
            match &first {
                None => first = Some(got),
                Some(f) => ensure!(*f == got, "main-matters", "the collaction {acts:?} gives {got:?} with main content {main}, and {f:?} with another"),
            }
            y.observe(&[MAIN])?;
        }
        Ok(())
    });
}

// ---- the queue ----

/// Collaction `id`: passes or fails by construction, and is recognisable.
fn tagged(id: usize, ok: bool) -> Vec<Act> {
    // state 0 counts the accepted ones; a failing one writes first and then fails
    let mut v = vec![s(0, 3, false, (id % 7) as u8)];
    // the tag: an assertion that is true (state 1 is not written) or false
    v.push(s(2, 14, true, 2));
    if !ok {
        v.push(Act { assert: true, at: At::Never(3), ty: 3, v: (id % 7) as u8 });
    }
    if id < 2500 {
        for _ in 0..id / 7 {
            v.push(s(1, 3, true, 1));
        }
    } else {
        for bit in 0..18 {
            v.push(if id >> bit & 1 == 1 { s(1, 3, true, 1) } else { s(2, 14, true, 2) });
        }
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Send(usize, bool),
    Clone(usize),
    Drop(usize),
    Try,
    Timed(u64),
    Wait(Duration),
    Tick(i32),
}
fn queue_step(y: &mut Sys, txs: &mut Vec<Option<ActionSender>>, q: &mut VecDeque<(usize, bool)>, cap: Option<usize>, next: &mut usize, op: Q) -> Res {
    let live = txs.iter().filter(|t| t.is_some()).count();
    match op {
        Q::Send(i, ok) => {
            let id = *next;
            let c = y.collaction(&tagged(id, ok));
            let want = cap.map_or(true, |c| q.len() < c);
            match txs[i].as_ref().unwrap().try_send(c) {
                Ok(()) => {
                    ensure!(want, "capacity", "a queue of capacity {cap:?} took a collaction while holding {}", q.len());
                    q.push_back((id, ok));
                    *next += 1;
                }
                Err(TrySendError::Full(_)) => ensure!(!want, "capacity", "a queue of capacity {cap:?} refused a collaction while holding {}", q.len()),
                Err(TrySendError::Disconnected(_)) => return viol("send", "sending failed as if the engine were gone"),
            }
        }
        Q::Clone(i) => {
            let t = txs[i].clone();
            txs.push(t);
        }
        Q::Drop(i) => txs[i] = None,
        Q::Tick(t) => {
            y.e.tick(Ticks::new(t));
            y.time += t;
        }
        Q::Try | Q::Timed(_) | Q::Wait(_) => {
            let wait = match op {
                Q::Timed(ms) => Some(Duration::from_millis(ms)),
                Q::Wait(d) => Some(d),
                _ => None,
            };
            let t0 = Instant::now();
            // (result, disconnected)
            let r = catch(|| match wait {
                Some(d) => y.e.apply_timeout(d).map_err(|e| e == RecvTimeoutError::Disconnected),
                _ => y.e.try_apply().map_err(|e| e == TryRecvError::Disconnected),
            });
            let r = match r {
                Ok(r) => r,
                Err((m, l)) => return viol("panic", format!("{op:?} panicked: {m} at {l}")),
            };
            match (q.pop_front(), r) {
                (Some((id, ok)), Ok(c)) => {
                    let acts = tagged(id, ok);
                    ensure!(c.is_ok() == ok, "verdict", "collaction {id} was {}", if c.is_ok() { "accepted" } else { "rejected" });
                    let c = match &c {
                        Ok(c) => c,
                        Err(c) => c,
                    };
                    if let Err(v) = y.is(c, &acts, ok) {
                        return viol("order", format!("expected collaction {id} from the queue: {}", v.msg));
                    }
                    y.spec(&acts);
                }
                (Some((id, _)), Err(d)) => return viol("lost", format!("{op:?} reported {} though collaction {id} is pending", if d { "disconnection" } else { "emptiness" })),
                (None, Ok(_)) => return viol("again", format!("{op:?} processed a collaction though none is pending")),
                (None, Err(d)) => {
                    ensure!(d == (live == 0), "disconnected", "{op:?} reported {} with {live} senders", if d { "disconnection" } else { "emptiness" });
                    if let (Some(wait), false) = (wait, d) {
                        ensure!(t0.elapsed() >= wait, "timeout", "{op:?} gave up after {:?}", t0.elapsed());
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    let sh = shape(&[3, 3, 14], &[]);
    let caps = [None, Some(1), Some(2), Some(3), Some(0)];
    let depth = ctx.by(6, 8);
    let small = ctx.by(7, 9);
    for (name, depth, rich) in [("interleavings", depth, true), ("deep", small, false)] {
        ctx.explore(name, 3, &format!("all interleavings of {depth} operations ({}) for unbounded queues and capacities 0 to 3", if rich { "sends of passing and failing collactions by up to 3 senders, cloning and dropping senders, ticks, both apply calls" } else { "sends by 2 senders, dropping them, both apply calls" }), |ch| {
            let cap = ch.of(&caps);
            let Some(mut y) = sys(sh, cap) else { return Ok(()) };
            let mut txs = vec![y.tx.take()];
            if !rich {
                txs.push(txs[0].clone());
            }
            let mut q = VecDeque::new();
            let mut next = 0;
            for _ in 0..depth {
                let mut ops = vec![Q::Try, Q::Timed(0)];
                for i in 0..txs.len() {
                    if txs[i].is_none() {
                        continue;
                    }
                    ops.push(Q::Send(i, true));
                    ops.push(Q::Drop(i));
                    if rich {
                        ops.push(Q::Send(i, false));
                        if txs.len() < 3 {
                            ops.push(Q::Clone(i));
                        }
                    }
                }
                if rich {
                    ops.push(Q::Tick(3));
                }
                let op = ch.of(&ops);
                ch.log(|| format!("{op:?}"));
                ch.step();
                queue_step(&mut y, &mut txs, &mut q, cap, &mut next, op)?;
                if ch.fresh() {
                    ch.state(fnv(y.hash(), fnv(q.iter().fold(0, |h, (i, ok)| fnv(h, (*i * 2 + *ok as usize) as u64)), txs.iter().filter(|t| t.is_some()).count() as u64)));
                    // nothing but the collactions taken so far may have had an effect
                    y.observe(&[FORK])?;
                }
            }
            // drain: everything accepted comes out, in order, then the right kind of nothing
            while !q.is_empty() {
                let op = if next % 2 == 0 { Q::Try } else { Q::Timed(50) };
                queue_step(&mut y, &mut txs, &mut q, cap, &mut next, op)?;
            }
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
            txs.iter_mut().for_each(|t| *t = None);
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Timed(2000))?;
            y.observe(&[FORK, MAIN])
        });
    }
    // waiting
    ctx.explore("waiting", 1, "an empty queue, timeouts of 0, 1, 5 and 20 ms, before and after traffic", |ch| {
        let cap = ch.of(&caps);
        let ms = ch.of(&[0u64, 1, 5, 20]);
        let before = ch.flip();
        let Some(mut y) = sys(sh, cap) else { return Ok(()) };
        let mut txs = vec![y.tx.take()];
        let (mut q, mut next) = (VecDeque::new(), 0);
        if before {
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(0, true))?;
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Timed(ms))?;
        }
        ch.step();
        ch.state(mcx::hash_of(&(cap, ms, before)));
        queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Timed(ms))?;
        y.observe(&[FORK, MAIN])
    });
    let waits = ctx.by(vec![1u64, 1_500_000, 40_000_000, 260_700_000, 1_001_000_000], vec![1, 999, 1_500_000, 40_000_000, 260_700_000, 999_999_999, 1_001_000_000, 2_000_000_000, 5_050_000_000]);
    ctx.explore("long-waiting", 1, &format!("an empty queue, timeouts of {waits:?} ns; a pending collaction or no sender left, timeouts of up to Duration::MAX"), |ch| {
        let cap = ch.of(&[None, Some(2)]);
        let k = ch.pick(3);
        let d = match k {
            0 => Duration::from_nanos(ch.of(&waits)),
            _ => ch.of(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(3600), Duration::from_secs(1 << 32), Duration::from_secs(u64::MAX / 2), Duration::MAX]),
        };
        let Some(mut y) = sys(sh, cap) else { return Ok(()) };
        let mut txs = vec![y.tx.take()];
        let (mut q, mut next) = (VecDeque::new(), 0);
        ch.log(|| format!("capacity {cap:?}, {d:?}, {}", ["nothing pending", "two pending", "disconnected"][k]));
        ch.steps(3);
        ch.state(mcx::hash_of(&(cap, k, d)));
        if k == 1 {
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(0, true))?;
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(0, false))?;
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Wait(d))?;
        }
        if k == 2 {
            txs[0] = None
        }
        queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Wait(d))?;
        y.observe(&[FORK, MAIN])
    });
    // long queues
    let caps2 = ctx.by(vec![None, Some(31), Some(64), Some(200)], vec![None, Some(31), Some(32), Some(64), Some(200), Some(1000)]);
    ctx.explore("long-queues", 1, "queues filled with up to 200 (thorough: 2000) collactions from 2 senders, then drained wholly or partly, twice", |ch| {
        let cap = ch.of(&caps2);
        let n = ch.of(&ctx.by(vec![3usize, 30, 33, 65, 200], vec![3, 30, 33, 65, 129, 257, 500, 2000]));
        let part = ch.of(&[1usize, 2, 3]);
        let Some(mut y) = sys(sh, cap) else { return Ok(()) };
        let mut txs = vec![y.tx.take()];
        txs.push(txs[0].clone());
        let (mut q, mut next) = (VecDeque::new(), 0);
        for _ in 0..2 {
            for i in 0..n {
                ch.step();
                queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(i % 2, i % 3 != 1))?;
            }
            for i in 0..n / part {
                queue_step(&mut y, &mut txs, &mut q, cap, &mut next, if i % 2 == 0 { Q::Try } else { Q::Timed(0) })?;
            }
            y.observe(&[FORK])?;
        }
        ch.state(mcx::hash_of(&(cap, n, part)));
        txs.clear();
        while !q.is_empty() {
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
        }
        queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
        y.observe(&[FORK, MAIN])
    });
    let big = ctx.by(vec![5000usize, 67000], vec![5000, 67000, 140000]);
    ctx.explore("huge-queues", 1, &format!("the same with {big:?} collactions, unbounded and with exactly that capacity"), |ch| {
        let n = ch.of(&big);
        let cap = if ch.flip() { Some(n) } else { None };
        let Some(mut y) = sys(sh, cap) else { return Ok(()) };
        let mut txs = vec![y.tx.take()];
        txs.push(txs[0].clone());
        let (mut q, mut next) = (VecDeque::new(), 2500);
        for i in 0..n {
            ch.step();
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(i % 2, i % 3 != 1))?;
        }
        if cap.is_some() {
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Send(0, true))?;
        }
        for i in 0..n / 2 {
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, if i % 2 == 0 { Q::Try } else { Q::Timed(0) })?;
        }
        y.observe(&[FORK])?;
        ch.state(mcx::hash_of(&(cap, n)));
        txs.clear();
        while !q.is_empty() {
            ch.step();
            queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
        }
        queue_step(&mut y, &mut txs, &mut q, cap, &mut next, Q::Try)?;
        y.observe(&[FORK, MAIN])
    });
    // blocked senders and a waiting engine, with real threads; each outcome is forced
    ctx.explore("blocking", 1, "a sender blocked on a full queue (capacities 0 to 2), 1 to 3 collactions, while the engine waits: each arrives once, in order, and the sender goes on", |ch| {
        let cap = ch.of(&[0usize, 1, 2]);
        let n = 1 + ch.pick(3);
        let Some(mut y) = sys(sh, Some(cap)) else { return Ok(()) };
        let tx = y.tx.take().unwrap();
        let cs: Vec<Collaction> = (0..n).map(|i| y.collaction(&tagged(i, i % 2 == 0))).collect();
        ch.step();
        ch.state((cap * 8 + n) as u64);
        let t = std::thread::spawn(move || cs.into_iter().all(|c| tx.send(c).is_ok()));
        for id in 0..n {
            let r = match catch(|| y.e.apply_timeout(Duration::from_secs(20))) {
                Ok(Ok(r)) => r,
                Ok(Err(e)) => return viol("lost", format!("collaction {id} of a blocked sender never arrived: {e}")),
                Err((m, l)) => return viol("panic", format!("applying panicked: {m} at {l}")),
            };
            let acts = tagged(id, id % 2 == 0);
            ensure!(r.is_ok() == (id % 2 == 0), "verdict", "collaction {id} got the wrong verdict");
            let c = match &r {
                Ok(c) => c,
                Err(c) => c,
            };
            y.is(c, &acts, id % 2 == 0)?;
            y.spec(&acts);
        }
        ensure!(t.join().unwrap_or(false), "send", "a blocked sender failed");
        y.observe(&[FORK, MAIN])
    });
    // a dead engine
    ctx.explore("dropped-engine", 1, "sending after the engine is gone fails, whatever was pending", |ch| {
        let cap = ch.of(&caps);
        let n = ch.pick(3);
        let Some(mut y) = sys(sh, cap) else { return Ok(()) };
        let tx = y.tx.take().unwrap();
        for i in 0..n {
            let _ = tx.try_send(y.collaction(&tagged(i, true)));
        }
        let c = y.collaction(&tagged(9, true));
        ch.step();
        ch.state(mcx::hash_of(&(cap, n)));
        drop(y);
        ensure!(matches!(tx.try_send(c), Err(TrySendError::Disconnected(_))), "send", "a collaction was taken after the engine was dropped");
        Ok(())
    });
}
