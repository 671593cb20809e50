//! The circle game (C28): its real systems in a real bevy schedule, without a screen; every random draw
//! is a choice.
use bevy::ecs::entity::Entity;
use bevy::prelude::{App, Transform};
use bevy_prototype_lyon::entity::Path;
use mcx::{catch, ensure, fnv, viol, Ch, Ctx, Res};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use tp_client::baseline::BaselineKind;
use tp_client::contract::properties::states::StateHandle;
use tp_client::contract::states;
use tp_client::engine::Engine;
use tp_client::object::ObjectHandle;

#[derive(Debug)]
#[states]
pub struct Mirror {
    x: f32,
    y: f32,
}

const SIDE: i32 = 10;
const N: usize = (SIDE * SIDE) as usize;
/// The draws come from one place in the process, so runs take turns.
static TURN: Mutex<()> = Mutex::new(());

/// Which bits the random draws yield: all the same, but for one of them.
#[derive(Clone, Copy, Debug)]
struct Draws {
    all: u32,
    odd: Option<(usize, u32)>,
}
const BITS: [u32; 6] = [0, u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x4000_0000, 0xc000_0100];

/// Extremes of the lower bytes
const LOW: [u32; 6] = [0x80, 0x7f, 0x8000, 0x7fff, 0x8080_8080, 0x7f7f_7f7f];

struct Game {
    app: App,
    /// one entry per object, in the order of creation: object, states, place on the grid
    balls: Vec<Ball>,
    shown: BTreeMap<Entity, (i32, i32)>,
}
#[derive(Clone, Debug)]
struct Ball {
    handle: ObjectHandle,
    at: [StateHandle<f32>; 2],
    now: [f32; 2],
}
fn place(p: [f32; 2]) -> (i32, i32) {
    ((p[0] / 50.0).round() as i32, (p[1] / 50.0).round() as i32)
}
impl Drop for Game {
    fn drop(&mut self) {
        rand::drive(None);
    }
}
impl Game {
    /// The game after its first frame
    fn new(d: Draws) -> Res<(Game, usize)> {
        let mut g = Game { app: App::empty(), balls: vec![], shown: BTreeMap::new() };
        let used = g.frame(d, true)?;
        let places: BTreeSet<(i32, i32)> = (-SIDE / 2..SIDE / 2).flat_map(|x| (-SIDE / 2..SIDE / 2).map(move |y| (x, y))).collect();
        let mut balls = vec![];
        {
            let e = g.engine()?;
            let f = e.realm().baseline(BaselineKind::Fork);
            let mut all = BTreeMap::new();
            for (handle, o) in f.iter_objects() {
                let ids = Mirror::new(o.contract());
                let (Ok(x), Ok(y)) = (f.bind_state(ids.x, handle), f.bind_state(ids.y, handle)) else { return viol("states", "an object of the fork has no states x and y") };
                let now = [read(f, x)?, read(f, y)?];
                ensure!(all.insert(place(now), Ball { handle, at: [x, y], now }).is_none(), "places", "two circles start at {:?}", place(now));
            }
            ensure!(all.keys().copied().collect::<BTreeSet<_>>() == places, "places", "the circles start at {:?}", all.keys().collect::<Vec<_>>());
            for (p, b) in &all {
                let off = [b.now[0] - p.0 as f32 * 50.0, b.now[1] - p.1 as f32 * 50.0];
                ensure!(off.iter().all(|d| d.abs() <= 1.001), "places", "the circle for {p:?} is at {:?} after the first frame", b.now);
            }
            balls.extend(all.into_values());
        }
        g.balls = balls;
        g.shown = g.drawn().into_iter().map(|(e, t)| (e, place([t.translation.x, t.translation.y]))).collect();
        ensure!(g.shown.len() == N && g.shown.values().copied().collect::<BTreeSet<_>>() == places, "shown", "{} circles are shown, at {:?}", g.shown.len(), g.shown.values().collect::<BTreeSet<_>>());
        // the grid itself is where they were before the first step
        let before: Vec<[f32; 2]> = g.balls.iter().map(|b| { let p = place(b.now); [p.0 as f32 * 50.0, p.1 as f32 * 50.0] }).collect();
        g.check(&before)?;
        Ok((g, used))
    }
    fn engine(&self) -> Res<&Engine> {
        match self.app.world.get_resource::<Engine>() {
            Some(e) => Ok(e),
            None => viol("engine", "the app has no engine"),
        }
    }
    fn drawn(&mut self) -> Vec<(Entity, Transform)> {
        let w = &mut self.app.world;
        w.query::<(Entity, &Transform, &Path)>().iter(w).map(|(e, t, _)| (e, *t)).collect()
    }
    /// Runs one frame; the number of random draws
    fn frame(&mut self, d: Draws, first: bool) -> Res<usize> {
        let n = Arc::new(Mutex::new(0usize));
        let m = n.clone();
        rand::drive(Some(Box::new(move || {
            let mut n = m.lock().unwrap();
            *n += 1;
            match d.odd {
                Some((i, v)) if i == *n - 1 => v,
                _ => d.all,
            }
        })));
        let app = &mut self.app;
        let r = catch(|| {
            if first {
                *app = circle_game::configure_app();
            }
            app.update()
        });
        rand::drive(None);
        if let Err((at, what)) = r {
            return viol("panic", format!("a frame panics at {at}: {what}"));
        }
        let n = *n.lock().unwrap();
        Ok(n)
    }
    /// Everything after a frame; `before` is where the circles were when it began
    fn check(&mut self, before: &[[f32; 2]]) -> Res<Vec<[f32; 2]>> {
        let mut after = vec![];
        {
            let e = self.engine()?;
            let main = e.realm().baseline(BaselineKind::Main);
            ensure!(main.iter_objects().count() == 0, "main", "the main baseline has {} objects", main.iter_objects().count());
            let f = e.realm().baseline(BaselineKind::Fork);
            let objects: Vec<ObjectHandle> = f.iter_objects().map(|x| x.0).collect();
            ensure!(objects.len() == N && self.balls.iter().all(|b| objects.contains(&b.handle)), "objects", "the fork has {} objects", objects.len());
            let mut contracts = vec![];
            for b in &self.balls {
                let Ok(o) = f.object(b.handle) else { return viol("objects", "an object of a circle is gone") };
                if !contracts.contains(&o.contract()) {
                    contracts.push(o.contract());
                }
                after.push([read(f, b.at[0])?, read(f, b.at[1])?]);
            }
            ensure!(contracts.len() == 1, "contracts", "the circles belong to {} contracts", contracts.len());
            let Ok(c) = f.contract_data(contracts[0]) else { return viol("contracts", "the contract of the circles is not registered") };
            ensure!(c.objects().len() == N, "contracts", "the contract has {} objects", c.objects().len());
        }
        for (i, (a, b)) in after.iter().zip(before).enumerate() {
            for k in 0..2 {
                // one step, plus the rounding of a float at this size
                ensure!((a[k] - b[k]).abs() <= 1.0001 && a[k].is_finite(), "step", "coordinate {k} of circle {i} went from {} to {} in one frame", b[k], a[k]);
            }
        }
        let by_place: BTreeMap<(i32, i32), usize> = self.balls.iter().enumerate().map(|(i, b)| (place(b.now), i)).collect();
        let drawn = self.drawn();
        ensure!(drawn.len() == N, "shown", "{} circles are shown", drawn.len());
        for (e, t) in drawn {
            let i = match self.shown.get(&e).and_then(|p| by_place.get(p)) {
                Some(i) => *i,
                None => return viol("shown", format!("{e:?} is shown, but was not there at the start")),
            };
            let (x, y) = (t.translation.x, t.translation.y);
            let is = |p: [f32; 2]| p[0].to_bits() == x.to_bits() && p[1].to_bits() == y.to_bits();
            ensure!(is(after[i]) || is(before[i]), "shown", "a circle is shown at {:?}; its object was at {:?} before this frame and is at {:?} now", t.translation, before[i], after[i]);
            ensure!(t.translation.z == 0.0 && t.rotation == Default::default() && t.scale.x == 1.0 && t.scale.y == 1.0, "shown", "a circle is shown as {t:?}");
        }
        Ok(after)
    }
}
fn read(b: &tp_client::baseline::Baseline, h: StateHandle<f32>) -> Res<f32> {
    match b.state(h) {
        Ok(s) => Ok(s.value),
        Err(e) => viol("states", format!("the state of a circle cannot be read: {e}")),
    }
}
/// The places of the circles keep the identity of an entity, so they are those of the first frame.
fn run(ch: &mut Ch, script: &[Draws]) -> Res<Vec<(usize, Vec<[f32; 2]>)>> {
    let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
    let (mut g, used) = Game::new(script[0])?;
    ch.step();
    let mut out = vec![(used, g.balls.iter().map(|b| b.now).collect::<Vec<_>>())];
    for d in &script[1..] {
        ch.log(|| format!("a frame with draws {d:x?}"));
        let used = g.frame(*d, false)?;
        ch.step();
        let before = out.last().unwrap().1.clone();
        let after = g.check(&before)?;
        let h = after.iter().flatten().fold(7, |h, v| fnv(h, v.to_bits() as u64));
        ch.state(h);
        ch.outcome(h);
        out.push((used, after));
    }
    Ok(out)
}

fn main() {
    let ctx = Ctx::from_args();
    let (frames, vals) = ctx.by((4usize, 4usize), (5, 6));
    ctx.explore("walks", 2, &format!("all sequences of {frames} frames in which all draws are the same, of {vals} values each"), |ch: &mut Ch| -> Res {
        let script: Vec<Draws> = (0..frames).map(|_| Draws { all: BITS[ch.pick(vals)], odd: None }).collect();
        run(ch, &script)?;
        Ok(())
    });
    ctx.explore("both ways", 1, &format!("one frame for each of {} values of all draws, from each of them on", BITS.len() + LOW.len()), |ch: &mut Ch| -> Res {
        let all: Vec<u32> = BITS.iter().chain(&LOW).copied().collect();
        let from = ch.pick(all.len());
        let script: Vec<Draws> = (0..=all.len()).map(|i| Draws { all: all[(from + i) % all.len()], odd: None }).collect();
        let seen = run(ch, &script)?;
        for b in 0..N {
            for k in 0..2 {
                let d: Vec<f32> = seen.windows(2).map(|w| w[1].1[b][k] - w[0].1[b][k]).collect();
                ensure!(d.iter().any(|x| *x < 0.0) && d.iter().any(|x| *x > 0.0), "walk", "coordinate {k} of circle {b} only ever moves by {d:?}");
            }
        }
        Ok(())
    });
    let (bases, odds) = ctx.by((2usize, 2usize), (6, 6));
    let moved: Mutex<BTreeMap<(usize, u32, u32), BTreeSet<(usize, usize)>>> = Mutex::new(BTreeMap::new());
    ctx.explore("one draw differs", 2, &format!("each of the draws of a frame set to each of {odds} values while the others are one of {bases} values, and a frame after it"), |ch: &mut Ch| -> Res {
        let (all, v) = (BITS[ch.pick(bases)], BITS[ch.pick(odds)]);
        let i = ch.pick(2 * N);
        let calm = Draws { all: BITS[2], odd: None };
        let usual = run(ch, &[calm, Draws { all, odd: None }, calm])?;
        let seen = run(ch, &[calm, Draws { all, odd: Some((i, v)) }, calm])?;
        if all == v || i >= usual[1].0 {
            return Ok(());
        }
        for frame in [1, 2] {
            let differ: BTreeSet<(usize, usize)> = (0..N).flat_map(|b| [(b, 0), (b, 1)]).filter(|(b, k)| seen[frame].1[*b][*k].to_bits() != usual[frame].1[*b][*k].to_bits()).collect();
            ensure!(differ.len() <= 1, "independent", "one draw of a frame moves {} coordinates: {differ:?}", differ.len());
            if frame == 1 && (all, v) == (BITS[0], BITS[1]) {
                ensure!(differ.len() == 1 || usual[1].0 > 2 * N, "independent", "draw {i} of {} moves nothing", usual[1].0);
                let mut m = moved.lock().unwrap();
                for c in differ {
                    if let Some((j, _)) = m.iter().find(|(j, s)| j.0 != i && s.contains(&c)).map(|(j, s)| (j.0, s.len())) {
                        ensure!(usual[1].0 > 2 * N, "independent", "draws {i} and {j} move the same coordinate {c:?}");
                    }
                    m.entry((i, all, v)).or_default().insert(c);
                }
            }
        }
        Ok(())
    });
    ctx.assume("the game's systems run in bevy's own schedule; cameras, colours and shapes are stand-ins, nothing is drawn");
    ctx.assume("whether a frame shows a circle before or after its step is left open, as the game does not order the two systems");
    ctx.finish();
}
