//! The Unity demo's use of the platform, as a program.
use super::facts::finalize_all;
use super::interp::{Interp, V};
use super::native::Prim;
use super::program::*;
use mcx::{ensure, Ch, Ctx, Res};

const NAMES: [&str; 10] = ["pos_x", "pos_y", "pos_z", "euler_x", "euler_y", "euler_z", "scale_x", "scale_y", "scale_z", "color"];
fn value(i: usize, v: usize) -> V {
    match i {
        3..=5 => V::Int(Prim::I16, [0, -32768, 32767 - i as i128][v]),
        9 => V::Int(Prim::U64, [0, u64::MAX as i128, 5][v]),
        _ => V::Flt(Prim::F32, [0.0, -1.5 - i as f64, f32::MAX as f64][v]),
    }
}
pub fn demo(ctx: &Ctx, l: &Loaded) {
    let d = ctx.by(2, 3);
    ctx.explore("the Unity demo", 2, &format!("BallStateDataSourcePlatform: up to {d} writes of its 10 properties with 3 values each, all properties read after each"), |ch: &mut Ch| -> Res {
        quiet((|| {
            let mut it = Interp::new(l.ready()?);
            if it.class("BallStateDataSourcePlatform").is_err() {
                return Ok(());
            }
            let r = it.new_by_name("BallStateDataSourcePlatform", vec![]);
            let o = must(&it, "new BallStateDataSourcePlatform", r)?;
            let r = it.call_method(&o, "Awake", vec![]);
            must(&it, "Awake", r)?;
            let mut now = [0; 10];
            for i in 0..=d {
                if i > 0 {
                    let k = ch.pick(31);
                    if k == 30 {
                        break;
                    }
                    let (k, v) = (k / 3, k % 3);
                    ch.step();
                    ch.log(|| format!("{} = {}", NAMES[k], it.shows_value(&value(k, v))));
                    let r = it.set(&o, NAMES[k], value(k, v)).map(|_| V::Void);
                    must(&it, NAMES[k], r)?;
                    now[k] = v
                }
                for k in 0..10 {
                    let r = it.get(&o, NAMES[k]);
                    let g = must(&it, NAMES[k], r)?;
                    let w = value(k, now[k]);
                    let same = match (&g, &w) {
                        (V::Int(a, b), V::Int(c, d)) => a == c && b == d,
                        (V::Flt(a, b), V::Flt(c, d)) => a == c && b == d,
                        _ => false,
                    };
                    ensure!(same, "value", "{} is {}, expected {}", NAMES[k], it.shows_value(&g), it.shows_value(&w))
                }
                let r = it.call_method(&o, "Update", vec![]);
                must(&it, "Update", r)?;
                ch.state(mcx::hash_of(&now));
            }
            ch.outcome(mcx::hash_of(&now));
            finalize_all(&mut it, ch.flip())?;
            ensure!(it.mem.meter.bytes == 0 && it.mem.meter.blocks == 0, "leak", "{} bytes in {} blocks are never released", it.mem.meter.bytes, it.mem.meter.blocks);
            Ok(())
        })())
    });
}
