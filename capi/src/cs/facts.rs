//! The repository's own C# tests, run here.
use super::interp::{Interp, V};
use super::native::Prim;
use super::program::*;
use mcx::{ensure, Ch, Ctx, Res};

pub fn facts(ctx: &Ctx, l: &Loaded) {
    let n = l.program.map_or(1, |p| p.facts().len().max(1));
    ctx.explore("the C# tests", 1, "every test of the C# test projects, with all finalizers run afterwards, in both orders", |ch: &mut Ch| -> Res { quiet((|| {
        let p = l.ready()?;
        let facts = p.facts();
        let i = ch.pick(n);
        let rev = ch.flip();
        let Some((c, m)) = facts.get(i) else { return Ok(()) };
        let name = format!("{}.{m}", p.classes[*c].full);
        ch.step();
        ch.state(i as u64);
        ch.log(|| name.clone());
        let mut it = Interp::new(p);
        let helper = it.new_by_name("Xunit.Abstractions.ITestOutputHelper", vec![]);
        let helper = must(&it, "the test", helper)?;
        let args = if p.classes[*c].ctors.is_empty() { vec![] } else { vec![helper] };
        let t = it.new_object(*c, args);
        let t = must(&it, "the test", t)?;
        let r = it.call_method(&t, m, vec![]);
        match out(&it, r).map_err(|v| mcx::Viol { key: format!("{}:{name}", v.key), msg: format!("{name}: {}", v.msg) })? {
            Out::Ok(_) => {}
            Out::Threw(c, e) => return mcx::viol(format!("test:{name}"), format!("{name} fails with {c}: {e}")),
        }
        finalize_all(&mut it, rev)?;
        ensure!(it.mem.meter.bytes == 0, format!("leak:{name}"), "{name}: {} bytes in {} blocks are never released", it.mem.meter.bytes, it.mem.meter.blocks);
        ch.outcome(it.mem.calls);
        Ok(())
    })()) });
}
/// The end of a program: what is left is finalized.
pub fn finalize_all(it: &mut Interp, rev: bool) -> Res {
    while !it.objects.is_empty() {
        let mut left = std::mem::take(&mut it.objects);
        if rev {
            left.reverse()
        }
        for o in left {
            let r = it.finalize(&o).map(|_| V::Void);
            match out(it, r)? {
                Out::Ok(_) => {}
                Out::Threw(c, e) => return mcx::viol("throws", format!("a finalizer throws {c}: {e}")),
            }
        }
    }
    match mcx::alloc::take_fault() {
        mcx::alloc::Fault::None => Ok(()),
        f => mcx::viol("memory", format!("{f:?}")),
    }
}
/// The arguments of `BallContract.ObjectCreate`.
pub fn ball_args(base: &V) -> Vec<V> {
    let mut a = vec![base.clone()];
    a.extend((0..3).map(|_| V::Flt(Prim::F32, 1.0)));
    a.extend((0..3).map(|_| V::Int(Prim::I16, 1)));
    a.extend((0..3).map(|_| V::Flt(Prim::F32, 1.0)));
    a.push(V::Int(Prim::U64, 1));
    a
}
