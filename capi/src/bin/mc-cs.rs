//! mc-cs: the C# side (C25 to C27).
extern crate rsharp;
extern crate tp_client;
extern crate tp_contract_example;
extern crate unity_states;
#[path = "../cs/mod.rs"]
mod cs;
#[path = "../gen.rs"]
mod gen;
#[path = "../header.rs"]
mod header;
#[path = "../meter.rs"]
mod meter;
#[path = "../spec.rs"]
mod spec;
use mcx::Ctx;

#[global_allocator]
static A: mcx::alloc::Strict = mcx::alloc::Strict;
#[allow(clashing_extern_declarations)]
mod table {
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
}

fn main() {
    let ctx = Ctx::from_args();
    if ctx.prop == "C25" {
        gen::explore(&ctx, table::TABLE);
        ctx.finish()
    }
    let g = gen::generated().unwrap_or_else(|e| {
        println!("NOT DECIDED: {e}");
        vec![]
    });
    let l = cs::program::load(&ctx, &g, table::TABLE);
    cs::hist::warm(&l);
    match ctx.prop.as_str() {
        "C26" => {
            cs::facts::facts(&ctx, &l);
            cs::sites::calls(&ctx, &l);
            cs::demo::demo(&ctx, &l);
            cs::own::kinds(&ctx, &l);
            cs::hist::hist(&ctx, &l)
        }
        "C27" => cs::own::own(&ctx, &l),
        p => panic!("unknown property {p}"),
    }
    ctx.note("executions not decided", cs::program::UNDECIDED.load(std::sync::atomic::Ordering::SeqCst));
    ctx.finish()
}
