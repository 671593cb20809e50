//! mc-capi: the exported C functions (C20 to C25).
mod border;
mod ffi;
mod lists;
mod meter;
mod pool;
mod text;

use mcx::Ctx;
// linked for their exported functions
extern crate rsharp;
extern crate tp_client;
extern crate tp_contract_example;
extern crate unity_states;

#[global_allocator]
static A: mcx::alloc::Strict = mcx::alloc::Strict;

fn main() {
    let ctx = Ctx::from_args();
    match ctx.prop.as_str() {
        "C20" => {
            border::histories(&ctx, border::Judge::Values);
            border::crowds(&ctx, border::Judge::Values);
            border::identity(&ctx);
            pool::pool(&ctx, border::Judge::Values);
        }
        "C21" => {
            border::histories(&ctx, border::Judge::Memory);
            border::crowds(&ctx, border::Judge::Memory);
            pool::pool(&ctx, border::Judge::Memory);
        }
        "C22" => text::text(&ctx),
        "C23" => lists::lists(&ctx),
        p => panic!("unknown property {p}"),
    }
    ctx.finish()
}
