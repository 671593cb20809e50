mod engine;
#[allow(dead_code)]
mod registry;
#[global_allocator]
static A: mcx::alloc::Counting = mcx::alloc::Counting;

fn main() {
    let ctx = mcx::Ctx::from_args();
    match ctx.prop.as_str() {
        "C09" => {
            registry::realm(&ctx);
            engine::c09(&ctx);
            engine::c09_blind(&ctx)
        }
        "C10" => engine::c10(&ctx),
        "C11" => engine::c11(&ctx),
        "C12" => engine::c12(&ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
