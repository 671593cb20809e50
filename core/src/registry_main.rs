mod registry;
#[global_allocator]
static A: mcx::alloc::Counting = mcx::alloc::Counting;

fn main() {
    let ctx = mcx::Ctx::from_args();
    match ctx.prop.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" => registry::main(&ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
