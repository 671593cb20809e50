mod fields;
#[global_allocator]
static A: mcx::alloc::Counting = mcx::alloc::Counting;

fn main() {
    let ctx = mcx::Ctx::from_args();
    match ctx.prop.as_str() {
        "C07" => fields::c07(&ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
