mod tables;
#[global_allocator]
static A: mcx::alloc::Counting = mcx::alloc::Counting;

fn main() {
    let ctx = mcx::Ctx::from_args();
    match ctx.prop.as_str() {
        "C17" => tables::c17(&ctx),
        "C18" => tables::c18(&ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
