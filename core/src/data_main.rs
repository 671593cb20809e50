mod arena19;
mod channel;
mod time;
#[global_allocator]
static A: mcx::alloc::Counting = mcx::alloc::Counting;

fn main() {
    let ctx = mcx::Ctx::from_args();
    match ctx.prop.as_str() {
        "C13" => time::c13(&ctx),
        "C14" => time::c14(&ctx),
        "C15" => channel::c15(&ctx),
        "C16" => time::c16(&ctx),
        "C19" => arena19::c19(&ctx),
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    }
    ctx.finish()
}
