//! C20 - C23: what the host reads, stores and hands to the guest.
mod asserting;
mod client;
mod e2e;
mod handed;
mod layouts;
mod links;
mod reader;
mod served;
mod sim;
mod store;
mod vfs;

fn main() {
    if let Ok(args) = std::env::var("VERIF_STORE_CHILD") {
        store::child(&args)
    }
    let ctx = verif_harness::start();
    match ctx.id.as_str() {
        "C20" => e2e::run(ctx),
        "C21" => links::run(ctx),
        "C22" => store::run(ctx),
        "C23" => served::run(ctx),
        "C25" => layouts::run(ctx),
        "C28" => asserting::run(ctx),
        "C29" => client::run(ctx),
        "C33" => reader::run(ctx),
        "C34" => handed::run(ctx),
        x => panic!("no check for {x}"),
    }
}
