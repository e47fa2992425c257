//! C14, C15, C16, C18, C19, C24, C32: the guest's input reader, its input's encoding, and the guest program.
mod binding;
mod encoding;
mod entry;
mod game;
mod patches;
mod registry;

fn main() {
    let ctx = verif_harness::start();
    match ctx.id.as_str() {
        "C14" => binding::c14(ctx),
        "C15" => registry::c15(ctx),
        "C16" => patches::c16(ctx),
        "C18" => encoding::c18(ctx),
        "C19" => registry::c19(ctx),
        "C24" => entry::c24(ctx),
        "C32" => game::c32(ctx),
        other => panic!("no check for {other}"),
    }
}
