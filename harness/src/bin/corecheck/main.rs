//! Checks on `z-core`: verification, committees, consensus states and their encodings.
mod committees;
mod drift;
mod guestpath;
mod safety;
mod states;
mod verification;

fn main() {
    let ctx = verif_harness::start();
    match ctx.id.as_str() {
        "C01" => verification::c01(ctx),
        "C02" => verification::c02(ctx),
        "C03" => verification::c03(ctx),
        "C04" => committees::c04(ctx),
        "C05" => committees::c05(ctx),
        "C06" => verification::c06(ctx),
        "C07" => states::c07(ctx),
        "C08" => states::c08(ctx),
        "C17" => states::c17(ctx),
        "C27" => safety::c27(ctx),
        "C31" => drift::c31(ctx),
        other => panic!("no such check: {other}"),
    }
}
