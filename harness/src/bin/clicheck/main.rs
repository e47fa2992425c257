//! C26: the command line program. Every execution is a process of its own: this binary, started with the program's
//! arguments and a scenario in its environment, becomes the shipped program with a simulated beacon node to talk to.
#[path = "../hostcheck/e2e.rs"]
#[allow(dead_code)]
mod e2e;
#[path = "../hostcheck/sim.rs"]
#[allow(dead_code)]
mod sim;
mod child;
mod spaces;

/// The program, with the small preset in place of mainnet's.
#[allow(dead_code)]
mod cli {
    mod z_core {
        pub use ::z_core::*;
        pub use verif_harness::spec::Four as MainnetEthSpec;
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/host/src/bin/zkasper_cli.rs"));
    pub fn run() -> Result<(), String> {
        main().map_err(|e| format!("{e:#}"))
    }
}

fn main() {
    if let Ok(s) = std::env::var("VERIF_CLI") {
        child::become_program(serde_json::from_str(&s).unwrap());
    }
    let ctx = verif_harness::start();
    match ctx.id.as_str() {
        "C26" => spaces::run(ctx),
        x => panic!("no check for {x}"),
    }
}
