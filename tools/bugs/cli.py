C = "host/src/bin/zkasper_cli.rs"
MAIN = '''
mod child;
mod sim;
#[allow(dead_code)]
mod cli {
    mod z_core {
        pub use ::z_core::*;
        pub use verif_harness::spec::Four as MainnetEthSpec;
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/host/src/bin/zkasper_cli.rs"));
    pub fn run() -> Result<(), String> {
        main().map_err(|e| format!("{e:#}"))
    }
}
use child::*;
use std::path::Path;
fn program(s: &Scenario, dir: &Path, args: &[&str]) -> bool {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["--beacon-api", "http://node.test/", "--network", s.net.name(), "--data-dir"]).arg(dir).args(args);
    c.env("VERIF_CLI", serde_json::to_string(s).unwrap()).env("RUST_LOG", "off");
    c.status().unwrap().success()
}
/// Whether the guest accepts the input of an epoch and commits its journal.
fn right(s: &Scenario, dir: &Path, epoch: u64) -> Result<(), String> {
    let base = dir.join(s.net.name());
    let input = std::fs::read(base.join(format!("inputs/{epoch}_stdin.bin"))).map_err(|e| format!("input of {epoch}: {e}"))?;
    let journal = std::fs::read(base.join(format!("journals/{epoch}_journal.bin"))).map_err(|e| format!("journal of {epoch}: {e}"))?;
    if u32::from_le_bytes(input[..4].try_into().unwrap()) as usize != input.len() - 4 {
        return Err(format!("input of {epoch}: not one frame"));
    }
    if guest(s.net, vec![input[4..].to_vec()])? != journal {
        return Err(format!("journal of {epoch}"));
    }
    Ok(())
}
fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("cli-demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn main() {
    if let Ok(s) = std::env::var("VERIF_CLI") {
        become_program(serde_json::from_str(&s).unwrap());
    }
    let dir = scratch();
    let r = std::panic::catch_unwind(|| demo(&dir));
    std::fs::remove_dir_all(&dir).ok();
    if r.is_err() {
        std::process::exit(1);
    }
}
'''
BUGS = [
    {
        "id": "cli-goes-on-from-justified",
        "property": "C26",
        "needs": "a continuous run over a finalization after which the justified checkpoint is not the next one to be finalized",
        "breaks": "a continuous run goes on from the justified epoch, so an epoch's input and journal are left out",
        "edits": [(C, "            finalized_epoch = post_state.finalized_checkpoint().epoch();", "            finalized_epoch = post_state.current_justified_checkpoint().epoch();")],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "clicheck/child.rs"],
        "demo": MAIN + '''
fn demo(dir: &Path) {
    let base = 364200;
    let mut s = Scenario::new(Net::Mainnet, base, 9);
    s.heads = vec![39, 39, 39];
    program(&s, dir, &["build-input", "--finalized-epoch", &(base + 2).to_string(), "--retry-interval", "0", "--continuous"]);
    for e in 2..5 {
        assert_eq!(right(&s, dir, base + e), Ok(()));
    }
}
''',
    },
    {
        "id": "cli-lenient-on-mainnet",
        "property": "C26",
        "needs": "mainnet links with votes between Sepolia's threshold and mainnet's",
        "breaks": "build-input checks with the lower threshold and hands out inputs that mainnet's guest refuses",
        "edits": [(C, """                finalized_epoch,
                caching_provider.clone(),
                &beacon_client,
                config_for(args.network),""", """                finalized_epoch,
                caching_provider.clone(),
                &beacon_client,
                config_for(Network::Sepolia),""")],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "clicheck/child.rs"],
        "demo": MAIN + '''
fn demo(dir: &Path) {
    let base = 364200;
    for (net, epochs) in [(Net::Mainnet, 2..4u64), (Net::Sepolia, 2..4)] {
        for e in epochs {
            let mut s = Scenario::new(net, base, 9);
            s.heads = vec![39];
            s.votes = vec![(5, Vote::Most)];
            if program(&s, dir, &["build-input", "--finalized-epoch", &(base + e).to_string(), "--retry-interval", "0"]) {
                assert_eq!(right(&s, dir, base + e), Ok(()));
            }
        }
    }
}
''',
    },
    {
        "id": "cli-keeps-old-bytes",
        "property": "C26",
        "needs": "an earlier, longer input file for the same epoch",
        "breaks": "the input is written over an existing file without cutting that off, so the rest of the old input follows the frame",
        "edits": [(C, """                File::create(inputs_dir.join(format!("{finalized_epoch}_stdin.bin")))
""", """                fs::OpenOptions::new()
                    .write(true)
                    .create(true)
                    .open(inputs_dir.join(format!("{finalized_epoch}_stdin.bin")))
""")],
        "features": "host",
        "mods": ["hostcheck/sim.rs", "clicheck/child.rs"],
        "demo": MAIN + '''
fn demo(dir: &Path) {
    let base = 222500;
    for n in [40, 16] {
        let mut s = Scenario::new(Net::Sepolia, base, 8);
        s.heads = vec![35];
        s.n = n;
        std::fs::remove_dir_all(dir.join("sepolia/states")).ok();
        assert!(program(&s, dir, &["build-input", "--finalized-epoch", &(base + 2).to_string(), "--retry-interval", "0"]));
        assert_eq!(right(&s, dir, base + 2), Ok(()));
    }
}
''',
    },
]
