//! C30: the program that generates the guest's proof indices.
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use verif_harness::chain::*;
use verif_harness::{guard, Ctx};

#[allow(dead_code, unused_imports)]
mod generator {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/host/src/bin/gen_gindices.rs"));
    pub fn run() {
        let _ = main();
    }
}

/// Names of the functions of a file of indices, and whether they take a validator's index.
fn functions(code: &str) -> Result<BTreeMap<String, bool>, String> {
    let file = syn::parse_file(code).map_err(|e| format!("it is not Rust: {e}"))?;
    Ok(file
        .items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Fn(f) => Some((f.sig.ident.to_string(), !f.sig.inputs.is_empty())),
            _ => None,
        })
        .collect())
}
/// Compiles a file of indices and reads off all its values.
fn values(dir: &Path, code: &str, at: &[u64]) -> Result<BTreeMap<String, Vec<u64>>, String> {
    let fns = functions(code)?;
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("indices.rs"), code).unwrap();
    let mut main = String::from("#![allow(dead_code)]\npub type ValidatorIndex = usize;\nmod indices { include!(\"indices.rs\"); }\n");
    main += &format!("const AT: &[u64] = &{at:?};\nfn main() {{\n");
    for (f, per_validator) in &fns {
        if *per_validator {
            main += &format!("    for i in AT {{ println!(\"{f} {{}}\", indices::{f}(*i as usize) as u64); }}\n");
        } else {
            main += &format!("    println!(\"{f} {{}}\", indices::{f}() as u64);\n");
        }
    }
    main += "}\n";
    std::fs::write(dir.join("main.rs"), main).unwrap();
    let out = Command::new("rustc")
        .args(["--edition", "2021", "-C", "overflow-checks=on", "-C", "debuginfo=0", "-o", "values", "main.rs"])
        .current_dir(dir)
        .env("RUSTUP_TOOLCHAIN", "1.88")
        .env("PATH", format!("/root/.cargo/bin:{}", std::env::var("PATH").unwrap_or_default()))
        .output()
        .map_err(|e| format!("rustc does not start: {e}"))?;
    if !out.status.success() {
        return Err(format!("it does not compile: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let out = Command::new(dir.join("values")).output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("an index cannot be computed: {}", String::from_utf8_lossy(&out.stderr)));
    }
    let mut all: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let (f, v) = line.split_once(' ').unwrap();
        all.entry(f.into()).or_default().push(v.parse().unwrap());
    }
    Ok(all)
}
/// The protocol's layout, for the functions whose meaning is known.
fn layout(at: &[u64]) -> BTreeMap<String, Vec<u64>> {
    let mut m = BTreeMap::new();
    for f in ["slot", "genesis_validators_root", "validators", "earliest_exit_epoch", "earliest_consolidation_epoch"] {
        m.insert(format!("{f}_gindex"), vec![state_g(f)]);
    }
    let finalized = state_g("finalized_checkpoint");
    m.insert("finalized_checkpoint_epoch_gindex".into(), vec![finalized * 2]);
    let fork = state_g("fork");
    for (i, f) in ["previous_version", "current_version", "epoch"].iter().enumerate() {
        m.insert(format!("fork_{f}_gindex"), vec![fork * 4 + i as u64]);
    }
    m.insert("state_root_gindex".into(), vec![block_g("state_root")]);
    m.insert("block_slot_gindex".into(), vec![block_g("slot")]);
    for f in ["effective_balance", "slashed", "activation_eligibility_epoch", "activation_epoch", "exit_epoch"] {
        m.insert(format!("{f}_gindex"), at.iter().map(|i| validator_g(*i, f)).collect());
    }
    for part in 0..2u64 {
        m.insert(format!("public_key_{part}_gindex"), at.iter().map(|i| pubkey_g(*i, part)).collect());
    }
    m
}

fn run(ctx: &'static Ctx) -> ! {
    let scratch = PathBuf::from(&ctx.scratch);
    std::fs::create_dir_all(scratch.join("core/src")).unwrap();
    let home = std::env::current_dir().unwrap();
    let target = scratch.join("core/src/guest_gindices.rs");
    let checked_in = std::fs::read_to_string(concat!(env!("CARGO_MANIFEST_DIR"), "/../shadow/z-core/src/guest_gindices.rs")).unwrap();
    let generate = |old: Option<&[u8]>| -> Result<Vec<u8>, String> {
        let _ = std::fs::remove_file(&target);
        if let Some(old) = old {
            std::fs::write(&target, old).unwrap();
        }
        std::env::set_current_dir(&scratch).unwrap();
        let r = guard(generator::run);
        std::env::set_current_dir(&home).unwrap();
        r?;
        std::fs::read(&target).map_err(|e| e.to_string())
    };
    let mut at: Vec<u64> = (0..ctx.pick(64, 4096)).collect();
    for k in 6..40 {
        at.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    at.extend([(1 << 40) - 2, (1 << 40) - 1]);
    let fresh = generate(None);
    ctx.space("old-file", || {
        // whatever was there before is replaced as a whole
        let fresh = match &fresh {
            Ok(f) => f.clone(),
            Err(e) => {
                ctx.violation("old-file", "generator", || format!("the generator fails without an old file: {e}"));
                return;
            }
        };
        let mut olds: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), fresh.clone(), checked_in.clone().into_bytes(), vec![0xff; 100_000]];
        for n in [1usize, 2, 10, 1000] {
            olds.push([fresh.as_slice(), &vec![b'}'; n]].concat());
            olds.push(fresh[..fresh.len() - n.min(fresh.len())].to_vec());
        }
        let step = ctx.pick(200, 20);
        for n in (0..2 * fresh.len()).step_by(step) {
            olds.push(vec![b'/'; n]);
        }
        for old in olds {
            ctx.eval(old.len() > fresh.len());
            match generate(Some(&old)) {
                Ok(new) if new == fresh => {}
                Ok(new) => ctx.violation("old-file", "old-file", || format!("over an old file of {} bytes the generator leaves {} bytes instead of {}", old.len(), new.len(), fresh.len())),
                Err(e) => ctx.violation("old-file", "old-file", || format!("over an old file of {} bytes the generator fails: {e}", old.len())),
            }
        }
    });
    ctx.space("values", || {
        let Ok(fresh) = &fresh else { return };
        let code = String::from_utf8_lossy(fresh).to_string();
        let new = match values(&scratch.join("new"), &code, &at) {
            Ok(v) => v,
            Err(e) => {
                ctx.violation("values", "generated-code", || format!("the generated file is of no use: {e}").chars().take(1200).collect());
                return;
            }
        };
        let old = values(&scratch.join("old"), &checked_in, &at).unwrap_or_default();
        let layout = layout(&at);
        for (f, v) in &layout {
            for (k, want) in v.iter().enumerate() {
                ctx.eval(true);
                // a function under another name is compared with the guest's below
                let got = new.get(f).and_then(|n| n.get(k));
                if got.is_some_and(|g| g != want) {
                    ctx.violation("values", "layout", || format!("generated {f} at {:?} is {got:?}, the layout has it at {want}", at.get(k)));
                    return;
                }
            }
        }
        for (f, v) in &old {
            for (k, want) in v.iter().enumerate() {
                ctx.eval(true);
                if new.get(f).and_then(|n| n.get(k)) != Some(want) {
                    ctx.violation("values", "checked-in", || format!("{f} at {:?}: the guest has {want}, the generator gives {:?}", at.get(k), new.get(f).and_then(|n| n.get(k))));
                    return;
                }
            }
        }
        ctx.sample(|| json!({"functions": new.keys().collect::<Vec<_>>(), "validators": at.len()}));
    });
    ctx.finish(
        "exploration",
        "the generator over every stated old file, its output compiled and evaluated for every stated validator index against the layout and the guest's file; non-trivial = a longer old file, or a value",
        &["prettyplease is a stand-in that prints the tokens; the types' layout comes from the ethereum-consensus and ssz_rs stand-ins (tied to the protocol by C19 and C25)"],
        json!({"validator_indices": at.len()}),
    )
}

fn main() {
    let ctx = verif_harness::start();
    match ctx.id.as_str() {
        "C30" => run(ctx),
        x => panic!("no check for {x}"),
    }
}
