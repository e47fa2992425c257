//! C25: the host's states have the layouts of the consensus specification.
//!
//! The specification's containers are written down here once more as data, with an encoder to JSON and SSZ and a
//! Merkleization of their own.
use crate::e2e::parallel;
use ethereum_consensus::electra::mainnet as preset;
use futures::executor::block_on;
use host::mainnet::BeaconState;
use host::BeaconClient;
use reqwest::{set_handler, Reply};
use serde_json::{json, Value};
use ssz_multiproofs::MultiproofBuilder;
use ssz_rs::HashTreeRoot;
use std::rc::Rc;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// an integer of so many bytes
    Uint(u128, usize),
    Bool(bool),
    Bytes(Vec<u8>),
    ByteList(Vec<u8>, u64),
    Bits(Vec<bool>),
    BitList(Vec<bool>, u64),
    Vector(Vec<V>),
    /// elements, limit, and what an element looks like
    List(Vec<V>, u64, Box<V>),
    Container(Vec<(&'static str, V)>),
}
use V::*;
fn pack_bits(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect()
}
fn depth(n: u64) -> u32 {
    n.max(1).next_power_of_two().trailing_zeros()
}
fn chunks(b: &[u8]) -> Vec<T> {
    b.chunks(32)
        .map(|c| {
            let mut x = [0u8; 32];
            x[..c.len()].copy_from_slice(c);
            leaf(x)
        })
        .collect()
}
impl V {
    fn basic(&self) -> Option<usize> {
        match self {
            Uint(_, n) => Some(*n),
            Bool(_) => Some(1),
            _ => None,
        }
    }
    fn fixed(&self) -> bool {
        match self {
            ByteList(..) | BitList(..) | List(..) => false,
            Vector(v) => v[0].fixed(),
            Container(f) => f.iter().all(|(_, v)| v.fixed()),
            _ => true,
        }
    }
    pub fn ssz(&self) -> Vec<u8> {
        fn parts(p: &[&V]) -> Vec<u8> {
            let enc: Vec<Vec<u8>> = p.iter().map(|v| v.ssz()).collect();
            let head: usize = p.iter().zip(&enc).map(|(v, e)| if v.fixed() { e.len() } else { 4 }).sum();
            let (mut a, mut b) = (vec![], vec![]);
            for (v, e) in p.iter().zip(enc) {
                if v.fixed() {
                    a.extend(e);
                } else {
                    a.extend(((head + b.len()) as u32).to_le_bytes());
                    b.extend(e);
                }
            }
            a.extend(b);
            a
        }
        match self {
            Uint(x, n) => x.to_le_bytes().iter().copied().chain([0; 16]).take(*n).collect(),
            Bool(b) => vec![*b as u8],
            Bytes(b) | ByteList(b, _) => b.clone(),
            Bits(b) => pack_bits(b),
            BitList(b, _) => pack_bits(&[b.as_slice(), &[true]].concat()),
            Vector(v) | List(v, ..) => parts(&v.iter().collect::<Vec<_>>()),
            Container(f) => parts(&f.iter().map(|(_, v)| v).collect::<Vec<_>>()),
        }
    }
    pub fn tree(&self) -> T {
        let mix = |t: T, n: usize| pair(t, num(n as u64));
        match self {
            Uint(..) | Bool(_) => chunks(&self.ssz())[0].clone(),
            Bytes(b) => merkle(chunks(b), depth(b.len().div_ceil(32) as u64)),
            ByteList(b, limit) => mix(merkle(chunks(b), depth(limit.div_ceil(32))), b.len()),
            Bits(b) => merkle(chunks(&pack_bits(b)), depth(b.len().div_ceil(256) as u64)),
            BitList(b, limit) => mix(merkle(chunks(&pack_bits(b)), depth(limit.div_ceil(256))), b.len()),
            Vector(v) => match v[0].basic() {
                Some(n) => merkle(chunks(&self.ssz()), depth((v.len() * n).div_ceil(32) as u64)),
                None => merkle(v.iter().map(|x| x.tree()).collect(), depth(v.len() as u64)),
            },
            List(v, limit, e) => match e.basic() {
                Some(n) => mix(merkle(chunks(&self.ssz()), depth((limit * n as u64).div_ceil(32))), v.len()),
                None => mix(merkle(v.iter().map(|x| x.tree()).collect(), depth(*limit)), v.len()),
            },
            Container(f) => container(f.iter().map(|(_, v)| v.tree()).collect()),
        }
    }
    pub fn json(&self) -> Value {
        let hexed = |b: &[u8]| json!(format!("0x{}", hex(b)));
        match self {
            Uint(x, _) => json!(x.to_string()),
            Bool(b) => json!(b),
            Bytes(b) | ByteList(b, _) => hexed(b),
            Bits(_) | BitList(..) => hexed(&self.ssz()),
            Vector(v) | List(v, ..) => v.iter().map(|x| x.json()).collect(),
            Container(f) => Value::Object(f.iter().map(|(n, v)| (n.to_string(), v.json())).collect()),
        }
    }
    pub fn get(&self, name: &str) -> Option<&V> {
        match self {
            Container(f) => f.iter().find(|(n, _)| *n == name).map(|(_, v)| v),
            _ => None,
        }
    }
    fn set(&mut self, name: &str, x: V) {
        if let Container(f) = self {
            f.iter_mut().find(|(n, _)| *n == name).unwrap().1 = x;
        }
    }
    /// The same kind of value with other contents, all different; lists get `n` elements.
    fn filled(&self, seed: &mut u64, n: usize) -> V {
        *seed += 1;
        let s = *seed;
        let bytes = |k: usize| (0..k).map(|i| val(s, "bytes", i as u64 / 32)[i % 32]).collect::<Vec<u8>>();
        match self {
            Uint(_, w) => {
                let b = bytes(16);
                Uint(u128::from_le_bytes(b.try_into().unwrap()) & (u128::MAX >> (128 - 8 * (*w).min(16))), *w)
            }
            Bool(_) => Bool(s % 2 == 0),
            Bytes(b) => Bytes(bytes(b.len())),
            ByteList(_, l) => ByteList(bytes(n.min(*l as usize)), *l),
            Bits(b) => Bits((0..b.len() as u64).map(|i| val(s, "bit", i)[0] % 2 == 0).collect()),
            BitList(_, l) => BitList((0..n as u64 * 3).map(|i| val(s, "bit", i)[0] % 2 == 0).collect(), *l),
            Vector(v) => Vector(v.iter().map(|x| x.filled(seed, n)).collect()),
            List(_, l, e) => List((0..n).map(|_| e.filled(seed, n)).collect(), *l, e.clone()),
            Container(f) => Container(f.iter().map(|(k, v)| (*k, v.filled(seed, n))).collect()),
        }
    }
    /// Every value that differs in one place.
    fn changed(&self, name: String, out: &mut Vec<(String, V)>) {
        let here = out.len();
        let mut seed = 7_000;
        match self {
            Uint(x, n) => {
                let max = u128::MAX >> (128 - 8 * (*n).min(16));
                for y in [0, 1, 255, max, max / 2 + 1, x ^ 1, x ^ (max / 2 + 1)] {
                    out.push((format!("{name}={y}"), Uint(y & max, *n)));
                }
            }
            Bool(b) => out.push((name, Bool(!b))),
            Bytes(b) => {
                for i in [0, b.len() / 2, b.len() - 1] {
                    let mut c = b.clone();
                    c[i] ^= 0x81;
                    out.push((format!("{name}[{i}]"), Bytes(c)));
                }
            }
            ByteList(b, l) => {
                for n in [0, 1, *l as usize - 1, *l as usize] {
                    out.push((format!("{name} of {n}"), ByteList((0..n as u8).map(|i| i + 1).collect(), *l)));
                }
                if !b.is_empty() {
                    let mut c = b.clone();
                    c[0] ^= 1;
                    out.push((format!("{name}[0]"), ByteList(c, *l)));
                }
            }
            Bits(b) => {
                for i in 0..b.len() {
                    let mut c = b.clone();
                    c[i] ^= true;
                    out.push((format!("{name}[{i}]"), Bits(c)));
                }
            }
            BitList(_, l) => {
                for n in [0, 1, 7, 8, 9, *l as usize - 1, *l as usize] {
                    out.push((format!("{name} of {n}"), BitList((0..n).map(|i| i % 3 == 0).collect(), *l)));
                }
            }
            Vector(v) => {
                for i in 0..v.len() {
                    let mut sub = vec![];
                    v[i].changed(format!("{name}[{i}]"), &mut sub);
                    for (k, x) in sub {
                        let mut c = v.clone();
                        c[i] = x;
                        out.push((k, Vector(c)));
                    }
                }
            }
            List(v, l, e) => {
                for n in [0usize, 1, 2, 3, 5, 33] {
                    out.push((format!("{name} of {n}"), List((0..n).map(|_| e.filled(&mut seed, 2)).collect(), *l, e.clone())));
                }
                for i in 0..v.len() {
                    let mut sub = vec![];
                    v[i].changed(format!("{name}[{i}]"), &mut sub);
                    for (k, x) in sub {
                        let mut c = v.clone();
                        c[i] = x;
                        out.push((k, List(c, *l, e.clone())));
                    }
                }
            }
            Container(f) => {
                for i in 0..f.len() {
                    let mut sub = vec![];
                    f[i].1.changed(format!("{name}.{}", f[i].0), &mut sub);
                    for (k, x) in sub {
                        let mut c = f.clone();
                        c[i].1 = x;
                        out.push((k, Container(c)));
                    }
                }
            }
        }
        let me = self.clone();
        let mut i = 0;
        out.retain(|(_, v)| {
            i += 1;
            i <= here || *v != me
        });
    }
}
fn u64v() -> V {
    Uint(0, 8)
}
fn b32() -> V {
    Bytes(vec![0; 32])
}
fn list_of(e: V, limit: usize) -> V {
    List(vec![], limit as u64, Box::new(e))
}
fn vector(e: V, n: usize) -> V {
    Vector(vec![e; n])
}
fn checkpoint() -> V {
    Container(vec![("epoch", u64v()), ("root", b32())])
}
fn data() -> V {
    Container(vec![("slot", u64v()), ("index", u64v()), ("beacon_block_root", b32()), ("source", checkpoint()), ("target", checkpoint())])
}
pub const NAMES: [&str; 7] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra", "fulu"];
/// The state of a fork, all zero (consensus-specs, the `BeaconState` of each fork's beacon-chain.md).
pub fn schema(fork: usize) -> V {
    let root_list = || list_of(b32(), preset::HISTORICAL_ROOTS_LIMIT);
    let registry = |e: V| list_of(e, preset::VALIDATOR_REGISTRY_LIMIT);
    let pending_attestation = Container(vec![
        ("aggregation_bits", BitList(vec![], preset::MAX_VALIDATORS_PER_COMMITTEE as u64)),
        ("data", data()),
        ("inclusion_delay", u64v()),
        ("proposer_index", u64v()),
    ]);
    let committee = || Container(vec![("pubkeys", vector(Bytes(vec![0; 48]), preset::SYNC_COMMITTEE_SIZE)), ("aggregate_pubkey", Bytes(vec![0; 48]))]);
    let eth1 = || Container(vec![("deposit_root", b32()), ("deposit_count", u64v()), ("block_hash", b32())]);
    let mut f = vec![
        ("genesis_time", u64v()),
        ("genesis_validators_root", b32()),
        ("slot", u64v()),
        ("fork", Container(vec![("previous_version", Bytes(vec![0; 4])), ("current_version", Bytes(vec![0; 4])), ("epoch", u64v())])),
        ("latest_block_header", Container(vec![("slot", u64v()), ("proposer_index", u64v()), ("parent_root", b32()), ("state_root", b32()), ("body_root", b32())])),
        ("block_roots", vector(b32(), preset::SLOTS_PER_HISTORICAL_ROOT)),
        ("state_roots", vector(b32(), preset::SLOTS_PER_HISTORICAL_ROOT)),
        ("historical_roots", root_list()),
        ("eth1_data", eth1()),
        ("eth1_data_votes", list_of(eth1(), preset::ETH1_DATA_VOTES_BOUND)),
        ("eth1_deposit_index", u64v()),
        (
            "validators",
            registry(Container(vec![
                ("pubkey", Bytes(vec![0; 48])),
                ("withdrawal_credentials", b32()),
                ("effective_balance", u64v()),
                ("slashed", Bool(false)),
                ("activation_eligibility_epoch", u64v()),
                ("activation_epoch", u64v()),
                ("exit_epoch", u64v()),
                ("withdrawable_epoch", u64v()),
            ])),
        ),
        ("balances", registry(u64v())),
        ("randao_mixes", vector(b32(), preset::EPOCHS_PER_HISTORICAL_VECTOR)),
        ("slashings", vector(u64v(), preset::EPOCHS_PER_SLASHINGS_VECTOR)),
    ];
    if fork == 0 {
        f.push(("previous_epoch_attestations", list_of(pending_attestation.clone(), preset::PENDING_ATTESTATIONS_BOUND)));
        f.push(("current_epoch_attestations", list_of(pending_attestation, preset::PENDING_ATTESTATIONS_BOUND)));
    } else {
        f.push(("previous_epoch_participation", registry(Uint(0, 1))));
        f.push(("current_epoch_participation", registry(Uint(0, 1))));
    }
    f.push(("justification_bits", Bits(vec![false; 4])));
    f.push(("previous_justified_checkpoint", checkpoint()));
    f.push(("current_justified_checkpoint", checkpoint()));
    f.push(("finalized_checkpoint", checkpoint()));
    if fork >= 1 {
        f.push(("inactivity_scores", registry(u64v())));
        f.push(("current_sync_committee", committee()));
        f.push(("next_sync_committee", committee()));
    }
    if fork >= 2 {
        let mut h = vec![
            ("parent_hash", b32()),
            ("fee_recipient", Bytes(vec![0; 20])),
            ("state_root", b32()),
            ("receipts_root", b32()),
            ("logs_bloom", Bytes(vec![0; preset::BYTES_PER_LOGS_BLOOM])),
            ("prev_randao", b32()),
            ("block_number", u64v()),
            ("gas_limit", u64v()),
            ("gas_used", u64v()),
            ("timestamp", u64v()),
            ("extra_data", ByteList(vec![], preset::MAX_EXTRA_DATA_BYTES as u64)),
            ("base_fee_per_gas", Uint(0, 32)),
            ("block_hash", b32()),
            ("transactions_root", b32()),
        ];
        if fork >= 3 {
            h.push(("withdrawals_root", b32()));
        }
        if fork >= 4 {
            h.push(("blob_gas_used", u64v()));
            h.push(("excess_blob_gas", u64v()));
        }
        f.push(("latest_execution_payload_header", Container(h)));
    }
    if fork >= 3 {
        f.push(("next_withdrawal_index", u64v()));
        f.push(("next_withdrawal_validator_index", u64v()));
        f.push(("historical_summaries", list_of(Container(vec![("block_summary_root", b32()), ("state_summary_root", b32())]), preset::HISTORICAL_ROOTS_LIMIT)));
    }
    if fork >= 5 {
        for n in ["deposit_requests_start_index", "deposit_balance_to_consume", "exit_balance_to_consume", "earliest_exit_epoch", "consolidation_balance_to_consume", "earliest_consolidation_epoch"] {
            f.push((n, u64v()));
        }
        let deposit = vec![("pubkey", Bytes(vec![0; 48])), ("withdrawal_credentials", b32()), ("amount", u64v()), ("signature", Bytes(vec![0; 96])), ("slot", u64v())];
        f.push(("pending_deposits", list_of(Container(deposit), preset::PENDING_DEPOSITS_LIMIT)));
        f.push(("pending_partial_withdrawals", list_of(Container(vec![("validator_index", u64v()), ("amount", u64v()), ("withdrawable_epoch", u64v())]), preset::PENDING_PARTIAL_WITHDRAWALS_LIMIT)));
        f.push(("pending_consolidations", list_of(Container(vec![("source_index", u64v()), ("target_index", u64v())]), preset::PENDING_CONSOLIDATIONS_LIMIT)));
    }
    if fork >= 6 {
        f.push(("proposer_lookahead", vector(u64v(), 8)));
    }
    Container(f)
}

/// A decoded state against its description.
fn compare(s: &BeaconState, v: &V, fork: usize) -> Result<(), String> {
    if s.version().to_string() != NAMES[fork] {
        return Err(format!("is taken for a {} state", s.version()));
    }
    let ssz = v.ssz();
    if ssz_rs::serialize(s).map_err(|e| e.to_string())? != ssz {
        return Err("has another encoding".into());
    }
    let root = s.hash_tree_root().map_err(|e| e.to_string())?;
    if root.0 != v.tree().root() {
        return Err(format!("has the root {root} instead of {}", hex(&v.tree().root())));
    }
    if serde_json::to_value(s).map_err(|e| e.to_string())? != v.json() {
        return Err("is written as other JSON".into());
    }
    let back: BeaconState = ssz_rs::deserialize(&ssz).map_err(|e| format!("is not decoded from SSZ: {e}"))?;
    if back != *s {
        return Err(format!("is decoded from SSZ as another, {}, state", back.version()));
    }
    // the parts
    macro_rules! part {
        ($name:literal, $x:expr) => {
            if ssz_rs::serialize(&$x).unwrap() != v.get($name).unwrap().ssz() {
                return Err(format!("gives another {}", $name));
            }
        };
    }
    macro_rules! maybe {
        ($name:literal, $x:expr) => {
            match (v.get($name), $x) {
                (None, None) => {}
                (Some(v), Some(x)) if ssz_rs::serialize(x).unwrap() == v.ssz() => {}
                _ => return Err(format!("gives another {}", $name)),
            }
        };
    }
    part!("slot", s.slot());
    part!("genesis_validators_root", s.genesis_validators_root());
    part!("fork", *s.fork());
    part!("latest_block_header", *s.latest_block_header());
    part!("state_roots", *s.state_roots());
    part!("historical_roots", *s.historical_roots());
    part!("validators", *s.validators());
    part!("balances", *s.balances());
    part!("randao_mixes", *s.randao_mixes());
    part!("previous_justified_checkpoint", *s.previous_justified_checkpoint());
    part!("current_justified_checkpoint", *s.current_justified_checkpoint());
    part!("finalized_checkpoint", *s.finalized_checkpoint());
    maybe!("previous_epoch_attestations", s.previous_epoch_attestations());
    maybe!("current_epoch_attestations", s.current_epoch_attestations());
    maybe!("previous_epoch_participation", s.previous_epoch_participation());
    maybe!("current_epoch_participation", s.current_epoch_participation());
    Ok(())
}
/// What the client makes of a node's answer.
fn fetch(body: String) -> Result<BeaconState, String> {
    set_handler(Some(Rc::new(move |url| {
        assert_eq!(url.path(), "/eth/v2/debug/beacon/states/77");
        (0, Reply::Body(200, body.clone()))
    })));
    let client = BeaconClient::builder("http://node.test/".parse().unwrap()).build();
    let r = guard(|| block_on(client.get_beacon_state(77)));
    set_handler(None);
    r.map_err(|p| format!("panic: {p}"))?.map_err(|e| format!("{e}"))
}
fn served(fork: usize, v: &Value) -> String {
    json!({"version": NAMES[fork], "execution_optimistic": false, "finalized": true, "data": v}).to_string()
}
fn judge(ctx: &Ctx, space: &str, fork: usize, v: &V, what: &dyn Fn() -> String) {
    let got = fetch(served(fork, &v.json())).map_err(|e| format!("is refused: {e}"));
    let r = got.and_then(|s| guard(|| compare(&s, v, fork)).unwrap_or_else(|p| Err(format!("panics: {p}"))));
    ctx.eval(r.is_ok());
    ctx.check(r.is_ok(), space, "state", || format!("a {} state, {}, {}", NAMES[fork], what(), r.unwrap_err()));
}

pub fn run(ctx: &'static Ctx) -> ! {
    let bases = |fork: usize| -> Vec<V> {
        let mut seed = ctx.seed * 1000;
        let z = schema(fork);
        let mut out = vec![z.clone(), z.filled(&mut seed, 2)];
        out.push(z.filled(&mut seed, 3));
        out
    };
    ctx.space("values", || {
        // every value that differs from one of the bases in one place
        let jobs: Vec<(usize, usize, String, V)> = (0..7)
            .flat_map(|fork| {
                let mut all = vec![];
                for (i, b) in bases(fork).into_iter().enumerate().take(ctx.pick(2, 3)) {
                    let mut out = vec![("unchanged".to_string(), b.clone())];
                    b.changed("state".into(), &mut out);
                    all.extend(out.into_iter().map(|(k, v)| (fork, i, k, v)));
                }
                all
            })
            .collect();
        parallel(ctx, jobs.len(), |j| {
            let (fork, base, k, v) = &jobs[j];
            judge(ctx, "values", *fork, v, &|| format!("base {base} with another {k}"));
        });
    });
    ctx.space("lengths", || {
        // the lengths of every two lists
        for fork in 0..7 {
            let base = schema(fork);
            let Container(f) = &base else { unreachable!() };
            let lists: Vec<&str> = f.iter().filter(|(_, v)| matches!(v, List(..))).map(|(n, _)| *n).collect();
            let n = ctx.pick(3usize, 6);
            parallel(ctx, lists.len() * lists.len(), |j| {
                let (a, b) = (lists[j % lists.len()], lists[j / lists.len()]);
                if a > b {
                    return;
                }
                for la in 0..=n {
                    for lb in 0..=n {
                        let mut v = base.clone();
                        let mut seed = ctx.seed + 5;
                        for (name, l) in [(a, la), (b, lb)] {
                            let List(_, limit, e) = v.get(name).unwrap().clone() else { unreachable!() };
                            v.set(name, List((0..l).map(|_| e.filled(&mut seed, 1)).collect(), limit, e));
                        }
                        judge(ctx, "lengths", fork, &v, &|| format!("{la} {a} and {lb} {b}"));
                    }
                }
            });
        }
    });
    ctx.space("answers", || {
        // what is not a state of the fork it is said to be of is refused
        parallel(ctx, 7, |fork| {
            let v = bases(fork)[1].clone();
            let Container(fields) = &v else { unreachable!() };
            let whole = v.json();
            let refused = |j: &Value, said: usize, what: &dyn Fn() -> String| {
                let got = fetch(served(said, j));
                ctx.eval(got.is_err());
                ctx.check(got.is_err(), "answers", "accepted", || format!("a {} state {} is accepted as {}", NAMES[fork], what(), got.as_ref().map_or(String::new(), |s| s.version().to_string())));
            };
            for said in 0..7 {
                if said != fork {
                    refused(&whole, said, &|| format!("said to be {}", NAMES[said]));
                }
            }
            for (name, x) in fields {
                let with = |y: Option<Value>| {
                    let mut j = whole.clone();
                    match y {
                        None => {
                            j.as_object_mut().unwrap().remove(*name);
                        }
                        Some(y) => j[*name] = y,
                    }
                    j
                };
                // the fork is told by its last fields
                refused(&with(None), fork, &|| format!("without {name}"));
                for y in [json!(null), json!({}), json!("0x"), json!("x"), json!("-1"), json!("340282366920938463463374607431768211456"), json!([1]), json!([[]]), json!(true)] {
                    refused(&with(Some(y.clone())), fork, &|| format!("with {name} = {y}"));
                }
                match x {
                    Vector(e) => {
                        for n in [0, e.len() - 1, e.len() + 1, 2 * e.len()] {
                            let y: Value = e.iter().cycle().take(n).map(|x| x.json()).collect();
                            refused(&with(Some(y)), fork, &|| format!("with {n} {name}"));
                        }
                    }
                    Bytes(b) => {
                        for n in [0, b.len() - 1, b.len() + 1] {
                            refused(&with(Some(json!(format!("0x{}", hex(&vec![7; n]))))), fork, &|| format!("with {n} bytes of {name}"));
                        }
                    }
                    _ => {}
                }
            }
        });
    });
    ctx.space("proofs", || {
        // the nodes of every state where the specification puts them
        parallel(ctx, 7, |fork| {
            for (i, v) in bases(fork).iter().enumerate() {
                let Ok(s) = fetch(served(fork, &v.json())) else {
                    ctx.violation("proofs", "refused", || format!("base {i} of {}", NAMES[fork]));
                    return;
                };
                let t = v.tree();
                let Container(f) = v else { unreachable!() };
                let mut indices: Vec<u64> = vec![];
                let d = depth(f.len() as u64);
                for (k, (_, x)) in f.iter().enumerate() {
                    let g = (1u64 << d) + k as u64;
                    indices.push(g);
                    let mut below = vec![];
                    match x {
                        Container(sub) => below.extend((0..sub.len() as u64).map(|j| (g << depth(sub.len() as u64)) + j)),
                        Vector(e) if e[0].basic().is_none() => below.extend((0..e.len() as u64).map(|j| (g << depth(e.len() as u64)) + j)),
                        List(e, limit, k) => {
                            below.push(2 * g + 1);
                            if k.basic().is_none() {
                                let first = (2 * g) << depth(*limit);
                                below.extend((0..e.len() as u64).map(|j| first + j));
                                if let (Container(sub), true) = (&**k, e.len() > 1) {
                                    below.extend((0..sub.len() as u64).map(|j| ((first + 1) << depth(sub.len() as u64)) + j));
                                }
                            }
                        }
                        _ => {}
                    }
                    indices.extend(below);
                }
                for g in indices {
                    let r = guard(|| {
                        let m = MultiproofBuilder::new().with_gindex(g as usize).build(&s).map_err(|e| format!("{e}"))?;
                        m.verify(&t.root().into()).map_err(|e| format!("{e}"))?;
                        let got: Vec<(u64, [u8; 32])> = m.values().map(|(g, x)| (g, *x)).collect();
                        (got == vec![(g, node(&t, g).unwrap())]).then_some(()).ok_or(format!("shows {got:?}"))
                    })
                    .unwrap_or_else(|p| Err(format!("panics: {p}")));
                    ctx.eval(r.is_ok());
                    ctx.check(r.is_ok(), "proofs", "proof", || format!("base {i} of {}: the proof of node {g} {}", NAMES[fork], r.unwrap_err()));
                }
            }
        });
    });
    ctx.finish(
        "exploration",
        "for every fork's state as the specification lays it out: every value that differs from a base in one place, the lengths of every two lists, every missing or malformed field; decoding the node's JSON, SSZ both ways, root, accessors, and the proofs of every field, element and part must agree with an encoder and Merkleization written from the specification; non-trivial = accepted and equal, or rightly refused",
        &["the encoding of basic types, lists and vectors is the libraries'; here stand-ins encode them"],
        json!({}),
    )
}
