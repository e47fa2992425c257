//! C18: the encoding in which the host hands its input to the guest.
use crate::binding::*;
use alloy_primitives::B256;
use beacon_types::{Attestation, EthSpec, PublicKey};
use rayon::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use verif_harness::chain::*;
use verif_harness::spec::*;
use verif_harness::tree::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{ConsensusState, Epoch, GuestInput, StatePatch};

/// What an input consists of, read off field by field (not through the code's own equality).
fn parts<E: EthSpec>(i: &GuestInput<'_, E>) -> Vec<String> {
    let mp = |m: &ssz_multiproofs::Multiproof<'_>| {
        let root = guard(|| m.calculate_root());
        let vals: Result<Vec<(u64, [u8; 32])>, String> = guard(|| m.nodes().map(|(g, v)| (g, *v)).collect());
        let marked: Result<Vec<(u64, [u8; 32])>, String> = guard(|| m.values().map(|(g, v)| (g, *v)).collect());
        format!("{root:?} {vals:?} {marked:?}")
    };
    let mut out = vec![mp(&i.beacon_block), mp(&i.beacon_state), mp(&i.active_validators)];
    out.extend(i.public_keys.iter().map(|k| hex(&k.serialize())));
    out.extend(i.patches.iter().map(|(e, p)| {
        format!("{} {:?} {:?}", e.as_u64(), p.randao_mixes, p.validator_exits.iter().map(|(i, e)| (*i, e.as_u64())).collect::<Vec<_>>())
    }));
    out.push(format!("{:?} {:?}", un(i.consensus_state.current_justified_checkpoint()), un(i.consensus_state.finalized_checkpoint())));
    out.extend(i.attestations.iter().map(|a| {
        let d = a.data();
        let (kind, bits, cs) = match a {
            Attestation::Base(a) => (0, a.aggregation_bits.iter().collect::<Vec<_>>(), vec![]),
            Attestation::Electra(a) => (1, a.aggregation_bits.iter().collect(), a.committee_bits.iter().collect::<Vec<_>>()),
        };
        format!("{kind} {bits:?} {cs:?} {} {} {} {:?} {:?} {}", d.slot.as_u64(), d.index, d.beacon_block_root, un(d.source.into()), un(d.target.into()), hex(&a.signature().serialize()))
    }));
    out.extend(i.block_slot_proofs.iter().map(mp));
    out.push(format!("{} {} {}", i.public_keys.len(), i.attestations.len(), i.block_slot_proofs.len()));
    out
}
fn round_trip<E: EthSpec>(ctx: &Ctx, space: &str, i: &GuestInput<'static, E>, what: impl Fn() -> String) -> Option<Vec<u8>> {
    let Ok(Ok(bytes)) = guard(|| bincode::serialize(i)) else {
        ctx.eval(true);
        ctx.violation(space, "not-serialized", || format!("{}: cannot be serialized", what()));
        return None;
    };
    let back: Result<Result<GuestInput<'_, E>, _>, _> = guard(|| bincode::deserialize(&bytes));
    ctx.eval(true);
    match back {
        Ok(Ok(b)) => {
            ctx.check(b == *i && parts(&b) == parts(i), space, "different", || format!("{}: reads back as {:?} instead of {:?}", what(), parts(&b), parts(i)));
            let again = guard(|| bincode::serialize(&b).unwrap());
            ctx.check(again.as_ref() == Ok(&bytes), space, "different", || format!("{}: serialized again differently", what()));
        }
        x => ctx.violation(space, "refused", || format!("{}: not read back: {:?}", what(), x.map(|x| x.err().map(|e| e.to_string())))),
    }
    Some(bytes)
}
fn decodes<E: EthSpec>(bytes: &[u8]) -> Option<Vec<String>> {
    match guard(|| bincode::deserialize::<GuestInput<'_, E>>(bytes).ok().map(|i| parts(&i))) {
        Ok(x) => x,
        Err(_) => None,
    }
}
fn find(hay: &[u8], needle: &[u8]) -> Vec<usize> {
    (0..hay.len().saturating_sub(needle.len() - 1)).filter(|o| hay[*o..].starts_with(needle)).collect()
}

pub fn c18(ctx: &'static Ctx) -> ! {
    let base = || case(ctx.seed, 12, 0, 2, false, registry_of(&kinds(12), &[0, 3])).honest();
    let data = |k: u64| beacon_types::AttestationData {
        slot: (k ^ 5).into(),
        index: k,
        beacon_block_root: b(val(1, "head", k)),
        source: cp((k / 2, val(1, "s", k))).into(),
        target: cp((k / 2 + 1, val(1, "t", k))).into(),
    };
    let sig = |k: u64| {
        let mut s = beacon_types::AggregateSignature::empty();
        if k == 1 {
            return beacon_types::AggregateSignature::infinity();
        }
        if k > 1 {
            s.add_assign(&key(k as usize).sign(B256::ZERO));
        }
        s
    };
    ctx.space("attestation-bits", || {
        // every length and content of the aggregation bits and of the committee bits
        let n = ctx.pick(9usize, 13);
        let mut all: Vec<(Vec<bool>, Vec<usize>)> = vec![];
        for len in 0..=n {
            for m in 0u64..1 << len {
                let bits: Vec<bool> = (0..len).map(|i| m >> i & 1 == 1).collect();
                for c in 0..if len < 5 { 16 } else { 2 } {
                    all.push((bits.clone(), (0..4).filter(|i| c >> i & 1 == 1).collect()));
                }
            }
        }
        for len in n + 1..=256 {
            for one in (0..len).chain([usize::MAX]) {
                all.push(((0..len).map(|i| i == one).collect(), vec![len % 4]));
                if one % 8 == 7 || one == len - 1 {
                    all.push(((0..len).map(|i| i != one).collect(), vec![0, 3]));
                }
            }
        }
        all.par_iter().for_each(|(bits, cs)| {
            let mut i = base();
            i.attestations = vec![attestation(cs, bits, data(bits.len() as u64), sig(2 + bits.len() as u64))];
            round_trip::<Two>(ctx, "attestation-bits", &i.guest(), || format!("bits {bits:?}, committees {cs:?}"));
            if bits.len() <= 64 && cs.len() < 2 {
                i.attestations = vec![base_attestation(bits, data(1), sig(3))];
                round_trip::<Two>(ctx, "attestation-bits", &i.guest(), || format!("phase 0 bits {bits:?}"));
            }
        });
        // and in the shipped preset, with its 64 committees and up to 131072 validators
        let spec = tiny_spec();
        let bs = BlockState::new::<beacon_types::MainnetEthSpec>(ctx.seed, &spec, 400, vec![validator(0, 32 * ETH)]);
        let built = bs.build();
        let lens: Vec<usize> = (0..ctx.pick(200, 2100)).chain([2048, 4095, 4096, 65535, 65536, 131071, 131072]).collect();
        lens.par_iter().for_each(|len| {
            for c in (0..64).chain([64]) {
                if *len > 64 && c % 16 != 0 {
                    continue;
                }
                let cs: Vec<usize> = if c == 64 { (0..64).collect() } else { vec![c] };
                let bits: Vec<bool> = (0..*len).map(|i| (i * 7 + c) % 3 == 0 || i + 1 == *len).collect();
                let mut i = built.input::<beacon_types::MainnetEthSpec>(12, (13, [3; 32]));
                i.attestations = vec![attestation(&cs, &bits, data(c as u64), sig(c as u64)); 2];
                round_trip(ctx, "attestation-bits", &i.guest(), || format!("mainnet: {len} bits, committee {c}"));
            }
        });
    });
    ctx.space("numbers", || {
        // every field at its extremes
        let ext = [0u64, 1, 2, 255, 256, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 63, FAR - 1, FAR];
        for a in ext {
            for x in ext {
                for s in 0..3 {
                    let mut i = base();
                    let mut d = data(1);
                    d.slot = a.into();
                    d.index = x;
                    d.source = cp((x, [s as u8; 32])).into();
                    d.target = cp((a, [255; 32])).into();
                    i.attestations = vec![attestation(&[1], &[true, false], d, sig(s))];
                    i.patches.insert(Epoch::new(a), StatePatch { randao_mixes: BTreeMap::from([(x as u32, b([s as u8; 32])), (0, B256::ZERO)]), validator_exits: BTreeMap::from([(x as usize, Epoch::new(a)), (a as usize, Epoch::new(x))]) });
                    i.patches.insert(Epoch::new(x), StatePatch::new());
                    if a > x {
                        i.consensus = ConsensusState::new(cp((a, [7; 32])), cp((x, [8; 32])));
                    }
                    round_trip::<Two>(ctx, "numbers", &i.guest(), || format!("numbers {a} {x} {s}"));
                }
            }
        }
        let mut i = base();
        i.consensus = ConsensusState::new(cp((0, [0; 32])), cp((0, [0; 32])));
        round_trip::<Two>(ctx, "numbers", &i.guest(), || "initial state".into());
    });
    ctx.space("collections", || {
        // every number of keys (repeated, in any order), patches, attestations and proofs
        let keyset: Vec<PublicKey> = (0..3).map(|i| key(i).public_key()).collect();
        for nk in 0..=3usize {
            product(&vec![3; nk], |ks| {
                for np in 0..=3u64 {
                    for na in 0..=3u64 {
                        for ns in 0..=2u64 {
                            let mut i = base();
                            i.keys = ks.iter().map(|k| keyset[*k].clone()).collect();
                            i.patches = (0..np).map(|p| (Epoch::new(1 << (20 * p)), StatePatch { randao_mixes: (0..p as u32).map(|m| (m, b(val(1, "m", m as u64)))).collect(), validator_exits: (0..np as usize - p as usize).map(|v| (v, Epoch::new(v as u64))).collect() })).collect();
                            i.attestations = (0..na).map(|a| if a == 2 { base_attestation(&[true], data(a), sig(a)) } else { attestation(&[a as usize], &vec![true; a as usize], data(a), sig(a)) }).collect();
                            i.slots = (0..ns).map(|s| slot_proof(&header(1, s))).collect();
                            round_trip::<Two>(ctx, "collections", &i.guest(), || format!("{ks:?} keys, {np} patches, {na} attestations, {ns} slot proofs"));
                        }
                    }
                }
            });
        }
        // proofs of every registry size
        for n in 0..ctx.pick(40, 200) {
            let c = case(ctx.seed, 12, 0, 1, n % 2 == 1, (0..n).map(|i| validator(i, 32 * ETH)).collect());
            round_trip::<Two>(ctx, "collections", &c.honest().guest(), || format!("registry of {n}"));
        }
    });
    let mut rich = base();
    rich.patches.insert(Epoch::new(13), StatePatch { randao_mixes: BTreeMap::from([(3, b([5; 32]))]), validator_exits: BTreeMap::from([(1, Epoch::new(20))]) });
    rich.attestations = vec![attestation(&[1], &[true, false, true], data(9), sig(4)), base_attestation(&[true; 8], data(3), sig(5)), attestation(&[0, 3], &[true; 16], data(2), sig(6))];
    let bytes = bincode::serialize(&rich.guest()).unwrap();
    let truth = decodes::<Two>(&bytes).expect("decodes");
    ctx.space("truncated", || {
        for n in 0..bytes.len() {
            ctx.eval(true);
            ctx.check(decodes::<Two>(&bytes[..n]).is_none(), "truncated", "truncated", || format!("{n} of {} bytes are read as an input", bytes.len()));
        }
    });
    ctx.space("damaged-keys", || {
        for k in &rich.keys {
            let at = find(&bytes, &k.serialize_uncompressed());
            ctx.check(at.len() == 1, "damaged-keys", "key", || format!("the key is {} times in the encoding", at.len()));
            for at in at {
                for p in 0..96 {
                    for x in 1..=255u8 {
                        let mut d = bytes.clone();
                        d[at + p] ^= x;
                        ctx.eval(true);
                        ctx.check(decodes::<Two>(&d).is_none(), "damaged-keys", "key", || format!("byte {p} of a key xor {x:#x} is read as a key"));
                    }
                }
                // the compressed form, nothing, all ones, another key's half
                for other in [[0u8; 96], [255; 96]] {
                    let mut d = bytes.clone();
                    d[at..at + 96].copy_from_slice(&other);
                    ctx.eval(true);
                    ctx.check(decodes::<Two>(&d).is_none(), "damaged-keys", "key", || format!("96 times {} is read as a key", other[0]));
                }
                let mut d = bytes.clone();
                d[at..at + 48].copy_from_slice(&k.serialize());
                ctx.check(decodes::<Two>(&d).is_none(), "damaged-keys", "key", || "a compressed key is read as an uncompressed one".into());
            }
        }
    });
    ctx.space("damaged-attestations", || {
        // each attestation: cut short or extended (with its length adjusted), every byte replaced by every other
        for (n, a) in rich.attestations.iter().enumerate() {
            let root = a.data().beacon_block_root;
            let at = find(&bytes, root.as_slice());
            assert_eq!(at.len(), 1);
            // selector, offset of the bits (and of what follows), then slot, index, root
            let start = at[0] - 16 - 4 - 1;
            let len = u64::from_le_bytes(bytes[start - 8..start].try_into().unwrap()) as usize;
            let with = |inner: &[u8]| [&bytes[..start - 8], &(inner.len() as u64).to_le_bytes(), inner, &bytes[start + len..]].concat();
            let inner = &bytes[start..start + len];
            assert_eq!(with(inner), bytes);
            // whatever is read must be what these bytes are the encoding of
            let judge = |inner: Vec<u8>, what: String| {
                let d = with(&inner);
                ctx.eval(true);
                let back = guard(|| bincode::deserialize::<GuestInput<'_, Two>>(&d).ok().map(|i| (bincode::serialize(&i).unwrap(), parts(&i))));
                if let Ok(Some((again, p))) = back {
                    ctx.check(again == d && p != truth, "damaged-attestations", "attestation", || format!("attestation {n}, {what}: accepted, but it encodes to other bytes"));
                }
            };
            for cut in 0..len {
                judge(inner[..cut].to_vec(), format!("cut to {cut} bytes"));
                judge([&inner[..cut], &inner[cut + 1..]].concat(), format!("without byte {cut}"));
            }
            for x in [0u8, 1, 255] {
                judge([inner, &[x]].concat(), format!("extended by {x}"));
                judge([&inner[..1], &[x], &inner[1..]].concat(), format!("with {x} inserted"));
            }
            (0..len).into_par_iter().for_each(|p| {
                for x in 1..=255u8 {
                    let mut i = inner.to_vec();
                    i[p] ^= x;
                    judge(i, format!("byte {p} xor {x:#x}"));
                }
            });
            // two bytes at the structure: selector, offsets, last bytes
            let spots: Vec<usize> = (0..5).chain(len - 2..len).collect();
            for p in &spots {
                for q in spots.iter().filter(|q| *q > p) {
                    for x in [0u8, 1, 2, 3, 0x0f, 0x10, 0x80, 0xec, 0xff] {
                        for y in [0u8, 1, 2, 3, 0x0f, 0x10, 0x80, 0xec, 0xff] {
                            if inner[*p] == x && inner[*q] == y {
                                continue;
                            }
                            let mut i = inner.to_vec();
                            i[*p] = x;
                            i[*q] = y;
                            judge(i, format!("bytes {p},{q} = {x:#x},{y:#x}"));
                        }
                    }
                }
            }
        }
    });
    ctx.finish(
        "exploration",
        "every input of the stated families through bincode and back, compared field by field; every truncation of an input with all parts; every byte of every key and attestation replaced by every value",
        &["the SSZ codec of the beacon types is a stand-in for lighthouse's", "a damaged public key is not another valid one (points on the curve are sparse)"],
        json!({"encoding_bytes": bytes.len()}),
    )
}
