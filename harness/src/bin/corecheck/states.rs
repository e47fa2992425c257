//! C07, C08, C17: consensus states, links and their encodings.
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::Ordering::Relaxed;
use verif_harness::spec::*;
use verif_harness::util::*;
use verif_harness::{guard, Ctx};
use z_core::{ConsensusError, ConsensusState};

type S = (Cp, Cp); // justified, finalized
const ZERO: Cp = (0, [0; 32]);

fn valid(s: S) -> bool {
    s.1 .0 < s.0 .0 || s == (ZERO, ZERO)
}
fn universe(ctx: &Ctx) -> Vec<Cp> {
    let m = u64::MAX;
    let epochs: &[u64] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 1 << 16, (1 << 32) + 1, (1 << 32) + 2, 1 << 63, m - 2, m - 1, m] } else { &[0, 1, 2, 3, (1 << 32) + 1, (1 << 32) + 2, m - 1, m] };
    let mut out = vec![ZERO];
    for e in epochs {
        for r in 0..2 {
            out.push((*e, val(ctx.seed, "root", r)));
        }
    }
    out.push((2, [0; 32]));
    out
}
fn real(s: S) -> ConsensusState {
    ConsensusState::new(cp(s.0), cp(s.1))
}
fn back(s: &ConsensusState) -> S {
    (un(s.current_justified_checkpoint()), un(s.finalized_checkpoint()))
}
fn show(s: S) -> String {
    let c = |c: Cp| format!("({},{})", c.0, &hex(&c.1)[..4]);
    format!("[justified {} finalized {}]", c(s.0), c(s.1))
}

pub fn c07(ctx: &'static Ctx) -> ! {
    let cps = universe(ctx);
    let mut states: Vec<S> = vec![];
    for j in &cps {
        for f in &cps {
            if valid((*j, *f)) {
                states.push((*j, *f));
            }
        }
    }
    ctx.space("validity", || {
        // a state can be formed exactly if it is valid
        for j in &cps {
            for f in &cps {
                let s = (*j, *f);
                let r = guard(|| real(s));
                ctx.eval(valid(s));
                ctx.check(r.is_ok() == valid(s), "validity", "validity", || format!("{}: formed {}", show(s), r.is_ok()));
                if let Ok(r) = r {
                    ctx.check(r.is_valid() && back(&r) == s, "validity", "validity", || show(s));
                }
            }
        }
    });
    let mut edges = 0u64;
    let mut reached: BTreeSet<S> = BTreeSet::new();
    ctx.space("state-graph", || {
        // the model's graph: all valid states, all links between any two checkpoints
        let links: Vec<(Cp, Cp)> = cps.iter().flat_map(|a| cps.iter().map(move |b| (*a, *b))).collect();
        let all: Vec<S> = states.clone();
        let n: u64 = all
            .par_iter()
            .map(|s| {
                let st = real(*s);
                for l in &links {
                    let want = step(*s, *l);
                    let got = guard(|| st.state_transition(&link(l.0, l.1)));
                    ctx.eval(want.is_some());
                    let ok = match (&got, want) {
                        (Ok(Ok(g)), Some(w)) => back(g) == w && g.is_valid(),
                        (Ok(Err(_)), None) => true,
                        _ => false,
                    };
                    ctx.check(ok, "state-graph", "transition", || format!("{} over {}->{}: got {got:?}, model {:?}", show(*s), l.0 .0, l.1 .0, want.map(show)));
                    // the properties themselves, on what the code returned
                    if let Ok(Ok(g)) = &got {
                        let t = back(g);
                        let fine = valid(t)
                            && t.0 .0 >= s.0 .0
                            && t.1 .0 >= s.1 .0
                            && (t.1 == s.1 || t.1 == s.0 && t.0 .0 - t.1 .0 == 1)
                            && l.0 == s.0
                            && t.0 == l.1
                            && t.0 .0 > s.0 .0;
                        ctx.check(fine, "state-graph", "rules", || format!("{} over {}->{} gives {}", show(*s), l.0 .0, l.1 .0, show(t)));
                    }
                }
                links.len() as u64
            })
            .sum();
        edges += n;
    });
    ctx.space("sequences", || {
        // breadth-first over what the code itself reaches from each state, to a fixed point
        let links: Vec<(Cp, Cp)> = cps.iter().flat_map(|a| cps.iter().map(move |b| (*a, *b))).collect();
        for start in [(ZERO, ZERO), (cps[3], ZERO), (cps[5], cps[1])] {
            if !valid(start) {
                continue;
            }
            let mut queue = VecDeque::from([(start, real(start))]);
            let mut seen = BTreeSet::from([start]);
            while let Some((s, st)) = queue.pop_front() {
                for l in &links {
                    edges += 1;
                    ctx.eval(false);
                    if let Ok(Ok(g)) = guard(|| st.state_transition(&link(l.0, l.1))) {
                        let t = back(&g);
                        ctx.check(valid(t) && step(s, *l) == Some(t), "sequences", "reachable", || format!("{} reaches {}", show(s), show(t)));
                        if seen.insert(t) {
                            queue.push_back((t, g));
                        }
                    }
                }
            }
            reached.extend(seen);
        }
    });
    ctx.transitions.store(edges, Relaxed);
    ctx.sample(|| json!({"state": show(states[7]), "links": cps.len() * cps.len()}));
    ctx.nontrivial.store((states.len() + reached.len()) as u64, Relaxed);
    ctx.finish(
        "model_checking",
        "explicit-state model of the transition rules: every valid state over the checkpoints, every link; each model transition is executed on the real ConsensusState; states reached by the code are enumerated breadth-first to a fixed point",
        &[],
        json!({"checkpoints": cps.len()}),
    )
}

pub fn c08(ctx: &'static Ctx) -> ! {
    let cps = universe(ctx);
    let states: Vec<S> = cps.iter().flat_map(|j| cps.iter().map(move |f| (*j, *f))).filter(|s| valid(*s)).collect();
    // the model's successors, by state
    let mut succ: BTreeMap<S, BTreeMap<S, (Cp, Cp)>> = BTreeMap::new();
    for s in &states {
        for t in &cps {
            if let Some(n) = step(*s, (s.0, *t)) {
                succ.entry(*s).or_default().insert(n, (s.0, *t));
            }
        }
    }
    ctx.space("all-pairs", || {
        states.par_iter().for_each(|s| {
            let st = real(*s);
            for t in &states {
                let to = real(*t);
                let got = guard(|| st.transition_link(&to));
                let want = succ.get(s).and_then(|m| m.get(t)).copied();
                ctx.eval(want.is_some());
                ctx.transitions.fetch_add(1, Relaxed);
                let ok = match &got {
                    Ok(Ok(Some(l))) => Some((un(l.source), un(l.target))) == want && guard(|| st.state_transition(l)).is_ok_and(|r| r.ok().as_ref() == Some(&to)),
                    Ok(Ok(None)) => s == t,
                    Ok(Err(_)) => s != t && want.is_none(),
                    Err(_) => false,
                };
                ctx.check(ok, "all-pairs", "inverse", || format!("{} to {}: got {got:?}, model {want:?}", show(*s), show(*t)));
                // the canonical two-epoch finality: finalizes the justified checkpoint over a distance of two
                if s.0 == t.1 && t.0 .0 - t.1 .0 == 2 && s.1 != t.1 {
                    ctx.check(matches!(got, Ok(Err(ConsensusError::TwoFinality))), "all-pairs", "two-finality", || format!("{} to {}: got {got:?}", show(*s), show(*t)));
                }
            }
        });
    });
    ctx.space("invalid-successor", || {
        // a second state that is not valid never yields a link
        let bad: Vec<S> = cps.iter().flat_map(|j| cps.iter().map(move |f| (*j, *f))).filter(|s| !valid(*s)).collect();
        for s in &states {
            for t in &bad {
                let Some(to) = invalid(*t) else { continue };
                let got = guard(|| real(*s).transition_link(&to));
                ctx.eval(false);
                ctx.check(!matches!(got, Ok(Ok(_))), "invalid-successor", "invalid", || format!("{} to invalid {}: got {got:?}", show(*s), show(*t)));
            }
        }
    });
    ctx.space("walks", || {
        // every walk of the model up to four links is reconstructed link by link
        let small: Vec<S> = states.iter().copied().filter(|s| s.0 .0 < 4).collect();
        small.par_iter().for_each(|s| {
            fn walk(ctx: &Ctx, s: S, depth: usize, succ: &BTreeMap<S, BTreeMap<S, (Cp, Cp)>>) {
                if depth == 0 {
                    return;
                }
                for (t, l) in succ.get(&s).into_iter().flatten().filter(|x| x.0 .0 .0 < 6) {
                    ctx.eval(true);
                    let got = guard(|| real(s).transition_link(&real(*t)));
                    let ok = matches!(&got, Ok(Ok(Some(x))) if (un(x.source), un(x.target)) == *l);
                    ctx.check(ok, "walks", "inverse", || format!("{} to {}: got {got:?}", show(s), show(*t)));
                    walk(ctx, *t, depth - 1, succ);
                }
            }
            walk(ctx, *s, 4, &succ);
        });
    });
    ctx.nontrivial.store(states.len() as u64, Relaxed);
    ctx.sample(|| json!({"from": show(states[5]), "successors_in_model": succ.get(&states[5]).map_or(0, |m| m.len())}));
    ctx.finish(
        "model_checking",
        "explicit-state model of the transition rules: every ordered pair of valid states over the checkpoints; the model's unique link (or its absence) is compared with transition_link and replayed through state_transition",
        &[],
        json!({"checkpoints": cps.len()}),
    )
}

/// An invalid state, which only deserialization can form.
fn invalid(s: S) -> Option<ConsensusState> {
    let c = |c: Cp| json!({"epoch": c.0, "root": format!("0x{}", hex(&c.1))});
    serde_json::from_value(json!({"current_justified_checkpoint": c(s.0), "finalized_checkpoint": c(s.1)})).ok()
}

fn words(s: S) -> Vec<u8> {
    let mut out = vec![];
    for c in [s.0, s.1] {
        out.extend([0; 24]);
        out.extend(c.0.to_be_bytes());
        out.extend(c.1);
    }
    out
}
pub fn c17(ctx: &'static Ctx) -> ! {
    let cps = universe(ctx);
    let states: Vec<S> = cps.iter().flat_map(|j| cps.iter().map(move |f| (*j, *f))).collect();
    ctx.space("layout-and-round-trip", || {
        for s in states.iter().filter(|s| valid(**s)) {
            ctx.eval(true);
            let st = real(*s);
            let enc = guard(|| st.abi_encode());
            ctx.check(enc.as_ref().ok() == Some(&words(*s)), "layout-and-round-trip", "layout", || format!("{}: {enc:?}", show(*s)));
            ctx.check(ConsensusState::abi_encoded_size() == 128, "layout-and-round-trip", "layout", || "size".into());
            let dec = guard(|| ConsensusState::abi_decode(&words(*s)));
            ctx.check(matches!(&dec, Ok(Ok(d)) if *d == st), "layout-and-round-trip", "round-trip", || format!("{}: decodes as {dec:?}", show(*s)));
        }
    });
    ctx.space("invalid-states", || {
        for s in states.iter().filter(|s| !valid(**s)) {
            ctx.eval(true);
            let dec = guard(|| ConsensusState::abi_decode(&words(*s)));
            ctx.check(matches!(&dec, Ok(Err(_))), "invalid-states", "invalid", || format!("{}: decodes as {dec:?}", show(*s)));
        }
    });
    ctx.space("truncations", || {
        for s in states.iter() {
            let w = words(*s);
            for n in 0..w.len() {
                ctx.eval(true);
                let dec = guard(|| ConsensusState::abi_decode(&w[..n]));
                ctx.check(matches!(&dec, Ok(Err(_))), "truncations", "truncated", || format!("{n} bytes of {}: {dec:?}", show(*s)));
            }
        }
    });
    ctx.space("every-byte", || {
        // every significant byte takes part: changing it changes the decoded state (or makes it invalid)
        let s: S = ((0x0102_0304_0506_0708, val(ctx.seed, "r", 0)), (0x0102_0304_0506_0700, val(ctx.seed, "r", 1)));
        let w = words(s);
        for i in 0..128 {
            if i % 64 < 24 {
                continue; // padding of an epoch word
            }
            for x in 1..=255u8 {
                let mut m = w.clone();
                m[i] ^= x;
                let mut t = s;
                for (k, c) in [&mut t.0, &mut t.1].into_iter().enumerate() {
                    c.0 = u64::from_be_bytes(m[k * 64 + 24..k * 64 + 32].try_into().unwrap());
                    c.1 = m[k * 64 + 32..k * 64 + 64].try_into().unwrap();
                }
                ctx.eval(true);
                let dec = guard(|| ConsensusState::abi_decode(&m));
                let ok = match &dec {
                    Ok(Ok(d)) => valid(t) && back(d) == t,
                    Ok(Err(_)) => !valid(t),
                    Err(_) => false,
                };
                ctx.check(ok, "every-byte", "byte", || format!("byte {i} xor {x}: {dec:?}"));
            }
        }
    });
    ctx.space("journals", || {
        let good: Vec<S> = states.iter().copied().filter(|s| valid(*s)).collect();
        good.par_iter().for_each(|a| {
            for c in &good {
                for slot in [0, 1, 0x0102_0304_0506_0708, u64::MAX] {
                    let j = z_core::abi::Journal::new(&real(*a), &real(*c), slot);
                    let mut want = words(*a);
                    want.extend(words(*c));
                    want.extend([0; 24]);
                    want.extend(slot.to_be_bytes());
                    ctx.eval(true);
                    let ok = j.encode() == want && j.encoded_size() == 288;
                    ctx.check(ok, "journals", "layout", || format!("journal of {} {} {slot}: {}", show(*a), show(*c), hex(&j.encode())));
                }
            }
        });
    });
    ctx.finish(
        "exploration",
        "every state over the checkpoints (valid and invalid), every truncation, every value of every significant byte, every pair of states in a journal; non-trivial = all",
        &["alloy-sol-types is replaced by a stand-in with the same (non-validating) word layout"],
        json!({"checkpoints": cps.len()}),
    )
}
