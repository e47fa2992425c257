//! Stand-in for lighthouse's `swap_or_not_shuffle`, written from the consensus specification.
use sha2::{Digest, Sha256};

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut s = Sha256::new();
    for p in parts {
        s.update(p);
    }
    s.finalize().into()
}

/// `compute_shuffled_index` of the specification.
pub fn compute_shuffled_index(index: usize, list_size: usize, seed: &[u8], shuffle_round_count: u8) -> Option<usize> {
    if list_size == 0 || index >= list_size || list_size > usize::MAX / 2 || list_size > 2_usize.pow(24) {
        return None;
    }
    let mut index = index;
    for round in 0..shuffle_round_count {
        let pivot = (u64::from_le_bytes(h(&[seed, &[round]])[..8].try_into().unwrap()) % list_size as u64) as usize;
        let flip = (pivot + list_size - index) % list_size;
        let position = index.max(flip);
        let source = h(&[seed, &[round], &((position / 256) as u32).to_le_bytes()]);
        let byte = source[(position % 256) / 8];
        if (byte >> (position % 8)) & 1 == 1 {
            index = flip;
        }
    }
    Some(index)
}

/// Shuffles a whole list. With `forwards == false`, `out[i] == input[compute_shuffled_index(i)]`.
pub fn shuffle_list(input: Vec<usize>, rounds: u8, seed: &[u8], forwards: bool) -> Option<Vec<usize>> {
    let n = input.len();
    if n == 0 || n > usize::MAX / 2 || n > 2_usize.pow(24) || rounds == 0 {
        return None;
    }
    // apply the rounds to whole positions; every round is an involution
    let mut list = input;
    let order: Vec<u8> = if forwards { (0..rounds).collect() } else { (0..rounds).rev().collect() };
    for round in order {
        let pivot = (u64::from_le_bytes(h(&[seed, &[round]])[..8].try_into().unwrap()) % n as u64) as usize;
        let mut sources: Vec<Option<[u8; 32]>> = vec![None; n / 256 + 1];
        for i in 0..n {
            let flip = (pivot + n - i) % n;
            if flip <= i {
                continue;
            }
            let position = flip;
            let s = sources[position / 256]
                .get_or_insert_with(|| h(&[seed, &[round], &((position / 256) as u32).to_le_bytes()]));
            if (s[(position % 256) / 8] >> (position % 8)) & 1 == 1 {
                list.swap(i, flip);
            }
        }
    }
    Some(list)
}
