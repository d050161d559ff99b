//! Independent reference models.
pub mod binom;
pub mod ed;
pub mod local;
pub mod params;
use sha2::{Digest, Sha512Trunc256};

pub fn h256(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Sha512Trunc256::new();
    for p in parts {
        d.update(p);
    }
    let mut o = [0u8; 32];
    o.copy_from_slice(&d.finalize()[..]);
    o
}

const B32: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

/// RFC 4648 base32 without padding.
pub fn base32(data: &[u8]) -> String {
    let mut out = String::new();
    let mut acc: u32 = 0;
    let mut n = 0;
    for &b in data {
        acc = (acc << 8) | b as u32;
        n += 8;
        while n >= 5 {
            out.push(B32[((acc >> (n - 5)) & 31) as usize] as char);
            n -= 5;
            acc &= (1 << n) - 1;
        }
    }
    if n > 0 {
        out.push(B32[((acc << (5 - n)) & 31) as usize] as char);
    }
    out
}

pub fn address_text(a: &[u8; 32]) -> String {
    let h = h256(&[a]);
    let mut v = a.to_vec();
    v.extend_from_slice(&h[28..]);
    base32(&v)
}

/// Root of the Merkle trie over a sorted set of equal-length elements.
pub fn trie_root(set: &[Vec<u8>]) -> [u8; 32] {
    match set.len() {
        0 => [0; 32],
        1 => h256(&[&[0], &set[0]]),
        _ => h256(&[&[1], &trie_inner(set, 0)]),
    }
}

fn trie_inner(set: &[Vec<u8>], depth: usize) -> [u8; 32] {
    let mut acc = vec![depth as u8];
    acc.extend_from_slice(&set[0][..depth]);
    let mut i = 0;
    while i < set.len() {
        let b = set[i][depth];
        let mut j = i;
        while j < set.len() && set[j][depth] == b {
            j += 1;
        }
        if j - i == 1 {
            let suffix = &set[i][depth + 1..];
            acc.push(0);
            acc.push(suffix.len() as u8);
            acc.push(b);
            acc.extend_from_slice(suffix);
        } else {
            let h = trie_inner(&set[i..j], depth + 1);
            acc.push(1);
            acc.push(32);
            acc.push(b);
            acc.extend_from_slice(&h);
        }
        i = j;
    }
    h256(&[&acc])
}

/// Number of nodes in the trie over the set.
pub fn trie_nodes(set: &[Vec<u8>]) -> usize {
    fn rec(set: &[Vec<u8>], depth: usize) -> usize {
        if set.len() == 1 {
            return 1;
        }
        let mut n = 1;
        let mut i = 0;
        while i < set.len() {
            let b = set[i][depth];
            let mut j = i;
            while j < set.len() && set[j][depth] == b {
                j += 1;
            }
            n += rec(&set[i..j], depth + 1);
            i = j;
        }
        n
    }
    if set.is_empty() {
        0
    } else {
        rec(set, 0)
    }
}

/// Root of the Merkle array commitment over leaf hashes.
pub fn array_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    if leaves.is_empty() {
        return [0; 32];
    }
    let mut l = leaves.to_vec();
    while l.len() > 1 {
        let mut up = Vec::new();
        let mut i = 0;
        while i < l.len() {
            let r = if i + 1 < l.len() { l[i + 1] } else { [0; 32] };
            up.push(h256(&[b"MA", &l[i], &r]));
            i += 2;
        }
        l = up;
    }
    l[0]
}
