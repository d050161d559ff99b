//! C14: verifiable random function.
use super::gen;
use crate::core::*;
use crate::refm::{self, ed::*};
use algorsand::crypto::{Hashable, VrfKeypair, VrfProof, VrfPublicKey};
use num::bigint::BigUint;
use rand::Rng;
use serde_json::json;
use std::collections::HashMap;
use std::convert::TryInto;

fn scalar(c: &mut Ctx, e: &Curve) -> BigUint {
    BigUint::from_bytes_le(&bytes(&mut c.rng, 40)) % &e.q
}

/// One verification: verdict and output against the reference, and uniqueness over the history.
fn judge(c: &mut Ctx, e: &Curve, seen: &mut HashMap<(Vec<u8>, Vec<u8>), Vec<u8>>, what: &str, pk: &[u8; 32], pi: &[u8; 80], alpha: &[u8], expect: Option<bool>) {
    c.about(&format!("{} pk={} pi={} alpha={}", what, hex(pk), hex(pi), hex(alpha)));
    let d = || json!({"what": what, "pk": hex(pk), "proof": hex(pi), "alpha": hex(alpha)});
    let want = e.verify(pk, pi, alpha);
    if let Some(x) = expect {
        if want.is_some() != x {
            panic!("generator error: {} expected {} from the reference", what, x);
        }
    }
    let got = c.no_panic("verify", d, || {
        VrfPublicKey::verif_from_bytes(*pk).verify_bytes(&VrfProof::verif_from_bytes(*pi), alpha)
    });
    c.case(&[&pk[..], &pi[..], alpha].concat(), true);
    c.count(&format!("verify {}", what), 1);
    let got = match got {
        Some(g) => g.ok().map(|o| o.0.to_vec()),
        None => return,
    };
    c.count(if got.is_some() { "accepted" } else { "rejected" }, 1);
    c.check(got.is_some() == want.is_some(), &format!("verdict:{}", what), || json!({"input": d(), "accepted": got.is_some()}));
    if let (Some(g), Some(w)) = (&got, &want) {
        c.check(g == w, "output", || json!({"input": d(), "got": hex(g), "want": hex(w)}));
    }
    if let Some(g) = got {
        let k = (pk.to_vec(), alpha.to_vec());
        let first = seen.entry(k).or_insert_with(|| g.clone()).clone();
        c.check(first == g, "uniqueness", || json!({"input": d(), "first": hex(&first), "now": hex(&g)}));
    }
}

pub fn c14(c: &mut Ctx) {
    c.rule = "keys and messages random; proofs honest, bit-edited, and built by a prover who knows the secret and adds points of small order to proof or key; every verdict and output compared with big-integer curve arithmetic".into();
    let e = Curve::new();
    let tors = e.torsion();
    let n = c.n(300, 8000);
    let mut i = 0;
    let mut seen = HashMap::new();
    while i < n && c.in_time(40, 500) {
        i += 1;
        let seed = arr32_biased(&mut c.rng);
        let al = match c.rng.gen_range(0, 8) { 0 => 0, 1 => 300, 2 => *pick(&mut c.rng, &[31usize, 32, 33, 63, 64, 78, 79, 80, 95, 96, 127, 128, 129, 255, 256, 1024, 5000]), 3 if c.rng.gen_range(0, 4) == 0 => long_len(&mut c.rng), _ => c.rng.gen_range(0, 70) };
        let alpha = bytes(&mut c.rng, al);
        c.about(&format!("prove seed={} alpha={}", hex(&seed), hex(&alpha)));
        let d = || json!({"seed": hex(&seed), "alpha": hex(&alpha)});
        let kp = match c.no_panic("prove", d, || {
            let kp = VrfKeypair::from_seed(seed);
            let pi = kp.prove_bytes(&alpha);
            (kp.public().verif_bytes(), pi.map(|p| p.verif_bytes()))
        }) {
            Some(x) => x,
            None => continue,
        };
        let (pk, pi) = kp;
        c.check(pk == e.public(&seed), "public key", d);
        let want = e.prove(&seed, &alpha);
        let pi = match pi {
            Ok(p) => p,
            Err(_) => {
                c.violation("prove fails", d());
                continue;
            }
        };
        c.check(pi == want, "proof", || json!({"input": d(), "got": hex(&pi), "want": hex(&want)}));
        c.sample(json!({"seed": hex(&seed), "alpha": hex(&alpha), "proof": hex(&pi)}));
        judge(c, &e, &mut seen, "honest", &pk, &want, &alpha, Some(true));
        // hashable messages are proved over their hash
        if i % 8 == 0 {
            let k = c.rng.gen_range(0, 6u64);
            let tx = gen::tx_kind(&mut c.rng, k as usize);
            let (pre, body) = tx.to_be_hashed();
            let h = refm::h256(&[pre.as_bytes(), &body]);
            let r = c.no_panic("prove hashable", d, || {
                let kp = VrfKeypair::from_seed(seed);
                let p = kp.prove(&tx).ok()?;
                let o = kp.public().verify(&p, &tx).ok()?;
                Some((p.verif_bytes(), o.0.to_vec()))
            });
            if let Some(r) = r {
                let w = e.prove(&seed, &h);
                let wo = e.verify(&pk, &w, &h).unwrap();
                c.check(r == Some((w, wo)), "hashable message", d);
                c.count("hashable messages", 1);
            }
        }
        // edits
        let mut m = pi;
        let at = c.rng.gen_range(0, 80);
        m[at] ^= 1 << c.rng.gen_range(0, 8);
        judge(c, &e, &mut seen, "edited proof", &pk, &m, &alpha, None);
        let mut a2 = alpha.clone();
        if a2.is_empty() { a2.push(0) } else { let k = c.rng.gen_range(0, a2.len()); a2[k] ^= 1 << c.rng.gen_range(0, 8); }
        judge(c, &e, &mut seen, "other message", &pk, &pi, &a2, Some(false));
        let mut p2 = pk;
        if c.rng.gen() {
            p2[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
        } else {
            p2 = arr32_biased(&mut c.rng);
        }
        judge(c, &e, &mut seen, "other key", &p2, &pi, &alpha, None);
        match i % 7 {
            0 => {
                // s shifted by the group order: same residue, not canonical
                let s = BigUint::from_bytes_le(&pi[48..]) + &e.q;
                let mut m = pi;
                m[48..].copy_from_slice(&le32(&s));
                judge(c, &e, &mut seen, "unreduced scalar", &pk, &m, &alpha, Some(false));
            }
            1 | 2 => {
                // dishonest prover: gamma off by a point of small order; accepted only if c = 0 mod 8
                let x = e.secret_scalar(&seed);
                let h = e.hash_to_curve(&pk, &alpha);
                let t = pick(&mut c.rng, &tors[1..]).clone();
                let g = e.add(&e.mul(&x, &h), &t);
                let stop = c.rng.gen_range(0, 4);
                let mut hit = false;
                for tr in 0..60 {
                    let k = scalar(c, &e);
                    let p = e.prove_with(&x, &h, &g, &k);
                    let good = p[32] & 7 == 0;
                    if good || (stop == 0 && tr == 0) {
                        judge(c, &e, &mut seen, "gamma plus torsion", &pk, &p, &alpha, if good { Some(true) } else { None });
                    }
                    if good {
                        hit = true;
                        break;
                    }
                }
                if hit { c.count("accepted proofs with a torsion component", 1); }
            }
            3 => {
                // a second honest proof with a different nonce
                let x = e.secret_scalar(&seed);
                let h = e.hash_to_curve(&pk, &alpha);
                let k = scalar(c, &e);
                let p = e.prove_with(&x, &h, &e.mul(&x, &h), &k);
                judge(c, &e, &mut seen, "other nonce", &pk, &p, &alpha, Some(true));
                // an arbitrary gamma with a correct-looking transcript
                let g = e.mul(&scalar(c, &e), &e.base());
                let p = e.prove_with(&x, &h, &g, &k);
                judge(c, &e, &mut seen, "unrelated gamma", &pk, &p, &alpha, Some(false));
            }
            4 => {
                // key with a torsion component
                let x = e.secret_scalar(&seed);
                let t = pick(&mut c.rng, &tors[1..]).clone();
                let y = e.compress(&e.add(&e.mul(&x, &e.base()), &t));
                let h = e.hash_to_curve(&y, &alpha);
                let g = e.mul(&x, &h);
                for _ in 0..40 {
                    let k = scalar(c, &e);
                    let p = e.prove_with(&x, &h, &g, &k);
                    if p[32] & 7 == 0 {
                        judge(c, &e, &mut seen, "key plus torsion", &y, &p, &alpha, Some(true));
                        break;
                    }
                }
            }
            5 => {
                // key of small order: everyone could "prove" for it
                let j = c.rng.gen_range(0, tors.len());
                let mut y = e.compress(&tors[j]);
                if c.rng.gen_range(0, 3) == 0 {
                    // a non-canonical spelling, when there is one
                    let small = y[1..31].iter().all(|b| *b == 0) && y[31] & 0x7f == 0 && y[0] < 19;
                    if small {
                        let v = BigUint::from(y[0]) + &e.p;
                        let s = y[31] & 0x80;
                        y = le32(&v);
                        y[31] |= s;
                    }
                }
                let h = e.hash_to_curve(&y, &alpha);
                let zero = BigUint::from(0u32);
                for tr in 0..40 {
                    let k = scalar(c, &e);
                    let g = tors[c.rng.gen_range(0, 8)].clone();
                    let p = e.prove_with(&zero, &h, &g, &k);
                    if p[32] & 7 == 0 || tr == 39 {
                        judge(c, &e, &mut seen, "small-order key", &y, &p, &alpha, Some(false));
                        break;
                    }
                }
            }
            _ => {
                let g: [u8; 80] = bytes(&mut c.rng, 80).as_slice().try_into().unwrap();
                judge(c, &e, &mut seen, "random proof", &pk, &g, &alpha, None);
                let mut m = pi;
                m[..32].copy_from_slice(&e.compress(pick(&mut c.rng, &tors)));
                judge(c, &e, &mut seen, "small-order gamma", &pk, &m, &alpha, None);
            }
        }
    }
    c.require("verify honest", 100);
    c.require("accepted proofs with a torsion component", 10);
    c.require("verify small-order key", 10);
    c.require("verify key plus torsion", 10);
    c.require("hashable messages", 10);
}
