//! C09/C10 multisignatures, C11 batch verification, C12/C13 one-time signatures.
use super::gen;
use crate::core::*;
use crate::refm;
use algorsand::crypto::batch_verifier::BatchVerifier;
use algorsand::crypto::*;
use algorsand::data::account::Participation;
use algorsand::data::basics::{Address, Round};
use ed25519_dalek::{PublicKey, Signer, Verifier};
use rand::Rng;
use serde_json::json;
use std::collections::HashSet;

fn ref_msig_addr(version: u8, threshold: u8, pks: &[PublicKey]) -> Option<[u8; 32]> {
    if version != 1 || threshold == 0 || pks.is_empty() || threshold as usize > pks.len() {
        return None;
    }
    let mut b = b"MultisigAddr".to_vec();
    b.push(version);
    b.push(threshold);
    for p in pks {
        b.extend_from_slice(p.as_bytes());
    }
    Some(refm::h256(&[&b]))
}

/// Independent decision: would this multisignature authorise `msg` for `addr`?
fn ref_accepts(m: &MultisigSignature, msg: &[u8], addr: &[u8; 32]) -> bool {
    let pks: Vec<PublicKey> = m.subsigs.iter().map(|s| s.key).collect();
    if ref_msig_addr(m.version, m.threshold, &pks) != Some(*addr) || pks.len() > 255 {
        return false;
    }
    let present: Vec<&MultisigSubsig> = m.subsigs.iter().filter(|s| s.sig.is_some()).collect();
    present.len() >= m.threshold as usize
        && present.iter().all(|s| s.key.verify(msg, s.sig.as_ref().unwrap()).is_ok())
}

struct Party {
    kps: Vec<Keypair>,
    pks: Vec<PublicKey>,
    threshold: u8,
    msg: Vec<u8>,
    addr: MultisigAddr,
}

fn party(c: &mut Ctx) -> Option<Party> {
    let n = match c.rng.gen_range(0, 20) {
        0 => 1,
        1 => c.rng.gen_range(10, 40),
        2 if c.rng.gen_range(0, 30) == 0 => *pick(&mut c.rng, &[63usize, 64, 65, 127, 128, 129, 254, 255]),
        _ => c.rng.gen_range(1, 7),
    };
    let mut kps: Vec<Keypair> = (0..n).map(|_| gen::keypair(&mut c.rng)).collect();
    if n > 1 && c.rng.gen_range(0, 8) == 0 {
        // the same key listed twice
        let (i, j) = (c.rng.gen_range(0, n), c.rng.gen_range(0, n));
        kps[i] = Keypair::from_bytes(&kps[j].to_bytes()).unwrap();
    }
    let pks: Vec<PublicKey> = kps.iter().map(|k| k.public).collect();
    let threshold = c.rng.gen_range(1, n as u32 + 1) as u8;
    let ml = if c.rng.gen_range(0, 20) == 0 { *pick(&mut c.rng, &[63usize, 64, 111, 112, 127, 128, 129, 1000, 5000]) } else if c.rng.gen_range(0, 60) == 0 { c.count("long messages", 1); long_len(&mut c.rng) } else { c.rng.gen_range(0, 60) };
    let msg = bytes(&mut c.rng, ml);
    let want = ref_msig_addr(1, threshold, &pks);
    let got = c.no_panic("multisig-address", || json!(n), || MultisigAddr::verif_from_pks(1, threshold, &pks))?;
    match got {
        Ok(a) => {
            c.check(Some(a.verif_bytes()) == want, "address-value", || json!({"n": n, "threshold": threshold, "got": hex(&a.verif_bytes())}));
            Some(Party { kps, pks, threshold, msg, addr: a })
        }
        Err(e) => {
            c.violation("address-refused", json!({"n": n, "threshold": threshold, "err": e.to_string()}));
            None
        }
    }
}

/// A multisignature in which exactly the keys in `who` have signed.
fn signed_by(p: &Party, who: &[usize]) -> MultisigSignature {
    MultisigSignature {
        version: 1,
        threshold: p.threshold,
        subsigs: p
            .pks
            .iter()
            .map(|pk| MultisigSubsig {
                key: *pk,
                sig: who.iter().find(|i| p.kps[**i].public == *pk).map(|i| p.kps[*i].sign(&p.msg)),
            })
            .collect(),
    }
}

fn subset(c: &mut Ctx, n: usize, k: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.rng.gen_range(0, i + 1);
        v.swap(i, j);
    }
    v.truncate(k);
    v
}

fn desc(m: &MultisigSignature) -> serde_json::Value {
    json!({"version": m.version, "threshold": m.threshold, "keys": m.subsigs.len(),
        "signed": m.subsigs.iter().enumerate().filter(|(_, s)| s.sig.is_some()).map(|(i, _)| i).collect::<Vec<_>>()})
}

fn judge(c: &mut Ctx, m: &MultisigSignature, msg: &[u8], addr: &MultisigAddr, kind: &str) -> bool {
    let want = ref_accepts(m, msg, &addr.verif_bytes());
    let got = match c.no_panic(&format!("verify-{}", kind), || desc(m), || m.verify(msg, addr)) {
        Some(g) => g,
        None => return false,
    };
    let acc = matches!(got, Ok(true));
    // the all-default first slot marks "no multisignature present"
    let blank = m.subsigs.first().map_or(true, |s| s.key == PublicKey::default() && s.sig.is_none());
    if acc && !want {
        c.violation(&format!("accepted-{}", kind), desc(m));
    }
    if !acc && want && !blank {
        c.violation(&format!("rejected-{}", kind), json!({"m": desc(m), "got": format!("{:?}", got)}));
    }
    c.count(if acc { "accepted" } else { "rejected" }, 1);
    c.state("verify kinds", kind.as_bytes());
    let mut key = kind.as_bytes().to_vec();
    for s in &m.subsigs {
        key.extend_from_slice(s.key.as_bytes());
        key.push(s.sig.is_some() as u8);
    }
    key.extend_from_slice(msg);
    c.case(&key, true);
    // the batch interface agrees when its batch verifies
    let mut bv = BatchVerifier::default();
    let r = c.no_panic("batch-verify", || desc(m), || m.verif_batch_verify(msg, addr, &mut bv));
    if let Some(r) = r {
        let accb = matches!(r, Ok(true)) && bv.num_sigs_enqued() > 0 && bv.verify().is_ok();
        c.check(accb == acc, "batch-interface-differs", || json!({"m": desc(m), "kind": kind, "verify": acc, "batch": accb}));
    }
    acc
}

pub fn c09(c: &mut Ctx) {
    c.rule = "a multisignature group (1-255 keys, duplicate keys included) signed by a chosen subset and then altered in one of the listed ways; each (keys, signers, message, alteration) counts once".into();
    let n = c.n(6_000, 120_000);
    for i in 0..n {
        if !c.in_time(45, 500) {
            break;
        }
        c.about("multisig");
        let p = match party(c) {
            Some(p) => p,
            None => continue,
        };
        let t = p.threshold as usize;
        let nk = p.pks.len();
        // exactly t, t-1 and random numbers of signers
        for k in [t, t.saturating_sub(1), c.rng.gen_range(0, nk + 1)].iter() {
            let who = subset(c, nk, *k);
            let m = signed_by(&p, &who);
            let acc = judge(c, &m, &p.msg, &p.addr, "subset");
            if i < 1 {
                c.sample(json!({"m": desc(&m), "accepted": acc}));
            }
        }
        // the code's own signing path agrees with a plain signature in the right slot
        let w = c.rng.gen_range(0, nk);
        let s = c.no_panic("sign", || json!(nk), || p.addr.verif_sign(&p.msg, 1, p.threshold, &p.pks, &p.kps[w]));
        if let Some(s) = s {
            let listed = p.pks.contains(&p.kps[w].public);
            match s {
                Ok(m) => {
                    c.check(listed, "signed-for-unlisted-key", || desc(&m));
                    c.check(m == signed_by(&p, &[w]), "sign-value", || desc(&m));
                }
                Err(e) => {
                    c.check(!listed, "sign-refused", || json!(e.to_string()));
                }
            }
        }
        let stranger = gen::keypair(&mut c.rng);
        let r = c.no_panic("sign-stranger", || json!(nk), || p.addr.verif_sign(&p.msg, 1, p.threshold, &p.pks, &stranger).is_ok());
        c.check(r != Some(true), "signed-for-stranger", || json!(nk));
        // signing for a different configuration of the same address is refused
        let t2 = if nk > 1 { p.threshold % nk as u8 + 1 } else { 2 };
        let r = c.no_panic("sign-other-threshold", || json!(nk), || {
            if t2 == p.threshold { false } else { p.addr.verif_sign(&p.msg, 1, t2, &p.pks, &p.kps[w]).is_ok() }
        });
        c.check(r != Some(true), "signed-with-other-threshold", || json!({"n": nk, "t": p.threshold, "t2": t2}));

        // an address (and so a signature) only for configurations that can be met
        for _ in 0..4 {
            let v = *pick(&mut c.rng, &[1u8, 1, 1, 0, 2, 255]);
            let th = match c.rng.gen_range(0, 5) { 0 => 0, 1 => 255, 2 => (nk + 1).min(255) as u8, 3 => nk.min(255) as u8, _ => c.rng.gen() };
            let upto = if c.rng.gen_range(0, 10) == 0 { 0 } else { nk };
            let want = ref_msig_addr(v, th, &p.pks[..upto]);
            let d = || json!({"version": v, "threshold": th, "keys": upto});
            c.count(if want.is_some() { "addresses of possible configurations" } else { "impossible configurations" }, 1);
            if let Some(r) = c.no_panic("multisig-address", d, || MultisigAddr::verif_from_pks(v, th, &p.pks[..upto])) {
                c.check(r.as_ref().ok().map(|a| a.verif_bytes()) == want, "address-of-configuration", d);
            }
            if want.is_none() {
                let r = c.no_panic("sign-impossible", d, || p.addr.verif_sign(&p.msg, v, th, &p.pks[..upto], &p.kps[w]).is_ok());
                c.check(r != Some(true), "signed-for-impossible-configuration", d);
            }
        }

        // alterations of a fully authorised multisignature
        let extra = c.rng.gen_range(0, nk - t + 1);
        let who = subset(c, nk, t + extra);
        let base = signed_by(&p, &who);
        let signed: Vec<usize> = (0..nk).filter(|i| base.subsigs[*i].sig.is_some()).collect();
        for _ in 0..6 {
            let mut m = base.clone();
            let mut msg = p.msg.clone();
            let mut addr = MultisigAddr::verif_from_bytes(p.addr.verif_bytes());
            let kind = match c.rng.gen_range(0, 17) {
                0 => {
                    let i = *pick(&mut c.rng, &signed);
                    let mut b = m.subsigs[i].sig.unwrap().to_bytes();
                    let bit = c.rng.gen_range(0, 8 * 64 - 3);
                    b[bit / 8] ^= 1 << (bit % 8);
                    if b[63] & 0xe0 == 0 {
                        m.subsigs[i].sig = Some(Signature::new(b));
                    }
                    "flip-signature-bit"
                }
                1 => {
                    if msg.is_empty() {
                        msg.push(0)
                    } else {
                        // its last byte, or any other
                        let i = if c.rng.gen() { msg.len() - 1 } else { c.rng.gen_range(0, msg.len()) };
                        msg[i] ^= 1 << c.rng.gen_range(0, 8);
                    }
                    "other-message"
                }
                2 => {
                    msg.push(0);
                    "longer-message"
                }
                3 => {
                    let i = c.rng.gen_range(0, nk);
                    m.subsigs[i].key = gen::keypair(&mut c.rng).public;
                    "replace-key"
                }
                4 => {
                    let i = c.rng.gen_range(0, nk);
                    if c.rng.gen() {
                        // nobody's key, which has not signed
                        m.subsigs[i] = MultisigSubsig::default();
                    } else {
                        m.subsigs[i].key = gen::keypair(&mut c.rng).public;
                    }
                    let pks: Vec<PublicKey> = m.subsigs.iter().map(|s| s.key).collect();
                    addr = MultisigAddr::verif_from_bytes(ref_msig_addr(1, p.threshold, &pks).unwrap());
                    "replace-key-and-address"
                }
                5 => {
                    m.threshold = c.rng.gen_range(0, t as u32 + 1) as u8;
                    "lower-threshold"
                }
                6 => {
                    // sometimes with the address these parameters would have if they were supported
                    let own = c.rng.gen::<bool>();
                    let kind = if own && c.rng.gen_range(0, 3) == 0 {
                        m.threshold = if c.rng.gen() { 0 } else { (nk + c.rng.gen_range(1, 4)).min(255) as u8 };
                        "own-address-of-impossible-threshold"
                    } else {
                        m.version = *pick(&mut c.rng, &[0, 2, 255]);
                        if own { "own-address-of-other-version" } else { "other-version" }
                    };
                    if own {
                        let mut b = [b"MultisigAddr" as &[u8], &[m.version, m.threshold]].concat();
                        m.subsigs.iter().for_each(|s| b.extend_from_slice(s.key.as_bytes()));
                        addr = MultisigAddr::verif_from_bytes(refm::h256(&[&b]));
                    }
                    kind
                }
                7 => {
                    let k = c.rng.gen_range(0, nk);
                    m.subsigs.remove(k);
                    "drop-key"
                }
                8 => {
                    let kp = gen::keypair(&mut c.rng);
                    let sig = kp.sign(&p.msg);
                    let s = MultisigSubsig { key: kp.public, sig: Some(sig) };
                    let at = c.rng.gen_range(0, m.subsigs.len() + 1);
                    m.subsigs.insert(at, s);
                    "insert-foreign-signer"
                }
                9 if nk > 1 => {
                    let i = c.rng.gen_range(0, nk - 1);
                    m.subsigs.swap(i, i + 1);
                    "reorder-keys"
                }
                10 => {
                    let a = c.rng.gen_range(0, 32);
                    let mut b = addr.verif_bytes();
                    b[a] ^= 1 << c.rng.gen_range(0, 8);
                    addr = MultisigAddr::verif_from_bytes(b);
                    "other-address"
                }
                11 if nk > 1 => {
                    // a valid signature put in another key's slot
                    let s = *pick(&mut c.rng, &signed);
                    let d = c.rng.gen_range(0, nk);
                    m.subsigs[d].sig = m.subsigs[s].sig;
                    "signature-in-other-slot"
                }
                12 => {
                    // threshold met only by counting an invalid signature
                    for i in 0..nk {
                        if signed.len() >= t && i == signed[0] {
                            m.subsigs[i].sig = Some(gen::keypair(&mut c.rng).sign(&p.msg));
                        }
                    }
                    "foreign-signature-counted"
                }
                13 => {
                    // fill every blank slot with junk
                    for s in m.subsigs.iter_mut() {
                        if s.sig.is_none() {
                            s.sig = Some(Signature::new([0; 64]));
                        }
                    }
                    "junk-in-blank-slots"
                }
                14 => {
                    m.subsigs.clear();
                    "no-slots"
                }
                15 => {
                    // strip signatures below the threshold
                    let keep = c.rng.gen_range(0, t);
                    let mut left = keep;
                    for s in m.subsigs.iter_mut() {
                        if s.sig.is_some() {
                            if left == 0 {
                                s.sig = None;
                            } else {
                                left -= 1;
                            }
                        }
                    }
                    "too-few"
                }
                _ => "unaltered",
            };
            judge(c, &m, &msg, &addr, kind);
        }
        // too many keys
        if c.rng.gen_range(0, 2000) == 0 || i == 0 {
            let kp = gen::keypair(&mut c.rng);
            let nk = *pick(&mut c.rng, &[256usize, 257, 300, 512]);
            let t = *pick(&mut c.rng, &[1u8, 2, 255]);
            let sig = kp.sign(b"m");
            let m = MultisigSignature {
                version: 1,
                threshold: t,
                subsigs: (0..nk).map(|_| MultisigSubsig { key: kp.public, sig: Some(sig) }).collect(),
            };
            let addr = MultisigAddr::verif_from_bytes(ref_msig_addr(1, t, &vec![kp.public; nk]).unwrap());
            judge(c, &m, b"m", &addr, "too-many-keys");
        }
    }
    c.require("accepted", 1000);
    c.require("rejected", 1000);
    c.require("distinct verify kinds", 14);
    c.require("impossible configurations", 1000);
}

pub fn c10(c: &mut Ctx) {
    c.rule = "a group of partial multisignatures over the same keys (disjoint, overlapping, conflicting or incompatible) combined by assembling, adding and merging in different orders; each signer pattern over a key set counts once".into();
    let n = c.n(8_000, 150_000);
    for i in 0..n {
        if !c.in_time(45, 500) {
            break;
        }
        c.about("multisig-combine");
        let p = match party(c) {
            Some(p) => p,
            None => continue,
        };
        let nk = p.pks.len();
        if nk > 60 && i > 2 {
            continue;
        }
        let k = if c.rng.gen_range(0, 40) == 0 && nk < 12 { c.rng.gen_range(6, 24) } else { c.rng.gen_range(2, 6) };
        let mut parts: Vec<MultisigSignature> = (0..k)
            .map(|_| {
                let cnt = c.rng.gen_range(0, nk.min(4) + 1);
                let who = subset(c, nk, cnt);
                signed_by(&p, &who)
            })
            .collect();
        let union: HashSet<usize> =
            (0..nk).filter(|i| parts.iter().any(|m| m.subsigs[*i].sig.is_some())).collect();
        let mut key = vec![];
        for m in &parts {
            for s in &m.subsigs {
                key.push(s.sig.is_some() as u8);
            }
            key.push(9);
        }
        key.extend_from_slice(p.pks[0].as_bytes());
        c.case(&key, !union.is_empty());
        if i == 0 {
            c.sample(json!(parts.iter().map(desc).collect::<Vec<_>>()));
        }
        let want = MultisigSignature {
            version: 1,
            threshold: p.threshold,
            subsigs: (0..nk)
                .map(|i| MultisigSubsig { key: p.pks[i], sig: parts.iter().filter_map(|m| m.subsigs[i].sig).next() })
                .collect(),
        };
        // assemble, in two orders
        for rev in [false, true].iter() {
            if *rev {
                parts.reverse();
            }
            let r = c.no_panic("assemble", || json!(nk), || MultisigSignature::verif_assemble(&parts));
            match r {
                Some(Ok(m)) => {
                    c.count("assembled", 1);
                    c.check(m == want, "assemble-union", || json!({"got": desc(&m), "want": desc(&want)}));
                    let acc = matches!(m.verify(&p.msg, &p.addr), Ok(true));
                    c.check(
                        acc == (union.len() >= p.threshold as usize),
                        "assembled-verifies-iff-enough-signers",
                        || json!({"m": desc(&m), "accepted": acc}),
                    );
                }
                Some(Err(e)) => c.violation("assemble-refused", json!(e.to_string())),
                None => {}
            }
        }
        // add to an existing one
        let mut acc = parts[0].clone();
        let r = c.no_panic("add", || json!(nk), || {
            let r = acc.verif_add_sigs(parts[1..].to_vec());
            (r, acc.clone())
        });
        if let Some((r, m)) = r {
            c.check(r.is_ok() && m == want, "add-union", || json!({"got": desc(&m), "want": desc(&want), "r": format!("{:?}", r)}));
        }
        // merge pairwise, both ways, and fold
        let (a, b) = (&parts[0], &parts[1]);
        let ab = c.no_panic("merge", || json!(nk), || a.verif_merge(b));
        let ba = c.no_panic("merge", || json!(nk), || b.verif_merge(a));
        if let (Some(ab), Some(ba)) = (ab, ba) {
            c.count("merged", 1);
            c.check(ab == ba, "merge-commutes", || json!({"a": desc(a), "b": desc(b)}));
            if let Ok(m) = &ab {
                for i in 0..nk {
                    let w = a.subsigs[i].sig.or(b.subsigs[i].sig);
                    c.check(m.subsigs[i].sig == w && m.subsigs[i].key == p.pks[i], "merge-union", || json!({"a": desc(a), "b": desc(b), "slot": i}));
                }
                c.check(m.threshold == p.threshold && m.version == 1, "merge-parameters", || desc(m));
            } else {
                c.violation("merge-refused", json!({"a": desc(a), "b": desc(b)}));
            }
        }
        let folded = parts[1..].iter().try_fold(parts[0].clone(), |m, x| m.verif_merge(x));
        c.check(folded.as_ref().ok() == Some(&want), "merge-fold", || json!(parts.iter().map(desc).collect::<Vec<_>>()));

        // a conflicting signature for one signed slot
        if !union.is_empty() {
            let signed: Vec<usize> = union.iter().copied().collect();
            let s = *pick(&mut c.rng, &signed);
            let holder = parts.iter().position(|m| m.subsigs[s].sig.is_some()).unwrap();
            let mut bad = parts[holder].clone();
            let mut b = bad.subsigs[s].sig.unwrap().to_bytes();
            b[c.rng.gen_range(0, 60)] ^= 1;
            bad.subsigs[s].sig = Some(Signature::new(b));
            let r = c.no_panic("merge-conflict", || json!(nk), || parts[holder].verif_merge(&bad).is_ok());
            c.check(r != Some(true), "merge-hides-conflict", || json!({"slot": s}));
            let mut tgt = parts[holder].clone();
            let r = c.no_panic("add-conflict", || json!(nk), || {
                let r = tgt.verif_add_sigs(vec![bad.clone()]);
                (r.is_ok(), tgt.clone())
            });
            if let Some((ok, after)) = r {
                c.check(!ok, "add-hides-conflict", || json!({"slot": s}));
                c.check(after == parts[holder], "failed-add-alters", || json!({"slot": s, "before": desc(&parts[holder]), "after": desc(&after)}));
            }
            // the conflict anywhere among the others
            let mut list = parts.clone();
            list.insert(c.rng.gen_range(0, list.len() + 1), bad.clone());
            let r = c.no_panic("assemble-conflict", || json!(nk), || MultisigSignature::verif_assemble(&list).is_ok());
            c.check(r != Some(true), "assemble-hides-conflict", || json!({"slot": s}));
            let mut tgt = list.remove(0);
            let before = tgt.clone();
            let r = c.no_panic("add-conflict", || json!(nk), || {
                let r = tgt.verif_add_sigs(list);
                (r.is_ok(), tgt.clone())
            });
            if let Some((ok, after)) = r {
                c.check(!ok, "add-hides-conflict", || json!({"slot": s}));
                c.check(after == before, "failed-add-alters", || json!({"slot": s, "before": desc(&before), "after": desc(&after)}));
            }
            c.count("conflicts", 1);
        }
        // incompatible partners are refused, wherever they stand in the list
        let mut odd = parts[c.rng.gen_range(0, k)].clone();
        let kind = match c.rng.gen_range(0, 6) {
            0 => {
                odd.threshold = odd.threshold.wrapping_add(1);
                "threshold"
            }
            1 => {
                odd.version = 2;
                "version"
            }
            2 => {
                let i = c.rng.gen_range(0, nk);
                odd.subsigs[i].key = gen::keypair(&mut c.rng).public;
                "key"
            }
            3 => {
                let l = odd.subsigs.len();
                odd.subsigs[l - 1].key = gen::keypair(&mut c.rng).public;
                "last-key"
            }
            4 => {
                odd.subsigs.pop();
                "shorter"
            }
            _ => {
                let s = odd.subsigs[nk - 1].clone();
                odd.subsigs.push(s);
                "longer"
            }
        };
        c.state("incompatibility kinds", kind.as_bytes());
        let at = c.rng.gen_range(0, k + 1);
        let mut with_odd = parts.clone();
        with_odd.insert(at, odd.clone());
        let r = c.no_panic("assemble-incompatible", || json!(kind), || MultisigSignature::verif_assemble(&with_odd).is_ok());
        c.check(r != Some(true), "assemble-incompatible-accepted", || json!({"kind": kind, "at": at}));
        let r = c.no_panic("merge-incompatible", || json!(kind), || (parts[0].verif_merge(&odd).is_ok(), odd.verif_merge(&parts[0]).is_ok()));
        c.check(r.map_or(true, |(a, b)| !a && !b), "merge-incompatible-accepted", || json!({"kind": kind}));
        let mut tgt = parts[0].clone();
        let mut list = parts[1..].to_vec();
        list.insert(c.rng.gen_range(0, list.len() + 1), odd.clone());
        let r = c.no_panic("add-incompatible", || json!(kind), || {
            let r = tgt.verif_add_sigs(list);
            (r.is_ok(), tgt.clone())
        });
        if let Some((ok, after)) = r {
            c.check(!ok, "add-incompatible-accepted", || json!({"kind": kind}));
            c.check(after == parts[0], "failed-add-alters", || json!({"kind": kind, "before": desc(&parts[0]), "after": desc(&after)}));
        }
        c.count("incompatible combinations", 1);
        let one = c.no_panic("assemble-one", || json!(nk), || {
            (MultisigSignature::verif_assemble(&parts[..1]).is_ok(), MultisigSignature::verif_assemble(&[]).is_ok(), parts[0].clone().verif_add_sigs(vec![]).is_ok())
        });
        c.check(one == Some((false, false, false)), "assemble-too-few", || json!(format!("{:?}", one)));
    }
    c.require("assembled", 1000);
    c.require("conflicts", 500);
    c.require("distinct incompatibility kinds", 6);
}

pub fn c11(c: &mut Ctx) {
    c.rule = "a batch of 0-300 signatures in which a chosen set is invalid (wrong key, wrong message, flipped bit, swapped neighbours); each (size, invalid positions, kind) counts once".into();
    let kps: Vec<Keypair> = (0..40).map(|_| gen::keypair(&mut c.rng)).collect();
    // batches larger than any splitting of the work
    for size in [*pick(&mut c.rng, &[511usize, 513, 1023, 1025]), *pick(&mut c.rng, &[2049usize, 4095, 4097, 5000])] {
        c.about("large batch");
        let m = bytes(&mut c.rng, 9);
        let ks: Vec<&Keypair> = (0..7).map(|_| pick(&mut c.rng, &kps)).collect();
        let sigs: Vec<(PublicKey, Signature)> = ks.iter().map(|k| (k.public, k.sign(&m))).collect();
        let bad = kps.iter().find(|k| k.public != sigs[0].0).map(|k| (sigs[0].0, k.sign(&m))).unwrap();
        for at in [None, Some(size - 1), Some(c.rng.gen_range(0, size)), Some(size / 2)] {
            let got = c.no_panic("batch", || json!({"size": size, "bad": at}), || {
                let mut bv = BatchVerifier::default();
                for i in 0..size {
                    let (k, s) = if at == Some(i) { bad } else { sigs[i % 7] };
                    bv.enque_sig(k, &m, s);
                }
                (bv.num_sigs_enqued(), bv.verify().is_ok())
            });
            if let Some(g) = got {
                c.check(g == (size, at.is_none()), "large batch", || json!({"size": size, "bad": at, "got": [g.0 as u64, g.1 as u64]}));
                c.count("large batches", 1);
            }
        }
    }
    let n = c.n(6_000, 100_000);
    for i in 0..n {
        if !c.in_time(45, 500) {
            break;
        }
        c.about("batch");
        let size = match c.rng.gen_range(0, 40) {
            0 => 0,
            1 => 1,
            2 => c.rng.gen_range(100, 300),
            3 => c.rng.gen_range(15, 19),
            4 => c.rng.gen_range(60, 68),
            _ if i % 1500 == 250 => *pick(&mut c.rng, &[513usize, 1023, 1024, 1025, 2049, 4097]),
            _ => c.rng.gen_range(2, 24),
        };
        if size > 500 { c.count("batches of more than 500", 1) }
        // few keys and few messages, so that entries repeat
        let few = c.rng.gen_range(0, 3);
        let texts: Vec<Vec<u8>> = (0..3).map(|i| bytes(&mut c.rng, 4 * i)).collect();
        let mut items: Vec<(PublicKey, Vec<u8>, Signature)> = (0..size)
            .map(|_| {
                let k = if few == 0 { pick(&mut c.rng, &kps) } else { pick(&mut c.rng, &kps[..few]) };
                let l = if c.rng.gen_range(0, 50) == 0 { *pick(&mut c.rng, &[31usize, 32, 33, 63, 64, 111, 112, 127, 128, 4000]) } else { c.rng.gen_range(0, 20) };
                let m = if c.rng.gen_range(0, 3) == 0 { bytes(&mut c.rng, l) } else { pick(&mut c.rng, &texts).clone() };
                let s = k.sign(&m);
                (k.public, m, s)
            })
            .collect();
        if size > 0 && i % 64 == 0 {
            let p = c.rng.gen_range(0, size);
            let l = long_len(&mut c.rng);
            items[p].1 = bytes(&mut c.rng, l);
            let k = pick(&mut c.rng, &kps);
            items[p].0 = k.public;
            items[p].2 = k.sign(&items[p].1);
            if i % 192 != 0 {
                // differing only beyond where a length of 16 bits ends
                let at = if i % 192 == 64 { l - 1 } else { c.rng.gen_range(l / 2, l) };
                items[p].1[at] ^= 1;
            }
            c.count("batches with a long message", 1);
        }
        let mut kinds = Vec::new();
        let nbad = if i % 64 == 0 { 0 } else { *pick(&mut c.rng, &[0, 0, 1, 1, 1, 2, 3]) };
        for _ in 0..nbad.min(size) {
            let p = match c.rng.gen_range(0, 4) {
                0 => 0,
                1 => size - 1,
                _ => c.rng.gen_range(0, size),
            };
            match c.rng.gen_range(0, 6) {
                0 => {
                    items[p].0 = pick(&mut c.rng, &kps).public;
                    kinds.push((p, "key"))
                }
                3 => {
                    // the entry again with another entry's signature, next to it or elsewhere
                    let q = c.rng.gen_range(0, size);
                    let (k, m, s) = (items[p].0, items[p].1.clone(), items[q].2);
                    let at = if c.rng.gen() { (p + 1).min(size - 1) } else { c.rng.gen_range(0, size) };
                    items[at] = (k, m, s);
                    kinds.push((at, "repeated"))
                }
                4 => {
                    // an earlier entry's signature and message under a key it was not made with
                    let q = c.rng.gen_range(0, size);
                    let (m, s) = (items[q].1.clone(), items[q].2);
                    items[p] = (pick(&mut c.rng, &kps[..3]).public, m, s);
                    kinds.push((p, "signature of another key"))
                }
                1 => {
                    items[p].1.push(1);
                    kinds.push((p, "message"))
                }
                2 => {
                    let mut b = items[p].2.to_bytes();
                    b[c.rng.gen_range(0, 60)] ^= 1 << c.rng.gen_range(0, 8);
                    items[p].2 = Signature::new(b);
                    kinds.push((p, "bit"))
                }
                _ => {
                    // two signatures exchanged: each of them valid, but for the other entry
                    let q = c.rng.gen_range(0, size);
                    let t = items[p].2;
                    items[p].2 = items[q].2;
                    items[q].2 = t;
                    kinds.push((p, "exchanged"))
                }
            }
        }
        let want = size > 0 && items.iter().all(|(k, m, s)| k.verify(m, s).is_ok());
        let cap = *pick(&mut c.rng, &[0usize, 1, 16, 17, 500]);
        let dflt = c.rng.gen();
        let got = c.no_panic("batch", || json!(size), || {
            let mut bv = if dflt { BatchVerifier::default() } else { BatchVerifier::with_capacity(cap) };
            for (k, m, s) in &items {
                bv.enque_sig(*k, m, *s);
            }
            let a = bv.verify().is_ok();
            (a, bv.verify().is_ok(), bv.num_sigs_enqued())
        });
        if let Some((a, b, cnt)) = got {
            c.check(cnt == size, "count", || json!({"size": size, "count": cnt}));
            c.check(a == b, "verify-not-repeatable", || json!(size));
            c.check(a == want, if want { "valid-batch-refused" } else { "invalid-batch-accepted" }, || json!({"size": size, "bad": format!("{:?}", kinds)}));
            c.count(if a { "accepted batches" } else { "refused batches" }, 1);
        }
        c.case(format!("{} {:?} {}", size, kinds, i).as_bytes(), size > 0);
        if i < 2 {
            c.sample(json!({"size": size, "altered": format!("{:?}", kinds), "valid": want}));
        }
        // growing a batch after it was verified
        if want && i % 8 == 0 {
            let r = c.no_panic("batch-grow", || json!(size), || {
                let mut bv = BatchVerifier::with_capacity(cap);
                for (k, m, s) in &items {
                    bv.enque_sig(*k, m, *s);
                }
                let a = bv.verify().is_ok();
                bv.enque_sig(kps[0].public, b"x", kps[1].sign(b"x"));
                (a, bv.verify().is_ok())
            });
            c.check(r == Some((true, false)), "grown-batch", || json!(format!("{:?}", r)));
        }
    }
    c.require("batches with a long message", 40);
    c.require("accepted batches", 500);
    c.require("refused batches", 500);
}

// ---------------------------------------------------------------- one-time signatures

/// What a holder may still sign: a reference for the key-evolution history.
struct OtsModel {
    start: u64,
    count: u64,
    floor: (u64, u64),
    /// batch that was broken into offset keys, and the offsets made for it
    expanded: Option<(u64, u64, u64)>,
    batches: HashSet<u64>,
}

impl OtsModel {
    fn new(start: u64, count: u64) -> Self {
        OtsModel { start, count, floor: (0, 0), expanded: None, batches: (start..start + count).collect() }
    }
    fn delete_before(&mut self, b: u64, o: u64, per: u64) {
        if (b, o) > self.floor {
            self.floor = (b, o);
        }
        if let Some((eb, _, _)) = self.expanded {
            if b > eb {
                self.expanded = None;
            }
        }
        if self.batches.contains(&b) {
            self.expanded = Some((b, o, per));
        }
        self.batches.retain(|x| *x > b);
    }
    fn can_sign(&self, b: u64, o: u64) -> bool {
        if (b, o) < self.floor {
            return false;
        }
        if self.batches.contains(&b) {
            return true;
        }
        match self.expanded {
            Some((eb, from, to)) => eb == b && o >= from && o < to,
            None => false,
        }
    }
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

fn enc(o: &OTSSecrets) -> Vec<u8> {
    rmp_serde::to_vec(o).unwrap()
}

fn ots_probe(c: &mut Ctx, s: &OTSSecrets, m: &OtsModel, ids: &[(u64, u64)], hist: &[String], sig_prefix: &str) {
    for (b, o) in ids {
        let msg = format!("message {} {} {}", b, o, c.rng.gen::<u32>());
        let id = OTSIdentifier { batch: *b, offset: *o };
        let want = m.can_sign(*b, *o);
        let got = c.no_panic(&format!("{}ots-sign", sig_prefix), || json!({"history": hist, "id": [b, o]}), || {
            let ots = s.sign(&id, &msg);
            ots.verify(&id, &msg, &s.verifier)
        });
        if let Some(v) = got {
            let before = (*b, *o) < m.floor;
            if v && before {
                c.violation(&format!("{}signed-deleted-id", sig_prefix), json!({"history": hist, "id": [b, o]}));
            } else if v && !want {
                c.violation(&format!("{}signed-id-without-key", sig_prefix), json!({"history": hist, "id": [b, o]}));
            } else if !v && want {
                c.violation(&format!("{}live-id-not-signable", sig_prefix), json!({"history": hist, "id": [b, o]}));
            }
            c.count(if want { "live ids signed" } else { "dead ids refused" }, 1);
        }
    }
}

/// Identifiers around every boundary of the history.
fn ots_ids(c: &mut Ctx, m: &OtsModel, per: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let (fb, fo) = m.floor;
    for b in [fb.saturating_sub(1), fb, fb.saturating_add(1), m.start, m.start + m.count, (m.start + m.count).saturating_sub(1), m.start.saturating_sub(1)].iter() {
        for o in [0, 1, fo.saturating_sub(1), fo, fo.saturating_add(1), per.saturating_sub(1)].iter() {
            if *o < per {
                v.push((*b, *o));
            }
        }
    }
    for _ in 0..4 {
        v.push((m.start.saturating_sub(2).saturating_add(c.rng.gen_range(0, m.count + 4)), c.rng.gen_range(0, per)));
    }
    v.sort();
    v.dedup();
    let k = if c.quick() { 9 } else { 14 };
    while v.len() > k {
        let i = c.rng.gen_range(0, v.len());
        v.remove(i);
    }
    v
}

fn ots_history(c: &mut Ctx, check_encoding: bool) {
    let start = *pick(&mut c.rng, &[0u64, 0, 1, 2, 5, 99, 255, (1 << 32) - 2, 1 << 40, (1 << 63) - 2, u64::MAX - 7, u64::MAX - 6]);
    let count = if c.rng.gen_range(0, 60) == 0 { c.rng.gen_range(8, 70) } else { c.rng.gen_range(0, 7) };
    let count = count.min(u64::MAX - 1 - start);
    let per = if c.rng.gen_range(0, 60) == 0 { c.rng.gen_range(9, 300) } else { *pick(&mut c.rng, &[1u64, 2, 3, 5, 8]) };
    let mut s = OTSSecrets::generate(start, count);
    let mut m = OtsModel::new(start, count);
    let mut hist = vec![format!("generate({},{}) per-batch {}", start, count, per)];
    let mut dead: Vec<[u8; 32]> = Vec::new();
    let mut old: Vec<(OTSSecrets, Vec<u8>, OtsModel)> = Vec::new();
    let mut key = format!("{} {} {}", start, count, per);
    let steps = c.rng.gen_range(1, 8);
    for _ in 0..steps {
        // mostly forward, sometimes backwards, sometimes far beyond the end
        let (fb, fo) = m.floor;
        let cur = match c.rng.gen_range(0, 10) {
            0 => (fb.max(start), c.rng.gen_range(0, per)),
            1 => (fb.saturating_sub(c.rng.gen_range(0, 3)), c.rng.gen_range(0, per)),
            2 => ((start + count).saturating_add(c.rng.gen_range(0, 4)), c.rng.gen_range(0, per)),
            3 => (start.saturating_sub(c.rng.gen_range(0, 3)), c.rng.gen_range(0, per)),
            4 => (fb.max(start).saturating_add(c.rng.gen_range(0, 4)), c.rng.gen_range(0, per)),
            5 if c.rng.gen_range(0, 4) == 0 => {
                // past the end of the batch, by a little or by a power of two
                let far = *pick(&mut c.rng, &[0u64, 1, 1 << 8, 1 << 16, 1 << 32, 1 << 40, 1 << 63]);
                (fb.max(start).saturating_add(c.rng.gen_range(0, 2)), far + c.rng.gen_range(0, per + 2))
            }
            _ => {
                let o = fo.saturating_add(c.rng.gen_range(0, 3));
                if o < per {
                    (fb.max(start), o)
                } else {
                    (fb.max(start).saturating_add(1), c.rng.gen_range(0, per))
                }
            }
        };
        hist.push(format!("delete_before({},{})", cur.0, cur.1));
        key.push_str(&format!(" {:?}", cur));
        let held_before = s.verif_held_secrets();
        let r = c.no_panic("ots-delete", || json!(hist), || s.delete_before(OTSIdentifier { batch: cur.0, offset: cur.1 }, per));
        if r.is_none() {
            return;
        }
        m.delete_before(cur.0, cur.1, per);
        let held = s.verif_held_secrets();
        let now: HashSet<[u8; 32]> = held.iter().map(|x| x.2).collect();
        // every secret bound to an earlier identifier is gone, and stays gone
        for (b, o, sk) in &held {
            let earlier = match o {
                Some(o) => (*b, *o) < m.floor,
                None => *b < m.floor.0 || (*b == m.floor.0 && m.floor.1 > 0),
            };
            c.check(!earlier, "holds-secret-of-deleted-id", || json!({"history": hist, "batch": b, "offset": o, "floor": m.floor}));
            c.check(!dead.contains(sk), "deleted-secret-returned", || json!(hist));
        }
        for (_, _, sk) in &held_before {
            if !now.contains(sk) {
                dead.push(*sk);
                c.count("secrets deleted", 1);
            }
        }
        if check_encoding {
            let snap = s.snapshot();
            for (what, e) in [("live", enc(&s)), ("snapshot", enc(&snap))].iter() {
                for d in &dead {
                    c.check(!contains(e, d), "deleted-secret-in-encoding", || json!({"history": hist, "what": what}));
                }
                for (_, _, sk) in &held {
                    c.check(contains(e, sk), "live-secret-missing-in-encoding", || json!({"history": hist, "what": what}));
                }
                let back: Result<OTSSecrets, _> = rmp_serde::from_slice(e);
                match back {
                    Ok(b) => {
                        c.check(enc(&b) == *e && b.verif_held_secrets() == held && b.verifier == s.verifier && b.first_batch == s.first_batch && b.first_offset == s.first_offset,
                            "encoding-roundtrip", || json!({"history": hist, "what": what}));
                        c.count("snapshots restored", 1);
                        let ids = ots_ids(c, &m, per);
                        ots_probe(c, &b, &m, &ids[..ids.len().min(5)], &hist, "restored:");
                        // the restored holder evolves like the original
                        if c.rng.gen_range(0, 3) == 0 {
                            let mut b = b;
                            let mut m2 = OtsModel { start, count, floor: m.floor, expanded: m.expanded, batches: m.batches.clone() };
                            let nb = m.floor.0.max(start).saturating_add(c.rng.gen_range(0, 3));
                            let no = c.rng.gen_range(0, per);
                            if c.no_panic("restored:ots-delete", || json!(hist), || b.delete_before(OTSIdentifier { batch: nb, offset: no }, per)).is_some() {
                                m2.delete_before(nb, no, per);
                                let mut h2 = hist.clone();
                                h2.push(format!("restore, delete_before({},{})", nb, no));
                                let ids = ots_ids(c, &m2, per);
                                ots_probe(c, &b, &m2, &ids[..ids.len().min(5)], &h2, "restored:");
                            }
                        }
                    }
                    Err(e) => c.violation("encoding-unreadable", json!({"history": hist, "err": e.to_string()})),
                }
            }
            // a snapshot is independent of later deletions of the original
            let e0 = enc(&snap);
            let nb = m.floor.0.max(start).saturating_add(1);
            if c.rng.gen_range(0, 4) == 0 {
                let mut t = s.snapshot();
                let _ = guard(|| t.delete_before(OTSIdentifier { batch: nb, offset: 0 }, per));
                c.check(enc(&s) == e0 && enc(&snap) == e0, "snapshot-aliases-original", || json!(hist));
            }
            // the original goes on; a snapshot taken before still does all it did
            old.push((snap, e0, OtsModel { start, count, floor: m.floor, expanded: m.expanded, batches: m.batches.clone() }));
        } else {
            let ids = ots_ids(c, &m, per);
            ots_probe(c, &s, &m, &ids, &hist, "");
        }
        if let Some((sn, e, om)) = if old.is_empty() { None } else { let i = c.rng.gen_range(0, old.len()); Some(&old[i]) } {
            c.check(enc(sn) == *e, "snapshot-changed", || json!(hist));
            let ids = ots_ids(c, om, per);
            ots_probe(c, sn, om, &ids[..ids.len().min(4)], &hist, "snapshot:");
            c.count("earlier snapshots compared", 1);
        }
        c.state("key-state shapes", format!("{} {} {:?} {}", m.batches.len(), held.len(), m.expanded.map(|e| (e.0 - start, e.1, e.2)), m.floor.0.saturating_sub(start)).as_bytes());
    }
    c.case(key.as_bytes(), count > 0);
    c.sample(json!(hist));
}

/// Holders of many keys: as many offsets as the published dilution makes, or hundreds of batches.
fn ots_large(c: &mut Ctx, check_encoding: bool) {
    let wide = c.rng.gen();
    let (count, per) = if wide {
        (c.rng.gen_range(2, 4), if c.quick() { *pick(&mut c.rng, &[1025u64, 4097, 10_000]) } else { *pick(&mut c.rng, &[10_000u64, 10_001, 65_537, 70_000]) })
    } else {
        (if c.quick() { c.rng.gen_range(600, 4200) } else { c.rng.gen_range(600, 70_000) }, *pick(&mut c.rng, &[1u64, 2, 3]))
    };
    let start = *pick(&mut c.rng, &[0u64, 1, 250, 65_500, (1 << 32) - 300, 1 << 40]);
    let mut hist = vec![format!("generate({},{}) per-batch {}", start, count, per)];
    c.about(&hist[0]);
    let mut s = match c.no_panic("ots-generate", || json!(hist), || OTSSecrets::generate(start, count)) { Some(s) => s, None => return };
    let mut m = OtsModel::new(start, count);
    let mut dead: HashSet<[u8; 32]> = HashSet::new();
    let marks = |r: &mut R, n: u64| -> u64 {
        let k = *pick(r, &[0u64, 1, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, n / 2, n.saturating_sub(2), n.saturating_sub(1)]);
        if r.gen_range(0, 3) == 0 { r.gen_range(0, n) } else { k.min(n - 1) }
    };
    let mut cur = (start, 0);
    for step in 0..4 {
        cur = if step == 0 {
            (start, 0)
        } else if wide {
            if step == 3 { (cur.0 + 1, marks(&mut c.rng, per)) } else { (cur.0, cur.1.max(marks(&mut c.rng, per))) }
        } else {
            (start + (cur.0 - start).max(marks(&mut c.rng, count)), c.rng.gen_range(0, per))
        };
        hist.push(format!("delete_before({},{})", cur.0, cur.1));
        let before = s.verif_held_secrets();
        if c.no_panic("ots-delete", || json!(hist), || s.delete_before(OTSIdentifier { batch: cur.0, offset: cur.1 }, per)).is_none() {
            return;
        }
        m.delete_before(cur.0, cur.1, per);
        let held = s.verif_held_secrets();
        let now: HashSet<[u8; 32]> = held.iter().map(|x| x.2).collect();
        c.check(now.len() == held.len(), "secret-held-twice", || json!(hist));
        for (b, o, sk) in &held {
            let earlier = (*b, o.unwrap_or(0)) < m.floor;
            c.check(!earlier, "holds-secret-of-deleted-id", || json!({"history": hist, "batch": b, "offset": o, "floor": m.floor}));
            c.check(!dead.contains(sk), "deleted-secret-returned", || json!(hist));
        }
        let gone = before.iter().filter(|x| !now.contains(&x.2)).map(|x| x.2);
        let n0 = dead.len();
        dead.extend(gone);
        c.count("secrets deleted", (dead.len() - n0) as u64);
        let mut ids: Vec<(u64, u64)> = vec![cur, (cur.0, per - 1), (start + count - 1, 0), (start + count - 1, per - 1), (start, 0), (start + count, 0)];
        if cur.1 > 0 { ids.push((cur.0, cur.1 - 1)); }
        if cur.0 > start { ids.push((cur.0 - 1, per - 1)); }
        for _ in 0..12 {
            ids.push((start + if wide { c.rng.gen_range(0, count) } else { marks(&mut c.rng, count) }, if wide { marks(&mut c.rng, per) } else { c.rng.gen_range(0, per) }));
        }
        ots_probe(c, &s, &m, &ids, &hist, "");
        if check_encoding {
            let e = enc(&s.snapshot());
            match rmp_serde::from_slice::<OTSSecrets>(&e) {
                Ok(b) => {
                    c.check(e == enc(&s) && enc(&b) == e && b.verif_held_secrets() == held && b.verifier == s.verifier, "encoding-roundtrip", || json!(hist));
                    ots_probe(c, &b, &m, &ids, &hist, "restored:");
                    c.count("snapshots restored", 1);
                }
                Err(e) => c.violation("encoding-unreadable", json!({"history": hist, "err": e.to_string()})),
            }
        }
        c.count("states of large holders", 1);
    }
    c.case(hist.join(" ").as_bytes(), true);
}

/// A signature holds for its identifier, message and key only, and all of its parts are bound.
fn ots_binding(c: &mut Ctx) {
    c.about("ots-binding");
    let start = c.rng.gen_range(0, 5);
    let per = 4;
    let mut s = OTSSecrets::generate(start, 4);
    if c.rng.gen() {
        s.delete_before(OTSIdentifier { batch: start + 1, offset: c.rng.gen_range(0, 3) }, per);
    }
    let other = OTSSecrets::generate(start, 4);
    let id = OTSIdentifier { batch: start + c.rng.gen_range(1, 4), offset: 3 };
    let ml = if c.rng.gen_range(0, 16) == 0 { long_len(&mut c.rng) } else { c.rng.gen_range(0, 30) };
    let msg: String = (0..ml).map(|_| c.rng.gen_range(32u8, 127) as char).collect();
    let good = s.sign(&id, &msg);
    c.check(good.verify(&id, &msg, &s.verifier), "good-signature-refused", || json!([id.batch, id.offset]));
    let e = rmp_serde::to_vec(&good).unwrap();
    let fresh = || rmp_serde::from_slice::<OTS>(&e).unwrap();
    let mut bad: Vec<(&str, bool)> = vec![];
    bad.push(("other-message", fresh().verify(&id, &format!("{}.", msg), &s.verifier)));
    bad.push(("other-batch", fresh().verify(&OTSIdentifier { batch: id.batch + 1, offset: id.offset }, &msg, &s.verifier)));
    bad.push(("other-offset", fresh().verify(&OTSIdentifier { batch: id.batch, offset: id.offset + 1 }, &msg, &s.verifier)));
    bad.push(("swapped-id", id.batch != id.offset && fresh().verify(&OTSIdentifier { batch: id.offset, offset: id.batch }, &msg, &s.verifier)));
    bad.push(("other-verifier", fresh().verify(&id, &msg, &other.verifier)));
    bad.push(("default-verifier", fresh().verify(&id, &msg, &Default::default())));
    let o2 = other.sign(&id, &msg);
    let id3 = OTSIdentifier { batch: id.batch, offset: id.offset - 1 };
    let same = s.sign(&id3, &msg);
    for k in 0..5 {
        for (src, tag) in [(&o2, "foreign"), (&same, "neighbour")].iter() {
            let mut x = fresh();
            let name = match k {
                0 => {
                    x.sig = src.sig;
                    "sig"
                }
                1 => {
                    x.pk = src.pk;
                    "pk"
                }
                2 => {
                    x.pk2 = src.pk2;
                    "pk2"
                }
                3 => {
                    x.pk1_sig = src.pk1_sig;
                    "pk1_sig"
                }
                _ => {
                    x.pk2_sig = src.pk2_sig;
                    "pk2_sig"
                }
            };
            // components shared between the two signatures leave it unchanged
            let unchanged = rmp_serde::to_vec(&x).unwrap() == e;
            let v = x.verify(&id, &msg, &s.verifier);
            c.check(v == unchanged, &format!("component-{}", name), || json!({"from": tag, "verifies": v, "unchanged": unchanged}));
        }
    }
    // a whole leaf (signature, key, certificate) moved to another offset of the same batch
    let mut x = fresh();
    x.sig = same.sig;
    x.pk = same.pk;
    x.pk1_sig = same.pk1_sig;
    bad.push(("leaf-of-other-offset", x.verify(&id, &msg, &s.verifier)));
    // keys nobody signed with
    let z = s.sign(&OTSIdentifier { batch: start + 100, offset: 0 }, &msg);
    bad.push(("unsigned", z.verify(&OTSIdentifier { batch: start + 100, offset: 0 }, &msg, &s.verifier)));
    bad.push(("unsigned-default", z.verify(&OTSIdentifier { batch: start + 100, offset: 0 }, &msg, &Default::default())));
    // one bit of any part of the signature, of the identifier, of the message or of the key
    for k in 0..8 {
        let bit = |r: &mut R, b: &mut [u8]| { let i = r.gen_range(0, b.len()); b[i] ^= 1 << r.gen_range(0, 8); };
        let mut x = fresh();
        let (mut id2, mut msg2, mut vk) = (id, msg.clone().into_bytes(), s.verifier);
        let edit_sig = |r: &mut R, t: &mut Signature| { let mut b = t.to_bytes(); bit(r, &mut b[..63]); *t = Signature::new(b); };
        let edit_key = |r: &mut R, t: &mut PublicKey| loop { let mut b = t.to_bytes(); bit(r, &mut b); if let Ok(k) = PublicKey::from_bytes(&b) { *t = k; break } };
        let what = match k {
            0 => { edit_sig(&mut c.rng, &mut x.sig); "sig-bit" }
            1 => { edit_sig(&mut c.rng, &mut x.pk1_sig); "pk1-sig-bit" }
            2 => { edit_sig(&mut c.rng, &mut x.pk2_sig); "pk2-sig-bit" }
            3 => { edit_key(&mut c.rng, &mut x.pk); "pk-bit" }
            4 => { edit_key(&mut c.rng, &mut x.pk2); "pk2-bit" }
            5 => { if c.rng.gen() { id2.batch ^= 1 << c.rng.gen_range(0, 64) } else { id2.offset ^= 1 << c.rng.gen_range(0, 64) } "id-bit" }
            6 => { if msg2.is_empty() { msg2.push(b'x') } else { let i = c.rng.gen_range(0, msg2.len()); msg2[i] = if msg2[i] == b'x' { b'y' } else { b'x' } } "message-byte" }
            _ => { edit_key(&mut c.rng, &mut vk); "verifier-bit" }
        };
        let msg2 = String::from_utf8(msg2).unwrap();
        bad.push((what, x.verify(&id2, &msg2, &vk)));
    }
    for (k, v) in bad {
        c.check(!v, &format!("forged-{}", k), || json!([id.batch, id.offset]));
        c.count("forgeries refused", 1);
    }
    c.case(&e, true);
}

pub fn c12(c: &mut Ctx) {
    c.rule = "a key-evolution history: generate, then deletions forwards, backwards, across batches and beyond the end; every identifier around each boundary is signed and verified; histories without any key are trivial".into();
    let n = c.n(4_000, 80_000);
    for _ in 0..n {
        if !c.in_time(50, 500) {
            break;
        }
        c.about("ots-history");
        ots_history(c, false);
    }
    for _ in 0..c.n(8, 200) {
        if !c.in_time(55, 530) {
            break;
        }
        ots_large(c, false);
    }
    let n = c.n(150, 3_000);
    for _ in 0..n {
        if !c.in_time(58, 560) {
            break;
        }
        ots_binding(c);
    }
    // keys made for a range of rounds
    let dir = c.scratch.join(format!("c12-store-{}", c.shard));
    algorsand::data::account::use_key_store(&dir);
    let n = c.n(400, 3_000);
    for j in 0..n {
        if !c.in_time(65, 580) {
            break;
        }
        // one long range in fifty: more than 256 batches, or more than 256 rounds in a batch
        let long = j % 50 == 7;
        let dil = if long { *pick(&mut c.rng, &[1u64, 1, 2, 300, 1000]) } else { *pick(&mut c.rng, &[1u64, 2, 3, 4, 5, 7, 10, 16, 100, 1000]) };
        let first = match c.rng.gen_range(0, 4) { 0 => 0, 1 => c.rng.gen_range(0, 3 * dil), 2 => dil * c.rng.gen_range(0, 50), _ => u64_biased(&mut c.rng) >> 1 };
        let last = first + if long { c.rng.gen_range(520, 1100) } else { c.rng.gen_range(0, 3 * dil.min(12) + 2) };
        let d = || json!({"first": first, "last": last, "dilution": dil});
        c.about(&d().to_string());
        c.case(d().to_string().as_bytes(), true);
        let p = match c.no_panic("participation", d, || Participation::fill_db_with_participation_keys(Address([7; 32]), Round(first), Round(last), dil)) {
            Some(Ok(p)) => p,
            r => {
                c.check(r.is_none(), "participation-refused", d);
                continue;
            }
        };
        let mut p = p;
        let mut floor = first;
        let steps = c.rng.gen_range(1, 4);
        for step in 0..steps {
            for r in first..=last {
                if long && r > floor + 3 && r + 3 < last && (r + 2).wrapping_sub(first) % 256 > 4 && c.rng.gen_range(0, 30) > 0 {
                    continue;
                }
                if long { c.count("rounds of a long participation", 1) }
                let m = format!("vote {}", r);
                let id = OTSIdentifier { batch: r / dil, offset: r % dil };
                let ok = c.no_panic("participation-sign", d, || p.voting.sign(&id, &m).verify(&id, &m, &p.voting.verifier));
                c.check(ok == Some(r >= floor), if r >= floor { "round-of-the-range-not-signable" } else { "spent-round-signable" }, || json!({"keys": d(), "round": r, "deleted before": floor}));
                c.count("rounds of a participation", 1);
            }
            if step + 1 < steps {
                let to = c.rng.gen_range(floor, last + 2);
                let _ = c.no_panic("participation-delete", d, || p.voting.delete_before(OTSIdentifier { batch: to / dil, offset: to % dil }, dil));
                floor = to;
            }
        }
    }
    c.require("rounds of a participation", 2000);
    // extreme identifiers
    for (b, o) in [(u64::MAX, 0), (u64::MAX, u64::MAX), (u64::MAX - 1, u64::MAX), (0, u64::MAX)].iter() {
        c.about("ots-extreme");
        for st in [0u64, 1, 7].iter() {
            let mut s = OTSSecrets::generate(*st, 2);
            let id = OTSIdentifier { batch: *b, offset: *o };
            let msg = "m".to_owned();
            let r = c.no_panic("ots-extreme-sign", || json!([b, o]), || s.sign(&id, &msg).verify(&id, &msg, &s.verifier));
            if *b > st + 2 {
                c.check(r != Some(true), "extreme-id-signed", || json!([b, o]));
            }
            let r = c.no_panic("ots-extreme-delete", || json!([b, o]), || {
                s.delete_before(id, 4);
                s.verif_held_secrets().len()
            });
            if *b > st + 2 {
                c.check(r == Some(0), "extreme-delete-keeps-keys", || json!({"id": [b, o], "held": r}));
            }
        }
    }
    c.require("live ids signed", 2000);
    c.require("dead ids refused", 2000);
    c.require("secrets deleted", 2000);
    c.require("forgeries refused", 200);
}

pub fn c13(c: &mut Ctx) {
    c.rule = "a key-evolution history in which every state is encoded, restored, compared and evolved further; histories without any key are trivial".into();
    let n = c.n(3_000, 60_000);
    for _ in 0..n {
        if !c.in_time(50, 500) {
            break;
        }
        c.about("ots-encoding");
        ots_history(c, true);
    }
    for _ in 0..c.n(8, 200) {
        if !c.in_time(55, 530) {
            break;
        }
        ots_large(c, true);
    }
    let n = c.n(300, 6_000);
    for _ in 0..n {
        if !c.in_time(58, 560) {
            break;
        }
        ots_binding(c);
    }
    c.require("forgeries refused", 2000);
    c.require("states of large holders", 8);
    c.require("earlier snapshots compared", 1000);
    c.require("snapshots restored", 2000);
    c.require("secrets deleted", 1000);
}
