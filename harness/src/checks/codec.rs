//! C01 address text, C02 mnemonics, C03 digests and hash domains.
use crate::core::*;
use crate::refm;
use algorsand::crypto::{self, hashable::*, mnemonic, CryptoHash};
use algorsand::data::basics::Address;
use algorsand::data::transactions::TxID;
use rand::Rng;
use serde_json::json;
use std::convert::TryFrom;
use std::str::FromStr;

const B32: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

/// Derives hostile variants of a text form.
fn mutate_text(r: &mut R, s: &str) -> (String, &'static str) {
    let mut c: Vec<char> = s.chars().collect();
    match r.gen_range(0, 17) {
        0 => {
            let i = r.gen_range(0, c.len());
            c[i] = B32[r.gen_range(0, 32)] as char;
            (c.into_iter().collect(), "substitute")
        }
        1 => {
            let i = r.gen_range(0, c.len() - 1);
            c.swap(i, i + 1);
            (c.into_iter().collect(), "transpose")
        }
        2 => {
            let i = r.gen_range(0, c.len());
            c.remove(i);
            (c.into_iter().collect(), "delete")
        }
        3 => {
            let i = r.gen_range(0, c.len() + 1);
            c.insert(i, B32[r.gen_range(0, 32)] as char);
            (c.into_iter().collect(), "insert")
        }
        4 => {
            let l = c.len();
            c[l - 1] = B32[r.gen_range(0, 32)] as char;
            (c.into_iter().collect(), "last-char")
        }
        5 => (s.to_lowercase(), "lowercase"),
        6 => {
            let i = r.gen_range(0, c.len());
            c[i] = c[i].to_ascii_lowercase();
            (c.into_iter().collect(), "one-lowercase")
        }
        7 => (format!("{}{}", s, *pick(r, &[" ", "\n", "=", "======", "\0", "A", "AAAAAAAA"])), "suffix"),
        8 => (format!("{}{}", *pick(r, &[" ", "\n", "\t", "=", "A", "4"]), s), "prefix"),
        9 => {
            let i = r.gen_range(0, c.len());
            c[i] = *pick(r, &['1', '0', '8', '9', '-', '=', ' ', 'é', '𝄞', '\u{212a}']);
            (c.into_iter().collect(), "alien-char")
        }
        10 => {
            let k = r.gen_range(0, c.len() + 1);
            c.truncate(k);
            (c.into_iter().collect(), "truncate")
        }
        11 => {
            let i = r.gen_range(0, c.len());
            let j = r.gen_range(0, c.len());
            c.swap(i, j);
            (c.into_iter().collect(), "swap")
        }
        12 => (format!("{}{}", s, s), "doubled"),
        13 => {
            let n = r.gen_range(0, 140);
            ((0..n).map(|_| B32[r.gen_range(0, 32)] as char).collect(), "random-b32")
        }
        14 => {
            let n = r.gen_range(0, 80);
            (String::from_utf8_lossy(&bytes(r, n)).into_owned(), "random-bytes")
        }
        15 => {
            for x in c.iter_mut() {
                if r.gen_range(0, 12) == 0 {
                    *x = B32[r.gen_range(0, 32)] as char;
                }
            }
            (c.into_iter().collect(), "multi-substitute")
        }
        _ => (s.to_owned(), "same"),
    }
}

pub fn c01(c: &mut Ctx) {
    c.rule = "an address value (biased 32-byte arrays) and a derived text variant; non-trivial if the variant differs from the canonical text or the value is non-zero".into();
    let n = c.n(400_000, 8_000_000);
    for i in 0..n {
        if !c.in_time(60, 500) {
            break;
        }
        let a = arr32_biased(&mut c.rng);
        if i % 1024 == 0 {
            c.about("address-text");
        }
        let want = refm::address_text(&a);
        let got = match c.no_panic("address-display", || json!(hex(&a)), || Address(a).to_string()) {
            Some(g) => g,
            None => continue,
        };
        c.check(got == want, "display", || json!({"addr": hex(&a), "got": got, "want": want}));
        let back = c.no_panic("address-parse", || json!(want), || Address::from_str(&want));
        if let Some(b) = back {
            c.check(b == Ok(Address(a)), "roundtrip", || json!({"addr": hex(&a), "text": want, "got": format!("{:?}", b)}));
        }
        c.check(Address(a).is_zero() == (a == [0; 32]), "is-zero", || json!(hex(&a)));

        // hostile variants
        let (s, kind) = match c.rng.gen_range(0, 8) {
            // overlong or other-length payloads that carry a checksum of the address in their last bytes
            0 => {
                let mut v = a.to_vec();
                let mid = c.rng.gen_range(1, 40);
                v.extend(bytes(&mut c.rng, mid));
                v.extend_from_slice(&refm::h256(&[&a])[28..]);
                (refm::base32(&v), "overlong-valid-trailing-checksum")
            }
            1 => {
                let mut v = a.to_vec();
                let h = refm::h256(&[&a]);
                match c.rng.gen_range(0, 6) {
                    0 => v.extend_from_slice(&h[..4]),
                    1 => v.extend_from_slice(&h[24..28]),
                    2 => v.extend_from_slice(&h[29..]),
                    3 => v.extend_from_slice(&h[27..]),
                    4 => {
                        let mut t = h[28..].to_vec();
                        t.reverse();
                        v.extend(t)
                    }
                    _ => {
                        let mut t = h[28..].to_vec();
                        let k = c.rng.gen_range(0, 4);
                        t[k] ^= 1 << c.rng.gen_range(0, 8);
                        v.extend(t)
                    }
                }
                (refm::base32(&v), "checksum-variant")
            }
            2 => {
                // 32..35 raw bytes: the last 4 are part of the key itself
                let k = c.rng.gen_range(30, 36);
                let mut v = a.to_vec();
                v.extend_from_slice(&refm::h256(&[&a])[28..]);
                v.truncate(k);
                (refm::base32(&v), "short-payload")
            }
            _ => mutate_text(&mut c.rng, &want),
        };
        c.state("variant kinds", kind.as_bytes());
        let r = c.no_panic(&format!("address-parse-{}", kind), || json!(s), || Address::from_str(&s));
        if let Some(r) = r {
            match r {
                Ok(x) => {
                    c.count("accepted texts", 1);
                    let canon = refm::address_text(&x.0);
                    c.check(canon == s, "non-canonical-accepted", || json!({"text": s, "kind": kind, "decoded": hex(&x.0), "canonical": canon}));
                }
                Err(_) => {
                    c.count("rejected texts", 1);
                    c.check(s != want, "canonical-rejected", || json!(s));
                }
            }
        }
        c.case(s.as_bytes(), s != want || a != [0; 32]);
        if i < 2 {
            c.sample(json!({"address": want, "variant": s, "kind": kind}));
        }
    }
    c.require("rejected texts", 1000);
    c.require("accepted texts", 100);
}

// ---------------------------------------------------------------- C02

pub struct RefMnemonic {
    pub words: Vec<String>,
    index: std::collections::HashMap<String, u32>,
}

impl RefMnemonic {
    pub fn load() -> Self {
        let t = std::fs::read_to_string(repo_dir().join("data/mnemonics_wordlist.txt")).unwrap();
        let words: Vec<String> = t.lines().map(|s| s.to_owned()).collect();
        let index = words.iter().enumerate().map(|(i, w)| (w.clone(), i as u32)).collect();
        RefMnemonic { words, index }
    }
    fn bit(key: &[u8], i: usize) -> u32 {
        if i / 8 >= key.len() {
            0
        } else {
            (key[i / 8] >> (i % 8)) as u32 & 1
        }
    }
    fn encode_idx(key: &[u8; 32]) -> Vec<u32> {
        let mut v: Vec<u32> =
            (0..24).map(|w| (0..11).map(|b| Self::bit(key, w * 11 + b) << b).sum()).collect();
        let h = refm::h256(&[key]);
        v.push((h[0] as u32 | (h[1] as u32) << 8) & 0x7ff);
        v
    }
    pub fn encode(&self, key: &[u8; 32]) -> Vec<String> {
        Self::encode_idx(key).iter().map(|i| self.words[*i as usize].clone()).collect()
    }
    pub fn decode(&self, ws: &[String]) -> Option<[u8; 32]> {
        if ws.len() != 25 {
            return None;
        }
        let idx: Option<Vec<u32>> = ws.iter().map(|w| self.index.get(w).copied()).collect();
        let idx = idx?;
        let mut key = [0u8; 32];
        for bit in 0..264 {
            let v = (idx[bit / 11] >> (bit % 11)) & 1;
            if bit < 256 {
                key[bit / 8] |= (v as u8) << (bit % 8);
            } else if v != 0 {
                return None;
            }
        }
        if Self::encode_idx(&key) == idx {
            Some(key)
        } else {
            None
        }
    }
}

pub fn c02(c: &mut Ctx) {
    c.rule = "a 32-byte key (biased) or a mutated 25-word list (words substituted, permuted, dropped, alien, padding bits set with a matching checksum); non-trivial unless the key is zero".into();
    let m = RefMnemonic::load();
    c.check(m.words.len() == 2048 && m.index.len() == 2048, "wordlist", || json!(m.words.len()));
    let mut check_list = |c: &mut Ctx, ws: &[String], kind: &str| {
        let want = m.decode(ws);
        let got = c.no_panic(&format!("mnemonic-{}", kind), || json!(ws), || mnemonic::mnemonic_to_key(ws));
        if let Some(got) = got {
            match (&got, &want) {
                (Ok(k), Some(w)) => {
                    c.count("accepted lists", 1);
                    c.check(k == w, "decode-value", || json!({"words": ws, "got": hex(k), "want": hex(w)}));
                }
                (Ok(k), None) => c.violation("accepted-invalid", json!({"words": ws, "kind": kind, "got": hex(k)})),
                (Err(e), Some(w)) => c.violation("rejected-valid", json!({"words": ws, "kind": kind, "key": hex(w), "err": e.to_string()})),
                (Err(_), None) => c.count("rejected lists", 1),
            }
        }
        // the same words as a phrase
        let sep = *pick(&mut c.rng, &[" ", "\n", "\t ", " \u{3000}"]);
        let phrase = ws.join(sep);
        let split: Vec<String> = phrase.split(char::is_whitespace).filter(|w| !w.is_empty()).map(String::from).collect();
        let want = m.decode(&split);
        if let Some(got) = c.no_panic("phrase", || json!(phrase), || mnemonic::phrase_to_key(&phrase)) {
            c.check(got.ok() == want, "phrase verdict", || json!({"phrase": phrase, "kind": kind, "want": want.map(|k| hex(&k))}));
        }
        c.case(ws.join(" ").as_bytes(), true);
    };
    let n = c.n(4_000, 60_000);
    for i in 0..n {
        if !c.in_time(60, 500) {
            break;
        }
        c.about("mnemonic");
        let k = arr32_biased(&mut c.rng);
        let want = m.encode(&k);
        let got = match c.no_panic("key-to-mnemonic", || json!(hex(&k)), || mnemonic::key_to_mnemonic(k)) {
            Some(g) => g,
            None => continue,
        };
        c.check(got == want, "encode", || json!({"key": hex(&k), "got": got, "want": want}));
        check_list(c, &want, "canonical");
        // phrase with arbitrary white space
        let mut phrase = String::new();
        for w in &want {
            for _ in 0..c.rng.gen_range(1, 4) {
                phrase.push(*pick(&mut c.rng, &[' ', '\n', '\t', '\r', '\u{3000}']));
            }
            phrase.push_str(w);
        }
        if c.rng.gen() {
            phrase.push_str("  \n");
        }
        let p = c.no_panic("phrase", || json!(phrase), || mnemonic::phrase_to_key(&phrase));
        if let Some(p) = p {
            c.check(p == Ok(k), "phrase-roundtrip", || json!({"phrase": phrase, "got": format!("{:?}", p)}));
        }
        // mutations
        for _ in 0..12 {
            let mut ws = want.clone();
            let kind = match c.rng.gen_range(0, 9) {
                0 | 1 => {
                    let i = c.rng.gen_range(0, 25);
                    ws[i] = pick(&mut c.rng, &m.words).clone();
                    "substitute"
                }
                2 => {
                    let i = c.rng.gen_range(0, 25);
                    let j = c.rng.gen_range(0, 25);
                    ws.swap(i, j);
                    "swap"
                }
                3 => {
                    // a word that is not on the list, mostly one that resembles the right one
                    let i = c.rng.gen_range(0, 25);
                    let w: Vec<char> = ws[i].chars().collect();
                    let at = c.rng.gen_range(0, w.len());
                    ws[i] = match c.rng.gen_range(0, 12) {
                        0 => (*pick(&mut c.rng, &["zzz", "", "Abandon", "abando", "abandonn", "аbandon", "0", "2047", "zoo "])).to_string(),
                        1 | 2 => w[..c.rng.gen_range(0, w.len())].iter().collect(),
                        3 => w[..w.len().min(4)].iter().collect(),
                        4 => ws[i].to_uppercase(),
                        5 => ws[i][..1].to_uppercase() + &ws[i][1..],
                        6 => format!("{}{}", ws[i], *pick(&mut c.rng, &["s", "e", " ", "\n", ",", ".", "\u{301}", "\0"])),
                        7 => format!("{}{}", *pick(&mut c.rng, &[" ", "\t", "a", "-", "\u{feff}"]), ws[i]),
                        8 => m.index[&ws[i]].to_string(),
                        9 => {
                            let mut w = w;
                            w[at] = (b'a' + c.rng.gen_range(0, 26)) as char;
                            w.iter().collect()
                        }
                        10 => w[1..].iter().collect(),
                        _ => {
                            let mut w = w;
                            w.swap(at, c.rng.gen_range(0, ws[i].len()));
                            w.iter().collect()
                        }
                    };
                    "alien"
                }
                4 => {
                    ws.truncate(c.rng.gen_range(0, 25));
                    "short"
                }
                5 => {
                    ws.push(pick(&mut c.rng, &m.words).clone());
                    "long"
                }
                6 => {
                    // padding bits set in word 24; checksum still that of the 32 key bytes
                    let idx = m.index[&ws[23]] | (c.rng.gen_range(1u32, 256) << 3);
                    ws[23] = m.words[idx as usize].clone();
                    "padding"
                }
                7 => {
                    // other rules for the checksum word
                    let h = refm::h256(&[&k]);
                    let v = match c.rng.gen_range(0, 3) {
                        0 => ((h[0] as u32) << 8 | h[1] as u32) & 0x7ff,
                        1 => ((h[0] as u32) << 3 | (h[1] as u32) >> 5) & 0x7ff,
                        _ => (h[30] as u32 | (h[31] as u32) << 8) & 0x7ff,
                    };
                    ws[24] = m.words[v as usize].clone();
                    "checksum-rule"
                }
                _ => {
                    ws = (0..25).map(|_| pick(&mut c.rng, &m.words).clone()).collect();
                    "random-list"
                }
            };
            c.state("mutation kinds", kind.as_bytes());
            check_list(c, &ws, kind);
        }
        // exhaustive checksum word and 24th word for some keys
        if i < 2 {
            for w in &m.words {
                let mut ws = want.clone();
                ws[24] = w.clone();
                check_list(c, &ws, "checksum-sweep");
                let mut ws = want.clone();
                ws[23] = w.clone();
                check_list(c, &ws, "word24-sweep");
            }
            c.sample(json!({"key": hex(&k), "words": want}));
        }
    }
    c.require("accepted lists", 100);
    c.require("rejected lists", 10_000);
}

// ---------------------------------------------------------------- C03

fn hashids() -> Vec<(&'static str, &'static str)> {
    use algorsand::protocol::*;
    vec![
        (APP_INDEX, "appID"), (AUCTION_BID, "aB"), (AUCTION_DEPOSIT, "aD"), (AUCTION_OUTCOMES, "aO"),
        (AUCTION_PARAMS, "aP"), (AUCTION_SETTLEMENT, "aS"), (COMPACT_CERT_COIN, "ccc"),
        (COMPACT_CERT_PART, "ccp"), (COMPACT_CERT_SIG, "ccs"), (AGREEMENT_SELECTOR, "AS"),
        (BLOCK_HEADER, "BH"), (BALANCE_RECORD, "BR"), (CREDENTIAL, "CR"), (GENESIS, "GE"),
        (MERKLE_ARRAY_NODE, "MA"), (MESSAGE, "MX"), (NET_PRIO_RESPONSE, "NPR"),
        (ONE_TIME_SIG_KEY1, "OT1"), (ONE_TIME_SIG_KEY2, "OT2"), (PAYSET_FLAT, "PF"), (PAYLOAD, "PL"),
        (PROGRAM, "Program"), (PROGRAM_DATA, "prog_data"), (PROPOSER_SEED, "PS"), (SEED, "SD"),
        (SPECIAL_ADDR, "special_addr"), (SIGNED_TX_IN_BLOCK, "STIB"), (TEST_HASHABLE, "TE"),
        (TX_GROUP, "TG"), (TX_MERKLE_LEAF, "TL"), (TRANSACTION, "TX"), (VOTE, "VO"),
    ]
}

struct Obj(&'static str, Vec<u8>);
impl Hashable for Obj {
    fn to_be_hashed(&self) -> (&'static str, Vec<u8>) {
        (self.0, self.1.clone())
    }
}

pub fn c03(c: &mut Ctx) {
    c.rule = "a 32-byte digest with a hostile text variant, or a pair of objects of two kinds with equal payload bytes".into();
    let ids = hashids();
    for (i, (got, want)) in ids.iter().enumerate() {
        c.check(got == want, "hash-id", || json!({"got": got, "want": want}));
        for (j, (o, _)) in ids.iter().enumerate() {
            c.check(i == j || !o.starts_with(got), "prefix-free", || json!([got, o]));
        }
    }
    let n = c.n(400_000, 6_000_000);
    for i in 0..n {
        if !c.in_time(60, 500) {
            break;
        }
        if i % 1024 == 0 {
            c.about("digest-text");
        }
        let a = arr32_biased(&mut c.rng);
        let d = CryptoHash(a);
        let want = refm::base32(&a);
        c.check(d.to_string() == want && TxID(d.clone()).to_string() == want, "display", || json!({"d": hex(&a), "got": d.to_string()}));
        match c.no_panic("digest-parse", || json!(want), || (CryptoHash::try_from(want.as_str()), TxID::try_from(want.as_str()))) {
            Some((Ok(x), Ok(y))) => {
                c.check(x == d && y.0 == d, "roundtrip", || json!(want));
            }
            Some(_) => c.violation("canonical-rejected", json!(want)),
            None => {}
        }
        c.check(d.trim_to_u64() == u64::from_le_bytes([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]]), "trim", || json!(hex(&a)));
        c.check(d.is_zero() == (a == [0; 32]), "is-zero", || json!(hex(&a)));
        let (s, kind) = if c.rng.gen_range(0, 4) == 0 {
            let k = c.rng.gen_range(28, 37);
            let mut v = a.to_vec();
            v.extend_from_slice(&[0; 8]);
            v.truncate(k);
            (refm::base32(&v), "other-length")
        } else {
            mutate_text(&mut c.rng, &want)
        };
        c.state("variant kinds", kind.as_bytes());
        if let Some((x, y)) = c.no_panic("digest-parse-variant", || json!(s), || (CryptoHash::try_from(s.as_str()), TxID::try_from(s.as_str()))) {
            match &x {
                Ok(x) => {
                    c.count("accepted texts", 1);
                    c.check(refm::base32(&x.0) == s, "non-canonical-accepted", || json!({"text": s, "got": hex(&x.0)}));
                }
                Err(_) => {
                    c.count("rejected texts", 1);
                    c.check(s != want, "canonical-rejected", || json!(s));
                }
            }
            c.check(x.is_ok() == y.is_ok(), "txid-vs-digest", || json!(s));
        }
        c.case(s.as_bytes(), true);

        // hash = SHA-512/256(domain || payload) and depends on domain and payload
        let n = if i % 256 == 0 { long_len(&mut c.rng) } else if i % 64 == 0 { c.rng.gen_range(0, 5000) } else { c.rng.gen_range(0, 150) };
        let p = bytes(&mut c.rng, n);
        c.check(crypto::hash(&p).0 == refm::h256(&[&p]), "hash", || json!(hex(&p)));
        let (k1, _) = *pick(&mut c.rng, &ids);
        let (k2, _) = *pick(&mut c.rng, &ids);
        let h1 = hash_obj(&Obj(k1, p.clone()));
        c.check(h1.0 == refm::h256(&[k1.as_bytes(), &p]), "hash-obj", || json!([k1, hex(&p)]));
        let h2 = hash_obj(&Obj(k2, p.clone()));
        c.check((h1 == h2) == (k1 == k2), "domain-separation", || json!([k1, k2, hex(&p)]));
        // payload of the second chosen so that a naive concatenation without a prefix-free domain would collide
        let cut = c.rng.gen_range(0, p.len() + 1);
        let h3 = hash_obj(&Obj(k2, p[cut..].to_vec()));
        c.check(!(h3 == h1) || (k1 == k2 && cut == 0), "domain-separation", || json!([k1, k2, hex(&p)]));
        let st: String = p.iter().map(|b| (b & 0x7f) as char).collect();
        c.check(hash_obj(&st).0 == refm::h256(&[b"MX", st.as_bytes()]), "message-hash", || json!(st));
        if i < 2 {
            c.sample(json!({"digest": want, "variant": s, "kind": kind, "domain": k1, "payload_len": p.len()}));
        }
    }
    // protocol objects hash under their own domain
    for _ in 0..c.n(400, 4000) {
        let (l, r) = (arr32(&mut c.rng), arr32(&mut c.rng));
        let p = algorsand::crypto::merklearray::Pair { l: CryptoHash(l), r: CryptoHash(r) };
        c.check(hash_obj(&p).0 == refm::h256(&[b"MA", &l, &r]), "pair-hash", || json!([hex(&l), hex(&r)]));
        let x = u64_biased(&mut c.rng);
        let ai = algorsand::data::basics::AppIndex(x);
        c.check(hash_obj(&ai).0 == refm::h256(&[b"appID", &x.to_be_bytes()]), "app-index-hash", || json!(x));
        c.check(ai.verif_address().0 == refm::h256(&[b"appID", &x.to_be_bytes()]), "app-address", || json!(x));
        let mut tx = super::gen::tx(&mut c.rng);
        let enc = algorsand::protocol::encode(&tx);
        c.check(tx.id().0 .0 == refm::h256(&[b"TX", &enc]), "txid-domain", || json!(hex(&enc)));
        tx.header.fee.0 ^= 1;
        c.check(tx.id().0 .0 != refm::h256(&[b"TX", &enc]), "txid-differs", || json!(hex(&enc)));
        c.count("protocol objects hashed", 4);
    }
    c.require("protocol objects hashed", 100);
    c.require("rejected texts", 1000);
}
