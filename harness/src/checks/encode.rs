//! C17 canonical encoding, C18 commitments of ids, signatures and block hashes.
use super::gen;
use crate::core::*;
use crate::refm;
use algorsand::crypto::{self, Hashable};
use algorsand::data::basics::{user_balance::verif_balance_record_hash_input, AccountData};
use algorsand::data::bookkeeping::*;
use algorsand::data::transactions::*;
use algorsand::protocol;
use rand::Rng;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;

/// Walks one msgpack value independently of the codec: structure, lengths, map keys all different.
/// Returns the number of bytes used.
fn walk(b: &[u8], at: usize, depth: u32) -> Result<usize, String> {
    if depth > 64 {
        return Err("too deep".into());
    }
    let t = *b.get(at).ok_or("truncated")?;
    let be = |n: usize| -> Result<usize, String> {
        let s = b.get(at + 1..at + 1 + n).ok_or("truncated length")?;
        Ok(s.iter().fold(0usize, |a, x| a << 8 | *x as usize))
    };
    let seq = |mut p: usize, n: usize| -> Result<usize, String> {
        for _ in 0..n {
            p = walk(b, p, depth + 1)?;
        }
        Ok(p)
    };
    let map = |mut p: usize, n: usize| -> Result<usize, String> {
        let mut keys = std::collections::HashSet::new();
        for _ in 0..n {
            let k = p;
            p = walk(b, p, depth + 1)?;
            if !keys.insert(b[k..p].to_vec()) {
                return Err(format!("duplicate map key {}", hex(&b[k..p])));
            }
            p = walk(b, p, depth + 1)?;
        }
        Ok(p)
    };
    let raw = |p: usize, n: usize| if p + n <= b.len() { Ok(p + n) } else { Err("truncated data".to_string()) };
    match t {
        0x00..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => Ok(at + 1),
        0x80..=0x8f => map(at + 1, (t & 15) as usize),
        0x90..=0x9f => seq(at + 1, (t & 15) as usize),
        0xa0..=0xbf => raw(at + 1, (t & 31) as usize),
        0xc4 | 0xd9 => raw(at + 2, be(1)?),
        0xc5 | 0xda => raw(at + 3, be(2)?),
        0xc6 | 0xdb => raw(at + 5, be(4)?),
        0xcc | 0xd0 => raw(at, 2),
        0xcd | 0xd1 => raw(at, 3),
        0xca | 0xce | 0xd2 => raw(at, 5),
        0xcb | 0xcf | 0xd3 => raw(at, 9),
        0xdc => seq(at + 3, be(2)?),
        0xdd => seq(at + 5, be(4)?),
        0xde => map(at + 3, be(2)?),
        0xdf => map(at + 5, be(4)?),
        _ => Err(format!("tag {:02x}", t)),
    }
}

struct Seen(HashMap<Vec<u8>, u64>);

fn roundtrip<T: Serialize + for<'a> Deserialize<'a>>(c: &mut Ctx, what: &'static str, x: &T, same: &dyn Fn(&T, &T) -> bool) -> Option<Vec<u8>> {
    let b = c.no_panic(&format!("encode {}", what), || json!({"type": what}), || protocol::encode(x))?;
    c.about(&format!("roundtrip {} {}", what, hex(&b[..b.len().min(1500)])));
    let d = || json!({"type": what, "encoding": hex(&b)});
    c.case(&b, b.len() > 4);
    c.count(&format!("round trips {}", what), 1);
    match walk(&b, 0, 0) {
        Ok(n) => {
            c.check(n == b.len(), &format!("trailing bytes:{}", what), d);
        }
        Err(e) => {
            c.violation(&format!("not well-formed msgpack:{}", what), json!({"input": d(), "error": e}));
        }
    }
    let y = c.no_panic(&format!("decode {}", what), d, || protocol::decode::<T>(&b))?;
    match y {
        Err(e) => {
            c.violation(&format!("own encoding refused:{}", what), json!({"input": d(), "error": e.to_string()}));
        }
        Ok(y) => {
            c.check(same(x, &y), &format!("decoded value differs:{}", what), d);
            let b2 = protocol::encode(&y);
            c.check(b == b2, &format!("re-encoding differs:{}", what), || json!({"input": d(), "again": hex(&b2)}));
        }
    }
    Some(b)
}

/// A value and an edited copy of it must not share an encoding.
fn differ(c: &mut Ctx, what: &str, field: &str, a: &[u8], b: &[u8]) {
    c.count("edited pairs", 1);
    c.state("edited fields", format!("{}.{}", what, field).as_bytes());
    c.check(a != b, &format!("same encoding:{}.{}", what, field), || json!({"type": what, "field": field, "encoding": hex(a)}));
}

fn hostile<T: Serialize + for<'a> Deserialize<'a>>(c: &mut Ctx, what: &'static str, good: &[u8]) {
    for _ in 0..3 {
        let mut b = good.to_vec();
        match c.rng.gen_range(0, 6) {
            0 => {
                let k = c.rng.gen_range(0, b.len() + 1);
                b.truncate(k);
            }
            1 => {
                let n = c.rng.gen_range(0, 60);
                b = bytes(&mut c.rng, n);
            }
            2 => {
                // a huge length where a container starts
                let at = c.rng.gen_range(0, b.len());
                let t = *pick(&mut c.rng, &[0xddu8, 0xdf, 0xc6, 0xdb]);
                b.splice(at..at + 1, [t, 0x7f, 0xff, 0xff, 0xff].iter().copied());
            }
            3 => {
                let at = c.rng.gen_range(0, b.len());
                b.insert(at, *pick(&mut c.rng, &[0xc0, 0xc1, 0x80, 0x90, 0xa0, 0xff]));
            }
            _ => {
                for _ in 0..c.rng.gen_range(1, 4) {
                    let at = c.rng.gen_range(0, b.len());
                    b[at] = if c.rng.gen() { c.rng.gen() } else { b[at] ^ (1 << c.rng.gen_range(0, 8)) };
                }
            }
        }
        c.about(&format!("hostile {} {}", what, hex(&b[..b.len().min(1500)])));
        c.count("hostile decodes", 1);
        let d = || json!({"type": what, "bytes": hex(&b)});
        let r = match c.no_panic(&format!("decode hostile {}", what), d, || protocol::decode::<T>(&b)) {
            Some(r) => r,
            None => continue,
        };
        if let Ok(y) = r {
            c.count("hostile bytes decoded", 1);
            if let Some(e) = c.no_panic(&format!("encode decoded {}", what), d, || protocol::encode(&y)) {
                let z = c.no_panic(&format!("decode {}", what), d, || protocol::decode::<T>(&e));
                if let Some(z) = z {
                    let ok = match &z { Ok(z) => protocol::encode(z) == e, Err(_) => false };
                    c.check(ok, &format!("unstable after decoding:{}", what), d);
                }
            }
        }
    }
}

/// The recorded corpus: a line per value, "type seed hex". The value is rebuilt from the seed.
const RECORDED: &str = include_str!("../../data/recorded.txt");
const RECORDED_TYPES: [&str; 13] = ["keyreg", "pay", "acfg", "axfer", "afrz", "appl", "cert", "signed", "inblock", "header", "account", "payset", "upgrade"];

/// Encoding of the value with this seed and, given bytes, what they decode to encoded again.
fn recorded_value(what: &str, seed: u64, bytes: &[u8]) -> (Vec<u8>, Result<Vec<u8>, String>) {
    fn both<T: Serialize + for<'a> Deserialize<'a>>(x: T, bytes: &[u8]) -> (Vec<u8>, Result<Vec<u8>, String>) {
        (protocol::encode(&x), protocol::decode::<T>(bytes).map(|y| protocol::encode(&y)).map_err(|e| e.to_string()))
    }
    let mut r: R = rand::SeedableRng::seed_from_u64(seed);
    let r = &mut r;
    match RECORDED_TYPES.iter().position(|t| *t == what).expect("recorded type") {
        k @ 0..=6 => both(gen::tx_kind(r, k), bytes),
        7 => both(gen::signed(r), bytes),
        8 => both(gen::in_block(r), bytes),
        9 => both(gen::block_header(r), bytes),
        10 => both(gen::account_data(r), bytes),
        11 => both(Payset(gen::list(r, 3, gen::in_block)), bytes),
        _ => both(gen::upgrade_state(r), bytes),
    }
}

/// Prints a new corpus (run by hand when the generators change).
pub fn record() {
    for what in RECORDED_TYPES.iter() {
        for seed in 0..if *what == "account" || *what == "appl" { 12 } else { 8 } {
            println!("{} {} {}", what, seed, hex(&recorded_value(what, seed, &[]).0));
        }
    }
}

fn recorded(c: &mut Ctx) {
    for l in RECORDED.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let (what, seed, b) = (f[0], f[1].parse().unwrap(), (0..f[2].len() / 2).map(|i| u8::from_str_radix(&f[2][2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>());
        let d = || json!({"type": what, "seed": seed, "recorded": f[2]});
        c.about(&format!("recorded {} {}", what, seed));
        c.count("recorded encodings", 1);
        if let Some((e, back)) = c.no_panic("recorded encoding", d, || recorded_value(what, seed, &b)) {
            c.check(e == b, &format!("the same value now encodes differently:{}", what), || json!({"input": d(), "now": hex(&e)}));
            match back {
                Ok(x) => c.check(x == b, &format!("recorded encoding decodes to another value:{}", what), || json!({"input": d(), "now": hex(&x)})),
                Err(x) => c.check(false, &format!("recorded encoding refused:{}", what), || json!({"input": d(), "error": x})),
            };
        }
    }
}

/// A value of fixed length must be refused at any other length, as bytes or as a list of numbers.
fn fixed_length<T: Serialize + for<'a> Deserialize<'a>>(c: &mut Ctx, what: &'static str, len: usize) {
    for _ in 0..8 {
        let n = match c.rng.gen_range(0, 8) {
            0 => 0,
            1 => len + 256,
            2 => len * 2,
            3 => c.rng.gen_range(0, 130),
            4 => len,
            _ => (len + 4).saturating_sub(c.rng.gen_range(0, 9)),
        };
        let content = match c.rng.gen_range(0, 3) { 0 => vec![0; n], _ => bytes(&mut c.rng, n) };
        let list = c.rng.gen();
        let mut b = if list {
            match (n < 16, n) { (true, n) => vec![0x90 | n as u8], (_, n) => vec![0xdc, (n >> 8) as u8, n as u8] }
        } else {
            match (n < 256, n) { (true, n) => vec![0xc4, n as u8], (_, n) => vec![0xc5, (n >> 8) as u8, n as u8] }
        };
        for x in &content {
            if list && *x > 127 { b.push(0xcc) }
            b.push(*x);
        }
        let d = || json!({"type": what, "length": len, "bytes": hex(&b)});
        c.count("fixed-length decodes", 1);
        c.about(&format!("fixed length {} {}", what, n));
        if let Some(Ok(y)) = c.no_panic(&format!("decode hostile {}", what), d, || protocol::decode::<T>(&b)) {
            c.check(n == len, &format!("wrong length decoded:{}", what), d);
            c.count("fixed-length values decoded", 1);
            let mut e = protocol::encode(&y);
            if n == len && walk(&e, 0, 0) == Ok(e.len()) {
                // whichever form it encodes to, these are the bytes
                let form = e[0];
                let got: Vec<u8> = if form == 0xc4 {
                    e.drain(..2);
                    e
                } else if form == 0xdc {
                    let mut v = Vec::new();
                    let mut p = 3;
                    while p < e.len() {
                        if e[p] == 0xcc { p += 1 }
                        v.push(e[p]);
                        p += 1;
                    }
                    v
                } else {
                    continue;
                };
                c.check(got == content, &format!("decoded value differs:{}", what), d);
            }
        }
    }
}

pub fn c17(c: &mut Ctx) {
    c.rule = "random values of every encodable type: encode, walk the bytes independently, decode, compare, re-encode; every value against single-field edits of itself; truncated, mutated and random bytes".into();
    recorded(c);
    let n = c.n(6000, 200_000);
    let mut i = 0;
    let mut seen: HashMap<Vec<u8>, Transaction> = HashMap::new();
    while i < n && c.in_time(30, 480) {
        i += 1;
        let kind = (i % 7) as usize;
        let t = gen::tx_kind(&mut c.rng, kind);
        if let Some(b) = roundtrip(c, gen::KINDS[kind], &t, &|a, b| a == b) {
            let mut u = t.clone();
            let f = gen::edit_tx(&mut c.rng, &mut u);
            if u != t {
                differ(c, gen::KINDS[kind], f, &b, &protocol::encode(&u));
            }
            // no two different transactions of the whole run may collide
            if let Some(old) = seen.insert(b.clone(), t.clone()) {
                c.check(old == t, "collision", || json!({"encoding": hex(&b)}));
            }
            if seen.len() > 20_000 { seen.clear() }
            if i % 3 == 0 { hostile::<Transaction>(c, "tx", &b) }
            c.sample(json!({"kind": gen::KINDS[kind], "encoding": hex(&b)}));
        }
        match i % 8 {
            0 => fixed_length::<algorsand::data::basics::Address>(c, "address", 32),
            1 => fixed_length::<crypto::hashable::CryptoHash>(c, "digest", 32),
            2 => fixed_length::<crypto::Signature>(c, "signature", 64),
            3 => fixed_length::<ed25519_dalek::PublicKey>(c, "public key", 32),
            4 => fixed_length::<crypto::vrf::VrfOutput>(c, "VRF output", 64),
            5 => fixed_length::<crypto::vrf::VrfPublicKey>(c, "VRF key", 32),
            _ => {}
        }
        match i % 6 {
            0 => {
                let s = gen::signed(&mut c.rng);
                if let Some(b) = roundtrip(c, "signed tx", &s, &|a, b| a == b) {
                    let mut u = s.clone();
                    let f = match c.rng.gen_range(0, 4) {
                        0 => { u.sig = gen::sig(&mut c.rng); "sig" }
                        1 => { u.msig = if s.msig.is_some() { None } else { Some(gen::msig(&mut c.rng)) }; "msig" }
                        2 => { u.lsig = if s.lsig.is_some() { None } else { Some(gen::lsig(&mut c.rng)) }; "lsig" }
                        _ => { u.auth_addr.0[c.rng.gen_range(0, 32)] ^= 1; "auth_addr" }
                    };
                    if u != s { differ(c, "signed tx", f, &b, &protocol::encode(&u)) }
                    hostile::<SignedTx>(c, "signed tx", &b);
                }
            }
            1 => {
                let s = gen::in_block(&mut c.rng);
                if let Some(b) = roundtrip(c, "tx in block", &s, &|a, b| a == b) {
                    let mut u = s.clone();
                    let f = match c.rng.gen_range(0, 4) {
                        0 => { u.has_genesis_id = !u.has_genesis_id; "has_genesis_id" }
                        1 => { u.has_genesis_hash = !u.has_genesis_hash; "has_genesis_hash" }
                        2 => { u.tx.ad = gen::apply_data(&mut c.rng, 1); "apply data" }
                        _ => { u.tx.ad.closing_amount.0 ^= 1; "closing_amount" }
                    };
                    if u != s { differ(c, "tx in block", f, &b, &protocol::encode(&u)) }
                    hostile::<SignedTxInBlock>(c, "tx in block", &b);
                }
            }
            2 => {
                let h = gen::block_header(&mut c.rng);
                if let Some(b) = roundtrip(c, "block header", &h, &|_, _| true) {
                    for e in gen::block_header_edits() {
                        let mut u = h.clone();
                        (e.apply)(&mut c.rng, &mut u);
                        differ(c, "block header", e.field, &b, &protocol::encode(&u));
                    }
                    hostile::<BlockHeader>(c, "block header", &b);
                }
            }
            3 | 4 => {
                let a = gen::account_data(&mut c.rng);
                if let Some(b) = roundtrip(c, "account", &a, &|_, _| true) {
                    for e in gen::account_edits() {
                        let mut u = a.clone();
                        (e.apply)(&mut c.rng, &mut u);
                        differ(c, "account", e.field, &b, &protocol::encode(&u));
                    }
                    // rebuilding the maps in another order must not show
                    let mut u = a.clone();
                    u.assets = a.assets.iter().map(|(k, v)| (*k, v.clone())).collect::<Vec<_>>().into_iter().rev().collect();
                    u.app_params = a.app_params.iter().map(|(k, v)| (*k, v.clone())).collect();
                    u.asset_params = a.asset_params.iter().map(|(k, v)| (*k, v.clone())).collect();
                    u.app_local_states = a.app_local_states.iter().map(|(k, v)| (*k, v.clone())).collect();
                    c.count("rebuilt values", 1);
                    c.check(protocol::encode(&u) == b, "map order shows in the encoding", || json!({"encoding": hex(&b)}));
                    hostile::<AccountData>(c, "account", &b);
                }
            }
            _ => {
                let p = Payset(gen::list(&mut c.rng, 3, gen::in_block));
                if let Some(b) = roundtrip(c, "payset", &p, &|a, b| a.0 == b.0) {
                    let mut u = Payset(p.0.clone());
                    if u.0.len() > 1 { u.0.swap(0, 1) } else { u.0.push(gen::in_block(&mut c.rng)) }
                    if u.0 != p.0 { differ(c, "payset", "order or length", &b, &protocol::encode(&u)) }
                    hostile::<Payset>(c, "payset", &b);
                }
            }
        }
    }
    c.require("recorded encodings", 100);
    c.require("round trips block header", 100);
    c.require("round trips account", 100);
    c.require("round trips signed tx", 100);
    c.require("edited pairs", 5000);
    c.require("distinct edited fields", 90);
    c.require("hostile decodes", 1000);
    c.require("fixed-length values decoded", 200);
    c.require("hostile bytes decoded", 20);
}

fn verify(pk: &ed25519_dalek::PublicKey, t: &Transaction, s: &crypto::Signature) -> bool {
    use ed25519_dalek::Verifier;
    pk.verify(&[b"TX", &protocol::encode(t)[..]].concat(), s).is_ok()
}

pub fn c18(c: &mut Ctx) {
    c.rule = "random transactions of every kind and random headers; every field changed alone and checked against id, signature and block hash".into();
    let n = c.n(14_000, 100_000);
    let mut i = 0;
    while i < n && c.in_time(30, 480) {
        i += 1;
        let kind = (i % 7) as usize;
        let t = gen::tx_kind(&mut c.rng, kind);
        let kp = gen::keypair(&mut c.rng);
        let other = gen::keypair(&mut c.rng);
        let enc = hex(&protocol::encode(&t));
        c.about(&format!("commit {}", enc.chars().take(2000).collect::<String>()));
        let d = || json!({"kind": gen::KINDS[kind], "tx": enc});
        let r = c.no_panic("sign", d, || (t.id().0, t.sign(&kp)));
        let (id, stx) = match r {
            Some(x) => x,
            None => continue,
        };
        c.case(enc.as_bytes(), true);
        let want = refm::h256(&[b"TX", &protocol::encode(&t)]);
        c.check(id.0 == want, "id is not the prefixed hash of the encoding", d);
        c.check(stx.id().0 == id && stx.tx == t, "signed transaction carries another transaction", d);
        c.check(verify(&kp.public, &t, &stx.sig), "own signature refused", d);
        c.check(!verify(&other.public, &t, &stx.sig), "signature accepted for another key", d);
        let mut s2 = stx.sig.to_bytes();
        s2[c.rng.gen_range(0, 63)] ^= 1 << c.rng.gen_range(0, 8);
        c.check(!verify(&kp.public, &t, &crypto::Signature::new(s2)), "edited signature accepted", d);
        let auth = if t.header.sender.0 == kp.public.to_bytes() { [0; 32] } else { kp.public.to_bytes() };
        c.check(stx.auth_addr.0 == auth && stx.msig.is_none() && stx.lsig.is_none(), "signed transaction names another authorizer", d);
        let mut own = t.clone();
        own.header.sender.0 = kp.public.to_bytes();
        c.check(own.sign(&kp).auth_addr.is_zero(), "sender's own signature names an authorizer", d);
        c.count("signatures", 1);
        let he = gen::header_edits();
        for k in 0..he.len() + 15 {
            let mut u = t.clone();
            let f = if k < he.len() {
                (he[k].apply)(&mut c.rng, &mut u.header);
                he[k].field
            } else {
                gen::edit_fields(&mut c.rng, &mut u.fields, k - he.len())
            };
            if u == t {
                continue;
            }
            c.count("field edits", 1);
            c.state("edited fields", format!("{}.{}", gen::KINDS[kind], f).as_bytes());
            c.check(u.id().0 != id, &format!("same id:{}.{}", gen::KINDS[kind], f), d);
            if k % 6 == (i % 6) as usize {
                c.count("signature transplants", 1);
                c.check(!verify(&kp.public, &u, &stx.sig), &format!("signature survives edit:{}.{}", gen::KINDS[kind], f), d);
            }
        }
        // another kind altogether
        let mut u = t.clone();
        u.fields = gen::fields(&mut c.rng, (kind + 1 + (i % 6) as usize) % 7);
        if gen::kind_of(&u.fields) != gen::KINDS[kind] {
            c.check(u.id().0 != id, "same id for another kind", d);
        }
        // who has to sign
        let mut s = stx.clone();
        s.auth_addr.0 = [0; 32];
        c.check(s.authorizer() == t.header.sender, "authorizer without auth address", d);
        s.auth_addr = gen::addr(&mut c.rng);
        let w = if s.auth_addr.0 == [0; 32] { t.header.sender } else { s.auth_addr };
        c.check(s.authorizer() == w, "authorizer", d);
        s.tx.header.sender.0 = [0; 32];
        let w = if s.auth_addr.0 == [0; 32] { s.tx.header.sender } else { s.auth_addr };
        c.check(s.authorizer() == w, "authorizer of the zero address", d);

        // block hashes
        let h = gen::block_header(&mut c.rng);
        let b = Block { header: h.clone(), payset: Default::default() };
        let hd = || json!({"header": hex(&protocol::encode(&h))});
        if let Some(dg) = c.no_panic("digest", hd, || b.digest()) {
            c.count("block hashes", 1);
            c.check(dg.0 == refm::h256(&[b"BH", &protocol::encode(&h)]), "block hash is not the prefixed hash of the header", hd);
            for e in gen::block_header_edits() {
                let mut u = b.clone();
                (e.apply)(&mut c.rng, &mut u.header);
                c.count("header edits", 1);
                c.state("edited header fields", e.field.as_bytes());
                c.check(u.digest() != dg, &format!("same block hash:{}", e.field), hd);
            }
            let mut u = b.clone();
            u.payset.0.push(gen::in_block(&mut c.rng));
            c.check(u.digest() == dg, "hash depends on more than the header", hd);
        }
        let s = b.with_seed(algorsand::data::committee::Seed(arr32(&mut c.rng)));
        c.check(s.digest() != b.digest() && s.header.round == b.header.round, "with_seed", hd);

        // balance records
        let a = gen::account_data(&mut c.rng);
        let who = gen::addr(&mut c.rng);
        let rd = || json!({"account": hex(&protocol::encode(&a)), "address": hex(&who.0)});
        if let Some((tag, raw)) = c.no_panic("balance record", rd, || verif_balance_record_hash_input(who, a.clone())) {
            c.count("balance records", 1);
            c.check(tag == protocol::BALANCE_RECORD, "tag of a balance record", rd);
            c.check(verif_balance_record_hash_input(who, a.clone()).1 == raw, "hash input of a balance record changes", rd);
            for e in gen::account_edits() {
                let mut u = a.clone();
                (e.apply)(&mut c.rng, &mut u);
                c.count("balance record edits", 1);
                c.state("edited account fields", e.field.as_bytes());
                c.check(verif_balance_record_hash_input(who, u).1 != raw, &format!("same balance record:{}", e.field), rd);
            }
            let mut w2 = who;
            w2.0[c.rng.gen_range(0, 32)] ^= 1 << c.rng.gen_range(0, 8);
            c.check(verif_balance_record_hash_input(w2, a.clone()).1 != raw, "same balance record:address", rd);
        }
    }
    let _ = HashMap::<u8, Seen>::new();
    let _ = <Transaction as Hashable>::hash_rep;
    c.require("field edits", 10_000);
    c.require("distinct edited fields", 100);
    c.require("distinct edited header fields", 23);
    c.require("balance record edits", 10_000);
    c.require("distinct edited account fields", 16);
    c.require("signature transplants", 1000);
}
