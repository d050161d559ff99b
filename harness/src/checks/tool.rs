//! C29: the key tool, run as the real program in scratch directories.
use std::collections::HashSet;
use std::fs;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use algorsand::data::basics::Address;
use algorsand::data::transactions::{SignedTx, Transaction};
use algorsand::protocol;
use ed25519_dalek::Verifier;
use rand::Rng;
use serde_json::{json, Value};

use super::codec::RefMnemonic;
use super::gen;
use crate::core::*;
use crate::refm;

struct Out {
    code: i32,
    text: String,
    err: String,
}

struct Tool<'a> {
    exe: &'a Path,
    dir: &'a Path,
    log: Vec<Value>,
}

impl<'a> Tool<'a> {
    fn run(&mut self, umask: u32, args: &[&str]) -> Out {
        let mut cmd = Command::new(self.exe);
        cmd.args(args).current_dir(self.dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        unsafe {
            cmd.pre_exec(move || {
                libc::umask(umask as libc::mode_t);
                libc::alarm(60);
                Ok(())
            });
        }
        let o = cmd.output().unwrap();
        let out = Out { code: o.status.code().unwrap_or(-1), text: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() };
        self.log.push(json!({"run": args, "exit": out.code, "stderr": out.err.chars().take(200).collect::<String>()}));
        out
    }
}

fn mode(p: &Path) -> u32 {
    fs::metadata(p).map(|m| m.mode() & 0o777).unwrap_or(0)
}

fn public(seed: &[u8; 32]) -> ed25519_dalek::PublicKey {
    (&ed25519_dalek::SecretKey::from_bytes(seed).unwrap()).into()
}

/// The words of a text in order of appearance, so that the layout of the tool's output does not matter.
fn says(text: &str, want: &str) -> bool {
    let have: Vec<&str> = text.split_whitespace().collect();
    let want: Vec<&str> = want.split_whitespace().collect();
    have.windows(want.len()).any(|w| w == &want[..])
}

/// Contents and permissions of a file or nothing.
fn snap(p: &Path) -> Option<(Vec<u8>, u32)> {
    fs::read(p).ok().map(|b| (b, mode(p)))
}

/// Everything below a directory.
fn tree(p: &Path) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v = Vec::new();
    if let Ok(d) = fs::read_dir(p) {
        for e in d.flatten() {
            let q = e.path();
            if q.is_dir() {
                v.push((q.clone(), vec![]));
                v.extend(tree(&q));
            } else {
                v.push((q.clone(), fs::read(&q).unwrap_or_default()));
            }
        }
    }
    v.sort();
    v
}

/// Failing is reported, not a crash.
fn refused(c: &mut Ctx, o: &Out, what: &str, detail: impl Fn() -> Value) {
    c.check(o.code > 0, &format!("{} accepted", what), &detail);
    c.check(o.code != 101 && !o.err.contains("panicked at"), &format!("{}: crashed", what), &detail);
    c.check(!o.err.trim().is_empty() || !o.text.trim().is_empty(), &format!("{}: no error", what), &detail);
}

fn scramble(c: &mut Ctx, m: &RefMnemonic, seed: &[u8; 32]) -> String {
    let mut w = m.encode(seed);
    match c.rng.gen_range(0, 6) {
        0 => { w.pop(); }
        1 => w.push("abandon".into()),
        2 => { let i = c.rng.gen_range(0, w.len()); w[i] = "algorand".into() }
        3 => return String::new(),
        4 => { let i = c.rng.gen_range(0, w.len()); w[i] = w[i].to_uppercase() }
        _ => {
            let i = c.rng.gen_range(0, w.len());
            let k = c.rng.gen_range(0, 2048);
            w[i] = m.words[k].clone();
        }
    }
    if m.decode(&w).is_some() { String::from("abandon") } else { w.join(" ") }
}

/// What a successful command must have said and written about a key.
fn told(c: &mut Ctx, t: &Tool, m: &RefMnemonic, o: &Out, seed: &[u8; 32], sk: Option<&str>, pk: Option<&str>, what: &str) {
    let d = || json!({"history": t.log, "key": hex(seed), "said": o.text});
    let addr = refm::address_text(&public(seed).to_bytes());
    c.check(o.code == 0, &format!("{} failed", what), d);
    c.check(says(&o.text, &m.encode(seed).join(" ")), &format!("{}: mnemonic shown", what), d);
    c.check(says(&o.text, &addr), &format!("{}: public key shown", what), d);
    if let Some(f) = sk {
        let p = t.dir.join(f);
        c.check(fs::read(&p).ok().as_deref() == Some(&seed[..]), &format!("{}: key file", what), || json!({"at": d(), "file": fs::read(&p).ok().map(|b| hex(&b))}));
        c.check(mode(&p) & 0o077 == 0, &format!("{}: key file readable by others", what), || json!({"at": d(), "mode": format!("{:o}", mode(&p))}));
        c.count("key files compared", 1);
    }
    if let Some(f) = pk {
        let b = fs::read_to_string(t.dir.join(f)).unwrap_or_default();
        c.check(b.trim_end_matches('\n') == addr, &format!("{}: public key file", what), || json!({"at": d(), "file": b}));
        c.count("public key files compared", 1);
    }
}

/// All keys the tool generated.
#[derive(Default)]
struct Parts {
    words: HashSet<Vec<u8>>,
    keys: Vec<[u8; 32]>,
}

impl Parts {
    /// No byte, half byte or bit of random keys is always the same (less than one in 10^9 runs otherwise).
    fn judge(&self, c: &mut Ctx) {
        let n = self.keys.len();
        for (width, least) in &[(8, 7), (4, 14), (1, 48)] {
            if n < *least {
                continue;
            }
            for at in (0..256).step_by(*width) {
                let mask = ((1u16 << width) - 1) as u8;
                let part = |k: &[u8; 32]| k[at / 8] >> (at % 8) & mask;
                let same = self.keys.iter().all(|k| part(k) == part(&self.keys[0]));
                c.check(!same, "generated keys always have the same bits", || json!({"keys": n, "from bit": at, "bits": width, "are": part(&self.keys[0])}));
                c.count("parts of generated keys compared", 1);
            }
        }
    }
}

fn key_history(c: &mut Ctx, exe: &Path, dir: &Path, m: &RefMnemonic, parts: &mut Parts) {
    let mut t = Tool { exe, dir, log: Vec::new() };
    let names = ["a.key", "b.key", "c.key"];
    let pubs = ["a.pub", "b.pub"];
    let mut keys: std::collections::BTreeMap<&str, [u8; 32]> = Default::default();
    let mut seen: Vec<[u8; 32]> = Vec::new();
    let steps = c.rng.gen_range(3, 9);
    for _ in 0..steps {
        let umask = *pick(&mut c.rng, &[0o022, 0o022, 0, 0o077, 0o002]);
        let sk = *pick(&mut c.rng, &names);
        let pk = *pick(&mut c.rng, &pubs);
        let with_pk = c.rng.gen();
        let long = c.rng.gen();
        let (f, p, w) = if long { ("--keyfile", "--pubkeyfile", "--mnemonic") } else { ("-f", "-p", "-m") };
        // whatever is there already
        if c.rng.gen_range(0, 4) == 0 {
            let q = dir.join(sk);
            let n = c.rng.gen_range(0, 100);
            fs::write(&q, bytes(&mut c.rng, n)).unwrap();
            fs::set_permissions(&q, fs::Permissions::from_mode(*pick(&mut c.rng, &[0o644, 0o666, 0o600, 0o640]))).unwrap();
            keys.remove(sk);
            c.count("existing files", 1);
        }
        if c.rng.gen_range(0, 6) == 0 {
            fs::write(dir.join(pk), vec![b'x'; 200]).unwrap();
        }
        let before: Vec<_> = names.iter().chain(pubs.iter()).map(|n| snap(&dir.join(n))).collect();
        match c.rng.gen_range(0, 9) {
            0 | 1 => {
                let mut a = vec!["generate", f, sk];
                if with_pk { a.extend(&[p, pk]); }
                if c.rng.gen_range(0, 8) == 0 { a = vec!["generate", p, pk]; }
                let o = t.run(umask, &a);
                let d = || json!(t.log);
                if a.len() == 3 && a[1] == p {
                    c.check(o.code == 0, "generate without a key file", d);
                    continue;
                }
                match fs::read(dir.join(sk)) {
                    Ok(b) if b.len() == 32 => {
                        let mut k = [0; 32];
                        k.copy_from_slice(&b);
                        c.check(!seen.contains(&k) && k != [0; 32], "generated key known", d);
                        seen.push(k);
                        for w in k.chunks(8) {
                            let known = !parts.words.insert(w.to_vec());
                            c.check(!known, "generated key shares bytes with an earlier one", || json!({"at": d(), "key": hex(&k)}));
                        }
                        parts.keys.push(k);
                        keys.insert(sk, k);
                        told(c, &t, m, &o, &k, Some(sk), if with_pk { Some(pk) } else { None }, "generate");
                        c.count("keys generated", 1);
                    }
                    _ => { c.violation("generate: no key file", d()); }
                }
            }
            2 | 3 | 4 => {
                let k = arr32_biased(&mut c.rng);
                let words = m.encode(&k);
                let sep = *pick(&mut c.rng, &[" ", " ", "  ", "\n", "\t"]);
                let phrase = words.join(sep);
                let mut a = vec!["import", w, &phrase, f, sk];
                if with_pk { a.extend(&[p, pk]); }
                let o = t.run(umask, &a);
                keys.insert(sk, k);
                told(c, &t, m, &o, &k, Some(sk), if with_pk { Some(pk) } else { None }, "import");
                c.count("keys imported", 1);
            }
            5 | 6 => {
                let known: Vec<_> = keys.iter().map(|(n, k)| (*n, *k)).collect();
                if known.is_empty() { continue; }
                let (sk, k) = *pick(&mut c.rng, &known);
                let mut a = vec!["export", f, sk];
                if with_pk { a.extend(&[p, pk]); }
                let o = t.run(umask, &a);
                told(c, &t, m, &o, &k, None, if with_pk { Some(pk) } else { None }, "export");
                let i = names.iter().position(|n| *n == sk).unwrap();
                c.check(snap(&dir.join(sk)) == before[i], "export changed the key file", || json!(t.log));
                c.count("keys exported", 1);
            }
            7 => {
                // mnemonics that are none
                let k = arr32(&mut c.rng);
                let phrase = scramble(c, m, &k);
                let o = t.run(umask, &["import", w, &phrase, f, sk, p, pk]);
                let after: Vec<_> = names.iter().chain(pubs.iter()).map(|n| snap(&dir.join(n))).collect();
                let d = || json!({"history": t.log, "said": o.text});
                refused(c, &o, "wrong mnemonic", d);
                c.check(before == after, "wrong mnemonic: files changed", d);
                c.count("wrong mnemonics", 1);
            }
            _ => {
                // files that can not be read or written
                let dirname = "folder";
                let _ = fs::create_dir(dir.join(dirname));
                let n = c.rng.gen_range(0, 32);
                fs::write(dir.join("short"), bytes(&mut c.rng, n)).unwrap();
                let phrase = m.encode(&arr32(&mut c.rng)).join(" ");
                let known: Vec<_> = keys.keys().cloned().collect();
                let a: Vec<&str> = match c.rng.gen_range(0, 10) {
                    0 => vec!["export", f, "nothing", p, pk],
                    1 => vec!["export", f, dirname, p, pk],
                    2 => vec!["export", f, "short", p, pk],
                    3 => vec!["import", w, &phrase, f, dirname],
                    4 => vec!["import", w, &phrase, f, "nowhere/key"],
                    5 => vec!["generate", f, dirname],
                    6 => vec!["generate", f, "nowhere/key"],
                    7 => vec!["generate", f, "spare.key", p, *pick(&mut c.rng, &["nowhere/key", dirname, "/dev/full"])],
                    8 => vec!["import", w, &phrase, f, "spare.key", p, *pick(&mut c.rng, &["nowhere/key", dirname, "/dev/full"])],
                    _ if known.is_empty() => vec!["export", f, "nothing", p, pk],
                    _ => vec!["export", f, known[0], p, *pick(&mut c.rng, &["nowhere/key", dirname, "/dev/full"])],
                };
                let o = t.run(umask, &a);
                let after: Vec<_> = names.iter().chain(pubs.iter()).map(|n| snap(&dir.join(n))).collect();
                let d = || json!({"history": t.log, "said": o.text});
                refused(c, &o, "unusable file", d);
                c.check(before == after, "unusable file: files changed", d);
                c.count("unusable files", 1);
            }
        }
    }
    // every key is still what it was, and is the same key on every path
    for (n, k) in &keys {
        let o = t.run(0o022, &["export", "-f", n, "-p", "last.pub"]);
        told(c, &t, m, &o, k, None, Some("last.pub"), "export at the end");
    }
    c.case(json!(t.log).to_string().as_bytes(), true);
    c.sample(json!(t.log.iter().take(2).collect::<Vec<_>>()));
}

/// Splits concatenated encodings.
fn split<T: serde::de::DeserializeOwned>(raw: &[u8]) -> Option<Vec<T>> {
    let mut rest = raw;
    let mut v = Vec::new();
    while !rest.is_empty() {
        v.push(rmp_serde::decode::from_read(&mut rest).ok()?);
    }
    Some(v)
}

fn sign_case(c: &mut Ctx, exe: &Path, dir: &Path, m: &RefMnemonic) {
    let mut t = Tool { exe, dir, log: Vec::new() };
    let seed = arr32_biased(&mut c.rng);
    let pk = public(&seed);
    let me = Address(pk.to_bytes());
    let n = *pick(&mut c.rng, &[0, 1, 1, 2, 3, 5, 9]);
    let mut txs: Vec<Transaction> = (0..n).map(|_| gen::tx(&mut c.rng)).collect();
    for x in txs.iter_mut() {
        if c.rng.gen() {
            x.header.sender = me;
        }
    }
    if n > 1 && c.rng.gen_range(0, 3) == 0 {
        txs[n - 1] = txs[0].clone();
    }
    let encs: Vec<Vec<u8>> = txs.iter().map(protocol::encode).collect();
    let mut raw: Vec<u8> = encs.concat();
    fs::write(dir.join("key"), &seed).unwrap();
    let phrase = m.encode(&seed).join(" ");
    let by_phrase = c.rng.gen();
    let long = c.rng.gen();
    let mut a: Vec<&str> = match (by_phrase, long) {
        (true, true) => vec!["sign", "--mnemonic", &phrase],
        (true, false) => vec!["sign", "-m", &phrase],
        (false, true) => vec!["sign", "--keyfile", "key"],
        (false, false) => vec!["sign", "-f", "key"],
    };
    let mut tx_file = "txs";
    let mut out_file = if c.rng.gen_range(0, 6) == 0 { "txs" } else { "signed" };
    let wrong = if c.rng.gen_range(0, 2) == 0 { 0 } else { c.rng.gen_range(1, 10) };
    let bad;
    match wrong {
        1 if raw.len() > 1 => {
            // cut inside the last transaction
            let last = encs[n - 1].len();
            let cut = raw.len() - c.rng.gen_range(1, last);
            raw.truncate(cut);
        }
        2 => raw.push(0xc1),
        3 => raw.extend_from_slice(&[0x93, 1, 2]),
        4 => a.extend([if by_phrase { ["-f", "key"] } else { ["-m", phrase.as_str()] }].concat()),
        5 => a.truncate(1),
        6 => {
            bad = scramble(c, m, &seed);
            a = vec!["sign", "-m", &bad];
        }
        7 => {
            let k = c.rng.gen_range(0, 32);
            fs::write(dir.join("key"), &seed[..k]).unwrap();
            a = vec!["sign", "-f", "key"];
        }
        8 => tx_file = "missing",
        9 => out_file = *pick(&mut c.rng, &["nowhere/signed", "/dev/full"]),
        _ => {}
    }
    let wrong = if wrong == 1 && n == 0 { 0 } else { wrong };
    // nothing to write is nothing that can fail
    let wrong = if wrong == 9 && n == 0 && out_file == "/dev/full" { return } else { wrong };
    fs::write(dir.join("txs"), &raw).unwrap();
    let had = match c.rng.gen_range(0, 3) {
        0 => { let _ = fs::remove_file(dir.join("signed")); None }
        1 => Some(vec![7; 5000]),
        _ => Some(b"short".to_vec()),
    };
    if let Some(b) = &had {
        fs::write(dir.join("signed"), b).unwrap();
    }
    a.extend(if long { ["--txfile", tx_file, "--outfile", out_file] } else { ["-t", tx_file, "-o", out_file] });
    let o = t.run(0o022, &a);
    let d = || json!({"history": t.log, "key": hex(&seed), "transactions": txs.iter().map(gen_kind).collect::<Vec<_>>(), "wrong": wrong});
    c.case(&raw, n > 0);
    if wrong != 0 {
        refused(c, &o, "wrong input", d);
        c.check(fs::read(dir.join("txs")).ok() == Some(raw), "wrong input: transactions changed", d);
        c.check(fs::read(dir.join("signed")).ok() == had, "wrong input: output written", d);
        c.count("refused to sign", 1);
        return;
    }
    if !c.check(o.code == 0, "signing failed", d) {
        return;
    }
    if out_file != "txs" {
        c.check(fs::read(dir.join("txs")).ok() == Some(raw), "transactions changed", d);
    } else {
        c.count("signed in place", 1);
    }
    let out = fs::read(dir.join(out_file)).unwrap_or_default();
    let got: Vec<SignedTx> = match split(&out) {
        Some(v) => v,
        None => { c.violation("output can not be read", d()); return }
    };
    c.check(got.len() == n, "number of signed transactions", || json!({"at": d(), "got": got.len(), "want": n}));
    for (i, (s, e)) in got.iter().zip(&encs).enumerate() {
        let d = || json!({"at": d(), "index": i});
        c.check(&protocol::encode(&s.tx) == e, "signed transaction differs", d);
        let msg = [b"TX", &e[..]].concat();
        c.check(pk.verify(&msg, &s.sig).is_ok(), "signature invalid", d);
        c.check(s.auth_addr == if txs[i].header.sender == me { Address::default() } else { me }, "authorizing address", d);
        c.check(s.msig.is_none() && s.lsig.is_none(), "other signatures", d);
        c.count(if s.auth_addr.is_zero() { "signed for the sender" } else { "signed for another" }, 1);
    }
    // nothing but the plain encodings of those
    c.check(out == got.iter().flat_map(|s| protocol::encode(s)).collect::<Vec<u8>>(), "output encoding", d);
    c.count(if n == 0 { "empty files signed" } else if n == 1 { "single transactions signed" } else { "files of several signed" }, 1);
}

fn gen_kind(t: &Transaction) -> &'static str {
    gen::kind_of(&t.fields)
}

#[derive(Clone, PartialEq, Debug)]
struct Part {
    parent: [u8; 32],
    first: u64,
    last: u64,
    dilution: u64,
    vrf: String,
    voting: String,
    /// first batch and offset still held
    at: (u64, u64),
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn field(text: &str, label: &str) -> Option<String> {
    text.lines().find(|l| l.to_lowercase().starts_with(label)).and_then(|l| l.split(':').nth(1)).map(|s| s.trim().to_string())
}

fn part_said(text: &str) -> Option<(String, Vec<u64>, String, String)> {
    let n = |l: &str| field(text, l)?.parse::<u64>().ok();
    Some((field(text, "parent")?, vec![n("first valid")?, n("last valid")?, n("key dilution")?, n("first batch")?, n("first offset")?], field(text, "vrf")?, field(text, "voting")?))
}

fn part_history(c: &mut Ctx, exe: &Path, dir: &Path, wide: bool) {
    let mut wide_done = false;
    let mut t = Tool { exe, dir, log: Vec::new() };
    let mut stores: std::collections::BTreeMap<String, Part> = Default::default();
    let names = ["one", "two.db", "sub/three"];
    let steps = c.rng.gen_range(5, 14);
    for _ in 0..steps {
        let name = pick(&mut c.rng, &names).to_string();
        let long = c.rng.gen();
        let kf = if long { "--keyfile" } else { "-k" };
        let umask = *pick(&mut c.rng, &[0o022, 0]);
        let a = if c.rng.gen_range(0, 6) == 0 { [0; 32] } else { arr32(&mut c.rng) };
        let addr = refm::address_text(&a);
        let before = tree(dir);
        let shown = |c: &mut Ctx, t: &Tool, o: &Out, p: &Part, what: &str| {
            let d = || json!({"history": t.log, "said": o.text, "want": format!("{:?}", p)});
            c.check(o.code == 0, &format!("{} failed", what), d);
            let said = part_said(&o.text);
            let want = Some((refm::address_text(&p.parent), vec![p.first, p.last, p.dilution, p.at.0, p.at.1], p.vrf.clone(), p.voting.clone()));
            c.check(said == want, &format!("{}: keys shown", what), d);
        };
        let what = if !stores.contains_key(&name) && c.rng.gen() { 0 } else { c.rng.gen_range(0, 11) };
        match what {
            8 if stores.contains_key(&name) => {
                // a node has used the keys for a while
                let p = stores.get_mut(&name).unwrap();
                if p.dilution > 5000 { continue }
                let to = p.first + c.rng.gen_range(0, (p.last - p.first).min(3 * p.dilution) + 2);
                let o = Command::new(std::env::current_exe().unwrap()).args(["--sub", "c29-use", &name, &to.to_string()]).current_dir(dir).output().unwrap();
                match serde_json::from_slice::<(u64, u64)>(&o.stdout) {
                    Ok(at) => p.at = at,
                    Err(_) => { c.violation("keys not usable", json!({"history": t.log, "stderr": String::from_utf8_lossy(&o.stderr)})); return }
                }
                let p = p.clone();
                let o = t.run(umask, &["part", "info", kf, &name]);
                shown(c, &t, &o, &p, "part info after use");
                c.count("stores used", 1);
            }
            0 | 1 if !stores.contains_key(&name) => {
                let first = if c.rng.gen_range(0, 3) == 0 { u64_biased(&mut c.rng) >> c.rng.gen_range(1, 40) } else { c.rng.gen_range(0, 1000) };
                let mut last = first + c.rng.gen_range(0, 400);
                let mut dil = if c.rng.gen_range(0, 3) == 0 { None } else { Some(c.rng.gen_range(1, 60)) };
                if wide && !wide_done {
                    wide_done = true;
                    // very many rounds, about a square of them
                    let root = c.rng.gen_range(4097u64, 4700);
                    last = first + root * root + c.rng.gen_range(0, 3) - 1;
                    dil = None;
                    c.count("wide ranges", 1);
                }
                let parent = c.rng.gen_range(0, 4) != 0;
                let (fs_, ls, ds) = (first.to_string(), last.to_string(), dil.unwrap_or(0).to_string());
                let mut args = vec!["part", "generate", kf, &name, if long { "--first" } else { "-f" }, &fs_, if long { "--last" } else { "-l" }, &ls];
                if dil.is_some() || c.rng.gen_range(0, 4) == 0 { args.extend(&[if long { "--dilution" } else { "-d" }, &ds]); }
                if parent { args.extend(&[if long { "--parent" } else { "-p" }, &addr]); }
                let o = t.run(umask, &args);
                // by default about the square root of the number of rounds
                let mut root = 0u64;
                while (root + 1) * (root + 1) <= last - first { root += 1; }
                let (vrf, voting) = (field(&o.text, "vrf").unwrap_or_default(), field(&o.text, "voting").unwrap_or_default());
                let dilution = dil.unwrap_or(1 + root);
                let p = Part { parent: if parent { a } else { [0; 32] }, first, last, dilution, vrf, voting, at: (first / dilution, 0) };
                shown(c, &t, &o, &p, "part generate");
                let d = || json!(t.log);
                c.check(stores.values().all(|q| q.vrf != p.vrf && q.voting != p.voting), "part generate: keys known", d);
                c.check(mode(&dir.join(&name)) & 0o077 == 0, "participation keys readable by others", d);
                stores.insert(name.clone(), p);
                c.count("participation keys generated", 1);
            }
            2 => {
                // no such interval, dilution or parent
                let mut bad = refm::address_text(&arr32(&mut c.rng)).into_bytes();
                let i = c.rng.gen_range(0, bad.len());
                bad[i] = if bad[i] == b'A' { b'B' } else { b'A' };
                let mut bad = String::from_utf8(bad).unwrap();
                if c.rng.gen_range(0, 3) == 0 {
                    bad = match c.rng.gen_range(0, 5) { 0 => format!(" {}", addr), 1 => format!("{}\n", addr), 2 => addr.to_lowercase(), 3 => format!("{}=", addr), _ => addr[..57].into() };
                }
                let args: Vec<&str> = match c.rng.gen_range(0, 5) {
                    0 => vec!["part", "generate", kf, &name, "-f", "100", "-l", "99", "-p", &addr],
                    1 => vec!["part", "generate", kf, &name, "-f", "100", "-l", "200", "-p", &bad],
                    2 => vec!["part", "generate", kf, &name, "-f", "-1", "-l", "200", "-p", &addr],
                    3 => vec!["part", "reparent", kf, &name, "-p", &bad],
                    _ => vec!["part", "generate", kf, &name, "-f", "7", "-l", "5", "-d", "3"],
                };
                let o = t.run(umask, &args);
                let d = || json!(t.log);
                refused(c, &o, "wrong participation keys", d);
                if !before.iter().any(|x| x.0.starts_with(dir.join(&name))) {
                    c.check(!dir.join(&name).exists(), "wrong participation keys: store made", d);
                }
                c.count("wrong participation keys", 1);
            }
            3 | 4 | 9 | 10 if stores.contains_key(&name) => {
                let o = t.run(umask, &["part", "reparent", kf, &name, if long { "--parent" } else { "-p" }, &addr]);
                let p = stores.get_mut(&name).unwrap();
                p.parent = a;
                let p = p.clone();
                shown(c, &t, &o, &p, "part reparent");
                c.count("reparented", 1);
            }
            k => {
                let o = t.run(umask, &["part", "info", kf, &name]);
                match stores.get(&name).cloned() {
                    Some(p) => { shown(c, &t, &o, &p, "part info"); c.count("shown again", 1); }
                    None => {
                        let d = || json!(t.log);
                        refused(c, &o, "keys out of nothing", d);
                        if k > 5 {
                            let o = t.run(umask, &["part", "reparent", kf, &name, "-p", &addr]);
                            let d = || json!(t.log);
                            refused(c, &o, "parent of nothing", d);
                        }
                        let d = || json!(t.log);
                        c.check(tree(dir) == before, "store made by looking for it", d);
                        c.count("missing stores", 1);
                    }
                }
            }
        }
    }
    for (name, p) in &stores {
        let o = t.run(0o022, &["part", "info", "-k", name]);
        let d = || json!({"history": t.log, "store": name, "said": o.text, "want": format!("{:?}", p)});
        let want = Some((refm::address_text(&p.parent), vec![p.first, p.last, p.dilution, p.at.0, p.at.1], p.vrf.clone(), p.voting.clone()));
        c.check(part_said(&o.text) == want, "keys at the end", d);
        // and what is stored are usable keys for just those rounds
        let v = super::keys::restored_from(&dir.join(name), &dir.join("look"));
        let d = || json!({"at": d(), "stored": v.to_string().chars().take(600).collect::<String>()});
        let got = &v[1];
        c.check(got["parent"] == json!(hex(&p.parent)) && got["first"] == json!(p.first) && got["last"] == json!(p.last) && got["dilution"] == json!(p.dilution), "stored keys", d);
        if let Ok(o) = protocol::decode::<algorsand::crypto::OTSSecrets>(&unhex(got["voting"].as_str().unwrap_or(""))) {
            c.check(data_encoding::BASE64.encode(&o.verifier.to_bytes()) == p.voting, "stored voting keys", d);
            let batches: Vec<u64> = o.verif_held_secrets().iter().map(|x| x.0).collect();
            c.check(p.at != (p.first / p.dilution, 0) || batches == (p.first / p.dilution..=p.last / p.dilution).collect::<Vec<_>>(), "rounds covered by the stored keys", || json!({"at": d(), "batches": batches}));
        } else {
            c.violation("stored voting keys can not be read", d());
        }
        match protocol::decode::<algorsand::crypto::VrfKeypair>(&unhex(got["vrf"].as_str().unwrap_or(""))) {
            Ok(k) => { c.check(k.public().to_string() == p.vrf, "stored selection keys", d); }
            Err(_) => c.violation("stored selection keys can not be read", d()),
        }
        c.count("stores compared", 1);
    }
    c.case(json!(t.log).to_string().as_bytes(), !stores.is_empty());
}

/// Deletes old keys from a store.
pub fn sub_use(args: &[String]) -> i32 {
    use algorsand::data::account;
    account::use_key_store(&args[0]);
    let mut p = match account::Participation::restore() { Ok(p) => p, Err(e) => { eprintln!("{:?}", e); return 1 } };
    if let Err(e) = p.delete_old_keys(algorsand::data::basics::Round(args[1].parse().unwrap()), &Default::default()) {
        eprintln!("{:?}", e);
        return 1;
    }
    println!("{}", json!([p.voting.first_batch, p.voting.first_offset]));
    0
}

pub fn c29(c: &mut Ctx) {
    c.rule = "random command histories of the real program over a few key files, transaction files and participation key stores, with existing files, odd umasks, wrong mnemonics, damaged and unusable files".into();
    let exe = PathBuf::from(std::env::var("VH_ALGOKEY").unwrap_or_else(|_| verif_dir().join("target/algokey/debug/algokey").to_string_lossy().into_owned()));
    if !exe.exists() {
        c.require("the program", 1);
        return;
    }
    let m = RefMnemonic::load();
    let here = std::env::current_dir().unwrap();
    let mut parts = Parts::default();
    let n = c.n(700, 20_000);
    let mut i = 0;
    while i < n && c.in_time(20, 480) {
        i += 1;
        c.about(&format!("history {}", i));
        let dir = make_scratch(&here, "tool");
        match i % 4 {
            0 => part_history(c, &exe, &dir, i % 100 == 4),
            1 => key_history(c, &exe, &dir, &m, &mut parts),
            _ => for _ in 0..4 { sign_case(c, &exe, &dir, &m) },
        }
        fs::remove_dir_all(&dir).unwrap();
    }
    parts.judge(c);
    c.require("keys generated", 20);
    c.require("keys imported", 20);
    c.require("keys exported", 20);
    c.require("existing files", 10);
    c.require("wrong mnemonics", 10);
    c.require("unusable files", 5);
    c.require("refused to sign", 50);
    c.require("signed for the sender", 50);
    c.require("signed for another", 50);
    c.require("files of several signed", 30);
    c.require("participation keys generated", 10);
    c.require("reparented", 5);
    c.require("shown again", 5);
    c.require("stores used", 5);
    c.require("stores compared", 10);
}
