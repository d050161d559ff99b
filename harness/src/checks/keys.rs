//! C27 persistence of keys, C28 the account manager.
use crate::core::*;
use crate::shim;
use algorsand::config::ConsensusParams;
use algorsand::crypto::{self, Hashable, OTSIdentifier};
use algorsand::data::account::{Participation, Root};
use algorsand::data::account_manager::VerifAccountManager;
use algorsand::data::basics::{Address, Round};
use algorsand::data::bookkeeping::{BlockHeader, CompactCertState};
use algorsand::protocol;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;

// ---- records ----------------------------------------------------------------------

/// What a participation is, in full (secrets included).
fn record(p: &Participation) -> Value {
    json!({"parent": hex(&p.parent.0), "vrf": hex(&protocol::encode(&p.vrf)), "voting": hex(&protocol::encode(&p.voting.snapshot())),
        "first": p.first_valid.0, "last": p.last_valid.0, "dilution": p.key_dilution})
}

fn root_record(r: &Root) -> Value {
    json!({"key": hex(&r.kp.to_bytes()), "address": hex(&r.address().0)})
}

fn restored() -> Value {
    let part = match Participation::restore() {
        Ok(p) => record(&p),
        Err(algorsand::data::account::Error::NotFound) => Value::Null,
        Err(e) => json!(format!("error: {:?}", e)),
    };
    let root = match Root::restore() {
        Ok(r) => root_record(&r),
        Err(algorsand::data::account::Error::NotFound) => Value::Null,
        Err(e) => json!(format!("error: {:?}", e)),
    };
    json!([root, part])
}

struct Msg(u64);
impl Hashable for Msg {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::VOTE, self.0.to_le_bytes().to_vec())
    }
}

fn signs(p: &Participation, round: u64) -> bool {
    let id = Round(round).ots_id(p.key_dilution);
    p.voting.sign(&id, &Msg(round)).verify(&id, &Msg(round), &p.voting.verifier)
}

// ---- the driven process -------------------------------------------------------------

/// Performs a random history in the current directory, journalling the store; every step is bracketed by marks.
pub fn sub_drive(args: &[String]) -> i32 {
    let seed: u64 = args[0].parse().unwrap();
    let fail: u64 = args[2].parse().unwrap();
    let here = std::env::current_dir().unwrap();
    let mut r = R::seed_from_u64(seed);
    shim::start(here.join("keystore.db").to_str().unwrap(), &args[1]);
    shim::fail_from(fail);
    let mut proto = ConsensusParams::default();
    proto.default_key_dilution = 5;
    let mut held: Vec<Participation> = Vec::new();
    let mut root: Value = Value::Null;
    let mut stored: Value = Value::Null;
    let steps = r.gen_range(3, 8);
    for i in 0..steps {
        let mut kind = if i == 0 { *pick(&mut r, &[0, 0, 1]) } else { r.gen_range(0, 7) };
        if held.is_empty() && kind > 1 {
            kind = 0;
        }
        shim::mark(json!({"begin": i, "kind": kind}).to_string().as_bytes());
        let result: Result<(), String> = match kind {
            0 => {
                let f = r.gen_range(0, 40);
                let wide = *pick(&mut r, &[3, 30, 200]);
                let l = f + r.gen_range(0, wide);
                // keys of a huge dilution are only stored, never expanded
                let d = if r.gen_range(0, 8) == 0 { *pick(&mut r, &[1u64 << 8, 1 << 32, (1 << 32) + 7, 1 << 40, u64::MAX]) } else { r.gen_range(1, 12) };
                match Participation::fill_db_with_participation_keys(Address(arr32(&mut r)), Round(f), Round(l), d) {
                    Ok(p) => { stored = record(&p); held.push(p); Ok(()) }
                    Err(e) => Err(format!("{:?}", e)),
                }
            }
            1 => {
                let x = if r.gen() { Root::generate() } else { Root::verif_import(arr32(&mut r)) };
                match x { Ok(x) => { root = root_record(&x); Ok(()) } Err(e) => Err(format!("{:?}", e)) }
            }
            2 => {
                // save one of the held ones again
                let k = r.gen_range(0, held.len());
                let p = &held[k];
                p.persist().map(|()| stored = record(p)).map_err(|e| format!("{:?}", e))
            }
            3 => {
                let p = held.last_mut().unwrap();
                p.parent = Address(arr32(&mut r));
                // names a new parent for whatever is stored
                p.persist_new_parent().map(|()| { if !stored.is_null() { stored["parent"] = json!(hex(&p.parent.0)) } }).map_err(|e| format!("{:?}", e))
            }
            _ => {
                let k = if r.gen_range(0, 3) == 0 { r.gen_range(0, held.len()) } else { held.len() - 1 };
                let p = &mut held[k];
                if p.key_dilution > 1000 {
                    p.persist().map(|()| stored = record(p)).map_err(|e| format!("{:?}", e))
                } else {
                let to = Round(p.first_valid.0 + r.gen_range(0, p.last_valid.0 - p.first_valid.0 + 3));
                p.delete_old_keys(to, &proto).map(|()| stored = record(p)).map_err(|e| format!("{:?}", e))
                }
            }
        };
        let m = match result {
            Ok(()) => json!({"end": i, "state": [root, stored]}),
            Err(e) => json!({"failed": i, "error": e}),
        };
        shim::mark(m.to_string().as_bytes());
        if m.get("failed").is_some() {
            break;
        }
    }
    // leave the way a killed process does
    unsafe { libc::_exit(0) }
}

pub fn sub_restore(_args: &[String]) -> i32 {
    let v = guard(restored);
    fs::write("restored.json", match v { Ok(v) => v.to_string(), Err(e) => json!({"panic": e}).to_string() }).unwrap();
    unsafe { libc::_exit(0) }
}

/// Writes the given entries with sled itself. Restoring is left to another process: the engine's
/// threads may hold on to the files for a while after the store is dropped.
pub fn sub_entries(args: &[String]) -> i32 {
    let es: BTreeMap<String, Value> = serde_json::from_str(&fs::read_to_string(&args[0]).unwrap()).unwrap();
    {
        let db = sled::open("keystore.db").unwrap();
        for (k, v) in &es {
            if let Some(h) = v.as_str() {
                db.insert(k.as_bytes(), (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>()).unwrap();
            }
        }
        db.flush().unwrap();
    }
    unsafe { libc::_exit(0) }
}

// ---- crash images ---------------------------------------------------------------------

type Files = BTreeMap<String, Vec<u8>>;

fn apply(f: &mut Files, op: &shim::Op, torn: Option<usize>) {
    match op.kind {
        shim::WRITE => {
            let d = &op.data[..torn.unwrap_or(op.data.len()).min(op.data.len())];
            let b = f.entry(op.path.clone()).or_default();
            let end = op.off as usize + d.len();
            if b.len() < end {
                b.resize(end, 0);
            }
            b[op.off as usize..end].copy_from_slice(d);
        }
        shim::TRUNCATE => f.entry(op.path.clone()).or_default().resize(op.off as usize, 0),
        shim::RENAME => {
            if let Some(b) = f.remove(&op.path) {
                f.insert(String::from_utf8_lossy(&op.data).into_owned(), b);
            }
        }
        shim::UNLINK => {
            f.remove(&op.path);
        }
        _ => {}
    }
}

fn write_image(dir: &Path, f: &Files) {
    let db = dir.join("keystore.db");
    let _ = fs::remove_dir_all(&db);
    fs::create_dir_all(&db).unwrap();
    for (p, b) in f {
        let p = db.join(p);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, b).unwrap();
    }
}

fn run_sub(dir: &Path, args: &[&str]) -> std::process::ExitStatus {
    let err = fs::File::create(dir.join("stderr")).unwrap();
    Command::new(std::env::current_exe().unwrap()).arg("--sub").args(args).current_dir(dir).stdout(std::process::Stdio::null()).stderr(err).status().unwrap()
}

fn run_sub_for(dir: &Path, args: &[&str], ms: u64) -> Option<std::process::ExitStatus> {
    let err = fs::File::create(dir.join("stderr")).unwrap();
    let mut kid = Command::new(std::env::current_exe().unwrap()).arg("--sub").args(args).current_dir(dir).stdout(std::process::Stdio::null()).stderr(err).spawn().unwrap();
    for _ in 0..ms / 5 {
        if let Ok(Some(st)) = kid.try_wait() {
            return Some(st);
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    let _ = kid.kill();
    let _ = kid.wait();
    None
}

fn restore_in(dir: &Path) -> Value {
    let _ = fs::remove_file(dir.join("restored.json"));
    let st = run_sub(dir, &["c27-restore"]);
    match fs::read_to_string(dir.join("restored.json")) {
        Ok(s) if st.success() => serde_json::from_str(&s).unwrap(),
        _ => json!({"died": format!("{:?}", st), "stderr": fs::read_to_string(dir.join("stderr")).unwrap_or_default().chars().take(500).collect::<String>()}),
    }
}

/// What restoring from a copy of a store gives.
pub fn restored_from(store: &Path, look: &Path) -> Value {
    let _ = fs::remove_dir_all(look);
    fs::create_dir_all(look).unwrap();
    let ok = Command::new("cp").arg("-r").arg(store).arg(look.join("keystore.db")).status().map_or(false, |s| s.success());
    let v = if ok { restore_in(look) } else { json!(["no store", "no store"]) };
    let _ = fs::remove_dir_all(look);
    v
}

fn brief(v: &Value) -> Value {
    let mut s = v.to_string();
    if s.len() > 600 {
        s = format!("{}... ({} characters, fnv {:x})", &s[..600], s.len(), fnv(s.as_bytes()));
    }
    json!(s)
}

fn crash_case(c: &mut Ctx, dir: &Path, seed: u64, images: usize) {
    let jf = dir.join("ops.journal");
    let db = dir.join("keystore.db");
    let _ = fs::remove_dir_all(&db);
    let st = run_sub(dir, &["c27-drive", &seed.to_string(), jf.to_str().unwrap(), &u64::MAX.to_string()]);
    let ops = shim::read_journal(&fs::read(&jf).unwrap_or_default());
    if !st.success() {
        c.violation("storing keys failed", json!({"seed": seed, "status": format!("{:?}", st), "stderr": fs::read_to_string(dir.join("stderr")).unwrap_or_default().chars().take(600).collect::<String>()}));
        return;
    }
    // steps and the states they lead to
    let none = json!([Value::Null, Value::Null]);
    let mut marks: Vec<(usize, Value)> = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        if op.kind == shim::MARK {
            marks.push((k, serde_json::from_slice(&op.data).unwrap()));
        }
    }
    if let Some((_, m)) = marks.iter().find(|(_, m)| m.get("failed").is_some()) {
        c.violation("storing keys refused", json!({"seed": seed, "mark": m}));
        return;
    }
    let allowed = |k: usize| -> (Value, Option<Value>, u64) {
        let mut done = none.clone();
        let mut n = 0;
        let mut next = None;
        for (at, m) in &marks {
            if *at < k {
                if let Some(s) = m.get("state") {
                    done = s.clone();
                    n += 1;
                    next = None;
                } else {
                    next = Some(n);
                }
            }
        }
        let next = next.map(|n| marks.iter().filter_map(|(_, m)| m.get("state")).nth(n).unwrap().clone());
        (done, next, n as u64)
    };
    let kinds: Vec<u64> = marks.iter().filter_map(|(_, m)| m.get("kind").and_then(|x| x.as_u64())).collect();
    c.count("histories", 1);
    c.count("store operations", ops.iter().filter(|o| o.kind != shim::MARK).count() as u64);
    for k in &kinds {
        c.count(["keys created", "roots created", "keys saved again", "parents changed"].get(*k as usize).copied().unwrap_or("key deletions"), 1);
    }
    // crash points: every one if few, otherwise a random choice that keeps those next to marks
    let mut points: Vec<usize> = (0..=ops.len()).collect();
    if points.len() > images {
        let near: Vec<usize> = points.iter().cloned().filter(|k| *k > 0 && (ops.get(*k).map_or(true, |o| o.kind == shim::MARK) || ops[*k - 1].kind == shim::MARK)).collect();
        let mut v: Vec<usize> = Vec::new();
        while v.len() < images {
            v.push(if c.rng.gen() { *pick(&mut c.rng, &near) } else { c.rng.gen_range(0, ops.len() + 1) });
        }
        v.sort();
        v.dedup();
        points = v;
    }
    let mut seen = std::collections::HashSet::new();
    for k in points {
        let (done, next, steps) = allowed(k);
        // 0: the process is killed; 1: and the write in flight is cut; 2: power fails and what was not synced may be lost
        for mode in 0..3 {
            let mut f = Files::new();
            if mode < 2 {
                for op in &ops[..k] {
                    apply(&mut f, op, None);
                }
                if mode == 1 {
                    match ops.get(k) {
                        Some(op) if op.kind == shim::WRITE && op.data.len() > 1 => {
                            let n = c.rng.gen_range(1, op.data.len());
                            apply(&mut f, op, Some(n))
                        }
                        _ => continue,
                    }
                }
            } else {
                // last sync of each file before the crash
                let mut synced: HashMap<&str, usize> = HashMap::new();
                for (i, op) in ops[..k].iter().enumerate() {
                    if op.kind == shim::SYNC {
                        synced.insert(&op.path, i);
                    }
                }
                let keep = *pick(&mut c.rng, &[0, 0, 50, 90]);
                for (i, op) in ops[..k].iter().enumerate() {
                    let name = if op.kind == shim::RENAME || op.kind == shim::UNLINK { None } else { Some(op.path.as_str()) };
                    // the storage engine never syncs its own parameter file, written once when the store is created
                    let durable = name.map_or(true, |n| n == "conf" || synced.get(n).map_or(false, |s| *s > i) || renamed_later(&ops[i..k], n));
                    if durable || c.rng.gen_range(0, 100) < keep {
                        apply(&mut f, op, None);
                    }
                }
            }
            let img = f.iter().fold(k as u64, |h, (n, b)| h.wrapping_mul(31).wrapping_add(fnv(n.as_bytes()) ^ fnv(b)));
            if !seen.insert((img, mode == 2)) {
                continue;
            }
            c.case(format!("{} {} {} {}", seed, k, mode, img).as_bytes(), true);
            write_image(dir, &f);
            let got = restore_in(dir);
            // nothing was reported as stored yet: a store that cannot be opened holds nothing either
            let unborn = done == none && got.as_array().map_or(false, |a| a.iter().all(|x| x.as_str().map_or(false, |s| s.starts_with("error: StorageError"))));
            if unborn { c.count("unfinished new stores", 1) }
            let ok = unborn || got == done || next.as_ref() == Some(&got);
            let which = marks.iter().filter_map(|(_, m)| m.get("state")).position(|s| *s == got);
            let name = ["restored after a kill", "restored after a cut write", "restored after a power failure"][mode];
            c.count(name, 1);
            if ok && !unborn {
                c.count(if next.as_ref() == Some(&got) && got != done { "step in flight complete" } else if next.is_some() { "step in flight undone" } else { "between steps" }, 1);
                if got[1].is_null() { c.count("nothing restorable", 1) }
            }
            c.check(ok, name, || json!({"seed": seed, "crash before operation": k, "operations": ops.len(), "step in flight": next.is_some(), "got the state after step": which, "steps completed": steps, "got": brief(&got), "last completed": brief(&done), "being made": next.as_ref().map(brief)}));
        }
    }
}

/// Snapshots are written under a temporary name, synced and renamed.
fn renamed_later(ops: &[shim::Op], name: &str) -> bool {
    ops.iter().any(|o| o.kind == shim::RENAME && o.path == name)
}

fn failing_case(c: &mut Ctx, dir: &Path, seed: u64) {
    let jf = dir.join("ops.journal");
    let db = dir.join("keystore.db");
    let _ = fs::remove_dir_all(&db);
    let st = run_sub(dir, &["c27-drive", &seed.to_string(), jf.to_str().unwrap(), &u64::MAX.to_string()]);
    let total = shim::read_journal(&fs::read(&jf).unwrap_or_default()).iter().filter(|o| o.kind != shim::MARK).count() as u64;
    if !st.success() || total == 0 {
        return;
    }
    for _ in 0..3 {
        let k = c.rng.gen_range(0, total + 1);
        let _ = fs::remove_dir_all(&db);
        // the storage engine may wait forever for its failed writes
        if run_sub_for(dir, &["c27-drive", &seed.to_string(), jf.to_str().unwrap(), &k.to_string()], 1500).is_none() {
            c.count("stores that never answered a failure", 1);
        }
        let ops = shim::read_journal(&fs::read(&jf).unwrap_or_default());
        let marks: Vec<Value> = ops.iter().filter(|o| o.kind == shim::MARK).map(|o| serde_json::from_slice(&o.data).unwrap()).collect();
        let done = marks.iter().filter_map(|m| m.get("state")).last().cloned().unwrap_or(json!([null, null]));
        let got = restore_in(dir);
        c.case(format!("fail {} {}", seed, k).as_bytes(), true);
        c.count("failing stores", 1);
        if marks.iter().any(|m| m.get("failed").is_some()) { c.count("reported failures", 1) }
        // whatever was reported as done is there; the step that failed or was cut short may or may not be, but only as a whole
        let whole = |i: usize| got[i] == done[i] || got[i].is_null() == false && got[i].is_object();
        let finished = marks.last().map_or(true, |m| m.get("state").is_some());
        let unborn = marks.iter().all(|m| m.get("state").is_none()) && got.is_array() && got[0].is_string();
        let ok = unborn || got.is_array() && if finished { got == done } else { whole(0) && whole(1) };
        c.check(ok, "restored after storage failed", || json!({"seed": seed, "failing from": k, "got": brief(&got), "last reported": brief(&done), "last mark": marks.last().map(brief)}));
    }
}

fn malformed_case(c: &mut Ctx, dir: &Path) {
    let mut es: BTreeMap<String, Value> = BTreeMap::new();
    let mut p = Participation {
        parent: Address(arr32(&mut c.rng)), vrf: crypto::VrfKeypair::from_seed(arr32(&mut c.rng)), voting: crypto::OTSSecrets::generate(1, 3),
        first_valid: Round(u64_biased(&mut c.rng)), last_valid: Round(u64_biased(&mut c.rng)), key_dilution: u64_biased(&mut c.rng),
    };
    if c.rng.gen() {
        p.voting.delete_before(OTSIdentifier { batch: 1, offset: 2 }, 5);
    }
    let good: Vec<(&str, Vec<u8>)> = vec![
        ("part-parent", p.parent.0.to_vec()), ("part-vrf", protocol::encode(&p.vrf)), ("part-voting", protocol::encode(&p.voting.snapshot())),
        ("part-first_valid", p.first_valid.0.to_be_bytes().to_vec()), ("part-last_valid", p.last_valid.0.to_be_bytes().to_vec()), ("part-key_dilution", p.key_dilution.to_be_bytes().to_vec()),
    ];
    for (k, v) in &good {
        es.insert((*k).to_owned(), json!(hex(v)));
    }
    let how = c.rng.gen_range(0, 4);
    let k = good[c.rng.gen_range(0, good.len())].0;
    let mut cut = false;
    match how {
        0 => {}
        1 => { es.remove(k); }
        2 => { es.clear(); }
        _ => {
            let b = &good.iter().find(|x| x.0 == k).unwrap().1;
            let n = match c.rng.gen_range(0, 3) { 0 => 0, 1 => b.len() - 1, _ => c.rng.gen_range(0, b.len()) };
            es.insert(k.to_owned(), json!(hex(&b[..n])));
            cut = true;
        }
    }
    let d = || json!({"how": (["intact", "an entry missing", "all missing", "an entry cut"][how]), "entry": k, "entries": es.keys().collect::<Vec<_>>()});
    c.case(json!([es]).to_string().as_bytes(), true);
    let ef = dir.join("entries.json");
    fs::write(&ef, serde_json::to_string(&es).unwrap()).unwrap();
    let _ = fs::remove_dir_all(dir.join("keystore.db"));
    let _ = fs::remove_file(dir.join("restored.json"));
    let st = run_sub(dir, &["c27-entries", ef.to_str().unwrap()]);
    let got = if st.success() { restore_in(dir) } else { json!({"died": format!("{:?}", st)}) };
    c.count("stores with given entries", 1);
    match how {
        0 => { c.check(got == json!([null, record(&p)]), "intact entries restored", || json!({"at": d(), "got": brief(&got)})); }
        1 | 2 => { c.check(got == json!([null, null]), "missing entries", || json!({"at": d(), "got": brief(&got)})); }
        _ => { c.check(!cut || got[1].as_str().map_or(false, |s| s.starts_with("error")), "malformed entries", || json!({"at": d(), "got": brief(&got)})); }
    }
}

fn unusable_case(c: &mut Ctx, dir: &Path) {
    let db = dir.join("keystore.db");
    let _ = fs::remove_dir_all(&db);
    fs::write(&db, "not a directory").unwrap();
    let got = restore_in(dir);
    c.check(got[0].is_string() && got[1].is_string(), "unusable store", || brief(&got));
    fs::remove_file(&db).unwrap();
    // held by another process
    let mut kid = Command::new(std::env::current_exe().unwrap()).args(["--sub", "c27-hold"]).current_dir(dir).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    {
        use std::io::Read;
        let mut b = [0; 1];
        let _ = kid.stdout.as_mut().unwrap().read_exact(&mut b);
    }
    let got = restore_in(dir);
    c.check(got[0].is_string() && got[1].is_string(), "store in use elsewhere", || brief(&got));
    drop(kid.stdin.take());
    let _ = kid.wait();
    c.count("unusable stores", 2);
}

pub fn sub_hold() -> i32 {
    use std::io::{Read, Write};
    let _db = sled::open("keystore.db").unwrap();
    std::io::stdout().write_all(b"x").unwrap();
    std::io::stdout().flush().unwrap();
    let mut b = Vec::new();
    let _ = std::io::stdin().read_to_end(&mut b);
    unsafe { libc::_exit(0) }
}

pub fn c27(c: &mut Ctx) {
    c.rule = "random histories of creating, saving, reparenting and deleting keys in a process of its own whose file operations are journalled; at crash points among them the store is rebuilt as a kill, a cut write or a power failure would leave it and restored by a fresh process; storage failures injected; stores with missing and malformed entries".into();
    c.assumptions.push("a power failure keeps the storage engine's own parameter file, which it never syncs, and the order of renames; a crash while the store is first created may leave it unusable, but nothing was stored then".into());
    let dir = std::env::current_dir().unwrap().join("k");
    fs::create_dir(&dir).unwrap();
    // parameters of key creation
    let zero = Participation::fill_db_with_participation_keys;
    let r = c.no_panic("zero dilution", || json!(null), || zero(Address([1; 32]), Round(1), Round(9), 0).is_err());
    c.check(r == Some(true), "keys without dilution accepted", || json!(null));
    let r = c.no_panic("empty interval", || json!(null), || zero(Address([1; 32]), Round(9), Round(8), 3).is_err());
    c.check(r == Some(true), "keys for an empty interval accepted", || json!(null));
    for _ in 0..c.n(60, 600) {
        let f = c.rng.gen_range(0, 1000);
        let l = f + c.rng.gen_range(0, 100);
        let dil = c.rng.gen_range(1, 20);
        let who = Address(arr32(&mut c.rng));
        let d = || json!({"first": f, "last": l, "dilution": dil});
        if let Some(Ok(p)) = c.no_panic("create", d, || zero(who, Round(f), Round(l), dil)) {
            let all = (f..=l).all(|x| signs(&p, x));
            c.check(all && p.parent == who && p.valid_interval() == (Round(f), Round(l)) && p.key_dilution == dil, "created keys", d);
            c.check(!signs(&p, (l / dil + 1) * dil) && (f / dil == 0 || !signs(&p, f / dil * dil - 1)), "keys beyond the interval", d);
            let back = Participation::restore().ok().map(|p| record(&p));
            c.check(back == Some(record(&p)), "restored at once", d);
            let t = p.generate_registration_transaction(algorsand::data::basics::MicroAlgos(f), Round(l), Round(l + 9), arr32(&mut c.rng));
            let ok = match &t.fields {
                algorsand::data::transactions::TxFields::Keyreg(k) => k.vote_pk == p.voting.verifier && k.selection_pk.verif_bytes() == p.vrf.public().verif_bytes() && k.vote_first == p.first_valid && k.vote_last == p.last_valid && k.vote_key_dilution == dil && !k.nonparticipation,
                _ => false,
            };
            c.check(ok && t.header.sender == who && t.header.fee.0 == f && t.header.first_valid == Round(l) && t.header.last_valid == Round(l + 9), "registration of keys", d);
            c.count("keys checked at once", 1);
        } else {
            c.violation("keys not created", d());
        }
    }
    let n = c.n(48, 4000);
    let images = if c.quick() { 14 } else { 60 };
    let mut i = 0;
    while i < n && c.in_time(40, 500) {
        i += 1;
        let seed = c.rng.gen();
        c.about(&format!("crash {}", seed));
        crash_case(c, &dir, seed, images);
        c.about(&format!("fail {}", seed));
        if i % 2 == 0 {
            failing_case(c, &dir, seed);
        }
        c.about("entries");
        malformed_case(c, &dir);
        malformed_case(c, &dir);
        if i % 8 == 0 {
            unusable_case(c, &dir);
        }
    }
    c.require("histories", 20);
    c.require("store operations", 200);
    c.require("keys created", 10);
    c.require("key deletions", 10);
    c.require("roots created", 5);
    c.require("parents changed", 5);
    c.require("restored after a kill", 150);
    c.require("restored after a power failure", 100);
    c.require("step in flight undone", 20);
    c.require("step in flight complete", 5);
    c.require("between steps", 100);
    c.require("stores with given entries", 40);
    c.require("failing stores", 20);
    let _ = PathBuf::new();
}

// ---- C28 ------------------------------------------------------------------------------

struct K {
    parent: Address,
    first: u64,
    last: u64,
    dilution: u64,
    verifier: [u8; 32],
    vrf: [u8; 32],
    /// batches the keys were made for
    batch0: u64,
    batches: u64,
    /// first identifier still needed, if any keys were ever deleted
    at: Option<(u64, u64)>,
}

impl K {
    fn held(&self, dil: u64) -> Vec<(u64, Option<u64>)> {
        let mut v = Vec::new();
        let all = self.batch0..self.batch0 + self.batches;
        if let Some((b, o)) = self.at {
            if all.contains(&b) {
                v.extend((o..dil).map(|o| (b, Some(o))));
            }
            v.extend(all.filter(|x| *x > b).map(|x| (x, None)));
        } else {
            v.extend(all.map(|x| (x, None)));
        }
        v
    }
}

fn manager_case(c: &mut Ctx, people: &[Address]) {
    let mut m = VerifAccountManager::default();
    let mut model: Vec<K> = Vec::new();
    let mut proto = ConsensusParams::default();
    proto.default_key_dilution = c.rng.gen_range(1, 9);
    let dd = proto.default_key_dilution;
    let span = c.rng.gen_range(10, 120);
    // rounds of a young chain, or of one that grew old
    let base = if c.rng.gen_range(0, 4) == 0 { *pick(&mut c.rng, &[200u64, 65_500, (1 << 32) - 60, (1 << 32) + 7, 1 << 40, (1 << 53) + 1]) } else { 0 };
    let versions: Vec<protocol::ConsensusVersion> = crate::refm::params::ALL.iter().map(|x| x.1).chain(super::bookkeeping::DEPRECATED.iter().cloned()).collect();
    let mut history: Vec<Value> = Vec::new();
    // many keys for the same rounds
    let crowd = c.rng.gen_range(0, 25) == 0;
    let steps = if crowd { c.rng.gen_range(12, 40) } else { c.rng.gen_range(3, 14) };
    for step in 0..steps {
        match if step == 0 || (crowd && step + 3 < steps) { 0 } else { c.rng.gen_range(0, 5) } {
            0 | 1 => {
                let first = base + if crowd { c.rng.gen_range(0, 9) } else { c.rng.gen_range(0, span) };
                let last = if crowd { base + span } else { 0 }.max( first + match c.rng.gen_range(0, 3) { 0 => 0, 1 => c.rng.gen_range(0, 5), _ => c.rng.gen_range(0, span) });
                let dilution = if c.rng.gen_range(0, 3) == 0 { 0 } else { c.rng.gen_range(1, 12) };
                let dil = if dilution == 0 { dd } else { dilution };
                let batch0 = first / dil;
                let batches = last / dil - batch0 + 1;
                let mut p = Participation { parent: *pick(&mut c.rng, people), vrf: crypto::VrfKeypair::from_seed(arr32(&mut c.rng)), voting: crypto::OTSSecrets::generate(batch0, batches), first_valid: Round(first), last_valid: Round(last), key_dilution: dilution };
                let dup = !model.is_empty() && c.rng.gen_range(0, 4) == 0;
                let mut origin = None;
                if dup {
                    // the very same keys, or the same in all but one respect
                    let k = &model[c.rng.gen_range(0, model.len())];
                    let (kp, kf, kl, kv, kvrf) = (k.parent, k.first, k.last, k.verifier, k.vrf);
                    let state = (k.batch0, k.batches, k.at);
                    if let Some(q) = m.keys(Round(kf)).into_iter().find(|q| q.parent == kp && q.first_valid.0 == kf && q.last_valid.0 == kl && q.voting.verifier.to_bytes() == kv && q.vrf.public().verif_bytes() == kvrf) {
                        origin = Some(state);
                        p = Participation { parent: q.parent, vrf: protocol::decode(&protocol::encode(&q.vrf)).unwrap(), voting: protocol::decode(&protocol::encode(&q.voting.snapshot())).unwrap(), first_valid: q.first_valid, last_valid: q.last_valid, key_dilution: q.key_dilution };
                        match c.rng.gen_range(0, 7) {
                            0 => p.parent = *pick(&mut c.rng, people),
                            1 => p.last_valid = Round(p.last_valid.0 + 1),
                            2 if p.first_valid.0 > 0 => p.first_valid = Round(p.first_valid.0 - 1),
                            3 => p.vrf = crypto::VrfKeypair::from_seed(arr32(&mut c.rng)),
                            4 => {
                                p.voting = crypto::OTSSecrets::generate(state.0, state.1);
                                origin = Some((state.0, state.1, None));
                            }
                            _ => {}
                        }
                    }
                }
                let vrf = p.vrf.public().verif_bytes();
                let held = p.voting.verif_held_secrets();
                let new = K { parent: p.parent, first: p.first_valid.0, last: p.last_valid.0, dilution: p.key_dilution, verifier: p.voting.verifier.to_bytes(), vrf,
                    batch0, batches, at: None };
                let known = model.iter().any(|k| k.parent == new.parent && k.first == new.first && k.last == new.last && k.verifier == new.verifier && k.vrf == new.vrf);
                history.push(json!({"add": hex(&new.parent.0[..4]), "first": new.first, "last": new.last, "dilution": new.dilution, "known": known}));
                // a copy carries the deletions made before it was taken
                let d = || json!(history);
                if let Some(added) = c.no_panic("add", d, || m.add_participation(p)) {
                    c.check(added == !known, "added or not", d);
                    c.count(if known { "known keys added again" } else { "keys added" }, 1);
                    if !known {
                        let mut new = new;
                        if let Some((b, n, at)) = origin {
                            new.batch0 = b;
                            new.batches = n;
                            new.at = at;
                        }
                        let dil = if new.dilution == 0 { dd } else { new.dilution };
                        let got: Vec<(u64, Option<u64>)> = held.iter().map(|x| (x.0, x.1)).collect();
                        c.check(got == new.held(dil), "keys held when added", d);
                        model.push(new);
                    }
                }
            }
            2 | 3 => {
                let round = base + c.rng.gen_range(0, span * 2 + 3);
                let mut h = BlockHeader::default();
                h.round = Round(round);
                h.upgrade_state.current_protocol = *pick(&mut c.rng, &versions);
                let rounds = algorsand::config::CONSENSUS.0.get(&h.upgrade_state.current_protocol).map_or(0, |p| p.compact_cert_rounds);
                let cc = match c.rng.gen_range(0, 4) { 0 => None, 1 => Some(0), _ => Some(base + c.rng.gen_range(0, span * 2)) };
                if let Some(x) = cc {
                    h.compact_certs.insert(protocol::CompactCertType::Basic, CompactCertState { compactcert_voters: crypto::hashable::CryptoHash([0; 32]), compactcert_voters_total: algorsand::data::basics::MicroAlgos(0), compactcert_next_round: Round(x) });
                }
                let mut sigs = HashMap::new();
                for a in people {
                    match c.rng.gen_range(0, 4) {
                        0 => {}
                        1 => { sigs.insert(*a, Round(cc.unwrap_or(5))); }
                        2 => { sigs.insert(*a, Round(cc.unwrap_or(5) + 1)); }
                        _ => { sigs.insert(*a, Round(base + c.rng.gen_range(0, span * 2))); }
                    }
                }
                history.push(json!({"delete at": round, "protocol": h.upgrade_state.current_protocol.to_string(), "next certificate": cc, "signed": sigs.iter().map(|(a, r)| json!([hex(&a.0[..4]), r.0])).collect::<Vec<_>>()}));
                for k in model.iter_mut() {
                    let mut next = round + 1;
                    if let Some(x) = cc {
                        if x > 0 {
                            let mut n = x + 1;
                            let signed = sigs.get(&k.parent).map_or(0, |r| r.0);
                            if signed >= n {
                                n = signed + rounds + 1;
                                c.count("certificates already signed", 1);
                            }
                            if n < next {
                                next = n;
                                c.count("kept for a certificate", 1);
                            }
                        }
                    }
                    let dil = if k.dilution == 0 { dd } else { k.dilution };
                    let id = (next / dil, next % dil);
                    if id.0 >= k.batch0 && k.at.map_or(true, |a| id > a) {
                        k.at = Some(id);
                    }
                }
                let d = || json!(history);
                c.no_panic("delete", d, || m.delete_old_keys(h, sigs, proto.clone()));
                c.count("deletions", 1);
            }
            _ => {
                let f = base + c.rng.gen_range(0, span * 2);
                let l = f + c.rng.gen_range(0, 20);
                let d = || json!({"from": f, "to": l, "history": history});
                if let Some(g) = c.no_panic("live", d, || m.has_live_keys(Round(f), Round(l))) {
                    let w = model.iter().any(|k| (f..=l).any(|x| k.first <= x && x <= k.last));
                    c.check(g == w, "live keys", d);
                    c.count(if w { "live" } else { "not live" }, 1);
                }
            }
        }
        // who may vote in a round, and with what
        let mut rounds: Vec<u64> = (0..3).map(|_| base + c.rng.gen_range(0, span * 2 + 3)).collect();
        for k in &model {
            rounds.extend_from_slice(&[k.first, k.first.saturating_sub(1), k.last, k.last + 1]);
        }
        rounds.sort();
        rounds.dedup();
        for r in rounds {
            let d = || json!({"round": r, "history": history});
            let ks = match c.no_panic("keys", d, || m.keys(Round(r))) { Some(k) => k, None => continue };
            let ident = |p: &Participation| (p.parent, p.first_valid.0, p.last_valid.0, p.key_dilution, p.voting.verifier.to_bytes(), p.vrf.public().verif_bytes());
            let mut got: Vec<_> = ks.iter().map(|p| ident(p)).collect();
            let mut want: Vec<_> = model.iter().filter(|k| k.first <= r && r <= k.last).map(|k| (k.parent, k.first, k.last, k.dilution, k.verifier, k.vrf)).collect();
            got.sort_by(|a, b| (a.0 .0, a.1, a.2, a.4, a.5).cmp(&(b.0 .0, b.1, b.2, b.4, b.5)));
            want.sort_by(|a, b| (a.0 .0, a.1, a.2, a.4, a.5).cmp(&(b.0 .0, b.1, b.2, b.4, b.5)));
            if want.len() > 8 { c.count("rounds with more than eight keys", 1) }
            c.check(got == want, "keys for a round", || json!({"at": d(), "got": got.len(), "want": want.len()}));
            c.count(if want.is_empty() { "rounds without keys" } else if want.len() == 1 { "rounds with one key" } else { "rounds with several keys" }, 1);
            for p in ks {
                if let Some(k) = model.iter().find(|k| ident(p) == (k.parent, k.first, k.last, k.dilution, k.verifier, k.vrf)) {
                    let dil = if k.dilution == 0 { dd } else { k.dilution };
                    let got: Vec<(u64, Option<u64>)> = p.voting.verif_held_secrets().iter().map(|x| (x.0, x.1)).collect();
                    let want = k.held(dil);
                    c.check(got == want, "secrets held", || json!({"at": d(), "first": k.first, "last": k.last, "dilution": dil, "deleted before": k.at, "got": got.iter().take(8).collect::<Vec<_>>(), "want": want.iter().take(8).collect::<Vec<_>>()}));
                    // and what signing makes of it
                    let id = Round(r).ots_id(dil);
                    let ok = p.voting.sign(&id, &Msg(r)).verify(&id, &Msg(r), &p.voting.verifier);
                    let can = id.batch >= k.batch0 && id.batch < k.batch0 + k.batches && k.at.map_or(true, |a| (id.batch, id.offset) >= a);
                    c.check(ok == can, "signing for a round", || json!({"at": d(), "signs": ok}));
                    c.count(if can { "rounds signed for" } else { "rounds no longer signed for" }, 1);
                }
            }
        }
    }
    c.case(json!(history).to_string().as_bytes(), true);
    c.sample(json!(history.iter().take(3).collect::<Vec<_>>()));
    // whatever is stored is one of the keys, whole
    if c.rng.gen_range(0, 4) == 0 && history.iter().any(|h| h.get("delete at").is_some()) && !model.is_empty() {
        let last_delete = history.iter().rposition(|h| h.get("delete at").is_some()).unwrap();
        let there = history[..last_delete].iter().any(|h| h.get("add").is_some());
        if there {
            let d = || json!(history);
            if let Some(Ok(p)) = c.no_panic("restore", d, Participation::restore) {
                let k = model.iter().find(|k| k.parent == p.parent && k.first == p.first_valid.0 && k.last == p.last_valid.0 && k.verifier == p.voting.verifier.to_bytes() && k.vrf == p.vrf.public().verif_bytes() && k.dilution == p.key_dilution);
                c.check(k.is_some(), "stored keys are a mix", d);
                if let Some(k) = k {
                    let dil = if k.dilution == 0 { dd } else { k.dilution };
                    let got: Vec<(u64, Option<u64>)> = p.voting.verif_held_secrets().iter().map(|x| (x.0, x.1)).collect();
                    c.check(got == k.held(dil), "stored keys hold deleted secrets", d);
                }
                c.count("stored keys compared", 1);
            } else {
                c.violation("nothing stored after deletion", d());
            }
        }
    }
}

pub fn c28(c: &mut Ctx) {
    c.rule = "random histories of adding keys (with repetitions and near repetitions) and deleting old ones under varying headers, certificate rounds and protocols, in lock step with a model of intervals and deletion".into();
    let people: Vec<Address> = (0..4).map(|_| Address(arr32(&mut c.rng))).collect();
    let n = c.n(2000, 100_000);
    let mut i = 0;
    while i < n && c.in_time(25, 480) {
        i += 1;
        c.about(&format!("manager {}", i));
        let k = 1 + c.rng.gen_range(0, 4);
        manager_case(c, &people[..k]);
    }
    c.require("deletions", 500);
    c.require("keys added", 500);
    c.require("known keys added again", 50);
    c.require("kept for a certificate", 100);
    c.require("certificates already signed", 100);
    c.require("rounds with several keys", 500);
    c.require("rounds with more than eight keys", 100);
    c.require("rounds without keys", 500);
    c.require("rounds signed for", 500);
    c.require("rounds no longer signed for", 500);
    c.require("live", 100);
    c.require("not live", 50);
    c.require("stored keys compared", 50);
}
