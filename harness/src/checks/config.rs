//! C30 configuration files, C34 key file names.
use super::gen;
use crate::core::*;
use crate::refm::{local::DEFAULTS, params};
use algorsand::config::verif_keyfile as kf;
use algorsand::config::*;
use algorsand::data::basics::Round;
use algorsand::protocol::ConsensusVersion as CV;
use rand::Rng;
use serde_json::{json, Map, Value};
use std::fs;
use std::path::{Path, PathBuf};

// ---- C34 --------------------------------------------------------------------------

fn account_name(r: &mut R) -> String {
    let parts = ["", "a", "Wallet", "x", ".", "..", "partkey", "rootkey", ".partkey", ".rootkey", "1", "0", "00", "+1", "-1", "18446744073709551615", "18446744073709551616", "é", "日本", " ", ".1.2.partkey", ".0.3000000.partkey", "%", "\\", "*"];
    let mut s = String::new();
    for _ in 0..r.gen_range(0, 6) {
        if r.gen_range(0, 3) == 0 {
            s.push('.');
        }
        s.push_str(*pick(r, &parts));
    }
    s
}

fn ref_number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) || (s.len() > 1 && s.starts_with('0')) {
        return None;
    }
    s.parse().ok()
}

/// account and range of a partial key's file name
fn ref_part(f: &str) -> Option<(&str, u64, u64)> {
    let rest = f.strip_suffix(".partkey")?;
    let i = rest.rfind('.')?;
    let last = ref_number(&rest[i + 1..])?;
    let rest = &rest[..i];
    let i = rest.rfind('.')?;
    let first = ref_number(&rest[i + 1..])?;
    if first > last {
        return None;
    }
    Some((&rest[..i], first, last))
}

pub fn c34(c: &mut Ctx) {
    c.rule = "account names made of dots, digits, suffixes and other hostile pieces, with boundary round ranges; file names made of the same pieces and altered key file names, judged by an independent parser".into();
    let n = c.n(200_000, 10_000_000);
    let mut i = 0;
    while i < n && c.in_time(10, 300) {
        i += 1;
        let a = account_name(&mut c.rng);
        let b = account_name(&mut c.rng);
        let (mut f, mut l) = (u64_biased(&mut c.rng), u64_biased(&mut c.rng));
        if f > l {
            std::mem::swap(&mut f, &mut l);
        }
        let d = || json!({"account": a, "other": b, "first": f, "last": l});
        c.case(d().to_string().as_bytes(), true);
        if i % 64 == 0 {
            c.about(&d().to_string());
        }
        let ok = c.no_panic("names", d, || {
            let p = kf::part_key_filename(&a, Round(f), Round(l));
            let r = kf::root_key_filename(&a);
            (p, r)
        });
        let (p, r) = match ok { Some(x) => x, None => continue };
        c.check(p == format!("{}.{}.{}.partkey", a, f, l) && r == format!("{}.rootkey", a), "composed names", d);
        // names of both kinds and foreign names
        let mut names = vec![p.clone(), r.clone(), a.clone(), format!("{}.{}.partkey", a, l), format!("{}.{}.{}.partkey", a, l, f), format!("{}.0{}.{}.partkey", a, f, l), format!("{}.{}.{}", a, f, l), format!("{}.{}.{}.rootkey", a, f, l)];
        let mut e = p.clone().into_bytes();
        let k = c.rng.gen_range(0, e.len());
        e[k] = *pick(&mut c.rng, b".0129akpx+ -");
        names.push(String::from_utf8_lossy(&e).into_owned());
        let mut e = r.clone();
        e.push_str(*pick(&mut c.rng, &[".", "x", ".rootkey", ".partkey", " "]));
        names.push(e);
        names.push(p.to_uppercase());
        for x in &names {
            let rp = ref_part(x);
            let rr = x.strip_suffix(".rootkey");
            let d = || json!({"file": x, "account": a, "other": b});
            let got = c.no_panic("recognition", d, || {
                (kf::is_part_key_filename(x), kf::is_root_key_filename(x), kf::account_name_from_part_key_filename(x), kf::account_name_from_root_key_filename(x), kf::verif_part_valid_interval(x),
                 kf::matches_part_key_filename(&a, x), kf::matches_part_key_filename(&b, x), kf::matches_root_key_filename(&a, x), kf::matches_root_key_filename(&b, x))
            });
            if let Some((ip, ir, np, nr, range, ma, mb, ra, rb)) = got {
                c.check(ip == rp.is_some(), "recognised as a partial key", d);
                c.check(ir == rr.is_some(), "recognised as a root key", d);
                c.check(np == rp.map_or(x.as_str(), |y| y.0), "account of a partial key", d);
                c.check(nr == rr.unwrap_or(x), "account of a root key", d);
                if let Some((_, f, l)) = rp {
                    c.check(range == Some((Round(f), Round(l))), "range of a partial key", d);
                }
                c.check(ma == rp.map_or(false, |y| y.0 == a) && mb == rp.map_or(false, |y| y.0 == b), "partial key of an account", d);
                c.check(ra == (rr == Some(a.as_str())) && rb == (rr == Some(b.as_str())), "root key of an account", d);
                c.count(if rp.is_some() { "partial key names" } else if rr.is_some() { "root key names" } else { "foreign names" }, 1);
                if rp.map_or(false, |y| ref_part(y.0).is_some()) { c.count("nested key names", 1) }
            }
        }
        c.sample(json!(p));
    }
    c.require("partial key names", 50_000);
    c.require("root key names", 50_000);
    c.require("foreign names", 50_000);
    c.require("nested key names", 1000);
}

// ---- C30 --------------------------------------------------------------------------

fn default_value(name: &str) -> Value {
    serde_json::from_str(DEFAULTS.iter().find(|x| x.0 == name).unwrap().2).unwrap()
}

fn defaults() -> Value {
    Value::Object(DEFAULTS.iter().map(|x| (x.0.to_owned(), serde_json::from_str(x.2).unwrap())).collect())
}

fn setting(r: &mut R, ty: &str) -> Value {
    match ty {
        "bool" => json!(r.gen::<bool>()),
        "String" => json!(match r.gen_range(0, 5) {
            0 => String::new(),
            1 => pick(r, &[":4160", "127.0.0.1:0", "0.0.0.0:4160", "[::1]:4160", "localhost:80", "10.1.2.3", "relay.example.org:4160", " ", "0", "none", "false", "http://h:1/p"]).to_string(),
            2 => "<network>.x.y;;z.<network>;".to_owned(),
            _ => gen::text(r, 12),
        }),
        "u32" => json!(u64_biased(r) as u32),
        "i32" => json!(u64_biased(r) as i32),
        "u64" => json!(u64_biased(r)),
        "i64" => json!(u64_biased(r) as i64),
        "Duration" => json!({"secs": u64_biased(r), "nanos": r.gen_range(0, 1_000_000_000)}),
        "HashMap<String, bool>" => Value::Object((0..r.gen_range(0, 4)).map(|i| (format!("10.0.0.{}", i), json!(r.gen::<bool>()))).collect()),
        _ => panic!("type {}", ty),
    }
}

fn misfit(r: &mut R, ty: &str) -> Value {
    match ty {
        "String" => pick(r, &[json!(5), json!(true), json!(null), json!(["x"])]).clone(),
        "bool" => pick(r, &[json!(1), json!("true"), json!(null)]).clone(),
        "Duration" => pick(r, &[json!("1s"), json!({"secs": -1, "nanos": 0}), json!({"secs": 1}), json!(true)]).clone(),
        "HashMap<String, bool>" => pick(r, &[json!({"a": 1}), json!("a"), json!(7)]).clone(),
        "u32" => pick(r, &[json!(-1), json!(4294967296u64), json!("1"), json!(1.5), json!(null)]).clone(),
        "i32" => pick(r, &[json!(2147483648u64), json!(-2147483649i64), json!("1"), json!(1.5), json!(null)]).clone(),
        "u64" => pick(r, &[json!(-1), json!("1"), json!(1.5), json!(null)]).clone(),
        _ => pick(r, &[json!(9223372036854775808u64), json!("1"), json!(1.5), json!(null)]).clone(),
    }
}

/// A listening node is a relay, and relays keep and serve everything.
fn relay_rule(v: &mut Value) {
    if v["net_address"] != "" {
        for k in ["archival", "enable_ledger_service", "enable_block_service"].iter() {
            v[*k] = json!(true);
        }
    }
}

fn overlay(base: &Value, file: &Map<String, Value>) -> Value {
    let mut v = base.clone();
    for (k, x) in file {
        if v.get(k).is_some() {
            v[k.as_str()] = x.clone();
        }
    }
    relay_rule(&mut v);
    v
}

fn random_file(r: &mut R) -> Map<String, Value> {
    let mut m = Map::new();
    let dense = *pick(r, &[1, 5, 30, 100]);
    for (name, ty, dv) in DEFAULTS {
        if r.gen_range(0, 100) < dense {
            let v = if r.gen_range(0, 6) == 0 { serde_json::from_str(dv).unwrap() } else { setting(r, ty) };
            m.insert((*name).to_owned(), v);
        }
    }
    m
}

fn shown(l: &Local) -> Value {
    serde_json::to_value(l).unwrap()
}

fn diff(a: &Value, b: &Value) -> Value {
    let (a, b) = (a.as_object().unwrap(), b.as_object().unwrap());
    let mut m = Map::new();
    for (k, v) in a {
        if b.get(k) != Some(v) {
            m.insert(k.clone(), json!([v, b.get(k)]));
        }
    }
    Value::Object(m)
}

fn local_files(c: &mut Ctx, dir: &Path, base: &Value) {
    let path = dir.join("config.json");
    let ds = dir.to_str().unwrap().to_owned();
    let mut m = random_file(&mut c.rng);
    let want = overlay(base, &m);
    let known: Vec<String> = m.keys().cloned().collect();
    if c.rng.gen_range(0, 3) == 0 {
        m.insert("should_not_exist".into(), json!(c.rng.gen_range(0, 100)));
    }
    let text = if c.rng.gen() { serde_json::to_string(&m) } else { serde_json::to_string_pretty(&m) }.unwrap();
    let d = || json!(text.chars().take(3000).collect::<String>());
    c.case(text.as_bytes(), !known.is_empty());
    c.about(&format!("config {}", text.chars().take(1000).collect::<String>()));
    for k in &known {
        c.state("settings given", k.as_bytes());
    }
    fs::write(&path, &text).unwrap();
    let l = match c.no_panic("load", d, || Local::verif_load_from_disk(&ds)) {
        Some(Ok(l)) => l,
        Some(Err(e)) => {
            c.violation("well-formed configuration refused", json!({"file": d(), "error": format!("{:?}", e)}));
            return;
        }
        None => return,
    };
    c.check(shown(&l) == want, "loaded configuration", || json!({"file": d(), "want vs got": diff(&want, &shown(&l))}));
    c.count("configurations loaded", 1);
    if let Some(Ok(l2)) = c.no_panic("load file", d, || Local::verif_load_from_file(&path)) {
        c.check(shown(&l2) == shown(&l), "loading the file and its directory differ", d);
    } else {
        c.violation("well-formed configuration refused", d());
    }

    // layered onto another configuration
    let first = random_file(&mut c.rng);
    let start = overlay(base, &first);
    if let Ok(l) = serde_json::from_value::<Local>(start.clone()) {
        let mut l1 = l.clone();
        let r = c.no_panic("merge", d, || l1.verif_merge_from_dir(&ds));
        let want = overlay(&start, &m);
        c.check(matches!(r, Some(Ok(()))) && shown(&l1) == want, "configuration merged from a directory", || json!({"file": d(), "want vs got": diff(&want, &shown(&l1))}));
        c.count("configurations merged", 1);

        // saving
        let sd = dir.join("saved");
        let _ = fs::create_dir(&sd);
        let ss = if c.rng.gen() { sd.to_str().unwrap().to_owned() } else { std::env::set_var("VH_CONFIG_DIR", dir); "${VH_CONFIG_DIR}/saved".to_owned() };
        let before = shown(&l1);
        match c.no_panic("save", d, || l1.save_to_disk(&ss)) {
            Some(Ok(())) => {
                match c.no_panic("load saved", d, || Local::verif_load_from_disk(&sd.to_str().unwrap().to_owned())) {
                    Some(Ok(x)) => {
                        c.check(shown(&x) == before, "saved and loaded configuration", || json!({"want vs got": diff(&before, &shown(&x))}));
                        c.count("configurations saved and loaded", 1);
                    }
                    Some(Err(e)) => c.violation("saved configuration refused", json!({"configuration": before, "error": format!("{:?}", e)})),
                    None => {}
                }
                let _ = fs::remove_file(sd.join("config.json"));
            }
            Some(Err(e)) => c.violation("configuration not saved", json!(format!("{:?}", e))),
            None => {}
        }
        if c.rng.gen_range(0, 20) == 0 {
            let r = c.no_panic("save in an unknown directory", d, || l1.save_to_disk("${VH_UNSET_VARIABLE}/x"));
            c.check(r.map_or(true, |r| r.is_err()), "saved in an unknown directory", d);
            let missing = dir.join("missing");
            let r = c.no_panic("save in a missing directory", d, || l1.save_to_disk(missing.to_str().unwrap()));
            c.check(r.map_or(true, |r| r.is_err()), "saved in a missing directory", d);
        }

        // damaged files are refused and change nothing
        let mut bad = text.clone().into_bytes();
        match c.rng.gen_range(0, 6) {
            0 => bad.truncate(c.rng.gen_range(0, text.len())),
            1 => bad = b"[1, 2]".to_vec(),
            2 => bad.insert(0, b','),
            3 => bad.push(b'}'),
            4 => { let k = bad.len() - 1; bad.insert(k, 0xff) }
            _ => {
                let (name, ty, _) = DEFAULTS[c.rng.gen_range(0, DEFAULTS.len())];
                let mut mm = m.clone();
                let v = misfit(&mut c.rng, ty);
                mm.insert(name.to_owned(), v);
                bad = serde_json::to_vec(&mm).unwrap();
                c.count("misfit settings", 1);
            }
        }
        fs::write(&path, &bad).unwrap();
        let d = || json!(String::from_utf8_lossy(&bad).chars().take(3000).collect::<String>());
        let mut l1 = l.clone();
        let r = c.no_panic("damaged file", d, || (Local::verif_load_from_disk(&ds).is_err(), l1.verif_merge_from_dir(&ds).is_err()));
        if let Some((a, b)) = r {
            c.check(a && b, "damaged configuration accepted", d);
            c.check(shown(&l1) == start, "damaged configuration changed settings", d);
            c.count("damaged configurations", 1);
        }
    } else {
        c.violation("configuration does not convert back", json!(start));
    }
    fs::remove_file(&path).unwrap();
    let r = c.no_panic("missing file", || json!(null), || Local::verif_load_from_disk(&ds).is_err());
    c.check(r != Some(false), "missing configuration accepted", || json!(null));

    // derived settings
    let id = match c.rng.gen_range(0, 6) {
        0 => "<network>.algorand.network".to_owned(),
        1 => "<network>.a;;<network>-b;c".to_owned(),
        2 => String::new(),
        3 => gen::near_text(&mut c.rng, "<network>.algorand.network"),
        4 => (0..c.rng.gen_range(1, 14)).map(|_| *pick(&mut c.rng, &["<network>", "<network>", ";", ";", "a.b", " ", ",", "<NETWORK>", "<network", ">"])).collect(),
        _ => gen::text(&mut c.rng, 10),
    };
    let mut v = base.clone();
    v["dns_bootstrap_id"] = json!(id);
    let (sec, cat) = if c.rng.gen() { (c.rng.gen_range(0, 32u32), c.rng.gen_range(0, 64u32)) } else { (u64_biased(&mut c.rng) as u32, u64_biased(&mut c.rng) as u32) };
    v["dns_security_flags"] = json!(sec);
    v["catchup_block_validate_mode"] = json!(cat);
    let l: Local = serde_json::from_value(v).unwrap();
    let near = { let n = *pick(&mut c.rng, &[DEVNET, BETANET, DEVTESTNET, TESTNET, MAINNET]); gen::near_text(&mut c.rng, n) };
    for net in [DEVNET, BETANET, DEVTESTNET, TESTNET, MAINNET, "", "x;y", "DEVNET", "<network>", near.as_str()].iter() {
        let d = || json!({"id": id, "network": net});
        let std = id == "<network>.algorand.network";
        let want = if std && *net == "devnet" { "devnet.algodev.network".to_owned() } else if std && *net == "betanet" { "betanet.algodev.network".to_owned() } else { id.replace("<network>", net) };
        let arr: Vec<String> = want.split(';').filter(|x| !x.is_empty()).map(|x| x.to_owned()).collect();
        if let Some((a, b)) = c.no_panic("bootstrap", d, || (l.verif_dns_bootstrap(net), l.verif_dns_bootstrap_array(net))) {
            c.check(a == want && b == arr, "bootstrap names", || json!({"at": d(), "got": [json!(a), json!(b)]}));
            c.count("bootstrap names", 1);
        }
    }
    let got = [l.dnssec_srv_enforced(), l.dnssec_relay_addr_enforced(), l.dnssec_telemetry_enforced(), l.catchup_verify_certificate(), l.catchup_verify_payset_hash(), l.catchup_verify_transaction_signatures(), l.catchup_verify_apply_data()];
    let want = [sec & 1 != 0, sec & 2 != 0, sec & 4 != 0, cat & 1 == 0, cat & 2 == 0, cat & 4 != 0, cat & 8 != 0];
    c.check(got == want, "flag settings", || json!({"dns": sec, "catchup": cat, "got": got}));
}

fn is_empty(p: &ConsensusParams) -> bool {
    serde_json::to_value(p).unwrap() == serde_json::to_value(ConsensusParams::default()).unwrap()
}

fn tab(p: &ConsensusProtocols) -> Value {
    serde_json::to_value(p).unwrap()
}

fn protocol_files(c: &mut Ctx, dir: &Path) {
    let ds = dir.to_str().unwrap().to_owned();
    let all: Vec<CV> = params::ALL.iter().map(|x| x.1).chain(super::bookkeeping::DEPRECATED.iter().cloned()).collect();
    let mut base = ConsensusProtocols::default();
    let full = c.rng.gen_range(0, 3) == 0;
    for (_, v) in params::ALL.iter() {
        if full || c.rng.gen() {
            base.0.insert(*v, params::params(*v));
        }
    }
    let mut custom = ConsensusProtocols::default();
    for _ in 0..c.rng.gen_range(0, 6) {
        let v = *pick(&mut c.rng, &all);
        let p = match c.rng.gen_range(0, 3) {
            0 => ConsensusParams::default(),
            k => {
                let mut p = params::params(pick(&mut c.rng, &params::ALL).1);
                p.min_tx_fee = u64_biased(&mut c.rng);
                if k == 1 {
                    p.approved_upgrades.clear();
                    for _ in 0..c.rng.gen_range(0, 4) {
                        let to = *pick(&mut c.rng, &all);
                        p.approved_upgrades.insert(to, u64_biased(&mut c.rng));
                    }
                }
                p
            }
        };
        custom.0.insert(v, p);
    }
    let d = || json!({"base": base.0.keys().map(|x| x.to_string()).collect::<Vec<_>>(), "custom": custom.0.iter().map(|(v, p)| json!([v.to_string(), if is_empty(p) { json!("delete") } else { json!(p.approved_upgrades.keys().map(|x| x.to_string()).collect::<Vec<_>>()) }])).collect::<Vec<_>>()});
    c.case(d().to_string().as_bytes(), true);
    c.about(&format!("protocols {}", d()));
    // reference
    let mut want = base.clone();
    let mut gone = Vec::new();
    for (v, p) in &custom.0 {
        if is_empty(p) {
            want.0.remove(v);
            gone.push(*v);
            c.count("protocols deleted", 1);
        } else {
            c.count(if base.0.contains_key(v) { "protocols replaced" } else { "protocols added" }, 1);
            want.0.insert(*v, p.clone());
        }
    }
    for p in want.0.values_mut() {
        for g in &gone {
            if p.approved_upgrades.remove(g).is_some() {
                c.count("upgrade paths removed", 1);
            }
        }
    }
    let mut b = base.clone();
    if let Some(g) = c.no_panic("merge protocols", d, || b.merge(custom.clone())) {
        c.check(tab(&g) == tab(&want), "merged protocols", d);
        c.check(tab(&b) == tab(&base), "merging changed the original", d);
        c.count("protocol merges", 1);
    }

    // through a file
    let path = dir.join("consensus.json");
    if c.rng.gen() {
        fs::write(&path, "x").unwrap();
    }
    match c.no_panic("save protocols", d, || save_configurable_consensus(&ds, custom.clone())) {
        Some(Ok(())) => c.check(path.exists() == !custom.0.is_empty(), "protocol file after saving", d),
        Some(Err(e)) => { c.violation("protocols not saved", json!({"at": d(), "error": format!("{:?}", e)})); return }
        None => return,
    };
    let mut b = base.clone();
    match c.no_panic("preload protocols", d, || preload_configurable_consensus_protocols(&ds, &mut b)) {
        Some(Ok(g)) => { c.check(tab(&g) == tab(&want), "protocols from a file", d); }
        Some(Err(e)) => { c.violation("saved protocols refused", json!({"at": d(), "error": format!("{:?}", e)})); }
        None => {}
    }
    c.check(tab(&b) == tab(&base), "preloading changed the original", d);
    if let Some(Ok(())) = c.no_panic("load protocols", d, || load_configurable_consensus_protocols(&ds, &mut b)) {
        // a file that would leave no protocol at all is not applied
        let w = if want.0.is_empty() { &base } else { &want };
        c.check(tab(&b) == tab(w), "protocols loaded", d);
        c.count("protocol files loaded", 1);
    } else {
        c.violation("saved protocols refused", d());
    }
    // the whole table in force survives a round trip
    if full {
        if let Some(Ok(())) = c.no_panic("save protocols", d, || save_configurable_consensus(&ds, base.clone())) {
            let mut b = base.clone();
            let _ = c.no_panic("load protocols", d, || load_configurable_consensus_protocols(&ds, &mut b));
            c.check(tab(&b) == tab(&base), "saving and loading all protocols changes them", d);
            c.count("full tables", 1);
        }
    }
    // damage
    let mut bad = serde_json::to_vec(&custom).unwrap();
    match c.rng.gen_range(0, 4) {
        0 => bad.truncate(c.rng.gen_range(0, bad.len())),
        1 => bad = b"[]x".to_vec(),
        2 => bad = br#"{"no such version": {}}"#.to_vec(),
        _ => bad = format!("{{\"{}\": {{\"min_tx_fee\": \"x\"}}}}", serde_json::to_value(CV::V30).unwrap().as_str().unwrap()).into_bytes(),
    }
    fs::write(&path, &bad).unwrap();
    let mut b = base.clone();
    let d = || json!(String::from_utf8_lossy(&bad).chars().take(500).collect::<String>());
    if let Some(r) = c.no_panic("damaged protocols", d, || load_configurable_consensus_protocols(&ds, &mut b)) {
        c.check(r.is_err() && tab(&b) == tab(&base), "damaged protocols accepted", d);
        c.count("damaged protocol files", 1);
    }
    fs::remove_file(&path).unwrap();
    if let Some(r) = c.no_panic("missing protocols", d, || load_configurable_consensus_protocols(&ds, &mut b)) {
        c.check(r.is_ok() && tab(&b) == tab(&base), "missing protocol file", d);
    }
    if let Some(r) = c.no_panic("save nothing", d, || save_configurable_consensus(&ds, ConsensusProtocols::default())) {
        c.check(r.is_ok() && !path.exists(), "saving no protocols", d);
    }
}

fn phonebooks(c: &mut Ctx, dir: &Path) {
    let ds = dir.to_str().unwrap().to_owned();
    let path = dir.join("phonebook.json");
    let es = gen::list(&mut c.rng, 8, |r| if r.gen() { format!("r{}.algorand.network:{}", r.gen_range(0, 9), r.gen_range(0, 65536)) } else { gen::text(r, 10) });
    let d = || json!(es);
    c.case(d().to_string().as_bytes(), !es.is_empty());
    c.about(&format!("phonebook {}", d()));
    let to = if c.rng.gen() { ds.clone() } else { std::env::set_var("VH_CONFIG_DIR", dir); "$VH_CONFIG_DIR".to_owned() };
    if c.rng.gen() {
        fs::write(&path, vec![b'x'; 5000]).unwrap();
    } else {
        let _ = fs::remove_file(&path);
    }
    match c.no_panic("save phonebook", d, || save_phonebook_to_disk(es.clone(), &to)) {
        Some(Ok(())) => {
            let v: Value = serde_json::from_slice(&fs::read(&path).unwrap_or_default()).unwrap_or(Value::Null);
            c.check(v["include"] == json!(es), "saved phonebook", d);
            match c.no_panic("load phonebook", d, || load_phonebook(&ds)) {
                Some(Ok(g)) => { c.check(g == es, "loaded phonebook", || json!({"want": es, "got": g})); }
                Some(Err(e)) => c.violation("saved phonebook refused", json!({"entries": es, "error": e.to_string()})),
                None => {}
            }
            c.count("phonebooks", 1);
        }
        Some(Err(e)) => c.violation("phonebook not saved", json!(format!("{:?}", e))),
        None => {}
    }
    let mut bad = serde_json::to_vec(&json!({"include": es})).unwrap();
    match c.rng.gen_range(0, 3) { 0 => bad.truncate(c.rng.gen_range(0, bad.len())), 1 => bad = br#"{"include": [1]}"#.to_vec(), _ => bad = br#"{"exclude": []}"#.to_vec() }
    fs::write(&path, &bad).unwrap();
    let r = c.no_panic("damaged phonebook", d, || load_phonebook(&ds).is_err());
    c.check(r != Some(false), "damaged phonebook accepted", || json!(String::from_utf8_lossy(&bad)));
    fs::remove_file(&path).unwrap();
    let r = c.no_panic("missing phonebook", d, || load_phonebook(&ds).is_err());
    c.check(r != Some(false), "missing phonebook accepted", d);
    let r = c.no_panic("save in an unknown directory", d, || save_phonebook_to_disk(es.clone(), "$VH_UNSET_VARIABLE").is_err());
    c.check(r != Some(false), "phonebook saved in an unknown directory", d);
}

fn global_directory(c: &mut Ctx, dir: &Path, k: u64) {
    let home = dir.join(format!("home{}", k));
    fs::create_dir(&home).unwrap();
    // the home directory may be named through a link
    let link = dir.join(format!("link{}", k));
    let home_name = if k % 8 >= 4 { std::os::unix::fs::symlink(&home, &link).unwrap(); link.clone() } else { home.clone() };
    let root = home_name.join(".algorand");
    std::env::set_var("HOME", &home_name);
    set_global_config_file_root(&Box::new(PathBuf::new()));
    let d = || json!({"kind": k % 4});
    match k % 4 {
        0 => {}
        1 => { fs::create_dir(&root).unwrap(); fs::write(root.join("kept"), "x").unwrap(); }
        2 => fs::write(&root, "a file").unwrap(),
        _ => { fs::remove_dir(&home).unwrap(); }
    }
    let usable = k % 4 != 2;
    for _ in 0..2 {
        if let Some(r) = c.no_panic("global directory", d, get_global_config_file_root) {
            match r {
                Ok(p) => { c.check(usable && p == root && root.is_dir(), "global directory", d); }
                Err(_) => { c.check(!usable || k % 4 == 3, "usable global directory refused", d); }
            }
        }
        if let Some(r) = c.no_panic("global file", d, || get_config_file_path("a.json")) {
            if let Ok(p) = r { c.check(usable && p == root.join("a.json"), "path of a global file", d); } else { c.check(!usable || k % 4 == 3, "usable global directory refused", d); }
        }
        c.count("global directories", 1);
    }
    if k % 4 == 1 {
        c.check(root.join("kept").exists(), "existing global directory emptied", d);
    }
    let own = Box::new(dir.join("own"));
    let was = c.no_panic("set", d, || set_global_config_file_root(&own));
    let g = get_global_config_file_root();
    c.check(g.map_or(false, |g| g == *own) && was.map_or(true, |w| if usable { w == root || k % 4 == 3 } else { true }), "chosen global directory", d);
    let back = set_global_config_file_root(&Box::new(PathBuf::new()));
    c.check(back == *own, "previous global directory", d);
    let _ = fs::remove_file(&root);
    let _ = fs::remove_file(&link);
    let _ = fs::remove_dir_all(&home);
}

pub fn c30(c: &mut Ctx) {
    c.rule = "generated configuration files giving some settings, layered, saved, damaged; generated custom protocol files; phonebooks; all through real files in a scratch directory, judged by a model on JSON values".into();
    let base = defaults();
    c.check(shown(&Local::default()) == base, "defaults", || diff(&base, &shown(&Local::default())));
    assert!(DEFAULTS.iter().all(|x| default_value(x.0) == base[x.0]));
    let dir = std::env::current_dir().unwrap().join("cfg");
    fs::create_dir(&dir).unwrap();
    let n = c.n(6000, 200_000);
    let mut i = 0;
    while i < n && c.in_time(15, 480) {
        i += 1;
        local_files(c, &dir, &base);
        if i % 4 == 0 {
            protocol_files(c, &dir);
        }
        if i % 4 == 1 {
            phonebooks(c, &dir);
        }
        if i % 16 == 2 {
            global_directory(c, &dir, i / 16);
        }
    }
    c.require("configurations loaded", 1000);
    c.require("configurations merged", 1000);
    c.require("configurations saved and loaded", 1000);
    c.require("damaged configurations", 1000);
    c.require("misfit settings", 200);
    c.require("distinct settings given", DEFAULTS.len() as u64);
    c.require("protocol merges", 300);
    c.require("protocols deleted", 300);
    c.require("protocols replaced", 100);
    c.require("protocols added", 100);
    c.require("upgrade paths removed", 50);
    c.require("protocol files loaded", 300);
    c.require("full tables", 50);
    c.require("phonebooks", 300);
    c.require("global directories", 100);
}
