#![allow(dead_code, unexpected_cfgs)]
mod checks;
mod core;
mod refm;
mod shim;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let specs = checks::specs();
    let find = |id: &str| specs.iter().find(|s| s.id == id);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => {
            let spec = find(&args[2]).expect("unknown property");
            core::worker_main(spec, args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].clone().into())
        }
        Some("--sub") => checks::sub(&args[2..]),
        Some("--record") => {
            checks::record();
            0
        }
        Some("--list") => {
            for s in &specs {
                println!("{}", s.id);
            }
            0
        }
        Some(id) => match find(id) {
            Some(spec) => core::supervise(spec),
            None => {
                eprintln!("unknown property {}", id);
                2
            }
        },
        None => 2,
    };
    std::process::exit(code);
}
