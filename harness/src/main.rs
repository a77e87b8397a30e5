//! tsverif: runtime monitors for terminusdb-store.
mod alloc;
mod check;
mod fsx;
mod gen;
mod orch;
mod props;
mod util;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => orch::check(&args[2]),
        Some("worker") => orch::worker(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        Some("case") => orch::case(&args[2], args[3].parse().unwrap(), args.get(4).and_then(|s| s.parse().ok()).unwrap_or(0)),
        Some("dump") => props::reopen::dump(&args[2], &args[3], &args[4], &args[5]),
        Some("corpus") => {
            orch::install_panic_hook();
            props::formats::corpus(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap())
        }
        Some("corpusverify") => {
            orch::install_panic_hook();
            props::formats::corpus_verify(&args[2])
        }
        Some("labelclient") => {
            orch::install_panic_hook();
            props::labels::process(&args[2], &args[3])
        }
        Some("list") => {
            for p in props::table() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: tsverif check PROPERTY | case PROPERTY SEED");
            2
        }
    };
    std::process::exit(code);
}
