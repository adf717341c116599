#[macro_use]
mod cb;
mod acct;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c29;
mod c30;
mod c31;
mod dump;
mod engine;
mod gen;
mod layout;
mod model;
mod monitor;
mod op;
mod rng;
mod work;
fn main() {
    acct::init_env();
    let args: Vec<String> = std::env::args().collect();
    let r = match args.get(1).map(|s| s.as_str()) {
        Some("work") => work::work(&args[2..]),
        Some("replay") => work::replay(&args[2], false),
        Some("trace") => work::replay(&args[2], true),
        Some("union") => work::union(&args[2..]),
        Some("dump") => dump::run(&args[2..]),
        Some("stepdigest") => c24::stepdigest(&args[2..]),
        Some("decode") => dump::decode(&args[2..]),
        _ => {
            eprintln!("usage: aobmon work|replay|trace|union|dump|stepdigest|decode ...");
            2
        }
    };
    std::process::exit(r);
}
