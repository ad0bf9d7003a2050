//! Builds.tla: builds of the crates with only some, or none, of the optional
//! features, on the operations of System.tla.

#[allow(dead_code)]
#[path = "../../harness/src/rec.rs"]
mod rec;
#[path = "../../harness/src/system.rs"]
mod system;
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    util::quiet_panics();
    util::watchdog();
    match args.first().map(|s| s.as_str()).unwrap_or("") {
        "system" => system::run(&args[1..]),
        sub => {
            eprintln!("unknown sub-command {:?}", sub);
            std::process::exit(2);
        }
    }
}
