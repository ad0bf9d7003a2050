//! Drivers for the parts that use the network or run the command line
//! program. See harness/src/main.rs.

#[path = "../../harness/src/rec.rs"]
#[allow(dead_code)]
mod rec;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

mod cli;
mod clirec;
mod exch;
mod fetch;
mod logs;
mod neterr;
mod server;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    util::quiet_panics();
    util::watchdog();
    let sub = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = &args[1.min(args.len())..];
    match sub {
        "cat" => cli::cat(rest),
        "cp" => cli::cp(rest),
        "record" => clirec::run(rest),
        "log" => logs::run(rest),
        "logchild" => logs::child(rest),
        "flags" => logs::flags(rest),
        "fetch" => fetch::run(rest),
        "neterr" => neterr::run(rest),
        "exch" => exch::run(rest),
        _ => {
            eprintln!("unknown sub-command {:?}", sub);
            std::process::exit(2);
        }
    }
}
