//! Drivers binding the TLA+ modules of /verif/spec to the real code. Each
//! sub-command replays scripts (operations generated from a module) and
//! records a trace of the results for validation against that module.

mod asyn;
mod barcfile;
mod body;
mod convert;
mod decode;
mod errors;
mod format;
mod hist;
mod huge;
mod life;
mod parse;
mod readfault;
mod readfrom;
mod rec;
mod small;
mod sys;
mod system;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    util::quiet_panics();
    util::watchdog();
    let sub = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = &args[1.min(args.len())..];
    match sub {
        "async" => asyn::run(rest),
        "readfault" => readfault::run(rest),
        "readfrom" => readfrom::run(rest),
        "body" => body::run(rest),
        "barc" => barcfile::run(rest),
        "compress" => convert::compress(rest),
        "convert" => convert::convert(rest),
        "parse" => parse::run(rest),
        "bufs" => small::bufs(rest),
        "tune" => small::tune(rest),
        "encodings" => small::encodings(rest),
        "decode" => decode::run(rest),
        "errors" => errors::run(rest),
        "format" => format::run(rest),
        "hist" => hist::run(rest),
        "huge" => huge::run(rest),
        "life" => life::run(rest),
        "system" => system::run(rest),
        "put" => system::put(rest),
        "list" => system::list(rest),
        _ => {
            eprintln!("unknown sub-command {:?}", sub);
            std::process::exit(2);
        }
    }
}
