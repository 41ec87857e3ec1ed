//! Monitors of the evaluators and parsers in chomp-bench.
mod arith;
mod at;
mod json;
use harn::Run;

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let run = Run::from_env(&prop);
    match &prop[..] {
        "C22" => arith::c22(run),
        "C23" => json::c23(run),
        "C24" => json::c24(run),
        "C29" => json::c29(run),
        "C32" => at::c32(run),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
}
