//! Runs one script, given as a file; meant to be interpreted.
mod script;
use std::io::Write;

fn main() {
    let f = std::env::args().nth(1).expect("script file");
    let b = std::fs::read(f).expect("script");
    std::io::stdout().write_all(&script::run(&b)).expect("output");
}
