//! Mechanical extraction of the functions under contract.
//!
//! usage: extractor <repo/src> <contracts dir> <out.rs> <out.json> [function,...]
//!
//! The functions named last are left out: the verifier does not take their text.
//!
//! Every function of the listed source files that is not test code is read with
//! syn and printed as Verus text: types and names are kept, the constructs the
//! verifier does not take are lowered by fixed rules (see DESIGN.md), and the
//! clauses of the contract files are put in place. Anything without a rule is
//! reported as unsupported, never guessed.
mod contracts;
mod emit;
mod items;
mod regex_spec;
mod serde_spec;

use serde_json::json;
use std::fs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = &a[1];
    let dir = &a[2];
    let contracts = match contracts::load(dir) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("contracts: {}", e);
            std::process::exit(2);
        }
    };
    let krate = match items::Krate::read(src) {
        Ok(k) => k,
        Err(e) => {
            fs::write(&a[4], json!({"fatal": e}).to_string()).unwrap();
            eprintln!("extract: {}", e);
            std::process::exit(3);
        }
    };
    let mut g = items::Gen::new(&krate, &contracts);
    g.left_out = a.get(5).map(|l| l.split(',').map(String::from).collect()).unwrap_or_default();
    let text = g.run(dir);
    fs::write(&a[3], &text).unwrap();
    fs::write(&a[4], serde_json::to_string_pretty(&g.report(&text)).unwrap()).unwrap();
}
