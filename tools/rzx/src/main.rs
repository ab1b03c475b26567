//! rzx - mechanical extraction of Rust functions from /repo into a Verus file.
//!
//! usage: rzx REPO UNIT.rzv OUT.rs OUT.json
//!
//! The unit file is Verus text with `//@` directives.  Executable text comes only
//! from /repo: `//@fn`, `//@struct`, `//@enum`, `//@const` pull the named item out of
//! the current source; the unit contributes contracts, invariants, ghost code and
//! spec functions.  What the extraction rewrites is listed in tools/rzx/README.md.
mod desugar;
mod find;
mod unit;

use std::fs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: rzx REPO UNIT OUT.rs OUT.json [--assume=ITEM;ITEM] [--probe]");
        std::process::exit(2);
    }
    let mut force = vec![];
    let mut probe = false;
    for o in &a[5..] {
        if let Some(v) = o.strip_prefix("--assume=") {
            force = v.split(';').map(|x| x.to_string()).collect();
        } else if o == "--probe" {
            probe = true;
        }
    }
    match unit::process(&a[1], &a[2], force, probe) {
        Ok((text, meta)) => {
            fs::write(&a[3], text).expect("write out");
            fs::write(&a[4], serde_json::to_string_pretty(&meta).unwrap()).expect("write meta");
        }
        Err(e) => {
            // extraction failure: an anchor was lost or a construct is outside the subset
            println!("RZX-UNSUPPORTED: {e}");
            std::process::exit(3);
        }
    }
}
