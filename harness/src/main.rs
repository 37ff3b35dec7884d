#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![cfg_attr(not(feature = "full"), allow(dead_code, unused))]
mod emu;
mod engine;
#[cfg(feature = "full")]
mod faults;
mod layout;
mod lm;
mod pipe;
mod props;
mod pty;
mod tty;

use engine::{DynProp, Tier};
use std::sync::Arc;

fn find(id: &str) -> Arc<dyn DynProp> {
    match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: lisoharness check ID | replay FILE | sample ID N | list | child");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("child") => pty::child_main(|id, case| find(id).child_run(case)),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
        }
        Some("check") => {
            let Some(id) = args.get(2) else { usage() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            std::panic::set_hook(Box::new(|_| ()));
            let code = find(id).check(tier, seed);
            std::process::exit(code);
        }
        Some("replay") => {
            let Some(f) = args.get(2) else { usage() };
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("replay file");
            let id = v["property"].as_str().or(args.get(3).map(|s| s.as_str())).unwrap_or_else(|| usage());
            let case = v.get("case").cloned().unwrap_or_else(|| v.clone());
            std::process::exit(find(id).replay(&case));
        }
        Some("sample") => {
            let Some(id) = args.get(2) else { usage() };
            let n = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(5);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            find(id).sample(n, seed);
        }
        _ => usage(),
    }
}
