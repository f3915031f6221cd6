mod cli;
mod engine;
mod gens;
mod hist;
mod io;
mod model;
mod props;

use engine::{quiet_panics, RunCfg, SuiteOut, Tier};

fn usage() -> ! {
    eprintln!("usage: poppy-verif run ID [--seed N] [--tier quick|thorough] [--shard I/N] [--fork] [--scale X] [--only SUITE]\n       poppy-verif replay FILE\n       poppy-verif list");
    std::process::exit(2)
}

/// C10: what a header announces must not be able to abort the process
fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        usage();
    }
    let props = props::all();
    match args[1].as_str() {
        "list" => {
            let v: Vec<_> = props.iter().map(|p| serde_json::json!({"id": p.id, "rule": p.rule, "processes": p.processes})).collect();
            println!("{}", serde_json::to_string(&v).unwrap());
        }
        "run" => {
            let mut cfg = RunCfg {
                prop: args.get(2).cloned().unwrap_or_else(|| usage()),
                seed: 1,
                shard: 0,
                shards: 1,
                tier: Tier::Quick,
                fork: false,
                scale: 1.0,
                only: None,
            };
            let mut it = args[3..].iter();
            while let Some(a) = it.next() {
                let mut val = || it.next().cloned().unwrap_or_else(|| usage());
                match a.as_str() {
                    "--seed" => cfg.seed = val().parse().unwrap_or_else(|_| usage()),
                    "--tier" => cfg.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
                    "--fork" => cfg.fork = true,
                    "--scale" => cfg.scale = val().parse().unwrap_or_else(|_| usage()),
                    "--only" => cfg.only = Some(val()),
                    "--shard" => {
                        let v = val();
                        let (i, n) = v.split_once('/').unwrap_or_else(|| usage());
                        cfg.shard = i.parse().unwrap_or_else(|_| usage());
                        cfg.shards = n.parse().unwrap_or_else(|_| usage());
                    }
                    _ => usage(),
                }
            }
            let Some(p) = props.iter().find(|p| p.id == cfg.prop) else { usage() };
            if p.id == "C10" || p.id == "C22" {
                limit_memory(4 << 30);
            }
            quiet_panics();
            let mut outs: Vec<SuiteOut> = vec![];
            for s in (p.suites)() {
                if cfg.only.as_ref().is_some_and(|o| o != s.name) {
                    continue;
                }
                let o = (s.run)(&cfg);
                let stop = o.failure.is_some() || o.error.is_some();
                outs.push(o);
                if stop {
                    break;
                }
            }
            println!("{}", serde_json::to_string(&outs).unwrap());
        }
        "replay" => {
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&f).expect("cannot read replay file")).expect("replay file is not JSON");
            let Some(p) = props.iter().find(|p| p.id == v["prop"]) else { usage() };
            let suites = (p.suites)();
            let Some(s) = suites.iter().find(|s| s.name == v["suite"]) else { usage() };
            if p.id == "C10" || p.id == "C22" {
                limit_memory(4 << 30);
            }
            quiet_panics();
            match (s.replay)(&v["case"]) {
                Ok(()) => println!("replay: the property held"),
                Err(m) => {
                    println!("replay: {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => usage(),
    }
}
