#![allow(clippy::too_many_arguments)]
mod checks;
mod dump;
mod gen;
mod rng;
mod sup;
mod xml;

use std::path::PathBuf;

fn main() {
    let mut a = sup::Args {
        id: String::new(),
        tier: sup::Tier::Quick,
        seed: 1,
        verif: PathBuf::from("/verif"),
        dir: PathBuf::new(),
        only: None,
        threads: 8,
        wall: 0,
        cases: None,
    };
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    if cmd == "fresh" {
        // a child process of C22
        checks::pure::fresh();
        return;
    }
    a.id = it.next().unwrap_or_default();
    while let Some(x) = it.next() {
        let v = it.next().unwrap_or_else(|| panic!("{x} needs a value"));
        match x.as_str() {
            "--tier" => {
                a.tier = match v.as_str() {
                    "quick" => sup::Tier::Quick,
                    "thorough" => sup::Tier::Thorough,
                    _ => panic!("unknown tier {v}"),
                }
            }
            "--seed" => a.seed = v.parse().unwrap_or_else(|_| rng::hash_str(&v) >> 1),
            "--verif" => a.verif = v.into(),
            "--dir" => a.dir = v.into(),
            "--only" => a.only = Some(v.parse().expect("case number")),
            "--threads" => a.threads = v.parse().expect("threads"),
            "--wall" => a.wall = v.parse().expect("seconds"),
            "--cases" => a.cases = Some(v.parse().expect("cases")),
            _ => panic!("unknown option {x}"),
        }
    }
    if a.wall == 0 {
        a.wall = match a.tier {
            sup::Tier::Quick => 240,
            sup::Tier::Thorough => 700,
        };
    }
    let Some(spec) = checks::SPECS.iter().find(|s| s.id == a.id) else {
        eprintln!("no check for {}", a.id);
        std::process::exit(2);
    };
    let code = match cmd.as_str() {
        "worker" => sup::worker(spec, &a),
        "run" => {
            if a.dir.as_os_str().is_empty() {
                a.dir = std::env::temp_dir().join(format!("svdmon-{}-{}", a.id, std::process::id()));
            }
            sup::parent(spec, &a)
        }
        _ => {
            eprintln!("usage: svdmon run <property> [--tier quick|thorough] [--seed n] [--only case]");
            2
        }
    };
    std::process::exit(code);
}
