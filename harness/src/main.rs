mod checks;
mod fw;
mod model;
mod real;
#[cfg(feature = "editor")]
mod rig;

use fw::Tier;

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args[0].as_str() {
        "--worker" => {
            let check = checks::get(&args[1], tier_of(&args[2])).expect("unknown check");
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            fw::worker(&check, n(3), n(4), n(5), std::path::Path::new(&args[6]));
        }
        "--single" => {
            let check = checks::get(&args[1], tier_of(&args[2])).expect("unknown check");
            fw::single(&check, args[3].parse().unwrap());
        }
        "--helper" => checks::helper(&args[1..]),
        id => {
            let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
            if args.get(1).map(|s| s.as_str()) == Some("--case") {
                let check = checks::get(id, tier_of(&args[2])).expect("unknown check");
                fw::single(&check, args[3].parse().unwrap());
            }
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            let check = checks::get(id, tier).unwrap_or_else(|| {
                eprintln!("no check for {}", id);
                std::process::exit(2)
            });
            std::process::exit(fw::main_check(&check, tier, seed));
        }
    }
}
