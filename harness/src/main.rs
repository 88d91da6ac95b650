mod codec;
mod exec;
mod families;
mod plan;
mod rec;
mod sup;

struct HashSeeds;
impl ahash::random_state::RandomSource for HashSeeds {
    fn gen_hasher_seed(&self) -> usize {
        simcore::hash_seed() as usize
    }
}

fn main() {
    simcore::hooks::keep();
    simcore::install_panic_hook();
    let _ = ahash::random_state::set_random_source(HashSeeds);
    // process-wide hash constants are drawn now, not in the middle of the first run
    let _ = ahash::RandomState::new();
    let _ = std::collections::hash_map::RandomState::new();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a = |i: usize| args.get(i).cloned().unwrap_or_default();
    let code = match a(0).as_str() {
        "worker" => {
            sup::worker();
            0
        }
        "check" => sup::check(&a(1), &root),
        "replay" => sup::replay(&a(1)),
        "one" => sup::one(&a(1), a(2).parse().unwrap_or(0)),
        "determinism" => {
            let props: Vec<String> = if args.len() > 2 { args[2..].to_vec() } else { families::all() };
            sup::determinism(&props, a(1).parse().unwrap_or(20))
        }
        "list" => {
            for p in families::all() {
                println!("{p}");
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|one|determinism|list ...");
            2
        }
    };
    std::process::exit(code);
}
