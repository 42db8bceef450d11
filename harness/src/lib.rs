//! Common parts of the checkers.
#[macro_use]
pub mod engine;
pub mod forge;
pub mod gadget;
pub mod spec;
pub mod tamper;

/// Command line of a checker binary.
pub fn cli(props: Vec<engine::Prop>) {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: h2verif run <ID> [--sub NAME] [--scale X] | replay <FILE> | list");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = args.get(2).cloned().unwrap_or_else(|| usage());
            let mut only = None;
            let mut scale = 1.0;
            let mut i = 3;
            while i < args.len() {
                match args[i].as_str() {
                    "--sub" => {
                        only = args.get(i + 1).cloned();
                        i += 2;
                    }
                    "--scale" => {
                        scale = args.get(i + 1).and_then(|s| s.parse().ok()).unwrap_or(1.0);
                        i += 2;
                    }
                    _ => usage(),
                }
            }
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let p = match props.iter().find(|p| p.id == id) {
                Some(p) => p,
                None => {
                    println!("ERROR unknown property {}", id);
                    std::process::exit(2)
                }
            };
            std::process::exit(engine::run_prop(p, seed, &tier, only.as_deref(), scale));
        }
        Some("replay") => {
            let f = args.get(2).cloned().unwrap_or_else(|| usage());
            std::process::exit(engine::replay(&props, &f));
        }
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
        }
        _ => usage(),
    }
}
