mod fw;
mod gens;
#[cfg(feature = "tls")]
mod mem;
mod props;
mod refs;
#[cfg(feature = "tls")]
mod tls;

use std::path::PathBuf;

#[cfg(feature = "tls")]
#[global_allocator]
static HEAP: mem::Counting = mem::Counting;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut id = None;
    let mut o = fw::Opts {
        root: PathBuf::from("/verif"),
        tier: std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        replay: None,
        only: None,
        scale: 1.0,
        verbose: false,
        nshards: 8,
    };
    while let Some(a) = args.next() {
        match a.as_str() {
            "--root" => o.root = args.next().unwrap().into(),
            "--tier" => o.tier = args.next().unwrap(),
            "--seed" => o.seed = args.next().unwrap().parse().unwrap(),
            "--replay" => o.replay = Some(args.next().unwrap().into()),
            "--part" => o.only = Some(args.next().unwrap()),
            "--scale" => o.scale = args.next().unwrap().parse().unwrap(),
            "--shards" => o.nshards = args.next().unwrap().parse().unwrap(),
            "-v" => o.verbose = true,
            _ => id = Some(a),
        }
    }
    fw::install_hook();
    if id.as_deref() == Some("selftest") {
        refs::selftest();
        return;
    }
    let props = props::all();
    let Some(p) = props.iter().find(|p| Some(p.id) == id.as_deref()) else {
        eprintln!("usage: harness <property id> [--tier quick|thorough] [--seed n] [--replay file] [--part p] [-v]");
        for p in &props {
            eprintln!("  {}", p.id);
        }
        std::process::exit(2);
    };
    std::process::exit(fw::run_property(&o, p));
}
