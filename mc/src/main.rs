mod case;
mod model;
mod props;
mod report;
mod worker;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--alloc-histories") {
        props::c02::child_main(&args[2..]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("--worker") {
        worker::worker_main();
    }
    if args.get(1).map(|s| s.as_str()) == Some("--replay") {
        let still = case::replay(&args[2]);
        println!("{}", if still { "STILL WRONG" } else { "fine now" });
        std::process::exit(still as i32);
    }
    let tier = args
        .iter()
        .position(|a| a == "--tier")
        .and_then(|i| args.get(i + 1).cloned())
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let Some(p) = args.get(1) else {
        report::engine_error("usage: mc <property> [--tier quick|thorough]")
    };
    match props::find(p) {
        Some((id, f)) => {
            // Own the engine's failures: they are never verdicts.
            std::panic::set_hook(Box::new(|i| {
                println!("ENGINE-ERROR: {}", i);
                std::process::exit(2);
            }));
            let mut ctx = report::Ctx::new(id, tier == "thorough");
            f(&mut ctx);
            ctx.finish()
        }
        None => report::engine_error(&format!("unknown property {}", p)),
    }
}
