mod ext;
#[path = "gen.rs"]
mod r#gen;
mod model;
mod mutate;
mod props;
mod reading;
mod render;
mod runner;

use std::path::Path;

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "cli") {
        return props::cli::main_with_registry(&args[1..]);
    }
    if args.first().is_some_and(|a| a == "call") {
        return props::sys::call_main();
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let prop = |id: &str| match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2);
        }
    };
    let code = match a.as_slice() {
        ["run", id, tier] => runner::run(prop(id), tier),
        ["worker", id, tier] => runner::worker(prop(id), tier),
        ["one", id, idx] => runner::one(prop(id), Ok(idx.parse().expect("index")), true),
        ["replay", path] => runner::replay(props::ALL, Path::new(path)),
        ["list"] => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sxcheck run ID quick|thorough | one ID INDEX | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
