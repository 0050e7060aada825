mod checks;
mod cli;
mod doc;
mod engine;
mod gen;
mod gens;
mod oracle;
mod props;
mod soup;
mod tape;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let props = props::all();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if args.iter().any(|a| a == "C17") && std::env::var("MDFMT_BIN").is_err() {
        eprintln!("error: MDFMT_BIN must name the command line tool (run.sh sets it)");
        std::process::exit(3);
    }
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice() {
        ["run", id] => match props.iter().find(|p| p.id == *id) {
            Some(p) => engine::run(p, seed, &tier, None),
            None => {
                eprintln!("error: no property {id}");
                3
            }
        },
        ["run", id, arm] => match props.iter().find(|p| p.id == *id) {
            Some(p) => engine::run(p, seed, &tier, Some(arm)),
            None => 3,
        },
        ["survey", id, arm, n, examples] => match props.iter().find(|p| p.id == *id) {
            Some(p) => engine::survey(p, arm, seed, n.parse().unwrap_or(1000), examples.parse().unwrap_or(20)),
            None => 3,
        },
        ["replay", file] => engine::replay(&props, file),
        ["list"] => {
            for p in &props {
                for a in &p.arms {
                    println!("{} {} {}", p.id, a.name, a.quick);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mdpbt run <property> [arm] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
