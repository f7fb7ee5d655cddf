mod astconv;
mod drive;
mod glue;
mod grammar;
mod known;
mod run;
mod special;
mod texts;
mod values;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;

fn usage() -> ! {
    eprintln!("usage: monitor <property> [--only STREAM INDEX] [--worker DIR] [--text FILE]");
    std::process::exit(2)
}
fn main() {
    let mut a = std::env::args().skip(1);
    let id = a.next().unwrap_or_else(|| usage());
    let mut o = run::Opts {
        id,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        root: std::env::var_os("VERIF_ROOT").map_or_else(|| "/verif".into(), Into::into),
        only: None,
        worker: None,
        text: None,
    };
    while let Some(x) = a.next() {
        match &x[..] {
            "--worker" => o.worker = Some(a.next().unwrap_or_else(|| usage()).into()),
            "--only" => {
                let mut n = || a.next().and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| usage());
                o.only = Some((n() as usize, n()));
            }
            "--text" => o.text = Some(a.next().unwrap_or_else(|| usage())),
            _ => usage(),
        }
    }
    let check = grammar::check(&o).or_else(|| special::check(&o)).unwrap_or_else(|| { eprintln!("no such property: {}", o.id); std::process::exit(2) });
    if let Some(t) = &o.text {
        run::install_hook();
        match check.oracle {
            Some(f) => println!("{:?}", f(t)),
            None => println!("this check has no oracle for single texts"),
        }
        return;
    }
    let known = known::load(&o.root, &o.id).unwrap_or_else(|e| { eprintln!("{}", e); std::process::exit(2) });
    let code = match &o.worker {
        Some(dir) => run::worker(&o, &check, dir, &known.iter().map(|k| k.input.clone()).collect::<Vec<_>>()),
        None => {
            run::install_hook();
            if o.only.is_none() {
                for k in &known {
                    if known::present(k) { println!("KNOWN-FINDING: property={} {} (input {:?})", k.property, k.what, k.input) }
                }
            }
            run::supervise(&o, &check)
        }
    };
    std::process::exit(code)
}
