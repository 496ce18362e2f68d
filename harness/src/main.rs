mod dynp;
mod ext;
mod genr;
mod model;
mod mutate;
mod props;
mod refp;
mod rng;
mod run;

#[global_allocator]
static ALLOC: props::cost::Counting = props::cost::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => run::check(&a[1]),
        Some("worker") => run::worker(&a[1..]),
        Some("one") => run::one(&a[1..], false),
        Some("show") => run::one(&a[1..], true),
        Some("digests") => {
            run::install_hook();
            let (s, i) = (a[1].parse().unwrap(), a[2].parse().unwrap());
            run::in_big_stack(move || props::pure::digests(s, i))
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vx check ID | one ID SEED TIER INDEX | show ... | list");
            2
        }
    };
    std::process::exit(code);
}
