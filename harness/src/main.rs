mod apart;
mod gen;
mod node;
mod os;
mod refend;
mod rng;
mod run;
mod shadow;
mod sim;
mod types;
mod wire;

#[global_allocator]
static ALLOC: os::SimAlloc = os::SimAlloc;

fn main() {
    run::init();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let num = |i: usize| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    let code = match (a.get(1).map(String::as_str), a.get(2)) {
        (Some("check"), Some(p)) if run::PROPS.contains(&p.as_str()) => run::check(p, &root),
        (Some("replay"), Some(f)) => run::replay(f),
        (Some("show"), Some(p)) => run::show(p, num(3)),
        (Some("digest"), Some(p)) => run::digest(p, num(3), num(4)),
        _ => {
            eprintln!("usage: pkstl-sim check <ID> | replay <file> | show <ID> <run> | digest <ID> <from> <to>");
            2
        }
    };
    std::process::exit(code);
}
