#![allow(dead_code)]
mod harness;
mod eng;
mod props;

fn main() {
    harness::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(0) {
        "check" => {
            if !props::ALL.contains(&s(1)) || !["quick", "thorough"].contains(&s(2)) {
                eprintln!("unknown property {}", s(1));
                2
            } else if std::env::var("MC_INPROC").is_ok() {
                harness::build_and_explore(s(1), s(2))
            } else {
                harness::parent(s(1), s(2))
            }
        }
        "child" => harness::build_and_explore(s(1), s(2)),
        "case" => harness::one_case(s(1), s(2), props::get(s(1), s(2)).unwrap(), s(3), s(4).parse().unwrap()),
        "list" => {
            for id in props::ALL {
                let p = props::get(id, if s(1) == "thorough" { "thorough" } else { "quick" }).unwrap();
                println!("{id} {} {}", p.level, p.technique);
                for s in &p.suites {
                    println!("   {:<30} {:>12}  {}", s.name(), s.total(), s.bounds());
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> <quick|thorough> | case <ID> <tier> <suite> <idx> | list");
            2
        }
    };
    std::process::exit(code);
}
