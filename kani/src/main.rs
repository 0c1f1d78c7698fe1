#[cfg(kani)]
fn main() {}

/// `replay list`                       - the harnesses compiled in
/// `replay run <harness> <file>`       - replays a counterexample; exit 101 when the harness fails
/// `replay search <harness> <seed> <n> <out>` - tries `n` seeded inputs and writes the first failing one to `out`
#[cfg(not(kani))]
fn main() {
    use speedy_verif::nd::{AssumptionFailed, Source, SOURCE};
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (name, attributes, _) in speedy_verif::harnesses() {
                println!("{} {}", name, attributes.join(" "));
            }
        }
        Some("run") => {
            let f = find(&args[2]);
            let text = std::fs::read_to_string(&args[3]).unwrap();
            let list = text
                .lines()
                .filter_map(|l| l.strip_prefix("any "))
                .flat_map(|l| l.split_whitespace().map(|n| n.parse().unwrap()))
                .collect();
            SOURCE.with(|s| *s.borrow_mut() = Source::List(list));
            match std::panic::catch_unwind(f) {
                Ok(()) => println!("REPLAY passed"),
                Err(e) if e.is::<AssumptionFailed>() => {
                    println!("REPLAY assumption-failed");
                    std::process::exit(3);
                }
                Err(e) => {
                    let message = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    println!("REPLAY failed: {}", message);
                    std::process::exit(101);
                }
            }
        }
        Some("search") => {
            let f = find(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let n: u64 = args[4].parse().unwrap();
            std::panic::set_hook(Box::new(|_| ()));
            for i in 0..n {
                SOURCE.with(|s| *s.borrow_mut() = Source::Random(seed.wrapping_mul(0x100000001B3) ^ i, Vec::new()));
                if let Err(e) = std::panic::catch_unwind(f) {
                    if e.is::<AssumptionFailed>() {
                        continue;
                    }
                    let message = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let mut text = format!("harness {}\nfailure {}\n", args[2], message.replace('\n', " "));
                    SOURCE.with(|s| {
                        if let Source::Random(_, ref log) = *s.borrow() {
                            for v in log {
                                text.push_str("any");
                                for b in v {
                                    text.push_str(&format!(" {}", b));
                                }
                                text.push('\n');
                            }
                        }
                    });
                    std::fs::write(&args[5], text).unwrap();
                    println!("SEARCH failed: {}", message);
                    std::process::exit(101);
                }
            }
            println!("SEARCH passed {}", n);
        }
        _ => std::process::exit(2),
    }

    fn find(name: &str) -> fn() {
        match speedy_verif::harnesses().into_iter().find(|h| h.0 == name) {
            Some(h) => h.2,
            None => {
                eprintln!("no such harness: {}", name);
                std::process::exit(2)
            }
        }
    }
}
