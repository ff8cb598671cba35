#![allow(dead_code, unused_mut, unused_variables, unused_imports, non_camel_case_types, unused_braces, unreachable_patterns)]
mod checks;
mod model;
mod observe;
mod paths_gen;
mod run;
#[cfg(all(feature = "serde", feature = "speedy"))]
mod tree;
mod types_gen;
mod universe;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("--child") => {
            let args2 = args.clone();
            // room for the deep recursion of unoptimized code, little enough to notice an infinite one soon
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let check = checks::find(&args2[1]).expect("no such check");
                    run::child(&check, &args2[2..]);
                })
                .unwrap()
                .join()
                .unwrap();
        }
        Some("--probe") => checks::probe(&args[1..]),
        Some(id) => {
            let check = checks::find(id).expect("no such check");
            let tier = args.get(1).map_or("quick", String::as_str);
            std::process::exit(run::parent(&check, tier));
        }
        None => {
            println!("{} types", universe::universe().len());
        }
    }
}
