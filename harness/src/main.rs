//! Command line of the checks.
//!
//!   list                               the properties
//!   check ID                           the registered check (VERIF_SEED, VERIF_TIER)
//!   replay FILE                        run a replay file again
//!   sample ID N                        print generated cases
//!   worker / one / pinned              run by `check` in child processes

mod alloc;
mod engine;
mod extyaml;
mod gen;
mod json;
mod layout;
mod model;
mod mutate;
mod props;
mod refsem;
mod supervise;

use engine::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

fn find(id: &str) -> &'static Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            std::process::exit(3);
        }
    }
}

fn main() {
    install_panic_hook();
    props::set_limits();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize, d: u64| args.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match arg(0).as_str() {
        "list" => {
            for p in props::all() {
                println!("{}\t{}", p.id, p.title);
            }
            0
        }
        "check" => supervise::check(find(&arg(1)), args.get(2).and_then(|x| x.parse().ok())),
        "worker" => {
            let p = find(&arg(1));
            supervise::worker(p, num(2, 1), num(3, 0), num(4, 1000), num(5, 8) as usize, &arg(6), &arg(7), num(8, 60), num(9, 600))
        }
        "one" => {
            let (p, seed, idx) = (find(&arg(1)), num(2, 1), num(3, 0));
            big_stack(move || supervise::one(p, case_seed(p.id, seed, idx)))
        }
        "choices" => {
            let (p, f) = (find(&arg(1)), arg(2));
            big_stack(move || supervise::choices(p, &f))
        }
        "pinned" => {
            let p = find(&arg(1));
            big_stack(move || supervise::pinned(p))
        }
        "deep" => props::text::deep(num(1, 10_000) as usize),
        "effort" => {
            let (n, seed) = (num(1, 1000), num(2, 1));
            big_stack(move || props::effort::measure(n, seed, false))
        }
        "replay" => {
            let f = arg(1);
            big_stack(move || supervise::replay(&f))
        }
        "sample" => {
            let (p, n, seed) = (find(&arg(1)), num(2, 5), num(3, 1));
            big_stack(move || {
                for i in 0..n {
                    let mut src = Src::random(case_seed(p.id, seed, i));
                    let mut ctx = Ctx::default();
                    let out = run_case(p, &mut src, &mut ctx);
                    let verdict = match out {
                        Outcome::Pass => "pass".to_string(),
                        Outcome::Inconclusive(w) => format!("inconclusive: {w}"),
                        Outcome::Fail(m) => format!("FAIL {m}"),
                    };
                    println!("#{i} nontrivial={} labels={:?} draws={} {verdict}\n{}\n----", ctx.nontrivial, ctx.labels, src.record.len(), ctx.case);
                }
                0
            })
        }
        _ => {
            eprintln!("usage: list | check ID | replay FILE | sample ID N [SEED]");
            3
        }
    };
    std::process::exit(code);
}
