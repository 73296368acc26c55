#![allow(warnings)]
mod big;
mod dec;
mod forms_run;
mod hist;
mod ops;
mod region;
mod seqs;
#[path = "table_types.rs"]
mod table;
mod util;
mod variants;

fn main() {
    util::hook();
    util::guard();
    util::tick();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a[0].as_str() {
        "forms" => forms_run::run(&a[1], n(2), n(3)),
        "variants" => forms_run::variants(),
        "case" => forms_run::case(&a[1..]),
        "ops" => ops::run(n(1), n(2)),
        "hist" => hist::run(&a[1], n(2), n(3)),
        "hist1" => {
            hist::one(&a[1], n(2), n(3), [n(4) as usize, n(5) as usize, n(6) as usize]);
        }
        "big" => big::run(&a[1], n(2), n(3)),
        "region" => region::run(n(1), n(2)),
        "region1" => region::one(n(1) as usize, n(2) as usize, n(3) as usize),
        "layout" => region::layout(n(1)),
        "ptrs" => region::ptrs(n(1)),
        "seqs" => seqs::run(),
        _ => panic!("mode"),
    }
    println!("DONE");
}
