//! What is driven for each property.
use crate::model::*;
use crate::util::*;

mod cats;
mod data;
#[cfg(feature = "internals")]
mod internals;
mod queries;
mod sets;
mod values;

pub fn run(profile: &str, cfg: &Cfg, scen: Option<&str>) {
    let scen = scen.map(scenarios).unwrap_or_default();
    let p = pools();
    let jobs: Vec<Job> = match profile {
        "C01" => queries::membership(cfg, &p),
        "C02" => queries::canonical(cfg, &p, scen),
        "C03" => queries::clamping(cfg, &p),
        "C04" => queries::characters(cfg, &p),
        "C05" => queries::algebra(cfg, &p),
        "C06" => queries::verdicts(cfg, &p),
        "C07" => queries::builders(cfg, &p, scen),
        "C08" => sets::positions(cfg, &p),
        "C09" => sets::above(cfg, &p),
        "C10" => sets::iterators(cfg, &p, scen),
        "C11" => cats::category_sets(cfg, scen),
        "C12" => cats::names(cfg),
        "C13" => cats::expand(cfg),
        "C14" => data::normalised(cfg),
        "C15" => data::partition(cfg),
        "C16" => data::fidelity(cfg),
        "C17" => data::evolution(cfg),
        "C18" => queries::purity(cfg, &p),
        "C18child" => {
            queries::purity_child(cfg, &p);
            return;
        }
        "C23" => queries::totality(cfg, &p),
        "C26" => values::values(cfg, &p),
        #[cfg(feature = "internals")]
        "C24" => internals::lists(cfg, &p, scen),
        #[cfg(not(feature = "internals"))]
        "C24" => queries::lists(cfg, &p, scen),
        other => {
            eprintln!("unknown profile {other}");
            std::process::exit(2);
        }
    };
    run_jobs(cfg, jobs);
}

/// Scenarios: one per line, a JSON array of arrays of integers.
pub type Scenario = Vec<Vec<i64>>;

fn scenarios(text: &str) -> Vec<Scenario> {
    let mut out = vec![];
    for line in text.lines() {
        let mut steps: Scenario = vec![];
        let mut cur: Option<Vec<i64>> = None;
        let mut num = String::new();
        let mut depth = 0;
        for c in line.chars() {
            match c {
                '[' => {
                    depth += 1;
                    if depth == 2 {
                        cur = Some(vec![]);
                    }
                }
                ']' | ',' => {
                    if !num.is_empty() {
                        if let Some(v) = cur.as_mut() {
                            v.push(num.parse().expect("number"));
                        }
                        num.clear();
                    }
                    if c == ']' {
                        if depth == 2 {
                            steps.push(cur.take().expect("step"));
                        }
                        depth -= 1;
                    }
                }
                '-' | '0'..='9' => num.push(c),
                _ => {}
            }
        }
        if !steps.is_empty() {
            out.push(steps);
        }
    }
    out
}

/// n jobs of one kind.
pub fn spread<'a>(jobs: &mut Vec<Job<'a>>, n: usize, f: impl Fn(usize) -> Vec<Block> + Send + Clone + 'a) {
    for i in 0..n {
        let f = f.clone();
        jobs.push(Box::new(move || f(i)));
    }
}
/// The same call very often: its first line, and those unlike it.
pub fn steady(b: &mut Block, cost: u64, times: usize, mut line: impl FnMut() -> String) {
    let first = line();
    b.put(first.clone(), cost);
    let mut left = 3;
    for _ in 0..times {
        let again = line();
        if again != first {
            b.put(again, cost);
            left -= 1;
            if left == 0 {
                break;
            }
        }
    }
}
/// Past what small counters hold.
pub const OFTEN: usize = 140_000;
pub fn one(line: String, cost: u64) -> Vec<Block> {
    let mut b = Block::new();
    b.put(line, cost);
    vec![b]
}
