//! The bundled tables.
use super::one;
use crate::model::*;
use crate::sweeps::singles;
use crate::util::*;
use unicode_intervals::{Interval, UnicodeVersion};

type Lists = Result<Vec<Vec<Interval>>, String>;

fn table(v: usize) -> Lists {
    about(|| format!("table of {:?}", VERS[v]));
    call(|| VERS[v].table().iter().map(|l| l.to_vec()).collect())
}
fn looked_up(v: usize) -> Lists {
    about(|| format!("intervals_for in {:?}", VERS[v]));
    call(|| CATS.iter().map(|c| VERS[v].intervals_for(*c).to_vec()).collect())
}
/// The query for each single category, written in different ways.
fn queried(v: usize, way: usize) -> Lists {
    let mut out = vec![];
    for c in 0..30 {
        let m = 1u32 << c;
        let mut q = match way {
            0 => Q::new(v).cats(Some(m), None),
            1 => Q::new(v).cats(None, Some(ALL & !m)),
            2 => Q::new(v).cats(Some(ALL), Some(ALL & !m)),
            3 => Q::new(v).cats(Some(m | (m >> 1)), Some(m >> 1)),
            _ => Q::new(v).cats(Some(m), Some(0)).chars(Some(String::new()), Some(String::new())),
        };
        q.explicit = way % 2 == 0;
        about(|| q.json());
        out.push(match q.ask() {
            Ok(Ok(l)) => l,
            other => return Err(format!("{other:?}")),
        });
    }
    Ok(out)
}
/// The same, from the members of the interval set.
fn iterated(v: usize) -> Lists {
    let mut out = vec![];
    for c in 0..30 {
        let q = Q::new(v).cats(Some(1 << c), None);
        about(|| q.json());
        let set = match q.set() {
            Ok(Ok(s)) => s,
            other => return Err(format!("{:?}", other.map(|o| o.map(|_| ())))),
        };
        let l = call(|| {
            let mut l: Vec<Interval> = vec![];
            for x in set.iter().take(1_200_000) {
                match l.last_mut() {
                    Some(t) if t.1.checked_add(1) == Some(x) => t.1 = x,
                    _ => l.push((x, x)),
                }
            }
            l
        });
        out.push(l?);
    }
    Ok(out)
}

fn lists(r: &Lists) -> String {
    plain(r, |v| list(v, |l| ivs(l)))
}

// ---------------------------------------------------------------- C14

pub fn normalised(_cfg: &Cfg) -> Vec<Job<'_>> {
    vec![Box::new(|| {
        let mut b = Block::new();
        for round in 0..3 {
            for i in 0..11 {
                let v = (i * (round + 1) + round) % 11;
                about(|| format!("normalized_categories of {:?}", VERS[v]));
                let counts = match table(v) {
                    Ok(t) => t.iter().map(|l| l.len() as i64).collect::<Vec<_>>(),
                    Err(_) => vec![],
                };
                let r = call(|| VERS[v].normalized_categories());
                b.put(
                    format!(
                        "{{\"op\":\"norm\",\"v\":{},\"counts\":{},\"r\":{}}}",
                        v + 1,
                        ints(&counts),
                        plain(&r, |l| list(l, |c| cat_no(*c).to_string()))
                    ),
                    1000,
                );
            }
        }
        vec![b]
    })]
}

// ---------------------------------------------------------------- C15

pub fn partition(_cfg: &Cfg) -> Vec<Job<'_>> {
    let mut jobs: Vec<Job> = vec![];
    for v in 0..11 {
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            b.put(format!("{{\"op\":\"part\",\"v\":{},\"r\":{}}}", v + 1, lists(&table(v))), 30_000);
            b.put(format!("{{\"op\":\"agree\",\"v\":{},\"how\":\"intervals_for\",\"r\":{}}}", v + 1, lists(&looked_up(v))), 10_000);
            for way in 0..5 {
                b.put(format!("{{\"op\":\"agree\",\"v\":{},\"how\":\"query {way}\",\"r\":{}}}", v + 1, lists(&queried(v, way))), 10_000);
            }
            b.put(format!("{{\"op\":\"agree\",\"v\":{},\"how\":\"members\",\"r\":{}}}", v + 1, lists(&iterated(v))), 10_000);
            vec![b]
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C16

pub fn fidelity(_cfg: &Cfg) -> Vec<Job<'_>> {
    let mut jobs: Vec<Job> = vec![];
    for v in 0..11 {
        jobs.push(Box::new(move || {
            let mut out = vec![];
            for how in 0..3 {
                let r = match how {
                    0 => table(v),
                    1 => looked_up(v),
                    _ => queried(v, 0),
                };
                out.extend(one(format!("{{\"op\":\"tables\",\"v\":{},\"r\":{}}}", v + 1, lists(&r)), 30_000));
            }
            out
        }));
        for c in 0..30 {
            jobs.push(Box::new(move || one(singles(v, Some(1 << c), None), 6_000)));
        }
        // by the characters of all other categories
        for c in [2, 12, 23, 26, 28] {
            jobs.push(Box::new(move || one(singles(v, None, Some(ALL & !(1 << c))), 6_000)));
        }
    }
    jobs
}

// ---------------------------------------------------------------- C17

pub fn evolution(_cfg: &Cfg) -> Vec<Job<'_>> {
    let mut jobs: Vec<Job> = vec![];
    jobs.push(Box::new(|| {
        let name = |v: &UnicodeVersion| esc(v.as_str());
        let r = call(|| {
            let d = unicode_intervals::query();
            let dflt = VERS.iter().filter(|v| v.query() == d).copied().collect::<Vec<_>>();
            (UnicodeVersion::ALL, UnicodeVersion::latest(), dflt)
        });
        one(
            match r {
                Ok((all, latest, dflt)) => format!(
                    "{{\"op\":\"versions\",\"r\":{{\"ok\":{},\"latest\":{},\"dflt\":{}}}}}",
                    list(&all, name),
                    name(&latest),
                    if dflt.len() == 1 { name(&dflt[0]) } else { "\"several\"".into() }
                ),
                Err(m) => format!("{{\"op\":\"versions\",\"r\":{}}}", panicked(&m)),
            },
            10,
        )
    }));
    for way in 0..4usize {
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            for i in 0..11 {
                let v = [i, 10 - i, (i * 7) % 11, (i * 4 + 3) % 11][way];
                let r = match way {
                    0 => table(v),
                    1 => looked_up(v),
                    2 => queried(v, 1),
                    _ => iterated(v),
                };
                b.put(format!("{{\"op\":\"evolve\",\"v\":{},\"r\":{}}}", v + 1, lists(&r)), 60_000);
            }
            vec![b]
        }));
    }
    jobs
}
