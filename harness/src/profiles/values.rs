//! Values of the library as values: equality, hashing, copies, printing, traits.
use super::sets;
use super::spread;
use crate::model::*;
use crate::probe;
use crate::sweeps::lookups as sweep;
use crate::util::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{RefUnwindSafe, UnwindSafe};
use unicode_intervals::{as_general_categories, Codepoints, Error, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

type Matrix = Vec<Vec<bool>>;

fn matrix<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> bool) -> Matrix {
    a.iter().map(|x| b.iter().map(|y| f(x, y)).collect()).collect()
}
fn show(m: &Matrix) -> String {
    list(m, |r| list(r, |x| u8::from(*x).to_string()))
}

/// Two independently made copies of the values xs stand for, compared pair by pair.
fn line<T: PartialEq + Debug>(kind: &str, xs: &[String], make: impl Fn(usize) -> T, hashed: Option<fn(&T) -> u64>, copy: Option<fn(&T) -> T>) -> String {
    about(|| format!("values {kind} {xs:?}"));
    let r = call(|| {
        let a: Vec<T> = (0..xs.len()).map(&make).collect();
        let b: Vec<T> = match copy {
            Some(c) => a.iter().map(c).collect(),
            None => (0..xs.len()).map(&make).collect(),
        };
        let eq = matrix(&a, &b, |x, y| x == y);
        let ne = matrix(&a, &b, |x, y| x != y);
        let dbg = matrix(&a, &b, |x, y| format!("{x:?}") == format!("{y:?}"));
        let full = matrix(&a, &b, |x, y| format!("{x:#?}") == format!("{y:#?}"));
        let hs = match hashed {
            Some(h) => matrix(&a, &b, |x, y| h(x) == h(y)),
            None => eq.clone(),
        };
        (eq, ne, dbg, full, hs)
    });
    let r = plain(&r, |(eq, ne, dbg, full, hs)| {
        format!("{{\"eq\":{},\"ne\":{},\"debug\":{},\"full\":{},\"hash\":{}}}", show(eq), show(ne), show(dbg), show(full), show(hs))
    });
    format!("{{\"op\":\"values\",\"kind\":\"{kind}\",\"xs\":{},\"r\":{r}}}", list(xs, String::clone))
}

/// How an error came about.
#[derive(Clone)]
enum Cause {
    Cat(String),
    Ver(String),
    Des(String),
    Ask(Q),
    Set(Q),
}

impl Cause {
    fn json(&self) -> String {
        match self {
            Cause::Cat(s) | Cause::Des(s) => format!("{{\"k\":\"cat\",\"s\":{}}}", esc(s)),
            Cause::Ver(s) => format!("{{\"k\":\"ver\",\"s\":{}}}", esc(s)),
            Cause::Ask(q) | Cause::Set(q) => format!("{{\"k\":\"ask\",\"q\":{}}}", q.json()),
        }
    }
    fn make(&self) -> Error {
        match self {
            Cause::Cat(s) => s.parse::<UnicodeCategory>().expect_err("error"),
            Cause::Des(s) => as_general_categories([s], UnicodeVersion::latest()).expect_err("error"),
            Cause::Ver(s) => s.parse::<UnicodeVersion>().expect_err("error"),
            Cause::Ask(q) => q.build().intervals().expect_err("error"),
            Cause::Set(q) => q.build().interval_set().expect_err("error"),
        }
    }
}

fn causes(r: &mut Rng) -> Vec<Cause> {
    const BAD: [&str; 16] = ["", " ", "Q", "lu", "LU", "9.0.0 ", "9", "Lu\u{0}", "0", "1", "1, 2", "\u{1F600}", "'", "\"", "Lx", "N0"];
    const NUM: [u32; 12] = [0, 1, 2, 64, 255, 256, MAX - 1, MAX, MAX + 1, MAX + 2, i32::MAX as u32 + 1, u32::MAX];
    let mut out = vec![];
    let long = [64, 1000, 2000, 4096, 9000][r.below(5)];
    for _ in 0..14 {
        let s = match r.below(8) {
            0 => "x".repeat(r.below(600)) + r.pick(&BAD),
            1 => "x".repeat(long) + r.pick(&BAD),
            _ => (*r.pick(&BAD)).to_string(),
        };
        let mut a = *r.pick(&NUM);
        let mut b = *r.pick(&NUM);
        if a <= b && b <= MAX {
            if a == b {
                a = MAX + 1;
            } else {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let q = Q::new(r.below(11)).range(a, b);
        out.push(match r.below(5) {
            0 => Cause::Cat(s),
            1 => Cause::Ver(s),
            2 => Cause::Des(s),
            3 => Cause::Ask(q),
            _ => Cause::Set(q),
        });
    }
    out
}

fn traits() -> Vec<String> {
    macro_rules! all {
        ($name:expr, $t:ty) => {{
            let mut v: Vec<&str> = vec![];
            if probe!($t: Send) { v.push("Send"); }
            if probe!($t: Sync) { v.push("Sync"); }
            if probe!($t: Unpin) { v.push("Unpin"); }
            if probe!($t: UnwindSafe) { v.push("UnwindSafe"); }
            if probe!($t: RefUnwindSafe) { v.push("RefUnwindSafe"); }
            if probe!($t: Clone) { v.push("Clone"); }
            if probe!($t: Copy) { v.push("Copy"); }
            if probe!($t: Eq) { v.push("Eq"); }
            if probe!($t: Hash) { v.push("Hash"); }
            if probe!($t: Debug) { v.push("Debug"); }
            if probe!($t: Default) { v.push("Default"); }
            if probe!($t: std::fmt::Display) { v.push("Display"); }
            if probe!($t: std::str::FromStr) { v.push("FromStr"); }
            if probe!($t: std::error::Error) { v.push("Error"); }
            if probe!($t: DoubleEndedIterator) { v.push("DoubleEndedIterator"); }
            format!("{{\"op\":\"traits\",\"t\":\"{}\",\"r\":{}}}", $name, list(&v, |x| esc(x)))
        }};
    }
    vec![
        all!("UnicodeVersion", UnicodeVersion),
        all!("UnicodeCategory", UnicodeCategory),
        all!("UnicodeCategorySet", UnicodeCategorySet),
        all!("IntervalQuery", IntervalQuery<'static>),
        all!("IntervalSet", IntervalSet),
        all!("Codepoints", Codepoints<'static>),
        all!("Error", Error),
    ]
}

fn lookups(set: &IntervalSet, r: &mut Rng, iv: &[(u32, u32)], b: &mut Block) {
    b.put(sets::len_line(set), 30);
    for _ in 0..12 {
        let near = if iv.is_empty() { r.below(MAX as usize + 2) as u32 } else {
            let e = *r.pick(iv);
            (if r.chance(1, 2) { e.0 } else { e.1 }).wrapping_add(r.below(3) as u32).wrapping_sub(1)
        };
        let i = r.below(set.len() + 3) as u32;
        b.put(format!("{{\"op\":\"at\",\"h\":1,\"x\":{},\"r\":{}}}", n(i), plain(&call(|| set.codepoint_at(i)), |o| opt(*o))), 30);
        b.put(format!("{{\"op\":\"pos\",\"h\":1,\"x\":{},\"r\":{}}}", n(near), plain(&call(|| set.index_of(near)), |o| opt(*o))), 30);
        b.put(format!("{{\"op\":\"has\",\"h\":1,\"x\":{},\"r\":{}}}", n(near), plain(&call(|| set.contains(near)), |o| format!("[{}]", u8::from(*o)))), 30);
        b.put(format!("{{\"op\":\"above\",\"h\":1,\"x\":{},\"r\":{}}}", n(near), plain(&call(|| set.index_above(near)), |o| format!("[{}]", n(*o)))), 30);
    }
    let steps = vec![vec![0, 1], vec![1, 1, r.below(50) as i64], vec![5, 1, 2], vec![2, 2, r.below(50) as i64], vec![8, 1], vec![7, 2, 0], vec![6, 1]];
    sets::play(set, &steps, r.below(60), b);
}

/// A set copied; the original is used and dropped, and the copy asked.
fn copied(q: &Q, r: &mut Rng, way: usize) -> Vec<Block> {
    let mut b = Block::new();
    let Some((set, iv)) = sets::open(q, &mut b) else { return vec![b] };
    about(|| format!("copy of the set of {}", q.json()));
    let made = call(|| {
        if way % 2 == 0 {
            // the original has a history
            let _ = (set.index_of(65_u32), set.codepoint_at(7), set.iter().nth(3), format!("{set:?}").len());
        }
        let c = match way % 4 {
            0 | 1 => set.clone(),
            2 => {
                let mut other = q.build().max_codepoint(MAX).min_codepoint(0).interval_set().expect("set");
                other.clone_from(&set);
                other
            }
            _ => *Box::new(set.clone().clone()),
        };
        let same = format!("{set:?}") == format!("{c:?}");
        drop(set);
        let noise: Vec<u32> = (0..iv.len() as u32 * 2 + 8).collect();
        drop(noise);
        (c, same)
    });
    match made {
        Ok((c, same)) => {
            b.put(format!("{{\"op\":\"same\",\"what\":\"printed form of a copy\",\"r\":{}}}", u8::from(same)), 10);
            lookups(&c, r, &iv, &mut b);
        }
        Err(m) => b.put(format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&m)), 1),
    }
    vec![b]
}

/// A string of runs of these lengths, with these gaps between them.
fn runs(start: u32, lens: &[u32], gaps: &[u32]) -> String {
    let mut s = String::new();
    let mut x = start;
    for (n, g) in lens.iter().zip(gaps) {
        s.extend((x..x + n).filter_map(char::from_u32));
        x += n + g;
    }
    s
}

/// A small set put in the place of another that is like it in some ways.
fn replaced(r: &mut Rng, i: usize) -> Vec<Block> {
    let v = r.below(11);
    let ask = |s: String| Q::new(v).cats(Some(0), None).chars(Some(s), None);
    let k = 1 + r.below(6);
    let mut lens: Vec<u32> = (0..k).map(|_| 1 + r.below(5) as u32).collect();
    let mut gaps: Vec<u32> = (0..k).map(|_| 1 + r.below(6) as u32).collect();
    let start = r.below(400) as u32;
    let new = ask(runs(start, &lens, &gaps));
    match i % 5 {
        0 => lens.rotate_left(1),
        1 => gaps[..k - 1].reverse(),
        2 => {
            // as many members and intervals, the same ends
            let (a, b) = (r.below(k), r.below(k));
            if lens[a] > 1 {
                lens[a] -= 1;
                lens[b] += 1;
            }
        }
        3 => {
            lens.push(2);
            gaps.push(1);
        }
        _ => {}
    }
    let old = ask(runs(if i % 5 == 4 { start + 1 } else { start }, &lens, &gaps));
    let mut b = Block::new();
    let Some((set, iv)) = sets::open(&new, &mut b) else { return vec![b] };
    about(|| format!("set of {} put in the place of that of {}", new.json(), old.json()));
    let made = call(|| {
        let mut place = old.build().interval_set().expect("set");
        if i % 2 == 0 {
            let _ = (place.index_of(65_u32), place.codepoint_at(1), place.iter().last());
        }
        place.clone_from(&set);
        if i % 3 == 0 {
            let again = place.clone();
            place.clone_from(&old.build().interval_set().expect("set"));
            place.clone_from(&again);
        }
        drop(set);
        place
    });
    match made {
        Err(m) => b.put(format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&m)), 1),
        Ok(set) => {
            b.put(sets::len_line(&set), 20);
            let top = iv.last().map_or(0, |t| t.1) + 3;
            let to = set.len() as u32 + 3;
            b.put(sweep("atseg", 1, 0, to, &set, false, |s, x| s.codepoint_at(x)), 100);
            b.put(sweep("posseg", 1, 0, top, &set, false, |s, x| s.index_of(x)), 100);
            b.put(sweep("hasseg", 1, 0, top, &set, true, |s, x| if s.contains(x) { Some(1) } else { None }), 100);
            b.put(sweep("aboveseg", 1, 0, top, &set, false, |s, x| Some(s.index_above(x))), 100);
            sets::play(&set, &[vec![0, 1], vec![6, 1], vec![7, 1, 0], vec![7, 1, 1], vec![8, 1]], i, &mut b);
        }
    }
    vec![b]
}

pub fn values<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    jobs.push(Box::new(|| {
        let mut b = Block::new();
        for l in traits() {
            b.put(l, 10);
        }
        let xs: Vec<String> = (1..=11).map(|i| i.to_string()).collect();
        b.put(line("version", &xs, |i| VERS[i], Some(hash), Some(|x| *x)), 1000);
        b.put(line("version", &xs, |i| VERS[i].as_str().parse::<UnicodeVersion>().expect("version"), Some(hash), None), 1000);
        b.put(line("version", &xs, |i| VERS[i].to_string().parse::<UnicodeVersion>().expect("version"), Some(hash), Some(Clone::clone)), 1000);
        let xs: Vec<String> = (1..=30).map(|i| i.to_string()).collect();
        b.put(line("category", &xs, |i| CATS[i], Some(hash), Some(|x| *x)), 5000);
        b.put(line("category", &xs, |i| CATS[i].as_str().parse::<UnicodeCategory>().expect("category"), Some(hash), None), 5000);
        b.put(line("category", &xs, |i| UnicodeCategorySet::from(CATS[i]).iter().next().expect("member"), Some(hash), Some(Clone::clone)), 5000);
        vec![b]
    }));
    let k = if cfg.thorough { 40 } else { 4 };
    spread(&mut jobs, 8 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 26_000 + i as u64);
        let mut out = vec![];
        for _ in 0..10 {
            let cs = causes(&mut r);
            let xs: Vec<String> = cs.iter().map(Cause::json).collect();
            let mut b = Block::new();
            b.put(line("error", &xs, |i| cs[i].make(), None, None), 4000);
            out.push(b);
        }
        out
    });
    spread(&mut jobs, 8 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 26_500 + i as u64);
        let mut out = vec![];
        for j in 0..6 {
            let mut ms: Vec<u32> = vec![];
            for _ in 0..12 {
                let m = if ms.is_empty() || r.chance(1, 2) { r.next() as u32 & ALL } else { *r.pick(&ms) ^ (1 << r.below(30)) };
                ms.push([m, 0, ALL, 1 << 29][if r.chance(1, 6) { r.below(4) } else { 0 }]);
            }
            let xs: Vec<String> = ms.iter().map(|m| mask_list(*m)).collect();
            let mut b = Block::new();
            let made = |i: usize| match j % 3 {
                0 => to_set(ms[i]),
                1 => {
                    // by removal
                    let mut s = UnicodeCategorySet::all();
                    for (k, c) in CATS.iter().enumerate().rev() {
                        if ms[i] & (1 << k) == 0 {
                            s.remove(*c);
                        }
                    }
                    s
                }
                _ => {
                    let mut s = UnicodeCategorySet::default();
                    for (k, c) in CATS.iter().enumerate().rev() {
                        if ms[i] & (1 << k) != 0 {
                            s |= *c;
                        }
                    }
                    s
                }
            };
            b.put(line("catset", &xs, made, Some(hash), if j % 2 == 0 { None } else { Some(|x| *x) }), 4000);
            out.push(b);
        }
        out
    });
    // sets that differ in neighbours in the table, every one of those
    spread(&mut jobs, 31, move |i| {
        let mut r = Rng::new(cfg.seed, 25_000 + i as u64);
        let base = if r.chance(1, 3) { 0 } else { p.mask(&mut r) };
        let runs: Vec<u32> = (0..30).flat_map(|a| (a..30).map(move |z| (a..=z).fold(0, |m, k| m | 1u32 << k))).collect();
        let mut ms = vec![base];
        ms.extend(runs[i * 15..i * 15 + 15].iter().map(|m| base ^ m));
        let xs: Vec<String> = ms.iter().map(|m| mask_list(*m)).collect();
        let mut b = Block::new();
        b.put(line("catset", &xs, |i| to_set(ms[i]), Some(hash), None), 6000);
        vec![b]
    });
    spread(&mut jobs, 16 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 27_000 + i as u64);
        let mut out = vec![];
        for j in 0..10 {
            let mut q = p.query(&mut r);
            if r.chance(1, 2) {
                q = q.range(0, 3000);
            }
            out.extend(copied(&q, &mut r, i + j));
        }
        out
    });
    spread(&mut jobs, 16 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 28_000 + i as u64);
        (0..20).flat_map(|j| replaced(&mut r, i + j)).collect()
    });
    jobs
}
