//! Category sets, names and designations.
use super::{one, spread, steady, Scenario, OFTEN};
use crate::model::*;
use crate::util::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use unicode_intervals::{as_general_categories, Error, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};

const CLASSES: [(&str, UnicodeCategorySet); 7] = [
    ("L", UnicodeCategory::L),
    ("M", UnicodeCategory::M),
    ("N", UnicodeCategory::N),
    ("P", UnicodeCategory::P),
    ("S", UnicodeCategory::S),
    ("Z", UnicodeCategory::Z),
    ("C", UnicodeCategory::C),
];

fn cat_list(v: &[UnicodeCategory]) -> String {
    list(v, |c| cat_no(*c).to_string())
}
fn cat(k: i64) -> UnicodeCategory {
    CATS[(k - 1) as usize]
}
fn hash<T: Hash>(x: T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- C11

fn observe(s: UnicodeCategorySet, h: i64) -> String {
    let r = call(|| {
        let len = s.len();
        let mut seen = vec![];
        let mut it = s.iter();
        for _ in 0..40 {
            match it.next() {
                Some(c) => seen.push(c),
                None => break,
            }
        }
        let has: Vec<UnicodeCategory> = CATS.iter().copied().filter(|c| s.contains(*c)).collect();
        (len, s.is_empty(), s.into_value(), seen, has, s.to_string())
    });
    match r {
        Ok((len, empty, raw, seen, has, text)) => format!(
            "{{\"op\":\"cobs\",\"h\":{h},\"r\":{{\"ok\":[{},{},{}],\"list\":{},\"has\":{},\"text\":{}}}}}",
            nz(len),
            u8::from(empty),
            n(raw),
            cat_list(&seen),
            cat_list(&has),
            esc(&text)
        ),
        Err(m) => format!("{{\"op\":\"cobs\",\"h\":{h},\"r\":{}}}", panicked(&m)),
    }
}

/// What is left after n categories were taken, in different ways.
fn remainder(s: UnicodeCategorySet, k: usize, style: usize) -> Vec<UnicodeCategory> {
    let mut it = s.iter();
    if style % 2 == 0 {
        for _ in 0..k {
            it.next();
        }
    } else if k > 0 {
        it.nth(k - 1);
    }
    match style / 2 % 20 {
        0 => it.collect(),
        1 => it.fold(vec![], |mut a, c| {
            a.push(c);
            a
        }),
        2 => {
            let mut a = vec![];
            it.for_each(|c| a.push(c));
            a
        }
        3 => {
            let mut a = vec![];
            for c in it {
                a.push(c);
            }
            a
        }
        4 => {
            let mut a = vec![];
            while let Some(c) = it.nth(0) {
                a.push(c);
            }
            a
        }
        5 => {
            let mut a = vec![];
            let mut it = it.peekable();
            while it.peek().is_some() {
                a.extend(it.next());
            }
            a
        }
        6 => {
            let mut a = Vec::with_capacity(1);
            a.extend(it);
            a
        }
        7 => it.enumerate().map(|(_, c)| c).collect(),
        8 => {
            let mut a = vec![];
            let _ = it.try_for_each(|c| {
                a.push(c);
                Some(())
            });
            a
        }
        9 => {
            let mut a = vec![];
            let _ = it.find(|c| {
                a.push(*c);
                false
            });
            a
        }
        10 => {
            let mut a = vec![];
            let _ = it.position(|c| {
                a.push(c);
                false
            });
            a
        }
        11 => {
            let mut a = vec![];
            let _ = it.all(|c| {
                a.push(c);
                true
            });
            a
        }
        12 => {
            let mut a = vec![];
            let _ = it.any(|c| {
                a.push(c);
                false
            });
            a
        }
        13 => {
            let mut a = vec![];
            let last = it.reduce(|x, c| {
                a.push(x);
                c
            });
            a.extend(last);
            a
        }
        14 => {
            let mut odd = false;
            let (x, y): (Vec<_>, Vec<_>) = it.partition(|_| {
                odd = !odd;
                odd
            });
            let mut y = y.into_iter();
            x.into_iter().flat_map(|c| std::iter::once(c).chain(y.next())).collect()
        }
        15 => {
            let mut a = vec![];
            let _ = it.find_map(|c| {
                a.push(c);
                None::<()>
            });
            a
        }
        16 => {
            let mut a = vec![];
            let _ = it.max_by_key(|c| {
                a.push(*c);
                0
            });
            a
        }
        17 => {
            let mut a = vec![];
            let _ = it.min_by_key(|c| {
                a.push(*c);
                0
            });
            a
        }
        18 => {
            let (a, _): (Vec<_>, Vec<_>) = it.map(|c| (c, c)).unzip();
            a
        }
        _ => {
            // one at a time, and again after the end
            let mut a = vec![];
            for _ in 0..40 {
                a.extend(it.next());
            }
            a
        }
    }
}

/// The last of what is left after n were taken.
fn final_one(s: UnicodeCategorySet, k: usize, style: usize) -> Option<UnicodeCategory> {
    let mut it = s.iter();
    if style % 2 == 0 {
        for _ in 0..k {
            it.next();
        }
    } else if k > 0 {
        it.nth(k - 1);
    }
    match style / 2 % 4 {
        0 => it.last(),
        1 => it.by_ref().last(),
        2 => it.max_by_key(|_| 0),
        _ => it.reduce(|_, c| c),
    }
}

/// The number left after n were taken, as the standard adaptors and consumers report it.
fn remaining(s: UnicodeCategorySet, k: usize, style: usize) -> usize {
    let mut it = s.iter();
    if style == 0 {
        return it.skip(k).len();
    }
    for _ in 0..k {
        it.next();
    }
    match style {
        1 => it.len(),
        2 => it.enumerate().len(),
        3 => it.map(|c| c).len(),
        4 => it.peekable().len(),
        5 => it.zip(0..1000).len(),
        6 => it.take(1000).len(),
        7 => it.inspect(|_| ()).len(),
        8 => it.fuse().len(),
        9 => (&mut it).len(),
        10 => Box::new(it).len(),
        11 => it.count(),
        12 => it.size_hint().0,
        13 => it.size_hint().1.unwrap_or(usize::MAX),
        14 => it.collect::<Vec<_>>().len(),
        15 => {
            let mut p = it.peekable();
            let _ = p.peek();
            p.len()
        }
        16 => it.by_ref().take(1000).len(),
        _ => it.skip(0).size_hint().1.unwrap_or(usize::MAX),
    }
}
const REMAINING_STYLES: usize = 18;

/// Steps: [0,t,kind,k] make (0 empty, 1 all, 2 default, 3 one category, 4 class); [1,h,k] add; [2,h,k] remove;
/// [3,h,g,t] union; [4,h,k,t] with a category; [5,k,j,t] two categories; [6,h] look; [7,h,g] equal; [8,h,g] hash;
/// [9,h,t] iterator; [10,t] next; [11,t,n] nth; [12,t] size; [13,h,n] rest; [14,h,n] length of the rest;
/// [15,h,n] last of the rest; [16,h,n,k] every k-th of the rest
fn play(steps: &[Vec<i64>], style: usize) -> Block {
    let mut b = Block::new();
    let mut sets: HashMap<i64, UnicodeCategorySet> = HashMap::new();
    let mut its: HashMap<i64, Box<dyn ExactSizeIterator<Item = UnicodeCategory>>> = HashMap::new();
    for (i, s) in steps.iter().enumerate() {
        let z = style.wrapping_add(i * 7);
        about(|| format!("category set step {i} of {steps:?}"));
        let line: Result<String, String> = match s[0] {
            0 => {
                let (t, k) = (s[1], s[3]);
                let (made, text) = match s[2] {
                    0 => (call(UnicodeCategorySet::new), format!("{{\"op\":\"cput\",\"t\":{t},\"ks\":[]}}")),
                    1 => (call(UnicodeCategorySet::all), format!("{{\"op\":\"cput\",\"t\":{t},\"ks\":{}}}", mask_list(ALL))),
                    2 => (call(UnicodeCategorySet::default), format!("{{\"op\":\"cput\",\"t\":{t},\"ks\":[]}}")),
                    3 => (
                        call(|| {
                            if z % 2 == 0 {
                                UnicodeCategorySet::from(cat(k))
                            } else {
                                Option::<UnicodeCategorySet>::from(cat(k)).unwrap_or_default()
                            }
                        }),
                        format!("{{\"op\":\"cput\",\"t\":{t},\"ks\":[{k}]}}"),
                    ),
                    _ => {
                        let c = CLASSES[(k as usize + 6) % 7];
                        (Ok(c.1), format!("{{\"op\":\"cmajor\",\"t\":{t},\"s\":\"{}\"}}", c.0))
                    }
                };
                made.map(|m| {
                    sets.insert(t, m);
                    text
                })
            }
            1 | 2 => {
                let (h, k) = (s[1], s[2]);
                let mut x = sets[&h];
                let r = call(|| {
                    if s[0] == 1 {
                        x.add(cat(k));
                    } else {
                        x.remove(cat(k));
                    }
                    x
                });
                r.map(|x| {
                    sets.insert(h, x);
                    format!("{{\"op\":\"{}\",\"h\":{h},\"k\":{k}}}", if s[0] == 1 { "cadd" } else { "cdrop" })
                })
            }
            3 => {
                let (h, g, t) = (s[1], s[2], s[3]);
                let (x, y) = (sets[&h], sets[&g]);
                call(|| match z % 3 {
                    0 => x | y,
                    1 => {
                        let mut x = x;
                        x |= y;
                        x
                    }
                    _ => y | x,
                })
                .map(|x| {
                    sets.insert(t, x);
                    format!("{{\"op\":\"cjoin\",\"h\":{h},\"g\":{g},\"t\":{t}}}")
                })
            }
            4 => {
                let (h, k, t) = (s[1], s[2], s[3]);
                let x = sets[&h];
                call(|| match z % 3 {
                    0 => x | cat(k),
                    1 => cat(k) | x,
                    _ => {
                        let mut x = x;
                        x |= cat(k);
                        x
                    }
                })
                .map(|x| {
                    sets.insert(t, x);
                    format!("{{\"op\":\"cjoinc\",\"h\":{h},\"k\":{k},\"t\":{t}}}")
                })
            }
            5 => {
                let (k, j, t) = (s[1], s[2], s[3]);
                call(|| cat(k) | cat(j)).map(|x| {
                    sets.insert(t, x);
                    format!("{{\"op\":\"cput\",\"t\":{t},\"ks\":[{k},{j}]}}")
                })
            }
            6 => Ok(observe(sets[&s[1]], s[1])),
            7 => {
                let (x, y) = (sets[&s[1]], sets[&s[2]]);
                #[allow(clippy::nonminimal_bool)]
                let r = call(|| (x == y, x != y));
                Ok(format!(
                    "{{\"op\":\"ceq\",\"h\":{},\"g\":{},\"r\":{}}}",
                    s[1],
                    s[2],
                    plain(&r, |(a, b)| format!("[{},{}]", u8::from(*a), u8::from(*b)))
                ))
            }
            8 => {
                let (x, y) = (sets[&s[1]], sets[&s[2]]);
                let r = call(|| hash(x) == hash(y));
                Ok(format!(
                    "{{\"op\":\"chash\",\"h\":{},\"g\":{},\"r\":{}}}",
                    s[1],
                    s[2],
                    plain(&r, |a| format!("[{}]", u8::from(*a)))
                ))
            }
            9 => {
                let x = sets[&s[1]];
                call(|| x.iter()).map(|it| {
                    its.insert(s[2], Box::new(it));
                    format!("{{\"op\":\"ciopen\",\"h\":{},\"t\":{}}}", s[1], s[2])
                })
            }
            10 => {
                let it = its.get_mut(&s[1]).expect("slot");
                let r = call(|| it.next());
                Ok(format!("{{\"op\":\"cinext\",\"h\":{},\"r\":{}}}", s[1], plain(&r, |c| opt(c.map(|c| cat_no(c) as u32)))))
            }
            11 => {
                let it = its.get_mut(&s[1]).expect("slot");
                let k = s[2] as usize;
                let r = call(|| it.nth(k));
                Ok(format!(
                    "{{\"op\":\"cinth\",\"h\":{},\"n\":{k},\"r\":{}}}",
                    s[1],
                    plain(&r, |c| opt(c.map(|c| cat_no(c) as u32)))
                ))
            }
            12 => {
                let it = &its[&s[1]];
                let r = call(|| (it.size_hint(), it.len()));
                Ok(format!(
                    "{{\"op\":\"cihint\",\"h\":{},\"r\":{}}}",
                    s[1],
                    plain(&r, |((lo, hi), len)| format!("[{},{},{}]", nz(*lo), hi.map_or(-1, nz), nz(*len)))
                ))
            }
            13 => {
                let x = sets[&s[1]];
                let k = s[2] as usize;
                let r = call(|| remainder(x, k, z));
                Ok(format!("{{\"op\":\"cirest\",\"h\":{},\"n\":{k},\"r\":{}}}", s[1], plain(&r, |v| cat_list(v))))
            }
            15 => {
                let x = sets[&s[1]];
                let k = s[2] as usize;
                let r = call(|| final_one(x, k, z));
                Ok(format!("{{\"op\":\"cilast\",\"h\":{},\"n\":{k},\"r\":{}}}", s[1], plain(&r, |c| opt(c.map(|c| cat_no(c) as u32)))))
            }
            16 => {
                let x = sets[&s[1]];
                let (k, by) = (s[2] as usize, s[3] as usize);
                let r = call(|| {
                    let mut it = x.iter();
                    for _ in 0..k {
                        it.next();
                    }
                    it.step_by(by).collect::<Vec<_>>()
                });
                Ok(format!("{{\"op\":\"cistep\",\"h\":{},\"n\":{k},\"k\":{by},\"r\":{}}}", s[1], plain(&r, |v| cat_list(v))))
            }
            _ => {
                let x = sets[&s[1]];
                let k = s[2] as usize;
                let r = call(|| remaining(x, k, z % REMAINING_STYLES));
                Ok(format!("{{\"op\":\"cilen\",\"h\":{},\"n\":{k},\"r\":{}}}", s[1], plain(&r, |v| format!("[{}]", nz(*v)))))
            }
        };
        match line {
            Ok(l) => b.put(l, 60),
            Err(m) => {
                b.put(format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&format!("{s:?} {m}"))), 1);
                break;
            }
        }
    }
    b
}

pub fn category_sets<'a>(cfg: &'a Cfg, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    for (i, chunk) in scen.chunks(200).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || chunk.iter().enumerate().map(|(j, s)| play(s, i * 200 + j)).collect()));
    }
    // every pair of categories, in every way to join them; every complement
    spread(&mut jobs, 30, move |a| {
        let mut out = vec![];
        for c in 1..=30 {
            let a = a as i64 + 1;
            let steps: Scenario = vec![
                vec![5, a, c, 1],
                vec![6, 1],
                vec![0, 2, 3, a],
                vec![4, 2, c, 3],
                vec![6, 3],
                vec![7, 1, 3],
                vec![8, 1, 3],
                vec![1, 2, c],
                vec![7, 2, 1],
                vec![2, 2, a],
                vec![6, 2],
                vec![7, 2, 1],
                vec![0, 4, 1, 0],
                vec![2, 4, c],
                vec![2, 4, a],
                vec![6, 4],
                vec![3, 4, 1, 5],
                vec![0, 6, 1, 0],
                vec![7, 5, 6],
                vec![13, 4, c % 4],
                vec![14, 4, a % 7],
            ];
            out.push(play(&steps, (a * 30 + c) as usize));
        }
        out
    });
    // steps of every length, from every state of the iterator
    spread(&mut jobs, 31 + 36, move |i| {
        let mut r = Rng::new(cfg.seed, 131_000 + i as u64);
        let mut steps: Scenario = vec![match i {
            0 => vec![0, 1, 1, 0],
            1..=30 => vec![0, 1, 3, i as i64],
            _ => vec![0, 1, (i % 2) as i64, 0],
        }];
        if i > 30 {
            // some, nearly all, and those with the first or the last
            for _ in 0..[1, 3, 8, 15][i / 2 % 4] {
                steps.push(vec![if i % 2 == 0 { 1 } else { 2 }, 1, 1 + r.below(30) as i64]);
            }
            steps.push(vec![1, 1, [1, 30, 1 + r.below(30) as i64][i % 3]]);
        }
        steps.push(vec![6, 1]);
        let mut t = 1;
        for done in [0, 1, 2, 29] {
            for k in (0..=34).chain([63, 64, 255, 256, 65536, 1 << 30]) {
                if done > 0 && (i > 0 && i < 31 || r.chance(1, 2)) {
                    continue;
                }
                t = t % 8 + 1;
                steps.push(vec![9, 1, t]);
                for _ in 0..done {
                    steps.push(vec![10, t]);
                }
                steps.extend([vec![11, t, k], vec![12, t], vec![10, t], vec![11, t, r.below(31) as i64], vec![10, t], vec![12, t]]);
            }
        }
        vec![play(&steps, i)]
    });
    // few and nearly all, consumed in every way
    spread(&mut jobs, 31, move |i| {
        let mut r = Rng::new(cfg.seed, 132_000 + i as u64);
        let mut out = vec![];
        for most in [true, false] {
            for _ in 0..if cfg.thorough { 12 } else { 3 } {
                let mut steps: Scenario = vec![vec![0, 1, i64::from(most), 0]];
                if i > 0 {
                    steps.push(vec![if most { 2 } else { 1 }, 1, i as i64]);
                }
                for _ in 0..r.below(3) {
                    steps.push(vec![if most { 2 } else { 1 }, 1, 1 + r.below(30) as i64]);
                }
                for n in 0..3 {
                    for _ in 0..8 {
                        steps.push(vec![15, 1, n]);
                    }
                    for _ in 0..40 {
                        steps.push(vec![13, 1, n]);
                    }
                    for by in [1, 2, 3, 7, 28, 29, 30, 31] {
                        steps.push(vec![16, 1, n, by]);
                    }
                }
                out.push(play(&steps, i));
            }
        }
        out
    });
    // every way to see how many are left, at every step
    spread(&mut jobs, 44, move |i| {
        let mut r = Rng::new(cfg.seed, 130_000 + i as u64);
        let mut steps: Scenario = vec![match i {
            0 => vec![0, 1, 0, 0],
            1 => vec![0, 1, 1, 0],
            2 => vec![0, 1, 2, 0],
            3..=9 => vec![0, 1, 4, i as i64],
            10..=39 => vec![0, 1, 3, i as i64 - 9],
            _ => vec![0, 1, 0, 0],
        }];
        if i >= 40 {
            for _ in 0..15 {
                steps.push(vec![1, 1, 1 + r.below(30) as i64]);
            }
        }
        steps.push(vec![6, 1]);
        // 18 consecutive styles for each number (7 and 18 have no common factor)
        for k in 0..=31i64 {
            if i >= 10 && i < 40 && k > 3 {
                break;
            }
            for _ in 0..REMAINING_STYLES {
                steps.push(vec![14, 1, k]);
            }
            for _ in 0..40 {
                steps.push(vec![13, 1, k]);
            }
            for by in 1..=8 {
                steps.push(vec![15, 1, k]);
                steps.push(vec![16, 1, k, by]);
            }
        }
        steps.extend([vec![9, 1, 1], vec![12, 1]]);
        for _ in 0..34 {
            steps.extend([vec![10, 1], vec![12, 1]]);
        }
        vec![play(&steps, 0)]
    });
    // sets of neighbours in the table, joined with what is missing, with what they have, and nearly so
    spread(&mut jobs, 465, move |i| {
        let mut r = Rng::new(cfg.seed, 150_000 + i as u64);
        if !cfg.thorough && (i + cfg.seed as usize) % 2 == 0 {
            return vec![];
        }
        let (mut a, mut z) = (0, i);
        while z >= 30 - a {
            z -= 30 - a;
            a += 1;
        }
        let m = (a..=a + z).fold(0u32, |m, i| m | 1 << i);
        let make = |t: i64, m: u32, steps: &mut Scenario| {
            let few = m.count_ones() <= 15;
            steps.push(vec![0, t, if few { 0 } else { 1 }, 0]);
            for k in 0..30 {
                if (m >> k & 1 == 1) == few {
                    steps.push(vec![if few { 1 } else { 2 }, t, k + 1]);
                }
            }
        };
        let bit = 1u32 << r.below(30);
        let mut out = vec![];
        for other in [ALL & !m, (ALL & !m) ^ bit, m ^ bit, m << 1 & ALL, ALL & !(m | bit)] {
            if !cfg.thorough && r.chance(1, 3) {
                continue;
            }
            let mut steps = vec![];
            make(1, m, &mut steps);
            make(2, other, &mut steps);
            for k in 0..6 {
                steps.push(if k % 2 == 0 { vec![3, 1, 2, 3] } else { vec![3, 2, 1, 3] });
                steps.push(vec![6, 3]);
                if r.chance(1, 2) {
                    // another way the next time
                    steps.push(vec![7, 3, 1]);
                }
            }
            let c = 1 + r.below(30) as i64;
            steps.extend([vec![4, 1, c, 3], vec![6, 3], vec![2, 1, c], vec![6, 1], vec![7, 1, 2], vec![7, 2, 1], vec![6, 2]]);
            out.push(play(&steps, i));
        }
        out
    });
    // long histories
    spread(&mut jobs, if cfg.thorough { 9000 } else { 900 }, move |i| {
        let mut r = Rng::new(cfg.seed, 140_000 + i as u64);
        let mut steps: Scenario = vec![];
        let k = |r: &mut Rng| 1 + r.below(30) as i64;
        for t in 1..=4 {
            let kind = r.below(5) as i64;
            steps.push(vec![0, t, kind, k(&mut r)]);
        }
        let mut open: Vec<i64> = vec![];
        for _ in 0..80 {
            let (h, g, t) = (1 + r.below(4) as i64, 1 + r.below(4) as i64, 1 + r.below(4) as i64);
            let c = k(&mut r);
            steps.push(match r.below(20) {
                0..=3 => vec![1, h, c],
                4..=7 => vec![2, h, c],
                8 => vec![3, h, g, t],
                9 => vec![4, h, c, t],
                10 => vec![5, c, k(&mut r), t],
                11 => vec![0, t, r.below(5) as i64, c],
                12 => vec![6, h],
                13 => vec![7, h, g],
                14 => vec![8, h, g],
                15 if r.chance(1, 3) => vec![15, h, r.below(31) as i64],
                15 => vec![13, h, r.below(34) as i64],
                16 => vec![14, h, r.below(34) as i64],
                17 => {
                    if !open.contains(&t) {
                        open.push(t);
                    }
                    vec![9, h, t]
                }
                _ if open.is_empty() => vec![6, h],
                18 => match r.below(3) {
                    0 => vec![11, *r.pick(&open), r.below(6) as i64],
                    _ => vec![10, *r.pick(&open)],
                },
                _ => vec![12, *r.pick(&open)],
            });
        }
        for t in open {
            for _ in 0..r.below(12) {
                steps.push(vec![10, t]);
            }
            steps.push(vec![12, t]);
            steps.push(vec![11, t, 1 << 30]);
            steps.push(vec![12, t]);
            steps.push(vec![10, t]);
        }
        for h in 1..=4 {
            steps.push(vec![6, h]);
        }
        vec![play(&steps, i)]
    });
    jobs
}

// ---------------------------------------------------------------- C12

const ALIASES: [(&str, UnicodeCategory); 30] = [
    ("CLOSE_PUNCTUATION", UnicodeCategory::CLOSE_PUNCTUATION),
    ("CONNECTOR_PUNCTUATION", UnicodeCategory::CONNECTOR_PUNCTUATION),
    ("CONTROL", UnicodeCategory::CONTROL),
    ("CURRENCY_SYMBOL", UnicodeCategory::CURRENCY_SYMBOL),
    ("DASH_PUNCTUATION", UnicodeCategory::DASH_PUNCTUATION),
    ("DECIMAL_NUMBER", UnicodeCategory::DECIMAL_NUMBER),
    ("ENCLOSING_MARK", UnicodeCategory::ENCLOSING_MARK),
    ("FINAL_PUNCTUATION", UnicodeCategory::FINAL_PUNCTUATION),
    ("FORMAT", UnicodeCategory::FORMAT),
    ("INITIAL_PUNCTUATION", UnicodeCategory::INITIAL_PUNCTUATION),
    ("LETTER_NUMBER", UnicodeCategory::LETTER_NUMBER),
    ("LINE_SEPARATOR", UnicodeCategory::LINE_SEPARATOR),
    ("LOWERCASE_LETTER", UnicodeCategory::LOWERCASE_LETTER),
    ("MATH_SYMBOL", UnicodeCategory::MATH_SYMBOL),
    ("MODIFIER_LETTER", UnicodeCategory::MODIFIER_LETTER),
    ("MODIFIER_SYMBOL", UnicodeCategory::MODIFIER_SYMBOL),
    ("NONSPACING_MARK", UnicodeCategory::NONSPACING_MARK),
    ("OPEN_PUNCTUATION", UnicodeCategory::OPEN_PUNCTUATION),
    ("OTHER_LETTER", UnicodeCategory::OTHER_LETTER),
    ("OTHER_NUMBER", UnicodeCategory::OTHER_NUMBER),
    ("OTHER_PUNCTUATION", UnicodeCategory::OTHER_PUNCTUATION),
    ("OTHER_SYMBOL", UnicodeCategory::OTHER_SYMBOL),
    ("PARAGRAPH_SEPARATOR", UnicodeCategory::PARAGRAPH_SEPARATOR),
    ("PRIVATE_USE", UnicodeCategory::PRIVATE_USE),
    ("SPACE_SEPARATOR", UnicodeCategory::SPACE_SEPARATOR),
    ("SPACING_MARK", UnicodeCategory::SPACING_MARK),
    ("SURROGATE", UnicodeCategory::SURROGATE),
    ("TITLECASE_LETTER", UnicodeCategory::TITLECASE_LETTER),
    ("UNASSIGNED", UnicodeCategory::UNASSIGNED),
    ("UPPERCASE_LETTER", UnicodeCategory::UPPERCASE_LETTER),
];

fn parse_lines(s: &str, b: &mut Block) {
    about(|| format!("parse {s:?}"));
    let r = call(|| s.parse::<UnicodeCategory>());
    b.put(format!("{{\"op\":\"pcat\",\"s\":{},\"r\":{}}}", esc(s), reply(&r, |c| cat_no(*c).to_string())), 40);
    let r = call(|| s.parse::<UnicodeVersion>());
    b.put(format!("{{\"op\":\"pver\",\"s\":{},\"r\":{}}}", esc(s), reply(&r, |v| ver_no(*v).to_string())), 40);
}

/// Names with one character that is not ASCII in every possible way: runs of characters with the same reply,
/// the character written as @.
fn odd_character(kind: &str, pre: &str, suf: &str) -> String {
    let mut segs: Vec<[u32; 2]> = vec![];
    let mut rs: Vec<String> = vec![];
    let mut s = String::new();
    let mut shown = String::new();
    about(|| format!("parse {pre}?{suf} as {kind}"));
    for c in (128..=MAX).filter_map(char::from_u32) {
        s.clear();
        s.push_str(pre);
        s.push(c);
        s.push_str(suf);
        let e = match kind {
            "pcat" => call(|| s.parse::<UnicodeCategory>()).map(|r| r.map(cat_no)),
            _ => call(|| s.parse::<UnicodeVersion>()).map(|r| r.map(ver_no)),
        };
        shown.clear();
        match &e {
            Ok(Err(e @ (Error::InvalidCategory(t) | Error::InvalidVersion(t)))) => {
                use std::fmt::Write as _;
                let k = if matches!(e, Error::InvalidCategory(_)) { "InvalidCategory" } else { "InvalidVersion" };
                let _ = write!(shown, "{k}\u{1}{t}\u{1}{e}");
            }
            other => shown = format!("{other:?}"),
        }
        let shown = shown.replace(c, "@");
        let fresh = rs.last().is_none_or(|r| *r != shown) || c == '\u{E000}';
        match segs.last_mut() {
            Some(l) if !fresh => l[1] = c as u32,
            _ => {
                if segs.len() > 20 {
                    break;
                }
                segs.push([c as u32, c as u32]);
                rs.push(shown);
            }
        }
    }
    format!(
        "{{\"op\":\"pones\",\"kind\":\"{kind}\",\"pre\":{},\"suf\":{},\"segs\":{},\"rs\":{}}}",
        esc(pre),
        esc(suf),
        list(&segs, |g| format!("[{},{}]", g[0], g[1])),
        list(&rs, |r| list(&r.split('\u{1}').collect::<Vec<_>>(), |s| esc(s)))
    )
}

const ABBREVS: [&str; 30] = [
    "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi", "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps", "Lo",
    "No", "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu",
];
const VERSIONS: [&str; 11] = [
    "9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0",
];

/// Everything one edit away.
fn edits(s: &str, alphabet: &[char], out: &mut Vec<String>) {
    let c: Vec<char> = s.chars().collect();
    for i in 0..=c.len() {
        for &a in alphabet {
            let mut x = c.clone();
            x.insert(i, a);
            out.push(x.iter().collect());
            if i < c.len() {
                let mut x = c.clone();
                x[i] = a;
                out.push(x.iter().collect());
            }
        }
        if i < c.len() {
            let mut x = c.clone();
            x.remove(i);
            out.push(x.iter().collect());
        }
        if i + 1 < c.len() {
            let mut x = c.clone();
            x.swap(i, i + 1);
            out.push(x.iter().collect());
        }
    }
}

/// Characters that look like, fold to or truncate to those of the names.
fn disguises(s: &str, out: &mut Vec<String>) {
    let c: Vec<char> = s.chars().collect();
    for (i, &x) in c.iter().enumerate() {
        let u = x as u32;
        for d in [u + 0xFEE0, u | 0x80, u + 0x100, u + 0x1_0000, u + 0x300, 0x1D400 + (u & 0x3F), u ^ 0x20, u + 0x410 - 0x41] {
            if let Some(d) = char::from_u32(d) {
                let mut y = c.clone();
                y[i] = d;
                out.push(y.iter().collect());
            }
        }
    }
    // padded to a length of a few more bits
    if s.is_ascii() {
        for n in [256, 512, 65_536] {
            for t in [" ", "\0", "x", "\n", s] {
                out.push(format!("{s}{}", t.repeat(n / t.len())));
                out.push(format!("{}{s}", t.repeat(n / t.len())));
            }
        }
    }
    for t in [" ", "\n", "\t", "\u{0}", "\u{FEFF}", "\u{200B}", "\u{301}", "\r", "\u{A0}", "\"", "'", "\\", "%s", "{}"] {
        out.push(format!("{s}{t}"));
        out.push(format!("{t}{s}"));
        out.push(format!("{t}{s}{t}"));
    }
    for t in [
        "final", "beta", "alpha", "rc1", "rc.1", "draft", "dev", "dev0", "b1", "update1", "post1", "stable", "preview", "LTS", "UCD", "Update", "*", "?", "+", "!", "~", "@",
    ] {
        for sep in ["", "-", ".", "+", " ", "_"] {
            out.push(format!("{s}{sep}{t}"));
        }
    }
    for t in ["v", "V", "Unicode", "unicode", "UCD", "ucd", "version", "Version", "gc", "General_Category", "general_category", "Is", "is", "In", "Gc", "category", "^", "\\p", "r", "==", ">=", "~="] {
        for sep in ["", "-", " ", "=", ":", "_", "/"] {
            out.push(format!("{t}{sep}{s}"));
        }
    }
    for (t, u) in [("[", "]"), ("(", ")"), ("{", "}"), ("<", ">"), ("\\p{", "}"), ("\\P{", "}"), ("[:", ":]"), ("[[:", ":]]"), ("\"", "\""), ("`", "`"), ("/", "/")] {
        out.push(format!("{t}{s}{u}"));
    }
    // numbers that are the same in so many bits
    let parts: Vec<&str> = s.split('.').collect();
    for (k, x) in parts.iter().enumerate() {
        let Ok(x) = x.parse::<u128>() else { continue };
        for by in [8, 16, 32, 64] {
            for times in [1, 2] {
                let mut ps: Vec<String> = parts.iter().map(|p| p.to_string()).collect();
                ps[k] = (x + (times << by)).to_string();
                out.push(ps.join("."));
                ps[k] = format!("-{}", (1u128 << by) - x);
                out.push(ps.join("."));
            }
        }
    }
    out.push(s.to_uppercase());
    out.push(s.to_lowercase());
    out.push(c.iter().rev().collect());
    out.push(s.repeat(2));
    out.push(format!("{s},{s}"));
    out.push(format!("{s}={s}"));
}

pub fn names(cfg: &Cfg) -> Vec<Job<'_>> {
    let mut jobs: Vec<Job> = vec![];
    // what is printed, what the constants denote
    jobs.push(Box::new(|| {
        let mut b = Block::new();
        for (k, c) in CATS.iter().enumerate() {
            for alternate in [false, true] {
                let text = || if alternate { format!("{c:#}") } else { c.to_string() };
                let debug = || if alternate { format!("{c:#?}") } else { format!("{c:?}") };
                let r = call(|| (c.as_str().to_string(), text(), debug()));
                b.put(
                    format!("{{\"op\":\"catname\",\"k\":{},\"r\":{}}}", k + 1, plain(&r, |(a, b, c)| format!("[{},{},{}]", esc(a), esc(b), esc(c)))),
                    20,
                );
            }
        }
        for (k, v) in VERS.iter().enumerate() {
            let r = call(|| (v.as_str().to_string(), format!("{v:#}")));
            b.put(format!("{{\"op\":\"vername\",\"v\":{},\"r\":{}}}", k + 1, plain(&r, |(a, b)| format!("[{},{}]", esc(a), esc(b)))), 20);
            let r = call(|| (v.as_str().to_string(), v.to_string()));
            b.put(format!("{{\"op\":\"vername\",\"v\":{},\"r\":{}}}", k + 1, plain(&r, |(a, b)| format!("[{},{}]", esc(a), esc(b)))), 20);
        }
        for (name, c) in ALIASES {
            b.put(format!("{{\"op\":\"alias\",\"s\":\"{name}\",\"r\":{}}}", plain(&call(|| c.as_str()), |s| format!("[{}]", esc(s)))), 20);
        }
        for (name, s) in CLASSES {
            let r = call(|| CATS.iter().filter(|c| s.contains(**c)).map(|c| c.as_str()).collect::<Vec<_>>());
            b.put(format!("{{\"op\":\"class\",\"s\":\"{name}\",\"r\":{}}}", plain(&r, |v| list(v, |s| esc(s)))), 20);
        }
        vec![b]
    }));
    // all strings of at most two printable ASCII characters
    spread(&mut jobs, 96, |i| {
        let mut b = Block::new();
        if i == 95 {
            for s in ABBREVS.iter().chain(&VERSIONS) {
                parse_lines(s, &mut b);
            }
            parse_lines("", &mut b);
            for c in 0..128u8 {
                parse_lines(&(c as char).to_string(), &mut b);
            }
        } else {
            for c in 32..127u8 {
                parse_lines(&format!("{}{}", (32 + i as u8) as char, c as char), &mut b);
            }
        }
        vec![b]
    });
    // all strings of two bytes, all of one character more than ASCII
    spread(&mut jobs, 33, |i| {
        let mut b = Block::new();
        // the others are above
        let firsts: Vec<u8> = if i == 32 { (32..127).chain([127]).collect() } else { vec![i as u8] };
        for a in firsts {
            for c in 0..128u8 {
                if i != 32 || a == 127 || !(32..127).contains(&c) {
                    parse_lines(&format!("{}{}", a as char, c as char), &mut b);
                }
            }
        }
        vec![b]
    });
    for (kind, pre, suf) in [
        ("pcat", "", ""), ("pver", "", ""), ("pcat", "L", ""), ("pcat", "S", ""), ("pcat", "P", ""), ("pcat", "C", ""), ("pcat", "N", ""),
        ("pcat", "M", ""), ("pcat", "Z", ""), ("pcat", "", "u"), ("pcat", "", "o"), ("pcat", "", "c"), ("pcat", "Lu", ""), ("pcat", "", "Lu"),
        ("pver", "9.0.", ""), ("pver", "1", ".0.0"), ("pver", "15.", ".0"), ("pver", "9.0.0", ""), ("pver", "", "9.0.0"), ("pver", "12", "1.0"),
        ("pver", "", ".0.0"), ("pver", "17.0", "0"),
    ] {
        jobs.push(Box::new(move || one(odd_character(kind, pre, suf), 60)));
    }
    // very often
    spread(&mut jobs, 8, move |i| {
        let mut b = Block::new();
        let s = ["Lu", "9.0.0", "Zs", "17.0.0", "lu", "9.0", "", "15.1.0"][i];
        steady(&mut b, 40, OFTEN, || {
            let mut b = Block::new();
            parse_lines(s, &mut b);
            b.lines.swap_remove(usize::from(i % 2 == 1))
        });
        vec![b]
    });
    // near misses
    let mut near: Vec<String> = vec![];
    let letters: Vec<char> = "PecCSdNMfiZlLmsknotupazT 0._".chars().collect();
    let digits: Vec<char> = "0123456789.-+ vV,x".chars().collect();
    for a in ABBREVS {
        edits(a, &letters, &mut near);
        disguises(a, &mut near);
    }
    for v in VERSIONS {
        edits(v, &digits, &mut near);
        disguises(v, &mut near);
    }
    // several names in one, in every order
    for sep in [",", ", ", ";", "|", " ", "/", "", "\n", "\0", "+", "-", ".."] {
        for (i, a) in ABBREVS.iter().enumerate() {
            near.push(format!("{a}{sep}"));
            near.push(format!("{sep}{a}"));
            near.push(format!("{a}{sep}{}", ABBREVS[(i * 7 + sep.len() * 11 + 1) % 30]));
        }
        for (i, v) in VERSIONS.iter().enumerate() {
            near.push(format!("{v}{sep}"));
            near.push(format!("{sep}{v}"));
            near.push(format!("{v}{sep}{}", VERSIONS[(i + 1) % 11]));
        }
    }
    for (name, _) in ALIASES {
        let lower = name.to_lowercase();
        let title: String = lower
            .split('_')
            .map(|w| format!("{}{}", w[..1].to_uppercase(), &w[1..]))
            .collect::<Vec<_>>()
            .join("_");
        near.extend([name.to_string(), lower.clone(), title.clone(), title.replace('_', " "), lower.replace('_', "-"), title.replace('_', "")]);
    }
    for a in 0..25 {
        near.push(format!("{a}"));
        for b in 0..4 {
            near.push(format!("{a}.{b}"));
            for c in 0..3 {
                near.push(format!("{a}.{b}.{c}"));
                near.push(format!("V{a}_{b}_{c}"));
                near.push(format!("v{a}.{b}.{c}"));
                near.push(format!("{a}_{b}_{c}"));
                near.push(format!("{a:02}.{b}.{c}"));
                near.push(format!("{a}.{b}.{c}.0"));
                near.push(format!("UnicodeVersion.V{a}_{b}_{c}"));
            }
        }
    }
    near.extend(["latest", "Any", "LC", "L&", "Cn", "all", "None", "Lu|Ll", "[Lu]", "\\p{Lu}", "Is_Lu", "gc=Lu"].map(String::from));
    near.push("Lu".repeat(5000));
    near.push("9.0.0".repeat(5000));
    near.sort();
    near.dedup();
    let near = std::sync::Arc::new(near);
    let chunks = near.len().div_ceil(200);
    spread(&mut jobs, chunks, {
        move |i| {
            let mut b = Block::new();
            for s in &near[i * 200..((i + 1) * 200).min(near.len())] {
                parse_lines(s, &mut b);
            }
            vec![b]
        }
    });
    // anything at all
    spread(&mut jobs, if cfg.thorough { 800 } else { 40 }, move |i| {
        let mut r = Rng::new(cfg.seed, 150_000 + i as u64);
        let mut b = Block::new();
        for _ in 0..100 {
            let len = match r.below(8) {
                0..=3 => 2,
                4 => 3,
                5 => 5 + r.below(2),
                6 => r.below(12),
                _ => r.below(60),
            };
            let mode = r.below(4);
            let s: String = (0..len)
                .filter_map(|_| match mode {
                    0 => char::from_u32(r.below(128) as u32),
                    1 => Some(*r.pick(&['L', 'u', 'l', 'C', 'n', 's', 'P', 'o', '\u{301}', 'ſ', 'ı', 'Ｌ', 'С', 'о'])),
                    2 => Some(*r.pick(&['0', '1', '9', '.', '5', '6', '７', '．', '٠'])),
                    _ => char::from_u32(r.below(0x11_0000) as u32),
                })
                .collect();
            parse_lines(&s, &mut b);
        }
        vec![b]
    });
    jobs
}

// ---------------------------------------------------------------- C13

fn expand_line(v: usize, order: &[UnicodeCategory], ds: &[String], style: usize) -> String {
    about(|| format!("expand {ds:?} in {:?}", VERS[v]));
    let r: Result<Result<Vec<UnicodeCategory>, Error>, String> = call(|| match style % 6 {
        0 => as_general_categories(ds, VERS[v]),
        1 => as_general_categories(ds.to_vec(), VERS[v]),
        2 => as_general_categories(ds.iter().map(|s| s.as_str()), VERS[v]),
        3 => as_general_categories(ds.iter().cloned().collect::<std::collections::VecDeque<String>>(), VERS[v]),
        4 => as_general_categories(ds.iter().map(|s| s.clone().into_boxed_str()), VERS[v]),
        _ => {
            let mut left = ds.to_vec();
            left.reverse();
            as_general_categories(std::iter::from_fn(move || left.pop()), VERS[v])
        }
    });
    format!(
        "{{\"op\":\"expand\",\"v\":{},\"order\":{},\"ds\":{},\"r\":{}}}",
        v + 1,
        cat_list(order),
        list(ds, |s| esc(s)),
        reply(&r, |l| cat_list(l))
    )
}

fn bad_name(r: &mut Rng) -> String {
    let near = [
        "LC", "l", "LU", "lu", "Lu ", " Lu", "", "Q", "Any", "Letter", "Zz", "X", "p", "Cn\0", "Ｌ", "L&", "Lul", "N ", "Other",
        "uL", "\n", "L\u{301}", "С",
    ];
    if r.chance(1, 4) {
        (0..1 + r.below(3)).filter_map(|_| char::from_u32(r.below(0x3000) as u32)).collect()
    } else {
        r.pick(&near).to_string()
    }
}

/// A list in which one entry runs over all strings of at most two ASCII characters.
fn odds_line(v: usize, pre: &[String], post: &[String]) -> String {
    let head = format!("\"op\":\"odds\",\"d\":1,\"v\":{},\"pre\":{},\"post\":{}", v + 1, list(pre, |s| esc(s)), list(post, |s| esc(s)));
    about(|| head.clone());
    let (mut ok, mut odd) = (vec![], vec![]);
    let ascii = || (0..128u8).map(char::from);
    let all = std::iter::once(String::new()).chain(ascii().map(String::from)).chain(ascii().flat_map(|a| ascii().map(move |b| format!("{a}{b}"))));
    for x in all {
        let ds: Vec<&str> = pre.iter().map(String::as_str).chain([x.as_str()]).chain(post.iter().map(String::as_str)).collect();
        match call(|| as_general_categories(&ds, VERS[v])) {
            Ok(Ok(_)) => ok.push(x),
            Ok(Err(Error::InvalidCategory(s))) if *s == *x => {}
            other if odd.len() < 3 => odd.push(format!("{x:?}: {other:?}")),
            _ => {}
        }
    }
    format!("{{{head},\"ok\":{},\"odd\":{}}}", list(&ok, |s| esc(s)), list(&odd, |s| esc(s)))
}

pub fn expand(cfg: &Cfg) -> Vec<Job<'_>> {
    let mut jobs: Vec<Job> = vec![];
    let names: Vec<String> = CLASSES.iter().map(|c| c.0.to_string()).chain(ABBREVS.iter().map(|s| s.to_string())).collect();
    let names = std::sync::Arc::new(names);
    // all lists of at most two designations, for every version
    spread(&mut jobs, 11 * 37, {
        let names = names.clone();
        move |i| {
            let v = i % 11;
            let a = i / 11;
            let order = match call(|| VERS[v].normalized_categories()) {
                Ok(o) => o,
                Err(_) => CATS,
            };
            let mut b = Block::new();
            if a == 0 {
                b.put(expand_line(v, &order, &[], v), 60);
            }
            for style in 0..6 {
                b.put(expand_line(v, &order, &[names[a].clone()], style), 80);
            }
            for c in 0..37 {
                b.put(expand_line(v, &order, &[names[a].clone(), names[c].clone()], c), 80);
            }
            vec![b]
        }
    });
    // one entry of a list, exhaustively
    spread(&mut jobs, if cfg.thorough { 400 } else { 40 }, {
        let names = names.clone();
        move |i| {
            let mut r = Rng::new(cfg.seed, 168_000 + i as u64);
            let pool = match i % 4 {
                0 => &names[..7],
                1 => &names[7..],
                _ => &names[..],
            };
            let n = [0, 1, 2, 8, 31, 37, 70, 140][i / 4 % 8];
            let mut ds: Vec<String> = if n >= pool.len() { pool.to_vec() } else { vec![] };
            while ds.len() < n {
                ds.push(r.pick(pool).clone());
            }
            for i in (1..ds.len()).rev() {
                let j = r.below(i + 1);
                ds.swap(i, j);
            }
            let at = if r.chance(2, 3) { ds.len() } else { r.below(ds.len() + 1) };
            let mut b = Block::new();
            b.put(odds_line(i % 11, &ds[..at], &ds[at..]), 300);
            vec![b]
        }
    });
    // very long lists, and the same list very often
    spread(&mut jobs, if cfg.thorough { 60 } else { 16 }, {
        let names = names.clone();
        move |i| {
            let mut r = Rng::new(cfg.seed, 167_000 + i as u64);
            let v = r.below(11);
            let order = call(|| VERS[v].normalized_categories()).unwrap_or(CATS);
            let mut b = Block::new();
            let some: Vec<String> = (0..1 + r.below(5)).map(|_| r.pick(&names).clone()).collect();
            if i % 4 == 3 {
                let some: Vec<String> = if i % 8 == 3 { some } else { vec!["L".into(), bad_name(&mut r)] };
                steady(&mut b, 90, OFTEN, || expand_line(v, &order, &some, 0));
                return vec![b];
            }
            let n = [65, 129, 257, 300, 1025, 5000][r.below(6)];
            let pool: &[String] = if i % 2 == 0 { &some } else { &names };
            let mut ds: Vec<String> = (0..n).map(|_| r.pick(pool).clone()).collect();
            if i % 4 == 0 {
                // another one at the end, from iterators of every kind
                for style in 0..6 {
                    ds.push(names[7 + r.below(30)].clone());
                    b.put(expand_line(v, &order, &ds, style), 100 + 3 * n as u64);
                }
            }
            if i % 4 == 2 {
                let at = if r.chance(1, 2) { n } else { r.below(n + 1) };
                ds.insert(at, bad_name(&mut r));
            }
            b.put(expand_line(v, &order, &ds, i), 100 + 3 * n as u64);
            vec![b]
        }
    });
    // few lists and few versions, in turns
    spread(&mut jobs, if cfg.thorough { 800 } else { 60 }, {
        let names = names.clone();
        move |i| {
            let mut r = Rng::new(cfg.seed, 165_000 + i as u64);
            let mut b = Block::new();
            let mut some: Vec<Vec<String>> =
                (0..4).map(|_| (0..1 + r.below(4)).map(|_| r.pick(&names).clone()).collect()).collect();
            some.push(some[0].iter().rev().cloned().collect());
            some.push(some[1].iter().cloned().chain([bad_name(&mut r)]).collect());
            some.push(some[2].iter().map(|s| s.to_lowercase()).collect());
            let vs: Vec<usize> = (0..3).map(|_| r.below(11)).collect();
            let mut at = 0;
            let mut v = vs[0];
            for k in 0..40 {
                if r.chance(1, 2) {
                    at = r.below(some.len());
                } else {
                    v = *r.pick(&vs);
                }
                let order = call(|| VERS[v].normalized_categories()).unwrap_or(CATS);
                b.put(expand_line(v, &order, &some[at], if r.chance(1, 2) { 0 } else { k }), 90);
            }
            vec![b]
        }
    });
    // longer lists, good and bad
    spread(&mut jobs, if cfg.thorough { 4000 } else { 220 }, move |i| {
        let mut r = Rng::new(cfg.seed, 160_000 + i as u64);
        let v = i % 11;
        let order = call(|| VERS[v].normalized_categories()).unwrap_or(CATS);
        let mut b = Block::new();
        for k in 0..40 {
            let len = match r.below(4) {
                0 => r.below(4),
                1 | 2 => 2 + r.below(8),
                _ => r.below(60),
            };
            let mut ds: Vec<String> = vec![];
            let bad_odds = *r.pick(&[0, 0, 1, 3]);
            for _ in 0..len {
                ds.push(if r.chance(bad_odds, 10) { bad_name(&mut r) } else { r.pick(&names).clone() });
            }
            // lists that name (nearly) everything, with something wrong late or early
            if r.chance(1, 3) {
                let skip = if r.chance(1, 2) { 37 } else { r.below(37) };
                let mut most: Vec<String> = match r.below(3) {
                    0 => names[..7].to_vec(),
                    1 => names[7..].to_vec(),
                    _ => names.iter().enumerate().filter(|x| x.0 != skip).map(|x| x.1.clone()).collect(),
                };
                for i in (1..most.len()).rev() {
                    let j = r.below(i + 1);
                    most.swap(i, j);
                }
                for _ in 0..r.below(4) {
                    most.push(r.pick(&names).clone());
                }
                for _ in 0..r.below(3) {
                    let at = if r.chance(1, 2) { most.len() } else { r.below(most.len() + 1) };
                    most.insert(at, bad_name(&mut r));
                }
                ds = most;
            }
            let len = ds.len();
            b.put(expand_line(v, &order, &ds, k), 100 + 3 * len as u64);
        }
        vec![b]
    });
    jobs
}
