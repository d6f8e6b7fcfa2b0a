//! Queries and query builders.
use super::{one, spread, steady, Scenario, OFTEN};
use crate::model::*;
use crate::probe;
use crate::sweeps::*;
use crate::util::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use unicode_intervals::{IntervalQuery, UnicodeCategory, UnicodeCategorySet};

/// Windows of neighbouring characters around places where representations change.
fn windows(p: &Pools, r: &mut Rng, extra: usize) -> Vec<Vec<u32>> {
    let mut w: Vec<Vec<u32>> = vec![
        vec![0, 1, 2, 3, 4],
        vec![61, 62, 63, 64, 65],
        vec![126, 127, 128, 129, 130],
        vec![190, 191, 192, 193, 194],
        vec![253, 254, 255, 256, 257],
        vec![0xD7FD, 0xD7FE, 0xD7FF, 0xE000, 0xE001],
        vec![0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001],
        vec![0x10FFFB, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF],
    ];
    for _ in 0..extra {
        let mut a = p.point(r, r.0 as usize % VERS.len());
        a = a.min(MAX - 5);
        if (0xD7F0..0xE000).contains(&a) {
            a = 0x3400;
        }
        w.push((a..a + 5).collect());
    }
    w
}

fn subset(w: &[u32], bits: usize) -> String {
    w.iter().enumerate().filter(|(i, _)| bits & (1 << i) != 0).filter_map(|(_, &c)| char::from_u32(c)).collect()
}

// ---------------------------------------------------------------- C01

pub fn membership<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 12 } else { 1 };
    // every code point of every version, alone, under some selections
    spread(&mut jobs, 11 * 3 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 100 + i as u64);
        let v = i % 11;
        let (inc, exc) = match i / 11 {
            0 => (Some(p.mask(&mut r)), None),
            1 => (None, Some(p.mask(&mut r))),
            _ => (Some(r.next() as u32 & ALL), Some((r.next() & r.next()) as u32 & ALL)),
        };
        one(singles(v, inc, exc), 20_000)
    });
    // each category of each version
    spread(&mut jobs, 11, move |v| {
        let mut b = Block::new();
        for c in 0..30 {
            let q = Q::new(v).cats(Some(1 << c), None);
            b.put(ask_line(&q), q.cost());
        }
        vec![b]
    });
    // all combinations of bounds and characters inside small windows
    let mut r = Rng::new(cfg.seed, 1);
    let ws = windows(p, &mut r, 2 * k);
    for (i, w) in ws.into_iter().enumerate() {
        for m in 0..2 {
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut r = Rng::new(cfg.seed, 200 + (i * 2 + m) as u64);
                let mut out = vec![];
                let v = r.below(11);
                let (inc, exc) = if m == 0 { (Some(r.next() as u32 & ALL), None) } else { (p.opt_mask(&mut r), p.opt_mask(&mut r)) };
                for a in 0..w.len() {
                    for z in a..w.len() {
                        let q = Q::new(v).cats(inc, exc).range(w[a], w[z]);
                        let mut xs = vec![];
                        let mut rs = vec![];
                        let j = q.json();
                        about(|| format!("askc {j}"));
                        for x in 0..32usize {
                            for y in 0..32usize {
                                if !cfg.thorough && (x * 32 + y + a + z + i) % 4 != 0 {
                                    continue;
                                }
                                let qq = q.clone().chars(Some(subset(&w, x)), Some(subset(&w, y)));
                                xs.push(format!("[{},{}]", opt_chars(&qq.ich), opt_chars(&qq.xch)));
                                rs.push(ask_reply(&qq));
                            }
                        }
                        let mut b = Block::new();
                        b.put(
                            format!("{{\"op\":\"askc\",\"q\":{j},\"xs\":[{}],\"rs\":[{}]}}", xs.join(","), rs.join(",")),
                            150 * xs.len() as u64,
                        );
                        out.push(b);
                    }
                }
                out
            }));
        }
    }
    bounded_at_ends(&mut jobs, cfg, p, true);
    characters_at_ends(&mut jobs, cfg, p, true);
    // very many characters
    spread(&mut jobs, 2 * k, move |i| {
        let q = Q::new(10 - i % 11).cats(Some([0, 1 << 12][i % 2]), None);
        let s = large(cfg.seed + i as u64, MANY[i % 4], 0x2_0000, 2, i + 2);
        let q = if i % 3 == 1 { q.chars(None, Some(s)) } else { q.chars(Some(s), None) };
        one(ask_line(&q), 400_000)
    });
    // very often
    spread(&mut jobs, 6 * k, move |i| {
        let mut b = Block::new();
        let mut r = Rng::new(cfg.seed, 9_000 + i as u64);
        let q = Q::new(r.below(11));
        let q = match i % 6 {
            0 => q.cats(Some(1 << r.below(30)), None).range(60, 180),
            1 => q.cats(Some(1 << 11 | 1 << 22), None),
            2 => q.cats(Some(1 << 24), None).range(0x2000, 0x2005).chars(Some("\u{2603}a".into()), None),
            3 => q.chars(None, Some("b\u{0}".into())),
            4 => q.cats(Some(0), None).chars(Some("ab\u{e9}\u{ea}".into()), Some("b".into())).range(3, 3),
            _ => q.cats(Some(1 << 26 | 1 << 23), Some(1 << 23)).range(0xD900, MAX),
        };
        steady(&mut b, 300, OFTEN, || ask_line(&q));
        vec![b]
    });
    // mixed questions, many close to the one before
    let total = if cfg.thorough { 240_000 } else { 15_000 };
    spread(&mut jobs, total / 50, move |i| {
        let mut r = Rng::new(cfg.seed, 10_000 + i as u64);
        let mut b = Block::new();
        let qs: Vec<Q> = match i % 4 {
            0 | 2 => p.chain(&mut r, 50),
            1 => (0..50).map(|_| p.query(&mut r)).collect(),
            _ => (0..50).map(|j| if j % 2 == 0 { p.query(&mut r) } else { p.touching(&mut r) }).collect(),
        };
        for q in qs {
            b.put(if r.chance(1, 6) { ask_by_set(&q) } else { ask_line(&q) }, q.cost());
        }
        vec![b]
    });
    // the ranges people ask for, in every version
    spread(&mut jobs, PARTS.len() * if cfg.thorough { 8 } else { 1 }, move |i| {
        let mut r = Rng::new(cfg.seed, 13_000 + i as u64);
        let (min, max) = PARTS[i % PARTS.len()];
        let (inc, exc) = p.masks(&mut r);
        let mut b = Block::new();
        for v in 0..11 {
            let q = Q::new(v).cats(inc, exc).range(min, max);
            b.put(ask_line(&q), q.cost());
            let q = Q::new(v).cats(Some(1 << r.below(30)), None).range(min, max);
            b.put(ask_line(&q), q.cost());
        }
        vec![b]
    });
    jobs
}

// ---------------------------------------------------------------- C24, when the internals cannot be called

#[cfg(not(feature = "internals"))]
pub fn lists<'a>(cfg: &'a Cfg, p: &'a Pools, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    for (i, chunk) in scen.chunks(512).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            for (j, s) in chunk.iter().enumerate() {
                let by = [0x100u32, 61, 252, 0xE000, MAX - 8][(i + j) % 5];
                let text = |l: &[Vec<i64>]| -> String {
                    l.iter().flat_map(|x| x[0]..=x[1]).filter_map(|c| char::from_u32(by + c as u32)).collect()
                };
                let (x, y) = if s[0][0] == 0 { (&s[1..], &[][..]) } else { s[1..].split_at(s[0][1] as usize) };
                let q = Q::new(j % 11).cats(Some(0), None).chars(Some(text(x)), Some(text(y)));
                b.put(ask_line(&q), q.cost());
            }
            vec![b]
        }));
    }
    // very long lists
    spread(&mut jobs, if cfg.thorough { 16 } else { 4 }, move |i| {
        let z = cfg.seed + i as u64;
        let a = large(z, MANY[i % 4], 0x2_0000, 2, i);
        let b = large(z, MANY[(i + 1) % 4], [0x2_0001, 0x2_0000, 0x4_0002][i % 3], 2 + i as u32 % 2, 0);
        let q = Q::new(i % 11);
        let q = if i % 2 == 0 { q.cats(Some(0), None).chars(Some(a), Some(b)) } else { q.chars(None, Some(b)) };
        one(ask_line(&q), 400_000)
    });
    spread(&mut jobs, if cfg.thorough { 600 } else { 100 }, move |i| {
        let mut r = Rng::new(cfg.seed, 240_000 + i as u64);
        let mut b = Block::new();
        for _ in 0..40 {
            let q = p.query(&mut r);
            b.put(ask_line(&q), q.cost());
        }
        vec![b]
    });
    jobs
}

// ---------------------------------------------------------------- C02

fn canon_line(q: &Q) -> String {
    let j = q.json();
    about(|| format!("canon {j}"));
    format!("{{\"op\":\"canon\",\"q\":{j},\"r\":{}}}", ask_reply(q))
}

/// Characters of a mask printed by MC_Runs: the first bit of a word, the last, and parts of what is between.
pub fn mask_chars(s: &Scenario) -> String {
    let mut out = String::new();
    for (w, bits) in s[1..].iter().enumerate() {
        let base = 64 * w as u32;
        for &b in bits {
            let part = match b {
                0 => 0..1,
                1 => 1..63,
                _ => 63..64,
            };
            out.extend(part.filter_map(|x| char::from_u32(base + x)));
        }
    }
    out
}

pub fn canonical<'a>(cfg: &'a Cfg, p: &'a Pools, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    // masks: as included characters of a query with nothing else, as excluded ones of the whole range, and mixed
    for (i, chunk) in scen.chunks(256).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || {
            let mut r = Rng::new(cfg.seed, 21_000 + i as u64);
            let mut b = Block::new();
            for s in &chunk {
                let m = mask_chars(s);
                let v = r.below(11);
                let q = Q::new(v).cats(Some(0), None).range(0, 255).chars(Some(m.clone()), None);
                b.put(ask_line(&q), 400);
                let q = Q::new(v).range(0, 255).chars(None, Some(m.clone()));
                b.put(ask_line(&q), 400);
                let (x, y) = (r.below(256) as u32, r.below(256) as u32);
                let q = Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r)).range(x.min(y), x.max(y));
                let q = if r.chance(1, 2) { q.chars(Some(m), None) } else { q.chars(None, Some(m)) };
                b.put(canon_line(&q), 60);
            }
            vec![b]
        }));
    }
    let k = if cfg.thorough { 10 } else { 1 };
    // very many characters
    spread(&mut jobs, 4 * k, move |i| {
        let s = large(cfg.seed + i as u64, MANY[i % 4], [0x2_0000, 0, 0x1_0001][i % 3], 2 + (i as u32 / 4) % 2, i);
        let q = Q::new(i % 11);
        let q = match i % 3 {
            0 => q.cats(Some(1 << 12), None).chars(Some(s), None),
            1 => q.chars(None, Some(s)),
            _ => q.cats(None, Some(1 << 28)).chars(Some(s), None).range(0, MAX - 70_000),
        };
        one(canon_line(&q), 300_000)
    });
    spread(&mut jobs, 400 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 20_000 + i as u64);
        let mut b = Block::new();
        let qs = if i % 2 == 0 { p.chain(&mut r, 50) } else { (0..50).map(|_| p.query(&mut r)).collect() };
        for q in qs {
            b.put(canon_line(&q), 60 + q.cost() / 8);
        }
        vec![b]
    });
    // characters on the bounds and next to them
    spread(&mut jobs, 120 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 24_000 + i as u64);
        let mut b = Block::new();
        for _ in 0..60 {
            let q = p.touching(&mut r);
            b.put(canon_line(&q), 60 + q.cost() / 8);
        }
        vec![b]
    });
    // all pairs and all complements of single categories, whole range and a random one
    spread(&mut jobs, 11, move |v| {
        let mut r = Rng::new(cfg.seed, 300 + v as u64);
        let mut out = vec![];
        for a in 0..30 {
            let mut b = Block::new();
            for c in a..30 {
                let (min, max) = if cfg.thorough || r.chance(1, 4) { (0, MAX) } else { p.range(&mut r, v) };
                let q = Q::new(v).cats(Some(1 << a | 1 << c), None).range(min, max);
                b.put(canon_line(&q), 60 + q.cost() / 8);
            }
            let q = Q::new(v).cats(None, Some(1 << a));
            b.put(canon_line(&q), 500);
            out.push(b);
        }
        out
    });
    // few categories missing, ranges that begin or end where representations change
    spread(&mut jobs, 11 * 30, move |i| {
        let mut r = Rng::new(cfg.seed, 26_000 + i as u64);
        let mut b = Block::new();
        let gone = 1 << (i / 11) | if r.chance(1, 2) { 1 << r.below(30) } else { 0 } | if r.chance(1, 4) { 1 << r.below(30) } else { 0 };
        let q = Q::new(i % 11);
        let q = if r.chance(1, 2) { q.cats(None, Some(gone)) } else { q.cats(Some(ALL & !gone), None) };
        let mut ends: Vec<u32> = (0..17).map(|p| p << 16 | 0xFFFF).collect();
        ends.extend([0, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDFFF, 0xE000, 0xF8FF, 0xF900, 0xFDCF, 0xFDEF, 0xFFFD, 0x3_134F, 0xE_01EF]);
        for &x in &ends {
            for d in [x.saturating_sub(1), x, (x + 1).min(MAX)] {
                if d != x && !cfg.thorough && !r.chance(1, 4) {
                    continue;
                }
                let q1 = q.clone().range(d.saturating_sub([300, 3, 1, 0][r.below(4)]), d);
                b.put(canon_line(&q1), 60);
                let q1 = q.clone().range(d, d.saturating_add([300, 3, 1, 0][r.below(4)]).min(MAX));
                b.put(canon_line(&q1), 60);
            }
        }
        vec![b]
    });
    // windows of a round size in long intervals, over their ends and between them
    spread(&mut jobs, 11 * 30 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 25_000 + i as u64);
        let q = selection(i, &mut r, p);
        let mut b = Block::new();
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        for k in 2..17 {
            if !cfg.thorough && !(5..9).contains(&k) && !r.chance(1, 4) {
                continue;
            }
            let w = 1u32 << k;
            let long: Vec<&(u32, u32)> = base.iter().filter(|x| x.1 - x.0 >= w).collect();
            for d in [0, 1, 2] {
                let w = w + d - 2;
                let mut starts = vec![];
                if !long.is_empty() {
                    let x = r.pick(&long);
                    starts.extend([x.0, x.0 + r.below((x.1 - x.0 - w + 1).max(1) as usize) as u32, (x.1 - w).saturating_sub(1)]);
                }
                if !base.is_empty() {
                    let x = r.pick(&base);
                    starts.extend([x.0.saturating_sub(r.below(w as usize + 1) as u32), x.1.saturating_sub(r.below(w as usize + 1) as u32)]);
                }
                for a in starts {
                    let mut q = q.clone().range(a, (a + w).min(MAX));
                    (q.ich, q.xch) = (None, None);
                    b.put(canon_line(&q), 60);
                }
            }
        }
        vec![b]
    });
    // one character at or next to the ends of intervals
    spread(&mut jobs, 11 * 30 * (2 + k), move |i| {
        let mut r = Rng::new(cfg.seed, 37_000 + i as u64);
        let single = i < 330;
        if !single && !cfg.thorough && !r.chance(1, 4) {
            return vec![];
        }
        let q = selection(i, &mut r, p);
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let xs = near_ends(&base, 1, if cfg.thorough { 3000 } else if single { 300 } else { 20 }, &mut r);
        let mut b = Block::new();
        b.put(patches(&q, &xs, true), xs.len() as u64 * 10 + 200);
        b.put(patches(&q, &xs, false), xs.len() as u64 * 10 + 200);
        vec![b]
    });
    // every pattern of characters in a window next to and across interval ends
    let mut r = Rng::new(cfg.seed, 2);
    let ws = windows(p, &mut r, 12 * k);
    for (i, w) in ws.into_iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut r = Rng::new(cfg.seed, 400 + i as u64);
            let mut b = Block::new();
            for x in 0..32usize {
                for y in 0..32usize {
                    let v = r.below(11);
                    let a = r.below(w.len());
                    let z = a + r.below(w.len() - a);
                    let q = Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r)).range(w[a], w[z]);
                    let q = q.chars(Some(subset(&w, x)), Some(subset(&w, y)));
                    b.put(canon_line(&q), 60);
                }
            }
            vec![b]
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C03

fn oks(q: &Q) -> Option<Vec<(u32, u32)>> {
    match q.ask() {
        Ok(Ok(v)) => Some(v),
        _ => None,
    }
}

/// The code points at most d away from the ends of some intervals (all of them if there are no more than `most`).
fn near_ends(base: &[(u32, u32)], d: u32, most: usize, r: &mut Rng) -> Vec<u32> {
    let mut xs: Vec<u32> = vec![];
    for &(l, z) in base {
        if base.len() > most && !r.chance(most as u64, base.len() as u64) {
            continue;
        }
        for e in [l, z] {
            xs.extend(e.saturating_sub(d)..=(e + d).min(MAX));
        }
    }
    xs.sort_unstable();
    xs.dedup();
    if xs.is_empty() {
        xs.push(r.below(0xD000) as u32);
    }
    xs
}

/// Ranges made of the ends of neighbouring intervals.
fn near_ranges(base: &[(u32, u32)], most: usize, r: &mut Rng) -> Vec<(u32, u32)> {
    let mut xs = vec![];
    for w in base.windows(2) {
        if base.len() > most && !r.chance(most as u64, base.len() as u64) {
            continue;
        }
        let ((a, b), (c, d)) = (w[0], w[1]);
        xs.extend([(a, b), (b, c), (b + 1, c - 1), (a + (b - a) / 2, c + (d - c) / 2), (a, a), (c, d), (a.saturating_sub(1), d)]);
    }
    xs.retain(|x| x.0 <= x.1);
    xs
}

/// A selection of a version: a single category, or a mask that depends on the turn.
fn selection(i: usize, r: &mut Rng, p: &Pools) -> Q {
    let (v, c) = (i % 11, i / 11);
    let m = 1u32 << (c % 30);
    match c / 30 {
        0 => Q::new(v).cats(Some(m), None),
        1 => Q::new(v).cats(None, Some(m)),
        2 => Q::new(v).cats(Some(m | 1 << r.below(30)), None),
        _ => Q::new(v).cats(Some(r.next() as u32 & ALL), p.opt_mask(r)),
    }
}

/// Every category of every version (and, sparsely, complements and unions) bounded at, next to and between
/// the ends of its intervals.
fn bounded_at_ends<'a>(jobs: &mut Vec<Job<'a>>, cfg: &'a Cfg, p: &'a Pools, full: bool) {
    let k = if cfg.thorough { 8 } else { 1 };
    spread(jobs, 11 * 30 * (2 + k), move |i| {
        let mut r = Rng::new(cfg.seed, 33_000 + i as u64);
        let single = i < 330;
        if !single && !cfg.thorough && !r.chance(1, 4) {
            return vec![];
        }
        let most = if cfg.thorough { 3000 } else if single { 400 } else { 20 };
        let q = selection(i, &mut r, p);
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let mut b = Block::new();
        let xs = near_ends(&base, 1, most, &mut r);
        let cost = xs.len() as u64 * 6 + 200 + base.len() as u64;
        b.put(max_at(&q, &xs, full), cost);
        b.put(min_at(&q, &xs, full), cost);
        let xs = near_ranges(&base, most / 2, &mut r);
        b.put(clamp_line(&q, &base, &xs), xs.len() as u64 * 30);
        vec![b]
    });
}

/// Every category of every version with one character at or next to the ends of its intervals.
fn characters_at_ends<'a>(jobs: &mut Vec<Job<'a>>, cfg: &'a Cfg, p: &'a Pools, full: bool) {
    let k = if cfg.thorough { 8 } else { 1 };
    spread(jobs, 11 * 30 * (2 + k), move |i| {
        let mut r = Rng::new(cfg.seed, 35_000 + i as u64);
        let single = i < 330;
        if !single && !cfg.thorough && !r.chance(1, 4) {
            return vec![];
        }
        let most = if cfg.thorough { 3000 } else if single { 250 } else { 12 };
        let mut q = selection(i, &mut r, p);
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let xs = near_ends(&base, 2, most, &mut r);
        if r.chance(1, 3) && base.len() > 1 {
            let (a, z) = (*r.pick(&base), *r.pick(&base));
            q = q.range(a.0.min(z.0), a.1.max(z.1));
        }
        let mut b = Block::new();
        let cost = xs.len() as u64 * 10 + 200 + base.len() as u64;
        let (pre, suf) = AROUND[if r.chance(2, 3) { 0 } else { r.below(AROUND.len()) }];
        with_others(&mut b, &q, pre, suf);
        b.put(add_at(&q, &xs, pre, suf, full), cost);
        b.put(del_at(&q, &xs, pre, suf, r.chance(1, 4), full), cost);
        vec![b]
    });
}

/// The answer with the other characters of a sweep against the one without them.
fn with_others(b: &mut Block, q: &Q, pre: &str, suf: &str) {
    if pre.len() + suf.len() > 0 {
        if let Some(base) = oks(q) {
            let t = Some(format!("{pre}{suf}"));
            b.put(chars_line(q, &base, &[(t.clone(), None), (None, t)]), 100 + base.len() as u64);
        }
    }
}

fn clamp_line(q: &Q, base: &[(u32, u32)], xs: &[(u32, u32)]) -> String {
    let j = q.json();
    about(|| format!("clamp {j}"));
    let rs: Vec<String> = xs.iter().map(|&(a, b)| ask_reply(&q.clone().range(a, b))).collect();
    format!("{{\"op\":\"clamp\",\"q\":{j},\"b\":{},\"xs\":{},\"rs\":[{}]}}", ivs(base), ivs(xs), rs.join(","))
}

pub fn clamping<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 8 } else { 1 };
    // answers of very many intervals
    spread(&mut jobs, k, move |i| {
        let s = large(cfg.seed + i as u64, 140_000, 0x2_0000, 2, i);
        let q = Q::new(i % 11);
        let q = if i % 2 == 0 { q.cats(Some(1 << 12), None).chars(None, Some(s)) } else { q.chars(None, Some(s)) };
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let xs = [(0, 0x3_FFFF), (0, 0x3_0000), (0x2_0001, MAX), (0x4_5678, MAX - 1), (0x2_0002, 0x6_0003)];
        one(clamp_line(&q, &base, &xs), 1_500_000)
    });
    bounded_at_ends(&mut jobs, cfg, p, false);
    // every upper and every lower bound
    spread(&mut jobs, 11 * 2 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 500 + i as u64);
        let v = i % 11;
        let mut q = Q::new(v);
        q.explicit = r.chance(1, 2);
        q = match r.below(4) {
            0 => q.cats(Some(1 << r.below(30)), None),
            1 => q.cats(Some(1 << r.below(30) | 1 << r.below(30) | 1 << r.below(30)), None),
            2 => q.cats(None, Some(1 << 28 | 1 << r.below(30) | 1 << r.below(30))),
            _ => q.cats(Some((r.next() & r.next()) as u32 & ALL), Some(1 << r.below(30))),
        };
        // long answers: only a part of the code space
        let long = (q.inc.unwrap_or(ALL) & !q.exc.unwrap_or(0)).count_ones() > 3;
        if long && !cfg.thorough {
            q.min = p.point(&mut r, v).min(MAX - 0x2000);
            q.max = q.min + 0x2000;
        }
        let long = long && !cfg.thorough;
        if i / 11 % 2 == 0 {
            if i % 3 == 0 && !long {
                q.min = p.point(&mut r, v);
            }
            let from = q.min;
            one(maxsweep(&q, from), 15_000)
        } else {
            if i % 3 == 0 && !long {
                q.max = p.point(&mut r, v);
            }
            let to = q.max;
            one(minsweep(&q, to), 15_000)
        }
    });
    // every range inside 0 ..= 260
    spread(&mut jobs, 11 * k.max(2), move |i| {
        let mut r = Rng::new(cfg.seed, 600 + i as u64);
        let v = i % 11;
        let q = match i % 4 {
            0 => Q::new(v).cats(Some(1 << r.below(30)), None),
            1 => Q::new(v).cats(Some(r.next() as u32 & ALL), None),
            2 => Q::new(v).cats(None, Some((r.next() & r.next()) as u32 & ALL)),
            _ => Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r)),
        };
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        // only the part of the base that matters here
        let base: Vec<_> = base.into_iter().take_while(|x| x.0 <= 300).collect();
        let mut b = Block::new();
        for a in 0..=260u32 {
            let xs: Vec<_> = (a..=260).map(|z| (a, z)).collect();
            b.put(clamp_line(&q, &base, &xs), 25 * xs.len() as u64);
        }
        vec![b]
    });
    // ranges whose ends fall on, next to and between interval ends
    spread(&mut jobs, 400 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 30_000 + i as u64);
        let v = r.below(11);
        let q = Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r));
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let mut xs: Vec<(u32, u32)> = vec![];
        for _ in 0..24 {
            xs.push(p.range(&mut r, v));
            if !base.is_empty() {
                let e = |r: &mut Rng| {
                    let t = *r.pick(&base);
                    let x = i64::from(if r.chance(1, 2) { t.0 } else { t.1 }) + r.below(3) as i64 - 1;
                    x.clamp(0, i64::from(MAX)) as u32
                };
                let (a, z) = (e(&mut r), e(&mut r));
                xs.push((a.min(z), a.max(z)));
                let a = e(&mut r);
                xs.push((a, a));
                xs.push((0, a));
                xs.push((a, MAX));
            }
        }
        let cost = 200 + xs.len() as u64 * (100 + base.len() as u64 / 2);
        one(clamp_line(&q, &base, &xs), cost)
    });
    jobs
}

// ---------------------------------------------------------------- C04

fn chars_line(q: &Q, base: &[(u32, u32)], xs: &[(Option<String>, Option<String>)]) -> String {
    let j = q.json();
    about(|| format!("chars {j}"));
    let rs: Vec<String> = xs.iter().map(|(a, b)| ask_reply(&q.clone().chars(a.clone(), b.clone()))).collect();
    let xs: Vec<String> = xs.iter().map(|(a, b)| format!("[{},{}]", opt_chars(a), opt_chars(b))).collect();
    format!("{{\"op\":\"chars\",\"q\":{j},\"b\":{},\"xs\":[{}],\"rs\":[{}]}}", ivs(base), xs.join(","), rs.join(","))
}

/// What stands before and after the character of a sweep.
const AROUND: [(&str, &str); 6] = [
    ("", ""),
    ("a", ""),
    ("", "\u{e9}"),
    ("", ""),
    ("\u{10FFFF}q", "\u{3b1}"),
    ("the quick brown fox jumps over the lazy dog, and then again: the quick", ""),
];

pub fn characters<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 8 } else { 1 };
    // very many characters
    spread(&mut jobs, 6 * k, move |i| {
        let z = cfg.seed + i as u64;
        let q = Q::new(i % 11);
        let q = match i % 3 {
            0 => q.cats(Some(0), None),
            1 => q,
            _ => q.cats(Some(1 << (i * 7 % 30)), None),
        };
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let a = large(z, MANY[i % 4], 0x2_0000, 2, i);
        let b = large(z, MANY[(i + 1) % 4], 0x2_0003, 3, i + 1);
        let xs = match i % 4 {
            0 => vec![(Some(a), None)],
            1 => vec![(None, Some(a))],
            2 => vec![(Some(a), Some(b))],
            _ => vec![(Some(b), Some(a))],
        };
        one(chars_line(&q, &base, &xs), 800_000)
    });
    characters_at_ends(&mut jobs, cfg, p, false);
    // every character included, every character excluded
    spread(&mut jobs, 36 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 700 + i as u64);
        let v = i % 11;
        let mut q = Q::new(v);
        q = match i % 6 {
            0 => q,
            1 => q.cats(Some(0), None),
            2 => q.cats(Some(1 << r.below(30)), None).range(0, 60 + r.below(190) as u32),
            3 => q.cats(Some(p.mask(&mut r)), p.opt_mask(&mut r)).range(100, 0x600),
            4 => q.cats(Some(1 << [11, 22, 24, 2, 3, 6, 9, 26, 23][r.below(9)]), None),
            _ => q.cats(Some(r.next() as u32 & ALL), None).range(0xD000, 0x10200),
        };
        let heavy = i % 6 == 5;
        let (from, to) = if heavy && !cfg.thorough { (0xCFF0, 0x10210) } else { (0, MAX) };
        let (pre, suf) = AROUND[(i / 5) % AROUND.len()];
        let mut b = Block::new();
        with_others(&mut b, &q, pre, suf);
        if i / 6 % 2 == 0 {
            b.put(addsweep(&q, from, to, pre, suf), 8000);
        } else {
            b.put(delsweep(&q, from, to, pre, suf, i % 4 > 1), 8000);
        }
        vec![b]
    });
    // windows: all pairs of subsets
    let mut r = Rng::new(cfg.seed, 4);
    let ws = windows(p, &mut r, 4 * k);
    for (i, w) in ws.into_iter().enumerate() {
        for m in 0..2 {
            let w = w.clone();
            jobs.push(Box::new(move || {
                let mut r = Rng::new(cfg.seed, 800 + (i * 2 + m) as u64);
                let v = r.below(11);
                let a = r.below(w.len());
                let z = a + r.below(w.len() - a);
                let mut q = Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r)).range(w[a], w[z]);
                if m == 1 && w[4] < 256 {
                    q = q.range(0, 255);
                }
                let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
                let xs: Vec<_> = (0..1024usize).map(|x| (Some(subset(&w, x / 32)), Some(subset(&w, x % 32)))).collect();
                xs.chunks(128).flat_map(|xs| one(chars_line(&q, &base, xs), 60 * xs.len() as u64)).collect()
            }));
        }
    }
    // random strings, with permutations and repetitions of each
    spread(&mut jobs, 500 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 40_000 + i as u64);
        let v = r.below(11);
        let (min, max) = p.range(&mut r, v);
        let q = Q::new(v).cats(p.opt_mask(&mut r), p.opt_mask(&mut r)).range(min, max);
        let Some(base) = oks(&q) else { return one(canon_line(&q), 10) };
        let small = max < 256 && r.chance(1, 2);
        let mut xs = vec![];
        let mut len = 0;
        for _ in 0..4 {
            let mut t = q.clone();
            let touching = r.chance(1, 4);
            if touching {
                p.touch(&mut r, &mut t);
            }
            let a = if touching { t.ich.unwrap_or_default() } else { p.string(&mut r, v, small) };
            let z = match r.below(3) {
                _ if touching => t.xch.unwrap_or_default(),
                0 => a.chars().filter(|_| r.chance(1, 2)).collect::<String>() + &p.string(&mut r, v, small),
                _ => p.string(&mut r, v, small),
            };
            let rev = |s: &str| s.chars().rev().collect::<String>();
            let dup = |s: &str| format!("{s}{}{s}", rev(s));
            len += a.len() + z.len();
            xs.push((Some(a.clone()), Some(z.clone())));
            xs.push((Some(rev(&a)), Some(dup(&z))));
            xs.push((Some(dup(&a)), Some(rev(&z))));
            xs.push((Some(a), None));
            xs.push((None, Some(z)));
        }
        xs.push((Some(String::new()), None));
        xs.push((None, Some(String::new())));
        xs.push((Some(String::new()), Some(String::new())));
        xs.push((None, None));
        let cost = 500 + len as u64 * (30 + base.len() as u64 / 8);
        one(chars_line(&q, &base, &xs), cost)
    });
    jobs
}

// ---------------------------------------------------------------- C05

pub fn algebra<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 6 } else { 1 };
    spread(&mut jobs, 11 * 6 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 50_000 + i as u64);
        let v = i % 11;
        let (min, max) = match i / 11 % 6 {
            0 => (0, MAX),
            1 => (0, 255),
            2 => {
                let a = r.below(200) as u32;
                (a, a + r.below(56) as u32)
            }
            3 => (r.below(256) as u32, 256 + r.below(4000) as u32),
            4 => {
                let a = p.point(&mut r, v);
                (a, (a + 1 + r.below(3000) as u32).min(MAX))
            }
            _ => {
                let (a, b) = (p.point(&mut r, v), p.point(&mut r, v));
                (a.min(b), a.max(b))
            }
        };
        let q = Q::new(v).range(min, max);
        about(|| format!("algebra v{v} {min}..{max}"));
        let whole = ask_reply(&q);
        let ones: Vec<String> = (0..30).map(|c| ask_reply(&q.clone().cats(Some(1 << c), None))).collect();
        let mut sel: Vec<(Option<u32>, Option<u32>)> = vec![
            (None, None),
            (Some(0), None),
            (Some(ALL), None),
            (None, Some(0)),
            (None, Some(ALL)),
            (Some(0), Some(0)),
            (Some(0), Some(ALL)),
            (Some(ALL), Some(0)),
            (Some(ALL), Some(ALL)),
        ];
        let wide = max - min > 60_000;
        let brief = wide && !cfg.thorough;
        for c in 0..30 {
            let m = 1u32 << c;
            if brief && r.chance(2, 3) {
                continue;
            }
            sel.push((None, Some(m)));
            sel.push((Some(ALL & !m), None));
            sel.push((Some(m), Some(m)));
            sel.push((Some(m), Some(ALL & !m)));
            sel.push((Some(0), Some(m)));
        }
        let pairs = if brief { 15 } else { 435 };
        if pairs == 435 {
            for a in 0..30 {
                for b in a + 1..30 {
                    let m = 1u32 << a | 1 << b;
                    sel.push(if (a + b) % 3 == 0 { (None, Some(m)) } else { (Some(m), None) });
                }
            }
        } else {
            for _ in 0..pairs {
                sel.push((Some(1 << r.below(30) | 1 << r.below(30)), None));
            }
        }
        // neighbours in the table, and what is next to them
        if i / 11 % 6 == 1 || i / 11 % 6 == 3 {
            for a in 0..30 {
                for z in a..30 {
                    if !cfg.thorough && (a + z + i + cfg.seed as usize) % 6 != 0 {
                        continue;
                    }
                    let m = (a..=z).fold(0, |m, i| m | 1u32 << i);
                    sel.push((Some(m), Some(m << 1 & ALL)));
                    sel.push((Some(m), Some(m >> 1)));
                    sel.push((None, Some(m)));
                    let (x, y) = (r.below(30), r.below(30));
                    sel.push((Some(m), Some((x.min(y)..=x.max(y)).fold(0, |m, i| m | 1 << i))));
                    sel.push((Some(ALL & !m), Some(m.rotate_left(1 + r.below(29) as u32) & ALL)));
                }
            }
        }
        for _ in 0..if brief { 15 } else { 250 } {
            let s = r.next() as u32 & ALL;
            let t = p.mask(&mut r);
            sel.push((Some(s), None));
            sel.push((None, Some(s)));
            sel.push((Some(s), Some(t)));
        }
        let mut out = vec![];
        for chunk in sel.chunks(if wide { 120 } else { 400 }) {
            let xs: Vec<String> = chunk.iter().map(|(a, b)| format!("[{},{}]", opt_mask(*a), opt_mask(*b))).collect();
            let rs: Vec<String> = chunk.iter().map(|(a, b)| ask_reply(&q.clone().cats(*a, *b))).collect();
            let mut b = Block::new();
            let each = 60 + u64::from(max - min).min(120_000) / 40;
            b.put(
                format!(
                    "{{\"op\":\"algebra\",\"v\":{},\"min\":{min},\"max\":{max},\"whole\":{whole},\"ones\":[{}],\"xs\":[{}],\"rs\":[{}]}}",
                    v + 1,
                    ones.join(","),
                    xs.join(","),
                    rs.join(",")
                ),
                each * chunk.len() as u64,
            );
            out.push(b);
        }
        out
    });
    // short ranges at the ends of every category, for selections with that category
    spread(&mut jobs, 11 * 30 * 2 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 56_000 + i as u64);
        let (v, c) = (i % 11, i / 11 % 30);
        let Some(own) = oks(&Q::new(v).cats(Some(1 << c), None)) else { return vec![] };
        if own.is_empty() {
            return vec![];
        }
        let mut b = Block::new();
        for turn in 0..4 {
            // the first and the last code point of the category, or any other end
            let e = match (turn, i / 330 % 2) {
                (0, 0) => own[0].0,
                (0, _) => own[own.len() - 1].1,
                (_, 0) => r.pick(&own).0,
                _ => r.pick(&own).1,
            };
            let d = [0, 1, r.below(40) as u32, r.below(700) as u32][r.below(4)];
            let (min, max) = match (r.below(5), i / 330 % 2) {
                (0, _) => (e, e),
                (1, _) => ((e + 1).min(MAX), (e + 1 + d).min(MAX)),
                (2, _) => (e.saturating_sub(1 + d), e.saturating_sub(1)),
                (_, 0) => (e.saturating_sub(d), e),
                _ => (e, (e + d).min(MAX)),
            };
            let q = Q::new(v).range(min, max);
            about(|| format!("algebra v{v} {min}..{max}"));
            let whole = ask_reply(&q);
            let ones: Vec<String> = (0..30).map(|c| ask_reply(&q.clone().cats(Some(1 << c), None))).collect();
            let m = 1u32 << c;
            let mut sel: Vec<(Option<u32>, Option<u32>)> = vec![(None, Some(m)), (Some(ALL & !m), None), (Some(m), Some(ALL & !m)), (Some(m), Some(m))];
            for o in 0..30 {
                if o != c {
                    sel.push((Some(m | 1 << o), None));
                    if r.chance(1, 5) {
                        sel.push((None, Some(m | 1 << o)));
                        sel.push((Some(m | 1 << o | 1 << r.below(30)), Some(1 << r.below(30))));
                    }
                }
            }
            for _ in 0..6 {
                sel.push((Some(r.next() as u32 & ALL | m), None));
                sel.push((Some(r.next() as u32 & ALL | m), Some(r.next() as u32 & ALL & !m)));
            }
            let xs: Vec<String> = sel.iter().map(|(a, b)| format!("[{},{}]", opt_mask(*a), opt_mask(*b))).collect();
            let rs: Vec<String> = sel.iter().map(|(a, b)| ask_reply(&q.clone().cats(*a, *b))).collect();
            b.put(
                format!(
                    "{{\"op\":\"algebra\",\"v\":{},\"min\":{min},\"max\":{max},\"whole\":{whole},\"ones\":[{}],\"xs\":[{}],\"rs\":[{}]}}",
                    v + 1,
                    ones.join(","),
                    xs.join(","),
                    rs.join(",")
                ),
                60 * sel.len() as u64,
            );
        }
        vec![b]
    });
    jobs
}

// ---------------------------------------------------------------- C06

pub const EXTREME: &[u32] = &[
    0, 1, 2, 63, 64, 127, 128, 254, 255, 256, 257, 0x7FF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF, 0x10000,
    0x10FFFD, 0x10FFFE, 0x10FFFF, 0x11_0000, 0x11_0001, 0x11_00FF, 0x1F_FFFF, 0x20_0000, 0xFF_FFFF, 0x7FFF_FFFE,
    0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFE_FFFF, 0xFFEF_0000, 0xFFFF_FF00, 0xFFFF_FFFE, 0xFFFF_FFFF,
];

pub fn verdicts<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    // very often
    spread(&mut jobs, 6, move |i| {
        let mut b = Block::new();
        let (min, max) = [(0x11_0000, 5), (5, 4), (0, 0x11_0000), (MAX, 0), (7, 7), (u32::MAX, u32::MAX)][i];
        let mut q = Q::new(i).cats(Some(1 << 5), None).range(min, max);
        q.explicit = true;
        let j = q.json();
        steady(&mut b, 120, OFTEN, || {
            about(|| format!("verdict {j}"));
            let a = reply(&q.ask(), |_| "1".into());
            let z = reply(&q.set(), |_| "1".into());
            format!("{{\"op\":\"verdict\",\"q\":{j},\"r\":{a},\"s\":{z}}}")
        });
        vec![b]
    });
    // numbers that are code points but for a bit or a few
    spread(&mut jobs, 32, move |i| {
        let mut r = Rng::new(cfg.seed, 61_000 + i as u64);
        let mut b = Block::new();
        for k in 0..if cfg.thorough { 400 } else { 40 } {
            let mut two = [p.point(&mut r, 0), p.point(&mut r, 0)];
            two.sort_unstable();
            let [mut x, mut y] = two;
            let mut bits = 1u32 << i;
            for _ in 0..[0, 0, 0, 1, 2][k % 5] {
                bits |= 1 << r.below(32);
            }
            match k % 4 {
                0 => x ^= bits,
                1 => y ^= bits,
                2 => (x, y) = (x ^ bits, y ^ bits),
                _ => (x, y) = (y, x ^ bits),
            }
            let v = r.below(11);
            let mut q = Q::new(v).range(x, y);
            if k % 3 == 0 {
                q = q.cats(p.opt_mask(&mut r), p.opt_mask(&mut r)).chars(Some(p.string(&mut r, v, true)), None);
            }
            q.explicit = true;
            let j = q.json();
            about(|| format!("verdict {j}"));
            let a = reply(&q.ask(), |_| "1".into());
            let z = reply(&q.set(), |_| "1".into());
            b.put(format!("{{\"op\":\"verdict\",\"q\":{j},\"r\":{a},\"s\":{z}}}"), 120);
        }
        vec![b]
    });
    let k = if cfg.thorough { 40 } else { 4 };
    spread(&mut jobs, EXTREME.len() * k, move |i| {
        let mut r = Rng::new(cfg.seed, 60_000 + i as u64);
        let mut b = Block::new();
        let x = EXTREME[i % EXTREME.len()];
        let mut ys: Vec<u32> = EXTREME.to_vec();
        for _ in 0..20 {
            ys.push(match r.below(4) {
                0 => p.point(&mut r, 0),
                1 => x.wrapping_add(r.below(5) as u32).wrapping_sub(2),
                2 => r.next() as u32,
                _ => 0x11_0000 + r.below(0x1000) as u32,
            });
        }
        for (j, &y) in ys.iter().enumerate() {
            for (min, max) in [(x, y), (y, x)] {
                let v = r.below(11);
                let plainly = i < EXTREME.len() && j % 2 == 0;
                let mut q = Q::new(v).range(min, max);
                if !plainly {
                    let small = r.chance(1, 2);
                    q = q.cats(p.opt_mask(&mut r), p.opt_mask(&mut r));
                    let c = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(p.string(r, v, small)) };
                    q.ich = c(&mut r);
                    q.xch = c(&mut r);
                }
                q.explicit = true;
                let j = q.json();
                about(|| format!("verdict {j}"));
                let a = reply(&q.ask(), |_| "1".into());
                let z = reply(&q.set(), |_| "1".into());
                b.put(format!("{{\"op\":\"verdict\",\"q\":{j},\"r\":{a},\"s\":{z}}}"), 120);
            }
        }
        vec![b]
    });
    jobs
}

// ---------------------------------------------------------------- C07

/// Values the scenarios choose from: small answers, every setting visible in them.
/// (the first four of each in histories printed by the model, all of them in the longer ones).
const MASKS: [u32; 8] =
    [1 << 12 | 1 << 29, 1 << 5, 0, ALL & !(1 << 12), ALL, 1 << 12, 1 << 29, ALL & !(1 << 12) & !(1 << 29)];
/// No setting, nothing, everything.
const EDGES: [i64; 3] = [-1, 2, 4];
const STRS: [&str; 18] = [
    "aZ",
    "\u{2603}5",
    "",
    "ZZ\u{ff}a",
    "Za",
    "aZaZ",
    "az",
    "5\u{2603}",
    "abcdefghijklmnopqrstuvwxyz",
    "abcdefghijklmnopqrstuvwxyy",
    "\0",
    "aZ\0",
    "aZ ",
    " aZ",
    "AZ",
    "aZ\n",
    "\u{e9}",
    "e\u{301}",
];
const BOUNDS: [u32; 10] = [0, 57, 97, 300, 0x11_0000, 255, 256, 65535, MAX, u32::MAX];

/// Equal strings at different addresses.
fn text_of(x: i64, style: usize) -> &'static str {
    static COPIES: OnceLock<Vec<[String; 2]>> = OnceLock::new();
    let all = COPIES.get_or_init(|| STRS.iter().map(|s| [s.to_string(), format!(" {s}")]).collect());
    let [a, b] = &all[x as usize];
    match style % 3 {
        0 => STRS[x as usize],
        1 => a,
        _ => &b[1..],
    }
}

fn fnum(f: i64) -> &'static str {
    ["inc", "exc", "ich", "xch", "min", "max"][f as usize]
}

fn apply<'q>(b: IntervalQuery<'q>, f: i64, x: i64, style: usize) -> (IntervalQuery<'q>, String) {
    match f {
        0 | 1 => {
            let m = if x < 0 { None } else { Some(MASKS[x as usize]) };
            let s: Option<UnicodeCategorySet> = m.map(to_set);
            let b = match (f, m) {
                // the different ways to write the same setting
                (0, Some(v)) if v.count_ones() == 1 && style % 2 == 0 => {
                    b.include_categories(CATS[v.trailing_zeros() as usize])
                }
                (1, Some(v)) if v.count_ones() == 1 && style % 2 == 0 => {
                    b.exclude_categories(CATS[v.trailing_zeros() as usize])
                }
                (0, Some(v)) if style % 3 == 1 => b.include_categories(to_set(v)),
                (1, Some(v)) if style % 3 == 1 => b.exclude_categories(to_set(v)),
                (0, _) => b.include_categories(s),
                _ => b.exclude_categories(s),
            };
            (b, opt_mask(m))
        }
        2 => (b.include_characters(text_of(x, style)), cps(STRS[x as usize])),
        3 => (b.exclude_characters(text_of(x, style)), cps(STRS[x as usize])),
        4 => (b.min_codepoint(BOUNDS[x as usize]), n(BOUNDS[x as usize]).to_string()),
        _ => (b.max_codepoint(BOUNDS[x as usize]), n(BOUNDS[x as usize]).to_string()),
    }
}

/// Steps: [0,t,v] new; [1,t] default; [2,h,t,f,x] set; [3,h,t] copy; [4,h] ask; [5,h,g] compare; [6,h] build set
fn builder_block(steps: &Scenario, style: usize) -> Block {
    let mut b = Block::new();
    let mut slots: HashMap<i64, IntervalQuery> = HashMap::new();
    for (i, s) in steps.iter().enumerate() {
        about(|| format!("builder {steps:?} step {i}"));
        let line = match s[0] {
            0 => call(|| VERS[s[2] as usize].query()).map(|q| {
                slots.insert(s[1], q);
                format!("{{\"op\":\"qnew\",\"t\":{},\"v\":{}}}", s[1], s[2] + 1)
            }),
            1 => call(unicode_intervals::query).map(|q| {
                slots.insert(s[1], q);
                format!("{{\"op\":\"qdef\",\"t\":{}}}", s[1])
            }),
            2 => {
                let (h, t) = (s[1], s[2]);
                let src = if h == t { slots.remove(&h) } else { slots.get(&h).cloned() };
                let src = src.expect("slot");
                call(|| apply(src, s[3], s[4], style + i)).map(|(q, x)| {
                    slots.insert(t, q);
                    format!("{{\"op\":\"qset\",\"h\":{h},\"t\":{t},\"f\":\"{}\",\"x\":{x}}}", fnum(s[3]))
                })
            }
            // an object of its own, or made in place of what the slot held
            3 => call(|| match slots.get(&s[2]).cloned() {
                Some(mut old) if (style + i) % 2 == 0 => {
                    old.clone_from(&slots[&s[1]]);
                    old
                }
                _ => slots[&s[1]].clone(),
            })
            .map(|q| {
                slots.insert(s[2], q);
                format!("{{\"op\":\"qcopy\",\"h\":{},\"t\":{}}}", s[1], s[2])
            }),
            4 => Ok(format!("{{\"op\":\"qask\",\"h\":{},\"r\":{}}}", s[1], reply(&call(|| slots[&s[1]].intervals()), |v| ivs(v)))),
            5 => Ok(format!(
                "{{\"op\":\"qeq\",\"h\":{},\"g\":{},\"r\":{}}}",
                s[1],
                s[2],
                match call(|| (slots[&s[1]] == slots[&s[2]], slots[&s[1]] != slots[&s[2]])) {
                    Ok((x, y)) if x != y => u8::from(x).to_string(),
                    _ => "2".into(),
                }
            )),
            _ => Ok(format!(
                "{{\"op\":\"qbuild\",\"h\":{},\"r\":{}}}",
                s[1],
                reply(&call(|| slots[&s[1]].interval_set()), |v| format!("[{},{}]", nz(v.len()), u8::from(v.is_empty())))
            )),
        };
        match line {
            Ok(l) => b.put(l, if s[0] == 4 || s[0] == 6 { 250 } else { 60 }),
            Err(m) => {
                b.put(format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&format!("{s:?} {m}"))), 1);
                break;
            }
        }
    }
    b
}

pub fn builders<'a>(cfg: &'a Cfg, _p: &'a Pools, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    // behaviours of the specification
    for (i, chunk) in scen.chunks(64).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || chunk.iter().enumerate().map(|(j, s)| builder_block(s, i * 64 + j)).collect()));
    }
    // pairs of queries that differ in one setting at most
    spread(&mut jobs, 6 * 18, move |i| {
        let mut r = Rng::new(cfg.seed, 69_000 + i as u64);
        let f = (i % 6) as i64;
        let values = |f: i64| -> Vec<i64> {
            match f {
                0 | 1 => (-1..MASKS.len() as i64).collect(),
                2 | 3 => (0..STRS.len() as i64).collect(),
                _ => (0..BOUNDS.len() as i64).collect(),
            }
        };
        let vs = values(f);
        let Some(&x) = vs.get(i / 6) else { return vec![] };
        let v = r.below(11) as i64;
        let mut steps: Scenario = vec![vec![0, 1, v], vec![0, 2, (v + i64::from(r.chance(1, 8))) % 11]];
        // other settings, given to both
        for g in 0..6 {
            if g != f && r.chance(1, 2) {
                let y = *r.pick(&values(g));
                steps.push(vec![2, 1, 1, g, y]);
                steps.push(vec![2, 2, 2, g, y]);
            }
        }
        // one given to one of them, one left alone
        steps.push(vec![5, 1, 2]);
        steps.push(vec![2, 1, 1, f, x]);
        steps.push(vec![5, 1, 2]);
        for &y in &vs {
            steps.push(vec![2, 2, 2, f, y]);
            steps.push(vec![5, 1, 2]);
            steps.push(vec![5, 2, 1]);
            steps.push(vec![3, 2, 3]);
            steps.push(vec![5, 2, 3]);
        }
        vec![builder_block(&steps, i)]
    });
    // the same settings, given in different orders and with detours: equal queries
    spread(&mut jobs, if cfg.thorough { 3000 } else { 300 }, move |i| {
        let mut r = Rng::new(cfg.seed, 66_000 + i as u64);
        let v = r.below(11) as i64;
        let mut final_: Vec<(i64, i64)> = vec![];
        for f in 0..6 {
            if r.chance(2, 3) {
                let x = match f {
                    // nothing, everything and no setting above all
                    0 | 1 if r.chance(1, 2) => *r.pick(&EDGES),
                    0 | 1 => r.below(1 + MASKS.len()) as i64 - 1,
                    2 | 3 => r.below(STRS.len()) as i64,
                    _ => r.below(BOUNDS.len()) as i64,
                };
                final_.push((f, x));
            }
        }
        let mut steps: Scenario = vec![];
        for t in 1..=3 {
            steps.push(vec![0, t, v]);
            let mut order = final_.clone();
            for k in (1..order.len()).rev() {
                order.swap(k, r.below(k + 1));
            }
            for (k, (f, x)) in order.iter().enumerate() {
                if t > 1 && r.chance(1, 4) {
                    // something else first; settings made before stay
                    let (f, _) = order[k + r.below(order.len() - k)];
                    let y = match f {
                        0 | 1 => *r.pick(&EDGES),
                        2 | 3 => r.below(STRS.len()) as i64,
                        _ => r.below(BOUNDS.len()) as i64,
                    };
                    steps.push(vec![2, t, t, f, y]);
                }
                steps.push(vec![2, t, t, *f, *x]);
            }
        }
        for (h, g) in [(1, 2), (2, 1), (2, 3), (3, 1)] {
            steps.push(vec![5, h, g]);
        }
        steps.push(vec![4, 1 + r.below(3) as i64]);
        vec![builder_block(&steps, i)]
    });
    // longer histories
    let count = if cfg.thorough { 6000 } else { 400 };
    spread(&mut jobs, count, move |i| {
        let mut r = Rng::new(cfg.seed, 70_000 + i as u64);
        let slots = 4;
        let mut steps: Scenario = vec![];
        for t in 1..=slots {
            steps.push(if r.chance(1, 4) { vec![1, t] } else { vec![0, t, r.below(11) as i64] });
        }
        for _ in 0..40 {
            let h = 1 + r.below(slots as usize) as i64;
            let t = if r.chance(2, 3) { h } else { 1 + r.below(slots as usize) as i64 };
            match r.below(10) {
                0..=4 => {
                    let f = r.below(6) as i64;
                    let x = match f {
                        0 | 1 if i % 2 == 0 => r.below(5) as i64 - 1,
                        0 | 1 => r.below(1 + MASKS.len()) as i64 - 1,
                        2 | 3 if i % 2 == 0 => r.below(4) as i64,
                        2 | 3 => r.below(STRS.len()) as i64,
                        // out of range seldom, or nearly everything would fail
                        _ => *r.pick(&[0, 1, 2, 3, 0, 1, 2, 3, 5, 6, 7, 8, 0, 1, 2, 3, 4, 9]),
                    };
                    steps.push(vec![2, h, t, f, x]);
                }
                5 => steps.push(vec![3, h, t]),
                6 | 7 => steps.push(vec![4, h]),
                8 => steps.push(vec![5, h, t]),
                _ => steps.push(vec![6, h]),
            }
        }
        for h in 1..=slots {
            steps.push(vec![4, h]);
            steps.push(vec![4, h]);
        }
        vec![builder_block(&steps, i)]
    });
    jobs
}

// ---------------------------------------------------------------- C18

fn questions(cfg: &Cfg, p: &Pools) -> Vec<Q> {
    let mut r = Rng::new(cfg.seed, 18);
    let mut qs: Vec<Q> = vec![];
    for v in 0..11 {
        for c in 0..30 {
            qs.push(Q::new(v).cats(Some(1 << c), None));
            qs.push(Q::new(v).cats(Some(1 << c), None).range(0, 255));
        }
        qs.push(Q::new(v));
    }
    // the same ranges and selections in every version, one after the other
    for (k, &(min, max)) in PARTS.iter().enumerate() {
        let sel = [p.masks(&mut r), (Some(1 << r.below(30)), None)];
        for (inc, exc) in sel {
            for v in 0..11 {
                qs.push(Q::new(v).cats(inc, exc).range(min, max));
            }
        }
        if k % 3 == 0 {
            for v in 0..11 {
                let s = p.string_of(&mut r, v, max < 256, 3);
                qs.push(Q::new(v).cats(None, Some(1 << r.below(30))).range(min, max).chars(Some(s), None));
            }
        }
    }
    // strings of the same length, and selections written with the same number of members
    for k in 0..if cfg.thorough { 120 } else { 24 } {
        let v = r.below(11);
        let (inc, exc) = p.masks(&mut r);
        let (min, max) = p.range(&mut r, v);
        let len = [1, 1, 2, 3, 8, 9, 16, 33, 64, 100, 300, 1000][k % 12];
        let mut s = p.string_of(&mut r, v, max < 256, len);
        for j in 0..6 {
            s = p.same_bytes(&mut r, &s);
            let q = Q::new(v).cats(inc, exc).range(min, max);
            qs.push(match (j + k) % 3 {
                0 => q.chars(None, Some(s.clone())),
                1 => q.chars(Some(s.clone()), Some("a".into())),
                _ => q.chars(Some(s.clone()), None),
            });
        }
        // one failing, then the same with one argument put right
        let (a, b) = (0x11_0000 + r.below(4) as u32, max);
        qs.push(Q::new(v).cats(inc, exc).range(a, b));
        qs.push(Q::new(v).cats(inc, exc).range(min, b));
        qs.push(Q::new(v).cats(inc, exc).range(min, a));
        qs.push(Q::new(v).cats(inc, exc).range(max, min));
        qs.push(Q::new(v).cats(inc, exc).range(min, max));
        qs.push(Q::new(v).cats(inc, exc).range(max, min));
        qs.push(Q::new(v).cats(inc, exc).range(0, [min, max][k % 2]));
        qs.push(Q::new(v).cats(inc, exc).range(a, min));
        qs.push(Q::new(v).cats(inc, exc).range([max, min][k % 2], MAX));
    }
    for _ in 0..if cfg.thorough { 1500 } else { 400 } {
        qs.extend(p.chain(&mut r, 10));
    }
    qs
}

/// One answer, including what lookups and iteration on the set give.
fn full_answer(q: &Q, deep: bool) -> String {
    let a = ask_reply(q);
    if !deep {
        return a;
    }
    let s = reply(&q.set(), |s| {
        let mid = s.len() as u32 / 2;
        format!(
            "[{},{},{},{},{},{}]",
            nz(s.len()),
            opt(s.codepoint_at(mid)),
            s.codepoint_at(mid).map_or("[]".into(), |c| opt(s.index_of(c))),
            n(s.index_above(q.min.wrapping_add(q.max) / 2)),
            opt(s.iter().next_back()),
            opt(s.iter().nth(mid as usize / 2)),
        )
    });
    let misc = plain(
        &call(|| {
            let v = VERS[q.v];
            (
                v.normalized_categories().map(cat_no),
                v.table().len(),
                v.intervals_for(CATS[q.min as usize % 30]).len(),
                unicode_intervals::as_general_categories([["L", "N", "Z", "P"][q.max as usize % 4], CATS[q.min as usize % 30].as_str()], v),
                VERS[q.max as usize % 11].as_str().parse::<unicode_intervals::UnicodeVersion>(),
                CATS[q.max as usize % 30].as_str().parse::<UnicodeCategory>(),
                q.json().parse::<UnicodeCategory>().map_err(|e| e.to_string()),
                q.inc.map(|m| to_set(m).to_string()),
            )
        }),
        |x| format!("{}", esc(&format!("{x:?}"))),
    );
    // one reply: the answer and, if it is one, everything else
    format!("{}|{s}|{misc}", a)
}

fn order(nq: usize, seed: u64, k: u64) -> Vec<usize> {
    let mut o: Vec<usize> = (0..nq).collect();
    let mut r = Rng::new(seed, 1000 + k);
    match k {
        0 => {}
        1 => o.reverse(),
        _ => {
            for i in (1..nq).rev() {
                o.swap(i, r.below(i + 1));
            }
        }
    }
    o
}

/// All questions, in one order, in a process of its own.
pub fn purity_child(cfg: &Cfg, p: &Pools) {
    use std::io::Write as _;
    let k: u64 = std::env::var("ORDER").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let qs = questions(cfg, p);
    let mut ans = vec![String::new(); qs.len()];
    for i in order(qs.len(), cfg.seed, k) {
        about(|| format!("ask {}", qs[i].json()));
        ans[i] = full_answer(&qs[i], true);
    }
    let f = std::fs::File::create(format!("{}/answers{k}", cfg.out)).expect("create");
    let mut w = std::io::BufWriter::new(f);
    for a in ans {
        writeln!(w, "{a}").expect("write");
    }
}

/// What a process may find around it.
fn surroundings(k: usize) -> Vec<(String, String)> {
    let mut all = vec![];
    if k % 2 == 1 {
        let version = VERS[k % 10].as_str();
        for a in ["UNICODE_INTERVALS", "UNICODE", "UCD", "UNICODEDATA"] {
            for (b, x) in [("VERSION", version), ("DEFAULT_VERSION", version), ("CACHE", "1"), ("NO_CACHE", "1"), ("DEBUG", "1"), ("FAST", "1"), ("STRICT", "1"), ("LEGACY", "1"), ("MAX_CODEPOINT", "65535")] {
                all.push((format!("{a}_{b}"), x.to_string()));
            }
        }
        for (a, x) in [("DEBUG", "1"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TZ", "Pacific/Apia"), ("CI", "true"), ("NO_COLOR", "1"), ("HOME", "/"), ("TMPDIR", "/nowhere")] {
            all.push((a.to_string(), x.to_string()));
        }
    }
    all
}

pub fn purity<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let qs = questions(cfg, p);
    // several processes, each asking in another order
    let kids = if cfg.thorough { 24 } else { 8 };
    let exe = std::env::current_exe().expect("exe");
    let mut running = vec![];
    for k in 0..kids {
        let c = std::process::Command::new(&exe)
            .args(["C18child", &cfg.out])
            .env("ORDER", k.to_string())
            .envs(surroundings(k))
            .current_dir(if k % 3 == 2 { "/" } else { "." })
            .spawn()
            .expect("spawn");
        running.push(c);
    }
    let mut kid_failed = vec![];
    for (k, mut c) in running.into_iter().enumerate() {
        let st = c.wait().expect("wait");
        if !st.success() {
            kid_failed.push((k, st.to_string()));
        }
    }
    // the first answers, and those of this process with several threads at once
    let first: Vec<String> = qs.iter().map(|q| {
        about(|| format!("ask {}", q.json()));
        full_answer(q, true)
    }).collect();
    let repeats = if cfg.thorough { 60 } else { 6 };
    let nthreads = 8;
    let mut same: Vec<Vec<usize>> = vec![];
    let mut diff: Vec<(usize, String, String)> = vec![];
    let barrier = std::sync::Barrier::new(nthreads);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (qs, first, barrier) = (&qs, &first, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let mut same = vec![];
                    let mut diff = vec![];
                    for rep in 0..repeats {
                        // half of the rounds: all threads in the same order, so that they meet
                        let k = if rep % 2 == 0 { 2 + rep as u64 } else { 100 + (t * repeats + rep) as u64 };
                        for i in order(qs.len(), cfg.seed, k) {
                            about(|| format!("ask {}", qs[i].json()));
                            let a = full_answer(&qs[i], true);
                            if a == first[i] {
                                same.push(i);
                            } else if diff.len() < 20 {
                                diff.push((i, a, format!("thread {t}, round {rep}")));
                            }
                        }
                    }
                    (same, diff)
                })
            })
            .collect();
        for h in hs {
            let (s, d) = h.join().expect("thread");
            same.push(s);
            diff.extend(d);
        }
    });
    // shared objects used by several threads at once
    diff.extend(shared_objects(cfg, p, nthreads));
    // short questions, as fast as possible
    let (s, d) = storm(cfg, &qs, nthreads);
    same.extend(s);
    diff.extend(d);
    for k in 0..kids {
        match std::fs::read_to_string(format!("{}/answers{k}", cfg.out)) {
            Ok(t) => {
                let mut got = vec![];
                for (i, a) in t.lines().enumerate() {
                    if i < first.len() && a == first[i] {
                        got.push(i);
                    } else if diff.len() < 60 && i < first.len() {
                        diff.push((i, a.to_string(), format!("process {k}")));
                    }
                }
                same.push(got);
            }
            Err(_) => diff.push((0, format!("{kid_failed:?}"), format!("process {k}"))),
        }
    }
    // recording: first answers, then (per thread and process) the repetitions
    let mut out = vec![];
    let size = 200;
    let mut later: Vec<Vec<usize>> = vec![vec![]; qs.len().div_ceil(size)];
    for s in &same {
        for &i in s {
            later[i / size].push(i);
        }
    }
    for (c, chunk) in qs.chunks(size).enumerate() {
        let mut b = Block::new();
        for (j, q) in chunk.iter().enumerate() {
            let a = first[c * size + j].split('|').next().unwrap_or("{}").to_string();
            b.put(format!("{{\"op\":\"asked\",\"q\":{},\"r\":{a}}}", q.json()), 20);
        }
        for part in later[c].chunks(2000) {
            let here = b.lines.len();
            let back: Vec<i64> = part.iter().map(|&i| (here - (i - c * size)) as i64).collect();
            b.put(format!("{{\"op\":\"again\",\"back\":{}}}", ints(&back)), 2 * back.len() as u64);
        }
        out.push(b);
    }
    for (i, a, who) in diff.iter().take(60) {
        let mut b = Block::new();
        b.put(
            format!(
                "{{\"op\":\"differs\",\"q\":{},\"who\":{},\"first\":{{\"text\":{}}},\"r\":{{\"text\":{}}}}}",
                qs[*i].json(),
                esc(who),
                esc(&first[*i].chars().take(400).collect::<String>()),
                esc(&a.chars().take(400).collect::<String>())
            ),
            1,
        );
        if a == &first[*i] {
            b.lines[0] = b.lines[0].replace("\"differs\"", "\"differs-set\"");
        }
        out.push(b);
    }
    CALLS.fetch_add((kids * qs.len()) as u64, std::sync::atomic::Ordering::Relaxed);
    vec![Box::new(move || out)]
}

/// Threads that ask short questions without pause: now all of them the same few, now neighbours, now any.
#[allow(clippy::type_complexity)]
fn storm(cfg: &Cfg, qs: &[Q], nthreads: usize) -> (Vec<Vec<usize>>, Vec<(usize, String, String)>) {
    let known: Vec<_> = qs.iter().map(Q::ask).collect();
    let short: Vec<usize> = (0..qs.len()).filter(|&i| known[i].as_ref().is_ok_and(|x| x.as_ref().map_or(true, |v| v.len() < 40))).collect();
    let few: Vec<usize> = short.iter().copied().filter(|&i| known[i].as_ref().is_ok_and(|x| x.as_ref().map_or(true, |v| v.len() < 6))).collect();
    let rounds = if cfg.thorough { 4000 } else { 400 };
    let barrier = std::sync::Barrier::new(nthreads);
    let mut same = vec![];
    let mut diff: Vec<(usize, String, String)> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (known, short, few, barrier) = (&known, &short, &few, &barrier);
                s.spawn(move || {
                    let mut asked = vec![false; qs.len()];
                    let mut diff = vec![];
                    for round in 0..rounds {
                        // the same for all threads
                        let mut r = Rng::new(cfg.seed, 900_000 + round as u64);
                        let from: &[usize] = if round % 2 == 0 { few } else { short };
                        if from.is_empty() {
                            continue;
                        }
                        let hot: Vec<usize> = match round % 4 {
                            0 => (0..2).map(|_| *r.pick(from)).collect(),
                            1 => {
                                let a = r.below(from.len());
                                from[a..(a + 12).min(from.len())].to_vec()
                            }
                            2 => {
                                let a = r.below(from.len());
                                from[a..(a + 2).min(from.len())].to_vec()
                            }
                            _ => (0..200).map(|_| *r.pick(from)).collect(),
                        };
                        let mut mine = Rng::new(cfg.seed, 950_000 + (round * nthreads + t) as u64);
                        barrier.wait();
                        for _ in 0..3000 {
                            let i = *mine.pick(&hot);
                            let a = qs[i].ask();
                            if a == known[i] {
                                asked[i] = true;
                            } else if diff.len() < 20 {
                                diff.push((i, reply(&a, |v| ivs(v)), format!("thread {t}, round {round}, all threads at once")));
                            }
                        }
                    }
                    ((0..qs.len()).filter(|&i| asked[i]).collect::<Vec<_>>(), diff)
                })
            })
            .collect();
        for h in hs {
            let (s, d) = h.join().expect("thread");
            same.push(s);
            diff.extend(d);
        }
    });
    (same, diff)
}

/// One interval set, one category set and one builder, used by all threads together.
fn shared_objects(cfg: &Cfg, p: &Pools, nthreads: usize) -> Vec<(usize, String, String)> {
    let mut diff = vec![];
    let mut r = Rng::new(cfg.seed, 1818);
    for round in 0..if cfg.thorough { 200 } else { 30 } {
        let q = p.query(&mut r);
        let Ok(Ok(set)) = q.set() else { continue };
        if !(probe!(unicode_intervals::IntervalSet: Sync) && probe!(IntervalQuery<'static>: Sync)) {
            // C26 reports it
            break;
        }
        let set = Shared(set);
        let b = Shared(q.build());
        let view = |salt: u64| -> String {
            let (set, b) = (set.get(), b.get());
            about(|| format!("shared {}", q.json()));
            let mut r = Rng::new(cfg.seed, 5000 + salt);
            call(|| {
                let mut it = set.iter();
                let mut acc = vec![];
                for _ in 0..200 {
                    let x = match r.below(4) {
                        0 => it.next(),
                        1 => it.next_back(),
                        2 => set.codepoint_at(r.below(set.len() + 2) as u32),
                        _ => Some(set.index_above(r.below(MAX as usize + 2) as u32)),
                    };
                    acc.push(x);
                }
                format!("{acc:?} {:?}", b.intervals().map(|v| v.len()))
            })
            .unwrap_or_else(|m| m)
        };
        let alone = view(round);
        let together: Vec<String> =
            std::thread::scope(|s| (0..nthreads).map(|_| s.spawn(|| view(round))).collect::<Vec<_>>().into_iter().map(|h| h.join().expect("thread")).collect());
        for t in together {
            if t != alone {
                diff.push((0, t, format!("shared objects, query {}", q.json())));
            }
        }
    }
    diff
}

// ---------------------------------------------------------------- C23

/// Does something when it is dropped.
struct Words(Option<Box<dyn FnOnce()>>);
impl Drop for Words {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f();
        }
    }
}
thread_local! {
    static LAST_WORDS: std::cell::RefCell<Words> = const { std::cell::RefCell::new(Words(None)) };
    static LATER_WORDS: std::cell::RefCell<Words> = const { std::cell::RefCell::new(Words(None)) };
}

/// A value whose conversions ask the library.
struct Again<'a>(u32, &'a unicode_intervals::IntervalSet, unicode_intervals::UnicodeVersion);

impl Again<'_> {
    fn ask(&self) {
        let first = self.1.codepoint_at(0).unwrap_or(7);
        drop((self.1.contains(first), !self.1.is_empty()));
        drop((self.1.index_of(first), self.1.iter().next().map(|_| 0)));
        drop((self.1.index_above(0u32), 0));
        let order = self.2.normalized_categories();
        drop((unicode_intervals::as_general_categories(["C", "L", "M", "N", "P", "S", "Z"], self.2), order));
        let q = self.2.query().include_categories(CATS[3]).include_characters("a").max_codepoint(99);
        drop((q.intervals(), q.interval_set().and_then(|_| q.intervals())));
    }
}
impl From<Again<'_>> for u32 {
    fn from(x: Again<'_>) -> u32 {
        x.ask();
        x.0
    }
}
impl From<Again<'_>> for Option<UnicodeCategorySet> {
    fn from(x: Again<'_>) -> Self {
        x.ask();
        Some(to_set(x.0))
    }
}
impl AsRef<str> for Again<'_> {
    fn as_ref(&self) -> &str {
        self.ask();
        CATS[self.0 as usize].as_str()
    }
}

pub fn totality<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 20 } else { 1 };
    let alive = |what: String, f: &dyn Fn() -> String| -> String {
        about(|| what.clone());
        let r = f();
        format!("{{\"op\":\"alive\",\"what\":{},\"r\":{r}}}", esc(&what))
    };
    let brief = std::env::var("BRIEF").is_ok();
    // long strings in the order, number and repetition that suits recursion least
    spread(&mut jobs, 12, move |i| {
        let n = [70_000, 400_000, 1_000_000][i % 3];
        let s: String = match i / 3 {
            0 => "\u{4E00}".repeat(n),
            1 => (0..n as u32).map(|x| char::from_u32(0x4E00 + x % 20_000).expect("character")).collect(),
            2 => (0..n as u32).rev().filter_map(|x| char::from_u32(0x1_0000 + 2 * (x % 500_000))).collect(),
            _ => (0..n).map(|x| ['a', '\u{ff}', '\u{100}'][x % 3]).collect(),
        };
        let mut b = Block::new();
        for inc in [true, false] {
            for max in [255, MAX] {
                let q = VERS[i % 11].query().include_categories(UnicodeCategorySet::from(CATS[i])).max_codepoint(max);
                let q = if inc { q.include_characters(&s) } else { q.exclude_characters(&s) };
                let what = format!("long string {i}, included: {inc}, max {max}");
                b.put(alive(what, &|| reply(&call(|| q.interval_set().map(|z| z.iter().rev().count() + z.len())), |_| "1".into())), 30);
            }
        }
        let names = vec!["Lu"; n];
        b.put(alive(format!("long list {i}"), &|| reply(&call(|| unicode_intervals::as_general_categories(&names, VERS[i % 11])), |_| "1".into())), 30);
        b.put(alive(format!("long name {i}"), &|| plain(&call(|| s.parse::<UnicodeCategory>().is_err() && s.parse::<unicode_intervals::UnicodeVersion>().is_err()), |_| "1".into())), 30);
        vec![b]
    });
    // arguments which call the library themselves when they are converted or consumed
    spread(&mut jobs, 22, move |i| {
        let mut r = Rng::new(cfg.seed, 87_000 + i as u64);
        let v = VERS[i % 11];
        let mut b = Block::new();
        for _ in 0..4 {
            let q = p.query(&mut r);
            let what = format!("call from within a call, {}", q.json());
            b.put(
                alive(what, &|| {
                    reply(
                        &call(|| {
                            let set = q.build().interval_set()?;
                            for x in [0, 65, 0xFF, 0xD800, MAX, u32::MAX] {
                                let again = || Again(x, &set, v);
                                let plain = (set.contains(x), set.index_of(x), set.index_above(x));
                                drop((plain, (set.contains(again()), set.index_of(again()), set.index_above(again()))));
                            }
                            let expand = |d: &str| unicode_intervals::as_general_categories([d], v);
                            let inner = ["N", "Lu", "Z"].into_iter().flat_map(|d| expand(d).unwrap_or_default()).map(|c| Again(c as u32, &set, v));
                            drop((unicode_intervals::as_general_categories(inner, v)?, unicode_intervals::as_general_categories(["Lu", "Z", "N"], v)?));
                            let asked = q.build().include_categories(Again(1 << 3, &set, v)).exclude_categories(Again(1 << 4, &set, v)).intervals()?;
                            drop((asked, q.build().include_categories(to_set(1 << 3)).exclude_categories(to_set(1 << 4)).intervals()?));
                            Ok::<_, unicode_intervals::Error>(())
                        }),
                        |_| "1".into(),
                    )
                }),
                30,
            );
        }
        vec![b]
    });
    // calls while a thread ends, when what the library keeps for the thread may be gone
    spread(&mut jobs, 40, move |i| {
        let mut r = Rng::new(cfg.seed, 88_000 + i as u64);
        let qs: Vec<Q> = (0..6).map(|_| p.query(&mut r)).collect();
        let mut b = Block::new();
        let (early, late) = (i % 2 == 0, i % 4 < 2);
        let work = {
            let qs = qs.clone();
            move || {
                let mut all = vec![];
                for q in &qs {
                    all.push(format!("{:?}", call(|| q.build().intervals())));
                    all.push(format!("{:?}", q.set().map(|s| s.map(|s| (s.iter().take(50).collect::<Vec<_>>(), s.index_above(77u32), s.codepoint_at(3))))));
                    all.push(format!("{:?}", call(|| unicode_intervals::as_general_categories(["N", "Lu", "Q"], VERS[q.v]))));
                    all.push(format!("{:?}", call(|| (VERS[q.v].normalized_categories(), "Nd".parse::<UnicodeCategory>(), "9.0.0".parse::<unicode_intervals::UnicodeVersion>()))));
                    all.push(format!("{:?}", call(|| to_set(q.exc.unwrap_or(7)).to_string())));
                }
                all.join("\n")
            }
        };
        let want = work();
        let r = call(|| {
            let (tx, rx) = std::sync::mpsc::channel();
            let t = std::thread::spawn(move || {
                // destructors run last to first: once before and once after the library was used
                let w = work.clone();
                let t2 = tx.clone();
                if early {
                    LAST_WORDS.with(|l| l.borrow_mut().0 = Some(Box::new(move || drop(t2.send(w())))));
                }
                drop(tx.send(work()));
                if late {
                    LATER_WORDS.with(|l| l.borrow_mut().0 = Some(Box::new(move || drop(tx.send(work())))));
                }
            });
            let done = t.join().is_ok();
            (done, rx.iter().collect::<Vec<String>>())
        });
        let n = 1 + usize::from(early) + usize::from(late);
        let r = match r {
            Ok((true, got)) if got.len() == n && got.iter().all(|g| *g == want) => ok("1".into()),
            other => panicked(&format!("{other:?}").chars().take(2000).collect::<String>()),
        };
        b.put(format!("{{\"op\":\"alive\",\"what\":{},\"r\":{r}}}", esc(&format!("while a thread ends, {}", qs[0].json()))), 30);
        vec![b]
    });
    if brief {
        return jobs;
    }
    // extreme arguments of queries
    spread(&mut jobs, EXTREME.len() * 2 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 80_000 + i as u64);
        let mut b = Block::new();
        let x = EXTREME[i % EXTREME.len()];
        for &y in EXTREME {
            for sel in [(None, None), (Some(0), None), (None, Some(ALL)), (Some(ALL), None), (Some(1 << 28), None), (p.opt_mask(&mut r), p.opt_mask(&mut r))] {
                let v = r.below(11);
                let big = "\u{10FFFF}\u{10FFFE}\u{0}\u{D7FF}\u{E000}\u{FF}\u{100}";
                let ich = match r.below(4) {
                    0 => None,
                    1 => Some(big.to_string()),
                    2 => Some("\u{10FFFF}".repeat(1 + r.below(300))),
                    _ => Some(p.string(&mut r, v, false)),
                };
                let xch = match r.below(4) {
                    0 => None,
                    1 => Some(big.chars().rev().collect()),
                    2 => Some("\u{10FFFF}\u{0}".repeat(1 + r.below(3))),
                    _ => {
                        let small = r.chance(1, 2);
                        Some(p.string(&mut r, v, small))
                    }
                };
                let q = Q::new(v).cats(sel.0, sel.1).range(x, y).chars(ich, xch);
                b.put(alive(format!("query {}", q.json()), &|| reply(&q.ask(), |_| "1".into())), 30);
            }
        }
        vec![b]
    });
    // every character alone and next to another, below the end of every kind of range
    spread(&mut jobs, 48, move |i| {
        let mut b = Block::new();
        let (max, with, inc) = ([255, 256, 254, 0x10_0000][i % 4], ["", "a", "\u{ff}", "\u{10FFFF}", "\u{100}", "\0"][i / 4 % 6], i < 24);
        let what = format!("every character with {with:?}, max {max}, included: {inc}");
        let mut worst = ok("1".into());
        let mut s = String::new();
        for c in (0..=MAX).filter_map(char::from_u32) {
            // neighbourhoods of powers of two suffice beyond the basic plane
            if c as u32 >= 0x3000 && !cfg.thorough && ((c as u32 + 40) & 0xFFF) > 80 {
                continue;
            }
            s.clear();
            s.push(c);
            s.push_str(with);
            about(|| format!("{what}: {s:?}"));
            let q = VERS[i % 11].query().include_categories(CATS[i % 30]).max_codepoint(max);
            let q = if inc { q.include_characters(&s) } else { q.exclude_characters(&s) };
            let r = call(|| q.interval_set().map(|s| s.len()));
            if !matches!(r, Ok(Ok(_))) {
                worst = reply(&r, |_| "1".into());
                break;
            }
        }
        b.put(format!("{{\"op\":\"alive\",\"what\":{},\"r\":{worst}}}", esc(&what)), 30);
        vec![b]
    });
    // long strings: the whole repertoire, backwards, and one character over and over
    jobs.push(Box::new(move || {
        let all: String = (0..=MAX).filter_map(char::from_u32).collect();
        let back: String = all.chars().rev().collect();
        let low: String = (0..256u32).cycle().take(200_000).filter_map(char::from_u32).collect();
        let lots = "\u{10FFFF}".repeat(300_000);
        // as many runs as there can be
        let (odd, even): (String, String) = (0..=MAX).filter_map(char::from_u32).partition(|c| *c as u32 % 2 == 1);
        let mut b = Block::new();
        for (name, s) in [("all", &all), ("reversed", &back), ("latin", &low), ("repeated", &lots), ("odd", &odd), ("even", &even)] {
            for (name2, t) in [("none", &String::new()), ("all", &all), ("reversed", &back), ("latin", &low), ("repeated", &lots), ("odd", &odd), ("even", &even)] {
                for (min, max) in [(0, MAX), (0, 255), (0, 0), (MAX, MAX)] {
                    for inc in [None, Some(0), Some(1 << 12)] {
                        let what = format!("include {name} exclude {name2} in {min}..{max} of {inc:?}");
                        about(|| what.clone());
                        let r = call(|| {
                            let mut q = VERS[10].query().include_characters(s).exclude_characters(t).min_codepoint(min).max_codepoint(max);
                            if let Some(m) = inc {
                                q = q.include_categories(to_set(m));
                            }
                            q.interval_set().map(|s| s.iter().count())
                        });
                        b.put(format!("{{\"op\":\"alive\",\"what\":{},\"r\":{}}}", esc(&what), reply(&r, |_| "1".into())), 20);
                    }
                }
            }
        }
        vec![b]
    }));
    // everything else with extreme arguments
    spread(&mut jobs, 40 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 90_000 + i as u64);
        let mut b = Block::new();
        let mut q = p.query(&mut r);
        match i % 8 {
            0 => q = Q::new(r.below(11)).cats(Some(0), None),
            1 => q = Q::new(r.below(11)),
            2 => q = Q::new(r.below(11)).range(MAX, MAX),
            3 => q = Q::new(r.below(11)).cats(Some(0), None).chars(Some("\u{0}".into()), None),
            4 => q = Q::new(r.below(11)).cats(Some(0), None).chars(Some("\u{0}\u{10FFFF}".into()), None),
            _ => {}
        }
        let Ok(Ok(set)) = q.set() else {
            b.put(alive(format!("set {}", q.json()), &|| reply(&q.set(), |_| "1".into())), 20);
            return vec![b];
        };
        let j = q.json();
        let len = set.len();
        let mut args: Vec<u32> = EXTREME.to_vec();
        args.extend([len as u32, (len as u32).wrapping_sub(1), len as u32 + 1]);
        for _ in 0..20 {
            args.push(r.next() as u32);
            args.push(p.point(&mut r, q.v));
        }
        for x in args {
            let done = |u: Result<(), String>| plain(&u, |()| "1".into());
            b.put(
                alive(format!("lookups {x} in {j}"), &|| {
                    done(call(|| {
                        let _ = (set.codepoint_at(x), set.index_of(x), set.index_above(x), set.contains(x));
                    }))
                }),
                20,
            );
            b.put(
                alive(format!("iterate, nth {x} in {j}"), &|| {
                    done(call(|| {
                        let mut it = set.iter();
                        let _ = (it.nth(x as usize), it.nth_back(x as usize), it.size_hint(), it.next(), it.next_back());
                        let mut it = set.iter();
                        let _ = it.nth(usize::MAX);
                        let _ = (it.next(), it.next_back(), it.nth_back(usize::MAX), it.size_hint());
                        let _ = set.iter().skip(x as usize).next();
                        let _ = set.iter().step_by(x.max(1) as usize).next();
                    }))
                }),
                20,
            );
        }
        b.put(
            alive(format!("exhaust {j}"), &|| {
                plain(
                    &call(|| {
                        let mut it = set.iter();
                        while it.next_back().is_some() {}
                        for _ in 0..5 {
                            let _ = (it.next(), it.next_back(), it.size_hint());
                        }
                        let _ = (it.clone().count(), it.clone().last(), it.clone().max(), it.rev().next());
                        let _ = format!("{set:?}").len() + format!("{:?}", set.iter()).len();
                        let _ = set.clone().len();
                    }),
                    |()| "1".into(),
                )
            }),
            20,
        );
        vec![b]
    });
    jobs.push(Box::new(move || {
        let mut b = Block::new();
        let done = |u: Result<(), String>| plain(&u, |()| "1".into());
        // category sets: empty, full, everything removed twice, exhausted iterators
        for m in [0, 1, 1 << 29, ALL, ALL >> 1, 0x1555_5555] {
            b.put(
                alive(format!("category set {m:#x}"), &|| {
                    done(call(|| {
                        let mut s = to_set(m);
                        let _ = (s.len(), s.is_empty(), s.to_string(), format!("{s:?}"), s.into_value());
                        let mut it = s.iter();
                        for _ in 0..40 {
                            let _ = (it.next(), it.len(), it.size_hint());
                        }
                        let _ = (s.iter().nth(usize::MAX), s.iter().last(), s.iter().count(), s.iter().step_by(7).count());
                        let _ = s.iter().peekable().len() + s.iter().enumerate().len() + s.iter().skip(3).len() + s.iter().take(50).len();
                        for c in CATS {
                            s.remove(c);
                            s.remove(c);
                            s.add(c);
                            s.add(c);
                            s |= c;
                            s |= UnicodeCategorySet::all();
                            s |= s;
                            let _ = (s | c, c | s, c | c, s | s, s == UnicodeCategorySet::all());
                        }
                    }))
                }),
                20,
            );
        }
        // names
        let long = "Lu".repeat(500_000);
        for s in ["", " ", "L", "Lu", "lu", "\u{0}", "Lu\u{0}", "9.0.0", "9.0", "\u{10FFFF}", "Lu ", "ＬＵ", long.as_str()] {
            let name: String = s.chars().take(20).collect();
            b.put(
                alive(format!("parse {name:?} ({} bytes)", s.len()), &|| {
                    done(call(|| {
                        let a = s.parse::<UnicodeCategory>();
                        let z = s.parse::<unicode_intervals::UnicodeVersion>();
                        let _ = (a.as_ref().err().map(ToString::to_string), z.as_ref().err().map(ToString::to_string));
                        let _ = (format!("{a:?}").len(), format!("{z:?}").len());
                        for v in VERS {
                            let e = unicode_intervals::as_general_categories([s], v);
                            let _ = e.as_ref().err().map(ToString::to_string);
                            let _ = unicode_intervals::as_general_categories(Vec::<String>::new(), v);
                            let _ = unicode_intervals::as_general_categories(vec![s; 50], v);
                        }
                    }))
                }),
                20,
            );
        }
        for v in VERS {
            b.put(
                alive(format!("version {v:?}"), &|| {
                    done(call(|| {
                        let _ = (v.to_string(), v.as_str(), v.table().len(), v.normalized_categories());
                        for c in CATS {
                            let _ = (v.intervals_for(c).len(), c.to_string(), c.as_str());
                        }
                        let _ = format!("{:?} {:?}", v.query(), unicode_intervals::query());
                    }))
                }),
                20,
            );
        }
        vec![b]
    }));
    jobs
}
