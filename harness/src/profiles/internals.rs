//! Operations on interval lists (feature `__benchmark_internals` of the library).
use super::{spread, Scenario};
use crate::model::*;
use crate::util::*;
use unicode_intervals::internals::{categories, intervals, query};
use unicode_intervals::{Interval, UnicodeCategorySet};

fn merge_line(list: &[Interval]) -> String {
    about(|| format!("merge {list:?}"));
    let r = call(|| {
        let mut l = list.to_vec();
        intervals::merge(&mut l);
        l
    });
    format!("{{\"op\":\"merge\",\"a\":{},\"r\":{}}}", ivs(list), plain(&r, |v| ivs(v)))
}
fn subtract_line(a: &[Interval], b: &[Interval]) -> String {
    about(|| format!("subtract {a:?} {b:?}"));
    let r = call(|| intervals::subtract(a.to_vec(), b));
    format!("{{\"op\":\"subtract\",\"a\":{},\"b\":{},\"r\":{}}}", ivs(a), ivs(b), plain(&r, |v| ivs(v)))
}
fn string_line(s: &str) -> String {
    about(|| format!("from_str {s:?}"));
    let r = call(|| intervals::from_str(s));
    format!("{{\"op\":\"fromstr\",\"s\":{},\"r\":{}}}", cps(s), plain(&r, |v| ivs(v)))
}
fn query_line(q: &Q) -> String {
    let j = q.json();
    about(|| format!("raw query {j}"));
    let r = call(|| {
        query::query(
            VERS[q.v],
            q.inc.map(to_set),
            to_set(q.exc.unwrap_or(0)),
            q.ich.as_deref().unwrap_or(""),
            q.xch.as_deref().unwrap_or(""),
            q.min,
            q.max,
        )
    });
    format!("{{\"op\":\"ask\",\"q\":{j},\"via\":\"internals\",\"r\":{}}}", plain(&r, |v| ivs(v)))
}
fn select_line(inc: Option<u32>, exc: u32) -> String {
    about(|| format!("merge categories {inc:?} {exc:?}"));
    let r = call(|| {
        let s: UnicodeCategorySet = categories::merge(inc.map(to_set), to_set(exc));
        let back: Vec<i64> = s.iter().map(|c| cat_no(c) as i64).collect();
        (back, s.into_value())
    });
    format!(
        "{{\"op\":\"select\",\"inc\":{},\"exc\":{},\"r\":{}}}",
        opt_mask(inc),
        mask_list(exc),
        plain(&r, |(l, v)| format!("[{},{}]", ints(l), n(*v)))
    )
}

/// Where the small lists of the models are put.
const PLACES: [u32; 5] = [0, 61, 252, 0xD7FD, MAX - 8];

fn shift(l: &[Interval], by: u32, wide: u32) -> Vec<Interval> {
    // every point becomes `wide` points
    l.iter().map(|&(a, b)| (by + a * wide, by + b * wide + wide - 1)).collect()
}

/// A canonical list of about k intervals.
fn canonical(r: &mut Rng, k: usize) -> Vec<Interval> {
    let mut out = vec![];
    let mut at = if r.chance(1, 2) { 0 } else { r.below(1000) as u32 };
    let gap = *r.pick(&[1usize, 2, 3, 50, 900]);
    let size = *r.pick(&[1usize, 2, 3, 40, 600]);
    for _ in 0..k {
        let hi = at + r.below(size) as u32;
        if hi > MAX {
            break;
        }
        out.push((at, hi));
        at = hi + 2 + r.below(gap) as u32;
    }
    if r.chance(1, 4) {
        if let Some(l) = out.last_mut() {
            l.1 = MAX;
        }
    }
    out
}

/// A list that resembles another one.
fn near(r: &mut Rng, l: &[Interval]) -> Vec<Interval> {
    let mut pts: Vec<Interval> = vec![];
    for &(a, b) in l {
        let d = |r: &mut Rng, x: u32| (i64::from(x) + r.below(5) as i64 - 2).clamp(0, i64::from(MAX)) as u32;
        match r.below(6) {
            0 => {}
            1 => pts.push((a, b)),
            2 => pts.push((b.saturating_add(1).min(MAX), d(r, b))),
            _ => pts.push((d(r, a), d(r, b))),
        }
    }
    pts.retain(|x| x.0 <= x.1);
    pts.sort_unstable();
    let mut out: Vec<Interval> = vec![];
    for x in pts {
        match out.last() {
            Some(l) if x.0 <= l.1 + 1 => {}
            _ => out.push(x),
        }
    }
    out
}

fn any(r: &mut Rng, p: &Pools, k: usize) -> Vec<Interval> {
    let v = r.below(11);
    let mut out: Vec<Interval> = vec![];
    let kind = r.below(5);
    while out.len() < k {
        let i = match kind {
            0 => {
                let (a, b) = (r.below(64) as u32, r.below(64) as u32);
                (a.min(b), a.max(b))
            }
            1 => p.range(r, v),
            2 => {
                let a = r.below(4 * k) as u32;
                (a, a + r.below(3) as u32)
            }
            3 => {
                let a = p.point(r, v);
                (a, a)
            }
            _ => {
                let a = p.point(r, v);
                (a, (a + r.below(20) as u32).min(MAX))
            }
        };
        out.push(i);
        match r.below(8) {
            0 => out.push(i),
            1 if i.1 < MAX => out.push((i.1 + 1, i.1 + 1)),
            2 if i.0 < i.1 => out.push((i.0 + 1, i.1)),
            3 if i.0 > 0 => out.push((i.0 - 1, i.0 - 1)),
            4 => {
                let k = r.below(out.len());
                out.push(out[k]);
            }
            _ => {}
        }
    }
    match r.below(5) {
        0 => out.sort_unstable(),
        1 => out.sort_unstable_by(|a, b| b.cmp(a)),
        2 => out.sort_by_key(|x| x.1),
        _ => {
            for i in (1..out.len()).rev() {
                let j = r.below(i + 1);
                out.swap(i, j);
            }
        }
    }
    out
}

pub fn lists<'a>(cfg: &'a Cfg, p: &'a Pools, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    let k = if cfg.thorough { 12 } else { 1 };
    // lists and pairs of lists printed by the models
    for (i, chunk) in scen.chunks(512).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            for (j, s) in chunk.iter().enumerate() {
                let by = PLACES[(i + j) % PLACES.len()];
                let wide = if by == MAX - 8 { 1 } else { 1 + (j / 5) as u32 % 3 };
                let l: Vec<Interval> = s[1..].iter().map(|x| (x[0] as u32, x[1] as u32)).collect();
                if s[0][0] == 0 {
                    b.put(merge_line(&shift(&l, by, wide)), 40);
                } else {
                    let (x, y) = l.split_at(s[0][1] as usize);
                    b.put(subtract_line(&shift(x, by, wide), &shift(y, by, wide)), 60);
                }
            }
            vec![b]
        }));
    }
    // very long lists
    spread(&mut jobs, 4 * k, move |i| {
        let z = cfg.seed + i as u64;
        let points = |s: String| -> Vec<Interval> { s.chars().map(|c| (c as u32, c as u32)).collect() };
        let a = large(z, MANY[i % 4], 0x2_0000, 2, i);
        let b = large(z, MANY[(i + 1) % 4], [0x2_0001, 0x2_0000, 0x4_0002][i % 3], 2 + i as u32 % 2, 0);
        let mut out = Block::new();
        out.put(string_line(&a), 300_000);
        match i % 2 {
            0 => out.put(merge_line(&points(a + &b)), 300_000),
            _ => {
                let mut l = points(a);
                l.sort_unstable();
                l.dedup();
                out.put(subtract_line(&l, &points(b)), 300_000)
            }
        }
        out.put(subtract_line(&[(0, MAX)], &points(large(z, MANY[(i + 2) % 4], 0x2_0000, 2, 0))), 300_000);
        vec![out]
    });
    // many intervals in every part of the code space, in no order
    spread(&mut jobs, 3 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 239_000 + i as u64);
        let n = [1300, 2600, 5300][i % 3];
        let step = MAX / n;
        let mut l: Vec<Interval> = (0..n).map(|x| (x * step, x * step + r.below([1, 100, 3 * step as usize][i % 3]) as u32)).collect();
        l.iter_mut().for_each(|x| x.1 = x.1.min(MAX));
        for k in (1..l.len()).rev() {
            let j = r.below(k + 1);
            l.swap(k, j);
        }
        let s: String = l.iter().filter_map(|x| char::from_u32(x.0)).collect();
        let mut out = Block::new();
        out.put(merge_line(&l), 60_000);
        out.put(string_line(&s), 60_000);
        vec![out]
    });
    // one piece cut out, or two: over none, one or several intervals, ending at, inside and between them
    spread(&mut jobs, 30 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 238_000 + i as u64);
        let many = [4, 6, 9, 17, 24, 33, 70, 130, 300, 2][i % 10];
        let l: Vec<Interval> = (0..many as u32).map(|x| (20 * x + 5, 20 * x + 5 + [7, 2, 11][x as usize % 3])).collect();
        let end = |x: usize, at: usize| {
            let (a, z) = l[x];
            [a - 1, a, a + 1, z, z + 1, z + 3][at]
        };
        let mut b = Block::new();
        let reps = if many > 60 { 1 } else { 3 };
        for span in 0..7.min(many) {
            for from in 0..6 {
                for to in 0..6 {
                    if many > 60 && !r.chance(1, 3) {
                        continue;
                    }
                    for _ in 0..reps {
                        let x = r.below(many - span);
                        let (p, q) = (end(x, from), end(x + span, to));
                        if p > q {
                            continue;
                        }
                        let mut cut = vec![(p, q)];
                        if r.chance(1, 3) && x + span + 1 < many {
                            let y = x + span + 1 + r.below(many - x - span - 1);
                            let (s, t) = (end(y, r.below(6)), end(y, r.below(6)));
                            if s <= t && s > q + 1 {
                                cut.push((s, t));
                            }
                        }
                        b.put(subtract_line(&l, &cut), 60 + 8 * many as u64);
                        if r.chance(1, 4) {
                            b.put(subtract_line(&cut, &l), 60 + 8 * many as u64);
                        }
                    }
                }
            }
        }
        vec![b]
    });
    spread(&mut jobs, 300 * k, move |i| {
        let mut r = Rng::new(cfg.seed, 240_000 + i as u64);
        let mut b = Block::new();
        for _ in 0..20 {
            let many = *r.pick(&[1, 2, 3, 4, 6, 10, 16, 17, 33, 100, 700]);
            let l = any(&mut r, p, many);
            b.put(merge_line(&l), 50 + 8 * l.len() as u64);
            let x = canonical(&mut r, many);
            let y = if r.chance(1, 2) { near(&mut r, &x) } else { canonical(&mut r, many / 2 + 1) };
            let cost = 50 + 8 * (x.len() + y.len()) as u64;
            b.put(subtract_line(&x, &y), cost);
            b.put(subtract_line(&y, &x), cost);
            let v = r.below(11);
            let s = p.string(&mut r, v, false);
            b.put(string_line(&s), 40 + 8 * s.len() as u64);
            let q = p.query(&mut r);
            b.put(query_line(&q), q.cost());
            let (inc, exc) = p.masks(&mut r);
            b.put(select_line(inc, exc.unwrap_or(0)), 60);
        }
        // real lists
        let v = r.below(11);
        let two = [VERS[v].intervals_for(CATS[r.below(30)]), VERS[r.below(11)].intervals_for(CATS[r.below(30)])];
        let mut joined = two.concat();
        if r.chance(1, 2) {
            joined.reverse();
        }
        b.put(merge_line(&joined), 8 * joined.len() as u64);
        b.put(subtract_line(two[0], two[1]), 8 * joined.len() as u64);
        // the lists of a category set, joined: in any order, but the right points
        let m = p.mask(&mut r);
        about(|| format!("intervals_for_set {m:#x}"));
        let got = call(|| query::intervals_for_set(VERS[v], to_set(m)).into_owned());
        b.put(
            format!("{{\"op\":\"forset\",\"v\":{},\"cats\":{},\"r\":{}}}", v + 1, mask_list(m), plain(&got, |v| ivs(v))),
            4000,
        );
        vec![b]
    });
    jobs
}
