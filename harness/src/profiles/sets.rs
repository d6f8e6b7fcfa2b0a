//! Interval sets and the iterators over them.
use super::queries::EXTREME;
use super::{one, spread, Scenario};
use crate::model::*;
use crate::sweeps::lookups;
use crate::util::*;
use std::collections::HashMap;
use unicode_intervals::{Codepoints, Interval, IntervalSet};

/// The set of a query in slot 1, together with the intervals of the same query.
pub fn open(q: &Q, b: &mut Block) -> Option<(IntervalSet, Vec<Interval>)> {
    open_as(1, q, b)
}
fn open_as(t: usize, q: &Q, b: &mut Block) -> Option<(IntervalSet, Vec<Interval>)> {
    let j = q.json();
    about(|| format!("set {j}"));
    let (set, iv) = match (q.set(), q.ask()) {
        (Ok(Ok(s)), Ok(Ok(v))) => (s, v),
        (s, v) => {
            let s = reply(&s, |_| "1".into());
            let v = reply(&v, |_| "1".into());
            b.put(format!("{{\"op\":\"verdict\",\"q\":{j},\"r\":{v},\"s\":{s}}}"), 100);
            return None;
        }
    };
    b.put(format!("{{\"op\":\"sbase\",\"t\":{t},\"q\":{j},\"b\":{}}}", ivs(&iv)), 100 + iv.len() as u64 * 4);
    Some((set, iv))
}

pub fn len_line(set: &IntervalSet) -> String {
    let r = call(|| (set.len(), set.is_empty()));
    format!("{{\"op\":\"slen\",\"h\":1,\"r\":{}}}", plain(&r, |(n, e)| format!("[{},{}]", nz(*n), u8::from(*e))))
}

/// Queries whose sets are looked at: every category of every version, extremes, mixtures.
fn subjects(cfg: &Cfg, p: &Pools, salt: u64, extra: usize) -> Vec<Q> {
    let mut r = Rng::new(cfg.seed, salt);
    let mut qs = vec![];
    for v in 0..11 {
        for c in 0..30 {
            qs.push(Q::new(v).cats(Some(1 << c), None));
        }
    }
    for s in ["", "\u{0}", "\u{10FFFF}", "\u{0}\u{10FFFF}", "\u{0}\u{1}\u{3}", "\u{D7FF}\u{E000}", "aceg", "\u{10FFFE}\u{10FFFF}", "\u{fe}\u{ff}\u{100}\u{101}"] {
        qs.push(Q::new(r.below(11)).cats(Some(0), None).chars(Some(s.into()), None));
        qs.push(Q::new(r.below(11)).chars(None, Some(s.into())));
    }
    qs.push(Q::new(10));
    qs.push(Q::new(10).range(0, 0));
    qs.push(Q::new(10).range(MAX, MAX));
    qs.push(Q::new(10).range(1, MAX - 1));
    for _ in 0..extra {
        qs.push(p.query(&mut r));
    }
    // unions of categories of few intervals, over the whole range
    let v = r.below(11);
    let small: Vec<u32> = (0..30).filter(|c| VERS[v].table()[*c as usize].len() <= 14).collect();
    for (i, a) in small.iter().enumerate() {
        for b in &small[i + 1..] {
            let m = 1 << a | 1 << b;
            qs.push(if (a + b) % 4 == 3 { Q::new(v).cats(None, Some(ALL & !m)) } else { Q::new(v).cats(Some(m), None) });
        }
    }
    for _ in 0..extra / 4 {
        let m = (0..2 + r.below(4)).fold(0, |m, _| m | 1 << r.pick(&small));
        qs.push(Q::new(v).cats(Some(m), None));
    }
    qs
}

/// Sets of very many intervals.
fn vast(seed: u64, i: usize) -> Q {
    let s = large(seed + i as u64, MANY[(i + 2) % 4], [0x2_0000, 0x1_0000][i % 2], 2, i);
    let q = Q::new(i % 11);
    if i % 2 == 0 { q.cats(Some(0), None).chars(Some(s), None) } else { q.chars(None, Some(s)) }
}

/// Several sets alive at once, asked the same things in turns, and replaced by others in the same place.
fn turns(cfg: &Cfg, p: &Pools, salt: u64, which: &[&str], b: &mut Block) {
    let mut r = Rng::new(cfg.seed, salt);
    let mut sets: Vec<Option<(IntervalSet, Vec<Interval>)>> = vec![None, None, None];
    let mut last = p.query(&mut r);
    let mut x = 0u32;
    for step in 0..160 {
        let h = r.below(3);
        if sets[h].is_none() || r.chance(1, 10) {
            // a neighbour of the set opened before, or one of as many intervals
            last = match r.below(4) {
                0 => p.query(&mut r),
                1 => {
                    let k = 1 + r.below(4);
                    let s: String = (0..k).filter_map(|_| char::from_u32(3 * r.below(200) as u32)).collect();
                    Q::new(r.below(11)).cats(Some(0), None).chars(Some(s), None)
                }
                _ => p.neighbour(&mut r, &last),
            };
            let fresh = open_as(h + 1, &last, b);
            match (&mut sets[h], fresh) {
                (Some((old, iv)), Some((s, v))) if r.chance(1, 2) => {
                    old.clone_from(&s);
                    *iv = v;
                }
                (place, fresh) => *place = fresh,
            }
            if sets[h].is_none() {
                continue;
            }
        }
        let Some((set, iv)) = &sets[h] else { continue };
        // often the argument of the step before
        if r.chance(1, 2) || step == 0 {
            let t = if iv.is_empty() { (0, 0) } else { *r.pick(iv) };
            x = match r.below(6) {
                0 => t.0,
                1 => t.1,
                2 => t.0.wrapping_sub(1),
                3 => t.1 + 1,
                4 => r.below(set.len() + 2) as u32,
                _ => p.point(&mut r, last.v),
            };
        }
        let op = *r.pick(which);
        about(|| format!("{op} {x}, several sets"));
        let h = h + 1;
        let l = match op {
            "at" => plain(&call(|| set.codepoint_at(x)), |o| opt(*o)),
            "pos" => plain(&call(|| set.index_of(x)), |o| opt(*o)),
            "has" => plain(&call(|| set.contains(x)), |o| format!("[{}]", u8::from(*o))),
            "above" => plain(&call(|| set.index_above(x)), |o| format!("[{}]", n(*o))),
            _ => {
                b.put(len_line(set).replacen("\"h\":1", &format!("\"h\":{h}"), 1), 10);
                continue;
            }
        };
        b.put(format!("{{\"op\":\"{op}\",\"h\":{h},\"x\":{},\"r\":{l}}}", n(x)), 30);
    }
}

// ---------------------------------------------------------------- C08

pub fn positions<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    spread(&mut jobs, if cfg.thorough { 800 } else { 80 }, move |i| {
        let mut b = Block::new();
        turns(cfg, p, 101_000 + i as u64, &["at", "pos", "has", "len", "at", "pos"], &mut b);
        vec![b]
    });
    let mut qs = subjects(cfg, p, 8, if cfg.thorough { 4000 } else { 330 });
    qs.splice(0..0, (0..if cfg.thorough { 8 } else { 2 }).map(|i| vast(cfg.seed, i)));
    // round numbers of intervals, and one less and more
    for p in 3..11 {
        for n in [(1 << p) - 1, 1 << p, (1 << p) + 1] {
            let z = cfg.seed + n as u64;
            let from = [0x2000, 0x1_0000, 0, 0xFFF0][(z % 4) as usize];
            qs.push(if z % 3 == 0 {
                Q::new(n % 11).range(from, from + 2 * n as u32).chars(None, Some(large(z, n - 1, from + 2, 2, 0)))
            } else {
                let mut s = large(z, n, from, 3, 0);
                if z % 3 == 1 {
                    s += &large(z, n / 2, from + 1, 6, 0);
                }
                Q::new(n % 11).cats(Some(0), None).chars(Some(s), None)
            });
        }
    }
    for (i, q) in qs.into_iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut r = Rng::new(cfg.seed, 100_000 + i as u64);
            let mut b = Block::new();
            let Some((set, iv)) = open(&q, &mut b) else { return vec![b] };
            b.put(len_line(&set), 10);
            let top = MAX + 300;
            let segs = 2 * iv.len() as u64 + 3;
            let at = |s: &IntervalSet, x| s.codepoint_at(x);
            let len = set.len() as u32;
            b.put(lookups("atseg", 1, 0, len.min(MAX + 1) + 300, &set, false, at), 12 * segs);
            b.put(lookups("posseg", 1, 0, top, &set, false, |s, x| s.index_of(x)), 12 * segs);
            b.put(lookups("hasseg", 1, 0, top, &set, true, |s, x| s.contains(x).then_some(1)), 8 * segs);
            // other argument types
            match i % 6 {
                0 => {
                    b.put(lookups("posseg", 1, 0, 255, &set, false, |s, x| s.index_of(x as u8)), 100);
                    b.put(lookups("hasseg", 1, 0, 255, &set, true, |s, x| s.contains(x as u8).then_some(1)), 100);
                }
                1 => {
                    b.put(lookups("posseg", 1, 0, 65535, &set, false, |s, x| s.index_of(x as u16)), 12 * segs);
                    b.put(lookups("hasseg", 1, 0, 65535, &set, true, |s, x| s.contains(x as u16).then_some(1)), 8 * segs);
                }
                2 => {
                    for (a, z) in [(0, 0xD7FF), (0xE000, MAX)] {
                        let c = |x: u32| char::from_u32(x).unwrap_or('\0');
                        b.put(lookups("posseg", 1, a, z, &set, false, |s, x| s.index_of(c(x))), 12 * segs);
                        b.put(lookups("hasseg", 1, a, z, &set, true, |s, x| s.contains(c(x)).then_some(1)), 8 * segs);
                    }
                }
                _ => {}
            }
            // single lookups anywhere in the 32-bit range
            let mut xs: Vec<u32> = EXTREME.to_vec();
            xs.extend([len, len.wrapping_sub(1), len + 1, u32::MAX - len, (u32::MAX - len).wrapping_add(1)]);
            for _ in 0..10 {
                xs.push(r.next() as u32);
                let t = if iv.is_empty() { (0, 0) } else { *r.pick(&iv) };
                // aliases of members in wrapped arithmetic
                xs.extend([t.0 | 0x8000_0000, t.1.wrapping_add(1 << 24), t.0.wrapping_sub(len), t.1 + 0x11_0000]);
            }
            for x in xs {
                b.put(format!("{{\"op\":\"at\",\"h\":1,\"x\":{},\"r\":{}}}", n(x), plain(&call(|| set.codepoint_at(x)), |o| opt(*o))), 30);
                b.put(format!("{{\"op\":\"pos\",\"h\":1,\"x\":{},\"r\":{}}}", n(x), plain(&call(|| set.index_of(x)), |o| opt(*o))), 30);
                b.put(
                    format!("{{\"op\":\"has\",\"h\":1,\"x\":{},\"r\":{}}}", n(x), plain(&call(|| set.contains(x)), |o| format!("[{}]", u8::from(*o)))),
                    30,
                );
            }
            // a copy is the same set
            if i % 5 == 2 {
                let copy = set.clone();
                b.put(len_line(&copy), 10);
                b.put(lookups("atseg", 1, 0, len.min(MAX + 1) + 300, &copy, false, at), 12 * segs);
                b.put(lookups("posseg", 1, 0, top, &copy, false, |s, x| s.index_of(x)), 12 * segs);
            }
            vec![b]
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C09

pub fn above<'a>(cfg: &'a Cfg, p: &'a Pools) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    spread(&mut jobs, if cfg.thorough { 800 } else { 80 }, move |i| {
        let mut b = Block::new();
        turns(cfg, p, 111_000 + i as u64, &["above", "above", "above", "at", "pos"], &mut b);
        vec![b]
    });
    let mut qs = subjects(cfg, p, 9, if cfg.thorough { 8000 } else { 700 });
    qs.splice(0..0, (0..if cfg.thorough { 8 } else { 2 }).map(|i| vast(cfg.seed, i)));
    for (i, q) in qs.into_iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut r = Rng::new(cfg.seed, 110_000 + i as u64);
            let mut b = Block::new();
            let Some((set, iv)) = open(&q, &mut b) else { return vec![b] };
            let segs = 2 * iv.len() as u64 + 3;
            b.put(lookups("aboveseg", 1, 0, MAX + 300, &set, false, |s, x| Some(s.index_above(x))), 12 * segs);
            match i % 6 {
                0 => b.put(lookups("aboveseg", 1, 0, 255, &set, false, |s, x| Some(s.index_above(x as u8))), 100),
                1 => b.put(lookups("aboveseg", 1, 0, 65535, &set, false, |s, x| Some(s.index_above(x as u16))), 12 * segs),
                2 => {
                    for (a, z) in [(0, 0xD7FF), (0xE000, MAX)] {
                        let c = |x: u32| char::from_u32(x).unwrap_or('\0');
                        b.put(lookups("aboveseg", 1, a, z, &set, false, |s, x| Some(s.index_above(c(x)))), 12 * segs);
                    }
                }
                _ => {}
            }
            let mut xs: Vec<u32> = EXTREME.to_vec();
            for _ in 0..15 {
                xs.push(r.next() as u32);
                let t = if iv.is_empty() { (0, 0) } else { *r.pick(&iv) };
                xs.extend([t.0 | 0x8000_0000, t.1.wrapping_add(1 << 24), t.1 + 0x11_0000]);
            }
            for x in xs {
                b.put(
                    format!("{{\"op\":\"above\",\"h\":1,\"x\":{},\"r\":{}}}", n(x), plain(&call(|| set.index_above(x)), |o| format!("[{}]", n(*o)))),
                    30,
                );
            }
            vec![b]
        }));
    }
    jobs
}

// ---------------------------------------------------------------- C10

/// More than any set has members: a runaway iterator is cut off here.
const LIMIT: usize = 1_200_000;

/// Ascending members as intervals.
fn up(acc: &mut Vec<Interval>, x: u32) {
    match acc.last_mut() {
        Some(l) if l.1.checked_add(1) == Some(x) => l.1 = x,
        _ => acc.push((x, x)),
    }
}
/// Descending members as intervals, in the order met.
fn down(acc: &mut Vec<Interval>, x: u32) {
    match acc.last_mut() {
        Some(l) if l.0.checked_sub(1) == Some(x) => l.0 = x,
        _ => acc.push((x, x)),
    }
}

fn front(it: &mut Codepoints, k: usize, style: usize) -> Vec<Interval> {
    let mut acc = vec![];
    let mut left = k;
    match style % 10 {
        _ if k == 0 => {}
        5 => {
            let _ = it.position(|x| {
                up(&mut acc, x);
                left -= 1;
                left == 0
            });
        }
        6 => {
            let _ = it.any(|x| {
                up(&mut acc, x);
                left -= 1;
                left == 0
            });
        }
        7 => {
            let _ = it.all(|x| {
                up(&mut acc, x);
                left -= 1;
                left != 0
            });
        }
        8 => {
            let _ = it.find_map(|x| {
                up(&mut acc, x);
                left -= 1;
                (left == 0).then_some(())
            });
        }
        9 => {
            let _ = it.try_fold((), |(), x| {
                up(&mut acc, x);
                left -= 1;
                (left != 0).then_some(())
            });
        }
        0 => {
            for _ in 0..k.min(LIMIT) {
                match it.next() {
                    Some(x) => up(&mut acc, x),
                    None => break,
                }
            }
        }
        1 => it.by_ref().take(k.min(LIMIT)).for_each(|x| up(&mut acc, x)),
        2 => {
            // asks again after the end
            for _ in 0..k.min(LIMIT) {
                if let Some(x) = it.next() {
                    up(&mut acc, x);
                }
            }
        }
        3 => {
            let mut left = k;
            if left > 0 {
                let _: Result<(), ()> = it.try_for_each(|x| {
                    up(&mut acc, x);
                    left -= 1;
                    if left == 0 {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
            }
        }
        _ => {
            let mut left = k;
            if left > 0 {
                let _ = it.find(|&x| {
                    up(&mut acc, x);
                    left -= 1;
                    left == 0
                });
            }
        }
    }
    acc
}
fn back(it: &mut Codepoints, k: usize, style: usize) -> Vec<Interval> {
    let mut acc = vec![];
    let mut left = k;
    match style % 8 {
        _ if k == 0 => {}
        5 => {
            let _ = it.by_ref().rev().position(|x| {
                down(&mut acc, x);
                left -= 1;
                left == 0
            });
        }
        6 => {
            let _ = it.by_ref().rev().all(|x| {
                down(&mut acc, x);
                left -= 1;
                left != 0
            });
        }
        7 => {
            let _ = it.by_ref().rev().find(|&x| {
                down(&mut acc, x);
                left -= 1;
                left == 0
            });
        }
        0 => {
            for _ in 0..k.min(LIMIT) {
                match it.next_back() {
                    Some(x) => down(&mut acc, x),
                    None => break,
                }
            }
        }
        1 => it.by_ref().rev().take(k.min(LIMIT)).for_each(|x| down(&mut acc, x)),
        2 => {
            let mut left = k;
            if left > 0 {
                let _: Result<(), ()> = it.try_rfold((), |(), x| {
                    down(&mut acc, x);
                    left -= 1;
                    if left == 0 {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
            }
        }
        3 => {
            let mut left = k;
            if left > 0 {
                let _ = it.rfind(|&x| {
                    down(&mut acc, x);
                    left -= 1;
                    left == 0
                });
            }
        }
        _ => {
            let mut rev = it.by_ref().rev();
            for _ in 0..k.min(LIMIT) {
                match rev.next() {
                    Some(x) => down(&mut acc, x),
                    None => break,
                }
            }
        }
    }
    acc
}
fn rest(it: Codepoints, rev: bool, style: usize) -> Vec<Interval> {
    let mut acc = vec![];
    if rev {
        let mut it = it;
        match style % 8 {
            5 => {
                let _ = it.rfind(|&x| {
                    down(&mut acc, x);
                    false
                });
            }
            6 => {
                let _ = it.rev().any(|x| {
                    down(&mut acc, x);
                    false
                });
            }
            7 => {
                let end = it.rev().reduce(|x, y| {
                    down(&mut acc, x);
                    y
                });
                if let Some(x) = end {
                    down(&mut acc, x);
                }
            }
            0 => it.rev().take(LIMIT).for_each(|x| down(&mut acc, x)),
            1 => it.rfold((), |(), x| down(&mut acc, x)),
            2 => it.rev().collect::<Vec<_>>().into_iter().for_each(|x| down(&mut acc, x)),
            3 => it.rev().for_each(|x| down(&mut acc, x)),
            _ => {
                while let Some(x) = it.next_back() {
                    down(&mut acc, x);
                }
            }
        }
    } else {
        let mut it = it;
        match style % 17 {
            8 => {
                let _ = it.position(|x| {
                    up(&mut acc, x);
                    false
                });
            }
            9 => {
                let _ = it.any(|x| {
                    up(&mut acc, x);
                    false
                });
            }
            10 => {
                let _ = it.all(|x| {
                    up(&mut acc, x);
                    true
                });
            }
            11 => {
                let _ = it.find(|&x| {
                    up(&mut acc, x);
                    false
                });
            }
            12 => {
                let _ = it.find_map(|x| {
                    up(&mut acc, x);
                    None::<()>
                });
            }
            13 => {
                let end = it.reduce(|x, y| {
                    up(&mut acc, x);
                    y
                });
                if let Some(x) = end {
                    up(&mut acc, x);
                }
            }
            14 => {
                let _ = it.max_by_key(|&x| {
                    up(&mut acc, x);
                    0
                });
            }
            15 => {
                let _ = it.min_by_key(|&x| {
                    up(&mut acc, x);
                    0
                });
            }
            16 => {
                let (v, w): (Vec<u32>, Vec<u32>) = it.partition(|x| *x < 0x1_0000);
                v.into_iter().chain(w).for_each(|x| up(&mut acc, x));
            }
            0 => it.take(LIMIT).for_each(|x| up(&mut acc, x)),
            1 => it.fold((), |(), x| up(&mut acc, x)),
            2 => it.collect::<Vec<_>>().into_iter().for_each(|x| up(&mut acc, x)),
            3 => it.for_each(|x| up(&mut acc, x)),
            4 => {
                for x in it {
                    up(&mut acc, x);
                }
            }
            5 => {
                let mut v: Vec<u32> = Vec::new();
                v.extend(it);
                v.into_iter().for_each(|x| up(&mut acc, x));
            }
            6 => it.rev().rev().for_each(|x| up(&mut acc, x)),
            _ => {
                let mut it = it.peekable();
                while it.peek().is_some() {
                    if let Some(x) = it.next() {
                        up(&mut acc, x);
                    }
                }
            }
        }
    }
    acc
}

/// Steps: [0,t] open; [1,h,n] front; [2,h,n] back; [3,h,n] nth; [4,h,n] nth_back; [5,h,t] copy; [6,h] hint;
/// [7,h,rev] rest; [8,h] count, first and last; [9,h,k] every k-th; [10,h,n] skip
pub fn play(set: &IntervalSet, steps: &[Vec<i64>], style: usize, b: &mut Block) {
    let mut its: HashMap<i64, Codepoints> = HashMap::new();
    for (i, s) in steps.iter().enumerate() {
        let h = s[1];
        let z = style + i;
        // numbers may exceed what TLC knows: they are recorded saturated
        let k = s.get(2).copied().unwrap_or(0);
        let big = if k == i64::from(i32::MAX) { [usize::MAX, 1 << 32, i32::MAX as usize, usize::MAX - 1][z % 4] } else { k as usize };
        about(|| format!("iterator step {i} of {steps:?}"));
        let mut lines: Vec<(String, u64)> = vec![];
        match s[0] {
            0 => {
                let it = call(|| if z % 2 == 0 { set.iter() } else { set.into_iter() });
                match it {
                    Ok(it) => {
                        its.insert(h, it);
                        lines.push((format!("{{\"op\":\"iopen\",\"h\":1,\"t\":{h}}}"), 20));
                    }
                    Err(m) => lines.push((format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&m)), 1)),
                }
            }
            1 | 2 => {
                let it = its.get_mut(&h).expect("slot");
                let r = call(|| if s[0] == 1 { front(it, big, z) } else { back(it, big, z) });
                let op = if s[0] == 1 { "front" } else { "back" };
                lines.push((format!("{{\"op\":\"{op}\",\"h\":{h},\"n\":{k},\"r\":{}}}", plain(&r, |v| ivs(v))), 60));
            }
            3 | 4 => {
                let it = its.get_mut(&h).expect("slot");
                let r = call(|| match (s[0], z % 3) {
                    (3, 0) => {
                        let mut it = it.by_ref().skip(big);
                        it.next()
                    }
                    (3, _) => it.nth(big),
                    (4, 0) => it.by_ref().rev().nth(big),
                    (_, _) => it.nth_back(big),
                });
                let op = if s[0] == 3 { "nth" } else { "nthb" };
                lines.push((format!("{{\"op\":\"{op}\",\"h\":{h},\"n\":{k},\"r\":{}}}", plain(&r, |x| opt(*x))), 60));
            }
            5 => {
                let t = s[2];
                let made = call(|| match its.get(&t).cloned() {
                    Some(mut old) if z % 2 == 0 => {
                        old.clone_from(&its[&h]);
                        old
                    }
                    _ => its[&h].clone(),
                });
                match made {
                    Ok(it) => {
                        its.insert(t, it);
                        lines.push((format!("{{\"op\":\"icopy\",\"h\":{h},\"t\":{t}}}"), 20));
                    }
                    Err(m) => lines.push((format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&m)), 1)),
                }
            }
            6 => {
                let it = &its[&h];
                let show = |x: &(usize, Option<usize>)| format!("[{},{}]", nz(x.0), x.1.map_or("[]".into(), |u| format!("[{}]", nz(u))));
                lines.push((format!("{{\"op\":\"hint\",\"h\":{h},\"r\":{}}}", plain(&call(|| it.size_hint()), show)), 30));
                let r = call(|| it.clone().rev().size_hint());
                lines.push((format!("{{\"op\":\"hint\",\"h\":{h},\"r\":{}}}", plain(&r, show)), 30));
            }
            7 => {
                let it = &its[&h];
                let r = call(|| rest(it.clone(), k == 1, z));
                lines.push((format!("{{\"op\":\"rest\",\"h\":{h},\"rev\":{k},\"r\":{}}}", plain(&r, |v| ivs(v))), 100));
            }
            8 => {
                let it = &its[&h];
                let r = call(|| match z % 9 {
                    0 => it.clone().rev().count(),
                    1 => {
                        let end = it.clone().next_back();
                        it.clone().position(|x| Some(x) == end).map_or(0, |k| k + 1)
                    }
                    2 => {
                        let end = it.clone().next();
                        it.clone().rev().position(|x| Some(x) == end).map_or(0, |k| k + 1)
                    }
                    3 => it.clone().enumerate().last().map_or(0, |(k, _)| k + 1),
                    4 => it.clone().map(|_| 1).sum(),
                    5 => it.clone().zip(0..).last().map_or(0, |(_, k)| k + 1),
                    6 => it.clone().filter(|_| true).count(),
                    _ => it.clone().count(),
                });
                lines.push((format!("{{\"op\":\"count\",\"h\":{h},\"r\":{}}}", plain(&r, |x| format!("[{}]", nz(*x)))), 30));
                let f = call(|| match z % 7 {
                    4 => it.clone().find(|_| true),
                    5 => it.clone().min_by(|x, y| x.cmp(y)),
                    6 => it.clone().min_by_key(|x| *x),
                    0 => it.clone().min(),
                    1 => it.clone().rev().last(),
                    2 => it.clone().peekable().peek().copied(),
                    _ => it.clone().reduce(u32::min),
                });
                lines.push((format!("{{\"op\":\"first\",\"h\":{h},\"r\":{}}}", plain(&f, |x| opt(*x))), 30));
                let f = call(|| match z % 7 {
                    4 => it.clone().rfind(|_| true),
                    5 => it.clone().max_by(|x, y| x.cmp(y)),
                    6 => it.clone().max_by_key(|x| *x),
                    0 => it.clone().max(),
                    1 => it.clone().last(),
                    2 => it.clone().next_back(),
                    _ => it.clone().rev().next(),
                });
                lines.push((format!("{{\"op\":\"last\",\"h\":{h},\"r\":{}}}", plain(&f, |x| opt(*x))), 30));
            }
            9 => {
                let it = &its[&h];
                let k = k.max(1);
                let r = call(|| it.clone().step_by(k as usize).take(20).collect::<Vec<u32>>());
                lines.push((
                    format!("{{\"op\":\"steps\",\"h\":{h},\"k\":{k},\"n\":20,\"r\":{}}}", plain(&r, |v| list(v, |x| n(*x).to_string()))),
                    200,
                ));
            }
            _ => {
                let it = &its[&h];
                let r = call(|| {
                    let mut acc = vec![];
                    it.clone().skip(big).take(LIMIT).for_each(|x| up(&mut acc, x));
                    acc
                });
                lines.push((format!("{{\"op\":\"skip\",\"h\":{h},\"n\":{k},\"r\":{}}}", plain(&r, |v| ivs(v))), 100));
            }
        }
        let stop = lines.iter().any(|(l, _)| l.contains("\"panic\""));
        for (l, c) in lines {
            b.put(l, c);
        }
        if stop {
            break;
        }
    }
}

/// Sets of the scenarios, by the members of their intervals.
const SHAPES: [&[Interval]; 8] = [
    &[],
    &[(97, 97)],
    &[(97, 99)],
    &[(97, 97), (99, 99)],
    &[(0, 1), (3, 3)],
    &[(0x10FFFD, 0x10FFFD), (0x10FFFF, 0x10FFFF)],
    &[(253, 254), (256, 257), (0xD7FF, 0xD7FF)],
    &[(65, 65), (67, 68), (70, 70)],
];

fn shape(i: usize, style: usize) -> Q {
    let iv = SHAPES[i % SHAPES.len()];
    if style % 2 == 0 || iv.is_empty() {
        let s: String = iv.iter().flat_map(|&(a, b)| a..=b).filter_map(char::from_u32).collect();
        Q::new(style % 11).cats(Some(0), None).chars(Some(s), None)
    } else {
        let (a, b) = (iv[0].0, iv[iv.len() - 1].1);
        let gaps: String = iv.windows(2).filter(|w| w[1].0 < 0xD800 || w[0].1 > 0xDFFF).flat_map(|w| w[0].1 + 1..w[1].0).filter_map(char::from_u32).collect();
        Q::new(style % 11).range(a, b).chars(None, Some(gaps))
    }
}

/// One observation of an iterator with `a` members gone from the front and `b` from the back.
type Seen = (usize, usize, usize, Option<u32>, Option<u32>, (usize, Option<usize>));

fn look(it: &Codepoints, a: usize, b: usize, k: usize, style: usize, out: &mut Vec<Seen>) {
    let hint = it.size_hint();
    let f = if style % 2 == 0 {
        it.clone().nth(k)
    } else {
        it.clone().skip(k).next()
    };
    let g = if style % 3 == 0 { it.clone().rev().nth(k) } else { it.clone().nth_back(k) };
    out.push((a, b, k, f, g, hint));
}

/// Iterators standing at (and next to) every end of every interval, and steps that lead there.
fn at_ends(set: &IntervalSet, iv: &[Interval], style: usize, far: usize) -> Result<Vec<Seen>, String> {
    let lens: Vec<usize> = iv.iter().map(|t| (t.1 - t.0) as usize + 1).collect();
    call(|| {
        let mut out = vec![];
        let (mut it, mut gone) = (set.iter(), 0);
        for (i, n) in lens.iter().enumerate() {
            for k in [n - 1, *n] {
                look(&it, gone, 0, k, style + i, &mut out);
            }
            if far > 0 && i % far == style % far {
                let m: usize = lens[i..].iter().take(2 + i % 7).sum();
                look(&it, gone, 0, m - usize::from(i % 2 == 0), style + i, &mut out);
            }
            if *n > 1 {
                it.nth(n - 2);
                look(&it, gone + n - 1, 0, (i + style) % 3, style + i, &mut out);
            }
            it.next();
            gone += n;
        }
        look(&it, gone, 0, 0, style, &mut out);
        let (mut it, mut gone) = (set.iter(), 0);
        for (i, n) in lens.iter().enumerate().rev() {
            for k in [n - 1, *n] {
                look(&it, 0, gone, k, style + i, &mut out);
            }
            if *n > 1 {
                it.nth_back(n - 2);
                look(&it, 0, gone + n - 1, (i + style) % 3, style + i, &mut out);
            }
            it.next_back();
            gone += n;
        }
        look(&it, 0, gone, 0, style, &mut out);
        // from both sides, until the two meet
        let (mut it, mut a, mut b) = (set.iter(), 0, 0);
        let (mut i, mut j) = (0, lens.len());
        while i < j {
            let (front, back) = (lens[i], lens[j - 1]);
            if i + 1 == j {
                it.nth(front / 2);
                a += front / 2 + 1;
                look(&it, a, b, 0, style, &mut out);
                break;
            }
            it.nth(front - 1);
            it.nth_back(back - 1);
            a += front;
            b += back;
            i += 1;
            j -= 1;
            look(&it, a, b, (i + style) % 2, style + i, &mut out);
        }
        out
    })
}

fn ends_lines(set: &IntervalSet, iv: &[Interval], style: usize, far: usize, b: &mut Block) {
    about(|| format!("iterators at the ends of {} intervals", iv.len()));
    match at_ends(set, iv, style, far) {
        Err(m) => b.put(format!("{{\"op\":\"panic\",\"what\":{}}}", esc(&m)), 1),
        Ok(seen) => {
            for part in seen.chunks(400) {
                let xs = list(part, |x| {
                    let hint = x.5 .1.map_or("[]".into(), |u| format!("[{}]", nz(u)));
                    format!("[{},{},{},{},{},[{},{hint}]]", x.0, x.1, x.2, opt(x.3), opt(x.4), nz(x.5 .0))
                });
                b.put(format!("{{\"op\":\"itat\",\"h\":1,\"xs\":{xs}}}"), 30 + part.len() as u64 * 8);
            }
        }
    }
}

pub fn iterators<'a>(cfg: &'a Cfg, p: &'a Pools, scen: Vec<Scenario>) -> Vec<Job<'a>> {
    let mut jobs: Vec<Job> = vec![];
    // behaviours of the specification: the first step names the set
    for (i, chunk) in scen.chunks(200).enumerate() {
        let chunk = chunk.to_vec();
        jobs.push(Box::new(move || {
            chunk
                .iter()
                .enumerate()
                .map(|(j, s)| {
                    let style = i * 200 + j;
                    let mut b = Block::new();
                    let q = shape(s[0][0] as usize, if s[0][0] == 6 { 0 } else { style });
                    if let Some((set, _)) = open(&q, &mut b) {
                        play(&set, &s[1..], style, &mut b);
                    }
                    b
                })
                .collect()
        }));
    }
    // every interval end of every category of every version, and of mixtures
    for (i, q) in subjects(cfg, p, 11, if cfg.thorough { 1500 } else { 100 }).into_iter().enumerate() {
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            if let Some((set, iv)) = open(&q, &mut b) {
                ends_lines(&set, &iv, i + cfg.seed as usize, 5, &mut b);
                // the last few members, from both ends
                let len = set.len() as i64;
                let few = 7.min(len);
                {
                    let mut steps = vec![];
                    // from one end, from the other, and from both in turns
                    for (side, mixed) in [(1, false), (2, false), (1, true), (2, true)] {
                        if mixed && !cfg.thorough && (i + cfg.seed as usize) % 3 == 2 {
                            continue;
                        }
                        steps.extend([vec![0, side], vec![side, side, len - few]]);
                        for k in 0..=few {
                            let step = if mixed && k % 3 == 1 { 3 - side } else { side };
                            steps.extend([vec![6, side], vec![8, side], vec![7, side, k % 2], vec![step, side, 1]]);
                        }
                    }
                    play(&set, &steps, i, &mut b);
                }
                b.put(len_line(&set), 10);
            }
            vec![b]
        }));
    }
    // whole iterations, every way
    let qs = subjects(cfg, p, 10, if cfg.thorough { 600 } else { 60 });
    for (i, q) in qs.into_iter().enumerate() {
        if i < 330 && (i / 30 + i % 30 + cfg.seed as usize) % 5 != 0 && !cfg.thorough {
            continue;
        }
        jobs.push(Box::new(move || {
            let mut b = Block::new();
            let Some((set, _)) = open(&q, &mut b) else { return vec![b] };
            let whole = i64::from(i32::MAX);
            let mut steps = vec![vec![0, 1], vec![6, 1], vec![8, 1]];
            for rev in 0..2 {
                for _ in 0..2 {
                    steps.push(vec![7, 1, rev]);
                }
            }
            steps.extend([vec![0, 2], vec![1 + (i as i64 % 2), 2, whole], vec![6, 2], vec![1, 2, 3], vec![2, 2, 3], vec![7, 1, 0], vec![8, 2]]);
            play(&set, &steps, i, &mut b);
            b.put(len_line(&set), 10);
            vec![b]
        }));
    }
    // a set of very many intervals
    spread(&mut jobs, if cfg.thorough { 4 } else { 1 }, move |i| {
        let mut b = Block::new();
        let Some((set, _)) = open(&vast(cfg.seed, i), &mut b) else { return vec![b] };
        let len = set.len() as i64;
        let mut steps = vec![vec![0, 1], vec![6, 1], vec![8, 1]];
        for (k, x) in [65_534, 1, 1, 1, 300].into_iter().enumerate() {
            steps.push(vec![1 + (k as i64 + i as i64) % 2, 1, x]);
            steps.push(vec![3 + k as i64 % 2, 1, x / 2]);
            steps.push(vec![6, 1]);
        }
        steps.extend([vec![5, 1, 2], vec![3, 2, 20_000], vec![4, 2, 10_000], vec![9, 2, len / 20], vec![7, 2, 1], vec![10, 1, 66_000]]);
        play(&set, &steps, i, &mut b);
        b.put(len_line(&set), 500_000);
        vec![b]
    });
    // long random interleavings
    spread(&mut jobs, if cfg.thorough { 8000 } else { 700 }, move |i| {
        let mut r = Rng::new(cfg.seed, 120_000 + i as u64);
        let mut b = Block::new();
        let q = if i % 4 == 0 {
            let ch: String = (0..1 + r.below(12)).filter_map(|_| char::from_u32(96 + r.below(20) as u32)).collect();
            Q::new(r.below(11)).cats(Some(0), None).chars(Some(ch), None)
        } else {
            p.query(&mut r)
        };
        let Some((set, iv)) = open(&q, &mut b) else { return one(String::from("{\"op\":\"iopen\",\"h\":1,\"t\":1}"), 1) };
        let mut steps: Scenario = vec![vec![0, 1], vec![0, 2]];
        let mut have = vec![1, 2];
        let len = set.len() as i64;
        for _ in 0..60 {
            let h = *r.pick(&have);
            let amount = match r.below(12) {
                0 => 0,
                1..=4 => 1 + r.below(3) as i64,
                5..=7 if !iv.is_empty() => {
                    // about the length of an interval
                    let t = *r.pick(&iv);
                    i64::from(t.1 - t.0) + r.below(3) as i64
                }
                8 => r.below(200) as i64,
                9 if len > 0 => r.below(len as usize) as i64,
                10 if r.chance(1, 6) => len + r.below(3) as i64 - 1,
                11 if r.chance(1, 12) => i64::from(i32::MAX),
                _ => 1,
            }
            .max(0);
            match r.below(14) {
                0..=2 => steps.push(vec![1, h, amount]),
                3..=5 => steps.push(vec![2, h, amount]),
                6 | 7 => steps.push(vec![3, h, amount]),
                8 | 9 => steps.push(vec![4, h, amount]),
                10 => {
                    let t = 1 + r.below(4) as i64;
                    if !have.contains(&t) {
                        have.push(t);
                    }
                    steps.push(vec![5, h, t]);
                }
                11 => steps.push(vec![6, h]),
                12 => match r.below(5) {
                    0 => steps.push(vec![7, h, r.below(2) as i64]),
                    1 => steps.push(vec![8, h]),
                    2 => steps.push(vec![10, h, amount]),
                    _ => steps.push(vec![9, h, amount.min(2_000_000) + 1]),
                },
                _ => steps.push(vec![6, h]),
            }
        }
        for h in have {
            steps.push(vec![7, h, r.below(2) as i64]);
            steps.push(vec![8, h]);
        }
        play(&set, &steps, i, &mut b);
        b.put(len_line(&set), 10);
        vec![b]
    });
    jobs
}
