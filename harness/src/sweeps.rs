//! Exhaustive sweeps, recorded as segments (module Sweeps of the specification).
use crate::model::*;
use crate::util::*;
use unicode_intervals::{Interval, IntervalSet};

type Seg = (u32, u32, u32, u32);

struct Segs {
    out: Vec<Seg>,
    odd: Vec<String>,
    merge_upto: u32,
}
impl Segs {
    fn new(merge_upto: u32) -> Segs {
        Segs { out: vec![], odd: vec![], merge_upto }
    }
    fn put(&mut self, x: u32, kind: u32, k: u32) {
        if let Some(l) = self.out.last_mut() {
            if l.2 == kind && l.3 == k && l.1 + 1 == x && kind <= self.merge_upto {
                l.1 = x;
                return;
            }
        }
        self.out.push((x, x, kind, k));
    }
    fn strange(&mut self, x: u32, what: String) {
        if self.odd.len() < 3 {
            self.odd.push(format!("{x}: {}", what.chars().take(200).collect::<String>()));
        }
    }
    fn tail(&self) -> String {
        format!(
            "\"segs\":{},\"odd\":{}",
            list(&self.out, |s| format!("[{},{},{},{}]", s.0, s.1, s.2, n(s.3))),
            list(&self.odd, |s| esc(s))
        )
    }
}

/// Members of a category selection, by asking for every code point separately.
pub fn singles(v: usize, inc: Option<u32>, exc: Option<u32>) -> String {
    let head = format!("\"op\":\"singles\",\"v\":{},\"inc\":{},\"exc\":{}", v + 1, opt_mask(inc), opt_mask(exc));
    about(|| head.clone());
    let mut runs: Vec<Interval> = vec![];
    let mut odd: Vec<String> = vec![];
    let base = Q::new(v).cats(inc, exc);
    let b = base.build();
    for c in 0..=MAX {
        match call(|| b.clone().min_codepoint(c).max_codepoint(c).intervals()) {
            Ok(Ok(l)) if l.is_empty() => {}
            Ok(Ok(l)) if l.len() == 1 && l[0] == (c, c) => match runs.last_mut() {
                Some(r) if r.1 + 1 == c => r.1 = c,
                _ => runs.push((c, c)),
            },
            other => {
                if odd.len() < 3 {
                    odd.push(format!("{c}: {other:?}"));
                }
            }
        }
    }
    format!("{{{head},\"runs\":{},\"odd\":{}}}", ivs(&runs), list(&odd, |s| esc(s)))
}

fn base_of(q: &Q) -> Result<Vec<Interval>, String> {
    match q.ask() {
        Ok(Ok(b)) => Ok(b),
        other => Err(format!("{other:?}")),
    }
}

/// The answer for every upper bound between q.min and q.max.
pub fn maxsweep(q: &Q, from: u32) -> String {
    let head = format!("\"op\":\"maxsweep\",\"full\":0,\"q\":{},\"from\":{from},\"to\":{}", q.json(), q.max);
    max_line(q, head, from..=q.max)
}

/// The same for some upper bounds only.
pub fn max_at(q: &Q, xs: &[u32], full: bool) -> String {
    let head = format!("\"op\":\"maxsweep\",\"at\":1,\"full\":{},\"q\":{}", u8::from(full), q.json());
    max_line(q, head, xs.iter().copied())
}

fn max_line(q: &Q, head: String, xs: impl Iterator<Item = u32>) -> String {
    about(|| head.clone());
    let mut s = Segs::new(1);
    let b = base_of(q).unwrap_or_else(|e| {
        s.strange(q.max, e);
        vec![]
    });
    for x in xs {
        match call(|| q.build().max_codepoint(x).intervals()) {
            Ok(Ok(r)) => {
                let m = r.len();
                if m <= b.len() && r[..] == b[..m] {
                    s.put(x, 0, m as u32);
                } else if m >= 1 && m <= b.len() && r[..m - 1] == b[..m - 1] && r[m - 1] == (b[m - 1].0, x) {
                    s.put(x, 1, m as u32);
                } else {
                    s.strange(x, format!("{r:?}"));
                }
            }
            o => s.strange(x, format!("{o:?}")),
        }
    }
    format!("{{{head},\"b\":{},{}}}", ivs(&b), s.tail())
}

/// The answer for every lower bound between q.min and `to`.
pub fn minsweep(q: &Q, to: u32) -> String {
    let head = format!("\"op\":\"minsweep\",\"full\":0,\"q\":{},\"from\":{},\"to\":{to}", q.json(), q.min);
    min_line(q, head, q.min..=to)
}

/// The same for some lower bounds only.
pub fn min_at(q: &Q, xs: &[u32], full: bool) -> String {
    let head = format!("\"op\":\"minsweep\",\"at\":1,\"full\":{},\"q\":{}", u8::from(full), q.json());
    min_line(q, head, xs.iter().copied())
}

fn min_line(q: &Q, head: String, xs: impl Iterator<Item = u32>) -> String {
    about(|| head.clone());
    let mut s = Segs::new(1);
    let b = base_of(q).unwrap_or_else(|e| {
        s.strange(q.min, e);
        vec![]
    });
    for x in xs {
        match call(|| q.build().min_codepoint(x).intervals()) {
            Ok(Ok(r)) => {
                let m = r.len();
                if m > b.len() {
                    s.strange(x, format!("{r:?}"));
                    continue;
                }
                let k = b.len() - m;
                if r[..] == b[k..] {
                    s.put(x, 0, k as u32);
                } else if m >= 1 && r[1..] == b[k + 1..] && r[0] == (x, b[k].1) {
                    s.put(x, 1, k as u32 + 1);
                } else {
                    s.strange(x, format!("{r:?}"));
                }
            }
            o => s.strange(x, format!("{o:?}")),
        }
    }
    format!("{{{head},\"b\":{},{}}}", ivs(&b), s.tail())
}

fn chars_in(from: u32, to: u32) -> impl Iterator<Item = char> {
    (from..=to).filter_map(char::from_u32)
}

/// The answer with each single character included.
pub fn addsweep(q: &Q, from: u32, to: u32, pre: &str, suf: &str) -> String {
    add_line(q, &format!("\"from\":{from},\"to\":{to}"), chars_in(from, to), pre, suf, false)
}

/// The same for some characters only.
pub fn add_at(q: &Q, xs: &[u32], pre: &str, suf: &str, full: bool) -> String {
    add_line(q, "\"at\":1", xs.iter().filter_map(|&x| char::from_u32(x)), pre, suf, full)
}

fn add_line(q: &Q, part: &str, xs: impl Iterator<Item = char>, pre: &str, suf: &str, full: bool) -> String {
    let q = &Q { ich: if pre.len() + suf.len() == 0 { q.ich.clone() } else { Some(format!("{pre}{suf}")) }, ..q.clone() };
    let full = u8::from(full);
    let head = format!(
        "\"op\":\"addsweep\",\"q\":{},{part},\"pre\":{},\"full\":{full}",
        q.json(),
        cps(pre)
    );
    about(|| head.clone());
    let mut s = Segs::new(1);
    let b = base_of(q).unwrap_or_else(|e| {
        s.strange(0, e);
        vec![]
    });
    let nb = b.len();
    let mut text = String::with_capacity(pre.len() + suf.len() + 4);
    for c in xs {
        let x = c as u32;
        text.clear();
        text.push_str(pre);
        text.push(c);
        text.push_str(suf);
        let text: &str = &text;
        let r = match call(|| q.build().include_characters(text).intervals()) {
            Ok(Ok(r)) => r,
            o => {
                s.strange(x, format!("{o:?}"));
                continue;
            }
        };
        // number of leading intervals in common
        let p = r.iter().zip(b.iter()).take_while(|(a, b)| a == b).count();
        if r == b {
            s.put(x, 0, 0);
        } else if r.len() == nb + 1 && p < r.len() && r[p] == (x, x) && r[p + 1..] == b[p..] {
            s.put(x, 1, p as u32);
        } else if r.len() == nb && p < nb && r[p + 1..] == b[p + 1..] && r[p] == (b[p].0, x) {
            s.put(x, 2, p as u32 + 1);
        } else if r.len() == nb && p < nb && r[p + 1..] == b[p + 1..] && r[p] == (x, b[p].1) {
            s.put(x, 3, p as u32);
        } else if r.len() + 1 == nb && p < r.len() && r[p + 1..] == b[p + 2..] && r[p] == (b[p].0, b[p + 1].1) {
            s.put(x, 4, p as u32 + 1);
        } else {
            s.strange(x, format!("{} intervals, base {nb}, first difference at {p}", r.len()));
        }
    }
    format!("{{{head},\"b\":{},{}}}", ivs(&b), s.tail())
}

/// The answer with each single character excluded.
pub fn delsweep(q: &Q, from: u32, to: u32, pre: &str, suf: &str, both: bool) -> String {
    del_line(q, &format!("\"from\":{from},\"to\":{to}"), chars_in(from, to), pre, suf, both, false)
}

/// The same for some characters only.
pub fn del_at(q: &Q, xs: &[u32], pre: &str, suf: &str, both: bool, full: bool) -> String {
    del_line(q, "\"at\":1", xs.iter().filter_map(|&x| char::from_u32(x)), pre, suf, both, full)
}

fn del_line(q: &Q, part: &str, xs: impl Iterator<Item = char>, pre: &str, suf: &str, both: bool, full: bool) -> String {
    let q = &Q { xch: if pre.len() + suf.len() == 0 { q.xch.clone() } else { Some(format!("{pre}{suf}")) }, ..q.clone() };
    let full = u8::from(full);
    let head = format!(
        "\"op\":\"delsweep\",\"q\":{},{part},\"pre\":{},\"both\":{},\"full\":{full}",
        q.json(),
        cps(pre),
        u8::from(both)
    );
    about(|| head.clone());
    let mut s = Segs::new(1);
    let b = base_of(q).unwrap_or_else(|e| {
        s.strange(0, e);
        vec![]
    });
    let nb = b.len();
    let mut text = String::with_capacity(pre.len() + suf.len() + 4);
    for c in xs {
        let x = c as u32;
        text.clear();
        text.push_str(pre);
        text.push(c);
        text.push_str(suf);
        let text: &str = &text;
        let r = match call(|| {
            let b = q.build().exclude_characters(text);
            // an excluded character may be included as well
            if both { b.include_characters(text).intervals() } else { b.intervals() }
        }) {
            Ok(Ok(r)) => r,
            o => {
                s.strange(x, format!("{o:?}"));
                continue;
            }
        };
        let p = r.iter().zip(b.iter()).take_while(|(a, b)| a == b).count();
        if r == b {
            s.put(x, 0, 0);
        } else if x > 0
            && r.len() == nb + 1
            && p + 1 < r.len()
            && r[p] == (b[p].0, x - 1)
            && r[p + 1] == (x + 1, b[p].1)
            && r[p + 2..] == b[p + 1..]
        {
            s.put(x, 1, p as u32 + 1);
        } else if r.len() == nb && p < nb && r[p + 1..] == b[p + 1..] && r[p] == (x + 1, b[p].1) && b[p].0 == x {
            s.put(x, 2, p as u32 + 1);
        } else if r.len() == nb && p < nb && r[p + 1..] == b[p + 1..] && r[p].0 == b[p].0 && r[p].1 + 1 == x && b[p].1 == x {
            s.put(x, 3, p as u32 + 1);
        } else if r.len() + 1 == nb && p < nb && r[p..] == b[p + 1..] && b[p] == (x, x) {
            s.put(x, 4, p as u32 + 1);
        } else {
            s.strange(x, format!("{} intervals, base {nb}, first difference at {p}", r.len()));
        }
    }
    format!("{{{head},\"b\":{},{}}}", ivs(&b), s.tail())
}

/// What changes in the answer when one character is included or excluded (p intervals at the front and
/// t at the back stay), for some characters.
pub fn patches(q: &Q, xs: &[u32], include: bool) -> String {
    let head = format!("\"op\":\"patches\",\"q\":{},\"include\":{}", q.json(), u8::from(include));
    about(|| head.clone());
    let mut odd: Vec<String> = vec![];
    let b = base_of(q).unwrap_or_else(|e| {
        odd.push(e);
        vec![]
    });
    let mut out: Vec<String> = vec![];
    for c in xs.iter().filter_map(|&x| char::from_u32(x)) {
        let text = c.to_string();
        let r = match call(|| if include { q.build().include_characters(&text).intervals() } else { q.build().exclude_characters(&text).intervals() }) {
            Ok(Ok(r)) => r,
            o => {
                odd.push(format!("{text:?}: {o:?}"));
                continue;
            }
        };
        let p = r.iter().zip(b.iter()).take_while(|(a, b)| a == b).count();
        let t = r[p..].iter().rev().zip(b[p..].iter().rev()).take_while(|(a, b)| a == b).count();
        out.push(format!("[{p},{t},{}]", ivs(&r[p..r.len() - t])));
    }
    odd.truncate(3);
    format!("{{{head},\"b\":{},\"ps\":[{}],\"odd\":{}}}", ivs(&b), out.join(","), list(&odd, |s| esc(s)))
}

/// One lookup for every argument in from ..= to.
pub fn lookups(op: &str, h: usize, from: u32, to: u32, set: &IntervalSet, constant: bool, f: impl Fn(&IntervalSet, u32) -> Option<u32>) -> String {
    let head = format!("\"op\":\"{op}\",\"h\":{h},\"from\":{from},\"to\":{to}");
    about(|| head.clone());
    let mut out: Vec<Seg> = vec![];
    let mut odd: Vec<String> = vec![];
    // kind 9: a single value, kind not known yet
    for x in from..=to {
        let r = match call(|| f(set, x)) {
            Ok(r) => r,
            Err(m) => {
                if odd.len() < 3 {
                    odd.push(format!("{x}: {m}"));
                }
                continue;
            }
        };
        let joined = match (out.last_mut(), r) {
            (Some(l), None) if l.2 == 0 && l.1 + 1 == x => {
                l.1 = x;
                true
            }
            (Some(l), Some(v)) if l.1 + 1 == x && (l.2 == 9 || l.2 == 1) && l.3 == v => {
                l.1 = x;
                l.2 = 1;
                true
            }
            (Some(l), Some(v)) if !constant && l.1 + 1 == x && (l.2 == 9 || l.2 == 2) && u64::from(l.3) + u64::from(x - l.0) == u64::from(v) => {
                l.1 = x;
                l.2 = 2;
                true
            }
            _ => false,
        };
        if !joined {
            out.push((x, x, if r.is_some() { 9 } else { 0 }, r.unwrap_or(0)));
        }
    }
    for s in &mut out {
        if s.2 == 9 {
            s.2 = if constant { 1 } else { 2 };
        }
    }
    format!(
        "{{{head},\"segs\":{},\"odd\":{}}}",
        list(&out, |s| format!("[{},{},{},{}]", s.0, s.1, s.2, n(s.3))),
        list(&odd, |s| esc(s))
    )
}
