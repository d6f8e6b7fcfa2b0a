//! The library's values in the vocabulary of the specification.
use crate::util::*;
use unicode_intervals::{Error, Interval, IntervalQuery, IntervalSet, UnicodeCategory, UnicodeCategorySet, UnicodeVersion};
use UnicodeCategory::*;

pub const MAX: u32 = 0x10_FFFF;
pub const ALL: u32 = (1 << 30) - 1;

/// Categories in the order of their full names: number k of the specification is CATS[k - 1].
pub const CATS: [UnicodeCategory; 30] = [
    Pe, Pc, Cc, Sc, Pd, Nd, Me, Pf, Cf, Pi, Nl, Zl, Ll, Sm, Lm, Sk, Mn, Ps, Lo, No, Po, So, Zp, Co, Zs, Mc, Cs, Lt,
    Cn, Lu,
];
pub const VERS: [UnicodeVersion; 11] = [
    UnicodeVersion::V9_0_0,
    UnicodeVersion::V10_0_0,
    UnicodeVersion::V11_0_0,
    UnicodeVersion::V12_0_0,
    UnicodeVersion::V12_1_0,
    UnicodeVersion::V13_0_0,
    UnicodeVersion::V14_0_0,
    UnicodeVersion::V15_0_0,
    UnicodeVersion::V15_1_0,
    UnicodeVersion::V16_0_0,
    UnicodeVersion::V17_0_0,
];
pub fn cat_no(c: UnicodeCategory) -> usize {
    CATS.iter().position(|x| *x == c).map_or(0, |i| i + 1)
}
pub fn ver_no(v: UnicodeVersion) -> usize {
    VERS.iter().position(|x| *x == v).map_or(0, |i| i + 1)
}
pub fn to_set(mask: u32) -> UnicodeCategorySet {
    let mut s = UnicodeCategorySet::new();
    for (i, c) in CATS.iter().enumerate() {
        if mask & (1 << i) != 0 {
            s.add(*c);
        }
    }
    s
}
pub fn mask_list(mask: u32) -> String {
    let v: Vec<i64> = (0..30).filter(|i| mask & (1 << i) != 0).map(|i| i + 1).collect();
    ints(&v)
}
pub fn opt_mask(m: Option<u32>) -> String {
    m.map_or("[]".into(), |m| format!("[{}]", mask_list(m)))
}
pub fn opt_chars(s: &Option<String>) -> String {
    s.as_ref().map_or("[]".into(), |s| format!("[{}]", cps(s)))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub v: usize,
    pub inc: Option<u32>,
    pub exc: Option<u32>,
    pub ich: Option<String>,
    pub xch: Option<String>,
    pub min: u32,
    pub max: u32,
    /// Set the bounds even if they are the default ones.
    pub explicit: bool,
}

impl Q {
    pub fn new(v: usize) -> Q {
        Q { v, inc: None, exc: None, ich: None, xch: None, min: 0, max: MAX, explicit: false }
    }
    pub fn cats(mut self, inc: Option<u32>, exc: Option<u32>) -> Q {
        self.inc = inc;
        self.exc = exc;
        self
    }
    pub fn range(mut self, min: u32, max: u32) -> Q {
        self.min = min;
        self.max = max;
        self
    }
    pub fn chars(mut self, ich: Option<String>, xch: Option<String>) -> Q {
        self.ich = ich;
        self.xch = xch;
        self
    }
    pub fn build(&self) -> IntervalQuery<'_> {
        self.build_with(self.ich.as_deref(), self.xch.as_deref())
    }
    fn build_with<'s>(&self, ich: Option<&'s str>, xch: Option<&'s str>) -> IntervalQuery<'s> {
        let mut b = VERS[self.v].query();
        if let Some(m) = self.inc {
            b = b.include_categories(to_set(m));
        }
        if let Some(m) = self.exc {
            b = b.exclude_categories(to_set(m));
        }
        if let Some(s) = ich {
            b = b.include_characters(s);
        }
        if let Some(s) = xch {
            b = b.exclude_characters(s);
        }
        if self.min != 0 || self.explicit {
            b = b.min_codepoint(self.min);
        }
        if self.max != MAX || self.explicit {
            b = b.max_codepoint(self.max);
        }
        b
    }
    /// The strings of all questions of a thread lie at the same two places, one after the other.
    pub fn ask(&self) -> Result<Result<Vec<Interval>, Error>, String> {
        thread_local! {
            static ROOM: std::cell::RefCell<[String; 2]> =
                std::cell::RefCell::new([String::with_capacity(1 << 20), String::with_capacity(1 << 20)]);
        }
        if self.ich.is_none() && self.xch.is_none() {
            return call(|| self.build().intervals());
        }
        ROOM.with(|room| {
            let mut room = room.borrow_mut();
            for (place, s) in room.iter_mut().zip([&self.ich, &self.xch]) {
                place.clear();
                place.push_str(s.as_deref().unwrap_or(""));
            }
            let (a, b) = (self.ich.as_ref().map(|_| &*room[0]), self.xch.as_ref().map(|_| &*room[1]));
            call(|| self.build_with(a, b).intervals())
        })
    }
    pub fn set(&self) -> Result<Result<IntervalSet, Error>, String> {
        call(|| self.build().interval_set())
    }
    pub fn json(&self) -> String {
        format!(
            "{{\"v\":{},\"inc\":{},\"exc\":{},\"ich\":{},\"xch\":{},\"min\":{},\"max\":{}}}",
            self.v + 1,
            opt_mask(self.inc),
            opt_mask(self.exc),
            opt_chars(&self.ich),
            opt_chars(&self.xch),
            n(self.min),
            n(self.max)
        )
    }
    /// Rough time TLC needs to compute the answer (microseconds).
    pub fn cost(&self) -> u64 {
        let sel = self.inc.unwrap_or(ALL) & !self.exc.unwrap_or(0);
        let width = u64::from(self.max.min(MAX).saturating_sub(self.min));
        let runs = if sel == 0 || sel == ALL || width == 0 { 0 } else { (width / 40).min(3800) };
        let chars = |s: &Option<String>| {
            let k = s.as_ref().map_or(0, |s| s.chars().count() as u64);
            if k < 24 { k * (5 + runs / 40) } else { k * 5 + runs * 2 }
        };
        150 + runs + chars(&self.ich) + chars(&self.xch)
    }
}

pub fn err(e: &Error) -> String {
    let (k, a, b) = match e {
        Error::InvalidCategory(s) => ("InvalidCategory", esc(s), None),
        Error::InvalidVersion(s) => ("InvalidVersion", esc(s), None),
        Error::InvalidCodepoints(a, b) => ("InvalidCodepoints", n(*a).to_string(), Some(*b)),
        Error::CodepointNotInRange(a, b) => ("CodepointNotInRange", n(*a).to_string(), Some(*b)),
    };
    let msg = esc(&e.to_string());
    match b {
        None => format!("{{\"err\":[\"{k}\",{a},{msg}]}}"),
        Some(b) => format!("{{\"err\":[\"{k}\",{a},{},{msg}]}}", n(b)),
    }
}
/// Reply of any fallible call.
pub fn reply<T>(r: &Result<Result<T, Error>, String>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(Ok(x)) => ok(f(x)),
        Ok(Err(e)) => call(|| err(e)).unwrap_or_else(|m| panicked(&m)),
        Err(m) => panicked(m),
    }
}
/// Reply of an infallible call.
pub fn plain<T>(r: &Result<T, String>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(x) => ok(f(x)),
        Err(m) => panicked(m),
    }
}
pub fn ask_reply(q: &Q) -> String {
    reply(&q.ask(), |v| ivs(v))
}
/// The same question through the set: its code points, taken from the iterator one by one.
pub fn ask_by_set(q: &Q) -> String {
    let j = q.json();
    about(|| format!("ask (set) {j}"));
    let r = call(|| {
        q.build().interval_set().map(|s| {
            let mut out: Vec<(u32, u32)> = vec![];
            for c in s.iter() {
                match out.last_mut() {
                    Some(l) if l.1.checked_add(1) == Some(c) => l.1 = c,
                    _ => out.push((c, c)),
                }
            }
            out
        })
    });
    format!("{{\"op\":\"ask\",\"q\":{j},\"via\":\"set\",\"r\":{}}}", reply(&r, |v| ivs(v)))
}
pub fn ask_line(q: &Q) -> String {
    let j = q.json();
    about(|| format!("ask {j}"));
    format!("{{\"op\":\"ask\",\"q\":{j},\"r\":{}}}", ask_reply(q))
}

// ---------------------------------------------------------------- choosing inputs

/// Code points at which something changes in some version (input selection only).
pub struct Pools {
    /// per version, per category: first and last points of intervals
    pub edges: Vec<Vec<Vec<u32>>>,
    pub special: Vec<u32>,
}

pub const SPECIAL: &[u32] = &[
    0, 1, 2, 31, 32, 33, 47, 48, 57, 58, 62, 63, 64, 65, 66, 90, 91, 96, 97, 122, 126, 127, 128, 129, 159, 160, 170,
    172, 173, 174, 180, 190, 191, 192, 193, 214, 215, 216, 247, 253, 254, 255, 256, 257, 258, 319, 320, 0x2BF, 0x37F,
    0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0x3FFF, 0x4000, 0x9FFF, 0xA000, 0xD7FE, 0xD7FF, 0xD800, 0xDBFF,
    0xDC00, 0xDFFF, 0xE000, 0xE001, 0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFEFF, 0xFFFC, 0xFFFD, 0xFFFE,
    0xFFFF, 0x10000, 0x10001, 0x1FFFD, 0x1FFFE, 0x1FFFF, 0x20000, 0x2FFFF, 0x30000, 0xE0000, 0xE0001, 0xEFFFF,
    0xF0000, 0xFFFFD, 0xFFFFE, 0xFFFFF, 0x100000, 0x10FFFB, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF,
];

/// Ranges people ask for.
pub const PARTS: &[(u32, u32)] = &[
    (0, 127), (128, 255), (0, 255), (32, 126), (1, 127), (1, 255), (128, MAX), (256, MAX), (256, 0xFFFF), (1, MAX),
    (0, 0x7FF), (0x80, 0x7FF), (0x800, 0xFFFF), (0, 0xFFFF), (0, 0xD7FF), (0xD800, 0xDFFF), (0xE000, 0xFFFF),
    (0xE000, MAX), (0xE000, 0xF8FF), (0x1_0000, MAX), (0x1_0000, 0x1_FFFF), (0x2_0000, 0x2_FFFF), (0xE_0000, MAX),
    (0xF_0000, MAX), (0x10_0000, MAX), (0, MAX - 1), (0, 0xF_FFFF), (0x4E00, 0x9FFF), (0xAC00, 0xD7A3), (0, 256),
    (255, 256), (48, 57), (65, 90), (97, 122),
];

pub fn pools() -> Pools {
    let mut edges = vec![];
    for v in VERS {
        let mut per = vec![];
        for c in CATS {
            let l = call(|| v.intervals_for(c)).unwrap_or(&[]);
            let mut e: Vec<u32> = l.iter().flat_map(|&(a, b)| [a, b]).filter(|&x| x <= MAX).collect();
            if e.is_empty() {
                e.push(0);
            }
            per.push(e);
        }
        edges.push(per);
    }
    Pools { edges, special: SPECIAL.to_vec() }
}

/// A string of n isolated characters, every `step`-th scalar value from `start` on (wrapping around).
/// Orders: ascending, descending, shuffled, the upper half before the lower, ascending with some repeated at the end.
pub fn large(seed: u64, n: usize, start: u32, step: u32, order: usize) -> String {
    let mut cs: Vec<char> = (0..n as u32).filter_map(|i| char::from_u32((start + i * step) % (MAX + 1))).collect();
    match order % 5 {
        0 => {}
        1 => cs.reverse(),
        2 => {
            let mut r = Rng::new(seed, n as u64);
            for i in (1..cs.len()).rev() {
                cs.swap(i, r.below(i + 1));
            }
        }
        3 => cs.rotate_left(n / 2),
        _ => {
            let again: Vec<char> = cs.iter().step_by(7).copied().collect();
            cs.extend(again);
        }
    }
    cs.into_iter().collect()
}
/// Numbers of characters past what small counters hold.
pub const MANY: [usize; 4] = [33_000, 66_000, 70_000, 140_000];

impl Pools {
    pub fn point(&self, r: &mut Rng, v: usize) -> u32 {
        let x = match r.below(10) {
            0..=4 => {
                let e = &self.edges[v][r.below(30)];
                let p = *r.pick(e);
                let d = r.below(5) as i64 - 2;
                (i64::from(p) + d).clamp(0, i64::from(MAX)) as u32
            }
            5 | 6 => *r.pick(&self.special),
            7 => r.below(300) as u32,
            8 => r.below(0x1_0000) as u32,
            _ => r.below(MAX as usize + 1) as u32,
        };
        x.min(MAX)
    }
    pub fn ch(&self, r: &mut Rng, v: usize) -> char {
        loop {
            if let Some(c) = char::from_u32(self.point(r, v)) {
                return c;
            }
        }
    }
    /// One character of a given kind: 0 any, 1 ASCII, 2 below 256, 3 two bytes, 4 three bytes, 5 four bytes.
    fn kind_ch(&self, r: &mut Rng, v: usize, kind: usize) -> char {
        let any = self.ch(r, v);
        match kind {
            1 => char::from_u32(r.below(128) as u32).unwrap_or('a'),
            2 => char::from_u32(r.below(256) as u32).unwrap_or('a'),
            3 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap_or(any),
            4 => char::from_u32(0x800 + r.below(0xF800) as u32).unwrap_or(any),
            5 => char::from_u32(0x1_0000 + r.below(0x10_0000) as u32).unwrap_or(any),
            _ => any,
        }
    }
    fn length(&self, r: &mut Rng, most: usize) -> usize {
        let len = match r.below(24) {
            0 | 1 => 0,
            2..=5 => 1,
            6 | 7 => 2,
            8..=10 => 3 + r.below(3),
            11..=16 => 4 + r.below(8),
            17..=19 => 12 + r.below(30),
            20 | 21 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            22 => 40 + r.below(160),
            _ => 60 + r.below(700),
        };
        len.min(most)
    }
    /// A string: clustered, repeated and unordered characters are likely.
    pub fn string(&self, r: &mut Rng, v: usize, small: bool) -> String {
        let len = self.length(r, 800);
        self.string_of(r, v, small, len)
    }
    pub fn string_of(&self, r: &mut Rng, v: usize, small: bool, len: usize) -> String {
        let kind = if small { 1 + r.below(2) } else { [0, 0, 0, 0, 0, 1, 2, 3, 4, 5][r.below(10)] };
        let mut out: Vec<char> = vec![];
        while out.len() < len {
            let c = self.kind_ch(r, v, kind);
            out.push(c);
            match r.below(6) {
                0 => {
                    // a run of neighbours
                    let mut x = c as u32;
                    let many = if r.chance(1, 4) { r.below(70) } else { r.below(4) };
                    for _ in 0..1 + many {
                        x += 1;
                        if let Some(d) = char::from_u32(x) {
                            if (!small || x < 256) && out.len() < len + 4 {
                                out.push(d);
                            }
                        }
                    }
                }
                1 => {
                    let k = r.below(out.len());
                    out.push(out[k]);
                }
                2 => {
                    if let Some(d) = (c as u32).checked_sub(1 + r.below(2) as u32).and_then(char::from_u32) {
                        out.push(d);
                    }
                }
                _ => {}
            }
        }
        match r.below(8) {
            0 => out.sort_unstable(),
            1 => out.sort_unstable_by(|a, b| b.cmp(a)),
            2 => {
                out.sort_unstable();
                out.dedup();
            }
            3 => {}
            4 if !out.is_empty() => {
                // nearly sorted
                out.sort_unstable();
                let (i, j) = (r.below(out.len()), r.below(out.len()));
                out.swap(i, j);
            }
            _ => {
                for i in (1..out.len()).rev() {
                    if r.chance(1, 2) {
                        let k = r.below(i + 1);
                        out.swap(i, k);
                    }
                }
            }
        }
        // one character of another kind among many alike
        if !small && kind != 0 && !out.is_empty() && r.chance(2, 3) {
            let kind = [2, 3, 4, 5, 0][r.below(5)];
            let c = self.kind_ch(r, v, kind);
            let at = match r.below(3) {
                0 => 0,
                1 => out.len(),
                _ => r.below(out.len() + 1),
            };
            out.insert(at, c);
        }
        out.into_iter().collect()
    }
    /// A string related to another one.
    pub fn related(&self, r: &mut Rng, v: usize, small: bool, s: &str) -> String {
        let mut c: Vec<char> = s.chars().collect();
        match r.below(8) {
            0 => {}
            1 => c.reverse(),
            2 => c.retain(|_| r.chance(1, 2)),
            3 => {
                let more = self.string(r, v, small);
                c.extend(more.chars());
            }
            4 => {
                // neighbours of the other's characters
                for x in &mut c {
                    if let Some(d) = char::from_u32((*x as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1)) {
                        if !small || (d as u32) < 256 {
                            *x = d;
                        }
                    }
                }
            }
            5 => {
                let d = c.clone();
                c.extend(d);
            }
            6 if !c.is_empty() => {
                // all but one
                let k = r.below(c.len());
                c.remove(k);
            }
            _ => {
                c.sort_unstable();
                c.dedup();
            }
        }
        c.into_iter().collect()
    }
    pub fn mask(&self, r: &mut Rng) -> u32 {
        match r.below(16) {
            0 => 0,
            1 => ALL,
            14 => {
                // neighbours in the table
                let (a, z) = (r.below(30), r.below(30));
                (a.min(z)..=a.max(z)).fold(0, |m, i| m | 1 << i)
            }
            15 => {
                let h = ALL >> (14 + r.below(3));
                if r.chance(1, 2) { h } else { ALL & !h }
            }
            2 | 3 => 1 << r.below(30),
            4 => (1 << r.below(30)) | (1 << r.below(30)),
            5 => ALL & !(1 << r.below(30)),
            6 => (r.next() & r.next() & r.next()) as u32 & ALL,
            7..=9 => {
                // any number of members
                let k = r.below(31);
                self.some(r, ALL, k)
            }
            10 => {
                // major classes
                let mut m = 0;
                for _ in 0..1 + r.below(3) {
                    m |= CLASS_MASKS[r.below(7)];
                }
                if r.chance(1, 3) {
                    m ^= 1 << r.below(30);
                }
                m
            }
            _ => r.next() as u32 & ALL,
        }
    }
    /// k members of m.
    fn some(&self, r: &mut Rng, m: u32, k: usize) -> u32 {
        let mut bits: Vec<u32> = (0..30).filter(|i| m & (1 << i) != 0).collect();
        let mut out = 0;
        for _ in 0..k.min(bits.len()) {
            let i = r.below(bits.len());
            out |= 1 << bits.swap_remove(i);
        }
        out
    }
    /// Included and excluded categories, often related.
    pub fn masks(&self, r: &mut Rng) -> (Option<u32>, Option<u32>) {
        if r.chance(1, 12) {
            return (None, None);
        }
        if r.chance(1, 2) {
            return (self.opt_mask(r), self.opt_mask(r));
        }
        let m = self.mask(r);
        let k = r.below(31);
        let e = match r.below(8) {
            6 => (m << (1 + r.below(3))) & ALL,
            7 => m >> (1 + r.below(3)),
            0 => m,
            1 => ALL & !m,
            2 => self.some(r, m, k),
            3 => m | self.some(r, ALL, k),
            4 => ALL & !m | self.some(r, m, 1),
            _ => self.some(r, ALL & !m, k),
        };
        (Some(m), Some(e))
    }
    pub fn opt_mask(&self, r: &mut Rng) -> Option<u32> {
        if r.chance(1, 3) {
            None
        } else {
            Some(self.mask(r))
        }
    }
    pub fn range(&self, r: &mut Rng, v: usize) -> (u32, u32) {
        let two = |a: u32, b: u32| (a.min(b), a.max(b));
        match r.below(16) {
            14 => *r.pick(PARTS),
            15 => self.width(r, v),
            0 | 1 => (0, MAX),
            2..=4 => two(r.below(256) as u32, r.below(256) as u32),
            5 => {
                let a = self.point(r, v);
                (a, (a + r.below(40) as u32).min(MAX))
            }
            6 => (0, self.point(r, v)),
            7 => (self.point(r, v), MAX),
            8 => two(*r.pick(&self.special), *r.pick(&self.special)),
            9 => {
                let a = self.point(r, v);
                (a, a)
            }
            10 => two(r.below(300) as u32, self.point(r, v)),
            _ => two(self.point(r, v), self.point(r, v)),
        }
    }
    /// About 2^k code points.
    pub fn width(&self, r: &mut Rng, v: usize) -> (u32, u32) {
        let w = (1u32 << (2 + r.below(16))) * (1 + r.below(2) as u32) + r.below(3) as u32 - 1;
        let x = self.point(r, v);
        let a = match r.below(4) {
            0 => x,
            1 => x & !(w.next_power_of_two() - 1),
            2 => (x + 1).saturating_sub(w),
            _ => x.saturating_sub(r.below(w as usize) as u32),
        };
        (a, (a + w - 1).min(MAX))
    }
    pub fn query(&self, r: &mut Rng) -> Q {
        let v = r.below(VERS.len());
        let (min, max) = self.range(r, v);
        let small = max < 256 && r.chance(2, 3);
        let ich = if r.chance(1, 2) { None } else { Some(self.string(r, v, small)) };
        let xch = match &ich {
            Some(s) if r.chance(1, 3) => Some(self.related(r, v, small, s)),
            _ if r.chance(1, 2) => None,
            _ => Some(self.string(r, v, small)),
        };
        let (inc, exc) = self.masks(r);
        let mut q = Q { v, inc, exc, ich, xch, min, max, explicit: r.chance(1, 2) };
        if r.chance(1, 7) {
            self.touch(r, &mut q);
        }
        q
    }
    /// Characters on the bounds of a query and next to them, and perhaps some beyond.
    pub fn touch(&self, r: &mut Rng, q: &mut Q) {
        let (ends, pick) = ([q.min, q.max], r.below(3));
        let one = |r: &mut Rng| {
            let mut c: Vec<char> = vec![];
            for _ in 0..1 + r.below(3) {
                let e = if pick < 2 { ends[pick] } else { ends[r.below(2)] };
                let near = |d: u32| (e + d).checked_sub(3).and_then(char::from_u32);
                // beyond the upper one, in front of the lower one, or around
                let ds: &[u32] = match (r.below(3), pick) {
                    (0, 0) => &[2],
                    (0, 1) => &[4],
                    (1, 0) => &[1, 2],
                    (1, 1) => &[4, 5],
                    _ => &[1, 2, 3, 4, 5],
                };
                c.extend(near(*r.pick(ds)));
            }
            for _ in 0..r.below(3) {
                // further ones on the same side
                let d = 1 + [r.below(4), r.below(40), r.below(0x2_0000)][r.below(3)] as u32;
                let x = if r.chance(1, 2) { ends[1].saturating_add(d) } else { ends[0].saturating_sub(d) };
                c.extend(char::from_u32(x));
            }
            if r.chance(1, 4) {
                c.sort_unstable();
            }
            c.into_iter().collect::<String>()
        };
        let (a, b) = (one(r), one(r));
        match r.below(5) {
            0 | 1 => (q.ich, q.xch) = (Some(a), None),
            2 => (q.ich, q.xch) = (None, Some(a)),
            3 => (q.ich, q.xch) = (Some(a), Some(b)),
            _ => q.ich = Some(a),
        }
    }
    /// Bounds that matter (parts of the code space, powers of two, ends of intervals), with characters there.
    pub fn touching(&self, r: &mut Rng) -> Q {
        let v = r.below(VERS.len());
        let round = |r: &mut Rng| {
            let x = [1u32 << r.below(21), (1 + r.below(17) as u32) << 16, (1 + r.below(255) as u32) << 8, 0xD800, 0xE000, 0x10_FFFE][r.below(6)];
            (x + r.below(3) as u32).saturating_sub(1).min(MAX)
        };
        let (min, max) = match r.below(4) {
            0 => {
                let z = round(r);
                (z.saturating_sub([0, 15, r.below(0x1_0000) as u32][r.below(3)]), z)
            }
            1 => {
                let a = round(r);
                (a, (a + [0, 15, r.below(0x1_0000) as u32][r.below(3)]).min(MAX))
            }
            2 => {
                let (a, z) = (round(r), round(r));
                (a.min(z), a.max(z))
            }
            _ => self.range(r, v),
        };
        let (inc, exc) = match r.below(5) {
            0 => (None, None),
            1 => (Some(1 << r.below(30)), None),
            2 => (Some(0), None),
            _ => self.masks(r),
        };
        let mut q = Q { v, inc, exc, ich: None, xch: None, min, max, explicit: r.chance(1, 2) };
        self.touch(r, &mut q);
        q
    }
    /// Another string of as many bytes (and as many characters).
    pub fn same_bytes(&self, r: &mut Rng, s: &str) -> String {
        let mut c: Vec<char> = s.chars().collect();
        if c.is_empty() {
            return String::new();
        }
        if r.chance(1, 3) {
            c.rotate_left(1);
        }
        let whole = r.chance(1, 4);
        let at = r.below(c.len());
        for (i, x) in c.iter_mut().enumerate() {
            if whole || i == at {
                let d = match x.len_utf8() {
                    1 => r.below(128) as u32,
                    2 => 0x80 + r.below(0x780) as u32,
                    3 => 0x800 + r.below(0xF800) as u32,
                    _ => 0x1_0000 + r.below(0x10_0000) as u32,
                };
                *x = char::from_u32(d).unwrap_or(*x);
            }
        }
        c.into_iter().collect()
    }
    /// A query that differs from another one in little.
    pub fn neighbour(&self, r: &mut Rng, q: &Q) -> Q {
        let mut n = q.clone();
        for _ in 0..if r.chance(4, 5) { 1 } else { 2 } {
            let v = n.v;
            let small = n.max < 256 && r.chance(2, 3);
            match r.below(18) {
                16 => n.ich = n.ich.as_ref().map(|s| self.same_bytes(r, s)),
                17 => n.xch = n.xch.as_ref().map(|s| self.same_bytes(r, s)),
                0..=2 => n.v = (v + [1, 10, 1, 10, 2, 5][r.below(6)]) % VERS.len(),
                3 => n.v = r.below(VERS.len()),
                4 => n.inc = self.opt_mask(r),
                5 => n.exc = self.opt_mask(r),
                6 => n.inc = Some(n.inc.unwrap_or(ALL) ^ (1 << r.below(30))),
                7 => n.exc = Some(n.exc.unwrap_or(0) ^ (1 << r.below(30))),
                8 => n.ich = if r.chance(1, 4) { None } else { Some(self.related(r, v, small, &n.ich.clone().unwrap_or_default())) },
                9 => n.xch = if r.chance(1, 4) { None } else { Some(self.related(r, v, small, &n.xch.clone().unwrap_or_default())) },
                10 => (n.ich, n.xch) = (n.xch.clone(), n.ich.clone()),
                11 => (n.inc, n.exc) = (n.exc, n.inc),
                12 => n.min = self.point(r, v),
                13 => n.max = self.point(r, v),
                14 => {
                    let d = 1 + r.below(3) as u32;
                    n.min = if r.chance(1, 2) { n.min.saturating_sub(d) } else { n.min + d };
                }
                _ => {
                    let d = 1 + r.below(3) as u32;
                    n.max = if r.chance(1, 2) { n.max.saturating_sub(d) } else { n.max + d };
                }
            }
            n.max = n.max.min(MAX);
            n.min = n.min.min(n.max);
        }
        n
    }
    /// Queries in a row, each near the one before or one asked earlier.
    pub fn chain(&self, r: &mut Rng, len: usize) -> Vec<Q> {
        let mut out: Vec<Q> = vec![];
        while out.len() < len {
            let q = match r.below(8) {
                0 => self.query(r),
                1 if !out.is_empty() => r.pick(&out).clone(),
                2 if out.len() > 1 => {
                    let q = out[out.len() - 2].clone();
                    self.neighbour(r, &q)
                }
                _ => match out.last() {
                    None => self.query(r),
                    Some(q) => self.neighbour(r, &q.clone()),
                },
            };
            out.push(q);
        }
        out
    }
}

/// The major classes, as numbers of categories (input selection only).
pub const CLASS_MASKS: [u32; 7] = [
    1 << 12 | 1 << 14 | 1 << 18 | 1 << 27 | 1 << 29,
    1 << 6 | 1 << 16 | 1 << 25,
    1 << 5 | 1 << 10 | 1 << 19,
    1 | 1 << 1 | 1 << 4 | 1 << 7 | 1 << 9 | 1 << 17 | 1 << 20,
    1 << 3 | 1 << 13 | 1 << 15 | 1 << 21,
    1 << 11 | 1 << 22 | 1 << 24,
    1 << 2 | 1 << 8 | 1 << 23 | 1 << 26 | 1 << 28,
];
