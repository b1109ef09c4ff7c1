//! C20 (CharSet), C11 (CharPartition queries), C12 (merge): drivers.
//!
//! Abstract events: the alphabet [0, MAX_CHAR] is cut into N consecutive blocks; block t stands
//! for point t of an abstract N-letter alphabet. Operands are unions of consecutive blocks;
//! results are mapped back to abstract points (-9: not aligned with the blocks).
//! Concrete events use code points directly.
use crate::util::*;
use aws_smt_strings::automata::AutomatonBuilder;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::smt_strings::MAX_CHAR;
use std::cmp::Ordering;
use std::collections::HashSet;

pub type Iv = (usize, usize);

pub struct Blocks {
    pub b: Vec<(u32, u32)>,
}

impl Blocks {
    /// n consecutive blocks that cover [0, MAX_CHAR]
    pub fn new(n: usize, style: usize, rng: &mut Rng) -> Blocks {
        let mut cuts: Vec<u32> = Vec::new(); // starts of blocks 1..n-1
        let k = n - 1;
        match style {
            0 => cuts = (1..=k as u32).collect(), // singletons at 0
            1 => cuts = (0..k as u32).map(|i| MAX_CHAR - i).collect(), // singletons at MAX_CHAR
            2 => {
                // half at 0, half at MAX_CHAR
                for i in 0..k {
                    if i % 2 == 0 {
                        cuts.push(1 + (i / 2) as u32)
                    } else {
                        cuts.push(MAX_CHAR - (i / 2) as u32)
                    }
                }
            }
            3 => {
                // cluster of small blocks in the middle
                let mut x = 1 + rng.below(196000 - 10 * n) as u32;
                for _ in 0..k {
                    cuts.push(x);
                    x += 1 + rng.below(3) as u32;
                }
            }
            _ => {
                while cuts.len() < k {
                    let x = 1 + rng.below(MAX_CHAR as usize) as u32;
                    if !cuts.contains(&x) {
                        cuts.push(x);
                    }
                }
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        assert!(cuts.len() == k);
        let mut b = Vec::new();
        let mut lo = 0;
        for &c in &cuts {
            b.push((lo, c - 1));
            lo = c;
        }
        b.push((lo, MAX_CHAR));
        Blocks { b }
    }
    pub fn n(&self) -> usize {
        self.b.len()
    }
    pub fn set(&self, iv: Iv) -> CharSet {
        CharSet::range(self.b[iv.0].0, self.b[iv.1].1)
    }
    pub fn point(&self, c: u32) -> i64 {
        for (i, x) in self.b.iter().enumerate() {
            if x.0 <= c && c <= x.1 {
                return i as i64;
            }
        }
        -9
    }
    pub fn abs(&self, s: &CharSet) -> J {
        self.abs2(s.pick_start(), s.pick_end())
    }
    pub fn abs2(&self, lo: u32, hi: u32) -> J {
        let i = self.b.iter().position(|x| x.0 == lo).map_or(-9, |i| i as i64);
        let j = self.b.iter().position(|x| x.1 == hi).map_or(-9, |i| i as i64);
        J::ints(&[i, j])
    }
    /// first, last, and some middle character of block t
    pub fn samples(&self, t: usize) -> [u32; 3] {
        let (a, b) = self.b[t];
        [a, b, a + (b - a) / 2]
    }
}

/// end points of a CharSet through the public API (start and end are private)
pub trait Ends {
    fn pick_start(&self) -> u32;
    fn pick_end(&self) -> u32;
}

impl Ends for CharSet {
    fn pick_start(&self) -> u32 {
        CharPartition::from_set(self).get(0).0
    }
    fn pick_end(&self) -> u32 {
        CharPartition::from_set(self).get(0).1
    }
}

/// agreement of several observations: the common value or bad
fn common(v: &[i64], bad: i64) -> i64 {
    if v.iter().all(|x| *x == v[0]) {
        v[0]
    } else {
        bad
    }
}

pub fn intervals(n: usize) -> Vec<Iv> {
    let mut v = Vec::new();
    for i in 0..n {
        for j in i..n {
            v.push((i, j));
        }
    }
    v
}

fn jiv(x: Iv) -> J {
    J::ints(&[x.0 as i64, x.1 as i64])
}

fn jivs(v: &[Iv]) -> J {
    J::A(v.iter().map(|&x| jiv(x)).collect())
}

fn cmp_code(o: Option<Ordering>) -> i64 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    }
}

/// the five comparison operators folded in one number
fn ops_code(x: &CharSet, y: &CharSet) -> i64 {
    (x < y) as i64 + 2 * (x <= y) as i64 + 4 * (x > y) as i64 + 8 * (x >= y) as i64 + 16 * (x == y) as i64
}

struct Dedup(HashSet<J>);

impl Dedup {
    fn emit(&mut self, c: &mut Ctx, e: J) {
        if self.0.insert(e.clone()) {
            c.emit(e);
        }
    }
}

fn panicked(op: &'static str, args: Vec<(&'static str, J)>, msg: &str) -> J {
    let mut v = vec![("op", J::s("panic")), ("in", J::s(op)), ("msg", J::s(msg))];
    v.extend(args);
    J::O(v)
}

pub fn c20(c: &mut Ctx) {
    let mut rng = c.rng(20);
    let n = c.q(7, 9);
    let ivs = intervals(n);
    let nconc = c.q(8, 16);
    let concs: Vec<Blocks> = (0..nconc).map(|s| Blocks::new(n, s, &mut rng)).collect();
    let mut dd = Dedup(HashSet::new());
    // pairs
    for &x in &ivs {
        for &y in &ivs {
            if !c.mine() {
                continue;
            }
            for b in &concs {
                c.calls += 1;
                let (sx, sy) = (b.set(x), b.set(y));
                let args = vec![("x", jiv(x)), ("y", jiv(y))];
                let e = guard(
                    || format!("CharSet pair {sx} {sy}"),
                    || {
                        let opt = |o: Option<CharSet>| o.map_or(J::A(vec![]), |s| b.abs(&s));
                        vec![
                            ("op", J::s("pair")),
                            ("N", J::n(n)),
                            ("x", jiv(x)),
                            ("y", jiv(y)),
                            ("covers", J::b(sx.covers(&sy))),
                            ("inter", opt(sx.inter(&sy))),
                            ("ilist", opt(CharSet::inter_list(&[sx, sy]))),
                            ("union", opt(sx.union(&sy))),
                            ("cmp", J::I(cmp_code(sx.partial_cmp(&sy)))),
                            ("ops", J::I(ops_code(&sx, &sy))),
                        ]
                    },
                );
                match e {
                    Ok(v) => dd.emit(c, J::O(v)),
                    Err(m) => dd.emit(c, panicked("pair", args, &m)),
                }
            }
        }
        // points
        for t in 0..n {
            if !c.mine() {
                continue;
            }
            for b in &concs {
                c.calls += 1;
                let sx = b.set(x);
                let e = guard(
                    || format!("CharSet point {sx} {t}"),
                    || {
                        let f = |g: &dyn Fn(u32) -> bool| {
                            J::I(common(&b.samples(t).map(|ch| g(ch) as i64), -9))
                        };
                        vec![
                            ("op", J::s("point")),
                            ("N", J::n(n)),
                            ("x", jiv(x)),
                            ("t", J::n(t)),
                            ("contains", f(&|ch| sx.contains(ch))),
                            ("before", f(&|ch| sx.is_before(ch))),
                            ("after", f(&|ch| sx.is_after(ch))),
                            ("pick", J::I(b.point(sx.pick()))),
                        ]
                    },
                );
                match e {
                    Ok(v) => dd.emit(c, J::O(v)),
                    Err(m) => dd.emit(c, panicked("point", vec![("x", jiv(x))], &m)),
                }
            }
        }
    }
    // inter_list: every list of length 0, 1, 3 over a smaller alphabet, longer random ones
    let m = c.q(5, 6);
    let ivm = intervals(m);
    let concm: Vec<Blocks> = (0..6).map(|s| Blocks::new(m, s, &mut rng)).collect();
    let mut lists: Vec<Vec<Iv>> = vec![vec![]];
    for &x in &ivm {
        lists.push(vec![x]);
        for &y in &ivm {
            for &z in &ivm {
                lists.push(vec![x, y, z]);
            }
        }
    }
    for _ in 0..c.q(400, 5000) {
        let k = 4 + rng.below(4);
        lists.push((0..k).map(|_| *rng.pick(&ivm)).collect());
    }
    for l in &lists {
        if !c.mine() {
            continue;
        }
        for b in &concm {
            c.calls += 1;
            let v: Vec<CharSet> = l.iter().map(|&x| b.set(x)).collect();
            let e = guard(|| format!("inter_list {v:?}"), || CharSet::inter_list(&v));
            match e {
                Ok(r) => dd.emit(
                    c,
                    J::O(vec![
                        ("op", J::s("ilist")),
                        ("N", J::n(m)),
                        ("l", jivs(l)),
                        ("r", r.map_or(J::A(vec![]), |s| b.abs(&s))),
                    ]),
                ),
                Err(msg) => dd.emit(c, panicked("ilist", vec![("l", jivs(l))], &msg)),
            }
        }
    }
    // concrete sets
    let special = [0u32, 1, 2, 31, 97, 98, 127, 128, 255, 256, 0xD7FF, 0xFFFD, 0xFFFF, 0x10000, 0x2FFFD, 0x2FFFE, MAX_CHAR];
    let anychar = |rng: &mut Rng| -> u32 {
        if rng.chance(2, 3) {
            *rng.pick(&special)
        } else {
            rng.below(MAX_CHAR as usize + 1) as u32
        }
    };
    let mut pairs = Vec::new();
    for &x in &special {
        for &y in &special {
            if x <= y {
                pairs.push((x, y));
            }
        }
    }
    for _ in 0..c.q(600, 6000) {
        let x = anychar(&mut rng);
        let y = anychar(&mut rng);
        pairs.push((x.min(y), x.max(y)));
    }
    let mut prev = (0, MAX_CHAR);
    for (x, y) in pairs {
        c.calls += 1;
        let ch = [anychar(&mut rng), x, y, x.saturating_sub(1), (y + 1).min(MAX_CHAR)][rng.below(5)];
        let e = guard(
            || format!("CharSet [{x},{y}]"),
            || {
                let s = if x == y && x % 2 == 0 {
                    CharSet::singleton(x)
                } else if x == 0 && y == MAX_CHAR && rng.chance(1, 2) {
                    CharSet::all_chars()
                } else {
                    CharSet::range(x, y)
                };
                let o = CharSet::range(prev.0, prev.1);
                let opt = |o: Option<CharSet>| {
                    o.map_or(J::A(vec![]), |s| J::word(&[s.pick_start(), s.pick_end()]))
                };
                vec![
                    ("op", J::s("conc")),
                    ("x", J::word(&[x, y])),
                    ("y", J::word(&[prev.0, prev.1])),
                    ("ch", J::u(ch)),
                    ("size", J::I((s.size() as i64).min(1 << 30))),
                    ("single", J::b(s.is_singleton())),
                    ("alpha", J::b(s.is_alphabet())),
                    ("pick", J::I((s.pick() as i64).min(1 << 30))),
                    ("contains", J::b(s.contains(ch))),
                    ("before", J::b(s.is_before(ch))),
                    ("after", J::b(s.is_after(ch))),
                    ("covers", J::b(s.covers(&o))),
                    ("inter", opt(s.inter(&o))),
                    ("union", opt(s.union(&o))),
                    ("cmp", J::I(cmp_code(s.partial_cmp(&o)))),
                ]
            },
        );
        match e {
            Ok(v) => c.emit(J::O(v)),
            Err(m) => c.emit(panicked("conc", vec![("x", J::word(&[x, y]))], &m)),
        }
        prev = (x, y);
    }
}

// ---------------------------------------------------------------- partitions

/// All partitions (sets of disjoint intervals, sorted) of n points
pub fn partitions(n: usize) -> Vec<Vec<Iv>> {
    fn rec(n: usize, start: usize, cur: &mut Vec<Iv>, out: &mut Vec<Vec<Iv>>) {
        out.push(cur.clone());
        for i in start..n {
            for j in i..n {
                cur.push((i, j));
                rec(n, j + 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    rec(n, 0, &mut Vec::new(), &mut out);
    out
}

pub fn random_partition(n: usize, density: usize, rng: &mut Rng) -> Vec<Iv> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        if rng.chance(density, 10) {
            let w = if rng.chance(2, 3) { 1 } else { 1 + rng.below(4) };
            let j = (i + w - 1).min(n - 1);
            v.push((i, j));
            i = j + 1;
        } else {
            i += 1;
        }
    }
    v
}

pub fn build_partition(b: &Blocks, p: &[Iv], how: usize, rng: &mut Rng) -> Result<CharPartition, Error> {
    match how {
        0 => {
            let mut r = CharPartition::new();
            for &(i, j) in p {
                r.push(b.b[i].0, b.b[j].1);
            }
            Ok(r)
        }
        1 => {
            let mut v: Vec<CharSet> = p.iter().map(|&x| b.set(x)).collect();
            rng.shuffle(&mut v);
            CharPartition::try_from_iter(v.into_iter())
        }
        2 => {
            let mut v: Vec<CharSet> = p.iter().map(|&x| b.set(x)).collect();
            v.reverse();
            CharPartition::try_from_list(&v)
        }
        _ => {
            // from_set then push
            if p.is_empty() {
                Ok(CharPartition::default())
            } else {
                // or any other partition to begin with
                let k = if rng.chance(1, 2) { 1 } else { 1 + rng.below(p.len()) };
                let mut r = if k == 1 && rng.chance(3, 4) {
                    CharPartition::from_set(&b.set(p[0]))
                } else {
                    let r = CharPartition::try_from_iter(p[..k].iter().map(|&x| b.set(x)))?;
                    if rng.chance(1, 3) {
                        merge_partitions(&CharPartition::from_set(&b.set(p[k - 1])), &r)
                    } else {
                        r
                    }
                };
                let look = rng.chance(1, 2);
                for &(i, j) in &p[k..] {
                    // with questions in between
                    if look {
                        let x = b.b[i].0;
                        let _ = (r.class_of_char(x), r.class_of_char(MAX_CHAR), r.class_of_set(&CharSet::range(x, b.b[j].1)));
                        let _ = (r.num_classes(), r.picks().count(), r.interval_cover(&CharSet::singleton(x)));
                        if !r.empty_complement() {
                            let _ = r.pick_complement();
                        }
                        if rng.chance(1, 4) {
                            r = r.clone();
                        }
                    }
                    r.push(b.b[i].0, b.b[j].1);
                }
                Ok(r)
            }
        }
    }
}

fn class_code(c: ClassId) -> i64 {
    match c {
        ClassId::Interval(i) => i as i64,
        ClassId::Complement => -1,
    }
}

fn cover_code(c: CoverResult) -> i64 {
    match c {
        CoverResult::CoveredBy(i) => i as i64,
        CoverResult::DisjointFromAll => -1,
        CoverResult::Overlaps => -2,
    }
}

/// Intervals of a partition, as abstract pairs
fn abs_ranges(b: &Blocks, p: &CharPartition) -> J {
    J::A(p.ranges().map(|s| b.abs(s)).collect())
}

fn witness(b: &Blocks, w: u32) -> J {
    // MAX_CHAR + 1 stands for "none"
    J::I(if w == MAX_CHAR + 1 { -1 } else { b.point(w) })
}

/// Query sets derived from the abstract interval (i, j): the exact one and, if the blocks are
/// wide enough, sets that start or end inside a block
fn concrete_queries(b: &Blocks, q: Iv) -> Vec<CharSet> {
    let (a0, a1) = b.b[q.0];
    let (e0, e1) = b.b[q.1];
    let mut v = vec![CharSet::range(a0, e1)];
    let (la, he) = (a1, e0);
    if la <= e1 {
        v.push(CharSet::range(la, e1));
    }
    if a0 <= he {
        v.push(CharSet::range(a0, he));
    }
    if la <= he {
        v.push(CharSet::range(la, he));
    }
    v
}

fn partition_event(b: &Blocks, p: &[Iv], how: usize, queries: &[Iv], rng: &mut Rng) -> J {
    let n = b.n();
    let args = vec![("N", J::n(n)), ("p", jivs(p)), ("how", J::n(how))];
    let r = guard(
        || format!("partition {:?} built by {how}, blocks {:?}", p, b.b),
        || {
            let cp = match build_partition(b, p, how, rng) {
                Ok(cp) => cp,
                Err(_) => return None,
            };
            let cls: Vec<J> = (0..n)
                .map(|t| {
                    let v: Vec<i64> =
                        b.samples(t).iter().map(|&ch| class_code(cp.class_of_char(ch))).collect();
                    J::I(common(&v, -9))
                })
                .collect();
            let per = |f: &dyn Fn(&CharSet) -> i64| -> J {
                J::A(queries
                    .iter()
                    .map(|&q| {
                        let v: Vec<i64> = concrete_queries(b, q).iter().map(|s| f(s)).collect();
                        J::I(common(&v, -9))
                    })
                    .collect())
            };
            let cover = per(&|s| cover_code(cp.interval_cover(s)));
            let cset = per(&|s| match cp.class_of_set(s) {
                Ok(id) => class_code(id),
                Err(Error::AmbiguousCharSet) => -2,
                Err(_) => -8,
            });
            let good = per(&|s| cp.good_char_set(s) as i64);
            let len = cp.len();
            let pool: Vec<usize> = (0..len).collect();
            let gets: Vec<J> = pool
                .iter()
                .map(|&i| {
                    let (x, y) = cp.get(i);
                    if cp.start(i) == x && cp.end(i) == y && cp.interval(i) == CharSet::range(x, y) {
                        b.abs2(x, y)
                    } else {
                        J::ints(&[-9, -9])
                    }
                })
                .collect();
            let oob = {
                let m = MAX_CHAR + 1;
                let k = len + rng.below(3);
                cp.get(k) == (m, m) && cp.start(k) == m && cp.end(k) == m
            };
            let valid: Vec<J> =
                (0..len + 3).map(|i| J::b(cp.valid_class_id(ClassId::Interval(i)))).collect();
            let bad_pick = guard(String::new, || cp.pick_in_class(ClassId::Interval(len))).is_ok();
            let ids: Vec<ClassId> = cp.class_ids().collect();
            let pic: Vec<J> = ids
                .iter()
                .map(|&id| {
                    let x = cp.pick_in_class(id);
                    let ok = match id {
                        ClassId::Interval(i) => cp.pick(i) == x,
                        _ => cp.pick_complement() == x,
                    };
                    if ok {
                        J::I(b.point(x))
                    } else {
                        J::I(-9)
                    }
                })
                .collect();
            Some(vec![
                ("op", J::s("part")),
                ("N", J::n(n)),
                ("p", jivs(p)),
                ("how", J::n(how)),
                ("len", J::n(len)),
                ("isempty", J::b(cp.is_empty())),
                ("ivs", abs_ranges(b, &cp)),
                ("gets", J::A(gets)),
                ("oob", J::b(oob)),
                ("q", jivs(queries)),
                ("cls", J::A(cls)),
                ("cover", cover),
                ("cset", cset),
                ("good", good),
                ("comp", witness(b, cp.pick_complement())),
                ("ecomp", J::b(cp.empty_complement())),
                ("ncls", J::n(cp.num_classes())),
                ("valid", J::A(valid)),
                ("vcomp", J::b(cp.valid_class_id(ClassId::Complement))),
                ("ids", J::A(ids.iter().map(|&i| J::I(class_code(i))).collect())),
                ("picks", J::A(cp.picks().map(|x| J::I(b.point(x))).collect())),
                ("pic", J::A(pic)),
                ("badpick", J::b(bad_pick)),
                ("hint", {
                    let (a, z) = cp.class_ids().size_hint();
                    J::b(a <= ids.len() && z.is_none_or(|z| z >= ids.len()))
                }),
            ])
        },
    );
    match r {
        Ok(Some(v)) => J::O(v),
        Ok(None) => panicked("part: construction failed", args, ""),
        Err(m) => panicked("part", args, &m),
    }
}

/// char_set_next on an automaton whose initial state has partition p and one distinct successor
/// per class
fn csn_event(b: &Blocks, p: &[Iv], queries: &[Iv]) -> J {
    let n = b.n();
    let args = vec![("N", J::n(n)), ("p", jivs(p))];
    let r = guard(
        || format!("char_set_next {:?} blocks {:?}", p, b.b),
        || {
            let covered: usize = p.iter().map(|x| x.1 - x.0 + 1).sum();
            let full = covered == n;
            let mut ab = AutomatonBuilder::new(&0usize);
            for (i, &iv) in p.iter().enumerate() {
                ab.add_transition(&0, &b.set(iv), &(i + 1));
            }
            if !full {
                ab.set_default_successor(&0, &(p.len() + 1));
                ab.set_default_successor(&(p.len() + 1), &0);
            }
            for i in 1..p.len() + 1 {
                ab.set_default_successor(&i, &0);
            }
            let a = match ab.build() {
                Ok(a) => a,
                Err(_) => return None,
            };
            // state ids: learn them from next
            let init = a.initial_state();
            let mut id_class: Vec<(usize, i64)> = Vec::new();
            for (i, &iv) in p.iter().enumerate() {
                id_class.push((a.next(init, b.b[iv.0].0).id(), i as i64));
            }
            if !full {
                let t = (0..n).find(|t| !p.iter().any(|x| x.0 <= *t && *t <= x.1)).unwrap();
                id_class.push((a.next(init, b.b[t].0).id(), -1));
            }
            let ans: Vec<J> = queries
                .iter()
                .map(|&q| {
                    let v: Vec<i64> = concrete_queries(b, q)
                        .iter()
                        .map(|s| match a.char_set_next(init, s) {
                            Ok(st) => id_class.iter().find(|x| x.0 == st.id()).map_or(-7, |x| x.1),
                            Err(Error::AmbiguousCharSet) => -2,
                            Err(_) => -8,
                        })
                        .collect();
                    J::I(common(&v, -9))
                })
                .collect();
            Some(vec![
                ("op", J::s("csn")),
                ("N", J::n(n)),
                ("p", jivs(p)),
                ("q", jivs(queries)),
                ("ans", J::A(ans)),
            ])
        },
    );
    match r {
        Ok(Some(v)) => J::O(v),
        Ok(None) => panicked("csn: build failed", args, ""),
        Err(m) => panicked("csn", args, &m),
    }
}

pub fn c11(c: &mut Ctx) {
    let mut rng = c.rng(11);
    let n = c.q(6, 8);
    let nconc = c.q(6, 10);
    let concs: Vec<Blocks> = (0..nconc).map(|s| Blocks::new(n, s, &mut rng)).collect();
    let qs = intervals(n);
    let mut dd = Dedup(HashSet::new());
    for p in partitions(n) {
        if !c.mine() {
            continue;
        }
        for b in &concs {
            for how in 0..4 {
                c.calls += 6 * qs.len();
                let e = partition_event(b, &p, how, &qs, &mut rng);
                dd.emit(c, e);
            }
            c.calls += qs.len();
            let e = csn_event(b, &p, &qs);
            dd.emit(c, e);
        }
    }
    // try_from_iter / try_from_list on arbitrary lists
    let m = c.q(5, 6);
    let ivm = intervals(m);
    let concm: Vec<Blocks> = (0..5).map(|s| Blocks::new(m, s, &mut rng)).collect();
    let mut lists: Vec<Vec<Iv>> = vec![vec![]];
    for &x in &ivm {
        lists.push(vec![x]);
        for &y in &ivm {
            lists.push(vec![x, y]);
            for &z in &ivm {
                lists.push(vec![x, y, z]);
            }
        }
    }
    for _ in 0..c.q(600, 8000) {
        let mut v = random_partition(m, 8, &mut rng);
        for _ in 0..rng.below(2) {
            v.push(*rng.pick(&ivm));
        }
        rng.shuffle(&mut v);
        lists.push(v);
    }
    for l in &lists {
        if !c.mine() {
            continue;
        }
        for (k, b) in concm.iter().enumerate() {
            c.calls += 1;
            let v: Vec<CharSet> = l.iter().map(|&x| b.set(x)).collect();
            let e = guard(
                || format!("try_from {v:?}"),
                || {
                    if k % 2 == 0 {
                        CharPartition::try_from_iter(v.iter().copied())
                    } else {
                        CharPartition::try_from_list(&v)
                    }
                },
            );
            let e = match e {
                Ok(Ok(p)) => J::O(vec![
                    ("op", J::s("try")),
                    ("N", J::n(m)),
                    ("l", jivs(l)),
                    ("ok", J::I(1)),
                    ("ivs", abs_ranges(b, &p)),
                    ("comp", witness(b, p.pick_complement())),
                    ("ecomp", J::b(p.empty_complement())),
                ]),
                Ok(Err(e)) => J::O(vec![
                    ("op", J::s("try")),
                    ("N", J::n(m)),
                    ("l", jivs(l)),
                    ("ok", J::I(if e == Error::NonDisjointCharSets { 0 } else { 2 })),
                    ("ivs", J::A(vec![])),
                    ("comp", J::I(0)),
                    ("ecomp", J::I(0)),
                ]),
                Err(msg) => panicked("try", vec![("l", jivs(l))], &msg),
            };
            dd.emit(c, e);
        }
    }
    // large partitions
    for k in 0..c.q(40, 400) {
        let n = 12 + rng.below(30);
        let b = Blocks::new(n, k % 6, &mut rng);
        let d = 3 + rng.below(8);
        let p = random_partition(n, d, &mut rng);
        let all = intervals(n);
        let qs: Vec<Iv> = (0..60).map(|_| *rng.pick(&all)).collect();
        for how in 0..4 {
            c.calls += 6 * qs.len();
            let e = partition_event(&b, &p, how, &qs, &mut rng);
            c.emit(e);
        }
        let e = csn_event(&b, &p, &qs);
        c.emit(e);
    }
}

fn merge_event(b: &Blocks, p: &[Iv], q: &[Iv], rng: &mut Rng) -> J {
    let how = rng.below(4);
    let r = guard(
        || format!("merge {:?} {:?} blocks {:?}", p, q, b.b),
        || {
            let cp = build_partition(b, p, how, rng).unwrap();
            let cq = build_partition(b, q, 0, rng).unwrap();
            let m = merge_partitions(&cp, &cq);
            (abs_ranges(b, &m), witness(b, m.pick_complement()), m.empty_complement())
        },
    );
    match r {
        Ok((ivs, w, ec)) => J::O(vec![
            ("op", J::s("merge")),
            ("N", J::n(b.n())),
            ("ps", J::A(vec![jivs(p), jivs(q)])),
            ("ivs", ivs),
            ("comp", w),
            ("ecomp", J::b(ec)),
        ]),
        Err(m) => panicked("merge", vec![("ps", J::A(vec![jivs(p), jivs(q)]))], &m),
    }
}

fn mlist_event(b: &Blocks, ps: &[Vec<Iv>], rng: &mut Rng) -> J {
    let jps = J::A(ps.iter().map(|p| jivs(p)).collect());
    let r = guard(
        || format!("merge_partition_list {:?} blocks {:?}", ps, b.b),
        || {
            let v: Vec<CharPartition> =
                ps.iter().map(|p| build_partition(b, p, rng.below(4), rng).unwrap()).collect();
            let m = merge_partition_list(v.iter());
            (abs_ranges(b, &m), witness(b, m.pick_complement()), m.empty_complement())
        },
    );
    match r {
        Ok((ivs, w, ec)) => J::O(vec![
            ("op", J::s("merge")),
            ("N", J::n(b.n())),
            ("ps", jps),
            ("ivs", ivs),
            ("comp", w),
            ("ecomp", J::b(ec)),
        ]),
        Err(m) => panicked("merge list", vec![("ps", jps)], &m),
    }
}

pub fn c12(c: &mut Ctx) {
    let mut rng = c.rng(12);
    let n = c.q(5, 6);
    let concs: Vec<Blocks> = (0..5).map(|s| Blocks::new(n, s, &mut rng)).collect();
    let ps = partitions(n);
    let mut dd = Dedup(HashSet::new());
    for p in &ps {
        for q in &ps {
            if !c.mine() {
                continue;
            }
            for b in &concs {
                c.calls += 1;
                let e = merge_event(b, p, q, &mut rng);
                dd.emit(c, e);
            }
        }
    }
    // triples over a smaller alphabet (order independence: all permutations occur)
    let m = c.q(3, 4);
    let concm: Vec<Blocks> = (0..5).map(|s| Blocks::new(m, s, &mut rng)).collect();
    let pm = partitions(m);
    let mut lists: Vec<Vec<Vec<Iv>>> = vec![vec![]];
    for p in &pm {
        lists.push(vec![p.clone()]);
        for q in &pm {
            for r in &pm {
                lists.push(vec![p.clone(), q.clone(), r.clone()]);
            }
        }
    }
    for l in &lists {
        if !c.mine() {
            continue;
        }
        for b in &concm {
            c.calls += 1;
            let e = mlist_event(b, l, &mut rng);
            dd.emit(c, e);
        }
    }
    // larger random pairs and lists
    for k in 0..c.q(700, 6000) {
        let n = 7 + rng.below(18);
        let b = Blocks::new(n, k % 6, &mut rng);
        let len = if rng.chance(1, 2) { 2 } else { 3 + *rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 10, 13, 16]) };
        let d = 2 + rng.below(9);
        let v: Vec<Vec<Iv>> = (0..len)
            .map(|i| match rng.below(5) {
                // one interval of its own, so that no element of the list is redundant
                0 | 1 if len > 2 => vec![(i % n, i % n)],
                0 if len > 2 => vec![],
                _ => random_partition(n, d, &mut rng),
            })
            .collect();
        c.calls += 1;
        let e = if len == 2 && rng.chance(1, 2) {
            merge_event(&b, &v[0], &v[1], &mut rng)
        } else {
            mlist_event(&b, &v, &mut rng)
        };
        c.emit(e);
    }
}
