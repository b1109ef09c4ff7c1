//! Construction terms (the vocabulary of spec/RegLan.tla), generators, and a cost estimate.
use crate::util::*;
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::{SmtString, MAX_CHAR};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type TR = Rc<T>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum T {
    None,
    Eps,
    All,
    Any,
    Rng(u32, u32),
    Str(Vec<u32>),
    Cat(Vec<TR>),
    Alt(Vec<TR>),
    And(Vec<TR>),
    Not(TR),
    Diff(TR, Vec<TR>),
    Star(TR),
    Plus(TR),
    Opt(TR),
    Pow(TR, u32),
    Loop(TR, u32, Option<u32>),
}

pub fn capped(x: u32) -> i64 {
    // loop bounds: anything above 2^30 is logged as 2^30 (never generated in unrolled contexts)
    (x as i64).min(1 << 30)
}

impl T {
    pub fn json(&self) -> J {
        let l = |v: &Vec<TR>| J::A(v.iter().map(|t| t.json()).collect());
        let mk = |tag: &str, mut r: Vec<J>| {
            let mut v = vec![J::s(tag)];
            v.append(&mut r);
            J::A(v)
        };
        match self {
            T::None => mk("none", vec![]),
            T::Eps => mk("eps", vec![]),
            T::All => mk("all", vec![]),
            T::Any => mk("any", vec![]),
            T::Rng(a, b) => mk("rng", vec![J::u(*a), J::u(*b)]),
            T::Str(s) => mk("str", vec![J::word(s)]),
            T::Cat(v) => mk("cat", vec![l(v)]),
            T::Alt(v) => mk("alt", vec![l(v)]),
            T::And(v) => mk("and", vec![l(v)]),
            T::Not(t) => mk("not", vec![t.json()]),
            T::Diff(t, v) => mk("diff", vec![t.json(), l(v)]),
            T::Star(t) => mk("star", vec![t.json()]),
            T::Plus(t) => mk("plus", vec![t.json()]),
            T::Opt(t) => mk("opt", vec![t.json()]),
            T::Pow(t, k) => mk("pow", vec![t.json(), J::I(capped(*k))]),
            T::Loop(t, i, j) => mk(
                "loop",
                vec![t.json(), J::I(capped(*i)), J::I(j.map_or(-1, capped))],
            ),
        }
    }
    pub fn size(&self) -> usize {
        let l = |v: &Vec<TR>| v.iter().map(|t| t.size()).sum::<usize>();
        1 + match self {
            T::Str(s) => s.len() / 2,
            T::Cat(v) | T::Alt(v) | T::And(v) => l(v),
            T::Diff(t, v) => t.size() + l(v),
            T::Not(t) | T::Star(t) | T::Plus(t) | T::Opt(t) | T::Pow(t, _) | T::Loop(t, _, _) => t.size(),
            _ => 0,
        }
    }
}

// ------------------------------------------------------------- cost estimate
// A mirror of Norm/D of RegLan.tla. It never judges anything: it estimates how many residuals
// the specification will visit (to select terms) and proposes interesting words.

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum R {
    None,
    Eps,
    Rng(u32, u32),
    Cat(Rc<R>, Rc<R>),
    Alt(BTreeSet<Rc<R>>),
    And(BTreeSet<Rc<R>>),
    Not(Rc<R>),
    Loop(Rc<R>, i64, i64),
}

type RR = Rc<R>;

fn rnone() -> RR {
    Rc::new(R::None)
}
fn reps() -> RR {
    Rc::new(R::Eps)
}
fn rall() -> RR {
    Rc::new(R::Not(rnone()))
}
fn is_all(x: &R) -> bool {
    matches!(x, R::Not(y) if **y == R::None)
}
fn rnot(x: &RR) -> RR {
    match &**x {
        R::Not(y) => y.clone(),
        _ => Rc::new(R::Not(x.clone())),
    }
}
fn ralt(v: impl IntoIterator<Item = RR>) -> RR {
    let mut s = BTreeSet::new();
    for x in v {
        match &*x {
            R::Alt(t) => s.extend(t.iter().cloned()),
            R::None => {}
            _ => {
                s.insert(x);
            }
        }
    }
    if s.iter().any(|x| is_all(x)) {
        return rall();
    }
    match s.len() {
        0 => rnone(),
        1 => s.into_iter().next().unwrap(),
        _ => Rc::new(R::Alt(s)),
    }
}
fn rand_(v: impl IntoIterator<Item = RR>) -> RR {
    let mut s = BTreeSet::new();
    for x in v {
        match &*x {
            R::And(t) => s.extend(t.iter().cloned()),
            y if is_all(y) => {}
            _ => {
                s.insert(x);
            }
        }
    }
    if s.iter().any(|x| **x == R::None) {
        return rnone();
    }
    match s.len() {
        0 => rall(),
        1 => s.into_iter().next().unwrap(),
        _ => Rc::new(R::And(s)),
    }
}
fn rcat(x: &RR, y: &RR) -> RR {
    match (&**x, &**y) {
        (R::None, _) | (_, R::None) => rnone(),
        (R::Eps, _) => y.clone(),
        (_, R::Eps) => x.clone(),
        (R::Cat(a, b), _) => rcat(a, &rcat(b, y)),
        (R::Alt(s), _) => ralt(s.iter().map(|z| rcat(z, y))),
        (a, b) if is_all(a) && is_all(b) => x.clone(),
        _ => Rc::new(R::Cat(x.clone(), y.clone())),
    }
}
fn rloop(x: &RR, i: i64, j: i64) -> RR {
    if j != -1 && i > j {
        rnone()
    } else if j == 0 {
        reps()
    } else if i == 1 && j == 1 {
        x.clone()
    } else {
        match &**x {
            R::None => {
                if i == 0 {
                    reps()
                } else {
                    rnone()
                }
            }
            R::Eps => reps(),
            _ => Rc::new(R::Loop(x.clone(), i, j)),
        }
    }
}
pub fn norm(t: &T) -> RR {
    match t {
        T::None => rnone(),
        T::Eps => reps(),
        T::All => rall(),
        T::Any => Rc::new(R::Rng(0, MAX_CHAR)),
        T::Rng(a, b) => {
            if a > b {
                rnone()
            } else {
                Rc::new(R::Rng(*a, *b))
            }
        }
        T::Str(s) => s.iter().rev().fold(reps(), |r, &c| rcat(&Rc::new(R::Rng(c, c)), &r)),
        T::Cat(v) => v.iter().rev().fold(reps(), |r, x| rcat(&norm(x), &r)),
        T::Alt(v) => ralt(v.iter().map(|x| norm(x))),
        T::And(v) => rand_(v.iter().map(|x| norm(x))),
        T::Not(x) => rnot(&norm(x)),
        T::Diff(x, v) => rand_(std::iter::once(norm(x)).chain(v.iter().map(|y| rnot(&norm(y))))),
        T::Star(x) => rloop(&norm(x), 0, -1),
        T::Plus(x) => rloop(&norm(x), 1, -1),
        T::Opt(x) => ralt([reps(), norm(x)]),
        T::Pow(x, k) => rloop(&norm(x), *k as i64, *k as i64),
        T::Loop(x, i, j) => rloop(&norm(x), *i as i64, j.map_or(-1, |j| j as i64)),
    }
}
pub fn nul(r: &R) -> bool {
    match r {
        R::None | R::Rng(..) => false,
        R::Eps => true,
        R::Cat(x, y) => nul(x) && nul(y),
        R::Alt(s) => s.iter().any(|x| nul(x)),
        R::And(s) => s.iter().all(|x| nul(x)),
        R::Not(x) => !nul(x),
        R::Loop(x, i, _) => *i == 0 || nul(x),
    }
}
fn dec(n: i64) -> i64 {
    if n == -1 {
        -1
    } else {
        (n - 1).max(0)
    }
}
pub fn dr(c: u32, r: &RR) -> RR {
    match &**r {
        R::None | R::Eps => rnone(),
        R::Rng(a, b) => {
            if *a <= c && c <= *b {
                reps()
            } else {
                rnone()
            }
        }
        R::Cat(x, y) => {
            let d = rcat(&dr(c, x), y);
            if nul(x) {
                ralt([d, dr(c, y)])
            } else {
                d
            }
        }
        R::Alt(s) => ralt(s.iter().map(|x| dr(c, x))),
        R::And(s) => rand_(s.iter().map(|x| dr(c, x))),
        R::Not(x) => rnot(&dr(c, x)),
        R::Loop(x, i, j) => rcat(&dr(c, x), &rloop(x, dec(*i), dec(*j))),
    }
}
pub fn rsize(r: &R) -> usize {
    1 + match r {
        R::Cat(x, y) => rsize(x) + rsize(y),
        R::Alt(s) | R::And(s) => s.iter().map(|x| rsize(x)).sum(),
        R::Not(x) | R::Loop(x, _, _) => rsize(x),
        _ => 0,
    }
}
fn rcuts(r: &R, o: &mut BTreeSet<u32>) {
    match r {
        R::Rng(a, b) => {
            o.insert(*a);
            if *b < MAX_CHAR {
                o.insert(*b + 1);
            }
        }
        R::Cat(x, y) => {
            rcuts(x, o);
            rcuts(y, o);
        }
        R::Alt(s) | R::And(s) => s.iter().for_each(|x| rcuts(x, o)),
        R::Not(x) | R::Loop(x, _, _) => rcuts(x, o),
        _ => {}
    }
}
/// Left end points of the cells on which all residuals of r are uniform (starts with 0)
pub fn cells(r: &R) -> Vec<u32> {
    let mut s = BTreeSet::new();
    s.insert(0);
    rcuts(r, &mut s);
    s.into_iter().collect()
}

pub struct Cost {
    pub states: usize,
    /// sum of the sizes of the residuals
    pub weight: usize,
    /// shortest access words of the residuals
    pub access: Vec<Vec<u32>>,
    pub nonempty: bool,
    pub final_words: Vec<Vec<u32>>,
}

/// Explore the residuals of r; None if there are more than max_states or they are too big
pub fn cost(r: &RR, letters: &[u32], max_states: usize, max_weight: usize) -> Option<Cost> {
    let mut seen: HashMap<RR, usize> = HashMap::new();
    let mut order: Vec<(RR, Vec<u32>)> = vec![(r.clone(), vec![])];
    seen.insert(r.clone(), 0);
    let mut i = 0;
    let mut weight = 0;
    let mut finals = Vec::new();
    while i < order.len() {
        let (x, w) = order[i].clone();
        weight += rsize(&x);
        if weight > max_weight {
            return None;
        }
        if nul(&x) && finals.len() < 6 {
            finals.push(w.clone());
        }
        for &c in letters {
            let d = dr(c, &x);
            if !seen.contains_key(&d) {
                seen.insert(d.clone(), order.len());
                if order.len() >= max_states {
                    return None;
                }
                let mut w2 = w.clone();
                w2.push(c);
                order.push((d, w2));
            }
        }
        i += 1;
    }
    Some(Cost {
        states: order.len(),
        weight,
        nonempty: !finals.is_empty(),
        final_words: finals,
        access: order.into_iter().map(|x| x.1).collect(),
    })
}

// ------------------------------------------------------------- API under test

/// Where terms are built: an own ReManager or the thread-local one behind the wrappers
pub enum M {
    Own(Box<ReManager>),
    Wrap,
}

pub fn smt(w: &[u32]) -> SmtString {
    SmtString::from(w)
}

impl M {
    pub fn own() -> M {
        M::Own(Box::new(ReManager::new()))
    }
    /// a manager that has built a few thousands of terms already
    pub fn aged(r: &mut Rng) -> M {
        let mut m = Box::new(ReManager::new());
        let n = *r.pick(&[130u32, 520, 1100, 2100, 4200, 9000, 33500]);
        let base = r.below(150000) as u32;
        let mut prev = m.epsilon();
        for i in 0..n {
            let c = m.char(base + i);
            match r.below(6) {
                0 => {
                    prev = m.complement(c);
                }
                1 => {
                    let s = m.star(c);
                    m.union(prev, s);
                }
                2 => {
                    let p = m.concat(prev, c);
                    m.char_derivative(p, base + i);
                    if i % 8 == 0 {
                        m.is_empty_re(p);
                    }
                    prev = if i % 5 == 0 { c } else { p };
                    if i % 5 != 0 && i % 3 == 0 {
                        prev = c;
                    }
                }
                _ => {}
            }
        }
        M::Own(m)
    }
    pub fn mgr(&mut self) -> &mut ReManager {
        match self {
            M::Own(m) => m,
            M::Wrap => panic!("no manager"),
        }
    }
    pub fn is_wrap(&self) -> bool {
        matches!(self, M::Wrap)
    }
    pub fn member(&mut self, s: &[u32], e: RegLan) -> bool {
        match self {
            M::Own(m) => m.str_in_re(&smt(s), e),
            M::Wrap => w::str_in_re(&smt(s), e),
        }
    }

    /// Apply the top constructor of t to the handles of its arguments. Several API calls denote
    /// the same construction: r picks one.
    pub fn apply(&mut self, t: &T, k: &[RegLan], r: &mut Rng) -> RegLan {
        let v = k.to_vec();
        match self {
            M::Own(m) => match t {
                T::None => match r.below(4) {
                    0 => m.smt_range(&smt(&[98]), &smt(&[97])),
                    1 => m.smt_range(&smt(&[]), &smt(&[97])),
                    2 => m.smt_range(&smt(&[97, 98]), &smt(&[99])),
                    _ => m.empty(),
                },
                T::Eps => match r.below(3) {
                    0 => m.str(&smt(&[])),
                    1 => m.concat_list(vec![]),
                    _ => m.epsilon(),
                },
                T::All => match r.below(3) {
                    0 => m.inter_list(vec![]),
                    _ => m.full(),
                },
                T::Any => match r.below(4) {
                    0 => m.range(0, MAX_CHAR),
                    1 => m.char_set(CharSet::all_chars()),
                    2 => m.smt_range(&smt(&[0]), &smt(&[MAX_CHAR])),
                    _ => m.all_chars(),
                },
                T::Rng(a, b) => {
                    if a > b {
                        m.smt_range(&smt(&[*a]), &smt(&[*b]))
                    } else if a == b {
                        match r.below(4) {
                            0 => m.char(*a),
                            1 => m.str(&smt(&[*a])),
                            2 => m.char_set(CharSet::singleton(*a)),
                            _ => m.range(*a, *b),
                        }
                    } else {
                        match r.below(3) {
                            0 => m.range(*a, *b),
                            1 => m.char_set(CharSet::range(*a, *b)),
                            _ => m.smt_range(&smt(&[*a]), &smt(&[*b])),
                        }
                    }
                }
                T::Str(s) => m.str(&smt(s)),
                T::Cat(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        m.concat(v[0], v[1])
                    } else {
                        m.concat_list(v)
                    }
                }
                T::Alt(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        m.union(v[0], v[1])
                    } else {
                        m.union_list(v)
                    }
                }
                T::And(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        m.inter(v[0], v[1])
                    } else {
                        m.inter_list(v)
                    }
                }
                T::Not(_) => m.complement(v[0]),
                T::Diff(..) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        m.diff(v[0], v[1])
                    } else {
                        m.diff_list(v[0], v[1..].to_vec())
                    }
                }
                T::Star(x) => match r.below(4) {
                    0 => m.mk_loop(v[0], LoopRange::star()),
                    1 => m.mk_loop(v[0], LoopRange::infinite(0)),
                    _ => {
                        let _ = x;
                        m.star(v[0])
                    }
                },
                T::Plus(x) => match r.below(4) {
                    0 => m.mk_loop(v[0], LoopRange::plus()),
                    1 => {
                        if **x == T::Any {
                            m.sigma_plus()
                        } else {
                            m.mk_loop(v[0], LoopRange::infinite(1))
                        }
                    }
                    _ => m.plus(v[0]),
                },
                T::Opt(_) => match r.below(4) {
                    0 => m.mk_loop(v[0], LoopRange::opt()),
                    1 => m.smt_loop(v[0], 0, 1),
                    _ => m.opt(v[0]),
                },
                T::Pow(_, n) => match r.below(4) {
                    0 => m.mk_loop(v[0], LoopRange::point(*n)),
                    1 => m.smt_loop(v[0], *n, *n),
                    _ => m.exp(v[0], *n),
                },
                T::Loop(_, i, j) => match j {
                    None => m.mk_loop(v[0], LoopRange::infinite(*i)),
                    Some(j) => {
                        if i > j || r.chance(1, 2) {
                            m.smt_loop(v[0], *i, *j)
                        } else {
                            m.mk_loop(v[0], LoopRange::finite(*i, *j))
                        }
                    }
                },
            },
            M::Wrap => match t {
                T::None => match r.below(3) {
                    0 => w::re_range(&smt(&[98]), &smt(&[97])),
                    1 => w::re_range(&smt(&[97, 98]), &smt(&[99])),
                    _ => w::re_none(),
                },
                T::Eps => match r.below(2) {
                    0 => w::str_to_re(&smt(&[])),
                    _ => w::re_concat_list(vec![]),
                },
                T::All => w::re_all(),
                T::Any => w::re_allchar(),
                T::Rng(a, b) => {
                    if a == b && r.chance(1, 2) {
                        w::str_to_re(&smt(&[*a]))
                    } else {
                        w::re_range(&smt(&[*a]), &smt(&[*b]))
                    }
                }
                T::Str(s) => w::str_to_re(&smt(s)),
                T::Cat(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        w::re_concat(v[0], v[1])
                    } else {
                        w::re_concat_list(v)
                    }
                }
                T::Alt(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        w::re_union(v[0], v[1])
                    } else {
                        w::re_union_list(v)
                    }
                }
                T::And(_) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        w::re_inter(v[0], v[1])
                    } else {
                        w::re_inter_list(v)
                    }
                }
                T::Not(_) => w::re_comp(v[0]),
                T::Diff(..) => {
                    if v.len() == 2 && r.chance(3, 4) {
                        w::re_diff(v[0], v[1])
                    } else {
                        w::re_diff_list(v[0], v[1..].to_vec())
                    }
                }
                T::Star(_) => w::re_star(v[0]),
                T::Plus(_) => w::re_plus(v[0]),
                T::Opt(_) => {
                    if r.chance(1, 3) {
                        w::re_loop(v[0], 0, 1)
                    } else {
                        w::re_opt(v[0])
                    }
                }
                T::Pow(_, n) => {
                    if r.chance(1, 3) {
                        w::re_loop(v[0], *n, *n)
                    } else {
                        w::re_power(v[0], *n)
                    }
                }
                T::Loop(_, i, j) => match j {
                    // no unbounded loop in SMT-LIB: R^i . R*
                    None => {
                        let p = w::re_power(v[0], *i);
                        let s = w::re_star(v[0]);
                        w::re_concat(p, s)
                    }
                    Some(j) => w::re_loop(v[0], *i, *j),
                },
            },
        }
    }

    /// Build t bottom-up (sharing handles of equal sub-terms)
    pub fn build(&mut self, t: &T, r: &mut Rng) -> RegLan {
        let kids = children(t);
        let k: Vec<RegLan> = kids.iter().map(|x| self.build(x, r)).collect();
        self.apply(t, &k, r)
    }
}

pub fn children(t: &T) -> Vec<TR> {
    match t {
        T::Cat(v) | T::Alt(v) | T::And(v) => v.clone(),
        T::Diff(x, v) => {
            let mut r = vec![x.clone()];
            r.extend(v.iter().cloned());
            r
        }
        T::Not(x) | T::Star(x) | T::Plus(x) | T::Opt(x) | T::Pow(x, _) | T::Loop(x, _, _) => vec![x.clone()],
        _ => vec![],
    }
}

// ------------------------------------------------------------- generators

/// A term and its handle
#[derive(Clone)]
pub struct B {
    pub t: TR,
    pub e: RegLan,
}

/// Cut points of the alphabet used by the atoms of one episode
pub fn palette(r: &mut Rng) -> Vec<(u32, u32)> {
    // (start, end) of consecutive or separated cells
    let mut cuts: Vec<u32> = match r.below(12) {
        0 | 1 | 2 => vec![97, 98, 99, 100],
        3 => vec![0, 1, 2],
        4 => vec![MAX_CHAR - 1, MAX_CHAR],
        5 => vec![0, 48, 58, MAX_CHAR],
        6 => vec![1, MAX_CHAR - 1],
        7 => {
            let x = r.below(196000) as u32;
            vec![x, x + 1, x + 5]
        }
        // around powers of two
        8 | 9 => {
            let x = 1u32 << *r.pick(&[7usize, 7, 8, 8, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17]);
            let lo = *r.pick(&[1u32, 1, 3, 28]);
            vec![x - lo, x, x + 1]
        }
        // clusters with small gaps
        10 => {
            let mut x = *r.pick(&[97u32, 0, 120, 250, 65530]) + r.below(4) as u32;
            (0..4 + r.below(2))
                .map(|_| {
                    let y = x;
                    x += 1 + r.below(6) as u32;
                    y
                })
                .collect()
        }
        _ => {
            let mut v: Vec<u32> = (0..2 + r.below(2)).map(|_| r.below(196600) as u32).collect();
            v.sort_unstable();
            v.dedup();
            v
        }
    };
    if r.chance(1, 3) {
        cuts.truncate(2 + r.below(2));
    }
    let mut v = Vec::new();
    for (i, &a) in cuts.iter().enumerate() {
        v.push((a, a));
        for &b in &cuts[i + 1..] {
            v.push((a, b));
            if b > a + 1 && b < MAX_CHAR {
                v.push((a, b - 1));
            }
            if r.chance(1, 4) {
                v.push((a, MAX_CHAR));
                v.push((0, b));
            }
        }
    }
    v
}

pub fn loop_range(r: &mut Rng) -> (u32, Option<u32>) {
    *r.pick(&[
        (0, Some(0)),
        (1, Some(1)),
        (0, Some(1)),
        (0, Some(2)),
        (0, Some(3)),
        (1, Some(2)),
        (1, Some(3)),
        (2, Some(2)),
        (2, Some(3)),
        (3, Some(3)),
        (2, Some(4)),
        (3, Some(4)),
        (0, None),
        (1, None),
        (2, None),
        (3, None),
        (3, Some(2)),
        (1, Some(0)),
        (4, Some(5)),
    ])
}

pub fn atom(p: &[(u32, u32)], r: &mut Rng) -> TR {
    Rc::new(match r.below(24) {
        0 => T::None,
        1 => T::Eps,
        2 => T::All,
        3 | 4 => T::Any,
        5 => {
            let any = Rc::new(T::Any);
            match r.below(4) {
                0 | 1 => T::Plus(any),
                2 => T::Loop(any, 2 + r.below(2) as u32, None),
                _ => {
                    let (i, j) = loop_range(r);
                    T::Loop(any, i, j)
                }
            }
        }
        6 => {
            let k = r.below(4);
            T::Str((0..k).map(|_| r.pick(p).0).collect())
        }
        _ => {
            let (a, b) = *r.pick(p);
            T::Rng(a, b)
        }
    })
}

/// One random constructor application. `pick` selects an argument.
pub fn compose(pool: &[TR], r: &mut Rng) -> TR {
    let n = pool.len();
    let pick = |r: &mut Rng| -> TR {
        // bias: recent terms
        if r.chance(1, 2) {
            pool[n - 1 - r.below(n.min(4))].clone()
        } else {
            pool[r.below(n)].clone()
        }
    };
    let x = pick(r);
    let y = pick(r);
    let z = pick(r);
    let lp = |t: TR, r: &mut Rng| -> TR {
        let (i, j) = loop_range(r);
        Rc::new(T::Loop(t, i, j))
    };
    Rc::new(match r.below(38) {
        // nullable operands
        34 => {
            let l = if r.chance(1, 2) { lp(Rc::new(T::Any), r) } else { y };
            let u = Rc::new(T::Alt(vec![Rc::new(T::Eps), l]));
            let o = Rc::new(if r.chance(1, 2) { T::Opt(x) } else { T::Star(x) });
            match r.below(4) {
                0 => T::Cat(vec![u, o]),
                1 => T::Cat(vec![o, u, z]),
                _ => T::Cat(vec![o, u]),
            }
        }
        35 => T::Alt(vec![Rc::new(T::Eps), x]),
        36 => T::Cat(vec![Rc::new(T::Opt(x)), y]),
        37 => T::Cat(vec![x, Rc::new(T::Opt(y)), Rc::new(T::Star(z))]),
        0..=3 => T::Cat(vec![x, y]),
        4..=6 => T::Alt(vec![x, y]),
        7..=9 => T::And(vec![x, y]),
        10 | 11 => T::Not(x),
        12 => T::Diff(x, vec![y]),
        13 => T::Star(x),
        14 => T::Plus(x),
        15 => T::Opt(x),
        16 => T::Pow(x, r.below(4) as u32),
        17 | 18 => {
            let (i, j) = loop_range(r);
            T::Loop(x, i, j)
        }
        // rules of concat: R.R, R.R^[i,j], R^[i,j].R, R^[..].R^[..], R.(R.S), R.(R^[..].S)
        19 => T::Cat(vec![x.clone(), x]),
        20 => {
            let l = lp(x.clone(), r);
            T::Cat(vec![x, l])
        }
        21 => {
            let l = lp(x.clone(), r);
            T::Cat(vec![l, x])
        }
        22 => {
            let l = lp(x.clone(), r);
            let m = lp(x, r);
            T::Cat(vec![l, m])
        }
        23 => T::Cat(vec![x.clone(), Rc::new(T::Cat(vec![x, y]))]),
        24 => {
            let l = lp(x.clone(), r);
            let m = lp(x, r);
            T::Cat(vec![l, Rc::new(T::Cat(vec![m, y]))])
        }
        // loop of loop
        25 => {
            let l = lp(x, r);
            let (i, j) = loop_range(r);
            T::Loop(l, i, j)
        }
        // complement pairs
        26 => {
            let nx = Rc::new(T::Not(x.clone()));
            match r.below(4) {
                0 => T::Alt(vec![x, nx]),
                1 => T::And(vec![x, nx]),
                2 => T::Alt(vec![y, nx, x]),
                _ => T::And(vec![nx, y, x]),
            }
        }
        // lists
        27 => T::Alt(vec![x, y, z]),
        28 => T::And(vec![x, y, z]),
        29 => T::Cat(vec![x, y, z]),
        30 => {
            let k = r.below(5);
            let v: Vec<TR> = (0..k).map(|_| pick(r)).collect();
            match r.below(4) {
                0 => T::Alt(v),
                1 => T::And(v),
                2 => T::Cat(v),
                _ => T::Diff(x, v),
            }
        }
        31 => T::Not(Rc::new(T::Cat(vec![x, y]))),
        32 => T::Alt(vec![x.clone(), Rc::new(T::Cat(vec![x, y]))]),
        _ => T::And(vec![Rc::new(T::Not(x)), Rc::new(T::Not(y))]),
    })
}

/// Concatenations in the style of the subsumption rules: Sigma*, ranges, loops, negations, ...
pub fn pattern(p: &[(u32, u32)], r: &mut Rng) -> TR {
    let n = 1 + r.below(5);
    let any = Rc::new(T::Any);
    let v: Vec<TR> = (0..n)
        .map(|_| {
            let (a, b) = *r.pick(p);
            let c = Rc::new(T::Rng(a, b));
            match r.below(16) {
                0..=4 => Rc::new(T::All),
                5 => any.clone(),
                6..=9 => c,
                10 => Rc::new(T::Opt(c)),
                11 => Rc::new(T::Star(c)),
                12 => Rc::new(T::Plus(any.clone())),
                13 => {
                    let (i, j) = loop_range(r);
                    Rc::new(T::Loop(if r.chance(1, 2) { c } else { any.clone() }, i, j))
                }
                14 => Rc::new(T::Not(c)),
                _ => {
                    let (d, _) = *r.pick(p);
                    let e = Rc::new(T::Rng(d, d));
                    if r.chance(1, 2) {
                        Rc::new(T::Alt(vec![c, e]))
                    } else {
                        Rc::new(T::Str(vec![a, d]))
                    }
                }
            }
        })
        .collect();
    Rc::new(T::Cat(v))
}

/// Combinations of literals: words, powers and loops of words, unions of words, words in context
pub fn wordy(p: &[(u32, u32)], r: &mut Rng) -> TR {
    let word = |r: &mut Rng| -> TR {
        let n = 1 + r.below(3);
        Rc::new(T::Str((0..n).map(|_| r.pick(p).0).collect()))
    };
    let item = |r: &mut Rng| -> TR {
        let x = word(r);
        match r.below(10) {
            0..=2 => x,
            3 | 4 => Rc::new(T::Pow(x, 2 + r.below(2) as u32)),
            5 => {
                let (i, j) = loop_range(r);
                Rc::new(T::Loop(x, i, j))
            }
            6 => Rc::new(T::Star(x)),
            7 => Rc::new(T::Alt(vec![x, word(r)])),
            8 => Rc::new(T::Opt(x)),
            _ => {
                let (a, b) = *r.pick(p);
                Rc::new(T::Rng(a, b))
            }
        }
    };
    let cat = |r: &mut Rng| -> TR {
        let n = 1 + r.below(3);
        Rc::new(T::Cat((0..n).map(|_| item(r)).collect()))
    };
    let ctx = |r: &mut Rng| -> TR {
        let (a, b) = *r.pick(p);
        let x = Rc::new(T::Rng(a, b));
        Rc::new(match r.below(4) {
            0 => T::Cat(vec![x, Rc::new(T::All)]),
            1 => T::Cat(vec![Rc::new(T::All), x]),
            2 => T::Cat(vec![Rc::new(T::Any), Rc::new(T::Any), Rc::new(T::All)]),
            _ => T::Not(cat(r)),
        })
    };
    match r.below(6) {
        0 => cat(r),
        1 => Rc::new(T::Alt(vec![cat(r), cat(r)])),
        2 => Rc::new(T::And(vec![Rc::new(T::Alt(vec![cat(r), cat(r)])), ctx(r)])),
        3 => Rc::new(T::And(vec![ctx(r), cat(r), ctx(r)])),
        4 => Rc::new(T::And(vec![Rc::new(T::Alt(vec![cat(r), item(r), cat(r)])), ctx(r), ctx(r)])),
        _ => Rc::new(T::Star(cat(r))),
    }
}

/// Two terms, the first of which is often (nearly) included in the second, in equal contexts
pub fn related(p: &[(u32, u32)], r: &mut Rng) -> (TR, TR) {
    let rng = |r: &mut Rng| {
        let (a, b) = *r.pick(p);
        Rc::new(T::Rng(a, b))
    };
    let (mut x, mut y) = match r.below(15) {
        // loops of powers: how many x make one y?
        12 | 13 => {
            let (a, b) = *r.pick(p);
            let x = Rc::new(T::Rng(a, a));
            let x2 = if r.chance(1, 2) { x.clone() } else { Rc::new(T::Rng(a, b)) };
            let k = 2 + r.below(2) as u32;
            let pw = Rc::new(if r.chance(1, 2) { T::Pow(x2, k) } else { T::Cat(vec![x2; k as usize]) });
            let y = match r.below(4) {
                0 => pw,
                1 => Rc::new(T::Opt(pw)),
                _ => Rc::new(T::Alt(vec![pw, rng(r)])),
            };
            let (i, j) = loop_range(r);
            let (d, e) = loop_range(r);
            let left = if r.chance(1, 2) { T::Pow(x, k * (1 + r.below(2) as u32)) } else { T::Loop(x, d, e) };
            (Rc::new(left), Rc::new(T::Loop(y, i, j)))
        }

        0 | 1 => {
            let (a, b) = *r.pick(p);
            (Rc::new(T::Rng(a, a)), Rc::new(T::Rng(a, b)))
        }
        2 => {
            let x = wordy(p, r);
            let y = Rc::new(T::Alt(vec![x.clone(), wordy(p, r)]));
            (x, y)
        }
        3 => {
            let c = rng(r);
            let (i, j) = loop_range(r);
            let (k, l) = loop_range(r);
            (Rc::new(T::Loop(c.clone(), i, j)), Rc::new(T::Loop(c, k, l)))
        }
        4 => {
            let n = 1 + r.below(3);
            let s: Vec<u32> = (0..n).map(|_| r.pick(p).0).collect();
            let v: Vec<TR> = s
                .iter()
                .map(|&c| if r.chance(1, 3) { Rc::new(T::Any) } else { Rc::new(T::Rng(c, c)) })
                .collect();
            (Rc::new(T::Str(s)), Rc::new(T::Cat(v)))
        }
        5 => (rng(r), Rc::new(T::Any)),
        6 => (atom(p, r), atom(p, r)),
        7 => {
            let x = atom(p, r);
            let y = match r.below(4) {
                0 => T::Star(x.clone()),
                1 => T::Plus(x.clone()),
                2 => T::Opt(x.clone()),
                _ => T::Loop(x.clone(), 1, Some(3)),
            };
            (x, Rc::new(y))
        }
        _ => {
            let x = pattern(p, r);
            let y = widen(&x, p, r);
            (x, y)
        }
    };
    for _ in 0..r.below(4) {
        if x.size() + y.size() > 30 {
            break;
        }
        let z = if r.chance(1, 2) { rng(r) } else { atom(p, r) };
        let kind = r.below(11);
        let (i, j) = loop_range(r);
        let f = |t: &TR| -> TR {
            let t = t.clone();
            Rc::new(match kind {
                0..=2 => T::Not(t),
                3 => T::Cat(vec![z.clone(), t]),
                4 => T::Cat(vec![t, z.clone()]),
                5 => T::Alt(vec![t, z.clone()]),
                6 => T::And(vec![t, z.clone()]),
                7 => T::Loop(t, i, j),
                8 => T::Cat(vec![Rc::new(T::All), t]),
                9 => T::Diff(t, vec![z.clone()]),
                _ => T::Cat(vec![t, Rc::new(T::All)]),
            })
        };
        x = f(&x);
        y = f(&y);
    }
    (x, y)
}

/// Terms with a few hundreds of derivatives
pub fn big_term(r: &mut Rng) -> TR {
    let lo = *r.pick(&[97u32, 97, 0, 65000, MAX_CHAR - 3]);
    let ch = |i: u32| Rc::new(T::Rng(lo + i, lo + i));
    let (a, b) = (ch(0), ch(1));
    let ab = Rc::new(T::Rng(lo, lo + 1));
    let base = |r: &mut Rng| -> TR {
        match r.below(6) {
            0 => a.clone(),
            1 => ab.clone(),
            2 => Rc::new(T::Any),
            3 => Rc::new(T::Str(vec![lo, lo + 1])),
            4 => Rc::new(T::Alt(vec![a.clone(), Rc::new(T::Str(vec![lo + 1, lo + 1]))])),
            _ => Rc::new(T::Cat(vec![ab.clone(), a.clone()])),
        }
    };
    let n = *r.pick(&[151u32, 200, 255, 256, 257, 300, 400, 511, 513]);
    let long = |r: &mut Rng| -> TR {
        let x = base(r);
        match r.below(4) {
            0 | 1 => Rc::new(T::Pow(x, n)),
            2 => Rc::new(T::Loop(x, n, None)),
            _ => Rc::new(T::Loop(x, n - 1 - r.below(5) as u32, Some(n + r.below(6) as u32))),
        }
    };
    let x = long(r);
    let y = long(r);
    match r.below(16) {
        // no dead end before a late witness
        12 => {
            let v = vec![
                Rc::new(T::Pow(Rc::new(T::Any), n + r.below(200) as u32)),
                Rc::new(T::Str(vec![lo, lo + 1, lo])),
            ];
            Rc::new(T::Cat(v))
        }
        // wide loops
        13 => {
            let m = *r.pick(&[1000u32, 1000, 1024, 1001, 999, 512, 256, 1100]);
            let i = *r.pick(&[0u32, 0, 1, 2, 60]);
            Rc::new(T::Loop(base(r), i, Some(i + m)))
        }
        14 | 15 => run_term(r),
        0 | 1 => x,
        2 => Rc::new(T::Cat(vec![x, b])),
        3 => Rc::new(T::And(vec![x, y])),
        4 => Rc::new(T::Diff(x, vec![y])),
        5 => Rc::new(T::And(vec![x, Rc::new(T::Not(y)), Rc::new(T::Cat(vec![Rc::new(T::All), a]))])),
        // the k-th character from the end
        6 | 7 => {
            let k = 7 + r.below(2) as u32;
            Rc::new(T::Cat(vec![Rc::new(T::Star(ab.clone())), a, Rc::new(T::Pow(ab, k))]))
        }
        // common multiples
        8 | 9 => {
            let (p, q) = *r.pick(&[(15u32, 17u32), (16, 19), (13, 32), (16, 16), (20, 15)]);
            let u = Rc::new(T::Star(Rc::new(T::Pow(a.clone(), p))));
            let v = Rc::new(T::Star(Rc::new(T::Pow(a.clone(), q))));
            if r.chance(1, 2) {
                Rc::new(T::And(vec![u, v, Rc::new(T::Plus(a))]))
            } else {
                Rc::new(T::Diff(u, vec![v, Rc::new(T::Eps)]))
            }
        }
        // a long literal
        10 => {
            let s: Vec<u32> = (0..180 + r.below(120)).map(|_| lo + r.below(3) as u32).collect();
            Rc::new(T::Str(s))
        }
        // many words
        _ => {
            let v: Vec<TR> = (0..60 + r.below(30))
                .map(|_| Rc::new(T::Str((0..3 + r.below(4)).map(|_| lo + r.below(3) as u32).collect())))
                .collect();
            Rc::new(T::Alt(v))
        }
    }
}

/// Loops with many iterations
pub fn long_loop(r: &mut Rng) -> TR {
    let lo = *r.pick(&[97u32, 0, 128, MAX_CHAR - 1]);
    let x = Rc::new(T::Rng(lo, lo + r.below(2) as u32));
    let m = *r.pick(&[1000u32, 1000, 1023, 1024, 1025, 512, 256, 255, 1100]);
    let i = *r.pick(&[0u32, 0, 0, 1, 2, 60]);
    Rc::new(match r.below(4) {
        0 => T::Loop(x, i + m, None),
        1 => T::Pow(x, m),
        _ => T::Loop(x, i, Some(i + m)),
    })
}

/// Literals with long runs of one character
pub fn run_term(r: &mut Rng) -> TR {
    let lo = *r.pick(&[97u32, 97, 0, 48, MAX_CHAR - 1]);
    let n = *r.pick(&[16usize, 17, 32, 33, 64, 65, 100, 128, 129, 150, 255, 256, 257, 260, 290, 300]);
    let mut s = vec![];
    for _ in 0..r.below(3) {
        s.push(lo + r.below(2) as u32);
    }
    s.extend(vec![lo; n]);
    for _ in 0..r.below(3) {
        s.push(lo + r.below(2) as u32);
    }
    let t = Rc::new(T::Str(s));
    match r.below(4) {
        0 => Rc::new(T::Cat(vec![t, Rc::new(T::Star(Rc::new(T::Rng(lo, lo))))])),
        1 => Rc::new(T::Cat(vec![Rc::new(T::Opt(Rc::new(T::Rng(lo, lo)))), t])),
        _ => t,
    }
}

/// Terms with many character classes: a union of branches that start with different characters
pub fn wide_term(r: &mut Rng, k: usize) -> TR {
    let base = *r.pick(&[97u32, 1000, 0, 65530, 120, MAX_CHAR - 3 * k as u32 - 3]);
    let step = 1 + r.below(3) as u32;
    let width = r.below(step as usize) as u32;
    let modulus = *r.pick(&[3u32, 5, 7]);
    let tails: Vec<TR> = (0..modulus)
        .map(|i| {
            let c = Rc::new(T::Rng(base + i, base + i));
            match r.below(5) {
                0 => Rc::new(T::Star(c)),
                1 => Rc::new(T::Str(vec![base + i, base])),
                2 => Rc::new(T::Not(c)),
                _ => c,
            }
        })
        .collect();
    let kind = r.below(5);
    let mut v: Vec<TR> = (0..k as u32)
        .map(|i| {
            let a = base + step * i;
            let x = Rc::new(T::Rng(a, a + width));
            match kind {
                // some branches never start a string
                0 if i % 11 == 4 => Rc::new(T::Cat(vec![x.clone(), Rc::new(T::Diff(tails[0].clone(), vec![tails[0].clone()]))])),
                1 if i % 5 == 2 => Rc::new(T::Opt(x)),
                2 => Rc::new(T::Star(x)),
                _ => Rc::new(T::Cat(vec![x, tails[(i % modulus) as usize].clone()])),
            }
        })
        .collect();
    if r.chance(1, 3) {
        // a start character that dies: x.y /\ z.Sigma*
        let (x, z) = (base + step * k as u32, base + step * k as u32 + 1);
        let d = |a: u32| -> TR { Rc::new(T::Rng(a, a)) };
        if z < MAX_CHAR {
            v.push(Rc::new(T::And(vec![
                Rc::new(T::Cat(vec![Rc::new(T::Rng(x, z)), d(base)])),
                Rc::new(T::Cat(vec![d(z), Rc::new(T::Plus(Rc::new(T::Any)))])),
            ])));
        }
    }
    r.shuffle(&mut v);
    let u = Rc::new(T::Alt(v));
    match r.below(8) {
        0 => Rc::new(T::Not(u)),
        1 => Rc::new(T::Star(u)),
        2 => Rc::new(T::Cat(vec![u, Rc::new(T::All)])),
        3 => Rc::new(T::Cat(vec![Rc::new(T::Rng(base, base + 7)), u])),
        _ => u,
    }
}

/// Loops with very large bounds (their automata are out of reach; short words are not)
pub fn vast_term(r: &mut Rng) -> TR {
    const BIG: [u32; 14] = [
        254, 255, 256, 257, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 1 << 17, 1 << 20,
    ];
    // budget: product of the nested upper bounds and sum of the concatenated ones stay far from 2^32
    fn range(r: &mut Rng, budget: u64) -> (u32, Option<u32>) {
        let big = |r: &mut Rng| -> u32 {
            for _ in 0..4 {
                let x = *r.pick(&BIG);
                if (x as u64) <= budget {
                    return x;
                }
            }
            1 + r.below(budget.clamp(1, 200) as usize) as u32
        };
        let small = r.below(4) as u32;
        match r.below(7) {
            0 => (small, None),
            1 => (big(r), None),
            2 => {
                let x = big(r);
                (x, Some(x))
            }
            3 => {
                let (x, y) = (big(r), big(r));
                (x.min(y), Some(x.max(y)))
            }
            4 => (0, Some(big(r))),
            _ => {
                let x = big(r);
                (small.min(x), Some(x))
            }
        }
    }
    fn go(r: &mut Rng, depth: usize, budget: u64) -> (TR, u64) {
        let l = |r: &mut Rng| -> TR {
            Rc::new(match r.below(6) {
                0 => T::Rng(97, 98),
                1 => T::Rng(98, 98),
                2 => T::Str(vec![97, 98]),
                _ => T::Rng(97, 97),
            })
        };
        if depth == 0 {
            let x = l(r);
            return match r.below(8) {
                0 => (Rc::new(T::Opt(x)), 1),
                1 => (Rc::new(T::Alt(vec![x, Rc::new(T::Str(vec![97, 97]))])), 1),
                2 => (Rc::new(T::Any), 1),
                _ => (x, 1),
            };
        }
        match r.below(6) {
            0 => {
                let (x, a) = go(r, depth - 1, budget / 2);
                let (y, b) = go(r, depth - 1, budget / 2);
                (Rc::new(T::Cat(vec![x, y])), a + b)
            }
            1 => {
                let (x, a) = go(r, depth - 1, budget);
                let (y, b) = go(r, depth - 1, budget);
                let k = r.below(4);
                (
                    Rc::new(match k {
                        0 => T::And(vec![x, y]),
                        1 => T::Diff(x, vec![y]),
                        _ => T::Alt(vec![x, y]),
                    }),
                    a.max(b),
                )
            }
            2 if r.chance(1, 2) => {
                let (x, a) = go(r, depth - 1, budget);
                (Rc::new(T::Not(x)), a)
            }
            _ => {
                let (x, a) = go(r, depth - 1, budget);
                let (i, j) = range(r, budget / (a + 1));
                let b = (a + 1) * (j.unwrap_or(i) as u64 + 1);
                let t = match j {
                    Some(j) if i == j && r.chance(1, 2) => T::Pow(x, i),
                    _ => T::Loop(x, i, j),
                };
                (Rc::new(t), b)
            }
        }
    }
    // same body, adjacent loops: x{i,j}.x{k,l} and x{i,j}{k,l}
    if r.chance(1, 3) {
        let (x, _) = go(r, 0, 1);
        let n = 2 + r.below(2);
        let v: Vec<TR> = (0..n)
            .map(|_| {
                let (i, j) = range(r, 1 << 22);
                Rc::new(T::Loop(x.clone(), i, j))
            })
            .collect();
        return Rc::new(if r.chance(3, 4) { T::Cat(v) } else { T::Alt(v) });
    }
    let depth = 1 + r.below(3);
    go(r, depth, 1 << 28).0
}

/// Terms with thousands of derivatives
pub fn huge_term(r: &mut Rng) -> TR {
    let a = Rc::new(T::Rng(97, 97));
    let ab = Rc::new(T::Rng(97, 98));
    match r.below(3) {
        0 => {
            let k = 10 + r.below(2) as u32;
            Rc::new(T::Cat(vec![Rc::new(T::Star(ab.clone())), a, Rc::new(T::Pow(ab, k))]))
        }
        1 => Rc::new(T::Pow(a, 1030 + r.below(5000) as u32)),
        _ => {
            let (p, q) = *r.pick(&[(40u32, 41u32), (64, 65), (60, 49)]);
            let u = Rc::new(T::Star(Rc::new(T::Pow(a.clone(), p))));
            let v = Rc::new(T::Star(Rc::new(T::Pow(a.clone(), q))));
            Rc::new(T::And(vec![u, v, Rc::new(T::Plus(a))]))
        }
    }
}

/// Mutate a pattern so that inclusion between the two is likely or nearly so
pub fn widen(t: &TR, p: &[(u32, u32)], r: &mut Rng) -> TR {
    if let T::Cat(v) = &**t {
        let mut v = v.clone();
        for _ in 0..1 + r.below(3) {
            let k = r.below(v.len().max(1));
            match r.below(6) {
                0 if !v.is_empty() => v[k] = Rc::new(T::All),
                1 if !v.is_empty() => v[k] = Rc::new(T::Any),
                2 => v.insert(k.min(v.len()), Rc::new(T::All)),
                3 if v.len() > 1 => {
                    v.remove(k);
                }
                4 if !v.is_empty() => {
                    let (a, b) = *r.pick(p);
                    v[k] = Rc::new(T::Rng(a, b));
                }
                _ => {
                    let (a, b) = *r.pick(p);
                    v.insert(k.min(v.len()), Rc::new(T::Rng(a, b)));
                }
            }
        }
        Rc::new(T::Cat(v))
    } else {
        t.clone()
    }
}

/// The terms of a small exhaustive universe (two levels of constructors over few atoms)
pub fn universe(level2_binary: bool) -> Vec<TR> {
    let (a, b) = (97, 98);
    let atoms: Vec<TR> = [
        T::None,
        T::Eps,
        T::All,
        T::Any,
        T::Rng(a, a),
        T::Rng(b, b),
        T::Rng(a, b),
    ]
    .into_iter()
    .map(Rc::new)
    .collect();
    let unary = |x: &TR| -> Vec<TR> {
        let x = x.clone();
        vec![
            Rc::new(T::Not(x.clone())),
            Rc::new(T::Star(x.clone())),
            Rc::new(T::Plus(x.clone())),
            Rc::new(T::Opt(x.clone())),
            Rc::new(T::Pow(x.clone(), 0)),
            Rc::new(T::Pow(x.clone(), 2)),
            Rc::new(T::Loop(x.clone(), 0, Some(2))),
            Rc::new(T::Loop(x.clone(), 1, Some(2))),
            Rc::new(T::Loop(x.clone(), 2, None)),
            Rc::new(T::Loop(x, 2, Some(1))),
        ]
    };
    let binary = |x: &TR, y: &TR| -> Vec<TR> {
        vec![
            Rc::new(T::Cat(vec![x.clone(), y.clone()])),
            Rc::new(T::Alt(vec![x.clone(), y.clone()])),
            Rc::new(T::And(vec![x.clone(), y.clone()])),
            Rc::new(T::Diff(x.clone(), vec![y.clone()])),
        ]
    };
    let mut l1: Vec<TR> = Vec::new();
    for x in &atoms {
        l1.extend(unary(x));
        for y in &atoms {
            l1.extend(binary(x, y));
        }
    }
    let mut all = atoms.clone();
    all.extend(l1.iter().cloned());
    let mut l2 = Vec::new();
    for x in &l1 {
        l2.extend(unary(x));
        for y in &atoms {
            l2.extend(binary(x, y));
            l2.extend(binary(y, x));
        }
    }
    if level2_binary {
        for x in &l1 {
            for y in &l1 {
                l2.extend(binary(x, y));
            }
        }
    }
    all.extend(l2);
    let mut seen = HashSet::new();
    all.retain(|t| seen.insert(t.clone()));
    all
}
