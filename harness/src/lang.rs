//! C01, C02, C03, C05, C10, C16, C18, C19: properties about expressions.
use crate::obs::*;
use crate::sets::Ends;
use crate::term::*;
use crate::util::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::MAX_CHAR;
use std::collections::{BTreeSet, HashSet};

pub struct Limits {
    pub size: usize,
    /// size of the residual of the term itself
    pub rsize: usize,
    pub states: usize,
    pub weight: usize,
    pub cap: usize,
}

pub const LIM: Limits = Limits { size: 26, rsize: 150, states: 70, weight: 2500, cap: 400 };
/// terms with thousands of derivatives
pub const HUGE: Limits = Limits { size: 260, rsize: 1000, states: 9000, weight: 400_000, cap: 12000 };
/// terms with many derivatives
pub const BIG: Limits = Limits { size: 260, rsize: 1000, states: 1300, weight: 40000, cap: 3000 };

/// terms with many character classes
pub const WIDE: Limits = Limits { size: 3000, rsize: 4000, states: 700, weight: 150_000, cap: 3000 };
/// long literals
pub const RUNS: Limits = Limits { size: 400, rsize: 2500, states: 1300, weight: 300_000, cap: 3000 };

/// What a driver gets for every selected term
pub struct Case {
    pub t: TR,
    pub r: std::rc::Rc<R>,
    pub cells: Vec<u32>,
    pub cost: Cost,
    pub cap: usize,
}

pub fn case_of(t: &TR, lim: &Limits) -> Option<Case> {
    if t.size() > lim.size {
        return None;
    }
    let r = norm(t);
    if rsize(&r) > lim.rsize {
        return None;
    }
    let cells = cells(&r);
    let cost = cost(&r, &cells, lim.states, lim.weight)?;
    Some(Case { t: t.clone(), r, cells, cost, cap: lim.cap })
}

pub fn panic_event(what: &str, t: &T, msg: &str) -> J {
    J::O(vec![
        ("op", J::s("panic")),
        ("in", J::s(what)),
        ("t", t.json()),
        ("msg", J::s(msg)),
    ])
}

/// A manager with a past. None: building it failed (the event says so)
pub fn aged(c: &mut Ctx, rng: &mut Rng) -> Option<M> {
    match guard(|| "thousands of terms in one manager".to_string(), || M::aged(rng)) {
        Ok(m) => Some(m),
        Err(msg) => {
            c.emit(panic_event("thousands of terms in one manager", &T::Eps, &msg));
            None
        }
    }
}

/// Random construction episodes: every episode uses one manager and shares sub-terms.
/// f is called for each selected term; it returns false if the manager must be abandoned.
pub fn episodes(
    c: &mut Ctx,
    salt: u64,
    target: usize,
    wrap_every: usize,
    lim: &Limits,
    mut f: impl FnMut(&mut Ctx, &mut M, &Case, RegLan, &mut Rng) -> bool,
) {
    let mut rng = c.rng(salt);
    let mut seen: HashSet<TR> = HashSet::new();
    let mut done = 0;
    let mut ep = 0usize;
    while done < target {
        ep += 1;
        if ep > 40 * target + 1000 {
            break;
        }
        let p = palette(&mut rng);
        let mut m = if wrap_every > 0 && ep % wrap_every == 0 {
            M::Wrap
        } else if rng.chance(1, 40) {
            match aged(c, &mut rng) {
                Some(m) => m,
                None => {
                    done += 1;
                    continue;
                }
            }
        } else {
            M::own()
        };
        let mut pool: Vec<TR> = (0..3 + rng.below(3)).map(|_| atom(&p, &mut rng)).collect();
        if rng.chance(1, 3) {
            pool.push(pattern(&p, &mut rng));
        }
        let ops = 4 + rng.below(12);
        for _ in 0..ops {
            let t = match rng.below(12) {
                0 if rng.chance(1, 2) => pattern(&p, &mut rng),
                0 => wordy(&p, &mut rng),
                1 => {
                    let x = pattern(&p, &mut rng);
                    let y = widen(&x, &p, &mut rng);
                    let z = widen(&y, &p, &mut rng);
                    let v = match rng.below(4) {
                        0 => vec![x, y],
                        1 => vec![y, x],
                        2 => vec![x, z, y],
                        _ => vec![x, std::rc::Rc::new(T::Not(y))],
                    };
                    std::rc::Rc::new(if rng.chance(2, 3) { T::Alt(v) } else { T::And(v) })
                }
                2 => atom(&p, &mut rng),
                _ => compose(&pool, &mut rng),
            };
            if t.size() > lim.size {
                continue;
            }
            pool.push(t.clone());
            if !seen.insert(t.clone()) {
                continue;
            }
            let Some(case) = case_of(&t, lim) else { continue };
            let e = match guard(|| format!("build {t:?}"), || m.build(&t, &mut rng)) {
                Ok(e) => e,
                Err(msg) => {
                    c.emit(panic_event("build", &t, &msg));
                    done += 1;
                    break;
                }
            };
            done += 1;
            if !f(c, &mut m, &case, e, &mut rng) {
                break;
            }
            if done >= target {
                break;
            }
        }
    }
}

/// Terms with many derivatives (a few hundreds to about a thousand)
pub fn bigs(
    c: &mut Ctx,
    salt: u64,
    target: usize,
    lim: &Limits,
    mut f: impl FnMut(&mut Ctx, &mut M, &Case, RegLan, &mut Rng) -> bool,
) {
    let mut rng = c.rng(salt);
    let mut done = 0;
    let mut tries = 0;
    let mut weight = 0;
    let huge = lim.states > 5000;
    while done < target && tries < 40 * target && weight < lim.weight / 4 * (target + 4) {
        tries += 1;
        let t = if huge { huge_term(&mut rng) } else { big_term(&mut rng) };
        let Some(case) = case_of(&t, lim) else { continue };
        if case.cost.states < 150 {
            continue;
        }
        done += 1;
        weight += case.cost.weight;
        let m = if rng.chance(1, 6) { aged(c, &mut rng) } else { Some(M::own()) };
        let Some(mut m) = m else { continue };
        match guard(|| format!("build {t:?}"), || m.build(&t, &mut rng)) {
            Ok(e) => {
                f(c, &mut m, &case, e, &mut rng);
            }
            Err(msg) => c.emit(panic_event("build", &t, &msg)),
        }
    }
}

/// Terms with many character classes, and terms built next to them in the same manager
pub fn wides(
    c: &mut Ctx,
    salt: u64,
    target: usize,
    related: bool,
    mut f: impl FnMut(&mut Ctx, &mut M, &Case, RegLan, &mut Rng) -> bool,
) {
    let mut rng = c.rng(salt);
    let mut done = 0;
    let mut tries = 0;
    while done < target && tries < 40 * target {
        tries += 1;
        // one shard has a term with more than 256 classes
        let k = if done == 0 && c.shard == c.seed as usize % c.nshards {
            257 + rng.below(20)
        } else {
            *rng.pick(&[9usize, 12, 17, 20, 33, 34, 40, 65, 66, 70])
        };
        let t = wide_term(&mut rng, k);
        let Some(case) = case_of(&t, &WIDE) else { continue };
        done += 1;
        let mut m = M::own();
        let mut list = vec![case];
        if related && k < 100 {
            let mut v = vec![std::rc::Rc::new(T::Not(t.clone())), std::rc::Rc::new(T::Cat(vec![t.clone(), atom(&[(97, 97)], &mut rng)]))];
            let kids = children(&t);
            for _ in 0..3 {
                if let Some(x) = kids.get(rng.below(kids.len().max(1))) {
                    v.push(x.clone());
                }
            }
            for x in v {
                if let Some(x) = case_of(&x, &WIDE) {
                    list.push(x);
                }
            }
            rng.shuffle(&mut list);
        }
        for case in list {
            match guard(|| format!("build {:?}", case.t), || m.build(&case.t, &mut rng)) {
                Ok(e) => {
                    if !f(c, &mut m, &case, e, &mut rng) {
                        break;
                    }
                }
                Err(msg) => {
                    c.emit(panic_event("build", &case.t, &msg));
                    break;
                }
            }
        }
    }
}

/// Long literals and loops
pub fn runs(
    c: &mut Ctx,
    salt: u64,
    target: usize,
    mut f: impl FnMut(&mut Ctx, &mut M, &Case, RegLan, &mut Rng) -> bool,
) {
    let mut rng = c.rng(salt);
    for i in 0..target {
        let t = if i % 2 == 0 { run_term(&mut rng) } else { long_loop(&mut rng) };
        let Some(case) = case_of(&t, &RUNS) else { continue };
        let mut m = M::own();
        match guard(|| format!("build {t:?}"), || m.build(&t, &mut rng)) {
            Ok(e) => {
                f(c, &mut m, &case, e, &mut rng);
            }
            Err(msg) => c.emit(panic_event("build", &t, &msg)),
        }
    }
}

/// Terms of the exhaustive universe: one manager per block of terms
pub fn exhaustive(
    c: &mut Ctx,
    binary2: bool,
    stride: usize,
    lim: &Limits,
    mut f: impl FnMut(&mut Ctx, &mut M, &Case, RegLan, &mut Rng) -> bool,
) {
    let u = universe(binary2);
    let mut rng = c.rng(777);
    let mut m = M::own();
    let mut n = 0;
    for (i, t) in u.iter().enumerate() {
        if stride > 1 && i % stride != (c.seed as usize) % stride {
            continue;
        }
        if !c.mine() {
            continue;
        }
        let Some(case) = case_of(t, lim) else { continue };
        n += 1;
        if n % 60 == 0 {
            m = M::own();
        }
        match guard(|| format!("build {t:?}"), || m.build(t, &mut rng)) {
            Ok(e) => {
                if !f(c, &mut m, &case, e, &mut rng) {
                    m = M::own();
                }
            }
            Err(msg) => {
                c.emit(panic_event("build", t, &msg));
                m = M::own();
            }
        }
    }
}

/// Words worth trying on a term
pub fn words(case: &Case, rng: &mut Rng, max: usize) -> Vec<Vec<u32>> {
    let mut v: BTreeSet<Vec<u32>> = BTreeSet::new();
    let letter = |rng: &mut Rng| -> u32 {
        let i = rng.below(case.cells.len());
        let a = case.cells[i];
        let b = if i + 1 < case.cells.len() { case.cells[i + 1] - 1 } else { MAX_CHAR };
        match rng.below(3) {
            0 => a,
            1 => b,
            _ => a + rng.below((b - a) as usize + 1) as u32,
        }
    };
    v.insert(vec![]);
    for x in &case.cost.final_words {
        v.insert(x.clone());
    }
    let acc = &case.cost.access;
    for _ in 0..max / 2 {
        let mut x = rng.pick(acc).clone();
        v.insert(x.clone());
        x.push(letter(rng));
        v.insert(x);
    }
    while v.len() < max {
        let n = 1 + rng.below(9);
        v.insert((0..n).map(|_| letter(rng)).collect());
    }
    if rng.chance(1, 12) {
        let n = 30 + rng.below(30);
        v.insert((0..n).map(|_| letter(rng)).collect());
    }
    if rng.chance(1, 12) {
        // long words with a period (an access word, a letter) between two short ones
        let n = *rng.pick(&[40usize, 64, 65, 70, 100, 129, 200, 257, 300]);
        let mut w = if rng.chance(1, 2) { vec![] } else { rng.pick(acc).clone() };
        let mut p = if rng.chance(1, 2) { vec![letter(rng)] } else { rng.pick(acc).clone() };
        if p.is_empty() {
            p.push(letter(rng));
        }
        while w.len() < n {
            w.extend(&p);
        }
        if rng.chance(2, 3) {
            w.extend(rng.pick(acc));
        } else if let Some(x) = case.cost.final_words.last() {
            w.extend(x);
        }
        v.insert(w);
    }
    v.into_iter().filter(|w| w.len() <= 400).collect()
}

fn jmem(v: &[(Vec<u32>, bool)]) -> J {
    J::A(v.iter().map(|(w, b)| J::A(vec![J::word(w), J::b(*b)])).collect())
}

pub fn starts(v: &[(Vec<u32>, usize)]) -> J {
    J::A(v.iter().map(|(w, q)| J::A(vec![J::word(w), J::n(*q)])).collect())
}

pub fn obj(op: &str, t: &T, mut rest: Vec<(&'static str, J)>) -> J {
    let mut v = vec![("op", J::s(op)), ("t", t.json())];
    v.append(&mut rest);
    J::O(v)
}

/// The C01 observation of a term: derivative graph, membership answers, nullable flag
pub fn lang_event(c: &mut Ctx, m: &mut M, case: &Case, e: RegLan, rng: &mut Rng, nwords: usize) -> Result<J, String> {
    let ws = words(case, rng, nwords);
    let mut calls = 0;
    let r = guard(
        || format!("membership {:?}", case.t),
        || {
            let mem: Vec<(Vec<u32>, bool)> = ws
                .iter()
                .map(|x| {
                    calls += 1;
                    (x.clone(), m.member(x, e))
                })
                .collect();
            let g = if m.is_wrap() {
                None
            } else {
                derivative_graph(m.mgr(), &[e], &case.cells, case.cap, &BTreeSet::new(), rng, &mut calls)
            };
            let mut f = vec![("flag", J::b(e.nullable)), ("mem", jmem(&mem))];
            match g {
                Some((g, _)) => {
                    f.extend(g.fields());
                    f.push(("st", starts(&[(vec![], 1)])));
                }
                None => {
                    f.extend(Graph::none(&case.cells).fields());
                    f.push(("st", J::A(vec![])));
                }
            }
            obj("lang", &case.t, f)
        },
    );
    c.calls += calls;
    r
}

fn emit_or_panic(c: &mut Ctx, what: &str, case: &Case, r: Result<J, String>) -> bool {
    match r {
        Ok(j) => {
            c.emit(j);
            true
        }
        Err(msg) => {
            c.emit(panic_event(what, &case.t, &msg));
            false
        }
    }
}

pub fn c01(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, e: RegLan, rng: &mut Rng| -> bool {
        let r = lang_event(c, m, case, e, rng, 12);
        emit_or_panic(c, "membership", case, r)
    };
    let stride = if c.thorough { 1 } else { 4 };
    exhaustive(c, c.thorough, stride, &LIM, f);
    let n = c.q(1500, 25000);
    episodes(c, 1, n, 4, &LIM, f);
    let n = c.q(5, 80);
    bigs(c, 101, n, &BIG, f);
    let n = c.q(2, 40);
    wides(c, 301, n, true, f);
    let n = c.q(4, 60);
    runs(c, 401, n, f);
    let n = c.q(250, 5000);
    vasts(c, 501, n);
}

/// Loops with very large bounds: membership of short words, directly and after a derivative
fn vasts(c: &mut Ctx, salt: u64, target: usize) {
    let mut rng = c.rng(salt);
    for _ in 0..target {
        let t = vast_term(&mut rng);
        let cells = cells(&norm(&t));
        let mut calls = 0;
        let mut m = if rng.chance(1, 4) { M::Wrap } else { M::own() };
        let r = guard(
            || format!("membership {t:?}"),
            || {
                let e = m.build(&t, &mut rng);
                let mut ws: BTreeSet<Vec<u32>> = BTreeSet::new();
                ws.insert(vec![]);
                for _ in 0..14 {
                    let n = *rng.pick(&[1usize, 1, 2, 2, 3, 4, 5, 6, 9]);
                    let only = rng.chance(1, 3);
                    ws.insert((0..n).map(|_| if only { 97 } else { *rng.pick(&cells) }).collect());
                }
                let mut mem = Vec::new();
                for x in &ws {
                    calls += 1;
                    let b = if m.is_wrap() || rng.chance(1, 2) {
                        m.member(x, e)
                    } else {
                        let k = rng.below(x.len() + 1);
                        let d = m.mgr().str_derivative(e, &smt(&x[..k]));
                        if rng.chance(1, 2) {
                            m.mgr().str_derivative(d, &smt(&x[k..])).nullable
                        } else {
                            m.mgr().str_in_re(&smt(&x[k..]), d)
                        }
                    };
                    mem.push((x.clone(), b));
                }
                obj("mem", &t, vec![("flag", J::b(e.nullable)), ("mem", jmem(&mem))])
            },
        );
        c.calls += calls;
        match r {
            Ok(j) => c.emit(j),
            Err(msg) => c.emit(panic_event("membership", &t, &msg)),
        }
    }
}

pub fn c02(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, e: RegLan, rng: &mut Rng| -> bool {
        let ws = words(case, rng, 10);
        let mut calls = 0;
        let r = guard(
            || format!("compile {:?}", case.t),
            || {
                let (a, how) = if rng.chance(2, 3) {
                    (m.mgr().compile(e), 0)
                } else {
                    match m.mgr().try_compile(e, 5000) {
                        Some(a) => (a, 1),
                        None => return None,
                    }
                };
                if a.num_states() > case.cap {
                    return None;
                }
                let mem: Vec<(Vec<u32>, bool)> = ws
                    .iter()
                    .map(|x| {
                        calls += 1;
                        (x.clone(), a.accepts(&smt(x)))
                    })
                    .collect();
                let mem2: Vec<(Vec<u32>, bool)> = ws
                    .iter()
                    .map(|x| {
                        calls += 1;
                        (x.clone(), a.str_next(a.initial_state(), &smt(x)).is_final())
                    })
                    .collect();
                let g = automaton_graph(&a, &case.cells, &BTreeSet::new(), rng, &mut calls);
                let mut f = vec![("how", J::n(how)), ("mem", jmem(&mem)), ("mem2", jmem(&mem2))];
                f.extend(g.fields());
                f.push(("st", starts(&[(vec![], a.initial_state().id() + 1)])));
                Some(obj("dfa", &case.t, f))
            },
        );
        c.calls += calls;
        match r {
            Ok(Some(j)) => {
                c.emit(j);
                true
            }
            Ok(None) => true,
            Err(msg) => {
                c.emit(panic_event("compile", &case.t, &msg));
                false
            }
        }
    };
    let stride = if c.thorough { 1 } else { 5 };
    exhaustive(c, c.thorough, stride, &LIM, f);
    let n = c.q(1500, 25000);
    episodes(c, 2, n, 0, &LIM, f);
    let n = c.q(5, 80);
    bigs(c, 102, n, &BIG, f);
    let n = c.q(1, 12);
    bigs(c, 202, n, &HUGE, f);
    let n = c.q(2, 40);
    wides(c, 302, n, false, f);
    let n = c.q(2, 60);
    runs(c, 402, n, f);
}

fn class_code(id: ClassId) -> i64 {
    match id {
        ClassId::Interval(i) => i as i64,
        ClassId::Complement => -1,
    }
}

fn err_code(e: Error) -> i64 {
    match e {
        Error::BadClassId => -2,
        Error::AmbiguousCharSet => -3,
        Error::UndefinedDerivative => -4,
        Error::EmptyComplementaryClass => -5,
        _ => -6,
    }
}

/// characters of class id of e, given its ranges: both ends and something in between
fn class_chars(id: ClassId, ranges: &[(u32, u32)], cells: &[u32], rng: &mut Rng) -> Vec<u32> {
    match id {
        ClassId::Interval(i) if i < ranges.len() => {
            let (a, b) = ranges[i];
            let mut v = vec![a, b, a + (b - a) / 2, a + rng.below((b - a) as usize + 1) as u32];
            for &x in cells {
                if a <= x && x <= b {
                    v.push(x);
                    if x > a {
                        v.push(x - 1);
                    }
                }
            }
            v.sort_unstable();
            v.dedup();
            v
        }
        ClassId::Complement => {
            let mut s = BTreeSet::new();
            for &(a, b) in ranges {
                around(&mut s, a, b);
            }
            s.extend(raw_letters(cells, rng));
            s.insert(0);
            s.insert(MAX_CHAR);
            s.into_iter().filter(|x| !ranges.iter().any(|r| r.0 <= *x && *x <= r.1)).collect()
        }
        _ => vec![],
    }
}

pub fn c03(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, root: RegLan, rng: &mut Rng| -> bool {
        let mut calls = 0;
        let r = guard(
            || format!("derivatives {:?}", case.t),
            || {
                let mg = m.mgr();
                // the term observed is the derivative of t after a prefix (often empty)
                let prefix = if rng.chance(1, 2) { vec![] } else { rng.pick(&case.cost.access).clone() };
                let e = mg.str_derivative(root, &smt(&prefix));
                let ranges: Vec<(u32, u32)> =
                    e.char_ranges().map(|s| (s.pick_start(), s.pick_end())).collect();
                let ids: Vec<ClassId> = e.class_ids().collect();
                let mut roots: Vec<RegLan> = vec![e];
                // (word, term)
                let mut st: Vec<(Vec<u32>, RegLan)> = vec![(prefix.clone(), e)];
                let with = |w: &[u32]| -> Vec<u32> {
                    let mut v = prefix.clone();
                    v.extend_from_slice(w);
                    v
                };
                // single characters in random order (fills the cache in various ways)
                let mut chars: Vec<u32> = raw_letters(&case.cells, rng).into_iter().collect();
                for &(a, b) in &ranges {
                    let mut s = BTreeSet::new();
                    around(&mut s, a, b);
                    chars.extend(s);
                }
                rng.shuffle(&mut chars);
                chars.truncate(12);
                for &ch in &chars {
                    calls += 1;
                    st.push((with(&[ch]), mg.char_derivative(e, ch)));
                }
                // classes
                let mut cd = Vec::new();
                for &id in &ids {
                    calls += 1;
                    match mg.class_derivative(e, id) {
                        Ok(d) => {
                            cd.push(J::ints(&[class_code(id), 1]));
                            let cc = class_chars(id, &ranges, &case.cells, rng);
                            for &ch in &cc {
                                st.push((with(&[ch]), d));
                            }
                            if rng.chance(1, 3) {
                                let d2 = mg.class_derivative_unchecked(e, id);
                                if let Some(&ch) = cc.first() {
                                    st.push((with(&[ch]), d2));
                                }
                            }
                        }
                        Err(x) => cd.push(J::ints(&[class_code(id), err_code(x)])),
                    }
                }
                // invalid (or not listed) classes
                let mut bad = Vec::new();
                let n = ranges.len();
                for id in [
                    ClassId::Interval(n),
                    ClassId::Interval(n + 1 + rng.below(5)),
                    ClassId::Interval(1 << 30),
                    ClassId::Complement,
                ] {
                    calls += 1;
                    let code = match mg.class_derivative(e, id) {
                        Ok(_) => 1,
                        Err(x) => err_code(x),
                    };
                    bad.push(J::ints(&[class_code(id), code]));
                }
                // sets
                let mut sd = Vec::new();
                let mut ends: Vec<u32> = vec![0, MAX_CHAR];
                for &(a, b) in &ranges {
                    let mut s = BTreeSet::new();
                    around(&mut s, a, b);
                    ends.extend(s);
                    ends.push(a + (b - a) / 2);
                }
                for _ in 0..10 {
                    let (x, y) = (*rng.pick(&ends), *rng.pick(&ends));
                    let (a, b) = (x.min(y), x.max(y));
                    calls += 1;
                    match mg.set_derivative(e, &CharSet::range(a, b)) {
                        Ok(d) => {
                            sd.push(J::ints(&[a as i64, b as i64, 1]));
                            st.push((with(&[a]), d));
                            st.push((with(&[b]), d));
                            st.push((with(&[a + (b - a) / 2]), d));
                            if rng.chance(1, 3) {
                                let d2 = mg.set_derivative_unchecked(e, &CharSet::range(a, b));
                                st.push((with(&[b]), d2));
                            }
                        }
                        Err(x) => sd.push(J::ints(&[a as i64, b as i64, err_code(x)])),
                    }
                }
                // strings
                for x in words(case, rng, 4) {
                    calls += 1;
                    if x.len() <= 12 || rng.chance(1, 2) {
                        let d = mg.str_derivative(root, &smt(&x));
                        st.push((x, d));
                    }
                }
                for x in &st {
                    roots.push(x.1);
                }
                let g = derivative_graph(mg, &roots, &case.cells, case.cap, &BTreeSet::new(), rng, &mut calls);
                let Some((g, nodes)) = g else { return None };
                let pos = |t: RegLan| nodes.iter().position(|x| std::ptr::eq(*x, t)).unwrap() + 1;
                let mut sts: Vec<(Vec<u32>, usize)> = st.iter().map(|(w, t)| (w.clone(), pos(t))).collect();
                sts.sort();
                sts.dedup();
                let comp = ids.contains(&ClassId::Complement);
                let mut f = vec![
                    ("cls", J::A(ranges.iter().map(|r| J::word(&[r.0, r.1])).collect())),
                    ("ids", J::A(ids.iter().map(|&i| J::I(class_code(i))).collect())),
                    ("comp", J::b(comp)),
                    ("ndc", J::n(e.num_deriv_classes())),
                    ("ecomp", J::b(e.empty_complement())),
                    ("cd", J::A(cd)),
                    ("bad", J::A(bad)),
                    ("sd", J::A(sd)),
                ];
                f.extend(g.fields());
                f.push(("st", starts(&sts)));
                Some(obj("deriv", &case.t, f))
            },
        );
        c.calls += calls;
        match r {
            Ok(Some(j)) => {
                c.emit(j);
                true
            }
            Ok(None) => true,
            Err(msg) => {
                c.emit(panic_event("derivatives", &case.t, &msg));
                false
            }
        }
    };
    let stride = if c.thorough { 1 } else { 8 };
    exhaustive(c, c.thorough, stride, &LIM, f);
    let n = c.q(900, 15000);
    episodes(c, 3, n, 0, &LIM, f);
    let n = c.q(2, 40);
    bigs(c, 103, n, &BIG, f);
    let n = c.q(2, 40);
    wides(c, 303, n, true, f);
    let n = c.q(150, 4000);
    vasts(c, 503, n);
}

pub fn c05(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, e: RegLan, rng: &mut Rng| -> bool {
        let first = rng.below(2);
        c.calls += 4;
        let r = guard(
            || format!("emptiness {:?}", case.t),
            || {
                let mg = m.mgr();
                let (emp, wit) = if first == 0 {
                    let x = mg.is_empty_re(e);
                    (x, mg.get_string(e))
                } else {
                    let y = mg.get_string(e);
                    (mg.is_empty_re(e), y)
                };
                let (wj, acc, dfa, good) = match wit {
                    None => (J::A(vec![]), true, true, true),
                    Some(s) => {
                        let acc = mg.str_in_re(&s, e);
                        let dfa = match mg.try_compile(e, 2000) {
                            Some(a) => a.accepts(&s),
                            None => true,
                        };
                        let v: Vec<u32> = s.iter().copied().collect();
                        (J::A(vec![J::word(&v)]), acc, dfa, s.is_good())
                    }
                };
                obj(
                    "empty",
                    &case.t,
                    vec![
                        ("L", J::word(&case.cells)),
                        ("emp", J::b(emp)),
                        ("wit", wj),
                        ("acc", J::b(acc)),
                        ("dfa", J::b(dfa)),
                        ("good", J::b(good)),
                    ],
                )
            },
        );
        emit_or_panic(c, "emptiness", case, r)
    };
    let stride = if c.thorough { 1 } else { 4 };
    exhaustive(c, c.thorough, stride, &LIM, f);
    let n = c.q(1500, 25000);
    episodes(c, 5, n, 0, &LIM, f);
    let n = c.q(16, 160);
    bigs(c, 105, n, &BIG, f);
    let n = c.q(2, 40);
    wides(c, 305, n, false, f);
    // semantic emptiness: x /\ y /\ ... biased to be (nearly) empty
    let n = c.q(700, 12000);
    let mut rng = c.rng(55);
    let mut k = 0;
    let mut tries = 0;
    while k < n && tries < 60 * n {
        tries += 1;
        let p = palette(&mut rng);
        let mut m = M::own();
        let x = pattern(&p, &mut rng);
        let y = widen(&x, &p, &mut rng);
        let z = pattern(&p, &mut rng);
        let (x, y, z) = if rng.chance(1, 3) {
            let x = wordy(&p, &mut rng);
            let y = if rng.chance(1, 2) { wordy(&p, &mut rng) } else { y };
            (x, y, z)
        } else {
            (x, y, z)
        };
        let t = match rng.below(6) {
            0 => T::Diff(x, vec![y]),
            1 => T::Diff(y, vec![x, z]),
            2 => T::And(vec![x, z]),
            3 => T::And(vec![x, std::rc::Rc::new(T::Not(y)), z]),
            4 => T::Not(std::rc::Rc::new(T::Alt(vec![x.clone(), std::rc::Rc::new(T::Not(y)), z]))),
            _ => T::Cat(vec![x.clone(), std::rc::Rc::new(T::Diff(z.clone(), vec![z, y]))]),
        };
        let t = std::rc::Rc::new(t);
        let Some(case) = case_of(&t, &LIM) else { continue };
        k += 1;
        match guard(|| format!("build {t:?}"), || m.build(&t, &mut rng)) {
            Ok(e) => {
                f(c, &mut m, &case, e, &mut rng);
            }
            Err(msg) => c.emit(panic_event("build", &t, &msg)),
        }
    }
}

pub fn c18(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, root: RegLan, rng: &mut Rng| -> bool {
        let mut calls = 0;
        let r = guard(
            || format!("start_char {:?}", case.t),
            || {
                let mg = m.mgr();
                let prefix = if rng.chance(2, 3) { vec![] } else { rng.pick(&case.cost.access).clone() };
                let e = mg.str_derivative(root, &smt(&prefix));
                let ranges: Vec<(u32, u32)> =
                    e.char_ranges().map(|s| (s.pick_start(), s.pick_end())).collect();
                let mut chars: BTreeSet<u32> = raw_letters(&case.cells, rng);
                for &(a, b) in &ranges {
                    if chars.len() < 14 {
                        around(&mut chars, a, b);
                    }
                }
                let mut q = Vec::new();
                for &ch in &chars {
                    calls += 1;
                    q.push(J::ints(&[ch as i64, mg.start_char(e, ch) as i64]));
                }
                let mut cq = Vec::new();
                let ids: Vec<ClassId> = e.class_ids().collect();
                for &id in &ids {
                    calls += 1;
                    let ans = match mg.start_class(e, id) {
                        Ok(b) => b as i64,
                        Err(x) => err_code(x),
                    };
                    let mut cc = class_chars(id, &ranges, &case.cells, rng);
                    if cc.len() > 5 {
                        rng.shuffle(&mut cc);
                        cc.truncate(5);
                    }
                    cq.push(J::A(vec![J::I(ans), J::word(&cc)]));
                }
                let mut bad = Vec::new();
                let n = ranges.len();
                for id in [ClassId::Interval(n), ClassId::Interval(n + 1 + rng.below(3)), ClassId::Complement] {
                    calls += 1;
                    let code = match mg.start_class(e, id) {
                        Ok(_) => 1,
                        Err(x) => err_code(x),
                    };
                    bad.push(J::ints(&[class_code(id), code]));
                }
                obj(
                    "startc",
                    &case.t,
                    vec![
                        ("pre", J::word(&prefix)),
                        ("L", J::word(&case.cells)),
                        ("cls", J::A(ranges.iter().map(|r| J::word(&[r.0, r.1])).collect())),
                        ("q", J::A(q)),
                        ("cq", J::A(cq)),
                        ("bad", J::A(bad)),
                    ],
                )
            },
        );
        c.calls += calls;
        emit_or_panic(c, "start_char", case, r)
    };
    let stride = if c.thorough { 1 } else { 5 };
    exhaustive(c, c.thorough, stride, &LIM, f);
    let n = c.q(1300, 20000);
    episodes(c, 18, n, 0, &LIM, f);
    let n = c.q(8, 80);
    bigs(c, 118, n, &BIG, f);
    let n = c.q(2, 40);
    wides(c, 318, n, false, f);
}

pub fn c19(c: &mut Ctx) {
    let f = |c: &mut Ctx, m: &mut M, case: &Case, e: RegLan, rng: &mut Rng| -> bool {
        let cap = case.cap;
        let mut calls = 0;
        let when = rng.below(5);
        let r = guard(
            || format!("iter_derivatives {:?}", case.t),
            || {
                let mg = m.mgr();
                // enumerations that were not finished, of the same term, or that failed
                if rng.chance(1, 3) {
                    let k = 1 + rng.below(6);
                    let d = mg.char_derivative(e, rng.below(0x30000) as u32);
                    calls += 1 + k;
                    let _ = mg.iter_derivatives(d).take(k).count();
                    let _ = mg.iter_derivatives(e).take(k).count();
                }
                if rng.chance(1, 4) {
                    calls += 2;
                    let _ = mg.try_compile(e, 1 + rng.below(4));
                    let _ = mg.is_empty_re(e);
                }
                // the iterator may run before or after the graph has been explored or compiled
                let mut order: Vec<*const RE> = Vec::new();
                if when < 2 {
                    order = mg.iter_derivatives(e).take(cap + 1).map(|x| x as *const RE).collect();
                }
                let g = derivative_graph(mg, &[e], &case.cells, cap, &BTreeSet::new(), rng, &mut calls);
                let Some((g, nodes)) = g else {
                    return obj("toomany", &case.t, vec![("cap", J::n(cap))]);
                };
                if when == 2 || when == 3 {
                    order = mg.iter_derivatives(e).take(cap + 1).map(|x| x as *const RE).collect();
                }
                let pos = |t: *const RE| nodes.iter().position(|x| std::ptr::eq(*x, t)).map_or(0, |i| i + 1);
                let n = nodes.len();
                let mut tries = Vec::new();
                let mut bounds = vec![0, 1, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 7, 2 * n];
                bounds.push(rng.below(n + 2));
                // bounds that are small modulo 2^8, 2^16 or 2^32
                let k = rng.below(n + 2);
                bounds.push(*rng.pick(&[256, 65536, 65536, 1 << 31, 1 << 32, 1 << 32, 1 << 40, 1 << 48]) + k);
                bounds.sort_unstable();
                bounds.dedup();
                rng.shuffle(&mut bounds);
                for b in bounds {
                    calls += 1;
                    match mg.try_compile(e, b) {
                        Some(a) => tries.push(J::ints(&[b.min(1 << 30) as i64, 1, a.num_states() as i64])),
                        None => tries.push(J::ints(&[b.min(1 << 30) as i64, 0, 0])),
                    }
                }
                let a = mg.compile(e);
                // (bounds over 2^30 are logged as 2^30)
                match mg.try_compile(e, usize::MAX) {
                    Some(a) => tries.push(J::ints(&[1 << 30, 1, a.num_states() as i64])),
                    None => tries.push(J::ints(&[1 << 30, 0, 0])),
                }
                if when == 4 {
                    order = mg.iter_derivatives(e).take(cap + 1).map(|x| x as *const RE).collect();
                }
                calls += order.len();
                let mut f = vec![
                    ("order", J::A(order.iter().map(|&x| J::n(pos(x))).collect())),
                    ("tries", J::A(tries)),
                    ("comp", J::n(a.num_states())),
                ];
                let mut gf = g.fields();
                gf.retain(|x| x.0 != "nul");
                f.extend(gf);
                obj("closure", &case.t, f)
            },
        );
        c.calls += calls;
        emit_or_panic(c, "iter_derivatives", case, r)
    };
    let lim = Limits { size: 22, rsize: 150, states: 60, weight: 2500, cap: 1500 };
    let stride = if c.thorough { 1 } else { 6 };
    exhaustive(c, c.thorough, stride, &lim, f);
    let n = c.q(1000, 18000);
    episodes(c, 19, n, 0, &lim, f);
    let n = c.q(10, 100);
    bigs(c, 119, n, &BIG, f);
    let n = c.q(3, 20);
    bigs(c, 219, n, &HUGE, f);
    let n = c.q(2, 40);
    wides(c, 319, n, false, f);
    // more derivatives than 16 bits can number
    if c.shard == 0 {
        let mut rng = c.rng(419);
        for _ in 0..c.q(1, 3) {
            let n = 65600 + rng.below(400);
            count_event(c, n as u32, &mut rng);
        }
    }
    let mut rng = c.rng(519);
    for _ in 0..c.q(2, 20) {
        let n = 100 + rng.below(1000);
        count_event(c, n as u32, &mut rng);
    }
}

/// A term with about n derivatives: only numbers are recorded. The reference numbers are those of
/// an exploration through char_derivative alone (one character per class).
fn count_event(c: &mut Ctx, n: u32, rng: &mut Rng) {
    let mut calls = 0;
    let style = rng.below(3);
    let r = guard(
        || format!("count {n} {style}"),
        || {
            let mut m = ReManager::new();
            let a = m.range(97, 98);
            let b = m.char(98);
            let e = match style {
                0 => m.smt_loop(a, n, n + 5),
                1 => m.smt_loop(a, 0, n),
                _ => {
                    let x = m.exp(a, n);
                    m.union(x, b)
                }
            };
            let mut nodes: HashSet<*const RE> = HashSet::new();
            let mut todo = vec![e];
            nodes.insert(e as *const RE);
            while let Some(x) = todo.pop() {
                for ch in [0, 97, 98, 99] {
                    calls += 1;
                    let d = m.char_derivative(x, ch);
                    if nodes.insert(d as *const RE) {
                        todo.push(d);
                    }
                }
            }
            let size = nodes.len();
            let order: Vec<*const RE> = m.iter_derivatives(e).take(size + 2).map(|x| x as *const RE).collect();
            let distinct: HashSet<*const RE> = order.iter().copied().collect();
            let outside = distinct.iter().filter(|x| !nodes.contains(*x)).count();
            let first = order.first().is_some_and(|x| std::ptr::eq(*x, e));
            let comp = m.compile(e).num_states();
            let mut tries = Vec::new();
            for b in [size - 1, size, size + 1, size % 65536, size + 65536, (1 << 32) + size - 1, 1 << 32] {
                calls += 1;
                let r = m.try_compile(e, b).map(|a| a.num_states());
                tries.push(J::ints(&[b.min(1 << 30) as i64, r.is_some() as i64, r.unwrap_or(0) as i64]));
            }
            J::O(vec![
                ("op", J::s("count")),
                ("t", J::A(vec![J::n(style), J::u(n)])),
                ("nodes", J::n(size)),
                ("first", J::b(first)),
                ("yielded", J::n(order.len())),
                ("distinct", J::n(distinct.len())),
                ("outside", J::n(outside)),
                ("comp", J::n(comp)),
                ("tries", J::A(tries)),
            ])
        },
    );
    c.calls += calls;
    match r {
        Ok(j) => c.emit(j),
        Err(msg) => c.emit(J::O(vec![("op", J::s("panic")), ("in", J::s(&format!("count {n} {style}"))), ("msg", J::s(&msg))])),
    }
}

// ------------------------------------------------------------------ C16

fn incl_event(c: &mut Ctx, t: &TR, u: &TR, m: &mut M, rng: &mut Rng, lim: &Limits) -> Option<bool> {
    let ct = case_of(t, lim)?;
    let cu = case_of(u, lim)?;
    let r = guard(
        || format!("included_in {t:?} {u:?}"),
        || {
            let e = m.build(t, rng);
            let f = m.build(u, rng);
            if std::ptr::eq(e, f) {
                return None;
            }
            Some(e.included_in(f))
        },
    );
    c.calls += 1;
    match r {
        Ok(Some(true)) => {
            let mut cells: BTreeSet<u32> = ct.cells.iter().copied().collect();
            cells.extend(cu.cells.iter());
            let v: Vec<u32> = cells.into_iter().collect();
            c.emit(obj("incl", t, vec![("u", u.json()), ("L", J::word(&v))]));
            Some(true)
        }
        Ok(_) => Some(false),
        Err(msg) => {
            c.emit(panic_event("included_in", t, &msg));
            Some(true)
        }
    }
}

pub fn c16(c: &mut Ctx) {
    let mut rng = c.rng(16);
    let lim = &LIM;
    // random pattern pairs; only positive answers reach the specification
    let target = c.q(1500, 25000);
    let mut pos = 0;
    let mut tried = 0usize;
    let mut seen: HashSet<(TR, TR)> = HashSet::new();
    while pos < target && tried < 60 * target {
        let p = palette(&mut rng);
        let mut m = M::own();
        let mut pool: Vec<TR> = Vec::new();
        for _ in 0..6 {
            let x = pattern(&p, &mut rng);
            let y = widen(&x, &p, &mut rng);
            let z = widen(&y, &p, &mut rng);
            pool.push(x.clone());
            pool.push(y.clone());
            pool.push(z);
            match rng.below(6) {
                0 => pool.push(std::rc::Rc::new(T::Not(x))),
                1 => pool.push(std::rc::Rc::new(T::Alt(vec![x, y]))),
                2 => pool.push(std::rc::Rc::new(T::And(vec![x, y]))),
                3 => pool.push(std::rc::Rc::new(T::Not(std::rc::Rc::new(T::Alt(vec![x, y]))))),
                4 => {
                    let q = compose(&pool, &mut rng);
                    if q.size() < 15 {
                        pool.push(q)
                    }
                }
                _ => {}
            }
        }
        for i in 0..pool.len() {
            for j in 0..pool.len() {
                if i == j || !(i / 4 == j / 4 || rng.chance(1, 4)) {
                    continue;
                }
                let key = (pool[i].clone(), pool[j].clone());
                if seen.contains(&key) {
                    continue;
                }
                tried += 1;
                let panics_before = c.events;
                if let Some(true) = incl_event(c, &pool[i], &pool[j], &mut m, &mut rng, lim) {
                    seen.insert(key);
                    if c.events > panics_before {
                        pos += 1;
                    }
                }
            }
        }
    }
    // related terms in equal contexts
    let target = c.q(900, 15000);
    pos = 0;
    tried = 0;
    while pos < target && tried < 60 * target {
        let p = palette(&mut rng);
        let mut m = M::own();
        for _ in 0..20 {
            let (x, y) = related(&p, &mut rng);
            for (x, y) in [(&x, &y), (&y, &x)] {
                let key = (x.clone(), y.clone());
                if seen.contains(&key) {
                    continue;
                }
                tried += 1;
                let before = c.events;
                if let Some(true) = incl_event(c, x, y, &mut m, &mut rng, lim) {
                    seen.insert(key);
                    if c.events > before {
                        pos += 1;
                    }
                }
            }
        }
    }
    // loops over bodies of all kinds, and expressions against intersections with complements
    let target = c.q(500, 8000);
    pos = 0;
    tried = 0;
    while pos < target && tried < 100 * target {
        let p = palette(&mut rng);
        let mut m = M::own();
        let mut pool: Vec<TR> = Vec::new();
        let mut bodies: Vec<TR> = Vec::new();
        for _ in 0..3 {
            let a = atom(&p, &mut rng);
            let b = atom(&p, &mut rng);
            let st = |x: &TR| -> TR { std::rc::Rc::new(T::Star(x.clone())) };
            bodies.push(match rng.below(7) {
                0 => a.clone(),
                1 => std::rc::Rc::new(T::Cat(vec![st(&a), st(&b)])),
                2 => std::rc::Rc::new(T::Alt(vec![a.clone(), std::rc::Rc::new(T::Eps)])),
                3 => std::rc::Rc::new(T::Cat(vec![a.clone(), st(&b)])),
                4 => std::rc::Rc::new(T::Alt(vec![st(&a), st(&b)])),
                5 => std::rc::Rc::new(T::Cat(vec![std::rc::Rc::new(T::Opt(a.clone())), std::rc::Rc::new(T::Opt(b.clone()))])),
                _ => std::rc::Rc::new(T::Not(std::rc::Rc::new(T::Cat(vec![a.clone(), b.clone()])))),
            });
            bodies.push(widen(&a, &p, &mut rng));
        }
        let looped = |x: &TR, rng: &mut Rng| -> TR {
            let i = rng.below(4) as u32;
            std::rc::Rc::new(match rng.below(4) {
                0 => T::Loop(x.clone(), i, None),
                1 => T::Pow(x.clone(), i),
                _ => T::Loop(x.clone(), i, Some(i + rng.below(4) as u32)),
            })
        };
        for _ in 0..10 {
            let b = if rng.chance(2, 3) { bodies[0].clone() } else { rng.pick(&bodies).clone() };
            let l = looped(&b, &mut rng);
            pool.push(match rng.below(6) {
                0 => std::rc::Rc::new(T::Cat(vec![l, rng.pick(&bodies).clone()])),
                1 => std::rc::Rc::new(T::Not(l)),
                _ => l,
            });
        }
        for _ in 0..6 {
            // x and not y
            let x = if rng.chance(1, 2) { rng.pick(&pool).clone() } else { rng.pick(&bodies).clone() };
            let y = if rng.chance(1, 2) { rng.pick(&pool).clone() } else { rng.pick(&bodies).clone() };
            let ny = std::rc::Rc::new(T::Not(y));
            pool.push(std::rc::Rc::new(match rng.below(4) {
                0 => T::Alt(vec![x, ny]),
                1 => T::And(vec![widen(&x, &p, &mut rng), ny]),
                _ => T::And(vec![x, ny]),
            }));
        }
        pool.extend(bodies);
        pool.retain(|x| x.size() <= 24);
        for i in 0..pool.len() {
            for j in 0..pool.len() {
                let key = (pool[i].clone(), pool[j].clone());
                if i == j || seen.contains(&key) {
                    continue;
                }
                tried += 1;
                let before = c.events;
                if let Some(true) = incl_event(c, &pool[i], &pool[j], &mut m, &mut rng, lim) {
                    seen.insert(key);
                    if c.events > before {
                        pos += 1;
                    }
                }
            }
        }
    }
    // exhaustive: concatenations of length <= 3 (thorough 4) over six elements
    let el: Vec<TR> = [
        T::All,
        T::Any,
        T::Rng(97, 97),
        T::Rng(97, 98),
        T::Rng(98, 98),
    ]
    .into_iter()
    .map(std::rc::Rc::new)
    .collect();
    let maxlen = c.q(3, 4);
    let mut pats: Vec<Vec<TR>> = vec![vec![]];
    let mut cur: Vec<Vec<TR>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = Vec::new();
        for x in &cur {
            for e in &el {
                let mut y = x.clone();
                y.push(e.clone());
                next.push(y);
            }
        }
        pats.extend(next.iter().cloned());
        cur = next;
    }
    let pats: Vec<TR> = pats.into_iter().map(|v| std::rc::Rc::new(T::Cat(v))).collect();
    let mut m = M::own();
    let handles: Vec<Option<RegLan>> =
        pats.iter().map(|t| guard(|| format!("build {t:?}"), || m.build(t, &mut rng)).ok()).collect();
    let cases: Vec<Option<Case>> = pats.iter().map(|t| case_of(t, lim)).collect();
    let keep = if c.thorough { 6 } else { 1 };
    for i in 0..pats.len() {
        for j in 0..pats.len() {
            if !c.mine() {
                continue;
            }
            let (Some(e), Some(f)) = (handles[i], handles[j]) else { continue };
            if cases[i].is_none() || cases[j].is_none() || std::ptr::eq(e, f) {
                continue;
            }
            c.calls += 1;
            match guard(|| format!("included_in {:?} {:?}", pats[i], pats[j]), || e.included_in(f)) {
                Ok(true) => {
                    // sample the (numerous) positive answers
                    if keep == 1 && (i + 3 * j) % 3 != 0 {
                        continue;
                    }
                    c.emit(obj("incl", &pats[i], vec![("u", pats[j].json()), ("L", J::word(&[0, 97, 98, 99]))]));
                }
                Ok(false) => {}
                Err(msg) => c.emit(panic_event("included_in", &pats[i], &msg)),
            }
        }
    }
    // unions pruned with the same test keep their language
    let n = c.q(500, 8000);
    let mut k = 0;
    let mut tries = 0;
    while k < n && tries < 50 * n {
        tries += 1;
        let p = palette(&mut rng);
        let mut m = M::own();
        let x = pattern(&p, &mut rng);
        let mut v = vec![x.clone()];
        let extra = 1 + rng.below(4);
        for _ in 0..extra {
            let y = match rng.below(4) {
                0 => pattern(&p, &mut rng),
                1 => std::rc::Rc::new(T::Not(pattern(&p, &mut rng))),
                _ => widen(rng.pick(&v).clone().as_ref().clone().into_cat().as_ref().unwrap_or(&x), &p, &mut rng),
            };
            v.push(y);
        }
        rng.shuffle(&mut v);
        let t = std::rc::Rc::new(T::Alt(v));
        let Some(case) = case_of(&t, lim) else { continue };
        k += 1;
        match guard(|| format!("build {t:?}"), || m.build(&t, &mut rng)) {
            Ok(e) => {
                let r = lang_event(c, &mut m, &case, e, &mut rng, 8);
                emit_or_panic(c, "membership", &case, r);
            }
            Err(msg) => c.emit(panic_event("build", &t, &msg)),
        }
    }
}

impl T {
    fn into_cat(self) -> Option<TR> {
        match self {
            T::Cat(_) => Some(std::rc::Rc::new(self)),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ C10

pub fn c10(c: &mut Ctx) {
    let mut rng = c.rng(10);
    let lim = &LIM;
    let target = c.q(7000, 60000);
    let mut k = 0;
    let mut tries = 0;
    let mut pool: Vec<TR> = Vec::new();
    let mut p = palette(&mut rng);
    while k < target && tries < 20 * target {
        tries += 1;
        if tries % 25 == 1 {
            p = palette(&mut rng);
            pool = (0..4).map(|_| atom(&p, &mut rng)).collect();
        }
        let t = match rng.below(5) {
            0 => pattern(&p, &mut rng),
            1 => {
                let n = 1 + rng.below(3);
                std::rc::Rc::new(T::Str((0..n).map(|_| rng.pick(&p).0).collect()))
            }
            _ => compose(&pool, &mut rng),
        };
        if t.size() > 18 {
            continue;
        }
        pool.push(t.clone());
        let Some(case) = case_of(&t, lim) else { continue };
        // subjects: mostly over few letters, with planted members
        for _ in 0..3 {
            let mut s: Vec<u32> = Vec::new();
            let n = rng.below(9);
            while s.len() < n {
                if rng.chance(1, 4) && !case.cost.final_words.is_empty() {
                    s.extend(rng.pick(&case.cost.final_words));
                } else {
                    let (a, b) = *rng.pick(&p);
                    s.push(if rng.chance(1, 2) { a } else { b });
                }
            }
            s.truncate(12);
            let m = rng.below(4);
            let rep: Vec<u32> = (0..m).map(|_| if rng.chance(1, 2) { rng.pick(&p).0 } else { 0x78 }).collect();
            let all = rng.chance(1, 2);
            k += 1;
            repl_event(c, &t, &s, &rep, all, &mut rng);
        }
    }
    // long subjects and long matches
    let target = c.q(80, 1500);
    let mut k = 0;
    while k < target {
        let p = palette(&mut rng);
        let lt = |rng: &mut Rng| -> u32 { rng.pick(&p).0 };
        let n = 1 + rng.below(3);
        let x: Vec<u32> = (0..n).map(|_| lt(&mut rng)).collect();
        let body = std::rc::Rc::new(if n == 1 && rng.chance(1, 2) {
            let (a, b) = *rng.pick(&p);
            T::Rng(a.min(x[0]), b.max(x[0]))
        } else {
            T::Str(x.clone())
        });
        let len = *rng.pick(&[17usize, 33, 63, 64, 65, 100, 101, 127, 128, 129, 150]);
        let reps = 1 + len / n;
        let rep_t = std::rc::Rc::new(match rng.below(5) {
            0 => T::Pow(body, reps as u32),
            1 => T::Loop(body, (reps - reps / 5) as u32, None),
            2 => T::Plus(body),
            _ => T::Star(body),
        });
        let end = if rng.chance(3, 4) { vec![lt(&mut rng)] } else { vec![] };
        let t = std::rc::Rc::new(T::Cat(vec![rep_t, std::rc::Rc::new(T::Str(end.clone()))]));
        let Some(_) = case_of(&t, &BIG) else {
            k += 1;
            continue;
        };
        let mut s: Vec<u32> = Vec::new();
        for _ in 0..rng.below(2) * rng.below(70) {
            s.push(lt(&mut rng));
        }
        for _ in 0..reps {
            s.extend(&x);
        }
        s.extend(&end);
        for _ in 0..rng.below(4) {
            s.push(lt(&mut rng));
        }
        if rng.chance(1, 6) {
            s.extend(&x);
            s.extend(&end);
        }
        let rep: Vec<u32> = (0..rng.below(3)).map(|_| if rng.chance(1, 2) { lt(&mut rng) } else { 0x78 }).collect();
        k += 1;
        let all = rng.chance(1, 2);
        repl_event(c, &t, &s, &rep, all, &mut rng);
    }
}

fn repl_event(c: &mut Ctx, t: &TR, s: &[u32], rep: &[u32], all: bool, rng: &mut Rng) {
    c.calls += 1;
    let r = guard(
        || format!("str_replace_re all={all} {s:?} {t:?} {rep:?}"),
        || {
            let e = M::Wrap.build(t, rng);
            let res = if all {
                w::str_replace_re_all(&smt(s), e, &smt(rep))
            } else {
                w::str_replace_re(&smt(s), e, &smt(rep))
            };
            res.iter().copied().collect::<Vec<u32>>()
        },
    );
    match r {
        Ok(res) => c.emit(obj(
            "repl",
            t,
            vec![("s", J::word(s)), ("r", J::word(rep)), ("all", J::b(all)), ("res", J::word(&res))],
        )),
        Err(msg) => c.emit(panic_event("str_replace_re", t, &msg)),
    }
}
