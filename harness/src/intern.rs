//! C07: hash-consing. Sessions (interned handles) and independence of the history.
use crate::lang::{case_of, panic_event, Case, Limits};
use crate::obs::*;
use crate::term::*;
use crate::util::*;
use aws_smt_strings::character_sets::CharSet;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::MAX_CHAR;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// A constructor call: name, scalar parameters, argument handles
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct K {
    op: &'static str,
    par: Vec<u32>,
    arg: Vec<usize>,
}

const INF: u32 = u32::MAX;

fn lr(i: u32, j: u32) -> LoopRange {
    if j == INF {
        LoopRange::infinite(i)
    } else {
        LoopRange::finite(i, j)
    }
}

fn call(m: &mut M, k: &K, a: &[RegLan]) -> RegLan {
    let p = &k.par;
    let v = a.to_vec();
    match m {
        M::Own(m) => match k.op {
            "empty" => m.empty(),
            "full" => m.full(),
            "epsilon" => m.epsilon(),
            "all_chars" => m.all_chars(),
            "sigma_plus" => m.sigma_plus(),
            "char" => m.char(p[0]),
            "range" => m.range(p[0], p[1]),
            "char_set" => m.char_set(CharSet::range(p[0], p[1])),
            "smt_range" => m.smt_range(&smt(&[p[0]]), &smt(&[p[1]])),
            "str" => m.str(&smt(p)),
            "concat" => m.concat(a[0], a[1]),
            "concat_list" => m.concat_list(v),
            "union" => m.union(a[0], a[1]),
            "union_list" => m.union_list(v),
            "inter" => m.inter(a[0], a[1]),
            "inter_list" => m.inter_list(v),
            "complement" => m.complement(a[0]),
            "diff" => m.diff(a[0], a[1]),
            "diff_list" => m.diff_list(a[0], v[1..].to_vec()),
            "star" => m.star(a[0]),
            "plus" => m.plus(a[0]),
            "opt" => m.opt(a[0]),
            "exp" => m.exp(a[0], p[0]),
            "smt_loop" => m.smt_loop(a[0], p[0], p[1]),
            "mk_loop" => m.mk_loop(a[0], lr(p[0], p[1])),
            _ => unreachable!(),
        },
        M::Wrap => match k.op {
            "empty" => w::re_none(),
            "full" => w::re_all(),
            "epsilon" => w::str_to_re(&smt(&[])),
            "all_chars" => w::re_allchar(),
            "sigma_plus" => w::re_range(&smt(&[1]), &smt(&[0])),
            "char" => w::str_to_re(&smt(&[p[0]])),
            "range" | "char_set" | "smt_range" => w::re_range(&smt(&[p[0]]), &smt(&[p[1]])),
            "str" => w::str_to_re(&smt(p)),
            "concat" => w::re_concat(a[0], a[1]),
            "concat_list" => w::re_concat_list(v),
            "union" => w::re_union(a[0], a[1]),
            "union_list" => w::re_union_list(v),
            "inter" => w::re_inter(a[0], a[1]),
            "inter_list" => w::re_inter_list(v),
            "complement" => w::re_comp(a[0]),
            "diff" => w::re_diff(a[0], a[1]),
            "diff_list" => w::re_diff_list(a[0], v[1..].to_vec()),
            "star" => w::re_star(a[0]),
            "plus" => w::re_plus(a[0]),
            "opt" => w::re_opt(a[0]),
            "exp" => w::re_power(a[0], p[0]),
            "smt_loop" => w::re_loop(a[0], p[0], p[1]),
            "mk_loop" => w::re_loop(a[0], p[0], if p[1] == INF { p[0] + 1 } else { p[1] }),
            _ => unreachable!(),
        },
    }
}

const NULLARY: [&str; 5] = ["empty", "full", "epsilon", "all_chars", "sigma_plus"];

/// A random call. size: estimated size of the term behind each handle.
fn random_call(pal: &[(u32, u32)], size: &[usize], r: &mut Rng, max: usize) -> Option<(K, usize)> {
    let small: Vec<usize> = (0..size.len()).filter(|&i| size[i] <= max).collect();
    let none = small.is_empty();
    let h = |r: &mut Rng| -> usize {
        // recent handles and old ones
        if r.chance(1, 2) {
            small[small.len() - 1 - r.below(small.len().min(6))]
        } else {
            *r.pick(&small)
        }
    };
    let k = |op, par: Vec<u32>, arg: Vec<usize>| Some(K { op, par, arg });
    let x = match r.below(if none { 4 } else { 20 }) {
        0 => k(*r.pick(&NULLARY), vec![], vec![]),
        1 => {
            let (a, b) = *r.pick(pal);
            match r.below(3) {
                0 => k("char", vec![a], vec![]),
                1 => k("char", vec![b], vec![]),
                _ => k("str", vec![a], vec![]),
            }
        }
        2 => {
            let (a, b) = *r.pick(pal);
            k(*r.pick(&["range", "char_set", "smt_range"]), vec![a, b], vec![])
        }
        3 => {
            let n = r.below(4);
            let s: Vec<u32> = (0..n)
                .map(|_| {
                    let (a, b) = *r.pick(pal);
                    if r.chance(1, 2) { a } else { b }
                })
                .collect();
            k("str", s, vec![])
        }
        4 | 5 => {
            let (a, b) = (h(r), h(r));
            k("concat", vec![], vec![a, b])
        }
        6 | 7 => {
            let (a, b) = (h(r), h(r));
            k("union", vec![], vec![a, b])
        }
        8 | 9 => {
            let (a, b) = (h(r), h(r));
            k("inter", vec![], vec![a, b])
        }
        10 | 11 => {
            let n = r.below(5);
            let v = (0..n).map(|_| h(r)).collect();
            k(*r.pick(&["concat_list", "union_list", "inter_list", "union_list", "inter_list"]), vec![], v)
        }
        12 | 13 | 14 => {
            let a = h(r);
            k("complement", vec![], vec![a])
        }
        15 => {
            let n = r.below(3) + 1;
            let mut v = vec![h(r)];
            for _ in 0..n {
                v.push(h(r));
            }
            if n == 1 {
                k("diff", vec![], v)
            } else {
                k("diff_list", vec![], v)
            }
        }
        16 | 17 => {
            let a = h(r);
            k(*r.pick(&["star", "plus", "opt"]), vec![], vec![a])
        }
        18 => {
            let a = h(r);
            let n = r.below(4) as u32;
            if r.chance(1, 2) {
                k("exp", vec![n], vec![a])
            } else {
                k("smt_loop", vec![n, r.below(5) as u32], vec![a])
            }
        }
        _ => {
            let a = h(r);
            let i = r.below(3) as u32;
            let j = if r.chance(1, 3) { INF } else { i + r.below(3) as u32 };
            k("mk_loop", vec![i, j], vec![a])
        }
    }?;
    let f = if x.par.len() == 1 && x.op == "exp" { x.par[0] as usize } else { 1 };
    let s = 1 + x.arg.iter().map(|&i| size[i]).sum::<usize>() * f.max(1) + x.par.len() / 2;
    Some((x, s))
}

struct Table {
    hs: Vec<RegLan>,
    index: HashMap<*const RE, usize>,
    size: Vec<usize>,
}

impl Table {
    fn handle(&mut self, e: RegLan, size: usize) -> usize {
        match self.index.get(&(e as *const RE)) {
            Some(&h) => {
                self.size[h] = self.size[h].min(size);
                h
            }
            None => {
                let h = self.hs.len();
                self.hs.push(e);
                self.index.insert(e as *const RE, h);
                self.size.push(size);
                h
            }
        }
    }
}

fn mk_step(k: &K, h: i64) -> J {
    J::A(vec![
        J::s("mk"),
        J::s(k.op),
        J::A(k.par.iter().map(|&x| J::I(if x == INF { -1 } else { x as i64 })).collect()),
        J::A(k.arg.iter().map(|&x| J::n(x + 1)).collect()),
        J::I(h),
    ])
}

/// Fill the manager: terms, complements, derivatives
fn bulk(m: &mut M, base: u32, n: u32) {
    match m {
        M::Own(m) => {
            let mut last = m.epsilon();
            for i in 0..n {
                let c = m.char(base + i);
                let x = m.union(c, last);
                m.char_derivative(x, base + i);
                if i % 3 == 0 {
                    let y = m.complement(c);
                    m.char_derivative(y, base);
                }
                last = c;
            }
        }
        M::Wrap => {
            let mut last = w::re_none();
            for i in 0..n {
                let c = w::str_to_re(&smt(&[base + i]));
                let x = w::re_union(c, last);
                w::str_in_re(&smt(&[base + i]), x);
                last = c;
            }
        }
    }
}

/// One manager, many calls. Returns the event and the number of calls.
fn session(m: &mut M, rng: &mut Rng, steps: usize) -> (J, usize) {
    let pal = palette(rng);
    let mut t = Table { hs: vec![], index: HashMap::new(), size: vec![] };
    let mut keys: Vec<K> = Vec::new();
    let mut log: Vec<J> = Vec::new();
    let mut calls = 0;
    // a failed call ends the session: handle 0 is never accepted
    let mut dead = false;
    let mut n = 0;
    while n < steps && !dead {
        n += 1;
        let mode = rng.below(10);
        if mode < 5 || keys.len() < 3 {
            let Some((k, s)) = random_call(&pal, &t.size, rng, 14) else { continue };
            if s > 40 {
                continue;
            }
            calls += 1;
            let a: Vec<RegLan> = k.arg.iter().map(|&i| t.hs[i]).collect();
            match guard(|| format!("{k:?}"), || call(m, &k, &a)) {
                Ok(e) => {
                    let h = t.handle(e, s);
                    log.push(mk_step(&k, h as i64 + 1));
                    keys.push(k);
                }
                Err(_) => {
                    log.push(mk_step(&k, 0));
                    dead = true;
                }
            }
        } else if mode < 8 {
            // the same call again
            let k = if rng.chance(1, 3) {
                // complement of a complement, complement again
                let h = rng.below(t.hs.len());
                K { op: "complement", par: vec![], arg: vec![h] }
            } else {
                rng.pick(&keys).clone()
            };
            calls += 1;
            let a: Vec<RegLan> = k.arg.iter().map(|&i| t.hs[i]).collect();
            let s = 1 + k.arg.iter().map(|&i| t.size[i]).sum::<usize>();
            match guard(|| format!("{k:?}"), || call(m, &k, &a)) {
                Ok(e) => {
                    let h = t.handle(e, s);
                    log.push(mk_step(&k, h as i64 + 1));
                    keys.push(k);
                }
                Err(_) => {
                    log.push(mk_step(&k, 0));
                    dead = true;
                }
            }
        } else if rng.chance(1, 50) {
            // very many other terms and derivatives
            let n = *rng.pick(&[100u32, 700, 1500, 3000]);
            let base = rng.below(150000) as u32;
            calls += n as usize;
            let r = guard(|| "bulk".to_string(), || bulk(m, base, n));
            log.push(J::A(vec![J::s("use"), J::s(if r.is_ok() { "bulk" } else { "panic" }), J::I(1), J::I(0)]));
            dead = r.is_err();
        } else {
            // other uses of the manager
            let small: Vec<usize> = (0..t.hs.len()).filter(|&i| t.size[i] <= 8).collect();
            if small.is_empty() {
                continue;
            }
            let h = *rng.pick(&small);
            let e = t.hs[h];
            calls += 1;
            let (a, b) = *rng.pick(&pal);
            let ch = *rng.pick(&[a, b, 0, MAX_CHAR]);
            let mut what = "member";
            let r = guard(
                || format!("noise on {e}"),
                || match m {
                    M::Own(m) => match rng.below(6) {
                        0 | 1 | 2 => {
                            what = "derivative";
                            Some(m.char_derivative(e, ch))
                        }
                        3 => {
                            what = "compile";
                            let _ = m.try_compile(e, 40);
                            None
                        }
                        4 => {
                            what = "emptiness";
                            let _ = m.is_empty_re(e);
                            let _ = m.get_string(e);
                            None
                        }
                        _ => {
                            let _ = m.str_in_re(&smt(&[ch, a, b]), e);
                            None
                        }
                    },
                    M::Wrap => {
                        let s = smt(&[ch, a, b]);
                        match rng.below(3) {
                            0 => {
                                let _ = w::str_in_re(&s, e);
                            }
                            1 => {
                                let _ = w::str_replace_re(&s, e, &s);
                            }
                            _ => {
                                let _ = w::str_replace_re_all(&s, e, &s);
                            }
                        }
                        None
                    }
                },
            );
            match r {
                Ok(d) => {
                    let x = d.map_or(0, |d| t.handle(d, t.size[h] + 3) + 1);
                    log.push(J::A(vec![J::s("use"), J::s(what), J::n(h + 1), J::n(x)]));
                }
                Err(_) => {
                    log.push(J::A(vec![J::s("use"), J::s("panic"), J::n(h + 1), J::I(0)]));
                    dead = true;
                }
            }
        }
    }
    // comparisons: for some handles, everything that compares equal
    let nh = t.hs.len();
    for _ in 0..12.min(nh) {
        let a = rng.below(nh);
        let eq: Vec<J> = (0..nh).filter(|&b| *t.hs[a] == *t.hs[b]).map(|b| J::n(b + 1)).collect();
        let ne: Vec<J> = (0..nh).filter(|&b| !(*t.hs[a] != *t.hs[b])).map(|b| J::n(b + 1)).collect();
        let ord: Vec<J> = (0..nh)
            .filter(|&b| t.hs[a].cmp(t.hs[b]) == std::cmp::Ordering::Equal)
            .map(|b| J::n(b + 1))
            .collect();
        calls += nh;
        log.push(J::A(vec![J::s("cmp"), J::n(a + 1), J::A(eq), J::A(ne), J::A(ord)]));
    }
    let e = J::O(vec![("op", J::s("session")), ("nh", J::n(nh)), ("steps", J::A(log))]);
    (e, calls)
}

/// Derivative table over fixed letters
fn table(m: &mut ReManager, root: RegLan, letters: &[u32], cap: usize, calls: &mut usize) -> Option<(Vec<bool>, Vec<Vec<usize>>)> {
    let mut nodes = vec![root];
    let mut index: HashMap<*const RE, usize> = HashMap::new();
    index.insert(root as *const RE, 1);
    let mut succ = Vec::new();
    let mut i = 0;
    while i < nodes.len() {
        let mut row = Vec::new();
        for &c in letters {
            *calls += 1;
            let d = m.char_derivative(nodes[i], c);
            let next = nodes.len() + 1;
            let k = *index.entry(d as *const RE).or_insert(next);
            if k == next {
                nodes.push(d);
                if nodes.len() > cap {
                    return None;
                }
            }
            row.push(k);
        }
        succ.push(row);
        i += 1;
    }
    Some((nodes.iter().map(|e| e.nullable).collect(), succ))
}

/// Sub-terms of t, and some relatives, in random order
fn relatives(t: &TR, r: &mut Rng) -> Vec<TR> {
    let mut v: Vec<TR> = Vec::new();
    let mut todo = vec![t.clone()];
    while let Some(x) = todo.pop() {
        todo.extend(children(&x));
        v.push(x);
    }
    v.remove(0);
    let n = v.len();
    for i in 0..n {
        if r.chance(1, 3) {
            v.push(Rc::new(T::Not(v[i].clone())));
        }
        if r.chance(1, 6) {
            v.push(Rc::new(T::Star(v[i].clone())));
        }
        if r.chance(1, 6) {
            let j = r.below(n);
            v.push(Rc::new(T::Alt(vec![v[i].clone(), v[j].clone()])));
        }
        if r.chance(1, 8) {
            let j = r.below(n);
            v.push(Rc::new(T::Cat(vec![v[i].clone(), v[j].clone()])));
        }
        if r.chance(1, 8) {
            let j = r.below(n);
            v.push(Rc::new(T::And(vec![v[i].clone(), v[j].clone()])));
        }
    }
    r.shuffle(&mut v);
    let keep = r.below(v.len() + 1);
    v.truncate(keep.min(14));
    v
}

/// A history before the construction of t
fn perturb(m: &mut M, case: &Case, pal: &[(u32, u32)], r: &mut Rng) {
    for x in relatives(&case.t, r) {
        let Some(cx) = case_of(&x, &Limits { size: 24, rsize: 150, states: 40, weight: 1200, cap: 200 }) else { continue };
        let e = m.build(&x, r);
        use_term(m, e, &cx, r);
    }
    for _ in 0..r.below(6) {
        let x = atom(pal, r);
        let _ = m.build(&x, r);
    }
}

fn use_term(m: &mut M, e: RegLan, cx: &Case, r: &mut Rng) {
    match m {
        M::Own(m) => match r.below(6) {
            0 => {
                let _ = m.try_compile(e, 30);
            }
            1 => {
                let _ = m.is_empty_re(e);
            }
            2 | 3 => {
                let c = *r.pick(&cx.cells);
                let d = m.char_derivative(e, c);
                let c = r.pick(&cx.cells).saturating_sub(1);
                let _ = m.char_derivative(d, c);
            }
            4 => {
                let _ = m.str_in_re(&smt(r.pick(&cx.cost.access)), e);
            }
            _ => {}
        },
        M::Wrap => {
            if r.chance(1, 2) {
                let _ = w::str_in_re(&smt(r.pick(&cx.cost.access)), e);
            }
        }
    }
}

/// A term that is sensitive to the order of ids: unions/intersections of terms and complements
fn order_term(pal: &[(u32, u32)], r: &mut Rng) -> TR {
    let mut pool: Vec<TR> = (0..3).map(|_| atom(pal, r)).collect();
    for _ in 0..4 {
        let x = match r.below(3) {
            0 => pattern(pal, r),
            _ => compose(&pool, r),
        };
        if x.size() <= 9 {
            pool.push(x);
        }
    }
    let n = 2 + r.below(4);
    let mut v: Vec<TR> = Vec::new();
    for _ in 0..n {
        let x = r.pick(&pool).clone();
        v.push(if r.chance(1, 3) { Rc::new(T::Not(x)) } else { x });
    }
    match r.below(4) {
        0 => Rc::new(T::And(v)),
        1 => {
            let x = v.pop().unwrap();
            Rc::new(T::Cat(vec![x, Rc::new(T::Alt(v))]))
        }
        2 => {
            let x = v.pop().unwrap();
            Rc::new(T::Diff(x, v))
        }
        _ => Rc::new(T::Alt(v)),
    }
}

fn test_words(case: &Case, r: &mut Rng) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    v.extend(case.cost.final_words.iter().cloned());
    for _ in 0..14 {
        let mut x = r.pick(&case.cost.access).clone();
        for _ in 0..r.below(3) {
            x.push(*r.pick(&case.cells));
        }
        v.push(x);
    }
    v
}

pub fn c07(c: &mut Ctx) {
    let mut rng = c.rng(7);
    // sessions
    let mut long = M::own();
    for i in 0..c.q(180, 3000) {
        let n = if i % 8 == 0 { 220 } else { 70 };
        let (e, calls) = match i % 5 {
            0 => session(&mut M::Wrap, &mut rng, n),
            1 => session(&mut long, &mut rng, n),
            2 if i % 3 == 0 => match crate::lang::aged(c, &mut rng) {
                Some(mut m) => session(&mut m, &mut rng, n),
                None => continue,
            },
            _ => session(&mut M::own(), &mut rng, n),
        };
        c.calls += calls;
        c.emit(e);
    }
    numbers(c, &mut rng);
    // wrappers in other threads, at the same time
    for _ in 0..c.q(8, 100) {
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let mut r = Rng::new(rng.next());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || session(&mut M::Wrap, &mut r, 80))
                    .unwrap()
            })
            .collect();
        for h in hs {
            let (e, calls) = h.join().unwrap();
            c.calls += calls;
            c.emit(e);
        }
    }
    // the same construction after different histories
    let lim = Limits { size: 26, rsize: 150, states: 40, weight: 1500, cap: 200 };
    let mut done = 0;
    let mut tries = 0;
    while done < c.q(500, 8000) && tries < 400_000 {
        tries += 1;
        let pal = palette(&mut rng);
        let t = if rng.chance(1, 3) {
            let mut pool: Vec<TR> = (0..3).map(|_| atom(&pal, &mut rng)).collect();
            for _ in 0..5 {
                let x = compose(&pool, &mut rng);
                if x.size() <= lim.size {
                    pool.push(x);
                }
            }
            pool.pop().unwrap()
        } else {
            order_term(&pal, &mut rng)
        };
        if t.size() < 3 {
            continue;
        }
        let Some(case) = case_of(&t, &lim) else { continue };
        done += 1;
        if done % 30 == 0 {
            long = if done % 60 == 0 { M::own() } else { crate::lang::aged(c, &mut rng).unwrap_or(M::own()) };
        }
        let wseed = Rng::new(rng.next()); // the choice of API calls: the same in every history
        let mut calls = 0;
        if done % 4 == 0 {
            // wrappers: this thread's manager (with all its history), a new thread, an own manager
            let words = test_words(&case, &mut rng);
            let t2 = format!("{:?}", t);
            let (w1, w2) = (words.clone(), words.clone());
            let seed = rng.next();
            let res = guard(
                || format!("wrappers {t2}"),
                || {
                    let mut m = M::Wrap;
                    perturb(&mut m, &case, &pal, &mut rng);
                    let e = m.build(&t, &mut wseed.clone());
                    let here: Vec<bool> = w1.iter().map(|x| m.member(x, e)).collect();
                    let mut m = M::own();
                    let e = m.build(&t, &mut wseed.clone());
                    let own: Vec<bool> = w1.iter().map(|x| m.member(x, e)).collect();
                    // terms hold Rc: rebuild the term in the thread from its own generator
                    (here, own)
                },
            );
            let tt = SendTerm(t.clone_deep());
            let ws = wseed.clone();
            let there = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let tt = tt;
                    let t = tt.0;
                    let mut r = Rng::new(seed);
                    guard(
                        || format!("wrappers in a new thread {t:?}"),
                        || {
                            let mut m = M::Wrap;
                            if r.chance(1, 8) {
                                bulk(&mut m, 300, 4500);
                            }
                            for _ in 0..r.below(4) {
                                let p = palette(&mut r);
                                let a = atom(&p, &mut r);
                                let _ = m.build(&a, &mut r);
                            }
                            let e = m.build(&t, &mut ws.clone());
                            w2.iter().map(|x| m.member(x, e)).collect::<Vec<bool>>()
                        },
                    )
                })
                .unwrap()
                .join()
                .unwrap();
            c.calls += 3 * words.len();
            match (res, there) {
                (Ok((a, b)), Ok(d)) => {
                    let f = |v: &[bool]| J::A(v.iter().map(|&x| J::b(x)).collect());
                    c.emit(J::O(vec![
                        ("op", J::s("answers")),
                        ("t", t.json()),
                        ("words", J::A(words.iter().map(|x| J::word(x)).collect())),
                        ("here", f(&a)),
                        ("own", f(&b)),
                        ("there", f(&d)),
                    ]));
                }
                (Err(x), _) | (_, Err(x)) => c.emit(panic_event("wrappers", &t, &x)),
            }
            continue;
        }
        let mut letters: BTreeSet<u32> = raw_letters(&case.cells, &mut rng);
        letters.insert(0);
        letters.insert(MAX_CHAR);
        let letters: Vec<u32> = letters.into_iter().collect();
        let use_long = done % 3 == 0;
        let r = guard(
            || format!("histories {t:?}"),
            || {
                let mut a = M::own();
                let ea = a.build(&t, &mut wseed.clone());
                let mut fresh = if rng.chance(1, 12) { M::aged(&mut rng) } else { M::own() };
                let b = if use_long { &mut long } else { &mut fresh };
                perturb(b, &case, &pal, &mut rng);
                let eb = b.build(&t, &mut wseed.clone());
                perturb(b, &case, &pal, &mut rng);
                let mut again = std::ptr::eq(eb, b.build(&t, &mut wseed.clone()));
                let ta = table(a.mgr(), ea, &letters, lim.cap, &mut calls)?;
                let tb = table(b.mgr(), eb, &letters, lim.cap, &mut calls)?;
                again &= std::ptr::eq(eb, b.build(&t, &mut wseed.clone()));
                again &= std::ptr::eq(ea, a.build(&t, &mut wseed.clone()));
                Some((ta, tb, again))
            },
        );
        c.calls += calls;
        match r {
            Ok(Some((ta, tb, again))) => {
                // letters that behave the same everywhere are shown once
                let mut cols: Vec<usize> = Vec::new();
                for l in 0..letters.len() {
                    let same = |o: usize| {
                        ta.1.iter().all(|row| row[l] == row[o]) && tb.1.iter().all(|row| row[l] == row[o])
                    };
                    if !cols.iter().any(|&o| same(o)) {
                        cols.push(l);
                    }
                }
                let pick = |s: &Vec<Vec<usize>>| {
                    J::A(s.iter().map(|row| J::A(cols.iter().map(|&l| J::n(row[l])).collect())).collect())
                };
                let nul = |v: &Vec<bool>| J::A(v.iter().map(|&b| J::b(b)).collect());
                c.emit(J::O(vec![
                    ("op", J::s("history")),
                    ("t", t.json()),
                    ("L", J::A(cols.iter().map(|&l| J::u(letters[l])).collect())),
                    ("nul", nul(&ta.0)),
                    ("succ", pick(&ta.1)),
                    ("nul2", nul(&tb.0)),
                    ("succ2", pick(&tb.1)),
                    ("again", J::b(again)),
                ]));
            }
            Ok(None) => {}
            Err(x) => {
                long = M::own();
                c.emit(panic_event("histories", &t, &x));
            }
        }
    }
}

/// The constructors with number parameters: loops of the same body with different (and large)
/// bounds, ranges of characters with different ends, one after the other.
fn numbers(c: &mut Ctx, rng: &mut Rng) {
    const NUM: [u32; 24] = [
        0, 1, 2, 3, 5, 127, 128, 254, 255, 256, 257, 258, 511, 512, 4095, 4096, 32768, 65535, 65536, 65537, 65538,
        1 << 24, (1 << 31) + 1, u32::MAX - 1,
    ];
    const CHR: [u32; 18] = [
        0, 1, 2, 5, 97, 254, 255, 256, 257, 261, 0xFFFF, 0x10000, 0x10001, 0x10005, 0x10061, 0x20000, 0x20061, MAX_CHAR,
    ];
    for _ in 0..c.q(60, 900) {
        let body_word: Vec<u32> = match rng.below(3) {
            0 => vec![97],
            1 => vec![98, 97],
            _ => vec![*rng.pick(&CHR)],
        };
        let looping = rng.chance(2, 3);
        // the constructions: all of the same shape
        let mut ks: Vec<K> = Vec::new();
        let few: Vec<u32> = (0..3 + rng.below(4)).map(|_| *rng.pick(if looping { &NUM[..] } else { &CHR[..] })).collect();
        let mix = rng.below(4);
        for _ in 0..3 + rng.below(5) {
            let (mut i, mut j) = (*rng.pick(&few), *rng.pick(&few));
            if rng.chance(1, 3) {
                // pairs that are the same number when packed into one
                let w = *rng.pick(&[256u32, 65536, 65536, 65536, 131072]);
                if let Some(k) = ks.last() {
                    if k.par.len() == 2 && k.par[1] != INF {
                        let (a, b) = (k.par[0], k.par[1]);
                        (i, j) = match rng.below(4) {
                            0 if a > 0 => (a - 1, b.saturating_add(w)),
                            1 if b >= w => (a + 1, b - w),
                            2 => (a, b.saturating_add(w)),
                            _ => (a.saturating_add(w), b.saturating_add(w)),
                        };
                    }
                }
            }
            if i > j {
                std::mem::swap(&mut i, &mut j);
            }
            if !looping {
                j = j.min(MAX_CHAR);
                i = i.min(j);
            }
            let (op, par) = if !looping {
                (*rng.pick(&["range", "range", "smt_range", "char_set"]), vec![i, j])
            } else {
                match if mix == 0 { rng.below(4) } else { mix } {
                    0 => ("exp", vec![i]),
                    1 if rng.chance(1, 4) => ("mk_loop", vec![i, INF]),
                    1 => ("mk_loop", vec![i, j]),
                    2 if rng.chance(1, 5) => ("exp", vec![j]),
                    _ => ("smt_loop", vec![i, j]),
                }
            };
            ks.push(K { op, par, arg: if looping { vec![0] } else { vec![] } });
        }
        // probes: numbers of copies of the body, or characters
        let mut probes: BTreeSet<u32> = BTreeSet::new();
        for k in &ks {
            for &x in &k.par {
                for d in [x.saturating_sub(1), x, x.saturating_add(1), x % 256, x % 65536] {
                    if looping && d <= 1100 || !looping && d <= MAX_CHAR {
                        probes.insert(d);
                    }
                }
            }
        }
        // few long ones
        let mut long: Vec<u32> = ks.iter().flat_map(|k| k.par.iter().copied()).filter(|&x| x > 1100 && x < 70000).collect();
        if looping && !long.is_empty() && rng.chance(1, 6) {
            let x = *rng.pick(&long);
            probes.insert(x);
            probes.insert(x + 1);
        }
        long.clear();
        let probes: Vec<u32> = probes.into_iter().collect();
        let word = |x: u32| -> Vec<u32> {
            if looping { body_word.iter().copied().cycle().take(body_word.len() * x as usize).collect() } else { vec![x] }
        };
        let last = ks.pop().unwrap();
        let answer = |m: &mut M, before: &[K]| -> Vec<J> {
            let b = match m {
                M::Own(m) => m.str(&smt(&body_word)),
                M::Wrap => w::str_to_re(&smt(&body_word)),
            };
            for k in before {
                let a = vec![b; k.arg.len()];
                let _ = call(m, k, &a);
            }
            let a = vec![b; last.arg.len()];
            let e = call(m, &last, &a);
            probes.iter().map(|&x| J::b(m.member(&word(x), e))).collect()
        };
        // a term is as good as any other that is the same for the wrappers
        let wrapped = !(last.op == "mk_loop");
        let r = guard(
            || format!("numbers {body_word:?} {ks:?} {last:?}"),
            || {
                let own = answer(&mut M::own(), &[]);
                let here = if wrapped && rng.chance(1, 2) { answer(&mut M::Wrap, &ks) } else { answer(&mut M::own(), &ks) };
                let mut ks = ks.clone();
                rng.shuffle(&mut ks);
                let there = if wrapped && rng.chance(1, 2) { answer(&mut M::Wrap, &ks) } else { answer(&mut M::aged(rng), &ks) };
                (own, here, there)
            },
        );
        c.calls += 3 * probes.len();
        let what = J::A(vec![
            J::s("numbers"),
            J::word(&body_word),
            J::s(last.op),
            J::A(last.par.iter().map(|&x| J::I(if x == INF { -1 } else { (x as i64).min(1 << 30) })).collect()),
            J::s(&format!("{ks:?}")),
        ]);
        match r {
            Ok((own, here, there)) => c.emit(J::O(vec![
                ("op", J::s("answers")),
                ("t", what),
                ("words", J::A(probes.iter().map(|&x| J::u(x)).collect())),
                ("here", J::A(here)),
                ("own", J::A(own)),
                ("there", J::A(there)),
            ])),
            Err(x) => c.emit(J::O(vec![("op", J::s("panic")), ("in", what), ("msg", J::s(&x))])),
        }
    }
}

/// A term with no sharing, moved to another thread
struct SendTerm(TR);
unsafe impl Send for SendTerm {}

trait Deep {
    fn clone_deep(&self) -> TR;
}
impl Deep for TR {
    fn clone_deep(&self) -> TR {
        let l = |v: &Vec<TR>| v.iter().map(|x| x.clone_deep()).collect::<Vec<TR>>();
        Rc::new(match &**self {
            T::Cat(v) => T::Cat(l(v)),
            T::Alt(v) => T::Alt(l(v)),
            T::And(v) => T::And(l(v)),
            T::Diff(x, v) => T::Diff(x.clone_deep(), l(v)),
            T::Not(x) => T::Not(x.clone_deep()),
            T::Star(x) => T::Star(x.clone_deep()),
            T::Plus(x) => T::Plus(x.clone_deep()),
            T::Opt(x) => T::Opt(x.clone_deep()),
            T::Pow(x, k) => T::Pow(x.clone_deep(), *k),
            T::Loop(x, i, j) => T::Loop(x.clone_deep(), *i, *j),
            x => x.clone(),
        })
    }
}
