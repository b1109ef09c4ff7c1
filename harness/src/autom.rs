//! C04, C13, C14: automata.
use crate::lang::*;
use crate::obs::*;
use crate::sets::Ends;
use crate::util::*;
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::smt_strings::MAX_CHAR;
use std::collections::{BTreeMap, BTreeSet};

/// A complete DFA over abstract letters 0..k; letter i = characters cells[i]..cells[i+1]-1
#[derive(Clone, Debug)]
pub struct Dfa {
    pub cells: Vec<u32>,
    pub delta: Vec<Vec<usize>>,
    pub fin: Vec<bool>,
}

/// One builder call
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    T(u32, u32, u32, u32), // state, a, b, next
    D(u32, u32),
    F(u32),
    Build,
}

pub fn cell_starts(k: usize, rng: &mut Rng) -> Vec<u32> {
    // k cells: starts[0] = 0
    let mut s = BTreeSet::new();
    s.insert(0);
    match rng.below(5) {
        0 => {
            for i in 1..k {
                s.insert(i as u32);
            }
        }
        1 => {
            for i in 1..k {
                s.insert(MAX_CHAR + 1 - i as u32);
            }
        }
        2 | 3 => {
            for i in 1..k {
                s.insert(96 + i as u32);
            }
        }
        _ => {}
    }
    while s.len() < k {
        s.insert(1 + rng.below(MAX_CHAR as usize) as u32);
    }
    s.into_iter().take(k).collect()
}

impl Dfa {
    pub fn n(&self) -> usize {
        self.delta.len()
    }
    pub fn k(&self) -> usize {
        self.cells.len()
    }
    pub fn cell(&self, i: usize) -> (u32, u32) {
        let b = if i + 1 < self.cells.len() { self.cells[i + 1] - 1 } else { MAX_CHAR };
        (self.cells[i], b)
    }

    /// Builder calls for this DFA in a random style. State names: a random injection when scramble.
    pub fn calls(&self, rng: &mut Rng, name: &[u32], shuffle: bool) -> Vec<Call> {
        let k = self.k();
        let mut v: Vec<Call> = Vec::new();
        for q in 0..self.n() {
            let row = &self.delta[q];
            let s = name[q];
            let style = rng.below(4);
            // default target
            let d = match style {
                0 => None,
                1 => Some(row[rng.below(k)]),
                _ => {
                    // most frequent target
                    let mut m: BTreeMap<usize, usize> = BTreeMap::new();
                    for &t in row {
                        *m.entry(t).or_insert(0) += 1;
                    }
                    m.into_iter().max_by_key(|x| x.1).map(|x| x.0)
                }
            };
            let mut implicit = 0;
            let mut expl: Vec<(u32, u32, usize)> = Vec::new();
            for i in 0..k {
                let (a, b) = self.cell(i);
                if Some(row[i]) == d && (implicit == 0 || rng.chance(2, 3)) {
                    implicit += 1;
                    continue;
                }
                expl.push((a, b, row[i]));
            }
            // merge / split
            let mut out: Vec<(u32, u32, usize)> = Vec::new();
            for (a, b, t) in expl {
                if let Some(l) = out.last_mut() {
                    if l.2 == t && l.1 + 1 == a && rng.chance(1, 2) {
                        l.1 = b;
                        continue;
                    }
                }
                if b > a && rng.chance(1, 8) {
                    let m = a + rng.below((b - a) as usize) as u32;
                    out.push((a, m, t));
                    out.push((m + 1, b, t));
                } else {
                    out.push((a, b, t));
                }
            }
            if let Some(d) = d {
                v.push(Call::D(s, name[d]));
            }
            for (a, b, t) in out {
                v.push(Call::T(s, a, b, name[t]));
            }
            if self.fin[q] {
                v.push(Call::F(s));
            }
        }
        if shuffle {
            rng.shuffle(&mut v);
        }
        v
    }

    /// For very many states: the first cell is the default, no splitting
    pub fn plain(&self) -> Option<Automaton> {
        let mut b = AutomatonBuilder::new(&0u32);
        for q in 0..self.n() {
            let row = &self.delta[q];
            b.set_default_successor(&(q as u32), &(row[0] as u32));
            for i in 1..self.k() {
                if row[i] != row[0] {
                    let (x, y) = self.cell(i);
                    b.add_transition(&(q as u32), &CharSet::range(x, y), &(row[i] as u32));
                }
            }
            if self.fin[q] {
                b.mark_final(&(q as u32));
            }
        }
        b.build().ok()
    }

    pub fn automaton(&self, rng: &mut Rng) -> Option<Automaton> {
        let name: Vec<u32> = (0..self.n() as u32).collect();
        let shuffle = rng.chance(1, 2);
        let calls = self.calls(rng, &name, shuffle);
        let mut b = AutomatonBuilder::new(&0u32);
        for c in &calls {
            apply(&mut b, c, |x| x);
        }
        b.build().ok()
    }
}

fn apply<S: Eq + std::hash::Hash + Clone>(b: &mut AutomatonBuilder<S>, c: &Call, f: impl Fn(u32) -> S) {
    match c {
        Call::T(s, x, y, t) => {
            b.add_transition(&f(*s), &CharSet::range(*x, *y), &f(*t));
        }
        Call::D(s, t) => {
            b.set_default_successor(&f(*s), &f(*t));
        }
        Call::F(s) => {
            b.mark_final(&f(*s));
        }
        Call::Build => {}
    }
}

pub fn random_dfa(rng: &mut Rng, maxn: usize, maxk: usize) -> Dfa {
    let n = 1 + rng.below(maxn);
    let k = 1 + rng.below(maxk);
    let cells = cell_starts(k, rng);
    let fam = rng.below(12);
    let mut delta = vec![vec![0usize; k]; n];
    let mut fin = vec![false; n];
    let pf = 1 + rng.below(4);
    for q in 0..n {
        fin[q] = rng.chance(pf, 5);
        for l in 0..k {
            delta[q][l] = rng.below(n);
        }
    }
    match fam {
        0 | 1 => {}
        2 | 3 => {
            // blow-up of a smaller automaton: state q is a copy of q mod m
            let m = 1 + rng.below(n);
            for q in 0..n {
                fin[q] = fin[q % m];
                for l in 0..k {
                    let t = delta[q % m][l] % m;
                    let copies = (n - 1 - t) / m + 1;
                    delta[q][l] = if q < m { t + m * rng.below(copies) } else { delta[q][l] };
                    if q >= m {
                        delta[q][l] = t + m * rng.below(copies);
                    }
                }
            }
            // sometimes one copy differs
            if rng.chance(1, 3) {
                let q = rng.below(n);
                let l = rng.below(k);
                delta[q][l] = rng.below(n);
            }
        }
        4 => {
            // cycle with periodic (or nearly periodic) final states; other letters are random powers
            let d = 1 + rng.below(4);
            let r = rng.below(d);
            for q in 0..n {
                fin[q] = q % d == r;
                for l in 0..k {
                    let step = if l == 0 { 1 } else { 1 + rng.below(2) };
                    delta[q][l] = (q + step) % n;
                }
            }
            if rng.chance(1, 2) {
                let q = rng.below(n);
                fin[q] = !fin[q];
            }
        }
        5 => {
            // chain to a sink
            for q in 0..n {
                fin[q] = q + 1 == n || (q + 2 == n && rng.chance(1, 2));
                for l in 0..k {
                    delta[q][l] = if l == 0 || rng.chance(1, 3) { (q + 1).min(n - 1) } else { q.saturating_sub(rng.below(3)) };
                }
            }
        }
        6 => {
            // permutations
            for l in 0..k {
                let mut p: Vec<usize> = (0..n).collect();
                rng.shuffle(&mut p);
                for q in 0..n {
                    delta[q][l] = p[q];
                }
            }
        }
        7 => {
            // shift register
            for q in 0..n {
                for l in 0..k {
                    delta[q][l] = (k.max(2) * q + l) % n;
                }
            }
            let b = rng.below(n);
            for q in 0..n {
                fin[q] = (q >> (b % 4)) & 1 == 1;
            }
        }
        8 => {
            // all or none final
            let all = rng.chance(1, 2);
            for f in fin.iter_mut() {
                *f = all;
            }
        }
        9 => {
            // unreachable component: the first half never leaves
            let h = (n + 1) / 2;
            for q in 0..h {
                for l in 0..k {
                    delta[q][l] %= h;
                }
            }
        }
        10 => {
            // tree-like: few distinct targets
            for q in 0..n {
                for l in 0..k {
                    delta[q][l] = if rng.chance(3, 4) { (2 * q + 1 + l) % n } else { n - 1 };
                }
            }
            for q in 0..n {
                fin[q] = 2 * q + 1 >= n && rng.chance(2, 3);
            }
        }
        _ => {
            // nearly all to one target
            let s = rng.below(n);
            for q in 0..n {
                for l in 0..k {
                    if rng.chance(3, 4) {
                        delta[q][l] = s;
                    }
                }
            }
        }
    }
    Dfa { cells, delta, fin }
}

/// The i-th complete DFA with n states and k letters (mixed radix)
fn nth_dfa(n: usize, k: usize, mut i: u64, rng: &mut Rng) -> Dfa {
    let mut delta = vec![vec![0usize; k]; n];
    let mut fin = vec![false; n];
    for f in fin.iter_mut() {
        *f = i % 2 == 1;
        i /= 2;
    }
    for row in delta.iter_mut() {
        for x in row.iter_mut() {
            *x = (i % n as u64) as usize;
            i /= n as u64;
        }
    }
    Dfa { cells: cell_starts(k, rng), delta, fin }
}

fn count_dfas(n: usize, k: usize) -> u64 {
    (1u64 << n) * (n as u64).pow((n * k) as u32)
}

/// Boundary characters of an automaton
fn boundaries(a: &Automaton, s: &mut BTreeSet<u32>, max: usize) {
    for st in a.states() {
        for r in st.char_ranges() {
            if s.len() < max {
                around(s, r.pick_start(), r.pick_end());
            }
        }
    }
}

fn struct_fields(
    a: &Automaton,
    letters: &[u32],
    calls: &mut usize,
    names: [&'static str; 5],
) -> Vec<(&'static str, J)> {
    let n = a.num_states();
    let succ: Vec<J> = (0..n)
        .map(|i| {
            let s = a.state(i);
            J::A(
                letters
                    .iter()
                    .map(|&c| {
                        *calls += 1;
                        J::n(a.next(s, c).id() + 1)
                    })
                    .collect(),
            )
        })
        .collect();
    let fin: Vec<J> = (0..n).map(|i| J::b(a.state(i).is_final())).collect();
    let fl: Vec<J> = a.final_states().map(|s| J::n(s.id() + 1)).collect();
    vec![
        (names[0], J::A(succ)),
        (names[1], J::A(fin)),
        (names[2], J::n(a.initial_state().id() + 1)),
        (names[3], J::n(a.num_final_states())),
        (names[4], J::A(fl)),
    ]
}

const BEFORE: [&str; 5] = ["succ", "fin", "init", "nf", "fl"];
const AFTER: [&str; 5] = ["succ2", "fin2", "init2", "nf2", "fl2"];

/// Letters (at most max) that are enough to tell the columns of both automata apart:
/// one per distinct pair of columns
fn common_letters(a: &Automaton, raw: &BTreeSet<u32>, keep: &BTreeSet<u32>) -> Vec<u32> {
    let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
    let mut v = Vec::new();
    for &c in raw {
        let col: Vec<usize> = a.states().map(|s| a.next(s, c).id()).collect();
        if seen.insert(col) || keep.contains(&c) {
            v.push(c);
        }
    }
    v
}

fn random_word(letters: &[u32], rng: &mut Rng) -> Vec<u32> {
    let n = rng.below(10);
    (0..n).map(|_| *rng.pick(letters)).collect()
}

/// Words that tell the states apart, as pairs [letter index, index of the rest]; [0, 0] is the
/// empty word. Letters: those of L then the extra ones, as in the rows of the event.
/// The specification checks that they do.
fn separators(a: &Automaton, letters: &[u32]) -> J {
    let n = a.num_states();
    let succ: Vec<Vec<usize>> =
        (0..n).map(|i| letters.iter().map(|&c| a.next(a.state(i), c).id()).collect()).collect();
    let mut words: Vec<(usize, usize)> = vec![(0, 0)];
    let mut rows: Vec<Vec<bool>> = vec![(0..n).map(|i| a.state(i).is_final()).collect()];
    // class of each state so far
    let mut class: Vec<usize> = rows[0].iter().map(|&b| b as usize).collect();
    let mut i = 0;
    let count = |class: &Vec<usize>| class.iter().collect::<BTreeSet<_>>().len();
    let mut ncl = count(&class);
    while i < words.len() && ncl < n {
        for l in 0..letters.len() {
            let row: Vec<bool> = (0..n).map(|q| rows[i][succ[q][l]]).collect();
            let pairs: Vec<(usize, bool)> = (0..n).map(|q| (class[q], row[q])).collect();
            let mut names: BTreeMap<(usize, bool), usize> = BTreeMap::new();
            for p in &pairs {
                let k = names.len();
                names.entry(*p).or_insert(k);
            }
            if names.len() > ncl {
                class = pairs.iter().map(|p| names[p]).collect();
                ncl = names.len();
                words.push((l + 1, i + 1));
                rows.push(row);
            }
        }
        i += 1;
    }
    J::A(words.iter().map(|w| J::A(vec![J::n(w.0), J::n(w.1)])).collect())
}

fn min_event(c: &mut Ctx, mut a: Automaton, what: String, rng: &mut Rng) {
    let mut calls = 1;
    let small = a.num_states() <= 40;
    let twice = rng.chance(1, 4);
    let prune = rng.chance(1, 6);
    let r = guard(
        || format!("minimize {what}"),
        || {
            // whatever was computed from the automaton before that
            if rng.chance(1, 4) && a.num_states() < 200 {
                calls += 2;
                let _ = a.pick_alphabet();
                let _ = a.compile_successors();
            }
            if prune {
                a.remove_unreachable_states();
            }
            let mut raw = BTreeSet::new();
            raw.insert(0);
            raw.insert(MAX_CHAR);
            boundaries(&a, &mut raw, if small { 900 } else { 120 });
            let letters = common_letters(&a, &raw, &BTreeSet::new());
            let mut f = struct_fields(&a, &letters, &mut calls, BEFORE);
            let words: Vec<Vec<u32>> = (0..3).map(|_| random_word(&letters, rng)).collect();
            let acc1: Vec<bool> = words.iter().map(|w| a.accepts(&smt_of(w))).collect();
            a.minimize();
            if twice {
                a.minimize();
            }
            // the result is observed at all boundaries of both automata; letters with equal
            // columns in both are logged once
            let mut raw2 = raw.clone();
            boundaries(&a, &mut raw2, if small { 1100 } else { 160 });
            let keep: BTreeSet<u32> = letters.iter().copied().collect();
            let letters2 = common_letters(&a, &raw2, &keep);
            if letters2 != letters {
                // extra letters: log the table of the original again is impossible (it was
                // consumed), so log separately: only letters known for both are compared, the
                // others take part in the distinguishability check alone
                let extra: Vec<u32> = letters2.iter().copied().filter(|c| !keep.contains(c)).collect();
                let n = a.num_states();
                let t: Vec<J> = (0..n)
                    .map(|i| {
                        let s = a.state(i);
                        J::A(extra.iter().map(|&c| J::n(a.next(s, c).id() + 1)).collect())
                    })
                    .collect();
                f.push(("xsucc", J::A(t)));
                f.push(("X", J::word(&extra)));
            } else {
                f.push(("xsucc", J::A((0..a.num_states()).map(|_| J::A(vec![])).collect())));
                f.push(("X", J::A(vec![])));
            }
            f.extend(struct_fields(&a, &letters, &mut calls, AFTER));
            f.push(("ids", J::A(a.states().map(|s| J::n(s.id() + 1)).collect())));
            f.push(("ns2", J::n(a.num_states())));
            f.push(("L", J::word(&letters)));
            f.push(("sep", {
                let mut all = letters.clone();
                all.extend(letters2.iter().filter(|c| !keep.contains(c)));
                separators(&a, &all)
            }));
            let acc2: Vec<bool> = words.iter().map(|w| a.accepts(&smt_of(w))).collect();
            f.push((
                "acc",
                J::A((0..words.len())
                    .map(|i| J::A(vec![J::word(&words[i]), J::b(acc1[i]), J::b(acc2[i])]))
                    .collect()),
            ));
            let mut v = vec![("op", J::s("min"))];
            v.extend(f);
            J::O(v)
        },
    );
    c.calls += calls;
    match r {
        Ok(j) => c.emit(j),
        Err(msg) => c.emit(J::O(vec![("op", J::s("panic")), ("in", J::s(&format!("minimize {what}"))), ("msg", J::s(&msg))])),
    }
}

pub fn smt_of(w: &[u32]) -> aws_smt_strings::smt_strings::SmtString {
    crate::term::smt(w)
}

fn short(d: &Dfa) -> String {
    format!("{d:?}").chars().take(600).collect()
}

pub fn c04(c: &mut Ctx) {
    let mut rng = c.rng(4);
    // exhaustive small automata
    let mut fams: Vec<(usize, usize, u64)> = vec![(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 2), (4, 1, 4)];
    if c.thorough {
        fams = vec![(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (4, 1, 1), (5, 1, 10), (3, 3, 16), (4, 2, 32)];
    }
    for (n, k, stride) in fams {
        let total = count_dfas(n, k);
        let mut i = c.seed % stride;
        while i < total {
            if c.mine() {
                let d = nth_dfa(n, k, i, &mut rng);
                if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
                    min_event(c, a, short(&d), &mut rng);
                }
            }
            i += stride;
        }
    }
    // random automata of various shapes
    let n = c.q(900, 16000);
    for i in 0..n {
        let (maxn, maxk) = match i % 10 {
            0..=5 => (8, 3),
            6 | 7 => (14, 3),
            8 => (9, 6),
            _ => (if c.thorough { 45 } else { 24 }, 2),
        };
        let d = random_dfa(&mut rng, maxn, maxk);
        if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            min_event(c, a, short(&d), &mut rng);
        }
    }
    // many letters
    for _ in 0..c.q(60, 1500) {
        let mut d = random_dfa(&mut rng, 14, 40);
        if rng.chance(1, 2) {
            sparse(&mut d, &mut rng);
        }
        if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            min_event(c, a, short(&d), &mut rng);
        }
    }
    // many states
    for _ in 0..c.q(10, 250) {
        let d = random_dfa(&mut rng, 320, 4);
        if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            min_event(c, a, short(&d), &mut rng);
        }
    }
    // more letters or states than a byte (or two) can number
    for _ in 0..c.q(1, 20) {
        let n = 3 + rng.below(10);
        let mut d = wide_dfa(n, 257 + rng.below(60), &mut rng);
        // some copies
        for _ in 0..rng.below(n) {
            let (x, y) = (rng.below(n), rng.below(n));
            d.delta[x] = d.delta[y].clone();
            d.fin[x] = d.fin[y];
            if rng.chance(1, 4) {
                let l = d.k() - 1 - rng.below(40);
                d.delta[x][l] = rng.below(n);
            }
        }
        if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            min_event(c, a, short(&d), &mut rng);
        }
    }
    if c.shard == 1 {
        for _ in 0..c.q(1, 4) {
            // (minimize takes quadratic time on these)
            let n = if c.checked { 3000 } else { 65600 } + rng.below(400);
            let d = ring_dfa(n / 2 * 2, &mut rng);
            if let Ok(Some(a)) = guard(|| "build".to_string(), || d.plain()) {
                min_event(c, a, short(&d), &mut rng);
            }
        }
    }
    let n = c.q(3, 60);
    bigs(c, 144, n, &BIG, |c, m, case, e, rng| {
        if let Ok(Some(a)) = guard(|| "compile".to_string(), || m.mgr().try_compile(e, 700)) {
            min_event(c, a, format!("{:?}", case.t).chars().take(600).collect(), rng);
        }
        true
    });
    // compiled expressions
    let n = c.q(350, 6000);
    episodes(c, 44, n, 0, &LIM, |c, m, case, e, rng| {
        if let Ok(Some(a)) = guard(|| "compile".to_string(), || m.mgr().try_compile(e, 60)) {
            min_event(c, a, format!("{:?}", case.t).chars().take(600).collect(), rng);
        }
        true
    });
}

// ------------------------------------------------------------------- C14

fn prune_event(c: &mut Ctx, mut a: Automaton, what: String, rng: &mut Rng) {
    let mut calls = 1;
    let small = a.num_states() <= 40;
    // (the successor table of a very large automaton takes too long to construct)
    let with_table = a.num_states() < 5000;
    let r = guard(
        || format!("table/prune {what}"),
        || {
            // or of one that is already pruned
            if rng.chance(1, 4) {
                // whatever was computed from the automaton before that
                if rng.chance(1, 2) {
                    calls += 3;
                    let _ = a.combined_char_partition();
                    let _ = a.pick_alphabet();
                    let _ = a.final_states().count() + a.states().map(|s| a.edges(s).count()).sum::<usize>();
                    if a.num_states() < 200 {
                        let _ = a.compile_successors();
                    }
                }
                a.remove_unreachable_states();
                if rng.chance(1, 4) && a.num_states() < 200 {
                    a.minimize();
                }
            }
            let n = a.num_states();
            let p = a.combined_char_partition();
            let picks = a.pick_alphabet();
            let cls: Vec<(u32, u32)> = p.ranges().map(|r| (r.pick_start(), r.pick_end())).collect();
            let table = if with_table { Some(a.compile_successors()) } else { None };
            let mut raw = BTreeSet::new();
            raw.insert(0);
            raw.insert(MAX_CHAR);
            for &(x, y) in &cls {
                if raw.len() < if small { 700 } else { 120 } {
                    around(&mut raw, x, y);
                    raw.insert(x + rng.below((y - x) as usize + 1) as u32);
                }
            }
            raw.extend(picks.iter().filter(|x| **x <= MAX_CHAR));
            boundaries(&a, &mut raw, if small { 900 } else { 200 });
            // one letter per (combined class, column)
            let class_of = |x: u32| cls.iter().position(|r| r.0 <= x && x <= r.1).map_or(-1, |i| i as i64);
            let mut seen: BTreeSet<(i64, Vec<usize>)> = BTreeSet::new();
            let keep: BTreeSet<u32> = picks.iter().copied().collect();
            let mut letters = Vec::new();
            for &ch in &raw {
                let col: Vec<usize> = a.states().map(|s| a.next(s, ch).id()).collect();
                calls += n;
                if seen.insert((class_of(ch), col)) || keep.contains(&ch) {
                    letters.push(ch);
                }
            }
            let mut f = vec![
                ("L", J::word(&letters)),
                ("ns", J::n(n)),
                ("cls", J::A(cls.iter().map(|r| J::word(&[r.0, r.1])).collect())),
                ("picks", J::word(&picks)),
                ("tn", table.as_ref().map_or(J::I(-1), |t| J::n(t.num_states()))),
                ("tk", table.as_ref().map_or(J::I(-1), |t| J::n(t.alphabet_size()))),
            ];
            f.push((
                "tab",
                J::A((0..table.as_ref().map_or(0, |_| n))
                    .map(|i| {
                        J::A((0..picks.len())
                            .map(|j| {
                                calls += 1;
                                J::n(table.as_ref().unwrap().eval(i as u32, j as u32) as usize + 1)
                            })
                            .collect())
                    })
                    .collect()),
            ));
            f.extend(struct_fields(&a, &letters, &mut calls, BEFORE));
            // edges: [a, b, target] per interval, [-1, -1, target] for the complement
            let edges: Vec<J> = a
                .states()
                .map(|s| {
                    let rs: Vec<(u32, u32)> = s.char_ranges().map(|r| (r.pick_start(), r.pick_end())).collect();
                    J::A(a
                        .edges(s)
                        .map(|(cid, t)| match cid {
                            ClassId::Interval(i) if i < rs.len() => {
                                J::ints(&[rs[i].0 as i64, rs[i].1 as i64, t.id() as i64 + 1])
                            }
                            ClassId::Interval(i) => J::ints(&[-2, i as i64, t.id() as i64 + 1]),
                            ClassId::Complement => J::ints(&[-1, -1, t.id() as i64 + 1]),
                        })
                        .collect())
                })
                .collect();
            f.push(("edges", J::A(edges)));
            // the state's own view: number of intervals, default successor, [class_next, next] per
            // class, [char_set_next, next] per interval, letters that use the default
            let views: Vec<J> = a
                .states()
                .map(|s| {
                    let pairs: Vec<J> = s
                        .char_classes()
                        .zip(s.char_picks())
                        .map(|(cid, x)| J::ints(&[a.class_next(s, cid).id() as i64 + 1, a.next(s, x).id() as i64 + 1]))
                        .chain(s.char_ranges().map(|r| {
                            let t = a.char_set_next(s, r).map_or(0, |t| t.id() as i64 + 1);
                            J::ints(&[t, a.next(s, r.pick()).id() as i64 + 1])
                        }))
                        .collect();
                    let md = if n <= 40 { letters.as_slice() } else { &[] };
                    J::A(vec![
                        J::n(s.num_successors()),
                        J::n(a.default_successor(s).map_or(0, |t| t.id() + 1)),
                        J::b(s.has_default_successor()),
                        J::A(pairs),
                        J::A(md.iter().map(|&x| J::b(s.char_maps_to_default(x))).collect()),
                    ])
                })
                .collect();
            f.push(("views", J::A(views)));
            f.push(("ids", J::A(a.states().map(|s| J::n(s.id() + 1)).collect())));
            let words: Vec<Vec<u32>> = (0..3).map(|_| random_word(&letters, rng)).collect();
            let acc1: Vec<bool> = words.iter().map(|w| a.accepts(&smt_of(w))).collect();
            a.remove_unreachable_states();
            if rng.chance(1, 5) {
                a.remove_unreachable_states();
            }
            f.extend(struct_fields(&a, &letters, &mut calls, AFTER));
            f.push(("ns2", J::n(a.num_states())));
            f.push(("ids2", J::A(a.states().map(|s| J::n(s.id() + 1)).collect())));
            let acc2: Vec<bool> = words.iter().map(|w| a.accepts(&smt_of(w))).collect();
            f.push((
                "acc",
                J::A((0..words.len())
                    .map(|i| J::A(vec![J::word(&words[i]), J::b(acc1[i]), J::b(acc2[i])]))
                    .collect()),
            ));
            let mut v = vec![("op", J::s("prune"))];
            v.extend(f);
            J::O(v)
        },
    );
    c.calls += calls;
    match r {
        Ok(j) => c.emit(j),
        Err(msg) => c.emit(J::O(vec![("op", J::s("panic")), ("in", J::s(&format!("prune {what}"))), ("msg", J::s(&msg))])),
    }
}

/// n states and k letters, k > 255 perhaps: singletons, almost all rows different
fn wide_dfa(n: usize, k: usize, rng: &mut Rng) -> Dfa {
    let base = *rng.pick(&[1u32, 97, 5000, 65400, MAX_CHAR - k as u32]);
    let mut cells: Vec<u32> = vec![0];
    cells.extend((0..k as u32 - 1).map(|i| base + i));
    let mut delta = Vec::new();
    for q in 0..n {
        let d = rng.below(n);
        let dense = rng.chance(4, 5) || q == 0;
        delta.push((0..k).map(|_| if dense { rng.below(n) } else { d }).collect());
    }
    let fin = (0..n).map(|_| rng.chance(1, 3)).collect();
    Dfa { cells, delta, fin }
}

/// Very many states over two letters (and the rest): everything may be reachable, or not
fn tall_dfa(n: usize, rng: &mut Rng) -> Dfa {
    let cells = cell_starts(3, rng);
    let style = rng.below(3);
    let far = n - rng.below(100) - 1;
    let delta = (0..n)
        .map(|q| match style {
            // a tree, then back
            0 => vec![(2 * q + 1) % n, (2 * q + 2) % n, rng.below(n)],
            // random
            1 => (0..3).map(|_| rng.below(n)).collect(),
            // random, some states not reachable
            _ => (0..3).map(|_| rng.below(far)).collect(),
        })
        .collect();
    let fin = (0..n).map(|_| rng.chance(1, 3)).collect();
    Dfa { cells, delta, fin }
}

/// Very many states in a cycle, with random final states; few states look at the characters
fn ring_dfa(n: usize, rng: &mut Rng) -> Dfa {
    let cells = cell_starts(2, rng);
    // period of the final states
    let d = if rng.chance(1, 2) { n } else { n / 2 };
    let mut fin: Vec<bool> = (0..n).map(|_| rng.chance(1, 3)).collect();
    for q in d..n {
        fin[q] = fin[q % d];
    }
    let mut delta: Vec<Vec<usize>> = (0..n).map(|q| vec![(q + 1) % n; 2]).collect();
    // (the copies of a periodic ring would be told apart by very long words only)
    for _ in 0..if d == n || n < 5000 { rng.below(20) } else { 0 } {
        delta[rng.below(n)][rng.below(2)] = rng.below(n);
    }
    Dfa { cells, delta, fin }
}

/// The successor table alone, of a larger automaton
fn table_event(c: &mut Ctx, a: &Automaton, what: String) {
    let n = a.num_states();
    let mut calls = 1;
    let r = guard(
        || format!("table {what}"),
        || {
            let picks = a.pick_alphabet();
            let table = a.compile_successors();
            calls += 2 * n * picks.len();
            let rows = |f: &dyn Fn(usize, usize) -> usize| {
                J::A((0..n).map(|i| J::A((0..picks.len()).map(|j| J::n(f(i, j))).collect())).collect())
            };
            J::O(vec![
                ("op", J::s("table")),
                ("ns", J::n(n)),
                ("tn", J::n(table.num_states())),
                ("tk", J::n(table.alphabet_size())),
                ("picks", J::word(&picks)),
                ("tab", rows(&|i, j| table.eval(i as u32, j as u32) as usize + 1)),
                ("nx", rows(&|i, j| a.next(a.state(i), picks[j]).id() + 1)),
            ])
        },
    );
    c.calls += calls;
    match r {
        Ok(j) => c.emit(j),
        Err(msg) => c.emit(J::O(vec![("op", J::s("panic")), ("in", J::s(&format!("table {what}"))), ("msg", J::s(&msg))])),
    }
}

/// one popular target per state
fn sparse(d: &mut Dfa, rng: &mut Rng) {
    for row in d.delta.iter_mut() {
        let t = row[0];
        for x in row.iter_mut() {
            if rng.chance(2, 3) {
                *x = t;
            }
        }
    }
}

/// Sometimes the queries are asked of a minimized automaton (a panic here is not C14's: no event).
fn reworked(a: &mut Automaton, rng: &mut Rng) -> bool {
    !rng.chance(1, 10) || guard(|| "minimize".to_string(), || a.minimize()).is_ok()
}

pub fn c14(c: &mut Ctx) {
    let mut rng = c.rng(14);
    let mut fams: Vec<(usize, usize, u64)> = vec![(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 3), (2, 3, 1)];
    if c.thorough {
        fams = vec![(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (3, 2, 1), (2, 3, 1), (2, 4, 1), (4, 1, 2), (3, 3, 16), (4, 2, 32)];
    }
    for (n, k, stride) in fams {
        let total = count_dfas(n, k);
        let mut i = c.seed % stride;
        while i < total {
            if c.mine() {
                let d = nth_dfa(n, k, i, &mut rng);
                if let Ok(Some(mut a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
                    if reworked(&mut a, &mut rng) {
                        prune_event(c, a, short(&d), &mut rng);
                    }
                }
            }
            i += stride;
        }
    }
    let n = c.q(900, 16000);
    for i in 0..n {
        let (maxn, maxk) = match i % 10 {
            0..=4 => (8, 4),
            5 | 6 => (12, 8),
            7 | 8 => (6, 14),
            _ => (30, 3),
        };
        let mut d = random_dfa(&mut rng, maxn, maxk);
        if rng.chance(1, 3) {
            sparse(&mut d, &mut rng);
        }
        if let Ok(Some(mut a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            if !reworked(&mut a, &mut rng) {
                continue;
            }
            prune_event(c, a, short(&d), &mut rng);
        }
    }
    for i in 0..c.q(14, 400) {
        let mut d = match i % 3 {
            0 => random_dfa(&mut rng, 250, 3),
            1 => random_dfa(&mut rng, 60, 24),
            _ => random_dfa(&mut rng, 14, 45),
        };
        if rng.chance(1, 2) {
            sparse(&mut d, &mut rng);
        }
        if let Ok(Some(mut a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            if !reworked(&mut a, &mut rng) {
                continue;
            }
            prune_event(c, a, short(&d), &mut rng);
        }
    }
    // more letters or states than a byte (or two) can number
    for _ in 0..c.q(1, 10) {
        let (n, k) = (2 + rng.below(4), 257 + rng.below(80));
        let d = wide_dfa(n, k, &mut rng);
        if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
            prune_event(c, a, short(&d), &mut rng);
        }
    }
    if c.shard == 1 {
        for _ in 0..c.q(1, 4) {
            let k = 260 + rng.below(60);
            let n = 340 + rng.below(60);
            let d = wide_dfa(n, k, &mut rng);
            if let Ok(Some(a)) = guard(|| "build".to_string(), || d.automaton(&mut rng)) {
                table_event(c, &a, short(&d));
            }
        }
    }
    if c.shard == 2 {
        for _ in 0..c.q(1, 4) {
            let n = 65600 + rng.below(400);
            let d = tall_dfa(n, &mut rng);
            if let Ok(Some(a)) = guard(|| "build".to_string(), || d.plain()) {
                prune_event(c, a, short(&d), &mut rng);
            }
        }
    }
    let n = c.q(350, 6000);
    episodes(c, 144, n, 0, &LIM, |c, m, case, e, rng| {
        if let Ok(Some(mut a)) = guard(|| "compile".to_string(), || m.mgr().try_compile(e, 60)) {
            if rng.chance(1, 4) && guard(|| "minimize".to_string(), || a.minimize()).is_err() {
                return true;
            }
            prune_event(c, a, format!("{:?}", case.t).chars().take(600).collect(), rng);
        }
        true
    });
}

// ------------------------------------------------------------------- C13

fn call_json(k: &Call) -> J {
    match k {
        Call::T(s, a, b, t) => J::A(vec![J::s("t"), J::u(*s), J::u(*a), J::u(*b), J::u(*t)]),
        Call::D(s, t) => J::A(vec![J::s("d"), J::u(*s), J::u(*t)]),
        Call::F(s) => J::A(vec![J::s("f"), J::u(*s)]),
        Call::Build => J::A(vec![J::s("b")]),
    }
}

/// Observation of a build result over the given characters
fn build_json(r: Result<Automaton, aws_smt_strings::errors::Error>, letters: &[u32], calls: &mut usize) -> J {
    match r {
        Err(_) => J::A(vec![J::s("b"), J::I(0)]),
        Ok(a) => {
            let n = a.num_states();
            let fin: Vec<J> = (0..n).map(|i| J::b(a.state(i).is_final())).collect();
            let succ: Vec<J> = (0..n)
                .map(|i| {
                    let s = a.state(i);
                    J::A(letters
                        .iter()
                        .map(|&ch| {
                            *calls += 1;
                            // a character without successor shows as 0
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.next(s, ch).id() + 1)) {
                                Ok(x) => J::n(x),
                                Err(_) => J::I(0),
                            }
                        })
                        .collect())
                })
                .collect();
            J::A(vec![
                J::s("b"),
                J::I(1),
                J::n(a.initial_state().id() + 1),
                J::A(fin),
                J::n(a.num_final_states()),
                J::A(succ),
            ])
        }
    }
}

/// Run a session; `named` = true: states are named by strings
fn session(c: &mut Ctx, init: u32, script: &[Call], rng: &mut Rng) {
    // characters observed: both ends of every piece cut by the labels
    let mut cuts: BTreeSet<u32> = BTreeSet::new();
    cuts.insert(0);
    for k in script {
        if let Call::T(_, a, b, _) = k {
            cuts.insert(*a);
            if *b < MAX_CHAR {
                cuts.insert(b + 1);
            }
        }
    }
    let starts: Vec<u32> = cuts.into_iter().collect();
    let mut letters: BTreeSet<u32> = starts.iter().copied().collect();
    for (i, _) in starts.iter().enumerate() {
        let b = if i + 1 < starts.len() { starts[i + 1] - 1 } else { MAX_CHAR };
        if starts.len() < 12 || rng.chance(1, 2) {
            letters.insert(b);
        }
    }
    let letters: Vec<u32> = letters.into_iter().collect();
    let named = rng.chance(1, 4);
    let labels: Vec<(u32, u32, u32)> =
        script.iter().filter_map(|k| if let Call::T(s, a, b, _) = k { Some((*s, *a, *b)) } else { None }).collect();
    let apart = |i: usize, j: usize| {
        let (x, y) = (labels[i], labels[j]);
        x.0 != y.0 || x.2 < y.1 || y.2 < x.1
    };
    // build_unchecked says nothing about overlapping labels
    let unchecked = rng.chance(1, 2) && (0..labels.len()).all(|i| (0..i).all(|j| apart(i, j)));
    let mut calls = 0;
    let r = guard(
        || format!("builder session init={init} {script:?}"),
        || {
            let mut log: Vec<J> = Vec::new();
            macro_rules! run {
                ($b:expr, $f:expr) => {
                    for k in script {
                        calls += 1;
                        match k {
                            Call::Build => log.push(build_json($b.build(), &letters, &mut calls)),
                            k => {
                                apply(&mut $b, k, $f);
                                log.push(call_json(k));
                            }
                        }
                    }
                    if unchecked {
                        // last, because it may change the builder; it may do anything on bad specifications
                        calls += 1;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            build_json(Ok($b.build_unchecked()), &letters, &mut calls)
                        }));
                        let mut r = r.unwrap_or_else(|_| J::A(vec![J::s("u"), J::I(0)]));
                        if let J::A(v) = &mut r {
                            v[0] = J::s("u");
                        }
                        log.push(r);
                    }
                };
            }
            if named {
                let f = |x: u32| format!("state {}", x ^ 5);
                let mut b = AutomatonBuilder::new(&f(init));
                run!(b, f);
            } else {
                let f = |x: u32| x;
                let mut b = AutomatonBuilder::new(&init);
                run!(b, f);
            }
            log
        },
    );
    c.calls += calls;
    let mut v = vec![("op", J::s("builder")), ("init", J::u(init)), ("L", J::word(&letters))];
    match r {
        Ok(log) => v.push(("log", J::A(log))),
        Err(msg) => {
            v[0].1 = J::s("panic");
            v.push(("log", J::A(script.iter().map(call_json).collect())));
            v.push(("msg", J::s(&msg)));
        }
    }
    c.emit(J::O(v));
}

fn row_target(q: usize, n: usize) -> usize {
    (q * 7 + 3) % n
}

pub fn c13(c: &mut Ctx) {
    let mut rng = c.rng(13);
    // exhaustive: transitions of state 0 over three cells, two states
    let concrete: Vec<[u32; 3]> = vec![[0, 97, 98], [0, 1, 2], [0, MAX_CHAR - 1, MAX_CHAR], [0, 1000, 70000]];
    let ivals: [(usize, usize); 6] = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)];
    let maxt = 3;
    for len in 0..=maxt {
        let stride: u64 = if c.thorough { 1 } else if len == 3 { 4 } else { 1 };
        let count = 12u64.pow(len as u32) * 3;
        let mut i = c.seed % stride;
        while i < count {
            if c.mine() {
                let cut = concrete[rng.below(concrete.len())];
                let cell = |x: usize| -> (u32, u32) { (cut[x], if x < 2 { cut[x + 1] - 1 } else { MAX_CHAR }) };
                let mut j = i;
                let d = j % 3;
                j /= 3;
                let mut script = Vec::new();
                let dpos = rng.below(len + 1);
                for p in 0..=len {
                    if p == dpos && d > 0 {
                        script.push(Call::D(0, (d - 1) as u32));
                    }
                    if p < len {
                        let x = (j % 12) as usize;
                        j /= 12;
                        let (lo, hi) = ivals[x % 6];
                        script.push(Call::T(0, cell(lo).0, cell(hi).1, (x / 6) as u32));
                    }
                }
                // state 1 (complete)
                if rng.chance(1, 2) {
                    script.push(Call::D(1, rng.below(2) as u32));
                } else {
                    script.push(Call::T(1, 0, MAX_CHAR, rng.below(2) as u32));
                }
                if rng.chance(1, 2) {
                    script.push(Call::F(rng.below(2) as u32));
                }
                script.push(Call::Build);
                session(c, 0, &script, &mut rng);
            }
            i += stride;
        }
    }
    // more labels in one state than a byte can number
    for i in 0..c.q(1, 12) {
        let k = 257 + rng.below(150);
        let n = 4 + rng.below(4);
        let mut d = wide_dfa(n, k, &mut rng);
        for (q, row) in d.delta.iter_mut().enumerate() {
            let t = row[0];
            for (l, x) in row.iter_mut().enumerate() {
                *x = if q > 0 { t } else { (l * 7 + i) % n };
            }
        }
        let mut name: Vec<u32> = (0..n as u32).collect();
        rng.shuffle(&mut name);
        let mut script = d.calls(&mut rng, &name, true);
        if rng.chance(1, 4) {
            let p = rng.below(script.len());
            script.remove(p);
        }
        script.push(Call::Build);
        session(c, name[0], &script, &mut rng);
    }
    // random sessions
    let n = c.q(1500, 25000);
    for _ in 0..n {
        let d = match rng.below(12) {
            0 => {
                // many labels, mostly to different states
                let mut d = random_dfa(&mut rng, 16, 14);
                let k = d.k();
                let n = d.n();
                let few = 1 + rng.below(2);
                for (q, row) in d.delta.iter_mut().enumerate() {
                    let off = rng.below(n);
                    for (l, x) in row.iter_mut().enumerate() {
                        *x = if q >= few { row_target(q, n) } else { (l + off) % n };
                    }
                    if q < few && rng.chance(1, 2) {
                        // some repetitions
                        for _ in 0..1 + rng.below(k) {
                            let i = rng.below(k);
                            row[i] = row[rng.below(k)];
                        }
                    }
                }
                d
            }
            _ => random_dfa(&mut rng, 6, 5),
        };
        let mut name: Vec<u32> = (0..18).collect();
        rng.shuffle(&mut name);
        name.truncate(d.n());
        let shuffle = rng.chance(1, 2);
        let mut script = d.calls(&mut rng, &name, shuffle);
        if rng.chance(1, 3) {
            // declared default only: all others removed (majority, ties, ...)
            let keep = rng.below(script.len() + 1);
            script.truncate(keep);
        }
        for _ in 0..rng.below(4) {
            let pos = rng.below(script.len() + 1);
            let s = name[rng.below(d.n())];
            let t = name[rng.below(d.n())];
            match rng.below(9) {
                0 if !script.is_empty() => {
                    let p = rng.below(script.len());
                    script.remove(p);
                }
                1 => {
                    // duplicate a transition, perhaps with another target or label
                    let ts: Vec<Call> = script.iter().filter(|k| matches!(k, Call::T(..))).cloned().collect();
                    if !ts.is_empty() {
                        if let Call::T(s, a, b, t2) = rng.pick(&ts).clone() {
                            let (a, b) = match rng.below(4) {
                                0 => (a, b),
                                1 => (a, a),
                                2 => (b, b),
                                _ => (a.saturating_sub(1), (b + 1).min(MAX_CHAR)),
                            };
                            script.insert(pos, Call::T(s, a, b, if rng.chance(2, 3) { t2 } else { t }));
                        }
                    }
                }
                2 => {
                    // a label over existing cell boundaries
                    let i = rng.below(d.k());
                    let j = i + rng.below(d.k() - i);
                    script.insert(pos, Call::T(s, d.cell(i).0, d.cell(j).1, t));
                }
                3 => script.insert(pos, Call::F(s)),
                4 => {
                    if !script.iter().any(|k| matches!(k, Call::D(x, _) if *x == s)) {
                        script.insert(pos, Call::D(s, t));
                    }
                }
                5 => {
                    let p = script.iter().position(|k| matches!(k, Call::D(..)));
                    if let Some(p) = p {
                        script.remove(p);
                    }
                }
                6 => {
                    // a new state
                    let z = 20 + rng.below(3) as u32;
                    script.insert(pos, Call::T(s, 97, 97, z));
                    if rng.chance(2, 3) {
                        script.insert(pos, Call::T(z, 0, MAX_CHAR, t));
                    }
                }
                7 => script.insert(pos, Call::Build),
                _ => {
                    // label overlapping a transition into the default target
                    let dd: Vec<(u32, u32)> = script
                        .iter()
                        .filter_map(|k| if let Call::D(x, y) = k { Some((*x, *y)) } else { None })
                        .collect();
                    if !dd.is_empty() {
                        let (x, y) = *rng.pick(&dd);
                        let i = rng.below(d.k());
                        let (a, b) = d.cell(i);
                        script.insert(pos, Call::T(x, a, b, y));
                    }
                }
            }
        }
        if rng.chance(1, 6) {
            // build again and again while the specification grows
            let step = 1 + rng.below(4);
            let mut pos = rng.below(step + 1);
            while pos < script.len() && script.len() < 60 {
                script.insert(pos, Call::Build);
                pos += 1 + step;
            }
        }
        script.push(Call::Build);
        if rng.chance(1, 5) {
            script.push(Call::Build);
        }
        // go on after the build, whatever it said
        if rng.chance(1, 3) {
            for _ in 0..1 + rng.below(3) {
                for _ in 0..1 + rng.below(2) {
                    let s = name[rng.below(d.n())];
                    let t = name[rng.below(d.n())];
                    let dflt = script.iter().rev().find_map(|k| match k {
                        Call::D(x, y) if *x == s => Some(*y),
                        _ => None,
                    });
                    let label = script.iter().rev().find_map(|k| match k {
                        Call::T(x, a, b, y) if *x == s => Some((*a, *b, *y)),
                        _ => None,
                    });
                    let i = rng.below(d.k());
                    let (a, b) = d.cell(i);
                    let e = match rng.below(7) {
                        // overlap an existing label, towards the default
                        0 | 1 if dflt.is_some() => match label {
                            Some((x, y, _)) if rng.chance(2, 3) => Call::T(s, x, y, dflt.unwrap()),
                            _ => Call::T(s, a, b, dflt.unwrap()),
                        },
                        2 => match label {
                            Some((x, y, z)) => Call::T(s, x, y, if rng.chance(1, 2) { z } else { t }),
                            None => Call::T(s, a, b, t),
                        },
                        3 if dflt.is_none() => Call::D(s, t),
                        4 => Call::F(s),
                        5 => Call::T(s, 97, 97, 30 + rng.below(2) as u32),
                        _ => Call::D(30 + rng.below(2) as u32, t),
                    };
                    script.push(e);
                }
                script.push(Call::Build);
            }
        }
        let init = if rng.chance(4, 5) { name[0] } else { *rng.pick(&name) };
        session(c, init, &script, &mut rng);
    }
}
