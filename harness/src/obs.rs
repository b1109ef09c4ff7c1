//! Observation of transition structures: derivative graphs of a manager, automata.
use crate::sets::Ends;
use crate::util::*;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_strings::MAX_CHAR;
use std::collections::{BTreeSet, HashMap};

pub struct Graph {
    pub letters: Vec<u32>,
    /// number of characters tried before grouping
    pub raw_letters: usize,
    pub nul: Vec<bool>,
    /// succ[q][l]: 1-based node index
    pub succ: Vec<Vec<usize>>,
}

impl Graph {
    pub fn fields(&self) -> Vec<(&'static str, J)> {
        vec![
            ("L", J::word(&self.letters)),
            ("nul", J::A(self.nul.iter().map(|&b| J::b(b)).collect())),
            (
                "succ",
                J::A(self.succ.iter().map(|v| J::A(v.iter().map(|&x| J::n(x)).collect())).collect()),
            ),
        ]
    }
    pub fn none(letters: &[u32]) -> Graph {
        Graph { letters: letters.to_vec(), raw_letters: 0, nul: vec![], succ: vec![] }
    }
}

/// Characters to try for an expression whose cells start at `cells`
pub fn raw_letters(cells: &[u32], rng: &mut Rng) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for (i, &a) in cells.iter().enumerate() {
        let end = if i + 1 < cells.len() { cells[i + 1] - 1 } else { MAX_CHAR };
        s.insert(a);
        s.insert(end);
        if end > a {
            s.insert(a + rng.below((end - a) as usize + 1) as u32);
        }
    }
    s
}

pub fn around(s: &mut BTreeSet<u32>, a: u32, b: u32) {
    s.insert(a);
    s.insert(b);
    if a > 0 {
        s.insert(a - 1);
    }
    if b < MAX_CHAR {
        s.insert(b + 1);
    }
}

pub fn cell_of(cells: &[u32], c: u32) -> usize {
    match cells.binary_search(&c) {
        Ok(i) => i,
        Err(i) => i - 1,
    }
}

/// Keep one letter per group of letters of the same cell that no node distinguishes.
/// `keep`: letters that must stay.
fn group(letters: &[u32], cells: &[u32], table: &[Vec<usize>], keep: &BTreeSet<u32>) -> Vec<usize> {
    let mut seen: HashMap<(usize, Vec<usize>), usize> = HashMap::new();
    let mut cols = Vec::new();
    for (l, &c) in letters.iter().enumerate() {
        let col: Vec<usize> = table.iter().map(|row| row[l]).collect();
        let key = (cell_of(cells, c), col);
        if keep.contains(&c) || !seen.contains_key(&key) {
            seen.insert(key, l);
            cols.push(l);
        }
    }
    cols
}

/// Derivative graph reachable from roots, through char_derivative. Nodes are identified by
/// the identity of terms. Returns None if there are more than cap nodes.
/// Node i (1-based) of the result is the i-th element of the returned vector.
pub fn derivative_graph(
    m: &mut ReManager,
    roots: &[RegLan],
    cells: &[u32],
    cap: usize,
    keep: &BTreeSet<u32>,
    rng: &mut Rng,
    calls: &mut usize,
) -> Option<(Graph, Vec<RegLan>)> {
    let mut raw = raw_letters(cells, rng);
    raw.extend(keep.iter());
    let mut letters: Vec<u32> = raw.iter().copied().collect();
    let mut nodes: Vec<RegLan> = Vec::new();
    let mut index: HashMap<*const RE, usize> = HashMap::new();
    for &r in roots {
        let p = r as *const RE;
        if !index.contains_key(&p) {
            index.insert(p, nodes.len() + 1);
            nodes.push(r);
        }
    }
    let mut table: Vec<Vec<usize>> = Vec::new();
    loop {
        let mut i = 0;
        while i < nodes.len() {
            if table.len() <= i {
                table.push(Vec::new());
            }
            let n = nodes[i];
            for s in n.char_ranges() {
                if raw.len() < 60 {
                    around(&mut raw, s.pick_start(), s.pick_end());
                }
            }
            while table[i].len() < letters.len() {
                let c = letters[table[i].len()];
                *calls += 1;
                let d = m.char_derivative(n, c);
                let p = d as *const RE;
                let k = match index.get(&p) {
                    Some(&k) => k,
                    None => {
                        nodes.push(d);
                        index.insert(p, nodes.len());
                        if nodes.len() > cap {
                            return None;
                        }
                        nodes.len()
                    }
                };
                table[i].push(k);
            }
            i += 1;
        }
        // more letters?
        let new: Vec<u32> = raw.iter().copied().filter(|c| !letters.contains(c)).collect();
        if new.is_empty() {
            break;
        }
        letters.extend(new);
    }
    let cols = group(&letters, cells, &table, keep);
    let g = Graph {
        letters: cols.iter().map(|&l| letters[l]).collect(),
        raw_letters: letters.len(),
        nul: nodes.iter().map(|n| n.nullable).collect(),
        succ: table.iter().map(|row| cols.iter().map(|&l| row[l]).collect()).collect(),
    };
    Some((g, nodes))
}

/// Table of an automaton over letters: the cells given, plus the end points of the ranges of all
/// states. Node index = state id + 1.
pub fn automaton_graph(
    a: &Automaton,
    cells: &[u32],
    keep: &BTreeSet<u32>,
    rng: &mut Rng,
    calls: &mut usize,
) -> Graph {
    let mut raw = raw_letters(cells, rng);
    raw.extend(keep.iter());
    for s in a.states() {
        for r in s.char_ranges() {
            if raw.len() < 80 {
                around(&mut raw, r.pick_start(), r.pick_end());
            }
        }
    }
    let letters: Vec<u32> = raw.into_iter().collect();
    let mut table = Vec::new();
    let n = a.num_states();
    for i in 0..n {
        let s = a.state(i);
        let row: Vec<usize> = letters
            .iter()
            .map(|&c| {
                *calls += 1;
                a.next(s, c).id() + 1
            })
            .collect();
        table.push(row);
    }
    let cols = group(&letters, cells, &table, keep);
    Graph {
        letters: cols.iter().map(|&l| letters[l]).collect(),
        raw_letters: letters.len(),
        nul: (0..n).map(|i| a.state(i).is_final()).collect(),
        succ: table.iter().map(|row| cols.iter().map(|&l| row[l]).collect()).collect(),
    }
}
