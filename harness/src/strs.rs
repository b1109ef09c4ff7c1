//! C06 (string functions), C08 (literals), C09 (order and conversions), C17 (well-formedness).
use crate::term::*;
use crate::util::*;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as w;
use aws_smt_strings::smt_strings::*;

/// content of a string, as produced: [-1] stands for a panic
fn out(r: &Result<SmtString, String>) -> J {
    match r {
        Ok(s) => J::word(s.as_ref()),
        Err(_) => J::ints(&[-1]),
    }
}
fn outb(r: Result<bool, String>) -> J {
    r.map_or(J::I(2), J::b)
}
fn outi(r: Result<i32, String>) -> J {
    r.map_or(J::I(-9), |x| J::I(x as i64))
}
fn b<R>(what: &str, s: &[u32], p: &[u32], f: impl FnOnce() -> R) -> Result<R, String> {
    guard(|| format!("{what} {s:?} {p:?}"), f)
}

/// all words over 0..n of length at most max
fn words(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for x in &last {
            for a in 0..n {
                let mut y = x.clone();
                y.push(a);
                next.push(y);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn conc(w: &[usize], map: &[u32]) -> Vec<u32> {
    w.iter().map(|&i| map[i]).collect()
}

// characters that collide when truncated, masked, or compared by their low bits
const MAPS: [[u32; 3]; 7] = [
    [97, 98, 99],
    [0, 0x2FFFF, 0x10000],
    [0x61, 0x161, 0x10061],
    [0xFF, 0x100, 0x1FF],
    [0xFFFD, 0xFFFF, 0x2FFFD],
    [0xD800, 0xDFFF, 0x1D800],
    [48, 57, 0x20030],
];

// -------------------------------------------------------------------------- C06

fn pair(c: &mut Ctx, s: &[u32], p: &[u32], idx: &[i64], reps: &[Vec<u32>]) {
    let (x, y) = (smt(s), smt(p));
    c.calls += 5 + idx.len() + 2 * reps.len();
    let mut ix = Vec::new();
    for &i in idx {
        ix.push(J::A(vec![J::I(i), outi(b("indexof", s, p, || str_indexof(&x, &y, i as i32)))]));
    }
    let mut rs = Vec::new();
    for r in reps {
        let z = smt(r);
        rs.push(J::A(vec![
            J::word(r),
            out(&b("replace", s, p, || str_replace(&x, &y, &z))),
            out(&b("replace_all", s, p, || str_replace_all(&x, &y, &z))),
        ]));
    }
    let e = J::O(vec![
        ("op", J::s("pair")),
        ("s", J::word(s)),
        ("p", J::word(p)),
        ("cat", out(&b("concat", s, p, || str_concat(&x, &y)))),
        ("pre", outb(b("prefixof", s, p, || str_prefixof(&y, &x)))),
        ("suf", outb(b("suffixof", s, p, || str_suffixof(&y, &x)))),
        ("con", outb(b("contains", s, p, || str_contains(&x, &y)))),
        ("idx", J::A(ix)),
        ("rep", J::A(rs)),
    ]);
    c.emit(e);
}

fn one(c: &mut Ctx, s: &[u32], at: &[i64], sub: &[(i64, i64)]) {
    let x = smt(s);
    c.calls += 1 + at.len() + sub.len();
    let a: Vec<J> = at
        .iter()
        .map(|&i| J::A(vec![J::I(i), out(&b("at", s, &[], || str_at(&x, i as i32)))]))
        .collect();
    let t: Vec<J> = sub
        .iter()
        .map(|&(i, n)| {
            let r = guard(|| format!("substr {s:?} {i} {n}"), || str_substr(&x, i as i32, n as i32));
            J::A(vec![J::I(i), J::I(n), out(&r)])
        })
        .collect();
    let e = J::O(vec![
        ("op", J::s("one")),
        ("s", J::word(s)),
        ("len", outi(b("len", s, &[], || str_len(&x)))),
        ("at", J::A(a)),
        ("sub", J::A(t)),
    ]);
    c.emit(e);
}

const MIN: i64 = i32::MIN as i64;
const MAX: i64 = i32::MAX as i64;

fn indices(n: usize, r: &mut Rng, all: bool) -> Vec<i64> {
    let n = n as i64;
    let mut v: Vec<i64> = if all || n <= 8 {
        (-2..=n + 2).collect()
    } else {
        let mut v: Vec<i64> = vec![-1, 0, 1, n - 2, n - 1, n, n + 1];
        for _ in 0..8 {
            v.push(r.range(0, n));
        }
        v
    };
    v.extend([MIN, MIN + 1, MAX - n, MAX - 1, MAX, 65536, 65536 + n.min(3)]);
    v
}

fn subs(n: usize, r: &mut Rng) -> Vec<(i64, i64)> {
    let mut v = Vec::new();
    let ix = indices(n, r, false);
    if n <= 4 {
        for &i in &ix {
            for &k in &ix {
                v.push((i, k));
            }
        }
    } else {
        for &i in &ix {
            for _ in 0..3 {
                v.push((i, *r.pick(&ix)));
            }
            v.push((i, n as i64 - i));
            v.push((i, (n as i64 - i - 1).max(-5)));
        }
    }
    v.retain(|x| x.1 <= MAX && x.1 >= MIN);
    v
}

/// words with many borders and overlaps
fn periodic(r: &mut Rng, map: &[u32], max: usize) -> Vec<u32> {
    let n = r.below(max) + 1;
    match r.below(6) {
        0 => vec![map[0]; n],
        1 => {
            let k = r.below(4) + 1;
            let p: Vec<u32> = (0..k).map(|_| *r.pick(&map[..2])).collect();
            (0..n).map(|i| p[i % k]).collect()
        }
        2 => {
            // Fibonacci word
            let (mut a, mut b) = (vec![map[0]], vec![map[0], map[1]]);
            while b.len() < n {
                let mut x = b.clone();
                x.extend(a);
                a = b;
                b = x;
            }
            b.truncate(n);
            b
        }
        3 => {
            let mut v = vec![map[0]; n];
            let i = r.below(n);
            v[i] = map[1];
            v
        }
        4 => {
            let mut v = vec![map[0]; n];
            v[n - 1] = map[2];
            v
        }
        _ => (0..n).map(|_| *r.pick(map)).collect(),
    }
}

pub fn c06(c: &mut Ctx) {
    let mut rng = c.rng(6);
    // exhaustive: subject and pattern over two and three characters
    let (n2s, n2p) = if c.thorough { (8, 5) } else { (6, 3) };
    let s2 = words(2, n2s);
    let p2 = words(2, n2p);
    let s3 = words(3, c.q(3, 4));
    let p3 = words(3, 2);
    let mut n = 0usize;
    for (ss, ps) in [(&s2, &p2), (&s3, &p3)] {
        for s in ss {
            for p in ps {
                n += 1;
                // the two profiles share the enumeration
                if n % 2 == c.checked as usize || !c.mine() {
                    continue;
                }
                let m = if n % 3 == 0 { *rng.pick(&MAPS) } else { MAPS[0] };
                let (s, p) = (conc(s, &m), conc(p, &m));
                let ix = indices(s.len(), &mut rng, true);
                let mut reps = vec![vec![], vec![m[0]]];
                let mut pp = p.clone();
                pp.extend(&p);
                reps.push(pp);
                let mut pp = vec![m[1]];
                pp.extend(&p);
                reps.push(pp);
                pair(c, &s, &p, &ix, &reps);
            }
        }
    }
    let lim = c.q(4, 7);
    for s in s2.iter().filter(|s| s.len() <= lim).chain(s3.iter()) {
        if !c.mine() {
            continue;
        }
        let m = *rng.pick(&MAPS);
        let s = conc(s, &m);
        let at = indices(s.len(), &mut rng, true);
        let sb = subs(s.len(), &mut rng);
        one(c, &s, &at, &sb);
    }
    // long, repetitive words (search tables, bit masks and shifts have size limits)
    for i in 0..c.q(110, 2500) {
        let m = *rng.pick(&MAPS);
        let big = if i % 10 == 0 { c.q(300, 600) } else { 40 };
        let s = periodic(&mut rng, &m, big);
        let p = if rng.chance(2, 3) {
            let i = rng.below(s.len());
            let k = if rng.chance(1, 2) { rng.below(5) } else { rng.below(s.len() - i + 1) };
            let mut p = s[i..(i + k).min(s.len())].to_vec();
            if rng.chance(1, 5) && !p.is_empty() {
                let j = rng.below(p.len());
                p[j] = *rng.pick(&m);
            }
            p
        } else {
            periodic(&mut rng, &m, 6)
        };
        let mut reps = vec![vec![]];
        let mut r = p.clone();
        r.extend(&periodic(&mut rng, &m, 3));
        reps.push(r);
        reps.push(periodic(&mut rng, &m, 4));
        let mut ix = indices(s.len(), &mut rng, false);
        ix.push(s.len() as i64 - p.len() as i64);
        ix.push(s.len() as i64 - p.len() as i64 + 1);
        pair(c, &s, &p, &ix, &reps);
        if i % 3 == 0 {
            let at = indices(s.len(), &mut rng, false);
            let sb = subs(s.len(), &mut rng);
            one(c, &s, &at, &sb);
        }
    }
    // strings used by other functions of the crate: aliasing of the arguments
    for _ in 0..c.q(20, 200) {
        let m = *rng.pick(&MAPS);
        let s = periodic(&mut rng, &m, 9);
        let ix = indices(s.len(), &mut rng, true);
        pair(c, &s, &s, &ix, &[s.clone(), vec![]]);
    }
}

// -------------------------------------------------------------------------- C08

fn parse_batch(c: &mut Ctx, batch: &mut Vec<J>, text: &[u32]) {
    let t: String = match text.iter().map(|&x| char::from_u32(x)).collect::<Option<String>>() {
        Some(t) => t,
        None => return,
    };
    c.calls += 1;
    let r = guard(|| format!("parse_smt_literal {text:?}"), || parse_smt_literal(&t));
    batch.push(J::A(vec![J::word(text), out(&r)]));
    if batch.len() >= 40 {
        flush(c, "parse", batch);
    }
}
fn flush(c: &mut Ctx, op: &str, batch: &mut Vec<J>) {
    if !batch.is_empty() {
        let v = std::mem::take(batch);
        c.emit(J::O(vec![("op", J::s(op)), ("cases", J::A(v))]));
    }
}
fn text(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
fn outs(r: &Result<String, String>) -> J {
    match r {
        Ok(s) => J::word(&text(s)),
        Err(_) => J::ints(&[-1]),
    }
}

/// Display of a string, and what reading it back gives
fn show_batch(c: &mut Ctx, batch: &mut Vec<J>, s: &[u32]) {
    let x = smt(s);
    c.calls += 2;
    let d = b("Display", s, &[], || x.to_string());
    // undo the quotes; the specification does the same on its own
    let back = match &d {
        Ok(t) if t.len() >= 2 => {
            let body: String = t[1..t.len() - 1].replace("\"\"", "\"");
            out(&b("parse_smt_literal", s, &text(&body), || parse_smt_literal(&body)))
        }
        _ => J::ints(&[-1]),
    };
    batch.push(J::A(vec![J::word(s), outs(&d), back]));
    if batch.len() >= 40 {
        flush(c, "show", batch);
    }
}

fn token(r: &mut Rng) -> Vec<u32> {
    const HEX: &[u8] = b"0123456789abcdefABCDEF";
    let hex = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| *r.pick(HEX) as char).collect() };
    let t = match r.below(16) {
        0 => "\\".into(),
        1 => "u".into(),
        2 => "{".into(),
        3 => "}".into(),
        4 => "\"".into(),
        5 => "\\u".into(),
        6 => "\\u{".into(),
        7 => {
            let n = r.below(6);
            format!("\\u{}", hex(r, n))
        }
        8 | 9 => {
            let n = r.below(8);
            format!("\\u{{{}}}", hex(r, n))
        }
        10 => {
            // around the limit, with leading zeros, in both cases
            let v = *r.pick(&[0u32, 0x41, 0xFFFF, 0x10000, 0x2FFFE, 0x2FFFF, 0x30000, 0x2FFFF0 >> 4, 0xFFFFF, 0x20000]);
            let wd = r.below(7);
            if r.chance(1, 2) {
                format!("\\u{{{v:0wd$x}}}")
            } else {
                format!("\\u{{{v:0wd$X}}}")
            }
        }
        11 => {
            let n = r.below(6);
            hex(r, n)
        }
        12 => "\\x41".into(),
        13 => return vec![*r.pick(&[0xFF11u32, 0x661, 0x1D7CE, 0xFF41, 0xE9, 0x212A, 0x2FFFF, 0x20000, 0xFFFD, 0x7F, 0x1F, 0])],
        14 => {
            let n = r.below(3);
            format!("\\u{{{}", hex(r, n))
        }
        _ => (*r.pick(&["g", "U", "\\U0041", "\\\\", " ", "~", "a", "z", "0"])).into(),
    };
    text(&t)
}

/// sizes around which implementations like to change their ways
const SIZES: [usize; 18] = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 513, 1025];

pub fn c08(c: &mut Ctx) {
    let mut rng = c.rng(8);
    let mut batch = Vec::new();
    // all short texts
    let syms: Vec<u32> = text("\\u{}2fgF");
    let all = words(syms.len(), c.q(5, 6));
    for (i, x) in all.iter().enumerate() {
        if x.len() >= 5 && i % 2 == c.checked as usize {
            continue;
        }
        if c.mine() {
            parse_batch(c, &mut batch, &conc(x, &syms));
        }
    }
    // every short text after the beginning of an escape sequence
    let more = words(syms.len(), 4);
    for pre in ["\\u{", "\\u{2", "\\u{00", "\\u{2ff", "\\u{2FFF", "\\u{02fff", "\\u2", "\\u00f", "\\u{2ffff", "\\u{00000"] {
        for (i, x) in more.iter().enumerate() {
            if x.len() == 4 && (i / 3) % 4 != (c.checked as usize) * 2 && !c.thorough {
                continue;
            }
            if c.mine() {
                let mut t = text(pre);
                t.extend(conc(x, &syms));
                parse_batch(c, &mut batch, &t);
            }
        }
    }
    // every value of a braced escape (all five digit forms around the limits)
    let step = c.q(17, 1);
    let mut v = c.shard * 7 + c.checked as usize * 13;
    while v <= 0xFFFFF {
        let f = match rng.below(4) {
            0 => format!("\\u{{{v:05x}}}"),
            1 => format!("\\u{{{v:X}}}"),
            2 => format!("\\u{{{v:x}}}z"),
            _ => format!("a\\u{:04X}", v & 0xFFFF),
        };
        parse_batch(c, &mut batch, &text(&f));
        v += step * c.nshards * 2;
    }
    for v in 0..0x10000u32 {
        if v % 2 != c.checked as u32 && c.mine() {
            let f = if v & 4 == 0 { format!("\\u{v:04x}") } else { format!("\\u{v:04X}F") };
            parse_batch(c, &mut batch, &text(&f));
        }
    }
    // every five digit value over these digits
    let digits: Vec<u32> = text("01237 8acDfF").into_iter().filter(|&x| x != 32).collect();
    for (i, x) in words(digits.len(), 5).iter().enumerate() {
        if x.len() < 5 || i % 2 == c.checked as usize || !c.mine() {
            continue;
        }
        let mut t = text("\\u{");
        t.extend(conc(x, &digits));
        t.push(125);
        if i % 5 == 0 {
            t.remove(2);
        }
        parse_batch(c, &mut batch, &t);
    }
    for v in (0x2FFE0..0x30020u32).chain(0..0x90).chain(0xFFF0..0x10010).chain(0xD7F0..0xD810) {
        if c.mine() {
            for f in [format!("\\u{{{v:x}}}"), format!("\\u{{{v:05X}}}"), format!("\\u{{0{v:x}}}"), format!("\\u{:04x}", v & 0xFFFF)] {
                parse_batch(c, &mut batch, &text(&f));
            }
        }
    }
    // random token sequences
    for _ in 0..c.q(1500, 40000) {
        let n = rng.below(9) + 1;
        let mut t = Vec::new();
        for _ in 0..n {
            t.extend(token(&mut rng));
        }
        parse_batch(c, &mut batch, &t);
    }
    // long texts
    for _ in 0..c.q(60, 2000) {
        let n = *rng.pick(&SIZES) + rng.below(3);
        let plain = *rng.pick(&[97u32, 97, 48, 32, 117, 0xE9, 0x10000]);
        let mut t = vec![plain; n];
        for _ in 0..1 + rng.below(3) {
            t.extend(token(&mut rng));
        }
        for _ in 0..rng.below(4) {
            t.push(plain);
        }
        if rng.chance(1, 3) {
            let mut u = token(&mut rng);
            u.extend(t);
            t = u;
        }
        parse_batch(c, &mut batch, &t);
    }
    flush(c, "parse", &mut batch);

    // Display: all single characters
    let mut sh = Vec::new();
    for x in 0..=MAX_CHAR {
        let near = x < 0x400 || (x + 8) & 0xFFF < 16 || x > 0x2FFF0;
        if !(near || c.thorough || x % 23 == c.seed as u32 % 23) || !c.mine() {
            continue;
        }
        show_batch(c, &mut sh, &[x]);
        if near || x % 5 == 0 {
            show_batch(c, &mut sh, &[92, 117, x]);
            show_batch(c, &mut sh, &[92, x, 125]);
        }
        if near || c.thorough {
            c.calls += 2;
            let r1 = guard(|| format!("char_to_smt {x}"), || char_to_smt(x));
            let r2 = guard(|| format!("smt_char_as_string {x}"), || smt_char_as_string(x));
            batch.push(J::A(vec![J::u(x), outs(&r1), outs(&r2)]));
            if batch.len() >= 40 {
                flush(c, "chr", &mut batch);
            }
        }
    }
    flush(c, "chr", &mut batch);
    // strings that spell escape sequences
    let syms: Vec<u32> = vec![92, 117, 123, 125, 52, 97, 34, 0x1F, 0x10000];
    for (i, x) in words(syms.len(), c.q(4, 5)).iter().enumerate() {
        if x.len() >= 4 && i % 2 == c.checked as usize {
            continue;
        }
        if c.mine() {
            show_batch(c, &mut sh, &conc(x, &syms));
        }
    }
    for _ in 0..c.q(800, 20000) {
        let n = rng.below(7) + 1;
        let mut t = Vec::new();
        for _ in 0..n {
            if rng.chance(1, 6) {
                t.push(*rng.pick(&[0xD800u32, 0xDFFF, 0x2FFFF, 0x10000, 0xFFFF, 0x7F, 0x80, 0x1F, 0x20, 0x7E, 34, 92]));
            } else {
                t.extend(token(&mut rng));
            }
        }
        show_batch(c, &mut sh, &t);
    }
    for _ in 0..c.q(40, 1500) {
        let n = *rng.pick(&SIZES) + rng.below(3);
        let plain = *rng.pick(&[97u32, 97, 48, 92, 34, 9, 0x10000]);
        let mut t = vec![plain; n];
        t.push(*rng.pick(&[0xD800u32, 0x2FFFF, 0x10000, 0xFFFF, 0x7F, 0x80, 0x1F, 10, 0, 0x7E, 34, 92]));
        t.extend(token(&mut rng));
        t.extend(token(&mut rng));
        show_batch(c, &mut sh, &t);
    }
    flush(c, "show", &mut sh);
}

// -------------------------------------------------------------------------- C09

fn flush2(c: &mut Ctx, op: &str, batch: &mut Vec<J>, n: usize) {
    if batch.len() >= n {
        flush(c, op, batch);
    }
}

pub fn c09(c: &mut Ctx) {
    let mut rng = c.rng(9);
    let mut v = Vec::new();
    // order: all pairs of short strings
    let ws = words(3, 3);
    let mut k = 0;
    for x in &ws {
        for y in &ws {
            k += 1;
            if k % 2 == c.checked as usize || !c.mine() {
                continue;
            }
            let mut m = *rng.pick(&MAPS);
            rng.shuffle(&mut m);
            order(c, &mut v, &conc(x, &m), &conc(y, &m));
        }
    }
    for _ in 0..c.q(600, 20000) {
        let m = *rng.pick(&MAPS);
        let x = periodic(&mut rng, &m, 12);
        let mut y = x.clone();
        match rng.below(5) {
            0 => y.truncate(rng.below(x.len() + 1)),
            1 => {
                let i = rng.below(y.len());
                y[i] = *rng.pick(&m);
                if rng.chance(1, 2) {
                    y.push(m[0]);
                }
            }
            2 => y.extend(periodic(&mut rng, &m, 3)),
            3 => {
                let i = rng.below(y.len());
                y[i] = rng.below(0x30000) as u32;
                y.truncate(i + 1 + rng.below(3));
            }
            _ => y = periodic(&mut rng, &m, 12),
        }
        order(c, &mut v, &x, &y);
        order(c, &mut v, &y, &x);
    }
    // long strings that differ late
    for _ in 0..c.q(120, 3000) {
        let m = *rng.pick(&MAPS);
        let n = *rng.pick(&SIZES[..15]) + rng.below(3);
        let x = if rng.chance(1, 2) { vec![m[0]; n] } else { (0..n).map(|_| *rng.pick(&m)).collect() };
        let mut y = x.clone();
        let i = if rng.chance(1, 2) { rng.below(n) } else { n - 1 - rng.below(n.min(18)) };
        y[i] = *rng.pick(&m);
        match rng.below(5) {
            0 => y.truncate(i + 1),
            1 => y.push(m[1]),
            2 => {
                let j = rng.below(n);
                y[j] = *rng.pick(&m);
            }
            3 => y.truncate(i),
            _ => {}
        }
        order(c, &mut v, &x, &y);
        order(c, &mut v, &y, &x);
    }
    flush(c, "order", &mut v);

    // to_int
    let mut texts: Vec<String> = Vec::new();
    let limits: [u128; 12] = [
        0, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 5_000_000_000, 1 << 63, 1 << 64, 10_000_000_000, (1 << 64) * 3, 1_000_000_000,
    ];
    for l in limits {
        for d in -12i128..=12 {
            let x = l as i128 + d;
            if x >= 0 {
                texts.push(x.to_string());
                texts.push(format!("{}{}", "0".repeat(rng.below(25)), x));
            }
        }
    }
    for k in [50, 63, 64, 65, 100, 128, 129, 256, 300] {
        for (a, b) in [("0", "7"), ("0", "x"), ("0", "2147483648"), ("1", "x"), ("x", "1"), ("0", "2147483647"), ("0", ":")] {
            texts.push(format!("{}{}", a.repeat(k), b));
        }
    }
    for k in 0..=40 {
        texts.push("9".repeat(k));
        texts.push(format!("1{}", "0".repeat(k)));
        texts.push("0".repeat(k));
        texts.push(format!("{}7", "0".repeat(k)));
        texts.push(format!("{}x", "9".repeat(k)));
        texts.push(format!("x{}", "1".repeat(k)));
        texts.push(format!("{}/{}", "2".repeat(k / 2), "3".repeat(k / 2)));
        texts.push(format!("{}:", "2".repeat(k / 2)));
    }
    // prefixes of the limit continued in all ways
    for i in 0..=10 {
        for d in 0..10 {
            for e in ["", "0", "9", "47", "99"] {
                texts.push(format!("{}{}{}", &"2147483647"[..i], d, e));
            }
        }
    }
    for s in ["-1", "+1", "-0", " 1", "1 ", "1.0", "1e3", "0x10", "-", "", "1_0", "--1", "\u{0}1", "1\u{0}"] {
        texts.push(s.to_string());
    }
    let mut all: Vec<Vec<u32>> = texts.iter().map(|t| text(t)).collect();
    for bad in [47u32, 58, 48 + 256, 48 + 65536, 0x660, 0x669, 0xFF10, 0x1D7CE, 0, MAX_CHAR, 176, 0x130] {
        all.push(vec![bad]);
        all.push(vec![49, bad]);
        all.push(vec![bad, 49]);
        let mut long = vec![57; 12];
        long.push(bad);
        all.push(long.clone());
        long.extend([57; 12]);
        all.push(long);
    }
    for t in &all {
        if c.mine() {
            to_int(c, &mut v, t);
        }
    }
    for _ in 0..c.q(1500, 40000) {
        // values of every magnitude, in particular those that wrap to something plausible
        let t = match rng.below(6) {
            0 => {
                let k = rng.below(25) + 1;
                (0..k).map(|_| 48 + rng.below(10) as u32).collect()
            }
            1 => text(&format!("{}", rng.next() >> rng.below(64))),
            2 => text(&format!("{}", ((rng.below(2000) as u128 + 1) << 32) + (rng.next() >> (33 + rng.below(31))) as u128)),
            3 => text(&format!("{}", ((rng.below(9) as u128 + 1) << 64) + (rng.next() >> (33 + rng.below(31))) as u128)),
            4 => text(&format!("{}", rng.range(MAX - 40, MAX + 40))),
            _ => {
                let k = rng.below(14) + 1;
                let mut t: Vec<u32> = (0..k).map(|_| 48 + rng.below(10) as u32).collect();
                let i = rng.below(k);
                t[i] = *rng.pick(&[47, 58, 45, 43, 32, 304, 65584, 0]);
                t
            }
        };
        to_int(c, &mut v, &t);
    }
    flush(c, "toint", &mut v);

    // from_int and back
    let mut ns: Vec<i64> = vec![MIN, MIN + 1, -1, -9, -10, MAX];
    let mut p = 1i64;
    while p <= 1_000_000_000 {
        for d in -2..=2 {
            for k in [1, 2, 5, 9] {
                ns.push(p * k + d);
                ns.push(-(p * k + d));
            }
        }
        p *= 10;
    }
    ns.extend((MAX - 30)..=MAX);
    ns.extend(-20..300);
    for _ in 0..c.q(800, 30000) {
        ns.push((rng.next() as i32 >> rng.below(31)) as i64);
    }
    for n in ns {
        if !(MIN..=MAX).contains(&n) || !c.mine() {
            continue;
        }
        c.calls += 2;
        let s = guard(|| format!("str_from_int {n}"), || str_from_int(n as i32));
        let back = match &s {
            Ok(s) => outi(guard(|| format!("to_int(from_int {n})"), || str_to_int(s))),
            Err(_) => J::I(-9),
        };
        v.push(J::A(vec![J::I(n), out(&s), back]));
        flush2(c, "fromint", &mut v, 40);
    }
    flush(c, "fromint", &mut v);

    // codes: every code point (the two profiles share them)
    let mut xs: Vec<i64> = vec![MIN, MIN + 1, -2, -1, 0x30000, 0x30001, 0xFFFF_F, 0x10FFFF, 0x110000, MAX - 1, MAX, -65536, -196607];
    for _ in 0..60 {
        xs.push(rng.next() as i32 as i64);
    }
    for x in 0..0x30000i64 {
        if x % 2 == c.checked as i64 || x < 0x200 || x > 0x2FF00 {
            xs.push(x);
        }
    }
    for x in xs {
        if !c.mine() {
            continue;
        }
        c.calls += 3;
        let s = guard(|| format!("str_from_code {x}"), || str_from_code(x as i32));
        let (code, dig) = match &s {
            Ok(s) => (
                outi(guard(|| format!("to_code(from_code {x})"), || str_to_code(s))),
                outb(guard(|| format!("is_digit(from_code {x})"), || str_is_digit(s))),
            ),
            Err(_) => (J::I(-9), J::I(2)),
        };
        v.push(J::A(vec![J::I(x), out(&s), code, dig]));
        flush2(c, "code", &mut v, 400);
    }
    flush(c, "code", &mut v);
    // to_code, is_digit of strings that don't have one character, or any one
    let mut ss: Vec<Vec<u32>> = words(3, 3).iter().map(|x| conc(x, &[48, 57, 0x2FFFF])).collect();
    for _ in 0..c.q(100, 2000) {
        let n = rng.below(4);
        ss.push((0..n).map(|_| if rng.chance(1, 2) { 45 + rng.below(16) as u32 } else { rng.below(0x30000) as u32 }).collect());
    }
    for s in ss {
        if !c.mine() {
            continue;
        }
        let x = smt(&s);
        c.calls += 2;
        let code = outi(b("to_code", &s, &[], || str_to_code(&x)));
        let dig = outb(b("is_digit", &s, &[], || str_is_digit(&x)));
        v.push(J::A(vec![J::word(&s), code, dig]));
        flush2(c, "ascode", &mut v, 40);
    }
    flush(c, "ascode", &mut v);
}

fn order(c: &mut Ctx, v: &mut Vec<J>, x: &[u32], y: &[u32]) {
    let (s, t) = (smt(x), smt(y));
    c.calls += 2;
    v.push(J::A(vec![
        J::word(x),
        J::word(y),
        outb(b("lt", x, y, || str_lt(&s, &t))),
        outb(b("le", x, y, || str_le(&s, &t))),
    ]));
    flush2(c, "order", v, 40);
}

fn to_int(c: &mut Ctx, v: &mut Vec<J>, t: &[u32]) {
    let s = smt(t);
    c.calls += 1;
    v.push(J::A(vec![J::word(t), outi(b("to_int", t, &[], || str_to_int(&s)))]));
    flush2(c, "toint", v, 40);
}

// -------------------------------------------------------------------------- C17

fn split(x: u32) -> J {
    J::ints(&[(x >> 16) as i64, (x & 0xFFFF) as i64])
}
fn parts(v: &[u32]) -> J {
    J::A(v.iter().map(|&x| split(x)).collect())
}

/// can s be used with the rest of the crate?
fn usable(s: &SmtString) -> bool {
    let r = guard(
        || format!("use of {s:?}"),
        || {
            let mut m = ReManager::new();
            let e = m.str(s);
            let _ = m.str_in_re(s, e);
            let _ = m.get_string(e);
            let _ = m.str_derivative(e, s);
            let _ = m.smt_range(s, s);
            let e2 = w::str_to_re(s);
            let star = w::re_star(w::re_union(e2, w::re_range(s, s)));
            let _ = w::str_in_re(s, star);
            let _ = w::str_replace_re(s, e2, s);
            let _ = w::str_replace_re_all(s, e2, s);
            let _ = s.to_string();
            let _ = s.to_unicode_string();
            let _ = s.is_unicode();
            let _ = (str_to_code(s), str_is_digit(s), str_len(s));
            let _ = (str_lt(s, s), str_le(s, s), str_contains(s, s), str_indexof(s, s, 0));
            for i in 0..s.len() {
                let _ = (m.char(s.char(i)), str_at(s, i as i32));
            }
        },
    );
    r.is_ok()
}

fn good(c: &mut Ctx, batch: &mut Vec<J>, what: &str, inp: &[u32], r: Result<SmtString, String>) {
    c.calls += 1;
    let (res, g, u) = match &r {
        Ok(s) => {
            let it: Vec<u32> = s.iter().copied().collect();
            let g = s.is_good();
            (parts(&it), g, usable(s))
        }
        Err(_) => (J::A(vec![J::ints(&[-1, -1])]), false, false),
    };
    batch.push(J::A(vec![J::s(what), parts(inp), res, J::b(g), J::b(u)]));
    flush2(c, "good", batch, 20);
}

const INTS: [u32; 22] = [
    0, 1, 34, 92, 117, 127, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x2FFFE, 0x2FFFF, 0x30000, 0x30001, 0x10FFFF, 0x110000,
    0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF,
];

fn uint(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&INTS),
        1 => 97 + r.below(3) as u32,
        2 => r.below(0x40000) as u32,
        _ => (r.next() >> (32 + r.below(32))) as u32,
    }
}
fn uchar(r: &mut Rng) -> char {
    loop {
        let x = match r.below(4) {
            0 => *r.pick(&INTS),
            1 => 97 + r.below(3) as u32,
            2 => 0x2FFFC + r.below(8) as u32,
            _ => r.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}

fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

pub fn c17(c: &mut Ctx) {
    let mut rng = c.rng(17);
    let mut v = Vec::new();
    // single integers and characters
    let mut xs: Vec<u32> = INTS.to_vec();
    for k in 0..32 {
        for d in 0..3 {
            xs.push((1u32 << k).wrapping_add(d).wrapping_sub(1));
            xs.push((3u32 << k).wrapping_add(d).wrapping_sub(1));
        }
    }
    for _ in 0..c.q(150, 4000) {
        xs.push(uint(&mut rng));
    }
    for x in xs {
        if !c.mine() {
            continue;
        }
        let d = || format!("From integer {x}");
        good(c, &mut v, "int", &[x], guard(d, || SmtString::from(x)));
        good(c, &mut v, "int", &[x], guard(d, || SmtString::from(vec![x])));
        good(c, &mut v, "int", &[x, 97], guard(d, || SmtString::from(&[x, 97][..])));
        good(c, &mut v, "int", &[98, x], guard(d, || SmtString::from(&[98, x])));
        if let Some(ch) = char::from_u32(x) {
            let d = || format!("From char/str {x}");
            good(c, &mut v, "text", &[x], guard(d, || SmtString::from(ch)));
            let t = format!("a{ch}b");
            good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t.as_str())));
            let t2 = t.clone();
            good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t2)));
            for pre in ["", "\\", "\\u", "\\u{", "\\u{2", "\\u{2ffff", "\\u00", "\\u{41}", "\\u004", "\\u{30000}", "\\u{2FFFF}"] {
                let t = format!("{pre}{ch}");
                good(c, &mut v, "parse", &chars(&t), guard(|| format!("parse {t:?}"), || parse_smt_literal(&t)));
                let t = format!("{pre}{ch}}}\\u{ch}");
                good(c, &mut v, "parse", &chars(&t), guard(|| format!("parse {t:?}"), || parse_smt_literal(&t)));
            }
        }
    }
    // sequences
    for _ in 0..c.q(250, 8000) {
        let n = rng.below(9);
        let a: Vec<u32> = (0..n).map(|_| uint(&mut rng)).collect();
        let d = || format!("From slice/vector {a:?}");
        good(c, &mut v, "int", &a, guard(d, || SmtString::from(&a[..])));
        good(c, &mut v, "int", &a, guard(d, || SmtString::from(a.clone())));
        if n >= 3 {
            let arr = [a[0], a[1], a[2]];
            good(c, &mut v, "int", &a[..3], guard(d, || SmtString::from(&arr)));
        } else if n == 0 {
            let arr: [u32; 0] = [];
            good(c, &mut v, "int", &[], guard(d, || SmtString::from(&arr)));
        }
        let t: String = (0..n).map(|_| uchar(&mut rng)).collect();
        let d = || format!("From str/String {t:?}");
        good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t.as_str())));
        good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t.clone())));
        let mut t2 = String::new();
        for _ in 0..rng.below(6) + 1 {
            if rng.chance(1, 4) {
                t2.push(uchar(&mut rng));
            } else {
                t2.extend(token(&mut rng).iter().filter_map(|&x| char::from_u32(x)));
            }
        }
        good(c, &mut v, "parse", &chars(&t2), guard(|| format!("parse {t2:?}"), || parse_smt_literal(&t2)));
    }
    // long sequences with one invalid integer
    for _ in 0..c.q(40, 2000) {
        let n = *rng.pick(&SIZES[..15]) + rng.below(3);
        let mut a: Vec<u32> = (0..n).map(|_| if rng.chance(1, 4) { rng.below(0x30000) as u32 } else { 97 }).collect();
        if rng.chance(5, 6) {
            let i = if rng.chance(1, 2) { rng.below(n) } else { n - 1 - rng.below(n.min(18)) };
            a[i] = *rng.pick(&INTS[15..]);
        }
        let d = || format!("From slice/vector {a:?}");
        good(c, &mut v, "int", &a, guard(d, || SmtString::from(&a[..])));
        good(c, &mut v, "int", &a, guard(d, || SmtString::from(a.clone())));
        let t: String = a.iter().map(|&x| char::from_u32(x).unwrap_or('\u{10FFFF}')).collect();
        good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t.as_str())));
        good(c, &mut v, "text", &chars(&t), guard(d, || SmtString::from(t.clone())));
        let t2: String = t.chars().map(|x| if x as u32 > 0x2FFFF { '\\' } else { x }).collect::<String>() + "\\u{30000}\\u{2FFFF}";
        good(c, &mut v, "parse", &chars(&t2), guard(d, || parse_smt_literal(&t2)));
    }
    // results of operations on well-formed strings
    for _ in 0..c.q(120, 4000) {
        let m = *rng.pick(&MAPS);
        let (a, p, r) = (periodic(&mut rng, &m, 8), periodic(&mut rng, &m, 3), periodic(&mut rng, &m, 3));
        let (x, y, z) = (smt(&a), smt(&p), smt(&r));
        let (i, n) = (rng.range(-2, 9), rng.range(-2, 9));
        let code = if rng.chance(1, 2) { rng.below(0x30010) as i32 } else { rng.next() as i32 };
        let d = || format!("operations on {a:?} {p:?} {r:?} {i} {n} {code}");
        good(c, &mut v, "op", &a, guard(d, || str_concat(&x, &y)));
        good(c, &mut v, "op", &a, guard(d, || str_at(&x, i as i32)));
        good(c, &mut v, "op", &a, guard(d, || str_substr(&x, i as i32, n as i32)));
        good(c, &mut v, "op", &a, guard(d, || str_replace(&x, &y, &z)));
        good(c, &mut v, "op", &a, guard(d, || str_replace_all(&x, &y, &z)));
        good(c, &mut v, "op", &a, guard(d, || str_from_code(code)));
        good(c, &mut v, "op", &a, guard(d, || str_from_int(code)));
        good(c, &mut v, "op", &a, guard(d, || EMPTY));
        // replacements by regular expressions, witnesses
        let pal = palette(&mut rng);
        let mut pool = vec![atom(&pal, &mut rng), atom(&pal, &mut rng)];
        for _ in 0..3 {
            let t = compose(&pool, &mut rng);
            pool.push(t);
        }
        let t = pool.pop().unwrap();
        let letters: Vec<u32> = cells(&norm(&t));
        if cost(&norm(&t), &letters, 60, 6000).is_none() {
            continue;
        }
        let mut mg = if rng.chance(1, 2) { M::own() } else { M::Wrap };
        let d = || format!("operations on {a:?} {t:?} {r:?}");
        let e = match guard(d, || mg.build(&t, &mut rng)) {
            Ok(e) => e,
            Err(_) => continue,
        };
        if mg.is_wrap() {
            good(c, &mut v, "op", &a, guard(d, || w::str_replace_re(&x, e, &z)));
            good(c, &mut v, "op", &a, guard(d, || w::str_replace_re_all(&x, e, &z)));
        } else {
            let g = guard(d, || mg.mgr().get_string(e));
            match g {
                Ok(Some(s)) => good(c, &mut v, "op", &a, Ok(s)),
                Ok(None) => {}
                Err(x) => good(c, &mut v, "op", &a, Err(x)),
            }
        }
    }
    flush(c, "good", &mut v);
}
