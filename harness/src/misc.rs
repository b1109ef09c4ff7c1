//! C15: loop ranges.
use crate::util::*;
use aws_smt_strings::loop_ranges::LoopRange;

fn big(mut n: u32) -> J {
    let mut v = Vec::new();
    while n > 0 {
        v.push(J::u(n % 10000));
        n /= 10000;
    }
    J::A(v)
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct LR(u32, Option<u32>);

impl LR {
    fn json(&self) -> J {
        J::A(vec![big(self.0), self.1.map_or(J::A(vec![J::I(-1)]), big)])
    }
    fn make(&self) -> LoopRange {
        match self {
            LR(i, Some(j)) => LoopRange::finite(*i, *j),
            LR(i, None) => LoopRange::infinite(*i),
        }
    }
    /// the set a range denotes, read through contains
    fn read(r: &LoopRange) -> LR {
        let lo = r.start();
        if r.is_infinite() {
            return LR(lo, None);
        }
        // largest x with contains(x); contains(lo) is assumed (else an empty range shows as lo..lo-1)
        let (mut a, mut b) = (lo as u64, u32::MAX as u64);
        while a < b {
            let m = (a + b + 1) / 2;
            if r.contains(m as u32) {
                a = m;
            } else {
                b = m - 1;
            }
        }
        LR(lo, Some(a as u32))
    }
}

fn res(r: Result<LoopRange, String>) -> J {
    match r {
        Ok(x) => J::A(vec![LR::read(&x).json()]),
        Err(_) => J::A(vec![]),
    }
}

fn pair(c: &mut Ctx, r: LR, s: LR) {
    let what = |f: &str| format!("{f} {r:?} {s:?}");
    let (x, y) = (r.make(), s.make());
    c.calls += 4;
    let add = guard(|| what("add"), || x.add(&y));
    let mul = guard(|| what("mul"), || x.mul(&y));
    let inc = guard(|| what("includes"), || x.includes(&y));
    let exact = guard(|| what("right_mul_is_exact"), || x.right_mul_is_exact(&y));
    let f = |b: Result<bool, String>| b.map_or(J::I(2), J::b);
    c.emit(J::O(vec![
        ("op", J::s("pair")),
        ("r", r.json()),
        ("s", s.json()),
        ("add", res(add)),
        ("mul", res(mul)),
        ("inc", f(inc)),
        ("exact", f(exact)),
    ]));
}

fn one(c: &mut Ctx, r: LR, ks: &[u32]) {
    let x = r.make();
    let mut sc = Vec::new();
    let mut ap = Vec::new();
    let mut has = Vec::new();
    for &k in ks {
        c.calls += 3;
        let y = guard(|| format!("scale {r:?} {k}"), || x.scale(k));
        sc.push(J::A(vec![big(k), res(y)]));
        let y = guard(|| format!("add_point {r:?} {k}"), || x.add_point(k));
        ap.push(J::A(vec![big(k), res(y)]));
        let y = guard(|| format!("contains {r:?} {k}"), || x.contains(k));
        has.push(J::A(vec![big(k), y.map_or(J::I(2), J::b)]));
    }
    let sh = guard(|| format!("shift {r:?}"), || x.shift());
    c.emit(J::O(vec![
        ("op", J::s("one")),
        ("r", r.json()),
        ("scale", J::A(sc)),
        ("addp", J::A(ap)),
        ("has", J::A(has)),
        ("shift", res(sh)),
        (
            "preds",
            J::A(
                [x.is_finite(), x.is_infinite(), x.is_point(), x.is_zero(), x.is_one(), x.is_all()]
                    .iter()
                    .map(|&b| J::b(b))
                    .collect(),
            ),
        ),
        ("start", big(x.start())),
    ]));
}

const EDGE: [u32; 22] = [
    0, 1, 2, 3, 5, 9999, 10000, 32767, 32768, 46340, 46341, 65534, 65535, 65536, 65537, 92682,
    2147483647, 2147483648, 2147483649, 4294967293, 4294967294, 4294967295,
];

fn value(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 | 1 => *r.pick(&EDGE),
        2 => r.below(12) as u32,
        3 => r.below(100000) as u32,
        _ => (r.next() >> r.below(32)) as u32,
    }
}

fn range(r: &mut Rng) -> LR {
    let x = value(r);
    match r.below(6) {
        0 => LR(x, None),
        1 => LR(x, Some(x)),
        2 => LR(x, Some(x.saturating_add(r.below(4) as u32))),
        3 => LR(x.saturating_sub(r.below(4) as u32), Some(x)),
        _ => {
            let y = value(r);
            LR(x.min(y), Some(x.max(y)))
        }
    }
}

pub fn c15(c: &mut Ctx) {
    // exhaustive
    let m = c.q(8, 14) as u32;
    let mut all = Vec::new();
    for a in 0..m {
        all.push(LR(a, None));
        for b in a..m {
            all.push(LR(a, Some(b)));
        }
    }
    let ks: Vec<u32> = (0..m + 2).collect();
    for &r in &all {
        if c.mine() {
            one(c, r, &ks);
        }
        for &s in &all {
            if c.mine() {
                pair(c, r, s);
            }
        }
    }
    // wide gaps: a and b far from each other around the exactness criterion c*(b-a) = a-1
    let mut rng = c.rng(15);
    let n = c.q(2500, 50000);
    for _ in 0..n {
        let a = 1 + rng.below(60) as u32;
        let w = rng.below(8) as u32;
        let cc = if w == 0 { rng.below(5) as u32 } else { (a - 1) / w + rng.below(3) as u32 };
        let cc = cc.saturating_sub(rng.below(2) as u32);
        let d = if rng.chance(1, 3) { None } else { Some(cc + rng.below(3) as u32) };
        pair(c, LR(a, Some(a + w)), LR(cc, d));
    }
    let n = c.q(4000, 80000);
    for i in 0..n {
        let r = range(&mut rng);
        let mut s = range(&mut rng);
        if rng.chance(1, 4) {
            // sums and products around 2^32
            let q = if r.0 > 0 { u32::MAX / r.0 } else { 1 };
            let x = q.saturating_add(rng.below(3) as u32).saturating_sub(1);
            s = if rng.chance(1, 2) { LR(x, Some(x)) } else { LR(x, None) };
        } else if rng.chance(1, 4) {
            let e = r.1.unwrap_or(r.0);
            let x = (u32::MAX - e).saturating_add(rng.below(3) as u32).saturating_sub(1);
            s = LR(x.min(s.0), Some(x));
        }
        pair(c, r, s);
        if i % 4 == 0 {
            let mut ks: Vec<u32> = (0..6).map(|_| value(&mut rng)).collect();
            ks.push(r.0);
            ks.push(r.0.wrapping_sub(1));
            if let Some(j) = r.1 {
                ks.push(j);
                ks.push(j.wrapping_add(1));
                if j > 0 {
                    ks.push(u32::MAX / j);
                    ks.push((u32::MAX / j).saturating_add(1));
                }
            }
            one(c, r, &ks);
        }
    }
}
