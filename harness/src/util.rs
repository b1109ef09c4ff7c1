//! JSON output, random numbers, guarded calls.
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum J {
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn b(x: bool) -> J {
        J::I(if x { 1 } else { 0 })
    }
    pub fn u(x: u32) -> J {
        J::I(x as i64)
    }
    pub fn n(x: usize) -> J {
        J::I(x as i64)
    }
    pub fn word(w: &[u32]) -> J {
        J::A(w.iter().map(|&c| J::u(c)).collect())
    }
    pub fn ints(w: &[i64]) -> J {
        J::A(w.iter().map(|&c| J::I(c)).collect())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::I(i) => {
                // TLC integers are 32-bit. The values of the specification are far from the limits,
                // so a value that has to be clamped is wrong either way
                o.push_str(&(*i).clamp(-2147483648, 2147483647).to_string())
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 => o.push('?'),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// splitmix64 / xorshift based generator
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---- guarded calls -------------------------------------------------------

static CURRENT: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0); // 0: no call in progress, else seconds + 1

thread_local! {
    static CURFILE: RefCell<Option<File>> = const { RefCell::new(None) };
}

fn now_s() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// Run f; a panic of the code under test is returned as an error message.
/// `what` describes the call: it's used if the call hangs or kills the process.
pub fn guard<R>(what: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
    {
        let mut c = CURRENT.lock().unwrap();
        *c = what();
        CURFILE.with(|cf| {
            if let Some(file) = cf.borrow_mut().as_mut() {
                use std::io::Seek;
                let _ = file.set_len(0);
                let _ = file.seek(std::io::SeekFrom::Start(0));
                let _ = file.write_all(c.as_bytes());
                let _ = file.flush();
            }
        });
    }
    STARTED.store(now_s() + 1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    STARTED.store(0, Ordering::SeqCst);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub struct Ctx {
    pub thorough: bool,
    scale: usize,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub checked: bool,
    pub out: BufWriter<File>,
    pub events: usize,
    pub calls: usize,
    counter: usize,
}

const HANG_SECONDS: u64 = 180;

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, shard: usize, nshards: usize, path: &str) -> Ctx {
        std::panic::set_hook(Box::new(|_| {}));
        if std::env::var("VH_PROGRESS").is_ok() {
            let f = File::create(format!("{path}.cur")).unwrap();
            CURFILE.with(|c| *c.borrow_mut() = Some(f));
        }
        let hang = format!("{path}.hang");
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && now_s() + 1 > s + HANG_SECONDS {
                let what = CURRENT.lock().unwrap().clone();
                let mut f = File::create(&hang).unwrap();
                let _ = f.write_all(what.as_bytes());
                std::process::exit(3);
            }
        });
        Ctx {
            thorough: tier == "thorough",
            // cases of the quick tier relative to the numbers given to `q`, for about a minute per check
            scale: match prop {
                "C01" | "C03" | "C04" | "C07" | "C08" => 2,
                "C10" | "C13" | "C18" => 5,
                "C09" | "C11" | "C12" | "C15" | "C17" | "C20" => 8,
                _ => 3,
            },
            seed,
            shard,
            nshards,
            checked: cfg!(debug_assertions),
            out: BufWriter::with_capacity(1 << 20, File::create(path).unwrap()),
            events: 0,
            calls: 0,
            counter: 0,
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        let p = if self.checked { 1 } else { 2 };
        Rng::new(
            self.seed
                .wrapping_mul(1_000_003)
                .wrapping_add(salt)
                .wrapping_mul(1009)
                .wrapping_add(self.shard as u64)
                .wrapping_mul(7)
                .wrapping_add(p),
        )
    }
    /// Pick quick or thorough
    pub fn q(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else if thorough >= 10 * quick {
            // a number of cases (not a size): the quick tier affords more for most properties
            thorough.min(quick * self.scale)
        } else {
            quick
        }
    }
    /// True if the next case of an enumeration belongs to this shard
    pub fn mine(&mut self) -> bool {
        let r = self.counter % self.nshards == self.shard;
        self.counter += 1;
        r
    }
    pub fn emit(&mut self, e: J) {
        let mut s = String::with_capacity(256);
        e.write(&mut s);
        s.push('\n');
        self.out.write_all(s.as_bytes()).unwrap();
        self.events += 1;
    }
}
