//! Executable oracle: drives the real code with generated inputs and compares with an independent reference.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct G {
    s: u64,
    /// grows from 0 during a run; generators scale with it
    pub size: u32,
    pub note: String,
}
impl G {
    pub fn new(seed: u64, size: u32) -> Self {
        G { s: seed ^ 0x9e3779b97f4a7c15, size, note: String::new() }
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.us(v.len())].clone()
    }
    /// u64 of varied magnitude and bit shape
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1u64 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => !(1u64 << self.below(64)),
            5 => self.u64() >> self.below(64),
            6 => self.u64() << self.below(64),
            _ => self.u64(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let m = self.below(4);
        (0..n)
            .map(|_| match m {
                0 => self.u64() as u8,
                1 => self.pick(&[0u8, 0xff, 0x80, 1]),
                2 => 1u8 << self.below(8),
                _ => self.u64() as u8,
            })
            .collect()
    }
    /// a length that grows with the run
    pub fn len(&mut self, max: usize) -> usize {
        let m = (self.size as usize).min(max).max(1);
        self.us(m + 1)
    }
}

pub type Test = (&'static str, fn(&mut G) -> Result<(), String>);

pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {}, expected {}", short(&got), short(&want)))
    }
}
pub fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
#[macro_export]
macro_rules! vassert {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(t: &Test, case: u64, size: u32) -> (Result<(), String>, String) {
    let mut g = G::new(case, size);
    let r = catch_unwind(AssertUnwindSafe(|| (t.1)(&mut g)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let at = LAST.with(|l| l.borrow().clone());
            Err(format!("panic: {m} {at}"))
        }
    };
    (r, g.note)
}

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub mod sys;
#[cfg(feature = "s_bitio")]
pub mod s_bitio;
#[cfg(feature = "s_buff")]
pub mod s_buff;
#[cfg(feature = "s_xor")]
pub mod s_xor;
#[cfg(any(feature = "s_sys", feature = "s_codec"))]
pub mod s_sys;
#[cfg(feature = "s_codec")]
pub mod s_codec;

fn table(suite: &str) -> Vec<Test> {
    #[cfg(feature = "s_bitio")]
    if let Some(t) = s_bitio::table(suite) {
        return t;
    }
    #[cfg(feature = "s_buff")]
    if let Some(t) = s_buff::table(suite) {
        return t;
    }
    #[cfg(feature = "s_xor")]
    if let Some(t) = s_xor::table(suite) {
        return t;
    }
    #[cfg(feature = "s_sys")]
    if let Some(t) = s_sys::table(suite) {
        return t;
    }
    #[cfg(feature = "s_codec")]
    if let Some(t) = s_codec::table(suite) {
        return t;
    }
    panic!("unknown suite {suite}")
}

/// nat SUITE SEED SECONDS [TEST:CASE:SIZE]
pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = at);
    }));
    let tests = table(&a[1]);
    if let Some(c) = a.get(4) {
        let p: Vec<&str> = c.split(':').collect();
        let t = tests.iter().find(|t| t.0 == p[0]).expect("test");
        let (r, note) = one(t, p[1].parse().unwrap(), p[2].parse().unwrap());
        match r {
            Ok(()) => println!("PASS {note}"),
            Err(m) => {
                println!("FAIL {m}\n{note}");
                std::process::exit(1)
            }
        }
        return;
    }
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut per = vec![0u64; tests.len()];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut fail: Option<(usize, u64, u32, String, String)> = None;
    let mut samples: Vec<String> = vec![];
    let mut round = 0u64;
    'o: while (t0.elapsed().as_secs_f64() < secs || round < 3) && round < 2_000_000 {
        for (i, t) in tests.iter().enumerate() {
            let mut h = DefaultHasher::new();
            (seed, t.0, round).hash(&mut h);
            let case = h.finish();
            let size = (round / 4).min(4096) as u32;
            if round % 64 == 0 {
                println!("@START {} {}:{}:{}", t.0, t.0, case, size);
            }
            let (r, note) = one(t, case, size);
            evals += 1;
            per[i] += 1;
            if !note.is_empty() {
                let mut h = DefaultHasher::new();
                (i, &note).hash(&mut h);
                if seen.len() < 4_000_000 {
                    seen.insert(h.finish());
                }
                if samples.len() < tests.len() * 2 && round > 20 && round < 23 {
                    samples.push(format!("{}: {}", t.0, short(&note)));
                }
            }
            if let Err(m) = r {
                fail = Some((i, case, size, m, note));
                break 'o;
            }
        }
        round += 1;
    }
    let f = match &fail {
        None => "null".to_string(),
        Some((i, c, s, m, n)) => format!(
            "{{\"test\":{},\"case\":{},\"msg\":{},\"input\":{}}}",
            jstr(tests[*i].0),
            jstr(&format!("{}:{}:{}", tests[*i].0, c, s)),
            jstr(m),
            jstr(&n.chars().take(6000).collect::<String>())
        ),
    };
    let ts: Vec<String> = tests.iter().zip(&per).map(|(t, n)| format!("{}:{}", jstr(t.0), n)).collect();
    println!(
        "@RESULT {{\"evals\":{evals},\"distinct\":{},\"fail\":{f},\"tests\":{{{}}},\"samples\":[{}]}}",
        seen.len(),
        ts.join(","),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    );
}
