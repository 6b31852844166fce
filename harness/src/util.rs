//! Verdicts, workload generation, statistics
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub type V3 = [f64; 3];

/// Generator of the workloads, unrelated to the one of the code under test
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

pub fn hash_f(xs: &[f64]) -> u64 {
    let mut h: u64 = 0x1234_5678_9abc_def0;
    for x in xs {
        h ^= x.to_bits();
        splitmix(&mut h);
        let mut y = h;
        h = splitmix(&mut y);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng([splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)])
    }
    /// A generator for case `i` of a workload
    pub fn of(seed: u64, workload: &str, i: u64) -> Rng {
        let mut x = seed ^ hash_str(workload);
        let a = splitmix(&mut x);
        let mut y = a ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
        Rng::new(splitmix(&mut y))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// a..=b
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.u64() % n == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.u64() % xs.len() as u64) as usize]
    }
    /// Log-uniform
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        self.range(a.ln(), b.ln()).exp()
    }
    pub fn sign(&mut self) -> f64 {
        if self.bool() {
            1.0
        } else {
            -1.0
        }
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * self.f()).cos()
    }
    /// Uniform on the sphere
    pub fn unit(&mut self) -> V3 {
        let z = self.range(-1.0, 1.0);
        let p = self.range(0.0, 2.0 * std::f64::consts::PI);
        let r = (1.0 - z * z).max(0.0).sqrt();
        normalise([r * p.cos(), r * p.sin(), z])
    }
    /// Unit vectors, with axes, poles and nearly-degenerate directions over-represented
    pub fn odd_unit(&mut self) -> V3 {
        match self.int(0, 9) {
            0 => {
                let mut v = [0.0, 0.0, 0.0];
                v[self.int(0, 2) as usize] = self.sign();
                v
            }
            1 => {
                // in a coordinate plane
                let mut v = self.unit();
                v[self.int(0, 2) as usize] = 0.0;
                if dot(v, v) == 0.0 {
                    v[0] = 1.0;
                }
                normalise(v)
            }
            2 => {
                // close to an axis
                let mut v = [0.0, 0.0, 0.0];
                v[self.int(0, 2) as usize] = self.sign();
                let e = self.log(1e-18, 1e-2);
                let d = self.unit();
                normalise(add(v, scale(d, e)))
            }
            _ => self.unit(),
        }
    }
}

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn normalise(a: V3) -> V3 {
    scale(a, 1.0 / norm(a))
}
pub fn dist(a: V3, b: V3) -> f64 {
    norm(sub(a, b))
}
pub fn finite(a: V3) -> bool {
    a.iter().all(|x| x.is_finite())
}

/// Observations and verdict of one monitor
#[derive(Default)]
pub struct Mon {
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(String, String)>,
    pub nviol: u64,
    pub errors: Vec<String>,
    pub max: BTreeMap<String, f64>,
    pub count: BTreeMap<String, u64>,
}

impl Mon {
    pub fn new(seed: u64, thorough: bool) -> Mon {
        Mon { seed, thorough, ..Default::default() }
    }
    /// Amount of work: what the quick tier does, and six times as much for the thorough one
    pub fn n(&self, quick: usize) -> usize {
        // under a sanitizer or an interpreter
        if let Some(k) = std::env::var("VERIF_DIVIDE").ok().and_then(|x| x.parse::<usize>().ok()) {
            return (quick / k).max(1);
        }
        if self.thorough {
            6 * quick
        } else {
            quick
        }
    }
    /// One case was executed and judged
    pub fn case(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(key);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 6 {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, what: &str, detail: String) {
        self.nviol += 1;
        if self.viols.len() < 20 {
            self.viols.push((what.to_string(), detail));
        }
    }
    /// Judge an error against its bound; records the largest ratio seen
    pub fn bound<F: FnOnce() -> String>(&mut self, what: &str, err: f64, tol: f64, f: F) -> bool {
        let r = err / tol;
        let e = self.max.entry(format!("worst error/bound: {}", what)).or_insert(0.0);
        if r > *e {
            *e = r;
        }
        *self.count.entry(what.to_string()).or_insert(0) += 1;
        if !(err <= tol) {
            self.fail(what, format!("{{\"error\": {}, \"bound\": {}, \"case\": {}}}", j(err), j(tol), js(&f())));
            false
        } else {
            true
        }
    }
    pub fn require<F: FnOnce() -> String>(&mut self, what: &str, ok: bool, f: F) -> bool {
        *self.count.entry(what.to_string()).or_insert(0) += 1;
        if !ok {
            self.fail(what, js(&f()));
        }
        ok
    }
    pub fn merge(&mut self, o: Mon) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.nviol += o.nviol;
        for v in o.viols {
            if self.viols.len() < 20 {
                self.viols.push(v);
            }
        }
        self.errors.extend(o.errors);
        for (k, v) in o.max {
            let e = self.max.entry(k).or_insert(0.0);
            if v > *e {
                *e = v;
            }
        }
        for (k, v) in o.count {
            *self.count.entry(k).or_insert(0) += v;
        }
    }

    /// Runs `f` for the cases 0..n of a workload on all cores
    pub fn par<F>(&mut self, workload: &str, n: usize, f: F)
    where
        F: Fn(&mut Mon, &mut Rng, usize) + Sync,
    {
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, Mon)>> = Mutex::new(vec![]);
        let (seed, thorough) = (self.seed, self.thorough);
        let block = (n / (threads * 8)).max(1);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let b = next.fetch_add(1, Ordering::Relaxed);
                    if b * block >= n {
                        break;
                    }
                    let mut m = Mon::new(seed, thorough);
                    for i in b * block..((b + 1) * block).min(n) {
                        let mut r = Rng::of(seed, workload, i as u64);
                        guarded(&mut m, workload, i, |m| f(m, &mut r, i));
                    }
                    out.lock().unwrap().push((b, m));
                });
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        for (_, m) in v {
            self.merge(m);
        }
    }
}

thread_local!(pub static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new())));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
}

/// A panic raised by the code under test is a violation, one of the harness is an error
pub fn guarded<F: FnOnce(&mut Mon)>(m: &mut Mon, workload: &str, i: usize, f: F) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(m)));
    if r.is_err() {
        let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
        if loc.contains("harness/src") || loc.starts_with("src/") {
            m.errors.push(format!("{} case {}: {} at {}", workload, i, msg, loc));
        } else {
            m.fail("panic", js(&format!("workload {} case {}: {} at {}", workload, i, msg, loc)));
        }
    }
}

/// JSON number
pub fn j(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else {
        format!("\"{}\"", x)
    }
}
/// JSON string
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- statistics

/// One chance in 10^10 and a bit of being exceeded by honest code
pub const LN_P: f64 = 23.7;

/// Largest allowed Kolmogorov-Smirnov distance (DKW inequality, p = 1e-10)
pub fn ks_bound(n: usize) -> f64 {
    (LN_P / (2.0 * n as f64)).sqrt()
}
/// Distance of a sample from the uniform distribution
pub fn ks_uniform(xs: &[f64]) -> f64 {
    let mut v: Vec<f64> = xs.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Less));
    let n = v.len() as f64;
    let mut d: f64 = 0.0;
    for (i, x) in v.iter().enumerate() {
        if !x.is_finite() {
            return f64::INFINITY;
        }
        d = d.max((x - i as f64 / n).abs()).max(((i + 1) as f64 / n - x).abs());
    }
    d
}
/// |z| allowed for a normal variable (two-sided p about 1e-10)
pub const Z: f64 = 6.5;

/// Standard normal distribution function
pub fn phi(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}
/// Complementary error function, relative accuracy 1.2e-7
pub fn erfc(x: f64) -> f64 {
    let z = x.abs();
    let t = 1.0 / (1.0 + 0.5 * z);
    let r = t
        * (-z * z - 1.265_512_23
            + t * (1.000_023_68
                + t * (0.374_091_96
                    + t * (0.096_784_18
                        + t * (-0.186_288_06
                            + t * (0.278_868_07
                                + t * (-1.135_203_98
                                    + t * (1.488_515_87 + t * (-0.822_152_23 + t * 0.170_872_77)))))))))
        .exp();
    if x >= 0.0 {
        r
    } else {
        2.0 - r
    }
}
/// Correlation of two samples that should be independent and uniform, as a z-score
pub fn corr_z(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len().min(b.len()) as f64;
    let ma = a.iter().sum::<f64>() / n;
    let mb = b.iter().sum::<f64>() / n;
    let (mut ab, mut aa, mut bb) = (0.0, 0.0, 0.0);
    for (x, y) in a.iter().zip(b) {
        ab += (x - ma) * (y - mb);
        aa += (x - ma) * (x - ma);
        bb += (y - mb) * (y - mb);
    }
    if aa == 0.0 || bb == 0.0 {
        return f64::INFINITY;
    }
    ab / (aa * bb).sqrt() * n.sqrt()
}
/// z-score of a chi-squared statistic (Wilson-Hilferty)
pub fn chi2_z(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let x: f64 = counts.iter().map(|&c| (c as f64 - e).powi(2) / e).sum();
    let k = (counts.len() - 1) as f64;
    if k == 0.0 {
        return 0.0;
    }
    ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0 / (9.0 * k)).sqrt()
}
pub fn mean_se(xs: &[f64]) -> (f64, f64) {
    let n = xs.len() as f64;
    let m = xs.iter().sum::<f64>() / n;
    let v = xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (n - 1.0);
    (m, (v / n).sqrt())
}
