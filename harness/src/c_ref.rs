//! Reference ensemble averages for the temperature fits (C24): an independent Monte Carlo
use crate::c_mc::{h_exchange, h_maglab, h_magnus, h_rot, h_second};
use crate::model::*;
use crate::util::*;

/// args: seed kind n s tau lambda beta hfield(3) hs(3) samples
pub fn reference(args: &[String]) {
    let f = |i: usize| -> f64 { args[i].parse().unwrap() };
    let seed = f(0) as u64;
    let kind = args[1].clone();
    let (n, s) = (f(2) as usize, f(3) as usize);
    let (tau, lambda, beta) = (f(4), f(5), f(6));
    let hf = [f(7), f(8), f(9)];
    let hs = [f(10), f(11), f(12)];
    let samples = f(13) as usize;
    let mut r = Rng::of(seed, "reference", 0);
    let mut c = Chain::random(&mut r, 3, 3);
    c.l = n;
    c.s = s;
    c.tau = tau;
    c.beta = beta;
    c.j = vec![[1.0, 1.0, lambda]; n];
    c.h = (0..n).map(|i| if i < s { add(hf, hs) } else { hf }).collect();
    c.spins = (0..n).map(|_| r.unit()).collect();
    let ham = |c: &Chain| -> f64 {
        match kind.as_str() {
            "rot" => h_rot(c),
            "maglab" => h_maglab(c),
            "magnus" => h_magnus(c),
            "full" => h_magnus(c) + h_second(c),
            _ => h_exchange(c) + (0..c.l).map(|i| dot(c.h[i], c.spins[i])).sum::<f64>(),
        }
    };
    let blocks = 64;
    let per = samples / blocks;
    let mut e = ham(&c);
    let k = 10;
    let mut sums: Vec<Vec<f64>> = vec![];
    let (mut sq, mut cov) = (vec![0.0; k], vec![0.0; k]);
    let mut tot = vec![0.0; k];
    let mut sweep = |c: &mut Chain, e: &mut f64| {
        for _ in 0..2 * n {
            let i = r.int(0, n as i64 - 1) as usize;
            let old = c.spins[i];
            c.spins[i] = if r.bool() { r.unit() } else { normalise(add(old, scale(r.unit(), 0.7))) };
            let e2 = ham(c);
            if e2 <= *e || r.f() < (-beta * (e2 - *e)).exp() {
                *e = e2;
            } else {
                c.spins[i] = old;
            }
        }
    };
    for _ in 0..3000 {
        sweep(&mut c, &mut e);
    }
    for _ in 0..blocks {
        let mut b = vec![0.0; k];
        for _ in 0..per {
            sweep(&mut c, &mut e);
            let nn = n as f64;
            let u = (h_exchange(&c) + (0..n).map(|i| dot(c.h[i], c.spins[i])).sum::<f64>()) / nn;
            let mt = c.m_tot();
            let mut sub = 0.0;
            for i in 0..s.max(2) - 1 {
                sub += c.bond(i) + dot(c.h[i], c.spins[i]);
            }
            let x = [e / nn, u, mt[0] / nn, mt[1] / nn, mt[2] / nn, sub / (s.max(2) - 1) as f64, h_exchange(&c) / nn, c.m()[0] / s as f64, c.m()[1] / s as f64, c.m()[2] / s as f64];
            for q in 0..k {
                b[q] += x[q] / per as f64;
                tot[q] += x[q];
                sq[q] += x[q] * x[q];
                cov[q] += x[q] * x[0];
            }
        }
        sums.push(b);
    }
    let t = (blocks * per) as f64;
    let mut out = vec![];
    for q in 0..k {
        let xs: Vec<f64> = sums.iter().map(|b| b[q]).collect();
        let (mean, se) = mean_se(&xs);
        let m = tot[q] / t;
        out.push(format!("[{}, {}, {}, {}]", j(mean), j(se), j((sq[q] / t - m * m).max(0.0).sqrt()), j(cov[q] / t - m * tot[0] / t)));
    }
    println!("[{}]", out.join(", "));
}
