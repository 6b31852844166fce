//! C03, C04: freshly created chains
use crate::model::*;
use crate::util::*;
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::f64::consts::PI;

/// A new chain of either kind
fn fresh(c: &Config, edge: bool) -> (Vec<V3>, f64) {
    let mut c = c.clone();
    c.log = false;
    if edge {
        c.file = langevin_file();
        let s = SpinChainLangevin::new(c, 0, 1.0);
        (get(&s.spins), s.t)
    } else {
        let s = SpinChain::new(c, 0);
        (get(&s.spins), s.t)
    }
}

/// Distribution function of exp(beta c) on [-1,1] at 1 - d
fn cdf_from_top(d: f64, beta: f64) -> f64 {
    // P(c > 1-d) = (1 - e^{-beta d}) / (1 - e^{-2 beta})
    if beta == 0.0 {
        return d / 2.0;
    }
    (-beta * d).exp_m1() / (-2.0 * beta).exp_m1()
}

pub fn c03(m: &mut Mon) {
    let mut betas = vec![0.0, 1e-300, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 2.88, 10.0, 40.0, 200.0, 360.0, 700.0, 2e3, 1e5];
    let extra = m.n(60);
    let mut r0 = Rng::of(m.seed, "C03/betas", 0);
    for _ in 0..extra {
        betas.push(r0.log(1e-3, 1e3));
    }
    let per: usize = 600_000;
    let betas2 = betas.clone();
    m.par("C03/sample", betas.len() * 2, move |m, r, i| {
        let beta = betas2[i / 2];
        let edge = i % 2 == 1;
        let kind = if edge { "edge-coupled" } else { "chain" };
        rand::verif_seed(r.u64());
        // cosines, as probabilities; azimuths of the tilt about the previous spin
        let (mut u, mut az, mut tors, mut links) = (vec![], vec![], vec![], vec![]);
        let mut first = vec![];
        while u.len() < per {
            let mut c = Config::default();
            c.hsize = *r.pick(&[2, 3, 17, 256, 1000]);
            c.ssize = 2;
            c.beta = beta;
            let (s, _) = fresh(&c, edge);
            m.evals += 1;
            m.require("number of spins", s.len() == c.hsize as usize, || format!("{} beta={} hsize={} got {}", kind, beta, c.hsize, s.len()));
            let bad = s.iter().position(|x| !(finite(*x) && (norm(*x) - 1.0).abs() < 1e-14));
            if !m.require("unit spins", bad.is_none(), || format!("{} beta={} hsize={} spin {:?} = {:?}", kind, beta, c.hsize, bad, bad.map(|b| s[b]))) {
                return;
            }
            first.push(s[0]);
            let mut prev_u = None;
            let mut prev_az = None;
            for k in 1..s.len() {
                let d = dist(s[k], s[k - 1]);
                // 1 - cos, accurate for small angles
                let q = cdf_from_top(d * d / 2.0, beta);
                u.push(q.min(1.0));
                if let Some(p) = prev_u {
                    links.push((p, q));
                }
                prev_u = Some(q);
                // Azimuth of the tilt relative to a fixed direction
                let ax = if s[k - 1][2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
                let e1 = normalise(sub(ax, scale(s[k - 1], dot(ax, s[k - 1]))));
                let e2 = cross(s[k - 1], e1);
                // not resolvable when the tilt is tiny or nearly pi
                if d > 1e-4 && d < 1.9999 {
                    let a = dot(s[k], e2).atan2(dot(s[k], e1)) / (2.0 * PI) + 0.5;
                    az.push(a);
                    if let Some(p) = prev_az {
                        tors.push((p, a));
                    }
                    prev_az = Some(a);
                } else {
                    prev_az = None;
                }
            }
        }
        let show = || format!("{} beta={} bonds={}", kind, beta, u.len());
        m.distinct.insert(hash_f(&[beta, i as f64]));
        m.sample(|| format!("{}: first spin {:?}, KS distance {:.2e}", show(), first[0], ks_uniform(&u)));
        m.bound("distribution of the bond angle", ks_uniform(&u), ks_bound(u.len()), show);
        m.bound("isotropy of the tilt", ks_uniform(&az), ks_bound(az.len().max(1)), show);
        let (a, b): (Vec<f64>, Vec<f64>) = links.iter().cloned().unzip();
        m.bound("independence of successive bonds", corr_z(&a, &b).abs(), Z, show);
        let (a, b): (Vec<f64>, Vec<f64>) = tors.iter().cloned().unzip();
        if a.len() > 1000 {
            m.bound("independence of successive tilts", corr_z(&a, &b).abs(), Z, show);
            // circular correlation: difference of azimuths uniform
            let d: Vec<f64> = a.iter().zip(&b).map(|(x, y)| (y - x).rem_euclid(1.0)).collect();
            m.bound("successive tilts unrelated", ks_uniform(&d), ks_bound(d.len()), show);
        }
        // joint: sum modulo one of independent uniforms is uniform
        let d: Vec<f64> = links.iter().map(|(x, y)| (x + y).rem_euclid(1.0)).collect();
        m.bound("successive bonds unrelated", ks_uniform(&d), ks_bound(d.len().max(1)), show);
        // mean energy
        if beta > 1e-3 && beta < 1e3 {
            let mean: f64 = u.iter().map(|q| {
                // invert: 1-c = -ln(1 + q expm1(-2 beta))/beta
                let d = -((q * (-2.0 * beta).exp_m1()).ln_1p()) / beta;
                -(1.0 - d)
            }).sum::<f64>() / u.len() as f64;
            let want = 1.0 / beta - 1.0 / beta.tanh();
            let sd = (1.0 - 1.0 / beta.tanh().powi(2) + 1.0 / (beta * beta)).abs().sqrt().max(1e-4);
            m.bound("mean bond energy", (mean - want).abs(), Z * sd / (u.len() as f64).sqrt() + 1e-9, show);
        }
        // A chain forgets where it started
        if beta < 3.0 && edge == false {
            let far: Vec<f64> = {
                let mut v = vec![];
                for _ in 0..200 {
                    let mut c = Config::default();
                    c.hsize = 64;
                    c.ssize = 2;
                    c.beta = beta;
                    let (s, _) = fresh(&c, edge);
                    v.push((s[63][2] + 1.0) / 2.0);
                }
                v
            };
            m.bound("end of the chain is isotropic", ks_uniform(&far), ks_bound(far.len()), show);
        }
    });
    // Different calls give different chains
    m.par("C03/fresh", 40, |m, r, i| {
        rand::verif_seed(r.u64());
        let mut c = Config::default();
        c.hsize = r.int(2, 40) as i32;
        c.ssize = 2;
        let edge = i % 2 == 1;
        let (a, _) = fresh(&c, edge);
        let (b, _) = fresh(&c, edge);
        m.case(hash_f(&[i as f64, a[0][0]]), true);
        m.require("every chain is a fresh sample", a.iter().zip(&b).all(|(x, y)| dist(*x, *y) > 1e-12), || format!("{:?} and {:?}", a[0], b[0]));
    });
    // The solver
    let n = m.n(1_000_000);
    m.par("C03/solve", n, |m, r, i| {
        let e = match i % 4 {
            0 => -r.log(1e-9, 0.5),
            1 => -1.0 + r.log(1e-9, 0.5),
            2 => *r.pick(&[-0.66, -0.5, -0.1, -0.9, -0.3333333333, -0.313, -0.99, -0.999, -0.25]),
            _ => -r.range(1e-6, 1.0 - 1e-6),
        };
        let b = if r.bool() { SpinChain::solve_beta(e) } else { SpinChainLangevin::solve_beta(e) };
        let back = if b < 0.02 {
            -b / 3.0 + b.powi(3) / 45.0 - 2.0 * b.powi(5) / 945.0
        } else {
            1.0 / b - 1.0 / b.tanh()
        };
        let show = || format!("e={:?} -> beta={:?} -> e={:?}", e, b, back);
        m.case(hash_f(&[e]), true);
        m.sample(show);
        // relative to the distance from either end of the range
        let tol = 1e-6 * (-e).min(1.0 + e) + 2e-15;
        m.bound("temperature of an energy", if b >= 0.0 { (back - e).abs() } else { f64::INFINITY }, tol, show);
    });
}

pub fn c04(m: &mut Mon) {
    // Exact values and layout with no spread
    let n = m.n(20000);
    m.par("C04/exact", n, |m, r, i| {
        rand::verif_seed(r.u64());
        let edge = i % 4 == 3;
        let mut c = Config::default();
        c.log = false;
        c.hsize = r.int(2, 40) as i32;
        c.ssize = match r.int(0, 2) { 0 => c.hsize, 1 => 2, _ => r.int(2, i64::from(c.hsize)) as i32 };
        c.lambda = r.range(-3.0, 3.0);
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.hfield = vec![r.normal(), r.normal(), r.normal()];
        c.hs = vec![r.normal(), r.normal(), r.normal()];
        c.trel = if r.bool() { 0.0 } else { r.range(-50.0, 50.0) };
        c.t = r.range(-5.0, 300.0);
        c.beta = r.log(0.01, 100.0);
        c.drive = Chain::random(r, 2, 3).conf().drive;
        let num = r.int(0, 3) as usize;
        let (j, h, t, l, vars) = if edge {
            c.file = langevin_file();
            let mut s = SpinChainLangevin::new(c.clone(), num, 0.7);
            m.require("damping as requested", s.gamma == 0.7, || format!("gamma={}", s.gamma));
            (probe_j(&mut s), s.static_h.clone(), s.t, s.spins.len(), s.vars.clone())
        } else {
            let s = SpinChain::new(c.clone(), num);
            (s.j_couple.clone(), s.static_h.clone(), s.t, s.spins.len(), s.vars.clone())
        };
        let show = || format!("edge={} hsize={} ssize={} lambda={} hfield={:?} hs={:?} trel={}", edge, c.hsize, c.ssize, c.lambda, c.hfield, c.hs, c.trel);
        m.case(hash_f(&[c.lambda, c.hs[0], c.trel]), true);
        m.sample(show);
        let hs = c.hsize as usize;
        m.require("one spin, coupling and field per site", l == hs && j.len() == hs && h.len() == hs, || format!("{} got {} spins {} couplings {} fields", show(), l, j.len(), h.len()));
        m.require("clock starts at -trel", (t + c.trel).abs() == 0.0, || format!("{} t={}", show(), t));
        m.require("configuration kept", vars.hsize == c.hsize && vars.ssize == c.ssize && vars.dt == c.dt && vars.t == c.t && vars.tau == c.tau && vars.beta == c.beta, show);
        let tol = if edge { 1e-12 * (3.0 + c.lambda.abs()) } else { 0.0 };
        for k in 0..hs {
            let e = dist(j[k], [1.0, 1.0, c.lambda]);
            m.bound("coupling without spread", e, tol + 1e-300, || format!("{} J[{}]={:?}", show(), k, j[k]));
            let mut want = [c.hfield[0], c.hfield[1], c.hfield[2]];
            if k < c.ssize as usize {
                want = add(want, [c.hs[0], c.hs[1], c.hs[2]]);
            }
            m.bound("field without spread", dist(h[k], want), 1e-15 * (1.0 + norm(want)), || format!("{} h[{}]={:?}", show(), k, h[k]));
        }
    });
    // Distribution of the noise
    let n = m.n(240);
    let sites: usize = 300_000;
    m.par("C04/noise", n, move |m, r, i| {
        rand::verif_seed(r.u64());
        let edge = i % 3 == 2;
        let mut c = Config::default();
        c.log = false;
        c.hsize = *r.pick(&[2, 3, 7, 100, 1000]);
        c.ssize = r.int(2, i64::from(c.hsize)) as i32;
        c.lambda = r.range(-3.0, 3.0);
        c.jvar = r.log(1e-3, 3.0);
        c.hvar = if i % 4 == 0 { 0.0 } else { r.log(1e-3, 3.0) };
        c.hfield = vec![r.normal(), r.normal(), r.normal()];
        c.hs = vec![r.normal(), r.normal(), r.normal()];
        let sites = if edge { sites / 10 } else { sites };
        // residuals in units of the spread, as probabilities, one list per component and class of site
        let mut res: Vec<Vec<f64>> = vec![vec![]; 12];
        let mut pairs: Vec<Vec<(f64, f64)>> = vec![vec![]; 8];
        let mut all: Vec<u64> = vec![];
        let mut done = 0;
        while done < sites {
            if edge {
                // Probing costs O(L^2)
                c.hsize = c.hsize.min(100);
                c.ssize = c.ssize.min(c.hsize);
            }
            let (j, h) = if edge {
                c.file = langevin_file();
                let mut s = SpinChainLangevin::new(c.clone(), 0, 1.0);
                (probe_j(&mut s), s.static_h.clone())
            } else {
                let s = SpinChain::new(c.clone(), 0);
                (s.j_couple.clone(), s.static_h.clone())
            };
            let hs = c.hsize as usize;
            done += hs;
            m.evals += 1;
            let jr: Vec<V3> = j.iter().map(|x| scale(sub(*x, [1.0, 1.0, c.lambda]), 1.0 / c.jvar)).collect();
            let hr: Vec<V3> = h
                .iter()
                .enumerate()
                .map(|(k, x)| {
                    let mut w = sub(*x, [c.hfield[0], c.hfield[1], c.hfield[2]]);
                    if k < c.ssize as usize {
                        w = sub(w, [c.hs[0], c.hs[1], c.hs[2]]);
                    }
                    if c.hvar > 0.0 { scale(w, 1.0 / c.hvar) } else { w }
                })
                .collect();
            for k in 0..hs {
                let class = if k < c.ssize as usize { 0 } else { 3 };
                for a in 0..3 {
                    res[class + a].push(phi(jr[k][a]));
                    all.push((jr[k][a] * 1e10) as i64 as u64);
                    if c.hvar > 0.0 {
                        res[6 + class + a].push(phi(hr[k][a]));
                        all.push(((hr[k][a] * 1e10) as i64 as u64) ^ (1 << 63));
                    } else {
                        m.bound("no noise without spread", hr[k][a].abs(), 1e-14, || format!("h[{}]={:?}", k, h[k]));
                    }
                }
                pairs[0].push((phi(jr[k][0]), phi(jr[k][1])));
                pairs[1].push((phi(jr[k][1]), phi(jr[k][2])));
                pairs[2].push((phi(jr[k][0]), phi(jr[k][2])));
                if c.hvar > 0.0 {
                    pairs[3].push((phi(hr[k][0]), phi(hr[k][1])));
                    pairs[4].push((phi(hr[k][1]), phi(hr[k][2])));
                    pairs[5].push((phi(jr[k][0]), phi(hr[k][0])));
                    pairs[6].push((phi(hr[k][0]), phi(hr[k][2])));
                }
                if k > 0 {
                    pairs[7].push((phi(jr[k - 1][0]), phi(jr[k][0])));
                }
            }
        }
        let show = || format!("edge={} hsize={} ssize={} lambda={} jvar={} hvar={} hfield={:?} hs={:?}", edge, c.hsize, c.ssize, c.lambda, c.jvar, c.hvar, c.hfield, c.hs);
        m.distinct.insert(hash_f(&[c.jvar, c.hvar, c.lambda]));
        m.sample(show);
        for (q, v) in res.iter().enumerate() {
            if v.len() > 200 {
                // the 1e-6 is the accuracy of the normal distribution function used here
                m.bound("normal noise of the configured spread", ks_uniform(v), ks_bound(v.len()) + 1e-6, || format!("{} list {} ({} of site class {})", show(), q, if q < 6 { "J" } else { "h" }, (q / 3) % 2));
            }
        }
        for (q, p) in pairs.iter().enumerate() {
            if p.len() > 200 {
                let (a, b): (Vec<f64>, Vec<f64>) = p.iter().cloned().unzip();
                m.bound("independent components and sites", corr_z(&a, &b).abs(), Z, || format!("{} pair {}", show(), q));
                let d: Vec<f64> = p.iter().map(|(x, y)| (x + y).rem_euclid(1.0)).collect();
                m.bound("independent components and sites (joint)", ks_uniform(&d), ks_bound(d.len()) + 1e-5, || format!("{} pair {}", show(), q));
            }
        }
        // drawn afresh for every component of every bond and site
        if c.jvar > 0.0 && !edge {
            let total = all.len();
            all.sort_unstable();
            all.dedup();
            // birthday collisions on a grid of 1e-10
            let expect = (total as f64).powi(2) * 1e-10;
            m.bound("no value is used twice", (total - all.len()) as f64, 20.0 + 10.0 * expect, show);
        }
    });
}

