//! Monitors of the Monte Carlo updates (C11, C12, C13)
use crate::model::*;
use crate::util::*;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::f64::consts::PI;

/// What the acceptance monitor needs of a chain under test
pub trait Sampler {
    fn set(&mut self, dirs: &[V3], beta: f64);
    fn step(&mut self);
    fn spins(&self) -> Vec<V3>;
    /// Everything that an update may not touch
    fn rest(&self) -> Vec<u64>;
}

pub struct Iso {
    pub sc: SpinChain,
    pub f: fn(&mut SpinChain),
}
pub struct Edge {
    pub sc: SpinChainLangevin,
    pub f: fn(&mut SpinChainLangevin),
    pub j: Vec<V3>,
}
fn bits(out: &mut Vec<u64>, xs: &[V3]) {
    for x in xs {
        out.extend(x.iter().map(|y| y.to_bits()));
    }
}
impl Sampler for Iso {
    fn set(&mut self, dirs: &[V3], beta: f64) {
        put(&mut self.sc.spins, dirs);
        self.sc.vars.beta = beta;
    }
    fn step(&mut self) {
        (self.f)(&mut self.sc)
    }
    fn spins(&self) -> Vec<V3> {
        get(&self.sc.spins)
    }
    fn rest(&self) -> Vec<u64> {
        let mut v = vec![self.sc.t.to_bits(), self.sc.spins.len() as u64, self.sc.vars.dt.to_bits(), self.sc.vars.tau.to_bits()];
        bits(&mut v, &self.sc.j_couple);
        bits(&mut v, &self.sc.static_h);
        v
    }
}
impl Sampler for Edge {
    fn set(&mut self, dirs: &[V3], beta: f64) {
        put(&mut self.sc.spins, dirs);
        self.sc.vars.beta = beta;
    }
    fn step(&mut self) {
        (self.f)(&mut self.sc)
    }
    fn spins(&self) -> Vec<V3> {
        get(&self.sc.spins)
    }
    fn rest(&self) -> Vec<u64> {
        let mut v = vec![self.sc.t.to_bits(), self.sc.spins.len() as u64, self.sc.gamma.to_bits(), self.sc.vars.tau.to_bits()];
        bits(&mut v, &self.sc.static_h);
        v
    }
}

/// One proposal and the largest inverse temperature at which it is accepted
pub struct Move {
    pub site: usize,
    pub proposal: V3,
    /// infinite when always accepted
    pub threshold: f64,
}

/// Watches one update from a fixed random stream at all inverse temperatures
fn observe<S: Sampler>(m: &mut Mon, c: &mut S, seed: u64, dirs: &[V3], show: &dyn Fn() -> String) -> Option<Move> {
    let rest = c.rest();
    let mut at = |beta: f64| -> Vec<V3> {
        rand::verif_seed(seed);
        c.set(dirs, beta);
        c.step();
        c.spins()
    };
    let free = at(0.0);
    let changed: Vec<usize> = (0..dirs.len()).filter(|&i| free[i] != dirs[i]).collect();
    if !m.require("at infinite temperature one spin moves", changed.len() == 1 && free.len() == dirs.len(), || {
        format!("moved {:?}, stream {}: {}", changed, seed, show())
    }) {
        return None;
    }
    let site = changed[0];
    let proposal = free[site];
    m.bound("the proposal is a unit vector", (norm(proposal) - 1.0).abs(), 1e-14, || format!("{:?}", proposal));
    let mut ok = true;
    let mut accepted = |beta: f64| -> bool {
        let s = at(beta);
        let acc = s[site] == proposal;
        // Rejected: everything as before. Accepted: only that spin changed
        for i in 0..dirs.len() {
            if i != site || !acc {
                ok &= s[i] == dirs[i];
            }
        }
        acc
    };
    let mut threshold = f64::INFINITY;
    if !accepted(1e15) {
        let mut hi = 1.0;
        while accepted(hi) && hi < 1e15 {
            hi *= 4.0;
        }
        let mut lo = hi;
        while !accepted(lo) && lo > 1e-15 {
            lo /= 4.0;
        }
        for _ in 0..50 {
            let mid = 0.5 * (lo + hi);
            if accepted(mid) {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        threshold = 0.5 * (lo + hi);
        // A single threshold
        for k in 0..4 {
            let x = 0.2 + 0.19 * k as f64;
            if !accepted(threshold * x) || accepted(threshold / x) {
                m.fail("accepted exactly below one inverse temperature", js(&format!("threshold {} stream {}: {}", threshold, seed, show())));
            }
        }
    }
    m.require("only the chosen spin may change", ok, || format!("stream {}: {}", seed, show()));
    let rest2 = c.rest();
    m.require("couplings, fields and clock stay", rest == rest2, || show());
    Some(Move { site, proposal, threshold })
}

/// Judges the acceptance of a sampler of exp(-beta H) on one chain, for several random streams
///
/// With the same random stream the chain uses the same uniform number u in every state, so
/// beta_threshold * dH = -ln u is the same for every state; over the streams u is uniform.
fn acceptance<S: Sampler>(
    m: &mut Mon,
    c: &mut S,
    r: &mut Rng,
    base: &Chain,
    ham: &dyn Fn(&Chain) -> f64,
    streams: usize,
    us: &mut Vec<f64>,
) {
    let scale_h = base.e_scale() * (1.0 + base.tau);
    for _ in 0..streams {
        let seed = r.u64();
        let mut first: Option<f64> = None;
        for k in 0..3 {
            let mut x = base.clone();
            if k > 0 {
                for s in x.spins.iter_mut() {
                    *s = if k == 2 { r.odd_unit() } else { r.unit() };
                }
            }
            let dirs = x.spins.clone();
            let shown = x.clone();
            let mv = match observe(m, c, seed, &dirs, &|| shown.show()) {
                Some(v) => v,
                None => return,
            };
            let before = ham(&x);
            x.spins[mv.site] = mv.proposal;
            let de = ham(&x) - before;
            m.case(hash_f(&[base.key() as f64, seed as f64, k as f64]), true);
            if de.abs() < 1e-9 * scale_h {
                continue;
            }
            if de < 0.0 {
                m.require("a move that lowers the energy is always accepted", mv.threshold.is_infinite(), || {
                    format!("dH={} accepted below beta={} site {} proposal {:?} stream {}: {}", de, mv.threshold, mv.site, mv.proposal, seed, shown.show())
                });
                continue;
            }
            let l = mv.threshold * de;
            if !m.require("a move that raises the energy is rejected when cold", l < 60.0, || {
                format!("dH={} accepted below beta={} site {} stream {}: {}", de, mv.threshold, mv.site, seed, shown.show())
            }) {
                continue;
            }
            match first {
                None => {
                    first = Some(l);
                    us.push((-l).exp());
                }
                Some(f) => {
                    // Rounding of dH, relative to dH
                    let tol = (1e-9 + 1e-13 * scale_h / de) * (1.0 + l.abs().max(f));
                    m.bound("acceptance is exp(-beta dH) in every state", (l - f).abs(), tol, || {
                        format!("-ln u = {} here but {} in another state; dH={} site {} proposal {:?} stream {}: {}", l, f, de, mv.site, mv.proposal, seed, shown.show())
                    });
                }
            }
        }
    }
}

/// A free run at infinite temperature: sites and proposals
fn proposals(m: &mut Mon, c: &mut dyn FnMut() -> (usize, V3), l: usize, n: usize, name: &str) {
    let mut sites = vec![0u64; l];
    let mut pairs = vec![0u64; l * l];
    let (mut zs, mut azs) = (vec![], vec![]);
    let mut per_site: Vec<Vec<f64>> = vec![vec![]; l];
    let mut last = None;
    for _ in 0..n {
        let (s, d) = c();
        sites[s] += 1;
        if let Some(p) = last {
            pairs[p * l + s] += 1;
        }
        last = Some(s);
        zs.push(0.5 * (d[2] + 1.0));
        azs.push(d[1].atan2(d[0]) / (2.0 * PI) + 0.5);
        per_site[s].push(0.5 * (d[2] + 1.0));
    }
    m.evals += n as u64;
    let show = |what: &str| format!("{}: {} over {} updates of {} sites", name, what, n, l);
    m.bound("site is uniform", chi2_z(&sites), Z, || show(&format!("{:?}", sites)));
    m.bound("site is independent of the previous one", chi2_z(&pairs), Z, || show("pairs"));
    m.bound("proposed z uniform", ks_uniform(&zs), ks_bound(n), || show("z"));
    m.bound("proposed azimuth uniform", ks_uniform(&azs), ks_bound(n), || show("azimuth"));
    m.bound("z and azimuth unrelated", corr_z(&zs, &azs).abs(), Z, || show("z and azimuth"));
    m.bound("successive z unrelated", corr_z(&zs[1..], &zs).abs(), Z, || show("z"));
    m.bound("successive azimuths unrelated", corr_z(&azs[1..], &azs).abs(), Z, || show("azimuth"));
    for v in &per_site {
        if v.len() > 200 {
            m.bound("proposal is uniform at every site", ks_uniform(v), ks_bound(v.len()), || show("z at one site"));
        }
    }
}

fn no_field(c: &mut Chain) {
    for x in c.h.iter_mut() {
        *x = [0.0; 3];
    }
}

pub fn free_run<S: Sampler>(m: &mut Mon, c: &mut S, l: usize, n: usize, name: &str) {
    let mut dirs = c.spins();
    c.set(&dirs, 0.0);
    let mut lost = false;
    proposals(
        m,
        &mut || {
            c.step();
            let now = c.spins();
            let ch: Vec<usize> = (0..now.len()).filter(|&i| now[i] != dirs[i]).collect();
            dirs = now;
            if ch.len() != 1 {
                lost = true;
                return (0, [0.0, 0.0, 1.0]);
            }
            (ch[0], dirs[ch[0]])
        },
        l,
        n,
        name,
    );
    m.require("every update at infinite temperature moves one spin", !lost, || name.to_string());
}

/// Free run at a finite temperature: the fraction of accepted moves agrees with the expectation of
/// min(1, exp(-beta dH)) over site and proposal
fn uniform_u(m: &mut Mon, us: &[f64], name: &str) {
    if us.len() > 200 {
        m.bound("acceptance variable is uniform", ks_uniform(us), ks_bound(us.len()), || format!("{} over {} streams", name, us.len()));
    }
}

pub fn c11(m: &mut Mon) {
    let all = std::sync::Mutex::new((vec![], vec![]));
    let cases = m.n(12000);
    m.par("ring", cases, |m, r, i| {
        let mut c = match i % 400 {
            399 => Chain::random(r, 250, 1100),
            x if x % 20 == 19 => Chain::random(r, 12, 40),
            _ => Chain::random(r, 2, 9),
        };
        if r.one_in(10) {
            c.t = r.sign() * r.log(1.0, 1e5);
            c.tau = r.log(1e-3, 1e3);
        }
        if i % 30 == 7 {
            // an energy that does not depend on the state
            c.drive = random_drive(r);
            no_field(&mut c);
            c.h[0] = [0.0, 0.0, 2.0];
        }
        let mut us = vec![];
        let mut x = Iso { sc: c.real(), f: SpinChain::metropolis_update };
        acceptance(m, &mut x, r, &c, &|c| c.e_undriven(), 10, &mut us);
        all.lock().unwrap().0.extend(us);
        m.sample(|| c.show());
    });
    m.par("edge", cases / 2, |m, r, i| {
        let mut c = match i % 600 {
            599 => Chain::random(r, 250, 600),
            x if x % 20 == 19 => Chain::random(r, 12, 40),
            _ => Chain::random(r, 2, 9),
        };
        let mut us = vec![];
        let lambda = r.range(-1.0, 2.0);
        let sc = c.real_langevin(0.5, r.range(0.0, 1.0), lambda);
        let mut x = Edge { sc, f: SpinChainLangevin::metropolis_update, j: c.j.clone() };
        // no static field in its Monte Carlo
        let ham = |c: &Chain| {
            let mut d = c.clone();
            no_field(&mut d);
            d.e_undriven()
        };
        acceptance(m, &mut x, r, &c, &ham, 10, &mut us);
        m.require("couplings stay", probe_j(&mut x.sc) == c.j, || c.show());
        all.lock().unwrap().1.extend(us);
    });
    let (a, b) = all.into_inner().unwrap();
    uniform_u(m, &a, "ring");
    uniform_u(m, &b, "edge-coupled chain");
    let n = m.n(1_000_000);
    m.par("free run", 12, |m, r, i| {
        let mut c = Chain::random(r, 2, 3);
        let l = [2, 3, 5, 8, 13, 300][i % 6];
        c.l = l;
        c.s = 2;
        c.j = vec![[1.0, 1.0, 1.0]; l];
        c.h = vec![[0.0; 3]; l];
        c.spins = (0..l).map(|_| r.unit()).collect();
        rand::verif_seed(r.u64());
        if i < 6 {
            let mut x = Iso { sc: c.real(), f: SpinChain::metropolis_update };
            free_run(m, &mut x, l, n, "ring");
        } else {
            let mut x = Edge { sc: c.real_langevin(0.5, 0.1, 1.0), f: SpinChainLangevin::metropolis_update, j: vec![] };
            free_run(m, &mut x, l, n, "edge-coupled chain");
        }
    });
}

// ------------------------------------------------------------------------- effective Hamiltonians

/// Exchange with the two neighbours
fn exch(c: &Chain, i: usize) -> V3 {
    let l = c.l;
    let p = (i + l - 1) % l;
    add(had(c.j[p], c.spins[p]), had(c.j[i], c.spins[(i + 1) % l]))
}
pub fn h_exchange(c: &Chain) -> f64 {
    (0..c.l).map(|i| c.bond(i)).sum()
}
pub fn h_maglab(c: &Chain) -> f64 {
    let om = 2.0 * PI / c.tau;
    h_exchange(c) - c.spins.iter().map(|s| s[2]).sum::<f64>() / (2.0 * om)
}
pub fn h_magnus(c: &Chain) -> f64 {
    let om = 2.0 * PI / c.tau;
    let x: f64 = (0..c.s)
        .map(|i| {
            let (a, s) = (exch(c, i), c.spins[i]);
            s[2] + 2.0 * (a[2] * s[0] - a[0] * s[2])
        })
        .sum();
    h_exchange(c) - x / (2.0 * om)
}
pub fn h_second(c: &Chain) -> f64 {
    let om = 2.0 * PI / c.tau;
    let l = c.l;
    let mut e = 0.0;
    for i in 0..l {
        let (p, n) = ((i + l - 1) % l, (i + 1) % l);
        let (a, s, jn, jp) = (exch(c, i), c.spins[i], c.j[i], c.j[p]);
        let (sn, sp) = (c.spins[n], c.spins[p]);
        e += 0.5 * s[0];
        e -= s[2] * sn[2] * (0.5 * jn[1] + 1.5 * jn[0]);
        e -= s[1] * sn[1] * 0.5 * jn[2];
        e -= s[0] * sn[0] * 1.5 * jn[2];
        e += a[0] * dot(s, a) - s[0] * dot(a, a);
        let yz = jp[1] * sp[2] + jn[1] * sn[2];
        let zy = jp[2] * sp[1] + jn[2] * sn[1];
        e += (a[2] * s[0] - a[0] * s[2]) * yz - (a[0] * s[1] - a[1] * s[0]) * zy;
    }
    e / (om * om)
}
pub fn h_rot(c: &Chain) -> f64 {
    let om = 2.0 * PI / c.tau;
    let l = c.l;
    let mut e = 0.0;
    let mut mg = 0.0;
    let xy = |a: V3, b: V3| a[0] * b[0] + a[1] * b[1];
    for i in 0..l {
        let (p, n) = ((i + l - 1) % l, (i + 1) % l);
        let (s, sl, sr) = (c.spins[i], c.spins[p], c.spins[n]);
        let j = c.j[i];
        e -= 0.5 * (j[0] + j[1]) * xy(s, sr) + j[2] * s[2] * sr[2];
        e -= om * s[2];
        if i < c.s {
            e += s[0];
        }
        let d = j[1] - j[0];
        let dl = c.j[p][1] - c.j[p][0];
        mg += d * d * (sr[2] * xy(s, s) + s[2] * xy(sr, sr));
        mg += 2.0 * dl * d * s[2] * xy(sl, sr);
    }
    e - mg / (16.0 * om)
}

pub fn c12(m: &mut Mon) {
    let names = ["lab-frame Magnus", "rotating-frame Magnus", "first-order Magnus", "second-order Magnus", "edge-coupled first-order Magnus"];
    let cases = m.n(10000);
    for kind in 0..5 {
        let all = std::sync::Mutex::new(vec![]);
        m.par(names[kind], cases, |m, r, i| {
            let mut c = match i % 500 {
                499 => Chain::random(r, 250, 600),
                x if x % 20 == 19 => Chain::random(r, 10, 30),
                _ => Chain::random(r, 5, 9),
            };
            no_field(&mut c);
            c.drive = random_drive(r);
            c.tau = r.log(0.05, 20.0);
            if kind == 3 {
                c.s = c.l;
            }
            let mut us = vec![];
            if kind == 4 {
                let lambda = r.range(-1.0, 2.0);
                let sc = c.real_langevin(0.5, r.range(0.0, 1.0), lambda);
                let mut x = Edge { sc, f: SpinChainLangevin::metropolis_update_magnus, j: vec![] };
                acceptance(m, &mut x, r, &c, &h_magnus, 6, &mut us);
            } else {
                let f: fn(&mut SpinChain) = [
                    SpinChain::metropolis_update_maglab,
                    SpinChain::metropolis_update_rot_magnus,
                    SpinChain::metropolis_update_magnus,
                    SpinChain::metropolis_update_mag_full,
                ][kind];
                let h: &dyn Fn(&Chain) -> f64 = match kind {
                    0 => &h_maglab,
                    1 => &h_rot,
                    2 => &h_magnus,
                    _ => &|c: &Chain| h_magnus(c) + h_second(c),
                };
                let mut x = Iso { sc: c.real(), f };
                acceptance(m, &mut x, r, &c, h, 6, &mut us);
            }
            all.lock().unwrap().extend(us);
            m.sample(|| format!("{}: {}", names[kind], c.show()));
        });
        uniform_u(m, &all.into_inner().unwrap(), names[kind]);
    }
    // Reported energies
    let cases = m.n(300000);
    m.par("reported", cases, |m, r, i| {
        let mut c = if i % 1000 == 999 { Chain::random(r, 250, 1100) } else { Chain::random(r, 5, 12) };
        no_field(&mut c);
        c.tau = r.log(0.05, 20.0);
        let sc = c.real();
        let l = c.l as f64;
        let tol = 1e-13 * c.e_scale() * (1.0 + c.tau + 1.0 / c.tau);
        m.bound("reported lab-frame energy", (sc.mc_system_energy_maglab() - h_maglab(&c) / l).abs(), tol, || {
            format!("{} but H per site is {}: {}", sc.mc_system_energy_maglab(), h_maglab(&c) / l, c.show())
        });
        m.bound("reported rotating-frame energy", (sc.mc_system_energy_rot() - h_rot(&c) / l).abs(), tol, || {
            format!("{} but H per site is {}: {}", sc.mc_system_energy_rot(), h_rot(&c) / l, c.show())
        });
        m.case(c.key(), true);
    });
    // Sites and proposals
    let n = m.n(500_000);
    m.par("free run", 5, |m, r, kind| {
        let mut c = Chain::random(r, 7, 7);
        no_field(&mut c);
        rand::verif_seed(r.u64());
        if kind == 4 {
            let mut x = Edge { sc: c.real_langevin(0.5, 0.1, 1.0), f: SpinChainLangevin::metropolis_update_magnus, j: vec![] };
            free_run(m, &mut x, 7, n, names[kind]);
        } else {
            if kind == 3 {
                c.s = c.l;
            }
            let f: fn(&mut SpinChain) = [
                SpinChain::metropolis_update_maglab,
                SpinChain::metropolis_update_rot_magnus,
                SpinChain::metropolis_update_magnus,
                SpinChain::metropolis_update_mag_full,
            ][kind];
            let mut x = Iso { sc: c.real(), f };
            free_run(m, &mut x, 7, n, names[kind]);
        }
    });
}

// -------------------------------------------------------------------------- Boltzmann distribution

/// Modified spherical Bessel functions of the first kind i_0..=i_n
fn sph_bessel_i(x: f64, n: usize) -> Vec<f64> {
    // Downward recurrence i_{l-1} = i_{l+1} + (2l+1)/x i_l, normalised with i_0 = sinh x/x
    if x < 1e-8 {
        let mut v = vec![0.0; n + 1];
        v[0] = 1.0;
        return v;
    }
    let top = n + 40 + x as usize;
    let (mut a, mut b) = (0.0, 1e-200);
    let mut out = vec![0.0; n + 1];
    for l in (0..=top).rev() {
        // b = i_l (unnormalised), a = i_{l+1}
        if l <= n {
            out[l] = b;
        }
        if l > 0 {
            let c = a + (2 * l + 1) as f64 / x * b;
            a = b;
            b = c;
            if b > 1e200 {
                a *= 1e-200;
                b *= 1e-200;
                for y in out.iter_mut() {
                    *y *= 1e-200;
                }
            }
        }
    }
    // ratio only: i_0 taken as 1
    let s = 1.0 / out[0];
    out.iter().map(|y| y * s).collect()
}
/// ln of the partition function of an isotropic ring, up to L ln i_0
fn ring_lnz(beta: f64, l: usize) -> f64 {
    let i = sph_bessel_i(beta, 30);
    let z: f64 = i.iter().enumerate().map(|(k, x)| (2 * k + 1) as f64 * (x.abs()).powi(l as i32) * if *x < 0.0 && l % 2 == 1 { -1.0 } else { 1.0 }).sum();
    let i0 = if beta.abs() < 1e-4 { 0.0 } else { (beta.abs().sinh() / beta.abs()).ln() };
    l as f64 * i0 + z.ln()
}
/// Exact energy per site of the isotropic ring of l classical spins
pub fn ring_energy(beta: f64, l: usize) -> f64 {
    let h = 1e-4 * (1.0 + beta);
    -(ring_lnz(beta + h, l) - ring_lnz((beta - h).abs(), l)) / (2.0 * h) / l as f64
}
pub fn langevin_fn(x: f64) -> f64 {
    if x.abs() < 1e-3 {
        x / 3.0 - x * x * x / 45.0
    } else {
        1.0 / x.tanh() - 1.0 / x
    }
}

/// Means over blocks of a run, and their standard errors
struct Blocks {
    sums: Vec<Vec<f64>>,
}
impl Blocks {
    fn judge(&self, m: &mut Mon, what: &str, k: usize, want: f64, extra: f64, show: &dyn Fn() -> String) {
        let xs: Vec<f64> = self.sums.iter().map(|b| b[k]).collect();
        let (mean, se) = mean_se(&xs);
        // student t with 63 degrees of freedom: 8.3 standard errors for p = 1e-11
        m.bound(what, (mean - want).abs(), 8.5 * se + extra, || {
            format!("observed {} +- {}, exact {}: {}", mean, se, want, show())
        });
    }
}

/// Long chains: no site is left out, and the whole chain relaxes
fn long_chains(m: &mut Mon) {
    let sizes = [1000_usize, 4099, 40_000, 70_001, 140_000];
    let n = m.n(sizes.len()).max(sizes.len());
    m.par("long", n, |m, r, i| {
        let l = sizes[i % sizes.len()] + r.int(0, 9) as usize;
        let mut c = Chain::random(r, 3, 3);
        c.l = l;
        c.s = r.int(2, l as i64) as usize;
        c.j = vec![[1.0; 3]; l];
        c.h = vec![[0.0; 3]; l];
        c.spins = vec![[1.0, 0.0, 0.0]; l];
        c.beta = 0.0;
        for which in 0..6 {
            rand::verif_seed(r.u64());
            let mut conf = c.conf();
            conf.beta = 1.0;
            conf.jvar = 0.0;
            conf.lambda = 1.0;
            conf.file = crate::model::langevin_file();
            let mut ring = c.real();
            let mut edge = SpinChainLangevin::new(conf, 0, 0.5);
            for x in edge.spins.iter_mut() {
                x.dir = [1.0, 0.0, 0.0];
            }
            edge.vars.beta = 0.0;
            let name = ["plain", "lab frame", "rotating frame", "first order", "second order", "edge-coupled"][which];
            let mut step = |n: usize, beta: f64| -> Vec<V3> {
                ring.vars.beta = beta;
                edge.vars.beta = beta;
                let f = [
                    SpinChain::metropolis_update,
                    SpinChain::metropolis_update_maglab,
                    SpinChain::metropolis_update_rot_magnus,
                    SpinChain::metropolis_update_magnus,
                    SpinChain::metropolis_update_mag_full,
                ];
                for _ in 0..n {
                    if which == 5 {
                        edge.metropolis_update();
                    } else {
                        f[which](&mut ring);
                    }
                }
                if which == 5 {
                    get(&edge.spins)
                } else {
                    get(&ring.spins)
                }
            };
            let spins = step(l, 0.0);
            let parts = 50;
            let per = l / parts;
            let moved: Vec<u64> =
                (0..parts).map(|b| spins[b * per..(b + 1) * per].iter().filter(|x| **x != [1.0, 0.0, 0.0]).count() as u64).collect();
            let total = spins.iter().filter(|x| **x != [1.0, 0.0, 0.0]).count() as f64;
            let show = || format!("{} updates of {} sites, {}: moved {:?}", l, l, name, moved);
            m.bound("sites all along a long chain are moved alike", chi2_z(&moved), Z, &show);
            m.bound("as many sites are moved as by chance", (total / l as f64 - (1.0 - (-1.0_f64).exp())).abs(), Z * (0.1 / l as f64).sqrt() + 1.0 / l as f64, &show);
            m.evals += l as u64;
            m.distinct.insert((l * 6 + which) as u64);
            if which == 0 || which == 5 {
                let sweeps = if l > 50_000 { 60 } else { 100 };
                let spins = step(sweeps * l, 1.0);
                let e = -(0..l).map(|k| dot(spins[k], spins[(k + 1) % l])).sum::<f64>() / l as f64;
                m.bound("long chains reach their energy", (e + langevin_fn(1.0)).abs(), 9.0 * (1.0 / (3.0 * l as f64)).sqrt() + 1e-4, || {
                    format!("energy {} rather than {} after {} sweeps of {} sites, {}", e, -langevin_fn(1.0), sweeps, l, name)
                });
                m.evals += (sweeps * l) as u64;
            }
        }
    });
}

pub fn c13(m: &mut Mon) {
    long_chains(m);
    let n_up = m.n(400_000);
    let cases = m.n(500);
    m.par("boltzmann", cases, |m, r, i| {
        let kind = i % 4;
        let l = if i % 100 > 95 { r.int(20, 40) } else { r.int(if kind == 0 { 3 } else { 2 }, 10) } as usize;
        let mut c = Chain::random(r, 3, 3);
        c.l = l;
        c.s = r.int(2, l as i64) as usize;
        c.spins = match r.int(0, 3) {
            // cold and hot starts
            0 => vec![[0.0, 0.0, 1.0]; l],
            1 => (0..l).map(|k| if k % 2 == 0 { [1.0, 0.0, 0.0] } else { [-1.0, 0.0, 0.0] }).collect(),
            _ => (0..l).map(|_| r.unit()).collect(),
        };
        c.h = vec![[0.0; 3]; l];
        c.beta = *r.pick(&[0.0, 0.3, 1.0, 2.0, 2.88]);
        // kind 0: isotropic ring; 1: decoupled spins; 2: disordered ring; 3: edge-coupled sampler
        c.j = match kind {
            0 => vec![[1.0; 3]; l],
            1 => vec![[0.0; 3]; l],
            _ => (0..l).map(|_| [1.0 + 0.4 * r.normal(), 1.0 + 0.4 * r.normal(), 1.0 + 0.4 * r.normal()]).collect(),
        };
        if kind == 1 || kind == 2 {
            c.h = (0..l).map(|_| scale(r.unit(), r.range(0.0, 1.5))).collect();
        }
        rand::verif_seed(r.u64());
        let mut edge = None;
        let mut ring = None;
        if kind == 3 {
            let lambda = r.range(0.0, 1.5);
            edge = Some(c.real_langevin(0.7, *r.pick(&[0.0, 0.4]), lambda));
        } else {
            ring = Some(c.real());
        }
        let burn = 4000 * l;
        let blocks = 64;
        let per = n_up * l / 8 / blocks;
        let mut out = Blocks { sums: vec![] };
        let mut step = |n: usize| -> Vec<V3> {
            if let Some(x) = edge.as_mut() {
                for _ in 0..n {
                    x.metropolis_update();
                }
                get(&x.spins)
            } else {
                let x = ring.as_mut().unwrap();
                for _ in 0..n {
                    x.metropolis_update();
                }
                get(&x.spins)
            }
        };
        step(burn);
        let start = c.clone();
        if kind == 3 {
            c.h = vec![[0.0; 3]; l];
        }
        for _ in 0..blocks {
            // energy, then per site S.u (u along the field) and the temperature identity
            let mut s = vec![0.0; 1 + 2 * l];
            let every = l.max(1);
            let times = (per / every).max(4);
            for _ in 0..times {
                c.spins = step(every);
                s[0] += c.e_undriven() / l as f64;
                for k in 0..l {
                    s[1 + k] += dot(c.spins[k], c.h[k]);
                    let w = {
                        let mut x = exch(&c, k);
                        x = sub(x, c.h[k]);
                        x
                    };
                    let p = cross(c.spins[k], w);
                    s[1 + l + k] += 2.0 * dot(c.spins[k], w) - c.beta * dot(p, p);
                }
            }
            out.sums.push(s.iter().map(|x| x / times as f64).collect());
        }
        m.evals += (blocks * per) as u64;
        m.distinct.insert(start.key());
        let show = || format!("kind {}: {}", kind, start.show());
        if kind == 0 {
            out.judge(m, "exact energy of the isotropic ring", 0, ring_energy(c.beta, l), 1e-6, &show);
        }
        if kind == 1 {
            for k in 0..l {
                let h = norm(c.h[k]);
                out.judge(m, "exact magnetisation of decoupled spins", 1 + k, -h * langevin_fn(c.beta * h), 1e-9, &show);
            }
        }
        for k in 0..l {
            // <2 S.W> = beta <|S x W|^2> for every coupling and field, when l > 2 (for two sites W
            // of a site still does not involve the site itself)
            out.judge(m, "temperature identity", 1 + l + k, 0.0, 1e-9, &show);
        }
        m.sample(|| show());
    });
}
