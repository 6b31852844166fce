//! Independent reference model of the chain: what the documentation says, written from scratch
use crate::util::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::f64::consts::PI;

#[derive(Clone, Debug, PartialEq)]
pub enum Drive {
    Xy,
    Uni,
    Ell(f64),
    Static(V3),
    None,
}

/// A chain in the model
#[derive(Clone, Debug)]
pub struct Chain {
    pub l: usize,
    pub s: usize,
    pub j: Vec<V3>,
    pub h: Vec<V3>,
    pub spins: Vec<V3>,
    pub t: f64,
    pub dt: f64,
    pub tau: f64,
    pub beta: f64,
    pub drive: Drive,
}

/// Exact solution of dS/dt = S x B after t (quaternion form)
pub fn precess(s: V3, b: V3, t: f64) -> V3 {
    let n = (b[0].hypot(b[1])).hypot(b[2]);
    if n == 0.0 {
        return s;
    }
    // rotation by -n t about b/n
    let half = -0.5 * n * t;
    let w = half.cos();
    let q = scale([b[0] / n, b[1] / n, b[2] / n], half.sin());
    let u = scale(cross(q, s), 2.0);
    add(s, add(scale(u, w), cross(q, u)))
}

pub fn had(a: V3, b: V3) -> V3 {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}

impl Chain {
    pub fn drive_at(&self, t: f64) -> V3 {
        let p = 2.0 * PI * t / self.tau;
        match &self.drive {
            Drive::Xy => [p.cos(), p.sin(), 0.0],
            Drive::Uni => [p.cos(), 0.0, 0.0],
            Drive::Ell(e) => [p.cos(), e * p.sin(), 0.0],
            Drive::Static(v) => *v,
            Drive::None => [0.0; 3],
        }
    }
    /// d(drive)/dt
    pub fn drive_rate(&self, t: f64) -> V3 {
        let w = 2.0 * PI / self.tau;
        let p = w * t;
        match &self.drive {
            Drive::Xy => [-w * p.sin(), w * p.cos(), 0.0],
            Drive::Uni => [-w * p.sin(), 0.0, 0.0],
            Drive::Ell(e) => [-w * p.sin(), w * e * p.cos(), 0.0],
            Drive::Static(_) | Drive::None => [0.0; 3],
        }
    }
    pub fn is_static(&self) -> bool {
        matches!(self.drive, Drive::Static(_) | Drive::None)
    }
    pub fn b(&self, i: usize, t: f64) -> V3 {
        if i < self.s {
            add(self.h[i], self.drive_at(t))
        } else {
            self.h[i]
        }
    }
    pub fn bond(&self, i: usize) -> f64 {
        -dot(self.spins[i], had(self.j[i], self.spins[(i + 1) % self.l]))
    }
    /// Total energy of the periodic chain (not per site)
    pub fn e_total(&self) -> f64 {
        (0..self.l).map(|i| self.bond(i) + dot(self.b(i, self.t), self.spins[i])).sum()
    }
    /// ... without the drive
    pub fn e_undriven(&self) -> f64 {
        (0..self.l).map(|i| self.bond(i) + dot(self.h[i], self.spins[i])).sum()
    }
    /// Total energy of the open chain
    pub fn e_open(&self) -> f64 {
        (0..self.l - 1).map(|i| self.bond(i)).sum::<f64>()
            + (0..self.l).map(|i| dot(self.b(i, self.t), self.spins[i])).sum::<f64>()
    }
    /// Subsystem energy per bond
    pub fn e_sub(&self) -> f64 {
        (0..self.s - 1).map(|i| self.bond(i) + dot(self.b(i, self.t), self.spins[i])).sum::<f64>()
            / (self.s - 1) as f64
    }
    /// Monte Carlo subsystem energy: the first ssize sites as a ring in the static field, per site
    pub fn e_ring(&self) -> f64 {
        let s = self.s;
        (0..s)
            .map(|i| {
                -dot(self.spins[i], had(self.j[i], self.spins[(i + 1) % s])) + dot(self.h[i], self.spins[i])
            })
            .sum::<f64>()
            / s as f64
    }
    pub fn m(&self) -> V3 {
        self.spins[..self.s].iter().fold([0.0; 3], |a, x| add(a, *x))
    }
    pub fn m_tot(&self) -> V3 {
        self.spins.iter().fold([0.0; 3], |a, x| add(a, *x))
    }
    /// Sum of absolute values of the terms of the energy: the scale of rounding errors
    pub fn e_scale(&self) -> f64 {
        let d = norm(self.drive_at(self.t));
        1.0 + (0..self.l).map(|i| norm(self.j[i]) + norm(self.h[i]) + d).sum::<f64>()
    }
    /// Precession field of site i of the periodic chain
    pub fn omega(&self, sp: &[V3], i: usize, t: f64, static_on: bool) -> V3 {
        let l = self.l;
        let p = (i + l - 1) % l;
        let n = (i + 1) % l;
        let mut w = add(had(self.j[p], sp[p]), had(self.j[i], sp[n]));
        if static_on {
            w = sub(w, self.h[i]);
        }
        if i < self.s {
            w = sub(w, self.drive_at(t));
        }
        w
    }
    /// Precession field of site i of the open chain
    pub fn omega_open(&self, sp: &[V3], i: usize, t: f64) -> V3 {
        let mut w = scale(self.b(i, t), -1.0);
        if i > 0 {
            w = add(w, had(self.j[i - 1], sp[i - 1]));
        }
        if i + 1 < self.l {
            w = add(w, had(self.j[i], sp[i + 1]));
        }
        w
    }
    /// Right-hand side of the equations of motion
    pub fn rhs(&self, sp: &[V3], t: f64, eom: &Eom) -> Vec<V3> {
        (0..self.l)
            .map(|i| match *eom {
                Eom::Ring { static_on } => cross(sp[i], self.omega(sp, i, t, static_on)),
                Eom::Open { gamma } => {
                    let mut w = self.omega_open(sp, i, t);
                    if i == 0 || i + 1 == self.l {
                        w = sub(w, scale(cross(sp[i], w), gamma));
                    }
                    cross(sp[i], w)
                }
            })
            .collect()
    }
    /// Integrates the equations of motion for a time `span` in n RK4 steps
    pub fn integrate(&mut self, span: f64, n: usize, eom: &Eom) {
        let hh = span / n as f64;
        let ax = |a: &[V3], b: &[V3], k: f64| -> Vec<V3> {
            a.iter().zip(b).map(|(x, y)| add(*x, scale(*y, k))).collect()
        };
        let t0 = self.t;
        let mut s = self.spins.clone();
        for i in 0..n {
            let t = t0 + hh * i as f64;
            let k1 = self.rhs(&s, t, eom);
            let k2 = self.rhs(&ax(&s, &k1, hh / 2.0), t + hh / 2.0, eom);
            let k3 = self.rhs(&ax(&s, &k2, hh / 2.0), t + hh / 2.0, eom);
            let k4 = self.rhs(&ax(&s, &k3, hh), t + hh, eom);
            for q in 0..s.len() {
                let d = add(add(k1[q], k4[q]), scale(add(k2[q], k3[q]), 2.0));
                s[q] = add(s[q], scale(d, hh / 6.0));
            }
        }
        self.spins = s;
        self.t = t0 + span;
    }

    // ------------------------------------------------------------ bridge to the code under test

    pub fn conf(&self) -> Config {
        let mut c = Config::default();
        c.hsize = self.l as i32;
        c.ssize = self.s as i32;
        c.dt = self.dt;
        c.tau = self.tau;
        c.beta = self.beta;
        c.log = false;
        c.jvar = 0.0;
        c.hvar = 0.0;
        c.drive = match &self.drive {
            Drive::Xy => DriveType::xyplane,
            Drive::Uni => DriveType::uniaxial,
            Drive::Ell(e) => {
                c.e = *e;
                DriveType::xyelliptic
            }
            Drive::Static(v) => {
                c.hs = v.to_vec();
                DriveType::staticfield
            }
            Drive::None => DriveType::none,
        };
        c
    }
    /// The chain under test in this state
    pub fn real(&self) -> SpinChain {
        self.real_with(self.conf())
    }
    /// The same with a log of its own
    pub fn real_logged(&self) -> SpinChain {
        let mut c = self.conf();
        c.log = true;
        c.file = langevin_file();
        self.real_with(c)
    }
    fn real_with(&self, mut c: Config) -> SpinChain {
        c.beta = 1.0;
        let mut sc = SpinChain::new(c, 0);
        sc.vars.beta = self.beta;
        sc.j_couple = self.j.clone();
        sc.static_h = self.h.clone();
        sc.t = self.t;
        put(&mut sc.spins, &self.spins);
        sc
    }
    /// The edge-coupled chain under test in this state. Its couplings cannot be set from outside:
    /// they are drawn by `new` and found with `probe_j`, so self.j is overwritten
    pub fn real_langevin(&mut self, gamma: f64, jvar: f64, lambda: f64) -> SpinChainLangevin {
        let mut c = self.conf();
        c.beta = 1.0;
        c.jvar = jvar;
        c.lambda = lambda;
        c.file = langevin_file();
        let mut sc = SpinChainLangevin::new(c, 0, gamma);
        sc.vars.beta = self.beta;
        self.j = probe_j(&mut sc);
        sc.static_h = self.h.clone();
        sc.t = self.t;
        put(&mut sc.spins, &self.spins);
        sc
    }
    /// Random chain
    pub fn random(r: &mut Rng, lmin: usize, lmax: usize) -> Chain {
        let l = r.int(lmin as i64, lmax as i64) as usize;
        let s = match r.int(0, 3) {
            0 => l,
            1 => 2,
            _ => r.int(2, l as i64) as usize,
        };
        let jkind = r.int(0, 4);
        let lambda = r.range(-1.5, 2.5);
        let j = (0..l)
            .map(|_| match jkind {
                0 => [1.0, 1.0, 1.0],
                1 => [1.0, 1.0, lambda],
                2 => [1.0 + 0.1 * r.normal(), 1.0 + 0.1 * r.normal(), lambda + 0.1 * r.normal()],
                _ => [r.normal(), r.normal(), r.normal()],
            })
            .collect();
        let hkind = r.int(0, 4);
        let h0 = scale(r.unit(), r.range(0.0, 2.0));
        let h = (0..l)
            .map(|_| match hkind {
                0 => [0.0; 3],
                1 => h0,
                _ => [r.normal(), r.normal(), r.normal()],
            })
            .collect();
        let spins = (0..l).map(|_| r.unit()).collect();
        Chain {
            l,
            s,
            j,
            h,
            spins,
            t: if r.one_in(4) { 0.0 } else { r.range(-20.0, 20.0) },
            dt: 0.01,
            tau: r.log(0.5, 20.0),
            beta: r.log(0.1, 10.0),
            drive: random_drive(r),
        }
    }
    pub fn key(&self) -> u64 {
        let mut v: Vec<f64> = vec![self.l as f64, self.s as f64, self.t, self.tau, self.dt];
        for x in self.j.iter().chain(&self.h).chain(&self.spins) {
            v.extend_from_slice(x);
        }
        hash_f(&v)
    }
    pub fn show(&self) -> String {
        if self.l > 12 {
            return format!(
                "hsize={} ssize={} t={} tau={} dt={} beta={} drive={:?} j[0..3]={:?} h[0..3]={:?} spins[0..3]={:?}",
                self.l, self.s, self.t, self.tau, self.dt, self.beta, self.drive, &self.j[..3], &self.h[..3], &self.spins[..3]
            );
        }
        format!(
            "hsize={} ssize={} t={} tau={} dt={} beta={} drive={:?} j={:?} h={:?} spins={:?}",
            self.l, self.s, self.t, self.tau, self.dt, self.beta, self.drive, self.j, self.h, self.spins
        )
    }
}

pub enum Eom {
    Ring { static_on: bool },
    Open { gamma: f64 },
}

pub fn random_drive(r: &mut Rng) -> Drive {
    match r.int(0, 5) {
        0 => Drive::Uni,
        1 => Drive::Ell(*r.pick(&[0.9, 0.5, 0.0, -0.7, 1.0, 1.8])),
        2 => Drive::Static([r.normal(), r.normal(), r.normal()]),
        3 => Drive::None,
        _ => Drive::Xy,
    }
}

pub fn put(spins: &mut [Spin], dirs: &[V3]) {
    for (s, d) in spins.iter_mut().zip(dirs) {
        s.dir = *d;
    }
}
pub fn get(spins: &[Spin]) -> Vec<V3> {
    spins.iter().map(|s| s.dir).collect()
}
pub fn max_dist(a: &[V3], b: &[V3]) -> f64 {
    if a.len() != b.len() {
        return f64::INFINITY;
    }
    a.iter().zip(b).fold(0.0, |m: f64, (x, y)| {
        let d = dist(*x, *y);
        if d.is_nan() {
            f64::INFINITY
        } else {
            m.max(d)
        }
    })
}

static FILES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Prefix for the log file that every edge-coupled chain creates. One per thread, in the scratch
/// directory
pub fn langevin_file() -> String {
    thread_local!(static N: usize = FILES.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
    N.with(|n| format!("lv{}-", n))
}

/// Finds the couplings of an edge-coupled chain from its energies
pub fn probe_j(sc: &mut SpinChainLangevin) -> Vec<V3> {
    let l = sc.spins.len();
    let dirs = get(&sc.spins);
    let h = sc.static_h.clone();
    let drive = std::mem::replace(&mut sc.vars.drive, DriveType::none);
    let ss = sc.vars.ssize;
    for x in sc.static_h.iter_mut() {
        *x = [0.0; 3];
    }
    let zero = vec![[0.0; 3]; l];
    let mut out = vec![[0.0; 3]; l];
    for k in 0..3 {
        let mut e = [0.0; 3];
        e[k] = 1.0;
        for i in 0..l {
            let mut d = zero.clone();
            d[i] = e;
            d[(i + 1) % l] = e;
            put(&mut sc.spins, &d);
            out[i][k] = -sc.total_energy() * l as f64;
        }
        if l == 2 {
            // Both bonds join the same two sites: the energy of the subsystem only has the first
            sc.vars.ssize = 2;
            let mut d = zero.clone();
            d[0] = e;
            d[1] = e;
            put(&mut sc.spins, &d);
            let j0 = -sc.system_energy();
            let sum = -sc.total_energy() * 2.0;
            out[0][k] = j0;
            out[1][k] = sum - j0;
        }
    }
    sc.vars.ssize = ss;
    sc.vars.drive = drive;
    sc.static_h = h;
    put(&mut sc.spins, &dirs);
    out
}
