//! C05, C06, C07, C25: energies, observables, drive, spectrum
use crate::model::*;
use crate::util::*;
use sc::config::Config;
use sc::spinchain::SpinChain;
use std::f64::consts::PI;

/// Error of the drive due to the rounding of its phase
fn phase_err(c: &Chain) -> f64 {
    2e-15 * (1.0 + (2.0 * PI * c.t / c.tau).abs()) * (1.0 + if let Drive::Ell(e) = c.drive { e.abs() } else { 0.0 })
}

fn random_case(r: &mut Rng, i: usize) -> Chain {
    let mut c = match i % 50 {
        0 => Chain::random(r, 200, 600),
        x if x < 12 => Chain::random(r, 2, 3),
        _ => Chain::random(r, 2, 24),
    };
    if r.one_in(5) {
        c.t = r.sign() * r.log(1e-3, 1e5);
    }
    if r.one_in(5) {
        // axis-aligned and repeated spins
        let a = r.odd_unit();
        for s in c.spins.iter_mut() {
            *s = if r.bool() { a } else { r.odd_unit() };
        }
    }
    if r.one_in(6) {
        c.s = c.l;
    }
    c
}

pub fn c05(m: &mut Mon) {
    let n = m.n(600_000);
    m.par("C05/ring", n, |m, r, i| {
        let c = random_case(r, i);
        let sc = c.real();
        let l = c.l as f64;
        let tol = 1e-14 * c.e_scale() + phase_err(&c) * c.s as f64;
        let want = c.e_total();
        m.case(c.key(), true);
        m.sample(|| format!("{} H={}", c.show(), want));
        m.bound("total_energy is the Hamiltonian", (sc.total_energy() * l - want).abs(), tol, || format!("{} got {} want {}", c.show(), sc.total_energy(), want / l));
        m.bound("total_energy2 is the Hamiltonian", (sc.total_energy2() * l - want).abs(), tol, || format!("{} got {} want {}", c.show(), sc.total_energy2(), want / l));
        let un = c.e_undriven();
        m.bound("Monte Carlo energy is undriven", (sc.mc_total_energy() * l - un).abs(), tol, || format!("{} got {} want {}", c.show(), sc.mc_total_energy(), un / l));
        m.bound("observing changes nothing", max_dist(&get(&sc.spins), &c.spins) + (sc.t - c.t).abs() + max_dist(&sc.j_couple, &c.j) + max_dist(&sc.static_h, &c.h), 1e-300, || c.show());
    });
    let n = m.n(60_000);
    m.par("C05/edge", n, |m, r, i| {
        let mut c = random_case(r, i);
        if c.l > 60 {
            return;
        }
        rand::verif_seed(r.u64());
        let (jv, la) = (r.range(0.0, 1.0), r.range(-2.0, 2.0));
        let sc = c.real_langevin(r.range(0.0, 2.0), jv, la);
        let l = c.l as f64;
        let tol = 1e-13 * c.e_scale() + phase_err(&c) * c.s as f64;
        let want = c.e_total();
        m.case(c.key(), true);
        m.bound("edge-coupled total_energy is the Hamiltonian", (sc.total_energy() * l - want).abs(), tol, || format!("{} got {} want {}", c.show(), sc.total_energy(), want / l));
        m.bound("edge-coupled total_energy2 is the Hamiltonian", (sc.total_energy2() * l - want).abs(), tol, || format!("{} got {} want {}", c.show(), sc.total_energy2(), want / l));
    });
}

pub fn c06(m: &mut Mon) {
    let n = m.n(600_000);
    m.par("C06/ring", n, |m, r, i| {
        let mut c = random_case(r, i);
        let mut sc = c.real();
        m.case(c.key(), c.s < c.l);
        m.sample(|| format!("{} m={:?}", c.show(), c.m()));
        for round in 0..2 {
            let tol = 1e-14 * c.e_scale() + phase_err(&c) * c.s as f64;
            m.bound("subsystem magnetisation", dist(sc.m(), c.m()), tol, || format!("{} got {:?}", c.show(), sc.m()));
            m.bound("total magnetisation", dist(sc.m_tot(), c.m_tot()), tol, || format!("{} got {:?}", c.show(), sc.m_tot()));
            let w = c.e_sub();
            m.bound("subsystem energy", (sc.system_energy() - w).abs(), tol, || format!("{} got {} want {}", c.show(), sc.system_energy(), w));
            let w = c.e_ring();
            m.bound("Monte Carlo subsystem energy", (sc.mc_system_energy() - w).abs(), tol, || format!("{} got {} want {}", c.show(), sc.mc_system_energy(), w));
            // Change everything outside: nothing but the total may move
            if round == 0 {
                let before = (sc.m(), sc.system_energy(), sc.mc_system_energy());
                for k in c.s..c.l {
                    c.spins[k] = r.unit();
                    c.j[k] = [r.normal(), r.normal(), r.normal()];
                    c.h[k] = [r.normal(), r.normal(), r.normal()];
                }
                sc.j_couple = c.j.clone();
                sc.static_h = c.h.clone();
                put(&mut sc.spins, &c.spins);
                let after = (sc.m(), sc.system_energy(), sc.mc_system_energy());
                m.require("nothing outside the subsystem matters", before == after, || format!("{} before {:?} after {:?}", c.show(), before, after));
            }
        }
    });
    let n = m.n(60_000);
    m.par("C06/edge", n, |m, r, i| {
        let mut c = random_case(r, i);
        if c.l > 60 {
            return;
        }
        rand::verif_seed(r.u64());
        let (jv, la) = (r.range(0.0, 1.0), r.range(-2.0, 2.0));
        let sc = c.real_langevin(r.range(0.0, 2.0), jv, la);
        let tol = 1e-13 * c.e_scale() + phase_err(&c) * c.s as f64;
        m.case(c.key(), true);
        m.bound("edge-coupled subsystem magnetisation", dist(sc.m(), c.m()), tol, || format!("{} got {:?}", c.show(), sc.m()));
        m.bound("edge-coupled total magnetisation", dist(sc.m_tot(), c.m_tot()), tol, || format!("{} got {:?}", c.show(), sc.m_tot()));
        let w = c.e_sub();
        m.bound("edge-coupled subsystem energy", (sc.system_energy() - w).abs(), tol, || format!("{} got {} want {}", c.show(), sc.system_energy(), w));
    });
}

pub fn c07(m: &mut Mon) {
    let n = m.n(100_000);
    m.par("C07/probe", n, |m, r, i| {
        let mut c = Chain::random(r, 2, 12);
        c.drive = random_drive(r);
        c.tau = r.log(1e-2, 1e3);
        c.t = match r.int(0, 4) {
            0 => 0.0,
            1 => c.tau * r.int(-8, 8) as f64 / 4.0,
            2 => -r.log(1e-3, 1e4),
            _ => r.range(-30.0, 30.0),
        };
        for x in c.j.iter_mut() {
            *x = [0.0; 3];
        }
        for x in c.h.iter_mut() {
            *x = [0.0; 3];
        }
        let edge = i % 3 == 2;
        let d = c.drive_at(c.t);
        let tol = 1e-13 + 2.0 * phase_err(&c);
        m.case(hash_f(&[c.t, c.tau, d[0], d[1], c.s as f64]), norm(d) > 0.0);
        m.sample(|| format!("drive {:?} tau={} t={} ssize={}/{}: {:?}", c.drive, c.tau, c.t, c.s, c.l, d));
        // The energy of a single component of a single spin is the drive
        if edge {
            rand::verif_seed(r.u64());
            let mut sc = c.real_langevin(0.0, 0.0, 1.0);
            for i in 0..c.l {
                for k in 0..3 {
                    let mut dirs = vec![[0.0; 3]; c.l];
                    dirs[i][k] = 1.0;
                    put(&mut sc.spins, &dirs);
                    let want = if i < c.s { d[k] } else { 0.0 };
                    for (name, e) in &[("total_energy", sc.total_energy()), ("total_energy2", sc.total_energy2())] {
                        m.bound("drive in the edge-coupled energies", (e * c.l as f64 - want).abs(), tol, || format!("{}: site {} component {} {} gives {} want {}", c.show(), i, k, name, e * c.l as f64, want));
                    }
                    let want = if i + 1 < c.s { d[k] } else { 0.0 };
                    let e = sc.system_energy() * (c.s - 1) as f64;
                    m.bound("drive in the edge-coupled subsystem energy", (e - want).abs(), tol, || format!("{}: site {} component {} gives {} want {}", c.show(), i, k, e, want));
                }
            }
        } else {
            let mut sc = c.real();
            for i in 0..c.l {
                for k in 0..3 {
                    let mut dirs = vec![[0.0; 3]; c.l];
                    dirs[i][k] = 1.0;
                    put(&mut sc.spins, &dirs);
                    let want = if i < c.s { d[k] } else { 0.0 };
                    for (name, e) in &[("total_energy", sc.total_energy()), ("total_energy2", sc.total_energy2())] {
                        m.bound("drive in the energies", (e * c.l as f64 - want).abs(), tol, || format!("{}: site {} component {} {} gives {} want {}", c.show(), i, k, name, e * c.l as f64, want));
                    }
                    let want = if i + 1 < c.s { d[k] } else { 0.0 };
                    let e = sc.system_energy() * (c.s - 1) as f64;
                    m.bound("drive in the subsystem energy", (e - want).abs(), tol, || format!("{}: site {} component {} gives {} want {}", c.show(), i, k, e, want));
                    m.bound("no drive in the Monte Carlo energies", sc.mc_total_energy().abs() + sc.mc_system_energy().abs(), 1e-300, || c.show());
                }
            }
        }
    });
    // The field in the equations of motion: one small step of decoupled spins
    let n = m.n(100_000);
    m.par("C07/step", n, |m, r, i| {
        let mut c = Chain::random(r, 2, 10);
        c.drive = random_drive(r);
        c.tau = r.log(0.1, 100.0);
        c.t = if r.one_in(3) { -r.range(0.0, 50.0) } else { r.range(-50.0, 50.0) };
        c.dt = 1e-6 * c.tau.min(1.0);
        for x in c.j.iter_mut() {
            *x = [0.0; 3];
        }
        for x in c.h.iter_mut() {
            *x = [0.0; 3];
        }
        let no_field = i % 3 == 1;
        let mut sc = c.real();
        // With no neighbours each spin rotates about its own field only: two directions fix it
        let mut meas = vec![[0.0; 3]; c.l];
        let mut count = vec![0.0; c.l];
        for axis in 0..3 {
            let mut e = [0.0; 3];
            e[axis] = 1.0;
            put(&mut sc.spins, &vec![e; c.l]);
            sc.t = c.t;
            if no_field {
                // the static field is dropped, the drive is not
                for h in sc.static_h.iter_mut() {
                    *h = [3.0, -2.0, 1.0];
                }
                sc.update_no_field();
            } else {
                sc.update();
            }
            for k in 0..c.l {
                // S' = S + dt S x W with W = -B, so S' - S = dt B x S
                let d = scale(sub(sc.spins[k].dir, e), 1.0 / c.dt);
                // e x (B x e) = B - e (B.e)
                meas[k] = add(meas[k], cross(e, d));
                count[k] += 1.0;
            }
        }
        let d = c.drive_at(c.t + 0.5 * c.dt);
        let amp = match c.drive { Drive::Ell(e) => 1.0 + e.abs(), _ => 1.0 };
        let tol = 1e-8 + 1e-9 / c.dt.min(1.0) * 1e-6 + 10.0 * c.dt * (1.0 + 2.0 * PI / c.tau) * amp * (1.0 + norm(d)).powi(2) + phase_err(&c);
        m.case(hash_f(&[c.t, c.tau, d[0], d[1], c.s as f64]), norm(d) > 0.0);
        for k in 0..c.l {
            let got = scale(meas[k], 0.5);
            let want = if k < c.s { d } else { [0.0; 3] };
            m.bound("drive in the equations of motion", dist(got, want), tol, || format!("{} site {}: field {:?} want {:?} no_field={}", c.show(), k, got, want, no_field));
        }
    });
}

pub fn c25(m: &mut Mon) {
    let n = m.n(60_000);
    m.par("C25/dft", n, |m, r, i| {
        let l = match i % 40 {
            0 => r.int(100, 700) as usize,
            1 => *r.pick(&[1, 2, 3, 4, 64, 128, 97, 101, 512, 511]),
            _ => r.int(1, 40) as usize,
        };
        let mut c = Config::default();
        c.hsize = l as i32;
        c.ssize = (l as i32).min(2);
        c.log = false;
        let mut sc = SpinChain::new(c, 0);
        let kind = r.int(0, 5);
        let n0 = r.int(0, l as i64 - 1) as f64;
        let p0 = r.range(0.0, 6.0);
        let dirs: Vec<V3> = (0..l)
            .map(|x| match kind {
                // one mode only
                0 => {
                    let p = 2.0 * PI * n0 * x as f64 / l as f64 + p0;
                    [p.cos(), p.sin(), 0.0]
                }
                // lengths other than one
                1 => scale(r.unit(), r.range(0.1, 3.0)),
                // uniform
                2 => [0.6, 0.0, -0.8],
                _ => r.unit(),
            })
            .collect();
        put(&mut sc.spins, &dirs);
        let got = sc.energy_spectrum();
        let show = || format!("l={} kind={} n0={} spins[..]={:?} spectrum={:?}", l, kind, n0, &dirs[..l.min(4)], &got[..got.len().min(8)]);
        m.case(hash_f(&[l as f64, dirs[0][0], dirs[l - 1][1]]), l > 1);
        m.sample(show);
        if !m.require("one entry per wavenumber", got.len() == l, show) {
            return;
        }
        let total: f64 = dirs.iter().map(|d| dot(*d, *d)).sum();
        for (row, g) in got.iter().enumerate() {
            let k = 2.0 * PI * (row as i64 - (l / 2) as i64) as f64 / l as f64;
            let mut want = 0.0;
            for a in 0..3 {
                let (mut re, mut im) = (0.0, 0.0);
                for (x, d) in dirs.iter().enumerate() {
                    re += d[a] * (k * x as f64).cos();
                    im += d[a] * (k * x as f64).sin();
                }
                want += re * re + im * im;
            }
            m.bound("power at the wavenumber", (g - want).abs(), 1e-12 * total * l as f64 + 1e-12, || format!("row {} k={} got {} want {}: {}", row, k, g, want, show()));
            m.require("not negative", *g >= 0.0, show);
        }
        m.bound("sum rule", (got.iter().sum::<f64>() - l as f64 * total).abs(), 1e-12 * total * l as f64, show);
        m.bound("observing changes nothing", max_dist(&get(&sc.spins), &dirs), 1e-300, show);
    });
}
