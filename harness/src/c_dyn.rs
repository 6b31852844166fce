//! Monitors of the time evolution of the isolated chain (C08, C09, C10)
use crate::model::*;
use crate::util::*;
use std::f64::consts::PI;

/// State of the chain under test after n steps of span/n
fn evolve(c: &Chain, span: f64, n: usize, static_on: bool) -> (Vec<V3>, f64) {
    let mut x = c.clone();
    x.dt = span / n as f64;
    let mut sc = x.real();
    for _ in 0..n {
        if static_on {
            sc.update();
        } else {
            sc.update_no_field();
        }
    }
    (get(&sc.spins), sc.t)
}

/// Error against the reference at n and 4n steps: second order means a ratio of 16
pub fn order<F: Fn(usize) -> Vec<V3>>(m: &mut Mon, what: &str, reference: &[V3], n: usize, floor: f64, f: F, show: &str) {
    let e1 = max_dist(&f(n), reference);
    let e4 = max_dist(&f(4 * n), reference);
    m.bound(what, e4, e1 / 12.0 + floor, || {
        format!("largest distance to the solution {:e} with {} steps, {:e} with {} steps: {}", e1, n, e4, 4 * n, show)
    });
    m.bound(&format!("{}: closeness", what), e4, 0.05, || {
        format!("largest distance to the solution {:e} with {} steps: {}", e4, 4 * n, show)
    });
}

pub fn c08(m: &mut Mon) {
    // Convergence to the reference solution
    let cases = m.n(60000);
    m.par("order", cases, |m, r, i| {
        let mut c = match i % 500 {
            499 => Chain::random(r, 250, 700),
            x if x % 40 == 39 => Chain::random(r, 20, 90),
            _ => Chain::random(r, 2, 11),
        };
        if r.one_in(10) {
            c.t = r.sign() * r.log(50.0, 50000.0);
        }
        if r.one_in(10) {
            c.tau = r.log(20.0, 1e4);
        }
        let static_on = !r.one_in(3);
        let span = r.range(0.3, 1.0);
        let mut reference = c.clone();
        reference.integrate(span, 1500, &Eom::Ring { static_on });
        let what = if static_on { "update converges as dt^2" } else { "update_no_field converges as dt^2" };
        // Rounding of the time matters far from t = 0
        let floor = 3e-10 + 1e-13 * (c.t.abs() + 1.0) / c.tau;
        order(m, what, &reference.spins, 200, floor, |n| evolve(&c, span, n, static_on).0, &c.show());
        m.case(c.key(), true);
        m.sample(|| format!("span {} static field {}: {}", span, static_on, c.show()));
    });
    // Longer histories: the clock, and agreement at small steps
    let cases = m.n(1500);
    m.par("history", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 8);
        for x in c.j.iter_mut().chain(c.h.iter_mut()) {
            *x = scale(*x, 0.5);
        }
        c.tau = r.range(2.0, 12.0);
        c.t = -r.range(0.0, 6.0);
        let static_on = r.bool();
        let span = r.range(6.0, 12.0);
        let mut reference = c.clone();
        reference.integrate(span, 6000, &Eom::Ring { static_on });
        let what = "long evolution converges as dt^2";
        order(m, what, &reference.spins, 4000, 1e-8, |n| evolve(&c, span, n, static_on).0, &c.show());
        m.case(c.key(), true);
    });
    // At steps as large as those of real runs: a bound on what the second order leaves
    let cases = m.n(12000);
    m.par("coarse", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 7);
        for x in c.j.iter_mut().chain(c.h.iter_mut()) {
            *x = scale(*x, 1.0 / norm(*x).max(1.0));
        }
        if let Drive::Static(v) = &mut c.drive {
            *v = scale(*v, 1.0 / norm(*v).max(1.0));
        }
        c.tau = r.log(4.0, 100.0);
        let static_on = !r.one_in(3);
        let dt = r.log(0.005, 0.12);
        let n = (r.range(0.5, 3.0) / dt).ceil() as usize;
        let span = dt * n as f64;
        let mut reference = c.clone();
        reference.integrate(span, 3000, &Eom::Ring { static_on });
        let e = |k: usize| max_dist(&evolve(&c, span, k, static_on).0, &reference.spins);
        let (e1, e4) = (e(n), e(4 * n));
        let left = span * dt.powi(4);
        m.bound("second order at large steps", (e4 - e1 / 9.0).max(0.0), 8.0 * left + 1e-9, || format!("distance {:e} with {} steps, {:e} with {}: {}", e1, n, e4, 4 * n, c.show()));
        m.bound("closeness at large steps", e1, 8.0 * span * dt * dt, || format!("distance {:e} with {} steps over {}: {}", e1, n, span, c.show()));
        m.case(c.key(), true);
    });
    let cases = m.n(4000);
    m.par("clock", cases, |m, r, i| {
        let mut c = Chain::random(r, 2, 5);
        c.dt = *r.pick(&[0.02, 0.1, 0.25, 1.0 / 3.0, 1e-3, 7.0, -0.02]);
        let n = if i % 400 == 0 { r.int(60_000, 200_000) } else { r.int(1, 2000) };
        let span = c.dt * n as f64;
        let (_, t) = evolve(&c, span, n as usize, r.bool());
        let want = c.t + span;
        m.bound("clock advances by n dt", (t - want).abs(), 1e-15 * n as f64 * (c.t.abs() + want.abs() + 1.0), || {
            format!("t = {} after {} steps of {} from {}", t, n, c.dt, c.t)
        });
        m.case(hash_f(&[c.t, c.dt, n as f64]), true);
    });
    // Nothing but spins and clock changes
    m.par("frame", 500, |m, r, _| {
        let c = Chain::random(r, 2, 9);
        let mut sc = c.real();
        sc.update();
        sc.update_no_field();
        m.require("couplings and fields stay", sc.j_couple == c.j && sc.static_h == c.h && sc.spins.len() == c.l, || c.show());
    });
}

fn any_size(r: &mut Rng, i: usize) -> Chain {
    match i % 1000 {
        499 => Chain::random(r, 250, 1100),
        x if x % 100 == 99 => Chain::random(r, 20, 130),
        _ => Chain::random(r, 2, 12),
    }
}

fn static_drive(r: &mut Rng) -> Drive {
    if r.bool() {
        Drive::None
    } else {
        Drive::Static([r.normal(), r.normal(), r.normal()])
    }
}

pub fn c09(m: &mut Mon) {
    let cases = m.n(40000);
    m.par("energy", cases, |m, r, i| {
        let mut c = match i % 500 {
            499 => Chain::random(r, 250, 1100),
            x if x % 50 == 49 => Chain::random(r, 30, 130),
            _ => Chain::random(r, 2, 12),
        };
        c.drive = static_drive(r);
        if r.one_in(8) {
            for x in c.spins.iter_mut() {
                *x = r.odd_unit();
            }
        }
        if r.one_in(10) {
            for x in c.j.iter_mut() {
                *x = scale(*x, 30.0);
            }
        }
        c.dt = r.sign() * r.log(1e-4, 1e4);
        let steps = if r.one_in(20) && c.l < 200 { 5000 } else { r.int(1, 300) as usize };
        let kind = r.int(0, 3);
        let start = c.clone();
        let (energy0, scale0);
        let mut after = c.clone();
        if kind == 3 {
            let lambda = r.range(-1.0, 2.0);
            let mut sc = c.real_langevin(0.0, r.range(0.0, 1.0), lambda);
            energy0 = c.e_open();
            scale0 = c.e_scale();
            for _ in 0..steps {
                sc.update();
            }
            after.j = c.j.clone();
            after.spins = get(&sc.spins);
            m.bound("energy of the open chain at zero damping", (after.e_open() - energy0).abs(), 4e-15 * scale0 * (steps as f64 + 10.0), || {
                format!("{} steps: {}", steps, c.show())
            });
        } else {
            let mut sc = c.real();
            scale0 = c.e_scale();
            if kind == 2 {
                // The static field is absent: so it is from the conserved energy
                energy0 = { let mut x = c.clone(); x.h = vec![[0.0; 3]; c.l]; x.e_total() };
                for _ in 0..steps {
                    sc.update_no_field();
                }
                after.h = vec![[0.0; 3]; c.l];
            } else {
                energy0 = c.e_total();
                let reported = sc.total_energy2();
                for _ in 0..steps {
                    sc.update();
                }
                m.bound("reported energy", (sc.total_energy2() - reported).abs() * c.l as f64, 4e-15 * scale0 * (steps as f64 + 10.0), || {
                    format!("{} steps: {}", steps, start.show())
                });
            }
            after.spins = get(&sc.spins);
            m.bound("energy of the ring", (after.e_total() - energy0).abs(), 4e-15 * scale0 * (steps as f64 + 10.0), || {
                format!("{} steps (kind {}): {}", steps, kind, start.show())
            });
        }
        for s in &after.spins {
            m.bound("unit spins", (norm(*s) - 1.0).abs(), 4e-15, || format!("{:?} after {} steps: {}", s, steps, start.show()));
        }
        m.case(start.key(), true);
        m.sample(|| format!("{} steps, kind {}: {}", steps, kind, start.show()));
    });
    // Also under a drive, and with damping and noise, spins stay unit vectors
    let cases = m.n(6000);
    m.par("length", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 9);
        c.dt = r.log(1e-4, 1e3);
        let open = r.bool();
        let spins = if open {
            let mut sc = c.real_langevin(r.log(1e-3, 1e3), 0.1, 1.0);
            for _ in 0..200 {
                sc.update();
            }
            get(&sc.spins)
        } else {
            let mut sc = c.real();
            for _ in 0..200 {
                sc.update();
            }
            get(&sc.spins)
        };
        for s in &spins {
            m.bound("unit spins under any drive, damping and noise", (norm(*s) - 1.0).abs(), 4e-15, || format!("{:?}: {}", s, c.show()));
        }
        m.case(c.key(), true);
    });
}

/// Rotates v about a unit axis
fn turn(v: V3, axis: V3, a: f64) -> V3 {
    precess(v, axis, -a)
}

pub fn c10(m: &mut Mon) {
    let cases = m.n(40000);
    m.par("reversal", cases, |m, r, i| {
        let mut c = any_size(r, i);
        c.dt = r.sign() * r.log(1e-3, 0.3);
        let steps = r.int(1, (4.0 / c.dt.abs()).min(300.0).max(1.0) as i64) as usize;
        let static_on = !r.one_in(4);
        let mut sc = c.real();
        for back in 0..2 {
            if back == 1 {
                sc.vars.dt = -sc.vars.dt;
            }
            for _ in 0..steps {
                if static_on {
                    sc.update();
                } else {
                    sc.update_no_field();
                }
            }
        }
        m.bound("reversal returns to the start", max_dist(&get(&sc.spins), &c.spins), 1e-7, || {
            format!("{} steps each way, static field {}: {}", steps, static_on, c.show())
        });
        m.bound("reversal returns the clock", (sc.t - c.t).abs(), 1e-12 * (c.t.abs() + 10.0), || c.show());
        m.case(c.key(), true);
        m.sample(|| format!("reversal {} steps: {}", steps, c.show()));
    });
    let cases = m.n(40000);
    m.par("relabelling", cases, |m, r, i| {
        let mut c = any_size(r, i / 2);
        let even = c.l % 2 == 0;
        c.s = c.l;
        if r.bool() {
            c.drive = Drive::None;
            c.s = r.int(2, c.l as i64) as usize;
        }
        let l = c.l;
        // A relabelling of the ring: site i of the new chain is site p(i) of the old one
        let reflect = i % 2 == 0;
        let shift = if even { 2 * r.int(0, l as i64 / 2) as usize } else { r.int(0, l as i64 - 1) as usize };
        let p = |i: usize| if reflect { (2 * l - i + shift) % l } else { (i + shift) % l };
        let mut d = c.clone();
        for i in 0..l {
            d.spins[i] = c.spins[p(i)];
            d.h[i] = c.h[p(i)];
            // bond i joins new sites i and i+1
            d.j[i] = if reflect { c.j[p((i + 1) % l)] } else { c.j[p(i)] };
        }
        let run = |x: &Chain, span: f64, n: usize| evolve(x, span, n, true).0;
        let back = |v: Vec<V3>| -> Vec<V3> {
            let mut o = v.clone();
            for i in 0..l {
                o[p(i)] = v[i];
            }
            o
        };
        if even {
            let n = r.int(1, 60) as usize;
            let span = n as f64 * r.log(1e-3, 0.05);
            m.bound("relabelling that keeps even sites even commutes", max_dist(&back(run(&d, span, n)), &run(&c, span, n)), 1e-8, || {
                format!("reflection {} shift {} {} steps {}: {}", reflect, shift, n, span, c.show())
            });
        } else {
            let span = r.range(0.2, 0.6);
            let e = |n: usize| max_dist(&back(run(&d, span, n)), &run(&c, span, n));
            let (e1, e4) = (e(150), e(600));
            m.bound("relabelling commutes up to dt^2", e4, e1 / 12.0 + 3e-10, || {
                format!("distance {:e} then {:e}, reflection {} shift {}: {}", e1, e4, reflect, shift, c.show())
            });
            m.bound("relabelling commutes up to dt^2: closeness", e4, 0.05, || c.show());
        }
        m.case(d.key(), shift != 0 || reflect);
    });
    let cases = m.n(40000);
    m.par("rotation", cases, |m, r, i| {
        let mut c = any_size(r, i);
        for x in c.j.iter_mut() {
            *x = [x[0], x[0], x[0]];
        }
        let a = r.range(-PI, PI);
        let mut d;
        if r.bool() {
            // any rotation, undriven or under a constant drive
            c.drive = static_drive(r);
            let axis = r.unit();
            d = c.clone();
            for x in d.spins.iter_mut().chain(d.h.iter_mut()) {
                *x = turn(*x, axis, a);
            }
            if let Drive::Static(v) = &c.drive {
                d.drive = Drive::Static(turn(*v, axis, a));
            }
            let n = r.int(1, 60) as usize;
            let span = n as f64 * r.log(1e-3, 0.05);
            let want: Vec<V3> = evolve(&c, span, n, true).0.iter().map(|x| turn(*x, axis, a)).collect();
            m.bound("global rotation commutes", max_dist(&evolve(&d, span, n, true).0, &want), 1e-8, || {
                format!("axis {:?} angle {} {} steps {}: {}", axis, a, n, span, c.show())
            });
        } else {
            // rotating about z with the circular drive is a shift of the time
            for x in c.j.iter_mut() {
                x[2] = r.normal();
            }
            c.drive = Drive::Xy;
            let axis = [0.0, 0.0, 1.0];
            d = c.clone();
            for x in d.spins.iter_mut().chain(d.h.iter_mut()) {
                *x = turn(*x, axis, a);
            }
            d.t = c.t + a / (2.0 * PI) * c.tau;
            let n = r.int(1, 60) as usize;
            let span = n as f64 * r.log(1e-3, 0.05);
            let want: Vec<V3> = evolve(&c, span, n, true).0.iter().map(|x| turn(*x, axis, a)).collect();
            m.bound("rotation with the circular drive commutes", max_dist(&evolve(&d, span, n, true).0, &want), 1e-8, || {
                format!("angle {} {} steps {}: {}", a, n, span, c.show())
            });
        }
        m.case(d.key(), true);
    });
    let cases = m.n(40000);
    m.par("period", cases, |m, r, i| {
        let c = any_size(r, i);
        let mut d = c.clone();
        let k = r.int(-5, 5);
        d.t = c.t + k as f64 * c.tau;
        let n = r.int(1, 60) as usize;
        let span = n as f64 * r.log(1e-3, 0.05);
        let on = !r.one_in(4);
        m.bound("shift by whole periods commutes", max_dist(&evolve(&d, span, n, on).0, &evolve(&c, span, n, on).0), 1e-8, || {
            format!("{} periods {} steps {}: {}", k, n, span, c.show())
        });
        m.case(d.key(), k != 0);
    });
}
