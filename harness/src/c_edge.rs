//! Monitors of the edge-coupled chain (C14, C15, C16)
use crate::c_mc::langevin_fn;
use crate::model::*;
use crate::util::*;
use sc::spinchain_langevin::SpinChainLangevin;

/// No noise at this inverse temperature
const COLD: f64 = 1e300;

/// Puts a chain under test into a state
fn load(sc: &mut SpinChainLangevin, c: &Chain) {
    put(&mut sc.spins, &c.spins);
    sc.t = c.t;
}

fn couplings(r: &mut Rng) -> (f64, f64) {
    (*r.pick(&[0.0, 0.3, 1.0]), r.range(-1.5, 2.0))
}

pub fn c14(m: &mut Mon) {
    let cases = m.n(30000);
    m.par("open equations", cases, |m, r, i| {
        let mut c = match i % 600 {
            599 => Chain::random(r, 250, 600),
            x if x % 40 == 39 => Chain::random(r, 15, 40),
            _ => Chain::random(r, 2, 9),
        };
        c.beta = COLD;
        c.tau = if r.one_in(10) { r.log(20.0, 1e4) } else { r.log(1.0, 20.0) };
        if r.one_in(10) {
            c.t = r.sign() * r.log(50.0, 50000.0);
        }
        let gamma = match r.int(0, 3) {
            0 => 0.0,
            1 => r.log(0.01, 0.3),
            _ => r.log(0.3, 3.0),
        };
        let (jvar, lambda) = couplings(r);
        let mut sc = c.real_langevin(gamma, jvar, lambda);
        let span = r.range(0.2, 0.8);
        let mut reference = c.clone();
        reference.integrate(span, 1500, &Eom::Open { gamma });
        let mut err = |n: usize| -> f64 {
            load(&mut sc, &c);
            sc.vars.dt = span / n as f64;
            for _ in 0..n {
                sc.update();
            }
            max_dist(&get(&sc.spins), &reference.spins)
        };
        // At least first order. Two orders of the error may cancel at one step size, not at two
        let mut ok = false;
        let mut seen = vec![];
        for n in [250usize, 2000] {
            let (e1, e4) = (err(n), err(4 * n));
            seen.push((n, e1, e4));
            if e4 <= e1 / 2.8 + 3e-10 + 1e-13 * (c.t.abs() + 1.0) / c.tau && e4 < 0.05 {
                ok = true;
                break;
            }
        }
        m.require("converges to the documented equations", ok, || format!("(steps, error, error at 4x the steps) {:?} gamma={}: {}", seen, gamma, c.show()));
        m.case(c.key(), true);
        m.sample(|| format!("gamma {} span {}: {}", gamma, span, c.show()));
    });
    // At steps as large as those of real runs
    let cases = m.n(6000);
    m.par("coarse", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 7);
        c.beta = COLD;
        c.tau = r.log(4.0, 100.0);
        for x in c.h.iter_mut() {
            *x = scale(*x, 1.0 / norm(*x).max(1.0));
        }
        if let Drive::Static(v) = &mut c.drive {
            *v = scale(*v, 1.0 / norm(*v).max(1.0));
        }
        let gamma = if r.bool() { 0.0 } else { r.log(0.01, 1.5) };
        let mut sc = c.real_langevin(gamma, 0.1, r.clone().range(-1.0, 1.5));
        let dt = r.log(0.005, 0.1);
        let n = (r.range(0.5, 2.0) / dt).ceil() as usize;
        let span = dt * n as f64;
        let mut reference = c.clone();
        reference.integrate(span, 2500, &Eom::Open { gamma });
        load(&mut sc, &c);
        sc.vars.dt = dt;
        for _ in 0..n {
            sc.update();
        }
        m.bound("closeness at large steps", max_dist(&get(&sc.spins), &reference.spins), 5.0 * span * dt * (1.0 + gamma), || format!("{} steps of {} gamma {}: {}", n, dt, gamma, c.show()));
        m.case(c.key(), true);
    });
    let cases = m.n(3000);
    m.par("energy", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 10);
        c.beta = COLD;
        c.drive = if r.bool() { Drive::None } else { Drive::Static([r.normal(), r.normal(), r.normal()]) };
        c.dt = 1e-3;
        let gamma = r.log(0.02, 2.0);
        let (jvar, lambda) = couplings(r);
        let mut sc = c.real_langevin(gamma, jvar, lambda);
        let start = c.clone();
        let mut e = c.e_open();
        let e0 = e;
        let tol = 1e-13 * c.e_scale();
        for k in 0..2000 {
            sc.update();
            c.spins = get(&sc.spins);
            let f = c.e_open();
            if !m.bound("undriven energy never increases", f - e, tol, || format!("step {} gamma {}: {}", k, gamma, start.show())) {
                break;
            }
            e = f;
        }
        // edge spins out of equilibrium lose energy
        let w: f64 = [0, c.l - 1].iter().map(|&i| { let x = cross(start.spins[i], start.omega_open(&start.spins, i, start.t)); dot(x, x) }).sum();
        if w > 0.1 {
            m.require("damping removes energy", e < e0 - 1e-4 * gamma, || format!("{} to {} gamma {}: {}", e0, e, gamma, start.show()));
        }
        m.case(start.key(), true);
    });
    let cases = m.n(200);
    m.par("relaxation", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 5);
        c.beta = COLD;
        c.drive = Drive::None;
        c.dt = 0.01;
        let h = scale(r.unit(), r.range(0.2, 1.5));
        c.h = vec![h; c.l];
        let gamma = r.range(0.4, 1.5);
        let mut sc = c.real_langevin(gamma, 0.0, 1.0);
        for _ in 0..60_000 {
            sc.update();
        }
        let start = c.clone();
        c.spins = get(&sc.spins);
        let min = -((c.l - 1) as f64) - norm(h) * c.l as f64;
        m.bound("relaxes to the minimum", c.e_open() - min, 0.02, || format!("energy {} minimum {} gamma {}: {}", c.e_open(), min, gamma, start.show()));
        m.case(start.key(), true);
    });
}

/// Rotation vector of the proper rotation taking x, y to a, b
fn rotation(a: V3, b: V3) -> V3 {
    let z = cross(a, b);
    // columns a, b, z
    let tr = a[0] + b[1] + z[2];
    let angle = ((tr - 1.0) / 2.0).clamp(-1.0, 1.0).acos();
    let v = [b[2] - z[1], z[0] - a[2], a[1] - b[0]];
    let n = norm(v);
    if n < 1e-300 {
        return [0.0; 3];
    }
    scale(v, angle / n)
}

pub fn c15(m: &mut Mon) {
    // The noise of one step, isolated: dt is so small that nothing else moves
    let groups = m.n(64);
    let per: usize = 40000;
    m.par("one step", groups, |m, r, g| {
        let mut c = Chain::random(r, 2, 7);
        c.l = 2 + g % 6;
        c.s = if r.bool() { c.l } else { 2 };
        c.spins = (0..c.l).map(|_| r.unit()).collect();
        c.h = (0..c.l).map(|_| [r.normal(), r.normal(), r.normal()]).collect();
        c.drive = random_drive(r);
        if r.bool() {
            c.t = 0.0;
        }
        let gamma = r.log(0.01, 50.0);
        let sigma = r.log(0.03, 0.3);
        let dt = r.log(1e-11, 1e-9);
        c.dt = dt;
        c.beta = 2.0 * gamma * dt / (sigma * sigma);
        let mut sc = c.real_langevin(gamma, 0.2, 1.0);
        let show = c.show();
        let (mut us, mut lens) = (vec![vec![]; 6], vec![vec![]; 2]);
        let tol = 100.0 * dt * (1.0 + gamma) * c.e_scale();
        for _ in 0..per {
            let seed = r.u64();
            let mut end = [[[0.0; 3]; 2]; 2];
            let mut d = c.clone();
            for q in 0..c.l {
                d.spins[q] = r.unit();
            }
            for k in 0..2 {
                let mut e = [0.0; 3];
                e[k] = 1.0;
                d.spins[0] = e;
                d.spins[c.l - 1] = e;
                load(&mut sc, &d);
                sc.vars.beta = c.beta;
                rand::verif_seed(seed);
                sc.update();
                let now = get(&sc.spins);
                end[0][k] = now[0];
                end[1][k] = now[c.l - 1];
                for q in 1..c.l - 1 {
                    m.bound("only the ends feel the noise", dist(now[q], d.spins[q]), tol, || {
                        format!("site {} moved, gamma {} sigma {}: {}", q, gamma, sigma, show)
                    });
                }
            }
            for e in 0..2 {
                m.bound("the noise turns every state alike", dot(end[e][0], end[e][1]).abs(), 2.0 * tol + 1e-12, || format!("gamma {} sigma {}: {}", gamma, sigma, show));
                let v = rotation(end[e][0], end[e][1]);
                for k in 0..3 {
                    us[3 * e + k].push(phi(v[k] / sigma));
                }
                lens[e].push(norm(v));
            }
            m.case(seed, true);
        }
        let show = || format!("gamma {} sigma {} ({} steps): {}", gamma, sigma, per, show);
        for a in 0..6 {
            m.bound("noise is gaussian with variance 2 gamma dt/beta", ks_uniform(&us[a]), ks_bound(per), || format!("end {} component {} {}", a / 3, a % 3, show()));
            let mean = us[a].iter().sum::<f64>() / per as f64;
            m.bound("noise has zero mean", (mean - 0.5).abs() * (12.0 * per as f64).sqrt(), Z, || format!("end {} component {} {}", a / 3, a % 3, show()));
            for b in 0..a {
                m.bound("components and ends are independent", corr_z(&us[a], &us[b]).abs(), Z, || format!("components {} and {} {}", a, b, show()));
                let (x, y): (Vec<f64>, Vec<f64>) = (us[a].iter().map(|u| (u - 0.5).abs()).collect(), us[b].iter().map(|u| (u - 0.5).abs()).collect());
                m.bound("components and ends are independent (sizes)", corr_z(&x, &y).abs(), Z, || format!("components {} and {} {}", a, b, show()));
            }
        }
        // variance: sum of squares over sigma^2 is chi-squared with 3 n degrees of freedom
        for e in 0..2 {
            let s: f64 = lens[e].iter().map(|x| x * x / (sigma * sigma)).sum();
            let k = 3.0 * per as f64;
            m.bound("variance of the noise", ((s - k) / (2.0 * k).sqrt()).abs(), 7.0, || format!("end {}: mean square {} of 3, {}", e, s / per as f64, show()));
        }
    });
    // Fresh at each step
    let runs = m.n(64);
    m.par("successive steps", runs, |m, r, i| {
        let mut c = Chain::random(r, 2, 6);
        c.l = 2 + i % 5;
        c.s = 2;
        c.h = vec![[0.0; 3]; c.l];
        c.spins = vec![[1.0, 0.0, 0.0]; c.l];
        c.drive = Drive::None;
        c.dt = 1e-10;
        let gamma = r.log(0.1, 10.0);
        let sigma: f64 = 0.05;
        c.beta = 2.0 * gamma * c.dt / (sigma * sigma);
        let mut sc = c.real_langevin(gamma, 0.0, 1.0);
        rand::verif_seed(r.u64());
        let n = 20000;
        let mut x = vec![vec![]; 4];
        for _ in 0..n {
            load(&mut sc, &c);
            sc.update();
            for (k, s) in [0, c.l - 1].iter().enumerate() {
                x[2 * k].push(sc.spins[*s].dir[1]);
                x[2 * k + 1].push(sc.spins[*s].dir[2]);
            }
        }
        for a in 0..4 {
            for b in 0..4 {
                for lag in [1, 2, 3] {
                    m.bound("noise is fresh at each step", corr_z(&x[a][lag..], &x[b][..n - lag]).abs(), Z, || format!("components {} {} lag {}", a, b, lag));
                }
            }
            let u: Vec<f64> = x[a].iter().map(|y| phi(y / sigma)).collect();
            m.bound("noise has the variance in a free run", ks_uniform(&u), ks_bound(n) + 1e-3, || format!("component {} gamma {}", a, gamma));
        }
        m.evals += n as u64;
    });
    // Long undriven runs end up in the Boltzmann distribution
    let runs = m.n(160);
    let blocks = 40;
    let per: usize = 120_000;
    m.par("boltzmann", runs, |m, r, i| {
        let kind = i % 3;
        let mut c = Chain::random(r, 2, 4);
        c.drive = Drive::None;
        c.l = r.int(2, 5) as usize;
        c.s = c.l;
        c.dt = 0.01;
        c.beta = *r.pick(&[0.5, 1.0, 2.0]);
        let gamma = r.range(0.5, 1.5);
        c.spins = (0..c.l).map(|k| if r.bool() { r.unit() } else { [0.0, 0.0, if k % 2 == 0 { 1.0 } else { -1.0 }] }).collect();
        c.h = (0..c.l).map(|_| if kind == 0 { [0.0; 3] } else { scale(r.unit(), r.range(0.3, 1.2)) }).collect();
        let mut sc = c.real_langevin(gamma, if kind == 2 { 0.4 } else { 0.0 }, 1.0);
        let start = c.clone();
        rand::verif_seed(r.u64());
        for _ in 0..20_000 {
            sc.update();
        }
        let mut sums = vec![vec![]; 2 * c.l];
        for _ in 0..blocks {
            let mut s = vec![0.0; 2 * c.l];
            let every = 20;
            let times = per / every;
            for _ in 0..times {
                for _ in 0..every {
                    sc.update();
                }
                c.spins = get(&sc.spins);
                for k in 0..c.l {
                    let w = c.omega_open(&c.spins, k, 0.0);
                    let p = cross(c.spins[k], w);
                    s[k] += 2.0 * dot(c.spins[k], w) - c.beta * dot(p, p);
                    if k + 1 < c.l {
                        s[c.l + k] += dot(c.spins[k], c.spins[k + 1]);
                    }
                }
            }
            for k in 0..2 * c.l {
                sums[k].push(s[k] / times as f64);
            }
        }
        m.evals += (blocks * per) as u64;
        m.distinct.insert(start.key());
        let show = || format!("gamma {}: {}", gamma, start.show());
        for k in 0..c.l {
            let (mean, se) = mean_se(&sums[k]);
            m.bound("temperature identity at every site", mean.abs(), 9.5 * se + 6.0 * c.dt, || format!("site {}: {} +- {}: {}", k, mean, se, show()));
            if kind == 0 && k + 1 < c.l {
                let (mean, se) = mean_se(&sums[c.l + k]);
                let want = langevin_fn(c.beta);
                m.bound("exact correlation of the open isotropic chain", (mean - want).abs(), 9.5 * se + 2.0 * c.dt, || {
                    format!("bond {}: {} +- {} exact {}: {}", k, mean, se, want, show())
                });
            }
        }
        m.sample(|| show());
    });
}

/// Deterministic and heating part of the reported flow
fn flow(c: &Chain, gamma: f64) -> (f64, f64) {
    let last = c.l - 1;
    let (w1, wl) = (c.omega_open(&c.spins, 0, c.t), c.omega_open(&c.spins, last, c.t));
    let (p1, pl) = (cross(c.spins[0], w1), cross(c.spins[last], wl));
    let work = dot(c.drive_rate(c.t), c.m());
    let damping = gamma * (dot(p1, p1) + dot(pl, pl));
    let heat = 2.0 * gamma * (dot(c.spins[0], w1) + dot(c.spins[last], wl));
    (work - damping, heat)
}

fn full(r: &mut Rng, lmax: usize) -> Chain {
    let mut c = Chain::random(r, 2, lmax);
    c.s = c.l;
    c
}

pub fn c16(m: &mut Mon) {
    let cases = m.n(300000);
    m.par("formula", cases, |m, r, i| {
        let mut c = full(r, if i % 2000 == 1999 { 600 } else { 10 });
        if r.one_in(6) {
            for x in c.spins.iter_mut() {
                *x = r.odd_unit();
            }
        }
        c.beta = r.log(1e-3, 1e4);
        let gamma = if r.one_in(5) { 0.0 } else { r.log(1e-3, 1e3) };
        let (jvar, lambda) = couplings(r);
        let sc = c.real_langevin(gamma, jvar, lambda);
        let (det, heat) = flow(&c, gamma);
        let want = det + heat / c.beta;
        let tol = 1e-12 * (1.0 + gamma * (1.0 + 1.0 / c.beta) * c.e_scale() * c.e_scale() + c.e_scale() / c.tau);
        m.bound("reported flow is the documented rate", (sc.boundary_term() - want).abs(), tol, || {
            format!("reported {} expected {} gamma {}: {}", sc.boundary_term(), want, gamma, c.show())
        });
        m.case(c.key(), true);
        m.sample(|| format!("gamma {}: {}", gamma, c.show()));
    });
    // The same for the chain with a bath of spins: that of its subsystem at unit damping, undriven
    let cases = m.n(60000);
    m.par("subsystem", cases, |m, r, i| {
        let mut c = Chain::random(r, 2, if i % 1000 == 999 { 900 } else { 10 });
        c.drive = Drive::None;
        c.beta = r.log(1e-3, 1e4);
        if r.one_in(6) {
            for x in c.spins.iter_mut() {
                *x = r.odd_unit();
            }
        }
        let sc = c.real();
        let mut sub = c.clone();
        sub.l = c.s;
        sub.j.truncate(c.s);
        sub.h.truncate(c.s);
        sub.spins.truncate(c.s);
        let (det, heat) = flow(&sub, 1.0);
        let want = det + heat / c.beta;
        let tol = 1e-12 * (1.0 + (1.0 + 1.0 / c.beta) * c.e_scale() * c.e_scale());
        m.bound("flow reported for an undriven subsystem of a ring", (sc.boundary_term() - want).abs(), tol, || {
            format!("reported {} expected {}: {}", sc.boundary_term(), want, c.show())
        });
        m.case(c.key(), true);
    });
    // Against what the chain really does: without noise
    let cases = m.n(40000);
    m.par("rate", cases, |m, r, _| {
        let mut c = full(r, 8);
        c.beta = COLD;
        c.tau = r.log(1.0, 20.0);
        c.t = r.range(-5.0, 5.0);
        let gamma = r.log(0.01, 3.0);
        let (jvar, lambda) = couplings(r);
        let mut sc = c.real_langevin(gamma, jvar, lambda);
        let reported = sc.boundary_term();
        let e0 = c.e_open();
        let mut rate = |dt: f64| -> f64 {
            load(&mut sc, &c);
            sc.vars.dt = dt;
            sc.update();
            let mut d = c.clone();
            d.spins = get(&sc.spins);
            d.t = sc.t;
            (d.e_open() - e0) / dt
        };
        let (a, b) = (rate(2e-5), rate(1e-5));
        let seen = 2.0 * b - a;
        let tol = 1e-6 * (1.0 + gamma) * (1.0 + gamma) * c.e_scale() * c.e_scale();
        m.bound("noiseless steps change the energy at the reported rate", (seen - reported).abs(), tol, || {
            format!("energy changes at {} but {} is reported, gamma {}: {}", seen, reported, gamma, c.show())
        });
        m.case(c.key(), true);
    });
    // The bath: end spins along their precession field are not damped, so all that noise does is heat
    let cases = m.n(256);
    let per: usize = 200000;
    m.par("bath", cases, |m, r, _| {
        let mut c = full(r, 6);
        c.l = c.l.max(4);
        c.s = c.l;
        let l = c.l;
        c.j = vec![[1.0; 3]; l];
        c.h = (0..l).map(|_| [r.normal(), r.normal(), r.normal()]).collect();
        c.spins = (0..l).map(|_| r.unit()).collect();
        c.drive = if r.bool() { Drive::None } else { Drive::Static([r.normal(), 0.3, -0.4]) };
        let gamma = r.log(0.1, 10.0);
        let sigma: f64 = 0.03;
        c.dt = 1e-10;
        c.beta = 2.0 * gamma * c.dt / (sigma * sigma);
        let mut sc = c.real_langevin(gamma, 0.0, 1.0);
        for i in [0, l - 1] {
            c.spins[i] = scale(normalise(c.omega_open(&c.spins, i, c.t)), r.sign());
        }
        load(&mut sc, &c);
        let reported = sc.boundary_term() * c.dt;
        let e0 = c.e_open();
        rand::verif_seed(r.u64());
        let mut xs = vec![];
        for _ in 0..per {
            load(&mut sc, &c);
            sc.update();
            let mut d = c.clone();
            d.spins = get(&sc.spins);
            xs.push(d.e_open() - e0);
        }
        let (mean, se) = mean_se(&xs);
        m.bound("the bath heats at the reported rate", (mean - reported).abs(), 7.0 * se + 3e-3 * sigma * sigma * c.e_scale(), || {
            format!("energy changes by {} +- {} per step, reported {}, gamma {}: {}", mean, se, reported, gamma, c.show())
        });
        m.evals += per as u64;
        m.distinct.insert(c.key());
    });
}
