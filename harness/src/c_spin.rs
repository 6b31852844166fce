//! C01, C02: single spins
use crate::model::*;
use crate::util::*;
use sc::spin::Spin;
use std::f64::consts::PI;

fn spin(d: V3) -> Spin {
    let mut s = Spin::new();
    s.dir = d;
    s
}

fn random_field(r: &mut Rng) -> V3 {
    let mag = match r.int(0, 7) {
        0 => 0.0,
        1 => r.log(1e-100, 1e-10),
        2 => r.log(1e-10, 1e-3),
        3 => r.log(1e3, 1e8),
        4 => r.log(1e8, 1e100),
        _ => r.log(1e-3, 1e3),
    };
    scale(r.odd_unit(), mag)
}

pub fn c01(m: &mut Mon) {
    // One rotation against the closed-form solution
    let n = m.n(8_000_000);
    m.par("C01/one", n, |m, r, _| {
        let s0 = r.odd_unit();
        let b = random_field(r);
        let bn = (b[0].hypot(b[1])).hypot(b[2]);
        // cover every scale of the angle, whatever the field
        let dt = r.sign()
            * match r.int(0, 6) {
                0 => 0.0,
                1 => r.log(1e-12, 1e-3),
                2 => r.log(1e3, 1e9),
                3 if bn > 0.0 => PI / bn * *r.pick(&[0.5, 1.0, 1.5, 2.0, 4.0]),
                4 if bn > 0.0 => r.log(1e-14, 1e-2) / bn,
                _ => r.range(0.0, 10.0),
            };
        let a = bn * dt.abs();
        let mut s = spin(s0);
        s.rotate(&b, dt);
        let show = || format!("S={:?} B={:?} t={:?} -> {:?}", s0, b, dt, s.dir);
        m.case(hash_f(&[s0[0], s0[1], s0[2], b[0], b[1], b[2], dt]), a > 0.0);
        m.sample(show);
        if !m.require("finite", finite(s.dir), show) {
            return;
        }
        m.bound("unit length", (norm(s.dir) - 1.0).abs(), 1e-14, show);
        if bn > 0.0 {
            let e = scale(b, 1.0 / bn);
            m.bound("component along the field", (dot(s.dir, e) - dot(s0, e)).abs(), 1e-14, show);
        }
        // A rounding error in |B| t is an error of the angle
        if a < 1e9 {
            m.bound("exact precession", dist(s.dir, precess(s0, b, dt)), 1e-14 * (1.0 + a), show);
            // and the rotation is undone by the reverse
            let mut back = s.clone();
            back.rotate(&b, -dt);
            m.bound("undone by -t", dist(back.dir, s0), 1e-14, show);
        }
        if a == 0.0 {
            m.bound("nothing happens", dist(s.dir, s0), 4e-15, show);
        }
    });
    // Additive in time: n rotations of t against one of n t
    let n = m.n(20000);
    m.par("C01/compose", n, |m, r, _| {
        let s0 = r.odd_unit();
        let b = scale(r.odd_unit(), r.log(1e-3, 1e3));
        let k = r.int(2, 400) as usize;
        let dts: Vec<f64> = (0..k).map(|_| r.range(-1.0, 1.0) * r.log(1e-6, 1.0)).collect();
        let mut s = spin(s0);
        for dt in &dts {
            s.rotate(&b, *dt);
        }
        let total: f64 = dts.iter().sum();
        let path: f64 = dts.iter().map(|x| x.abs()).sum::<f64>() * norm(b);
        let mut one = spin(s0);
        one.rotate(&b, total);
        let show = || format!("S={:?} B={:?} {} steps adding up to {:?}", s0, b, k, total);
        m.case(hash_f(&[s0[0], b[0], total]), total != 0.0);
        m.sample(show);
        m.bound("additive in time", dist(s.dir, one.dir), 1e-14 * (k as f64 + path), show);
    });
    // Long sequences about changing fields: no drift of the length, no loss of orthogonality
    let n = m.n(200);
    let len: usize = 1_000_000;
    m.par("C01/long", n, |m, r, _| {
        let (a0, b0) = (r.unit(), r.unit());
        let (mut a, mut b) = (spin(a0), spin(b0));
        let d0 = dot(a0, b0);
        let mut worst: f64 = 0.0;
        for _ in 0..len {
            let f = scale(r.unit(), r.log(1e-6, 10.0));
            let dt = r.range(-1.0, 1.0);
            a.rotate(&f, dt);
            b.rotate(&f, dt);
            let e = (norm(a.dir) - 1.0).abs();
            worst = if e.is_nan() { f64::INFINITY } else { worst.max(e) };
        }
        let show = || format!("S={:?} {:?} after {} random rotations {:?} {:?}", a0, b0, len, a.dir, b.dir);
        m.case(hash_f(&[a0[0], b0[0]]), true);
        m.bound("length after many rotations", worst, 1e-14, show);
        m.bound("angle between two spins", (dot(a.dir, b.dir) - d0).abs(), 2e-15 * len as f64, show);
    });
}

pub fn c02(m: &mut Mon) {
    let n = m.n(5_000_000);
    m.par("C02/coords", n, |m, r, _| {
        // Cartesian
        let d = r.odd_unit();
        let mag = *r.pick(&[1.0, 1.0, 1e-100, 1e100, 1e-3, 1e3]) * r.log(0.1, 10.0);
        let v = scale(d, mag);
        let s = Spin::new_xyz(&v);
        let show = || format!("v={:?} spin={:?}", v, s.dir);
        m.case(hash_f(&v), true);
        m.sample(show);
        m.require("finite", finite(s.dir), show);
        let want = scale(v, 1.0 / mag);
        m.bound("unit vector along the coordinates", dist(s.dir, normalise(want)), 2e-15, show);
        let x = s.xyz();
        m.require("xyz returns the coordinates", x.len() == 3 && x[0] == s.dir[0] && x[1] == s.dir[1] && x[2] == s.dir[2], show);

        // Reading the angles
        let (th, ph) = (s.theta(), s.phi());
        let show = || format!("spin={:?} theta={:?} phi={:?}", s.dir, th, ph);
        let again = [th.cos() * ph.sin(), th.sin() * ph.sin(), ph.cos()];
        // acos is flat at the poles: an error of 1e-16 in z is one of 1e-8 in the angle there
        let sin = (s.dir[0].hypot(s.dir[1])).max(1e-30);
        let tol = (4e-15 / sin).min(2e-7) + 4e-14;
        m.bound("angles reproduce the spin", if finite(again) { dist(again, s.dir) } else { f64::INFINITY }, tol, show);
        m.require("polar angle in [0, pi]", (0.0..=PI).contains(&ph), show);

        // Angles to spin
        let (ta, pa) = (
            if r.one_in(5) { PI / 2.0 * r.int(-4, 4) as f64 } else { r.range(-10.0, 10.0) },
            if r.one_in(5) { PI / 2.0 * r.int(0, 2) as f64 } else { r.range(0.0, PI) },
        );
        let want = [ta.cos() * pa.sin(), ta.sin() * pa.sin(), pa.cos()];
        let show = || format!("theta={:?} phi={:?}", ta, pa);
        m.bound("spin from angles", dist(Spin::new_from_angles(ta, pa).dir, want), 1e-15, show);
        let mut t = spin(r.unit());
        t.set_angles(ta, pa);
        m.bound("spin set to angles", dist(t.dir, want), 1e-15, show);
    });
    let n = m.n(5_000_000);
    m.par("C02/tilt", n, |m, r, _| {
        // Gram-Schmidt
        // Directions need not be of any particular length
        let far = if r.one_in(4) { 1e70 } else { 1e3 };
        let (ka, kb) = (r.log(1.0 / far, far), r.log(1.0 / far, far));
        let a = scale(r.odd_unit(), ka);
        let b = scale(r.odd_unit(), kb);
        let (ua, ub) = (normalise(a), normalise(b));
        let sin = norm(cross(ua, ub));
        if sin < 1e-6 {
            return;
        }
        let g = Spin::gs(&a, &b);
        let tol = 1e-14 / sin;
        let show = || format!("old={:?} perp={:?} -> {:?}", a, b, g);
        m.case(hash_f(&[a[0], a[1], b[0], b[1]]), true);
        m.bound("unit length", (norm(g) - 1.0).abs(), 1e-14, show);
        m.bound("orthogonal to the first", dot(g, ua).abs(), tol, show);
        m.bound("in the plane of the two", dot(g, cross(ua, ub)).abs() / sin, tol, show);
        m.require("on the side of the second", dot(g, ub) > 0.0, show);

        // Tilt
        let old = [r.range(-PI, PI), if r.one_in(6) { PI / 2.0 } else { r.range(0.05, PI - 0.05) }];
        let s = [old[0].cos() * old[1].sin(), old[0].sin() * old[1].sin(), old[1].cos()];
        let far = if r.one_in(4) { 1e70 } else { 10.0 };
        let dir = scale(r.odd_unit(), r.log(1.0 / far, far));
        let sin = norm(cross(s, normalise(dir)));
        if sin < 1e-4 {
            return;
        }
        let angle = match r.int(0, 4) {
            0 => PI / 2.0 * r.int(0, 2) as f64,
            1 => r.log(1e-6, 1e-1),
            _ => r.range(0.0, PI),
        };
        let out = Spin::rot_perp(&old, &dir, angle);
        let got = [out[0].cos() * out[1].sin(), out[0].sin() * out[1].sin(), out[1].cos()];
        let axis = {
            let d = normalise(dir);
            normalise(sub(d, scale(s, dot(d, s))))
        };
        let want = add(scale(s, angle.cos()), scale(cross(axis, s), angle.sin()));
        let show = || format!("angles={:?} towards={:?} by {:?} -> {:?} = {:?}, expected {:?}", old, dir, angle, out, got, want);
        m.sample(show);
        let pole = (want[0].hypot(want[1])).max(1e-30);
        let tol = (1e-14 / pole).min(1e-7) + 1e-14 / sin;
        m.bound("tilted by exactly the angle", if finite(got) { dist(got, want) } else { f64::INFINITY }, tol, show);
    });
}
