//! Monitors of the configuration (C17), of the log rows (C20) and of robustness (C26), in process
use crate::model::*;
use crate::util::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::fs;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A parameter: its name, and its documented default
#[derive(Clone, PartialEq, Debug)]
enum Val {
    I(i64),
    F(f64),
    V([f64; 3]),
    S(String),
    B(bool),
}
fn documented() -> Vec<(&'static str, Val)> {
    vec![
        ("hsize", Val::I(512)),
        ("ssize", Val::I(8)),
        ("t", Val::F(256.0)),
        ("dt", Val::F(0.02)),
        ("runs", Val::I(2)),
        ("threads", Val::I(2)),
        ("trel", Val::F(0.0)),
        ("tau", Val::F(10.0)),
        ("lambda", Val::F(1.0)),
        ("hfield", Val::V([0.0; 3])),
        ("hs", Val::V([0.0; 3])),
        ("jvar", Val::F(0.001)),
        ("hvar", Val::F(0.0)),
        ("method", Val::I(2)),
        ("ednsty", Val::F(-0.66)),
        ("file", Val::S("log".into())),
        ("strob", Val::B(false)),
        ("offset", Val::I(0)),
        ("beta", Val::F(2.88)),
        ("e", Val::F(0.9)),
        ("drive", Val::S("xyplane".into())),
        ("mc_points", Val::I(1000)),
        ("log", Val::B(true)),
    ]
}
fn drive_name(d: &DriveType) -> String {
    match d {
        DriveType::xyplane => "xyplane",
        DriveType::xyelliptic => "xyelliptic",
        DriveType::uniaxial => "uniaxial",
        DriveType::staticfield => "staticfield",
        DriveType::none => "none",
    }
    .into()
}
fn vec3(v: &[f64]) -> Val {
    if v.len() == 3 {
        Val::V([v[0], v[1], v[2]])
    } else {
        Val::S(format!("{:?}", v))
    }
}
fn read_back(c: &Config) -> Vec<(&'static str, Val)> {
    vec![
        ("hsize", Val::I(c.hsize as i64)),
        ("ssize", Val::I(c.ssize as i64)),
        ("t", Val::F(c.t)),
        ("dt", Val::F(c.dt)),
        ("runs", Val::I(c.runs as i64)),
        ("threads", Val::I(c.threads as i64)),
        ("trel", Val::F(c.trel)),
        ("tau", Val::F(c.tau)),
        ("lambda", Val::F(c.lambda)),
        ("hfield", vec3(&c.hfield)),
        ("hs", vec3(&c.hs)),
        ("jvar", Val::F(c.jvar)),
        ("hvar", Val::F(c.hvar)),
        ("method", Val::I(c.method as i64)),
        ("ednsty", Val::F(c.ednsty)),
        ("file", Val::S(c.file.clone())),
        ("strob", Val::B(c.strob)),
        ("offset", Val::I(c.offset as i64)),
        ("beta", Val::F(c.beta)),
        ("e", Val::F(c.e)),
        ("drive", Val::S(drive_name(&c.drive))),
        ("mc_points", Val::I(c.mc_points as i64)),
        ("log", Val::B(c.log)),
    ]
}
fn random_val(r: &mut Rng, name: &str, d: &Val) -> Val {
    let real = |r: &mut Rng| match r.int(0, 5) {
        0 => r.int(-1000, 1000) as f64,
        1 => 0.0,
        2 => r.log(1e-12, 1e12),
        3 => r.sign() * r.log(1e-300, 1e300),
        _ => r.range(-10.0, 10.0),
    };
    match d {
        Val::I(_) => Val::I(match name {
            "offset" => r.int(0, u32::MAX as i64),
            "threads" | "mc_points" => r.int(0, 1 << 40),
            "method" => r.int(-5, 5),
            _ => r.int(-3, i32::MAX as i64),
        }),
        Val::F(_) => Val::F(real(r)),
        Val::V(_) => Val::V([real(r), real(r), real(r)]),
        Val::B(_) => Val::B(r.bool()),
        Val::S(_) => Val::S(if name == "drive" {
            r.pick(&["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"]).to_string()
        } else {
            let picked = r.pick(&["log", "data/run-", "a b", "ünïcode", "", "quote\"d", "back\\slash", "x.y", "run #1", "a = b", "[x]", "#", "it's", "RunB-", "007", " x ", "true", "ÄÖ"]).to_string();
            if r.bool() {
                picked
            } else {
                let abc: Vec<char> = "abcXYZ 019._-+*#='\"\\[]{},:/äÉ日".chars().collect();
                let n = if r.one_in(10) { r.int(100, 300) } else { r.int(1, 12) };
                (0..n).map(|_| *r.pick(&abc)).collect()
            }
        }),
    }
}
fn write_f(r: &mut Rng, x: f64) -> String {
    if x == x.trunc() && x.abs() < 1e15 && r.bool() {
        format!("{}", x as i64)
    } else if r.bool() {
        let s = format!("{:e}", x);
        if r.bool() { s.to_uppercase() } else { s }
    } else if x.abs() < 1e15 && (x == 0.0 || x.abs() > 1e-6) {
        format!("{:?}", x)
    } else {
        format!("{:e}", x)
    }
}
fn write_val(r: &mut Rng, v: &Val) -> String {
    match v {
        Val::I(i) => match r.int(0, 9) {
            0 if *i >= 0 => format!("+{}", i),
            1 if *i >= 0 => format!("0x{:X}", i),
            2 if *i >= 1000 => format!("{}_{:03}", i / 1000, i % 1000),
            _ => i.to_string(),
        },
        Val::F(x) => write_f(r, *x),
        Val::V(x) => {
            let c: Vec<String> = x.iter().map(|y| write_f(r, *y)).collect();
            if r.bool() { format!("[{}]", c.join(", ")) } else { format!("[ {} ]", c.join(" ,\n ")) }
        }
        Val::S(s) => {
            if !s.contains('\'') && r.bool() {
                format!("'{}'", s)
            } else {
                format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
            }
        }
        Val::B(b) => b.to_string(),
    }
}
/// A configuration file and what it means
fn random_toml(r: &mut Rng) -> (String, Vec<(&'static str, Val)>) {
    let mut want = documented();
    let p = r.f();
    let mut order: Vec<usize> = (0..want.len()).filter(|_| r.f() < p).collect();
    for i in (1..order.len()).rev() {
        let k = r.int(0, i as i64) as usize;
        order.swap(i, k);
    }
    let mut s = String::new();
    for i in order {
        let name = want[i].0;
        let v = random_val(r, name, &want[i].1.clone());
        if r.one_in(5) {
            s.push_str("# a remark = 3\n\n");
        }
        let key = if name == "drive" && r.bool() { "drivetype" } else { name };
        let key = if r.one_in(20) { format!("\"{}\"", key) } else { key.to_string() };
        let eq = *r.pick(&["=", " = ", "   =  "]);
        s.push_str(&format!("{}{}{}{}\n", key, eq, write_val(r, &v), if r.one_in(4) { "  # remark" } else { "" }));
        want[i].1 = v;
    }
    (s, want)
}
fn quiet<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

type Reader = fn(&str) -> Config;

pub fn c17(m: &mut Mon) {
    let readers: [(&str, Reader); 2] = [("chain", SpinChain::read_config), ("edge-coupled chain", SpinChainLangevin::read_config)];
    let cases = m.n(60000);
    m.par("files", cases, |m, r, i| {
        let (text, want) = random_toml(r);
        let path = format!("{}.toml", langevin_file());
        fs::write(&path, &text).unwrap();
        let (name, f) = readers[i % 2];
        match quiet(|| f(&path)) {
            Err(_) => m.fail("a valid configuration file is read", js(&format!("{}: {}", name, text))),
            Ok(c) => {
                let got = read_back(&c);
                for (a, b) in got.iter().zip(&want) {
                    m.require("every parameter is as written or the documented default", a == b, || format!("{}: {} read as {:?}, should be {:?} from\n{}", name, a.0, a.1, b.1, text));
                }
                // Writing and reading back
                let out = toml::to_string(&c).unwrap();
                fs::write(&path, &out).unwrap();
                match quiet(|| f(&path)) {
                    Ok(d) => {
                        m.require("written and read back unchanged", read_back(&d) == got, || format!("{:?} became {:?}", c, d));
                    }
                    Err(_) => m.fail("written and read back unchanged", js(&out)),
                }
                fs::write(&path, &text).unwrap();
            }
        }
        m.require("reading leaves the file alone", fs::read_to_string(&path).ok().as_deref() == Some(&text[..]), || text.clone());
        m.case(hash_str(&text), !text.is_empty());
        m.sample(|| text.clone());
    });
    // Malformed files
    let cases = m.n(20000);
    m.par("malformed", cases, |m, r, i| {
        let (good, _) = random_toml(r);
        let mut bytes = good.clone().into_bytes();
        let junk: &[u8] = match r.int(0, 12) {
            0 => b"tau = \n",
            1 => b"tau = \"ten\"\n",
            2 => b"= 3\n",
            3 => b"hsize = 3.5\n",
            4 => b"[unclosed\n",
            5 => b"drive = \"square\"\n",
            6 => b"hfield = [1.0, \"a\", 0.0]\n",
            7 => b"log = yes\n",
            8 => b"file = \"open\n",
            9 => b"threads = -1\n",
            10 => b"offset = 4294967296\n",
            11 => b"\xff\xfe\x00",
            _ => b"hsize = 10\nhsize = 11\n",
        };
        // The same parameter a second time is malformed too; so junk first
        let key: &[u8] = junk.split(|c| *c == b' ').next().unwrap();
        let mentions = good.lines().any(|l| l.trim_start().as_bytes().starts_with(key));
        if mentions && key != b"=" {
            bytes.clear();
        }
        let mut all = junk.to_vec();
        all.extend(bytes);
        let path = format!("{}.toml", langevin_file());
        fs::write(&path, &all).unwrap();
        let (name, f) = readers[i % 2];
        let refused = quiet(|| f(&path)).is_err();
        let text = String::from_utf8_lossy(&all).to_string();
        m.require("a malformed file is refused", refused, || format!("{}: {}", name, text));
        m.require("a malformed file is left untouched", fs::read(&path).ok() == Some(all.clone()), || format!("{}: {}", name, text));
        m.case(hash_str(&text), true);
    });
    // A missing file, and one that cannot be read
    for (name, f) in readers {
        let _ = fs::remove_file("config.toml");
        match quiet(|| f("config.toml")) {
            Ok(c) => {
                m.require("a missing file means the documented defaults", read_back(&c) == documented(), || format!("{}: {:?}", name, c));
                match quiet(|| f("config.toml")) {
                    Ok(d) => {
                        m.require("the default file reads back as the defaults", read_back(&d) == documented(), || format!("{}: {:?}", name, d));
                    }
                    Err(_) => m.fail("the default file reads back as the defaults", js(name)),
                }
                m.require("the default file is written", fs::metadata("config.toml").is_ok(), || name.to_string());
            }
            Err(_) => m.fail("a missing file means the documented defaults", js(name)),
        }
        let _ = fs::remove_file("config.toml");
        fs::create_dir_all("config.toml").unwrap();
        m.require("a directory is not a configuration", quiet(|| f("config.toml")).is_err(), || name.to_string());
        m.require("a directory stays", fs::metadata("config.toml").map(|x| x.is_dir()).unwrap_or(false), || name.to_string());
        let _ = fs::remove_dir("config.toml");
        m.evals += 3;
    }
    m.require("defaults", read_back(&Config::default()) == documented(), || format!("{:?}", Config::default()));
    // The printed description
    let path = "described.toml";
    fs::write(path, sc::config::CS).unwrap();
    match quiet(|| SpinChain::read_config(path)) {
        Ok(c) => {
            m.require("the description is the default configuration", read_back(&c) == documented(), || format!("{:?}", c));
        }
        Err(_) => m.fail("the description is a valid configuration", js(sc::config::CS)),
    }
    for (name, _) in documented() {
        let n = if name == "drive" { "drivetype" } else { name };
        m.require("the description names every parameter", sc::config::CS.lines().any(|l| l.split('=').next().map(|k| k.trim() == n || k.trim() == name).unwrap_or(false)), || name.to_string());
    }
}

/// Rows of a data file, header left out
fn rows(path: &str) -> Option<Vec<Vec<f64>>> {
    let text = fs::read_to_string(path).ok()?;
    text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).map(|l| l.split_whitespace().map(|x| x.parse::<f64>().ok()).collect()).collect()
}

fn cmp_row(m: &mut Mon, what: &str, got: &[f64], want: &[f64], tol: f64, show: &dyn Fn() -> String) {
    if !m.require(&format!("{}: number of columns", what), got.len() == want.len(), || format!("{:?} should be {:?}: {}", got, want, show())) {
        return;
    }
    for (k, (a, b)) in got.iter().zip(want).enumerate() {
        m.bound(what, (a - b).abs(), tol, || format!("column {} is {} but the state has {}: {}", k, a, b, show()));
    }
}

pub fn c20(m: &mut Mon) {
    let cases = m.n(40000);
    m.par("rows", cases, |m, r, i| {
        let mut c = match i % 1200 {
            1199 => Chain::random(r, 250, 1100),
            x if x % 30 == 29 => Chain::random(r, 20, 80),
            _ => Chain::random(r, 2, 12),
        };
        c.dt = 0.02;
        let path = format!("{}0.dat", langevin_file());
        let mut sc = c.real_logged();
        // Three states of one history
        let mut states = vec![];
        for _ in 0..3 {
            sc.log();
            states.push((sc.t, get(&sc.spins)));
            sc.update();
        }
        // A log is complete when the chain is gone
        drop(sc);
        let show = || c.show();
        let tol = 1e-12 * c.e_scale();
        match rows(&path) {
            None => m.fail("log is readable", js(&c.show())),
            Some(v) => {
                m.require("one row per call", v.len() == states.len(), || format!("{} rows: {}", v.len(), c.show()));
                for (row, (t, s)) in v.iter().zip(&states) {
                    let mut d = c.clone();
                    d.t = *t;
                    d.spins = s.clone();
                    let (n, l) = (d.s as f64, d.l as f64);
                    let mm = d.m();
                    let (q, p) = (d.spins[d.s / 4], d.spins[3 * d.s / 4]);
                    let want = [d.t, d.e_total() / l, d.e_sub(), mm[0] / n, mm[1] / n, mm[2] / n, d.m_tot()[2] / l, q[0], q[1], q[2], p[0], p[1], p[2]];
                    cmp_row(m, "log row reports the state", row, &want, tol, &show);
                }
            }
        }
        // The profile log
        let mut sc = c.real_logged();
        sc.update();
        sc.log_ext();
        let mut d = c.clone();
        d.t = sc.t;
        d.spins = get(&sc.spins);
        drop(sc);
        let want: Vec<Vec<f64>> = (1..d.s.min(d.l - 1))
            .map(|k| {
                let s = d.spins[k];
                let e = 0.5 * (d.bond(k - 1) + d.bond(k)) + dot(s, d.b(k, d.t));
                vec![d.t, k as f64, e, s[0], s[1], s[2]]
            })
            .collect();
        match rows(&path) {
            None => m.fail("profile log is readable", js(&c.show())),
            Some(v) => {
                if m.require("one profile row per interior site", v.len() == want.len(), || format!("{} rows should be {}: {}", v.len(), want.len(), c.show())) {
                    for (a, b) in v.iter().zip(&want) {
                        cmp_row(m, "profile row reports the site", a, b, tol, &show);
                    }
                }
            }
        }
        let text = fs::read_to_string(&path).unwrap_or_default();
        m.require("a blank line closes each profile", text.ends_with("\n\n") || text == "\n", || format!("{:?}", text));
        let _ = fs::remove_file(&path);
        m.case(c.key(), true);
        m.sample(|| c.show());
    });
    let cases = m.n(40000);
    m.par("edge rows", cases, |m, r, _| {
        let mut c = Chain::random(r, 2, 10);
        c.s = c.l;
        c.dt = 0.02;
        let gamma = r.log(0.01, 3.0);
        let lambda = r.range(-1.0, 2.0);
        let mut sc = c.real_langevin(gamma, r.range(0.0, 1.0), lambda);
        let path = format!("{}0.dat", langevin_file());
        let mut states = vec![];
        for _ in 0..3 {
            sc.log();
            states.push((sc.t, get(&sc.spins)));
            sc.update();
        }
        drop(sc);
        let show = || format!("gamma {}: {}", gamma, c.show());
        match rows(&path) {
            None => m.fail("edge-coupled log is readable", js(&c.show())),
            Some(v) => {
                m.require("one row per call", v.len() == states.len(), || format!("{} rows: {}", v.len(), c.show()));
                for (row, (t, s)) in v.iter().zip(&states) {
                    let mut d = c.clone();
                    d.t = *t;
                    d.spins = s.clone();
                    let (n, mm) = (d.s as f64, d.m());
                    let (w1, wl) = (d.omega_open(&d.spins, 0, d.t), d.omega_open(&d.spins, d.l - 1, d.t));
                    let (s1, sl) = (d.spins[0], d.spins[d.l - 1]);
                    let (p1, pl) = (cross(s1, w1), cross(sl, wl));
                    let flow = dot(d.drive_rate(d.t), mm) - gamma * (dot(p1, p1) + dot(pl, pl)) + 2.0 * gamma / d.beta * (dot(s1, w1) + dot(sl, wl));
                    let e = d.e_sub();
                    let want = [d.t, e, e, mm[0] / n, mm[1] / n, mm[2] / n, d.m_tot()[2] / n, flow];
                    let tol = 1e-12 * (1.0 + gamma * (1.0 + 1.0 / d.beta)) * d.e_scale() * d.e_scale() * (1.0 + 1.0 / d.tau);
                    cmp_row(m, "edge-coupled log row reports the state", row, &want, tol, &show);
                }
            }
        }
        m.case(c.key(), true);
    });
}

/// Extreme but valid configurations: nothing may panic, overflow or turn into a non-number
pub fn c26(m: &mut Mon) {
    let cases = m.n(100_000);
    m.par("extremes", cases, |m, r, i| {
        let l = match r.int(0, 9) {
            0 if i % 100 == 0 => r.int(250, 1100),
            0 => r.int(12, 70),
            1 => 2,
            2 => 3,
            _ => r.int(2, 9),
        };
        let extreme = |r: &mut Rng| *r.pick(&[0.0, 1e-300, 1e-9, 0.3, 1.0, 50.0, 1e6]);
        let mut c = Config::default();
        c.hsize = l as i32;
        c.ssize = *r.pick(&[2, l as i64, r.clone().int(2, l as i64)]) as i32;
        c.dt = *r.pick(&[1e-9, 1e-3, 0.02, 1.0, 100.0, -0.02]);
        c.tau = *r.pick(&[1e-6, 0.01, 0.5, 10.0, 1e6]);
        c.trel = *r.pick(&[0.0, 1.0, 1e4, -7.0]);
        c.lambda = r.sign() * extreme(r);
        for k in 0..3 {
            c.hfield[k] = if r.bool() { 0.0 } else { r.sign() * extreme(r) };
            c.hs[k] = if r.bool() { 0.0 } else { r.sign() * extreme(r) };
        }
        c.jvar = *r.pick(&[0.0, 0.001, 1.0, 100.0]);
        c.hvar = *r.pick(&[0.0, 0.001, 1.0, 100.0]);
        c.beta = *r.pick(&[0.0, 1e-300, 1e-12, 0.1, 2.88, 100.0, 1e4, 1e300]);
        c.e = *r.pick(&[0.0, 0.9, 1.0, 50.0]);
        c.drive = [DriveType::xyplane, DriveType::uniaxial, DriveType::xyelliptic, DriveType::staticfield, DriveType::none][r.int(0, 4) as usize].clone();
        c.log = false;
        c.file = langevin_file();
        let show = format!("{:?}", c);
        let mut bad: Vec<String> = vec![];
        let r2 = r.clone();
        let out = quiet(|| {
            let mut r = r2;
            let bad = &mut bad;
            let mut num = |what: &str, xs: &[f64]| {
                if xs.iter().any(|x| !x.is_finite()) {
                    bad.push(format!("{} {:?}", what, xs));
                }
            };
            if i % 3 == 2 {
                let mut k = c.clone();
                if k.beta < 1e-12 {
                    // an infinitely hot bath has no finite noise
                    k.beta = 1e-12;
                }
                // and noise needs a time that goes forward
                k.dt = k.dt.abs();
                let mut s = SpinChainLangevin::new(k, 0, *r.pick(&[0.0, 1e-9, 0.5, 1.0, 100.0]));
                let zero = r.one_in(8);
                for _ in 0..30 {
                    match r.int(0, 5) {
                        0 => s.metropolis_update(),
                        1 => s.metropolis_update_magnus(),
                        2 => s.log(),
                        _ => s.update(),
                    }
                    if zero {
                        s.spins[0] = Spin::new_xyz(&[0.0, 0.0, 1.0]);
                    }
                }
                for x in &s.spins {
                    num("spin", &x.dir);
                }
                num("energies", &[s.total_energy(), s.total_energy2(), s.system_energy(), s.boundary_term(), s.t]);
                num("magnetisation", &s.m());
                num("magnetisation", &s.m_tot());
                drop(s);
                let p = format!("{}0.dat", langevin_file());
                match rows(&p) {
                    None => bad.push("log is not readable".into()),
                    Some(v) => {
                        for row in v {
                            if row.len() != 8 || row.iter().any(|x| !x.is_finite()) {
                                bad.push(format!("log row {:?}", row));
                            }
                        }
                    }
                }
            } else {
                let mut k = c.clone();
                k.log = true;
                let path = format!("{}0.dat", langevin_file());
                let mut s = SpinChain::new(k, 0);
                match r.int(0, 4) {
                    0 => s.j_couple = vec![[0.0; 3]; l as usize],
                    1 => {
                        s.j_couple = vec![[0.0; 3]; l as usize];
                        s.static_h = vec![[0.0; 3]; l as usize];
                    }
                    2 => {
                        for x in s.spins.iter_mut() {
                            x.dir = r.odd_unit();
                        }
                    }
                    _ => (),
                }
                for _ in 0..30 {
                    match r.int(0, 11) {
                        0 => s.metropolis_update(),
                        1 => s.metropolis_update_magnus(),
                        2 => s.metropolis_update_maglab(),
                        3 => s.metropolis_update_rot_magnus(),
                        4 => s.metropolis_update_mag_full(),
                        5 => s.log(),
                        6 => s.log_ext(),
                        7 => s.update_no_field(),
                        _ => s.update(),
                    }
                }
                for x in &s.spins {
                    num("spin", &x.dir);
                    num("angles", &[x.theta(), x.phi()]);
                }
                num("energies", &[s.total_energy(), s.total_energy2(), s.system_energy(), s.mc_total_energy(), s.mc_system_energy(), s.mc_system_energy_maglab(), s.mc_system_energy_rot(), s.t]);
                num("magnetisation", &s.m());
                num("magnetisation", &s.m_tot());
                num("spectrum", &s.energy_spectrum());
                drop(s);
                match rows(&path) {
                    None => bad.push("log is not readable".into()),
                    Some(v) => {
                        for row in v {
                            if (row.len() != 13 && row.len() != 6) || row.iter().any(|x| !x.is_finite()) {
                                bad.push(format!("log row {:?}", row));
                            }
                        }
                    }
                }
            }
        });
        let why = LAST_PANIC.with(|p| p.borrow().clone());
        m.require("no panic on a valid configuration", out.is_ok(), || format!("{} at {}: {}", why.1, why.0, show));
        m.require("finite numbers on a valid configuration", bad.is_empty(), || format!("{:?}: {}", bad, show));
        m.case(hash_str(&show), true);
        m.sample(|| show.clone());
    });
    // Temperatures of energies over the whole open range, at its ends too
    let cases = m.n(200_000);
    m.par("temperatures", cases, |m, r, _| {
        let e = match r.int(0, 3) {
            0 => -r.log(1e-300, 1.0).min(1.0 - 1e-15),
            1 => -1.0 + r.log(1e-15, 0.5),
            _ => -r.f().max(1e-9),
        };
        let b = SpinChain::solve_beta(e);
        m.require("temperature is a number", b.is_finite() && b >= 0.0, || format!("solve_beta({}) = {}", e, b));
        m.require("temperature is a number (edge-coupled)", SpinChainLangevin::solve_beta(e).is_finite(), || format!("solve_beta({})", e));
        m.case(e.to_bits(), true);
    });
}
