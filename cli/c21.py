"""C21: sampling runs write exactly the requested number of intact samples"""
from .common import *
from . import thermal

OLD = b"earlier row that must stay 1 2 3\n"


def check_pair_row(mon, conf, sp, ms, e_tot, e_mc, t, show):
    """hsize = ssize = 2, so that a row shows the whole state"""
    js = [1.0, 1.0, conf["lambda"]]
    h = add(conf["hfield"], conf["hs"])
    d = drive_field(conf, t)
    for v in sp:
        mon.bound("spins are unit vectors", abs(norm(v) - 1), 1e-12, show)
    m = scale(add(*sp), 0.5)
    mon.bound("magnetisation is that of the spins", norm(sub(m, ms)), 1e-12, show)
    bond = -sum(sp[0][k] * js[k] * sp[1][k] for k in range(3))
    if e_tot is not None:
        mon.bound("total energy is that of the spins", abs(e_tot - (bond + dot(add(h, d), m))), 1e-11, show)
    if e_mc is not None:
        mon.bound("subsystem energy is that of the spins", abs(e_mc - (bond + dot(h, m))), 1e-11, show)


def pair_conf(rng, **kw):
    c = dict(hsize=2, ssize=2, jvar=0.0, hvar=0.0, hfield=[round(rng.uniform(-1, 1), 3) for _ in range(3)],
             hs=[round(rng.uniform(-1, 1), 3), 0.0, 0.0], drive=rng.choice(["xyplane", "uniaxial", "staticfield", "none"]), tau=2.7, dt=0.1,
             trel=rng.choice([0.0, 1.1]), t=1.0, ednsty=round(rng.uniform(-0.7, -0.1), 3), runs=1, offset=0)
    c["lambda"] = round(rng.uniform(-0.5, 1.5), 3)
    c.update(kw)
    return c


def mc_job(mon, i, points, threads, magnus=False):
    rng = mon.rng("mc", i)
    conf = pair_conf(rng, mc_points=points, threads=threads)
    if magnus:
        conf.update(hsize=6, ssize=6, hfield=[0.0] * 3, hs=[0.0] * 3, drive="none", tau=rng.choice([1e-7, 1.3]))
    eff = full(conf)
    old = OLD if i % 2 else None
    with Scratch(conf) as sc:
        if old:
            sc.write("mc_live.dat", old)
        args = ["--monte-carlo-magnus" if magnus else "-m"]
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        data = sc.read("mc_live.dat")
        if not mon.require("the samples are written", data is not None, lambda: describe(sc, r)):
            return
        if old:
            if not mon.require("earlier rows stay", data.startswith(old), lambda: describe(sc, r)):
                return
            data = data[len(old):]
        rows = parse_rows(data, mon, json.dumps(describe(sc, r)), 11)
        if rows is None:
            return
        mon.require("exactly the requested number of rows", len(rows) == points, lambda: dict(describe(sc, r), rows=len(rows)))
        mon.require("no row twice", len(set(map(tuple, rows))) == len(rows), lambda: describe(sc, r))
        for row in rows:
            show = lambda: {"row": row, "config": conf}
            sp = [row[5:8], row[8:11]]
            if magnus:
                for v in sp:
                    mon.bound("spins are unit vectors", abs(norm(v) - 1), 1e-12, show)
                mon.bound("both energies are the ring energy", abs(row[0] - row[1]), 1e-11, show)
                mon.require("values within physical bounds", abs(row[0]) <= max(1, abs(conf["lambda"])) + 1e-12 and norm(row[2:5]) <= 1 + 1e-12, show)
            else:
                check_pair_row(mon, eff, sp, row[2:5], row[0], row[1], -conf["trel"], show)
        mon.case((tuple(args), points, threads, json.dumps(conf)), n=len(rows))
        mon.note("rows of " + args[0], len(rows))
        mon.sample({"args": args, "points": points, "threads": threads})


def ensemble_job(mon, i, points, threads):
    """Rows are samples at the requested temperature: bond cosine of an isotropic pair has density exp(2 beta c)"""
    rng = mon.rng("ensemble", i)
    beta = [0.8, 3.0, 1.5][i % 3]
    conf = pair_conf(rng, mc_points=points, threads=threads, hfield=[0.0] * 3, hs=[0.0] * 3)
    conf["lambda"] = 1.0
    args = ["-m", "-b", repr(beta)]
    if i % 3 == 1:
        # from the energy density
        args = ["-m"]
        beta = solve_beta(conf["ednsty"])
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = parse_rows(sc.read("mc_live.dat") or b"", mon, "mc_live.dat", 11)
        if rows is None or len(rows) < 20:
            mon.require("exactly the requested number of rows", rows is not None and len(rows) == points, lambda: describe(sc, r))
            return
        k = 2 * beta
        cs = [dot(x[5:8], x[8:11]) for x in rows]
        mon.bound("rows are Boltzmann samples at the requested temperature",
                  ks(cs, lambda c: (math.exp(k * (min(c, 1) - 1)) - math.exp(-2 * k)) / (1 - math.exp(-2 * k))), ks_bound(len(cs)), lambda: describe(sc, r))
        zs = [x[5 + q] for x in rows for q in range(3)]
        for q in range(3):
            mon.bound("rows are isotropic", ks(zs[q::3], lambda z: (z + 1) / 2), ks_bound(len(rows)), lambda: describe(sc, r))
        mon.case(("ensemble", beta, points, threads), n=len(rows))


def solve_beta(e):
    f = lambda b: 1 / b - 1 / math.tanh(b) if b > 1e-3 else -b / 3
    lo, hi = 1e-9, 1e9
    for _ in range(300):
        mid = math.sqrt(lo * hi)
        if f(mid) > e:
            lo = mid
        else:
            hi = mid
    return lo


def dyn_job(mon, i, points, threads, slow=None):
    """Single-shot histogram; slow: the output is a pipe that is not read until later"""
    rng = mon.rng("dyn", i, points, threads)
    conf = pair_conf(rng, threads=threads, dt=0.1, t=rng.choice([0.5, 2.0, 3.3]), trel=rng.choice([0.0, 0.0, 1.0]))
    if i % 2 and slow is None:
        conf["dt"] = 0.04
    iso = i % 3 == 0
    if iso:
        conf.update({"lambda": 1.0, "hfield": [0.0] * 3, "hs": [0.0] * 3, "drive": "none"})
    eff = full(conf)
    args = ["-d", points]
    with Scratch(conf) as sc:
        t = conf["t"]
        name = "dyn-hist-t-%s.dat" % (("%d" % t) if t == int(t) else repr(t))
        old = b""
        during = None
        if slow is not None:
            during = SlowPipe(sc, name, slow, 777)
        elif i % 2:
            old = OLD
            sc.write(name, old)
        r = run_sc(sc, args, seed=rng.getrandbits(60), during=during)
        if not must_finish(mon, sc, r):
            return
        data = during.data() if slow is not None else sc.read(name)
        if not mon.require("the samples are written", data is not None, lambda: dict(describe(sc, r), files=sc.files())):
            return
        if not mon.require("earlier rows stay", data.startswith(old), lambda: describe(sc, r)):
            return
        rows = parse_rows(data[len(old):], mon, json.dumps(describe(sc, r)), 5)
        if rows is None:
            return
        mon.require("every sample is written exactly once", sorted(x[0] for x in rows) == list(range(points)),
                    lambda: dict(describe(sc, r), rows=len(rows), slow=slow))
        mon.require("samples are different", len(set(tuple(x[1:]) for x in rows)) == len(rows), lambda: describe(sc, r))
        for row in rows:
            m = scale(row[1:4], 2)
            show = lambda: {"row": row, "run": describe(sc, r)}
            mon.require("values within physical bounds", norm(m) <= 2 + 1e-11, show)
            if iso:
                # e = -c and |S1 + S2|^2 = 2 + 2 c
                mon.bound("subsystem energy is that of the spins", abs(row[4] + (dot(m, m) / 2 - 1)), 1e-10, show)
        if iso and len(rows) >= 50:
            # the undriven evolution keeps c, which starts with density exp(beta c)
            k = solve_beta(conf["ednsty"])
            mon.bound("single shots start in the configured ensemble",
                      ks([-x[4] for x in rows], lambda c: (math.exp(k * (c - 1)) - math.exp(-2 * k)) / (1 - math.exp(-2 * k))),
                      ks_bound(len(rows)), lambda: describe(sc, r))
        mon.case(("-d", points, threads, slow), n=len(rows))
        mon.note("rows of -d" + (" through a slow pipe" if slow is not None else ""), len(rows))


def slow_mc_job(mon, i, points, threads):
    """Sample file on a device that accepts data late"""
    rng = mon.rng("slowmc", i)
    conf = pair_conf(rng, threads=threads, mc_points=points)
    eff = full(conf)
    with Scratch(conf) as sc:
        during = SlowPipe(sc, "mc_live.dat", 2 + points / threads * 0.15, 333)
        r = run_sc(sc, ["-m"], seed=rng.getrandbits(60), during=during)
        if not must_finish(mon, sc, r):
            return
        rows = parse_rows(during.data(), mon, json.dumps(describe(sc, r)), 11)
        if rows is None:
            return
        mon.require("exactly the requested number of rows", len(rows) == points, lambda: dict(describe(sc, r), rows=len(rows), slow=True))
        for row in rows:
            check_pair_row(mon, eff, [row[5:8], row[8:11]], row[2:5], row[0], row[1], -conf["trel"], lambda: {"row": row, "config": conf})
        mon.case(("slow -m", points, threads), n=len(rows))
        mon.note("rows of -m through a slow pipe", len(rows))


def traj_job(mon, i, points):
    rng = mon.rng("traj", i)
    k = rng.choice([1, 2, 5, 10, 27])
    dt = rng.choice([0.1, 0.02, 0.3, 0.07])
    tau = k * dt if i % 2 else float("%.12g" % (k * dt))
    conf = pair_conf(rng, dt=dt, tau=tau, t=rng.choice([1.0, 256.0, 2.5]), trel=rng.choice([0.0, 0.0, 3, 40]) * k * dt)
    conf["lambda"] = 1.0
    conf.update(hfield=[0.0] * 3, hs=[0.0] * 3)
    eff = full(conf)
    with Scratch(conf) as sc:
        t = conf["t"]
        name = "hist-st-t-%s.dat" % (("%d" % t) if t == int(t) else repr(t))
        old = OLD if i % 2 else b""
        if old:
            sc.write(name, old)
        r = run_sc(sc, ["-s", points], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        data = sc.read(name)
        if not mon.require("the samples are written", data is not None, lambda: dict(describe(sc, r), files=sc.files())):
            return
        if not mon.require("earlier rows stay", data.startswith(old), lambda: describe(sc, r)):
            return
        rows = parse_rows(data[len(old):], mon, json.dumps(describe(sc, r)), 5)
        if rows is None:
            return
        mon.require("exactly the requested number of rows", len(rows) == points, lambda: dict(describe(sc, r), rows=len(rows)))
        for n, row in enumerate(rows):
            show = lambda: {"row": row, "run": describe(sc, r)}
            want = -conf["trel"] + (31 + n) * k * dt
            mon.bound("one sample per period after thirty periods", abs(row[0] - want), 1e-9 * (1 + abs(want) + conf["trel"]) * 30, show)
            m = scale(row[1:4], 2)
            d = drive_field(eff, row[0])
            mon.require("values within physical bounds", norm(m) <= 2 + 1e-11, show)
            # |bond - e| is a single spin in the drive
            mon.require("subsystem energy is possible", abs(row[4] + (dot(m, m) / 2 - 1)) <= norm(d) + 1e-10, show)
        if conf["drive"] == "none" and rows:
            mon.bound("undriven trajectory keeps its energy", max(abs(x[4] - rows[0][4]) for x in rows), 1e-9, lambda: describe(sc, r))
        mon.case(("-s", points, k, dt, conf["trel"]), n=len(rows))
        mon.note("rows of -s", len(rows))


def hist_job(mon, i):
    rng = mon.rng("hist", i)
    n = [3, 2][i % 2]
    conf = dict(hsize=2048, ssize=2, jvar=0.0, ednsty=-0.1, drive="xyplane", threads=2, dt=0.02)
    with Scratch(conf) as sc:
        old = {}
        if i % 2:
            for f in ("hist_mc.dat", "hist_dyn.dat"):
                sc.write(f, OLD)
                old[f] = OLD
        r = run_sc(sc, ["--histogram", n], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        for f in ("hist_mc.dat", "hist_dyn.dat"):
            data = sc.read(f) or b""
            o = old.get(f, b"")
            if not mon.require("earlier rows stay", data.startswith(o), lambda: describe(sc, r)):
                continue
            rows = parse_rows(data[len(o):], mon, f, 11)
            if rows is None:
                continue
            hist_rows(mon, rows, n, f, sc, r, True)


def hist_rows(mon, rows, n, f, sc, r, pair):
    mon.require("every sample is written exactly once", [x[0] for x in rows] == list(range(n)), lambda: dict(describe(sc, r), file=f, rows=len(rows)))
    mon.require("samples are different", len(set(tuple(x[1:]) for x in rows)) == len(rows), lambda: describe(sc, r))
    for x in rows:
        show = lambda: {"file": f, "row": x, "config": sc.conf}
        sp = [x[5:8], x[8:11]]
        for v in sp:
            mon.bound("spins are unit vectors", abs(norm(v) - 1), 1e-12, show)
        mon.require("values within physical bounds", norm(x[1:4]) <= 1 + 1e-12 and abs(x[4]) <= max(1, abs(sc.conf.get("lambda", 1))) + 1e-11, show)
        if pair:
            mon.bound("magnetisation is that of the spins", norm(sub(scale(add(*sp), 0.5), x[1:4])), 1e-12, show)
            mon.bound("subsystem energy is that of the spins", abs(x[4] + dot(*sp)), 1e-11, show)
    mon.case((f, n, json.dumps(sc.conf)), n=len(rows))
    mon.note("rows of " + f, len(rows))


def magnus_hist_job(mon, i):
    rng = mon.rng("mhist", i)
    n = [1, 40, 300][i % 3]
    conf = dict(hsize=8, ssize=rng.choice([6, 7]), jvar=0.0, tau=rng.choice([1e-6, 1.5]), ednsty=-0.4, drive="xyplane")
    with Scratch(conf) as sc:
        if i % 2:
            sc.write("hist_mc_magnus.dat", OLD)
        r = run_sc(sc, ["--magnus-hist", n], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        data = sc.read("hist_mc_magnus.dat") or b""
        o = OLD if i % 2 else b""
        if not mon.require("earlier rows stay", data.startswith(o), lambda: describe(sc, r)):
            return
        rows = parse_rows(data[len(o):], mon, "hist_mc_magnus.dat", 11)
        if rows is None:
            return
        hist_rows(mon, rows, n, "hist_mc_magnus.dat", sc, r, False)
        # the printed averages are those of the rows
        got = {}
        for line in r.out.split("\n"):
            k, _, v = line.partition(": ")
            if k in ("mx", "my", "mz", "ed"):
                got[k] = float(v)
        for q, k in enumerate(("mx", "my", "mz", "ed")):
            mean = sum(x[1 + q] for x in rows) / max(1, len(rows))
            mon.bound("printed averages are those of the rows", abs(got.get(k, math.inf) - mean), 1e-11, lambda: describe(sc, r))


def nsteps_job(mon, i):
    rng = mon.rng("nsteps", i)
    taus = [0.31, 0.5, 1.7, 0.9, 2.2][: [2, 5, 1][i % 3]]
    rng.shuffle(taus)
    conf = pair_conf(rng, threads=[1, 2, 8][i % 3])
    conf.update({"lambda": 1.0, "hfield": [0.0] * 3, "hs": [0.0] * 3})
    steps = [5, 1, 40][i % 3]
    with Scratch(conf) as sc:
        name = "evt%d.dat" % steps
        old = OLD if i % 2 else b""
        if old:
            sc.write(name, old)
        args = ["-n", ",".join(map(repr, taus)), "--steps", steps]
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        data = sc.read(name) or b""
        if not mon.require("earlier rows stay", data.startswith(old), lambda: describe(sc, r)):
            return
        rows = parse_rows(data[len(old):], mon, name, 7)
        if rows is None:
            return
        mon.require("one row per period, each once", sorted(x[0] for x in rows) == sorted(taus), lambda: dict(describe(sc, r), rows=rows))
        for x in rows:
            show = lambda: {"row": x, "run": describe(sc, r)}
            m = scale(x[4:7], 2)
            bond = 1 - dot(m, m) / 2
            d = drive_field(full(dict(conf, tau=x[0])), x[1])
            mon.bound("total energy is that of the spins", abs(x[2] - (bond + dot(d, m) / 2)), 1e-10, show)
            mon.require("subsystem energy is possible", abs(x[3] - bond) <= norm(d) + 1e-10, show)
            mon.case(("-n", x[0], steps))


def run(mon):
    jobs = []
    combos = [(1, 1), (1, 8), (7, 3), (10, 4), (5, 8), (13, 8), (9, 2), (2, 3), (11, 5), (6, 6)]
    more = [(p, t) for p in range(1, 24) for t in (1, 2, 3, 4, 5, 7, 8, 16)]
    jobs += [lambda i=i: slow_mc_job(mon, i, 64, 2 + i) for i in range(mon.n(1, 4))]
    jobs += [lambda i=i: hist_job(mon, i) for i in range(mon.n(2, 6))]
    for i, (p, t) in enumerate(mon.n(combos, more)):
        jobs.append(lambda i=i, p=p, t=t: mc_job(mon, i, p, t))
    for i, (p, t) in enumerate(mon.n(combos[:4], more[::4])):
        jobs.append(lambda i=i, p=p, t=t: mc_job(mon, 100 + i, p, t, magnus=True))
    jobs += [lambda i=i: ensemble_job(mon, i, mon.n(200, 1500), [1, 7, 3][i % 3]) for i in range(mon.n(3, 6))]
    dyn = [(1, 1), (1, 4), (2, 8), (100, 3), (257, 8), (1000, 8), (77, 1), (64, 64), (5, 16), (600, 5), (333, 2), (48, 7)]
    for i, (p, t) in enumerate(dyn * mon.n(1, 12)):
        jobs.append(lambda i=i, p=p, t=t: dyn_job(mon, i, p, t))
    for i, (p, t) in enumerate([(300, 4), (800, 8), (150, 1), (500, 3)] * mon.n(1, 6)):
        jobs.append(lambda i=i, p=p, t=t: dyn_job(mon, i, p, t, slow=1.0 + 0.5 * (i % 3)))
    jobs += [lambda i=i: traj_job(mon, i, [1, 2, 50, 400, 1000][i % 5]) for i in range(mon.n(20, 300))]
    jobs += [lambda i=i: magnus_hist_job(mon, i) for i in range(mon.n(3, 12))]
    jobs += [lambda i=i: nsteps_job(mon, i) for i in range(mon.n(3, 18))]
    for mode in ("-m", "--monte-carlo-magnus", "--magnus-hist"):
        jobs += [lambda i=i, mode=mode: thermal.sample_job(mon, mode, i) for i in range(mon.n(2, 12))]
    jobs += [lambda i=i: thermal.start_job(mon, "-n", i) for i in range(mon.n(1, 6))]
    parallel(mon, jobs)


RULE = ("Every sampling mode of the real program with numbers of samples below, equal to and not divisible by the numbers of threads, on top of earlier rows, and into pipes that "
        "accept data late; an offline monitor counts, parses and recomputes every row from the spins, and compares the ensembles with exact distributions. "
        "evaluations counts rows judged; a case is distinct by mode, samples, threads and configuration.")
