"""C22: spatial profiles are exact averages over all samples"""
from .common import *

KS8 = [500 * k for k in range(1, 9)]


def read_profile(mon, sc, name, size, r):
    data = sc.read(name)
    if not mon.require("the profile is written", data is not None, lambda: dict(describe(sc, r), files=sc.files())):
        return None
    rows = parse_rows(data, mon, json.dumps(dict(describe(sc, r), file=name)), 5)
    if rows is None:
        return None
    ok = [x[0] for x in rows] == list(range(size))
    if not mon.require("one row per site, in order", ok, lambda: dict(describe(sc, r), file=name, rows=len(rows))):
        return None
    mon.case((name, json.dumps(sc.conf), tuple(r.args)), n=len(rows))
    return rows


def single_sample(mon, rows, lam, show):
    """A profile of one sample shows the whole state"""
    n = len(rows)
    sp = [x[2:5] for x in rows]
    js = [1.0, 1.0, lam]
    for j in range(n):
        mon.bound("one sample has unit spins", abs(norm(sp[j]) - 1), 1e-12, show)
        e = -0.5 * sum(sp[j][k] * js[k] * (sp[(j - 1) % n][k] + sp[(j + 1) % n][k]) for k in range(3))
        mon.bound("local energy is half of both bonds", abs(e - rows[j][1]), 1e-11, lambda: show(j))


def mc_single(mon, i):
    rng = mon.rng("single", i)
    size = [2, 3, 7, 64, 5, 301][i % 6]
    conf = dict(hsize=size, ssize=rng.randint(2, size), jvar=0.0, mc_points=1, threads=rng.choice([1, 4]), ednsty=-0.5,
                hfield=[0.3, 0.0, -0.2], runs=1)
    conf["lambda"] = round(rng.uniform(-1, 1.5), 3)
    with Scratch(conf) as sc:
        if i % 2:
            sc.write("mc_profile.dat", "a longer file of an earlier run\n" * 400)
        r = run_sc(sc, ["-p"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = read_profile(mon, sc, "mc_profile.dat", size, r)
        if rows:
            single_sample(mon, rows, conf["lambda"], lambda x="": dict(describe(sc, r), note=x))
            mon.note("profiles of one sample")


def mc_disorder(mon, i):
    """With disorder: the same random stream gives the same sample in both Monte Carlo modes, so the local energies add
    up to the total energy reported there"""
    rng = mon.rng("disorder", i)
    size = rng.randint(2, 12)
    conf = dict(hsize=size, ssize=size, jvar=0.8, mc_points=1, threads=1, drive="none")
    seed = rng.getrandbits(60)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-p"], seed=seed)
        if not must_finish(mon, sc, r):
            return
        rows = read_profile(mon, sc, "mc_profile.dat", size, r)
        r2 = run_sc(sc, ["-m"], seed=seed)
        if not rows or r2.code != 0:
            return
        live = parse_rows(sc.read("mc_live.dat") or b"")
        if not live or len(live[0]) != 11:
            return
        live = live[0]
        # the sample is the same one?
        a, b = rows[size // 4][2:5], rows[3 * size // 4][2:5]
        if max(abs(x - y) for x, y in zip(a + b, live[5:11])) > 1e-12:
            mon.note("samples of the two modes differ (not judged)")
            return
        mon.bound("local energies add up to the total exchange energy", abs(sum(x[1] for x in rows) / size - live[0]), 1e-11,
                  lambda: dict(describe(sc, r), total=live[0], rows=rows))
        for k in range(3):
            mon.bound("local spins add up to the total magnetisation", abs(sum(x[2 + k] for x in rows) / size - live[2 + k]), 1e-11, lambda: describe(sc, r))
        mon.note("samples compared between modes")


def mc_many(mon, i, points, threads):
    """At infinite temperature the mean of P independent unit vectors has mean square 1/P"""
    rng = mon.rng("many", i)
    # beyond two samples every site must be refreshed in 10^6 updates, so not too long
    size = 4000
    conf = dict(hsize=size, ssize=2, jvar=0.0, mc_points=points, threads=threads)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-p", "-b", "0"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = read_profile(mon, sc, "mc_profile.dat", size, r)
        if not rows:
            return
        show = lambda: dict(describe(sc, r), points=points)
        # P |mean|^2 has mean 1 and variance (2/3)(1 - 1/P)
        q = [points * dot(x[2:5], x[2:5]) for x in rows]
        z = (sum(q) / size - 1) / math.sqrt(max(1e-9, 2 / 3 * (1 - 1 / points)) / size) if points > 1 else 0
        mon.bound("each site is averaged over exactly the requested samples", abs(z), Z, lambda: dict(show(), mean=sum(q) / size))
        # P * local energy^2 has mean 1/6; neighbours share a bond, so the variance of the mean is estimated from blocks
        e = [points * x[1] ** 2 for x in rows]
        blocks = [sum(e[b:b + 40]) / 40 for b in range(0, size, 40)]
        mu = sum(blocks) / len(blocks)
        se = math.sqrt(sum((b - mu) ** 2 for b in blocks) / (len(blocks) - 1) / len(blocks))
        mon.bound("local energies are averaged over exactly the requested samples", abs(mu - 1 / 6) / se, 8.0, show)
        for k in range(3):
            s = sum(x[2 + k] for x in rows) / math.sqrt(size / points / 3)
            mon.bound("profile at infinite temperature is isotropic", abs(s), Z, show)
        mon.note("samples averaged", points)


def mc_thermal(mon, i):
    """Mean local energy of the isotropic ring is exact"""
    rng = mon.rng("thermal", i)
    beta = [1.0, 2.5][i % 2]
    size = 1000
    points, threads = [(5, 3), (7, 4)][i % 2]
    conf = dict(hsize=size, ssize=rng.choice([2, 900]), jvar=0.0, mc_points=points, threads=threads)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-p", "-b", repr(beta)], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = read_profile(mon, sc, "mc_profile.dat", size, r)
        if not rows:
            return
        blocks = [sum(x[1] for x in rows[b:b + 50]) / 50 for b in range(0, size, 50)]
        mu = sum(blocks) / len(blocks)
        se = math.sqrt(sum((b - mu) ** 2 for b in blocks) / (len(blocks) - 1) / len(blocks))
        want = 1 / beta - 1 / math.tanh(beta)
        # few blocks: Student with 19 degrees of freedom, chance 1e-10 beyond 12.7
        mon.bound("mean local energy is that of the temperature", abs(mu - want) / se, 13.0, lambda: dict(describe(sc, r), mean=mu, want=want))


def dyn_conserved(mon, i):
    """Undriven: the exchange energy is conserved, so all profiles of the same runs have the same total"""
    rng = mon.rng("conserved", i)
    size = [2, 3, 8, 5, 16][i % 5]
    runs, threads = [(1, 1), (3, 2), (2, 8), (5, 2), (3, 3)][i % 5]
    tau, dt = [(0.02, 0.01), (0.01, 0.1), (0.03, 0.02), (0.05, 0.07), (0.004, 0.004), (0.0001, 0.1), (1e-5, 0.1)][(i + i // 5) % 7]
    conf = dict(hsize=size, ssize=rng.randint(2, size), jvar=rng.choice([0.0, 0.1]) if runs > 1 else 0.0, tau=tau, dt=dt, runs=runs, threads=threads,
                drive="none", trel=rng.choice([0.0, 0.0, 20 * tau]))
    conf["lambda"] = round(rng.uniform(-1, 1.5), 3)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-P"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        totals = []
        for k in KS8:
            rows = read_profile(mon, sc, "dyn_profile-%d-tau.dat" % k, size, r)
            if not rows:
                return
            totals.append(sum(x[1] for x in rows))
            if runs == 1:
                single_sample(mon, rows, conf["lambda"], lambda x="": dict(describe(sc, r), file=k, note=x))
            for x in rows:
                mon.require("average of unit vectors", norm(x[2:5]) <= 1 + 1e-12, lambda: dict(describe(sc, r), row=x))
        mon.bound("all profiles are of the same runs", max(totals) - min(totals), 1e-8 * size, lambda: dict(describe(sc, r), totals=totals))
        mon.note("dynamic profiles judged", 8)


def dyn_times(mon, i):
    """Two or three spins: profile k + 1 is profile k after 500 periods"""
    rng = mon.rng("times", i)
    size = 2 + i % 2
    tau = [0.002, 0.001, 0.004, 0.0008][i % 4]
    dt = [0.002, 0.001, 0.0005, 0.0003][i % 4]
    h = [0.0, rng.choice([-1, 1]) * 6.0, 3.0]
    conf = dict(hsize=size, ssize=size, jvar=0.0, tau=tau, dt=dt, runs=1, threads=1, drive="none", hfield=h)
    conf["lambda"] = 0.7
    eff = full(conf)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-P"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        js, hs = [[1.0, 1.0, 0.7]] * size, static_fields(eff)
        prev = None
        for k in KS8:
            rows = read_profile(mon, sc, "dyn_profile-%d-tau.dat" % k, size, r)
            if not rows:
                return
            sp = [x[2:5] for x in rows]
            if prev is not None:
                # each profile is at the step nearest 500 k periods
                t1, t0 = round(k * tau / dt) * dt, round((k - 500) * tau / dt) * dt
                n = max(20, int((t1 - t0) / 0.004))
                want = rk4(eff, prev, t0, t1 - t0, n, js, hs)
                wmax = 2 + norm(h)
                err = max(norm(sub(a, b)) for a, b in zip(want, sp))
                # half of the effect of one step too many (6.7 dt), or splitting errors
                mon.bound("profiles are 500 periods apart", err, 0.5 * dt * norm(h) * 0.5, lambda: dict(describe(sc, r), k=k, want=want, got=sp))
            prev = sp
        mon.note("profile intervals integrated", 7)


def dyn_phase(mon, i):
    """Fully driven isotropic chain: the total spin obeys a linear equation with a fixed rotation per period, so at
    whole periods its component along the rotation axis is constant. At other phases the axis is another."""
    rng = mon.rng("phase", i)
    size = [4, 2, 6][i % 3]
    runs = [2, 1, 3][i % 3]
    tau = 3.0
    dt = 0.05
    conf = dict(hsize=size, ssize=size, jvar=0.0, tau=tau, dt=dt, runs=runs, threads=rng.choice([1, 2, 3]), drive="xyplane", ednsty=-0.9)
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-P"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        ms = []
        for k in KS8:
            rows = read_profile(mon, sc, "dyn_profile-%d-tau.dat" % k, size, r)
            if not rows:
                return
            ms.append([sum(x[2 + q] for x in rows) for q in range(3)])
        w = 2 * math.pi / tau
        # rotating frame: dM/dt = M x (-x) + w M x z  =>  axis (-1, 0, w)
        ax = scale([-1.0, 0.0, w], 1 / math.hypot(1, w))
        v = [dot(m, ax) / size for m in ms]
        # splitting errors stay below 0.0015; one step too early or late gives up to 0.1
        mon.bound("profiles are taken at whole periods", max(v) - min(v), 0.008, lambda: dict(describe(sc, r), along_axis=v))
        mon.note("phases of profiles judged", 8)
        mon.sample({"along the axis": v, "config": conf})


def run(mon):
    jobs = []
    jobs += [lambda i=i: dyn_conserved(mon, i) for i in range(mon.n(14, 84))]
    jobs += [lambda i=i: dyn_times(mon, i) for i in range(mon.n(4, 24))]
    jobs += [lambda i=i: dyn_phase(mon, i) for i in range(mon.n(4, 30))]
    jobs += [lambda i=i: mc_single(mon, i) for i in range(mon.n(6, 60))]
    jobs += [lambda i=i: mc_disorder(mon, i) for i in range(mon.n(12, 100))]
    combos = [(2, 1), (3, 2), (4, 3), (5, 8), (8, 8), (7, 4), (2, 2)]
    more = [(p, t) for p in range(1, 13) for t in (1, 2, 3, 4, 5, 8, 16)]
    jobs += [lambda i=i, p=p, t=t: mc_many(mon, i, p, t) for i, (p, t) in enumerate(mon.n(combos, more))]
    jobs += [lambda i=i: mc_thermal(mon, i) for i in range(mon.n(2, 12))]
    parallel(mon, jobs)


RULE = ("Monte Carlo and dynamic profiles of the real program for many sizes, points, runs, threads, periods (down to 500 periods shorter than a step) and steps; an offline monitor "
        "checks rows, recomputes one-sample profiles, measures the number of samples behind each average from its fluctuations at infinite temperature, compares conserved totals of the eight "
        "dynamic profiles and integrates from one profile to the next. evaluations counts profile rows judged, a case is one profile file of one configuration.")
