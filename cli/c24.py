"""C24: temperature fits return the temperature of the requested energy"""
import glob as _glob
from .common import *
from .c21 import solve_beta

RULE = ("Fitting invocations of the program, judged against an independent Monte Carlo at the temperature it printed: "
        "evaluations counts judged numbers, distinct_nontrivial the invocations with different configurations.")

SAMPLES = 2_000_000
COLS = {"f": 7, "F": 7, "D": 3, "H": 7, "A": 8, "r": 7, "E": 7}
FILE = {"f": "betat.dat", "F": "betat.dat", "D": "beta.dat", "H": "betat.dat", "A": "beta.dat", "r": "betat-rot.dat", "E": "betat-maglab.dat"}


def reference(mon, tag, kind, n, s, tau, lam, beta, hf, hs, samples=SAMPLES):
    a = [mon.rng("ref", tag).randrange(1 << 40), kind, n, s, repr(tau), repr(lam), repr(beta)] + [repr(x) for x in list(hf) + list(hs)] + [samples]
    r = subprocess.run([os.path.join(BIN, "mon"), "REF"] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
    if r.returncode != 0:
        raise CheckError("reference failed: %s" % r.stderr[-500:])
    q = json.loads(r.stdout)
    names = ["h", "u", "mx", "my", "mz", "sub", "exch", "smx", "smy", "smz"]
    return {k: dict(mean=v[0], se=v[1], sd=v[2], cov=v[3]) for k, v in zip(names, q)}


def case(mon, i, mode):
    rng = mon.rng(mode, i)
    n = rng.choice([2, 3, 4, 6, 9] if mode in "fFDHA" else [5, 6, 7])
    tau = rng.choice([1.3, 3.0, 7.0, 12.0]) if mode != "A" else rng.choice([0.9, 1.7])
    lam = rng.choice([1.0, 1.0, 0.4, 1.5, 0.0])
    # a wide difference between what is set and what is used
    hs = [0.0, 0.0, 0.0]
    conf = dict(hsize=n, ssize=n, tau=tau, jvar=rng.choice([0.0, 0.0, 0.001]), threads=rng.choice([1, 2]), runs=1,
                dt=0.1, drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "none"]), hs=hs, hfield=[0.0, 0.0, 0.0],
                ednsty=rng.choice([-0.3, -0.66]), beta=rng.choice([0.5, 2.88]), log=rng.random() < 0.5, t=4.0)
    conf["lambda"] = lam
    args = []
    target = None
    used = conf["tau"]
    if mode in "fFrEH" and rng.random() < 0.5:
        # override of the period
        conf["tau"] = 5.5
        args += ["-t", repr(used)]
    if rng.random() < 0.4:
        b = rng.choice([0.2, 1.1, 3.0])
        args += ["-b", repr(b)]
    else:
        # whatever temperature is stored
        b = solve_beta(conf["ednsty"])
    om = 2 * math.pi / used
    fit_s = n
    if mode in "FD" and rng.random() < 0.4:
        fit_s = conf["ssize"] = rng.randint(2, max(2, n - 1))
    if mode == "f" and rng.random() < 0.5:
        conf["hsize"] = n + rng.randint(1, 7)
    if mode == "A":
        conf["ssize"] = rng.randint(2, n)
        conf["drive"] = rng.choice(["xyplane", "none", "uniaxial"])
        conf["runs"] = rng.choice([1, 2])
    if mode == "H" and rng.random() < 0.5:
        conf["hs"] = [rng.uniform(-1, 1) for _ in range(3)]
    # the ensembles as documented
    kind = {"r": "rot", "E": "maglab"}.get(mode, "plain")
    ref_hs = list(conf["hs"])
    ref_h = [0.0, 0.0, 0.0]
    if mode in "fFD":
        ref_hs, ref_h = [1.0, 0.0, 0.0], [0.0, 0.0, -om]
    if mode == "H":
        ref_h = [0.0, 0.0, -used / (4 * math.pi)]
    if mode == "A":
        ref_hs = [1.0, 0.0, -om]
    if mode == "D" or mode == "F":
        conf["hs"] = rng.choice([[0.0, 0.0, 0.0], [0.3, 0.2, 0.1]])
        conf["hfield"] = rng.choice([[0.0, 0.0, 0.0], [0.3, 0.2, 0.1]])

    def fitted(q):
        """Mean, error, spread and covariance with H of the energy that is fitted"""
        if mode in ("f", "A"):
            m = q["u"]["mean"] + om * q["mz"]["mean"]
            return m, q["u"]["se"] + om * q["mz"]["se"], q["u"]["sd"] + om * q["mz"]["sd"], q["u"]["cov"] + om * q["mz"]["cov"]
        if mode in "FD":
            return q["u"]["mean"], q["u"]["se"], q["u"]["sd"], q["u"]["cov"]
        return q["h"]["mean"], q["h"]["se"], q["h"]["sd"], q["h"]["cov"]

    lo = 0.0001 if mode in "rE" else 0.01
    if mode in "fFrED":
        # a target which is that of a known temperature, or beyond the range
        c = rng.random()
        if i % 4 == 0:
            where = rng.uniform(4.1, 4.9)
        elif c < 0.15:
            where = rng.choice([lo, 5.0])
        else:
            where = math.exp(rng.uniform(math.log(0.15), math.log(4.0)))
        beyond = 0.0 if where not in (lo, 5.0) else (0.7 if where == lo else -0.7)
        q = reference(mon, (mode, i, "target"), kind, n, fit_s, used, lam, where, ref_h, ref_hs, 200_000)
        target = fitted(q)[0] + beyond
        target = round(target, 4)
    if mode == "D":
        # the target of this mode is the configured energy density, from which the initial temperature
        # follows if it is that of a state without magnetisation
        conf["ednsty"] = target
        if "-b" not in args:
            b = solve_beta(target) if -0.999 < target < -0.001 else None
    if mode in "DA":
        args = [("-D" if mode == "D" else "-A"), repr(used)] + args
        conf["tau"] = rng.choice([used, 5.5])
    elif mode == "H":
        target = round(rng.uniform(-0.9, -0.1), 3)
        args += [rng.choice(["-H", "--high-freq"]), repr(target)]
    elif mode == "E":
        args += [rng.choice(["-E", "--magnus-fit"]), repr(target)]
    else:
        args += ["--rot-frame" if mode == "r" and rng.random() < 0.5 else "-" + mode, repr(target)]

    with Scratch(conf) as sc:
        fn = FILE[mode]
        before = b""
        if rng.random() < 0.5:
            before = b"1 2 3\n"
            sc.write(fn, before)
        r = run_sc(sc, args, seed=rng.randrange(1, 1 << 31), cpu_limit=900, wall_limit=800)
        show0 = describe(sc, r)
        if not must_finish(mon, sc, r):
            return
        data = sc.read(fn) or b""
        if not mon.require("the row is appended", data.startswith(before) and len(data) > len(before), lambda: dict(show0, file=data.decode("utf8", "replace")[:500])):
            return
        rows = parse_rows(data[len(before):], mon, json.dumps(show0, default=repr), COLS[mode])
        if rows is None or not mon.require("one row per fit", len(rows) == 1, lambda: dict(show0, rows=rows)):
            return
        mon.require("no log of another mode", not [f for f in sc.files() if f not in ("config.toml", fn)], lambda: dict(show0, files=sc.files()))
        row = rows[0]
    show = lambda: dict(show0, row=row, target=target)  # noqa: E731
    if mode in "fFrEH":
        beta, obs = row[2], row[3:7]
        mon.require("the row starts with the period and the target", row[0] == used and row[1] == target, show)
    elif mode == "D":
        beta, obs = row[2], None
        mon.require("the row starts with the period and the initial temperature", row[0] == used and (b is None or abs(row[1] - b) <= 1e-9 * b), show)
    else:
        beta, obs = row[2], row[3:7]
        target = row[7]
        mon.require("the row starts with the period and the initial temperature", row[0] == used and (b is None or abs(row[1] - b) <= 1e-9 * b), show)
    mon.case((mode, sorted(conf.items(), key=str), tuple(args)))
    mon.sample({"args": args, "row": row})
    if mode == "H":
        mon.require("the configured temperature is used", abs(beta - b) <= 1e-9 * b, show)
    elif not mon.require("the temperature is within the search range", lo <= beta <= 5.0, show):
        return
    q = reference(mon, (mode, i, "at"), kind, n, fit_s, used, lam, beta, ref_h, ref_hs)
    extra = 0.003 if conf["jvar"] else 0.0
    # disorder is drawn once for every estimate: its effect on the energy per site
    extra_m = extra
    if mode != "H":
        m, se, sd, cov = fitted(q)
        tol = 7.5 * sd / math.sqrt(1000) + 6 * se + abs(n * cov) * 0.0012 + extra + 1e-4
        at_lo, at_hi = beta < lo + 0.0011, beta > 5.0 - 0.0011
        gap = m - target
        if at_lo:
            mon.bound("at the hot end the requested energy is not below it", max(0.0, -(target - m)), tol, lambda: dict(show(), mean=m))
        elif at_hi:
            mon.bound("at the cold end the requested energy is not above it", max(0.0, target - m), tol, lambda: dict(show(), mean=m))
        else:
            mon.bound("the mean energy at the fitted temperature is the target", abs(gap), tol, lambda: dict(show(), mean=m))
        mon.case()
    if obs is None or (mode == "F" and fit_s != n):
        return
    if mode in ("f", "A"):
        we, se, sd = q["u"]["mean"] + om * q["mz"]["mean"], q["u"]["se"] + om * q["mz"]["se"], q["u"]["sd"] + om * q["mz"]["sd"]
    elif mode in "rE":
        we, se, sd = q["u"]["mean"] + q["mx"]["mean"], q["u"]["se"] + q["mx"]["se"], q["u"]["sd"] + q["mx"]["sd"]
    else:
        we, se, sd = q["u"]["mean"], q["u"]["se"], q["u"]["sd"]
    mon.bound("ensemble average of the energy", abs(obs[0] - we), 7 * sd / math.sqrt(8000) + 6 * se + extra_m + 1e-4, lambda: dict(show(), want=we))
    for k, x in zip(("mx", "my", "mz"), obs[1:]):
        mon.bound("ensemble average of the magnetisation", abs(x - q[k]["mean"]), 7 * q[k]["sd"] / math.sqrt(8000) + 6 * q[k]["se"] + extra_m + 1e-4,
                  lambda: dict(show(), component=k, want=q[k]["mean"]))
    mon.case(n=4)


def adiabatic_target(mon, i):
    """The energy that -A fits is that of the trajectory: conserved, and thermal, without drive"""
    rng = mon.rng("adiabatic target", i)
    n = rng.choice([40, 60])
    s = rng.choice([n, n, n // 2])
    hf = rng.choice([[0.0, 0.0, 0.0], [0.0, 0.0, 0.6], [0.5, 0.0, 0.0]])
    b = rng.choice([0.7, 2.0, 4.0])
    conf = dict(hsize=n, ssize=s, tau=3.3, jvar=0.0, threads=3, runs=6, dt=0.1, drive="none", hs=[0.0, 0.0, 0.0], hfield=hf, ednsty=1 / b - 1 / math.tanh(b), beta=0.1, log=False, t=4.0)
    args = []
    if i % 2:
        conf["ednsty"] = -0.2
        args = ["-b", repr(b)]
    tau = rng.choice([0.7, 1.1])
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-A", repr(tau)] + args, seed=rng.randrange(1, 1 << 31), cpu_limit=1200, wall_limit=800)
        show0 = describe(sc, r)
        if not must_finish(mon, sc, r):
            return
        rows = parse_rows(sc.read("beta.dat") or b"", mon, "beta.dat", 8)
        if not mon.require("one row per fit", rows is not None and len(rows) == 1, lambda: show0):
            return
    row = rows[0]
    q = reference(mon, ("traj", i), "plain", n, s, tau, 1.0, b, hf, [0.0, 0.0, 0.0], 60_000)
    # six trajectories, of which each keeps its energy per site
    tol = 7 * (q["sub"]["sd"] if s != n else q["sub"]["sd"]) / math.sqrt(6) + 8 * q["sub"]["se"] + 1e-3
    mon.bound("the target of the adiabatic fit is the mean energy along the trajectories", abs(row[7] - q["sub"]["mean"]), tol,
              lambda: dict(show0, row=row, want=q["sub"]))
    mon.case(("traj", i, seed_free(conf)))


def seed_free(conf):
    return tuple(sorted((k, repr(v)) for k, v in conf.items()))


def run(mon):
    jobs = []
    plan = {"r": mon.n(8, 40), "E": mon.n(8, 40), "A": mon.n(6, 30), "f": mon.n(10, 60), "F": mon.n(10, 60), "D": mon.n(8, 40), "H": mon.n(8, 40)}
    for i in range(mon.n(2, 10)):
        jobs.append(lambda i=i: adiabatic_target(mon, i))
    for mode, k in plan.items():
        for i in range(k):
            jobs.append(lambda i=i, mode=mode: case(mon, i, mode))
    parallel(mon, jobs)
