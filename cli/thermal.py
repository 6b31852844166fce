"""Ensembles of many spins: what the sampling modes write and what simulation runs start from, against an independent Monte Carlo"""
from .common import *


def reference(*a):
    from .c24 import reference as f
    return f(*a)


def compare(mon, what, rows, q, show):
    """rows: {quantity of the reference: values, one per independent sample}"""
    for k, xs in rows.items():
        n = len(xs)
        want = q[k]
        mean = sum(xs) / n
        tol = 7 * want["sd"] / math.sqrt(n) + 8 * want["se"] + 1e-9
        mon.bound(what, abs(mean - want["mean"]), tol, lambda: dict(show(), quantity=k, mean=mean, want=want))
        if n >= 40 and want["sd"] > 1e-6:
            var = sum((x - mean) ** 2 for x in xs) / (n - 1) / want["sd"] ** 2
            mon.require("samples vary as independent ones do", 0.2 < var < 3.0, lambda: dict(show(), quantity=k, ratio=var, want=want))
    mon.note("ensemble averages of many spins", len(rows))


def common(rng, n, cold=False):
    conf = dict(hsize=n, ssize=n, jvar=0.0, hvar=0.0, hfield=[0.0, 0.0, 0.0], hs=[0.0, 0.0, 0.0], drive="none", dt=0.05, tau=1.0, trel=rng.choice([0.0, 0.4]),
                ednsty=-0.3, runs=8, threads=8, offset=0)
    conf["lambda"] = 1.0
    beta = rng.choice([0.8, 1.7, 2.6]) if not cold else rng.choice([6.0, 8.0])
    if rng.random() < 0.5:
        return conf, ["-b", repr(beta)], beta
    conf["ednsty"] = 1 / beta - 1 / math.tanh(beta)
    return conf, [], beta


def sample_job(mon, mode, i):
    rng = mon.rng("thermal", mode, i)
    kind, n, points, sweeps = {"-m": ("plain", 240, 48, 8_000), "--monte-carlo-magnus": ("full", 24, 48, 100_000), "--magnus-hist": ("magnus", 24, 60, 100_000)}[mode]
    conf, args, beta = common(rng, n)
    if mode == "-m":
        conf.update(hfield=[0.0, 0.3, round(rng.uniform(-1, 1), 2)], hs=[0.5, 0.0, 0.0], ssize=rng.choice([n, n // 3]))
    else:
        conf["tau"] = rng.choice([5.0, 6.0])
        if mode == "--magnus-hist":
            conf["ssize"] = rng.choice([24, 13])
    conf["lambda"] = rng.choice([0.3, 1.4])
    conf["mc_points"] = points
    name = "hist_mc_magnus.dat" if mode == "--magnus-hist" else "mc_live.dat"
    with Scratch(conf) as sc:
        r = run_sc(sc, [mode] + ([str(points)] if mode == "--magnus-hist" else []) + args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = parse_rows(sc.read(name) or b"", mon, name, 11)
        if rows is None or not mon.require("exactly the requested number of rows", len(rows) == points, lambda: describe(sc, r)):
            return
    q = reference(mon, ("thermal", mode, i), kind, n, conf["ssize"], conf["tau"], conf["lambda"], beta, conf["hfield"], conf["hs"], sweeps)
    if mode == "--magnus-hist":
        got = {"smx": [x[1] for x in rows], "smy": [x[2] for x in rows], "smz": [x[3] for x in rows]}
    else:
        got = {"smx": [x[2] for x in rows], "smy": [x[3] for x in rows], "smz": [x[4] for x in rows], ("u" if mode == "-m" else "exch"): [x[0] for x in rows]}
    compare(mon, "samples of many spins have the averages of the ensemble", got, q, lambda: describe(sc, r))
    mon.case(("thermal", mode, json.dumps(conf), tuple(args)), n=len(rows))


START = "simulation runs start in the thermal state"


def start_job(mon, mode, i):
    rng = mon.rng("start", mode, i)
    # long cold chains need the whole warm-up
    cold = i % 2 == 0 and mode not in ("-P", "-l")
    n = 1000 if cold else 240
    conf, args, beta = common(rng, n, cold)
    conf["lambda"] = 2.0 if mode == "-l" else 0.3
    conf["t"] = 0.2
    if mode != "-l":
        conf["hfield"] = [0.0, 0.3, rng.choice([-0.9, 0.8])]
    argv = {"": [], "--response": ["--response"], "-e": ["-e"], "-l": ["-l", "0.5"], "-P": ["-P"], "-n": ["-n", ",".join("%g" % (0.5 + k) for k in range(8)), "--steps", "1"]}[mode]
    if mode == "-P":
        conf["tau"], conf["dt"] = 0.03, 0.03
    with Scratch(conf) as sc:
        r = run_sc(sc, argv + args, seed=rng.getrandbits(60), cpu_limit=1200)
        if not must_finish(mon, sc, r):
            return
        if mode == "-P":
            # an undriven thermal state stays one
            got = {"mx": [], "my": [], "mz": []}
            rows = parse_rows(sc.read("dyn_profile-2000-tau.dat") or b"", mon, "profile", None)
            if not mon.require("a profile of every site", rows is not None and len(rows) == n and len(rows[0]) == 5, lambda: describe(sc, r)):
                return
            for k, c in enumerate(("mx", "my", "mz")):
                got[c] = [sum(x[2 + k] for x in rows) / n] * 8
        elif mode == "-n":
            # so it does after a step
            rows = parse_rows(sc.read("evt1.dat") or b"", mon, "evt1.dat", 7)
            if rows is None or not mon.require("one row per period", len(rows) == 8, lambda: describe(sc, r)):
                return
            got = {c: [x[k] for x in rows] for k, c in ((2, "u"), (4, "mx"), (5, "my"), (6, "mz"))}
        else:
            got = {}
            for k in range(8):
                data = sc.read("log%d.dat" % k)
                if not mon.require("every run has a log", data is not None, lambda: describe(sc, r)):
                    return
                if mode == "-e":
                    block = data.decode().split("\n", 1)[1].split("\n\n")[0]
                    rows = parse_rows((block + "\n").encode(), mon, "log", 6) or []
                    if not mon.require("a row of every interior site", len(rows) == n - 2, lambda: describe(sc, r)):
                        return
                    for q, c in enumerate(("mx", "my", "mz")):
                        got.setdefault(c, []).append(sum(x[3 + q] for x in rows) / len(rows))
                    continue
                line = data.decode().split("\n", 2)[1] + "\n"
                rows = parse_rows(line.encode(), mon, "log", 8 if mode == "-l" else 13)
                if not rows:
                    return
                x = rows[0]
                if mode == "-l":
                    got.setdefault("sub", []).append(x[1])
                else:
                    for q, c in enumerate(("u", None, "mx", "my", "mz")):
                        if c:
                            got.setdefault(c, []).append(x[1 + q])
    q = reference(mon, ("start", mode, i), "plain", n, n, 1.0, conf["lambda"], beta, conf["hfield"], conf["hs"], 8_000)
    compare(mon, START, got, q, lambda: describe(sc, r))
    mon.case(("start", mode, json.dumps(conf), tuple(args)), n=8)
