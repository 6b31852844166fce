"""C29: equivalent requests produce the same data (metamorphic, under one random stream)"""
from .common import *
from . import thermal
from .c21 import solve_beta

# Each mode: its arguments, and what it needs of the configuration
MODES = {
    "run": ([], {}),
    "response": (["--response"], {}),
    "ext": (["-e"], {}),
    "langevin": (["-l", "0.7"], {}),
    "nsteps": (["-n", "1.5", "--steps", "3"], {}),
    "dynamic profile": (["-P"], {"tau": 0.05, "dt": 0.5}),
    "mc": (["-m"], {}),
    "mc profile": (["-p"], {}),
    "dynamic histogram": (["-d", "2"], {}),
    "trajectory": (["-s", "3"], {}),
    "magnus histogram": (["--magnus-hist", "3"], {}),
    "mc magnus": (["--monte-carlo-magnus"], {}),
    "high frequency": (["-H", "-0.45"], {}),
}
SLOW = {
    "fit": (["-f", "-0.9"], {}),
    "fit effective": (["-F", "-0.9"], {}),
    "adiabatic": (["-A", "0.5"], {}),
    "adiabatic full": (["-D", "2.5"], {}),
}
DRIVEN = ["run", "response", "ext", "langevin", "nsteps", "dynamic profile", "dynamic histogram", "trajectory"]
ENERGY = lambda b: 1 / b - 1 / math.tanh(b)


def base(rng, extra):
    n = rng.randint(4, 9)
    c = dict(hsize=n, ssize=rng.randint(3, n), t=rng.choice([1.0, 2.5]), dt=rng.choice([0.1, 0.25]), runs=1, threads=1, mc_points=2,
             tau=rng.choice([1.5, 3.0]), jvar=0.2, hvar=rng.choice([0.0, 0.15]), hfield=[round(rng.uniform(-1, 1), 3) for _ in range(3)],
             hs=[round(rng.uniform(-1, 1), 3) for _ in range(3)], ednsty=-0.5, trel=rng.choice([0.0, 0.5]), beta=1.7,
             drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "staticfield"]), e=0.4, file=rng.choice(["log", "r-"]))
    c["lambda"] = rng.choice([1.0, 0.6])
    c.update(extra)
    return c


def outputs(conf, args, seed, mon):
    """Name -> rows of every data file; None if it did not work"""
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=seed)
        if not must_finish(mon, sc, r):
            return None
        out = {}
        for name, data in sc.snapshot().items():
            if name.startswith("config") or name.startswith("."):
                continue
            out[name] = [[float(x) for x in line.split()] for line in (data or b"").decode().split("\n") if not line.startswith("#")]
        return out


def same(a, b):
    if sorted(a) != sorted(b):
        return "files %s and %s" % (sorted(a), sorted(b))
    for f in sorted(a):
        if len(a[f]) != len(b[f]):
            return "%s has %d and %d lines" % (f, len(a[f]), len(b[f]))
        for i, (x, y) in enumerate(zip(a[f], b[f])):
            if len(x) != len(y) or any(not abs(p - q) <= 1e-7 * (1 + abs(p)) for p, q in zip(x, y)):
                return "%s, line %d: %s and %s" % (f, i, x, y)
    return None


def equivalent(mon, what, mode, one, two, seed, check=None):
    """Two requests, each (configuration, arguments)"""
    a = outputs(one[0], one[1], seed, mon)
    b = outputs(two[0], two[1], seed, mon)
    if a is None or b is None:
        return
    rows = sum(len([x for x in v if x]) for v in a.values())
    if not mon.require("something is written", rows > 0, lambda: {"mode": mode, "config": one[0], "args": one[1]}):
        return
    diff = same(a, b)
    mon.require(what, diff is None, lambda: {"mode": mode, "first": {"config": one[0], "args": one[1]},
                                             "second": {"config": two[0], "args": two[1]}, "difference": diff})
    mon.case((what, mode, json.dumps(one[0]), one[1]), n=rows)
    mon.note("pairs: " + what)


def two(mode):
    return (MODES.get(mode) or SLOW[mode])


def beta_job(mon, mode, i):
    rng = mon.rng("beta", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    b = rng.choice([0.3, 1.1, 4.0])
    other = dict(conf, ednsty=ENERGY(b), beta=rng.choice([0.05, 9.0]))
    b = solve_beta(other["ednsty"])
    equivalent(mon, "-b is the temperature otherwise determined by ednsty", mode, (conf, args + ["-b", repr(b)]), (other, args), rng.getrandbits(60))


def stored_job(mon, mode, i):
    rng = mon.rng("stored", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    equivalent(mon, "the temperature is determined by ednsty, not by what is stored", mode, (conf, args), (dict(conf, beta=rng.choice([0.05, 9.0])), args), rng.getrandbits(60))


def tau_job(mon, mode, i):
    rng = mon.rng("tau", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    tau = {"dynamic profile": 0.07}.get(mode, rng.choice([0.9, 2.0, 12.0]))
    seed = rng.getrandbits(60)
    if mode in ("nsteps", "adiabatic", "adiabatic full"):
        equivalent(mon, "modes given their own period use it", mode, (conf, args), (dict(conf, tau=tau), args), seed)
        equivalent(mon, "modes given their own period use it", mode, (conf, args), (conf, args + ["-t", repr(tau)]), seed)
    else:
        equivalent(mon, "-t is the period in the configuration", mode, (conf, args + ["-t", repr(tau)]), (dict(conf, tau=tau), args), seed)


def drive_job(mon, mode, i):
    rng = mon.rng("drive", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    x, y = [(dict(drive="xyelliptic", e=1.0), dict(drive="xyplane", e=0.3)),
            (dict(drive="xyelliptic", e=0.0), dict(drive="uniaxial", e=0.8)),
            (dict(drive="none", hs=[0.0] * 3), dict(drive="staticfield", hs=[0.0] * 3)),
            (dict(drive="uniaxial", e=0.1), dict(drive="uniaxial", e=0.9)),
            ][i % 4]
    equivalent(mon, "drives that are the same field", mode, (dict(conf, **x), args), (dict(conf, **y), args), rng.getrandbits(60))


def field_job(mon, mode, i):
    rng = mon.rng("field", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    conf["ssize"] = conf["hsize"]
    conf["drive"] = rng.choice(["xyplane", "uniaxial", "none"])
    h = conf["hs"]
    equivalent(mon, "a field on a subsystem which is the whole chain is a field everywhere", mode, (dict(conf, hs=h, hfield=[0.0] * 3), args),
               (dict(conf, hs=[0.0] * 3, hfield=h), args), rng.getrandbits(60))


def unused_job(mon, mode, i):
    rng = mon.rng("unused", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    other = dict(conf, method=rng.choice([1, 4]))
    logs = mode in ("run", "response", "ext", "langevin", "nsteps", "dynamic profile")
    if logs:
        other["mc_points"] = 7
    else:
        # modes that do not log: the names of logs and when to write them
        other.update(file="elsewhere", strob=True, offset=12, log=False, runs=1 if mode == "adiabatic" else 3)
    if mode in ("mc", "mc profile", "magnus histogram", "high frequency"):
        other.update(t=99.0, dt=0.01)
    if mode in ("langevin", "fit"):
        # simulate the subsystem alone
        other["hsize"] = conf["hsize"] + 5
    equivalent(mon, "settings a mode does not use", mode, (conf, args), (other, args), rng.getrandbits(60))


def strob_job(mon, mode, i):
    """A stroboscopic log is the ordinary one at whole periods"""
    rng = mon.rng("strob", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    conf.update(t=6.0, dt=0.1, tau=rng.choice([0.5, 1.0, 1.5]), trel=rng.choice([0.0, 0.3]))
    seed = rng.getrandbits(60)
    a = outputs(dict(conf, strob=False), args, seed, mon)
    b = outputs(dict(conf, strob=True), args, seed, mon)
    if a is None or b is None:
        return
    per = round(conf["tau"] / conf["dt"])
    want = {}
    for f, rows in a.items():
        full_rows = [x for x in rows if x]
        want[f] = full_rows[:1] + [x for x in full_rows[1:] if round(x[0] / conf["dt"]) % per == 0]
    diff = same(want, {f: [x for x in rows if x] for f, rows in b.items()})
    mon.require("a stroboscopic log is the ordinary one at whole periods", diff is None, lambda: {"mode": mode, "config": conf, "args": args, "difference": diff})
    mon.case(("strob", mode, json.dumps(conf)), n=sum(len(x) for x in want.values()))
    mon.note("pairs: stroboscopic")


def default_job(mon, i):
    rng = mon.rng("default", i)
    conf = base(rng, {})
    conf.update(hsize=3, ssize=2, t=0.3, dt=0.3, tau=0.3, trel=0.0)
    short, long_ = [(["-l"], ["-l", "1"]), (["-n", "0.7"], ["-n", "0.7", "--steps", "1000"]), (["-d"], ["-d", "1000"]), (["-s"], ["-s", "1000"]),
                    (["-l"], ["--langevin", "1.0"]), (["-m"], ["--monte-carlo"]), (["--magnus-hist"], ["--magnus-hist", "8000"])][i]
    equivalent(mon, "defaults of the options", short[0], (conf, short), (conf, long_), rng.getrandbits(60))


def config_job(mon, mode, i):
    """Parameters left out are the documented defaults, whatever is done with them"""
    rng = mon.rng("config", mode, i)
    args, extra = two(mode)
    conf = base(rng, extra)
    drop = rng.sample([k for k in conf if k not in ("hsize", "t", "runs", "threads", "dt", "tau", "mc_points", "ssize")], 6)
    filled = dict(conf)
    for k in drop:
        filled[k] = DEFAULTS[k]
    equivalent(mon, "parameters left out are the documented defaults", mode, ({k: v for k, v in conf.items() if k not in drop}, args),
               (filled, args), rng.getrandbits(60))


def hist_default_job(mon):
    """--histogram writes 8000 rows by Monte Carlo before it goes on to dynamics (which takes hours)"""
    with Scratch(dict(hsize=3, ssize=2, jvar=0.0, threads=1)) as sc:
        out = open(sc.path(".out"), "wb")
        p = subprocess.Popen([os.path.join(BIN, "sc-mon"), "--histogram"], cwd=sc.dir, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.DEVNULL,
                             env=dict(os.environ, VERIF_RNG_SEED="5", TERM="dumb"))
        try:
            start = time.monotonic()
            while True:
                time.sleep(0.3)
                text = sc.read(".out") or b""
                if b"Initial e" in text or p.poll() is not None:
                    break
                if time.monotonic() - start > 500:
                    # neither finished nor wrong: no verdict
                    mon.note("default of --histogram not reached in time")
                    return
        finally:
            p.kill()
            p.wait()
            out.close()
        rows = (sc.read("hist_mc.dat") or b"").count(b"\n")
        mon.require("defaults of the options", rows == 8000, {"mode": "--histogram", "rows": rows})
        mon.case("--histogram", n=rows)


def run(mon):
    jobs = [lambda: hist_default_job(mon)]
    jobs += [lambda i=i: default_job(mon, i) for i in reversed(range(mon.n(7, 7)))]
    for i in range(mon.n(1, 8)):
        for mode in (SLOW if i % 4 == 0 else {}):
            jobs.append(lambda m=mode, i=i: stored_job(mon, m, i))
            jobs.append(lambda m=mode, i=i: tau_job(mon, m, i))
    for i in range(mon.n(1, 8)):
        for mode in MODES:
            for j in (beta_job, stored_job, tau_job, field_job, unused_job, config_job):
                if j is field_job and mode == "high frequency":
                    # replaces the field everywhere by its own
                    continue
                jobs.append(lambda j=j, m=mode, i=i: j(mon, m, i))
    for i in range(mon.n(4, 16)):
        for mode in DRIVEN:
            if (i + DRIVEN.index(mode)) % 2 == 0 or mon.thorough:
                jobs.append(lambda m=mode, i=i: drive_job(mon, m, i))
    for i in range(mon.n(1, 8)):
        for mode in ("run", "response", "ext", "langevin"):
            jobs.append(lambda m=mode, i=i: strob_job(mon, m, i))
    for mode in ("", "--response", "-e", "-l", "-P"):
        jobs += [lambda i=i, mode=mode: thermal.start_job(mon, mode, i) for i in range(mon.n(1, 6))]
    parallel(mon, jobs)


RULE = ("Pairs of requests which mean the same, run under one random stream: evaluations counts the rows compared, distinct_nontrivial the pairs "
        "(distinct relation, mode and configuration), each of which wrote something.")
