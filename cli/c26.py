"""C26: no valid configuration crashes, hangs or yields non-numbers (whole program)"""
from .common import *
from . import sanitize

RULE = ("Invocations of the program, built with overflow checks and debug assertions, on configurations at the edges of validity: "
        "each must end successfully, leave well formed finite rows and the requested number of them; evaluations counts invocations and "
        "rows, distinct_nontrivial distinct (mode, configuration) pairs.")

# mode: arguments, share of the workload
MODES = {
    "run": (lambda rng: [], 3),
    "ext": (lambda rng: ["-e"], 2),
    "response": (lambda rng: ["--response"], 2),
    "langevin": (lambda rng: ["-l", repr(rng.choice([0.0, 0.5, 1.0, 100.0]))], 3),
    "steps": (lambda rng: ["-n", ",".join(rng.sample(["0.01", "0.5", "3", "9.99", "10", "40"], rng.randint(1, 3))), "--steps", str(rng.choice([0, 1, 2, 5]))], 2),
    "mc": (lambda rng: ["-m"], 3),
    "mc magnus": (lambda rng: ["--monte-carlo-magnus"], 3),
    "mc profile": (lambda rng: ["-p"], 3),
    "dyn profile": (lambda rng: ["-P"], 4),
    "dynhist": (lambda rng: ["-d", str(rng.choice([1, 2, 13]))], 4),
    "trajectory": (lambda rng: ["-s", str(rng.choice([0, 1, 2, 13]))], 4),
    "magnus hist": (lambda rng: ["--magnus-hist", str(rng.choice([0, 1, 2, 13]))], 4),
    "high frequency": (lambda rng: ["-H", "-0.5"], 1),
    "fit": (lambda rng: ["-f", repr(rng.choice([-5.0, -0.5, 0.0, 5.0]))], 1),
    "fit effective": (lambda rng: ["-F", repr(rng.choice([-5.0, -0.5, 0.0, 5.0]))], 1),
    "fit inhomogeneous": (lambda rng: ["-D", repr(rng.choice([0.3, 4.0]))], 1),
    "adiabatic": (lambda rng: ["-A", repr(rng.choice([0.05, 0.4]))], 1),
}
SLOW = {"rot": lambda rng: ["-r", repr(rng.choice([-5.0, -0.4, 3.0]))], "lab": lambda rng: ["-E", repr(rng.choice([-5.0, -0.4, 3.0]))]}


def edge_conf(rng, mode):
    n = rng.choice([2, 2, 3, 3, 4, 5, 7, 12, 33])
    s = rng.choice([2, n, rng.randint(2, n)])
    if mode in ("mc magnus", "rot", "lab"):
        n = max(n, 3)
        s = n
    dt = rng.choice([0.02, 0.1, 0.5, 3.0])
    big = rng.choice([0.0, 0.0, 0.5, 1e-12, 40.0, 1e5])
    c = dict(hsize=n, ssize=s, dt=dt, t=rng.choice([0.0, dt / 3, dt, 5 * dt, 10 * dt, 7.3 * dt]),
             trel=rng.choice([0.0, 0.0, dt / 2, 3 * dt]), runs=rng.choice([1, 1, 2, 3]), threads=rng.choice([1, 2, 9]),
             tau=rng.choice([0.001, 0.4 * dt, dt, 2.5 * dt, 10.0, 1e5]),
             hfield=[rng.choice([0.0, big]) for _ in range(3)], hs=[rng.choice([0.0, -big]) for _ in range(3)],
             jvar=rng.choice([0.0, 0.001, 3.0]), hvar=rng.choice([0.0, 0.0, 0.1, 30.0]), ednsty=rng.choice([-0.66, -1e-6, -0.999]),
             strob=rng.random() < 0.4, beta=rng.choice([0.0, 1e-9, 2.88, 1e3, 1e6]), e=rng.choice([0.0, 0.9, 1.0]),
             drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"]), mc_points=rng.choice([1, 2, 3, 5, 8]),
             log=rng.random() < 0.85, offset=rng.choice([0, 0, 4]), file=rng.choice(["log", "r_"]))
    c["lambda"] = rng.choice([0.0, 1.0, 1.0, -1.0, 1e4])
    return c


def case(mon, mode, i, kind=None, binary=None):
    """kind: one of the sanitizers"""
    rng = mon.rng(kind or "", mode, i) if kind else mon.rng(mode, i)
    conf = edge_conf(rng, mode)
    if mode in SLOW:
        args = SLOW[mode](rng)
    else:
        args = MODES[mode][0](rng)
    fits = mode in ("fit", "fit effective", "fit inhomogeneous", "high frequency", "adiabatic", "rot", "lab")
    if mode == "dyn profile":
        # one profile every 500 periods
        conf["tau"] = rng.choice([0.001, 0.4 * conf["dt"] / 500, conf["dt"] / 500, conf["dt"] / 100, 0.02])
        conf["dt"] = max(conf["dt"], 0.1)
        conf["t"] = min(conf["t"] + rng.choice([0.0, 500 * conf["tau"], 1200 * conf["tau"]]), 400 * conf["dt"])
    if mode in ("dynhist", "trajectory"):
        # these relax for a time given by t, and sample once every few periods
        conf["tau"] = rng.choice([0.4 * conf["dt"], conf["dt"], 2.5 * conf["dt"], 10 * conf["dt"]])
        conf["t"] = rng.choice([0.0, conf["dt"], 10 * conf["dt"]])
    if mode == "langevin" and conf["beta"] < 1e-9:
        conf["beta"] = 1e-9
    if conf["strob"] and conf["tau"] > 1e3:
        conf["tau"] = 4 * conf["dt"]
    if rng.random() < 0.3:
        b = rng.choice([0.0 if mode != "langevin" else 1e-3, 1e-9, 0.7, 1e6])
        args = args + ["-b", repr(b)]
    if rng.random() < 0.15:
        # only what is not the default
        conf = {k: v for k, v in conf.items() if k not in rng.sample(sorted(set(conf) - {"hsize", "ssize", "t", "dt", "tau", "runs", "mc_points", "strob", "trel"}), 4)}
        if mode == "langevin" and "beta" not in conf:
            conf["beta"] = 1.0
    with Scratch(conf) as sc:
        keep = sc.read("config.toml")
        if kind == "thread":
            conf["threads"] = rng.choice([2, 3, 9])
            conf["runs"] = rng.choice([2, 3])
            sc.write("config.toml", toml(conf))
        r = run_sc(sc, args, seed=rng.randrange(1, 1 << 31), cpu_limit=900 if not kind else 6000, wall_limit=800, idle_limit=25, binary=binary,
                   env=sanitize.RUN_ENV.get(kind))
        mon.case((kind, mode, seed_free(conf), tuple(args)))
        mon.note("invocations: " + mode)
        if kind:
            mon.note("invocations under the %s sanitizer" % kind)
            why = sanitize.report(r.err)
            if not mon.require("the %s sanitizer has nothing to report" % kind, why is None, lambda: dict(describe(sc, r), report=why)):
                return
        if not must_finish(mon, sc, r):
            return
        show = describe(sc, r)
        out = [f for f in sc.files() if f != "config.toml"]
        for f in out:
            rows = parse_numbers(sc.read(f), mon, f, show)
            if rows is None:
                continue
            mon.case(n=len(rows))
            mon.note("rows", len(rows))
            if fits:
                mon.require("one row per fit", len(rows) == 1, lambda: dict(show, file=f))
            # a spatial log starts with a row of the ordinary kind
            body = rows[1:] if mode == "ext" else rows
            if any(len(x) != len(body[0]) for x in body):
                mon.fail("rows of one width", dict(show, file=f))
        if "-b" not in args:
            mon.require("something is written", bool(out) or not full(conf)["log"], lambda: show)
        try:
            load_toml(sc.path("config.toml"))
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        mon.require("the configuration is still readable", ok, lambda: dict(show, before=keep.decode()))
        if i == 0:
            mon.sample({"mode": mode, "args": args, "config": conf})


def histogram(mon, i):
    """The microcanonical histogram: it searches for a state of the requested energy and no magnetisation"""
    rng = mon.rng("histogram", i)
    small = i == 0
    conf = dict(hsize=3 if small else rng.choice([2047, 2048, 3000]), ssize=2, jvar=0.0 if small else rng.choice([0.0, 0.001]), dt=rng.choice([0.02, 0.1]),
                ednsty=rng.choice([-0.2, -0.1]), threads=rng.choice([1, 9]), tau=3.0, drive=rng.choice(["xyplane", "none"]))
    with Scratch(conf) as sc:
        n = rng.choice([1, 2])
        args = ["--histogram", str(n)]
        r = run_sc(sc, args, seed=rng.randrange(1, 1 << 31), cpu_limit=20 if small else 700, wall_limit=800)
        mon.case(("histogram", seed_free(conf), tuple(args)))
        mon.note("invocations: histogram")
        if small:
            # three spins without magnetisation have an energy of 1/2 per site
            mon.require("the histogram mode ends also when the chain is too small to have the requested energy without magnetisation",
                        r.ended == "exit", lambda: describe(sc, r))
            return
        if not must_finish(mon, sc, r):
            return
        for f in ("hist_mc.dat", "hist_dyn.dat"):
            rows = parse_numbers(sc.read(f) or b"", mon, f, describe(sc, r))
            mon.require("the requested number of rows", rows is not None and len(rows) == n, lambda: dict(describe(sc, r), file=f))


def parse_numbers(data, mon, f, show):
    """Rows of finite numbers, comment lines aside"""
    text = data.decode("utf8", "replace")
    rows, bad = [], None
    if text and not text.endswith("\n"):
        bad = "the last line is cut: %r" % text[-60:]
    for line in text.split("\n"):
        if not line.strip() or line.lstrip().startswith("#"):
            continue
        try:
            x = [float(y) for y in line.split()]
        except ValueError:
            bad = bad or "not numbers: %r" % line[:200]
            continue
        if any(not math.isfinite(y) for y in x):
            bad = bad or "not finite: %r" % line[:300]
        rows.append(x)
    mon.require("only finite numbers are written", bad is None, lambda: dict(show, file=f, why=bad))
    return rows if bad is None else None


def seed_free(conf):
    return tuple(sorted((k, repr(v)) for k, v in conf.items()))


BAD = [
    b"hsize = \n", b"hsize = 'many'\n", b"hsize = 3\nhsize = 4\n", b"drive = 'sideways'\n", b"ssize = 4.5\n", b"hfield = 1.0\n", b"offset = -1\n",
    b"threads = -2\n", b"mc_points = 1.5\n", b"[[[\n", b"\xff\xfe\n", b"t = []\n", b"strob = 1\n", b"file = 3\n", b"hs = [1, 'a', 2]\n", b"dt 0.1\n",
    b"hsize = 99999999999999999999\n", b"tau = \"10\"\n", b"log = \"yes\"\n",
]


def refused(mon, i):
    rng = mon.rng("refused", i)
    bad = BAD[i % len(BAD)]
    mode = rng.choice(sorted(MODES))
    args = MODES[mode][0](rng)
    if rng.random() < 0.3:
        # instead, arguments that are no numbers
        bad = toml(dict(hsize=4, ssize=2, t=0.1)).encode()
        args = rng.choice([["-b", "warm"], ["-t", "x"], ["-n", "1,b"], ["-d", "-3"], ["-s", "many"], ["--steps", "-1"], ["--nonsense"], ["-A"], ["-F"], ["stray"]])
    with Scratch() as sc:
        sc.write("config.toml", bad)
        names = ["log0.dat", "log1.dat", "hist_mc.dat", "hist_dyn.dat", "hist_sj.dat", "hist_mc_magnus.dat", "avg.dat", "two-point.dat", "beta.dat",
                 "betat.dat", "mc_profile.dat", "dyn_profile.dat", "notes.txt"]
        for f in names:
            sc.write(f, "%s\n0 1 2 3\n" % f if not f.endswith(".dat") else "0 1 2 3\n")
        before = sc.snapshot()
        r = run_sc(sc, args, seed=i + 1, cpu_limit=100)
        show = dict(args=args, config=bad.decode("utf8", "replace"), exit=r.code, ended=r.ended, stderr=r.err[-300:])
        mon.require("an invalid invocation is refused", r.ended == "exit" and r.code not in (0, None) and r.code > 0, lambda: show)
        mon.require("refusal leaves every file as it was", sc.snapshot() == before, lambda: dict(show, files=sc.files()))
        mon.case(("refused", bad, tuple(args)))


def many_runs(mon, mode, i):
    """More runs than files may be open at once"""
    rng = mon.rng("many runs", mode, i)
    runs, limit = (18, 20) if mode == "dyn profile" else (11, 12)
    conf = dict(hsize=3, ssize=2, t=0.2, dt=0.1, tau=0.2, runs=runs, threads=rng.choice([1, 2, 3]), offset=rng.choice([0, 5]))
    args = {"run": [], "ext": ["-e"], "response": ["--response"], "langevin": ["-l", "0.5"], "dyn profile": ["-P"],
            "steps": ["-n", ",".join("%d" % (k + 1) for k in range(runs)), "--steps", "1"]}[mode]
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=rng.randrange(1, 1 << 31), cpu_limit=900, wall_limit=800, nofile=limit)
        mon.case(("many runs", mode, seed_free(conf)))
        mon.note("invocations with more runs than descriptors")
        if must_finish(mon, sc, r):
            want = {"log%d.dat" % (conf["offset"] + k) for k in range(runs)}
            mon.require("a log for each run", want <= set(sc.files()), lambda: dict(describe(sc, r), files=sc.files()))


MANY = ["run", "ext", "response", "langevin", "dyn profile", "steps"]


def sanitized(mon, kind):
    """The program, and the library monitor, under a sanitizer"""
    d = sanitize.build_sanitized(kind)
    if d is None:
        mon.note("no %s sanitizer here" % kind)
        return

    def library():
        with Scratch() as sc:
            r = subprocess.run([os.path.join(d, "mon"), "C26", str(mon.seed), "quick"], cwd=sc.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, env=dict(os.environ, VERIF_DIVIDE=str(mon.n(20, 1)), **sanitize.RUN_ENV[kind]))
        why = sanitize.report(r.stderr)
        mon.require("the %s sanitizer has nothing to report on the library" % kind, why is None, lambda: why)
        if why is None:
            if r.returncode != 0:
                raise CheckError("monitor under the %s sanitizer ended with %s: %s" % (kind, r.returncode, r.stderr[-500:]))
            n = json.loads(r.stdout)["evaluations"]
            mon.case(n=n)
            mon.note("library executions under the %s sanitizer" % kind, n)

    jobs = [library]
    for mode in sorted(MODES):
        if mode in ("fit", "fit effective", "fit inhomogeneous", "high frequency", "adiabatic") and not mon.thorough:
            continue
        for i in range(mon.n(1, 8)):
            jobs.append(lambda mode=mode, i=i: case(mon, mode, i, kind, os.path.join(d, "sc-mon")))
    parallel(mon, jobs, workers=max(2, (os.cpu_count() or 4) // 2))


def interpreted(mon, i):
    """Small invocations under Miri, each under its own schedule"""
    rng = mon.rng("miri", i)
    n = rng.choice([2, 3, 4])
    conf = dict(hsize=n, ssize=rng.choice([2, n]), t=rng.choice([0.0, 0.1, 0.2]), dt=0.1, tau=rng.choice([0.05, 0.1, 0.2]), runs=rng.choice([1, 3]),
                threads=rng.choice([1, 2, 3, 5]), strob=rng.random() < 0.5, drive=rng.choice(["xyplane", "none", "xyelliptic"]))
    mode = rng.choice(["-d", "-s", "--two-point", "-a"])
    args = [mode] + ([str(rng.choice([1, 2, 5]))] if mode in ("-d", "-s") else [])
    with Scratch(conf) as sc:
        if mode in ("--two-point", "-a"):
            for k in range(3):
                sc.write("log%d.dat" % k, "".join(" ".join(repr(rng.random()) for _ in range(13)) + "\n" for _ in range(4)))
        code, out, err = sanitize.miri(args, sc.dir, rng.randrange(1 << 30))
        why = sanitize.report(err)
        show = dict(args=args, config=conf, report=why, exit=code, stderr=err[-800:])
        mon.require("no undefined behaviour, data race or deadlock", why is None, show)
        if why is None:
            if "error: unsupported operation" in err or "could not compile" in err:
                mon.note("not interpretable")
                return
            mon.require("interpreted invocations succeed", code == 0, show)
            mon.case(("miri", seed_free(conf), tuple(args)))
            mon.note("invocations under Miri, each under another schedule")


def run(mon):
    side = []
    for kind in ("thread", "address"):
        def work(kind=kind):
            try:
                sanitized(mon, kind)
            except Exception as e:  # noqa: BLE001
                mon.errors.append("%s sanitizer: %r" % (kind, e))
        side.append(threading.Thread(target=work))
    for t in side:
        t.start()
    program(mon)
    for t in side:
        t.join()
    if mon.thorough:
        # one first, which builds
        interpreted(mon, 0)
        parallel(mon, [lambda i=i: interpreted(mon, i) for i in range(1, 200)])


def program(mon):
    jobs = []
    k = mon.n(2, 24)
    for i in range(mon.n(3, 10)):
        jobs.append(lambda i=i: histogram(mon, i))
    for mode in sorted(SLOW):
        for i in range(mon.n(1, 6)):
            jobs.append(lambda mode=mode, i=i: case(mon, mode, i))
    for mode, x in sorted(MODES.items()):
        for i in range(x[1] * k):
            jobs.append(lambda mode=mode, i=i: case(mon, mode, i))
    for mode in MANY:
        for i in range(mon.n(1, 4)):
            jobs.append(lambda mode=mode, i=i: many_runs(mon, mode, i))
    for i in range(mon.n(40, 400)):
        jobs.append(lambda i=i: refused(mon, i))
    parallel(mon, jobs)
