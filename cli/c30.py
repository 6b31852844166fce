"""C30: a batch runs on the configured number of threads, in memory and descriptors that do not grow with its length"""
from .common import *

TICK = os.sysconf("SC_CLK_TCK")


class Watch:
    """What the operating system says about a run: CPU time of every thread, most descriptors open, peak memory"""

    def __init__(self):
        self.cpu = {}
        self.fds = 0
        self.rss = 0
        self.samples = 0
        self.pid = 0

    def look(self, pid):
        self.pid = pid
        try:
            for t in os.listdir("/proc/%d/task" % pid):
                with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                    x = f.read().rsplit(")", 1)[1].split()
                self.cpu[t] = (int(x[11]) + int(x[12])) / TICK
            self.fds = max(self.fds, len(os.listdir("/proc/%d/fd" % pid)))
            with open("/proc/%d/status" % pid) as f:
                for line in f:
                    if line.startswith("VmHWM:"):
                        self.rss = max(self.rss, int(line.split()[1]) * 1024)
            self.samples += 1
        except (OSError, IndexError, ValueError):
            pass


def watched(mon, sc, args, seed, limit=600):
    """Runs the program under observation; None if it cannot be judged"""
    w = Watch()
    e = dict(os.environ, VERIF_RNG_SEED=str(seed), RUST_BACKTRACE="0", TERM="dumb")
    with open(sc.path(".err"), "wb") as err:
        p = subprocess.Popen([os.path.join(BIN, "sc-mon")] + args, cwd=sc.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=e)
        start = time.monotonic()
        try:
            while p.poll() is None:
                w.look(p.pid)
                time.sleep(0.01)
                if time.monotonic() - start > limit:
                    # finishing at all is C26
                    raise CheckError("too slow to judge: %s" % (args,))
        finally:
            if p.poll() is None:
                p.kill()
            p.wait()
    if p.returncode in (-9, -15):
        raise CheckError("killed from outside: %s" % (args,))
    text = (sc.read(".err") or b"").decode("utf8", "replace")
    ok = mon.require("the program succeeds", p.returncode == 0 and "panicked" not in text,
                     lambda: {"args": args, "config": sc.conf, "exit": p.returncode, "stderr": text[-500:]})
    return w if ok else None


BATCH = {
    # mode: arguments, configuration for n jobs, and how many rows or files are to come of them
    "run": lambda n: ([], dict(runs=n)),
    "response": lambda n: (["--response"], dict(runs=n)),
    "ext": lambda n: (["-e"], dict(runs=n)),
    "langevin": lambda n: (["-l", "0.3"], dict(runs=n)),
    "nsteps": lambda n: (["-n", ",".join("%.1f" % (1 + 0.1 * k) for k in range(n)), "--steps", "2"], {}),
    "dynamic profile": lambda n: (["-P"], dict(runs=n, tau=0.05, dt=0.5)),
    "mc": lambda n: (["-m"], dict(mc_points=7 * n)),
    "mc profile": lambda n: (["-p"], dict(mc_points=7 * n)),
    "mc magnus": lambda n: (["--monte-carlo-magnus"], dict(mc_points=2 * n, ssize=6)),
    "dynamic histogram": lambda n: (["-d", str(n)], dict(t=60000.1, hsize=40, ssize=3)),
}


def threads_job(mon, mode, i):
    rng = mon.rng("threads", mode, i)
    threads = rng.choice([1, 2, 3, 5, 6])
    # every worker gets at least one of so many jobs
    n = 3 * threads
    args, extra = BATCH[mode](n)
    conf = dict(hsize=6, ssize=3, t=2.0, dt=0.1, tau=1.0, threads=threads, runs=1, mc_points=1, jvar=0.1)
    conf.update(extra)
    with Scratch(conf) as sc:
        w = watched(mon, sc, args, rng.getrandbits(60))
        if w is None:
            return
        total = sum(w.cpu.values())
        share = sorted((x / (total / threads) for x in w.cpu.values()), reverse=True) if total else []
        # a worker which does one of the 3n jobs has a share of a third; whoever waits, writes or draws has next to none (drawing, in
        # the main thread, may take a fifth in a mode that reports every step)
        busy = sum(1 for x in share if x > 0.2)
        others = sum(1 for t, x in w.cpu.items() if t != str(w.pid) and x > 0.2 * total / threads)
        detail = lambda: {"mode": mode, "config": conf, "args": args, "threads configured": threads, "threads at work": busy,
                          "shares of the CPU time, in units of one thread's": [round(x, 3) for x in share[:20]]}
        if total < 0.25 * threads:
            # too quick for the clock of the kernel
            mon.note("batches too quick to judge")
            return
        mon.require("a batch works on as many threads as configured", others <= threads <= busy, detail)
        mon.require("a batch opens files for the runs in progress only", w.fds <= threads + 24, lambda: dict(detail(), descriptors=w.fds))
        mon.case(("threads", mode, json.dumps(conf)), n=w.samples)
        mon.note("threads seen at work: %s" % mode, busy)
        if i == 0:
            mon.sample({"mode": mode, "threads": threads, "at work": busy, "shares": [round(x, 2) for x in share[:8]], "descriptors": w.fds})


def files_job(mon, i):
    """Many short runs: descriptors and memory are those of the runs in progress"""
    rng = mon.rng("files", i)
    conf = dict(hsize=4, ssize=2, t=0.1, dt=0.1, tau=1.0, threads=rng.choice([2, 4]), runs=rng.choice([40, 60]), jvar=0.1)
    args = [["--response"], [], ["-e"], ["-l"]][i % 4]
    with Scratch(conf) as sc:
        w = watched(mon, sc, args, rng.getrandbits(60))
        if w is None:
            return
        mon.require("a batch opens files for the runs in progress only", w.fds <= conf["threads"] + 24, lambda: {"config": conf, "args": args, "descriptors": w.fds})
        mon.case(("files", i, json.dumps(conf)), n=w.samples)


def data_bytes(sc):
    return sum(os.path.getsize(sc.path(f)) for f in sc.files() if f.endswith(".dat"))


def memory_job(mon, name, i):
    """Ten times as long a run writes ten times as much, but holds no more of it in memory"""
    rng = mon.rng("memory", name, i)
    seen = []
    for scale in (1, 12):
        conf = dict(hsize=6, ssize=6, t=800.0 * scale, dt=0.1, tau=0.1, threads=1, runs=1, jvar=0.1, ednsty=-0.5)
        args = {"run": [], "response": ["--response"], "ext": ["-e"], "langevin": ["-l", "0.2"], "trajectory": ["-s", str(12000 * scale)],
                "average": ["-a"], "two-point": ["--two-point"]}[name]
        with Scratch(conf) as sc:
            if name in ("average", "two-point"):
                for k in range(10 * scale):
                    v = rng.random()
                    sc.write("log%d.dat" % k, "".join("%r %r %r %r %r %r %r %r %r %r %r %r %r\n" % tuple([0.1 * j] + [v] * 12) for j in range(1200)))
            w = watched(mon, sc, args, rng.getrandbits(60))
            if w is None:
                return
            seen.append((w.rss, data_bytes(sc), w.samples))
    (m0, b0, _), (m1, b1, n) = seen
    detail = lambda: {"mode": name, "peak memory": [m0, m1], "bytes of data": [b0, b1]}
    if b1 - b0 < 4e6:
        # whether all is written is decided elsewhere (C19, C21)
        raise CheckError("too little was written: %s" % detail())
    mon.bound("memory does not grow with the length of a run or the number of files", m1 - m0, 0.3 * (b1 - b0), detail)
    mon.case(("memory", name, i), n=n)
    mon.note("bytes written under a watch on memory", b1)


def run(mon):
    jobs = []
    for i in range(mon.n(2, 10)):
        for mode in BATCH:
            jobs.append(lambda m=mode, i=i: threads_job(mon, m, i))
    for i in range(mon.n(2, 8)):
        jobs.append(lambda i=i: files_job(mon, i))
    for i in range(mon.n(1, 3)):
        for name in ("run", "response", "ext", "langevin", "trajectory", "average", "two-point"):
            jobs.append(lambda n=name, i=i: memory_job(mon, n, i))
    parallel(mon, jobs, workers=max(2, (os.cpu_count() or 4) // 2))


RULE = ("Batches of every mode, each watched by the operating system's accounts of its threads, descriptors and memory: evaluations counts the "
        "looks taken while the program ran, distinct_nontrivial the batches (distinct mode and configuration) that did work enough to judge.")
