"""What the fault-injecting monitors (C27, C28) share: the shim, workloads, a reference run"""
from .common import *

SHIM = os.path.join(TARGET, "faults.so")


def build_shim():
    src = os.path.join(VERIF, "shim", "faults.c")
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(SHIM) and os.path.getmtime(SHIM) > os.path.getmtime(src):
            return
        tmp = SHIM + ".new"
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("the shim does not build: " + r.stdout[-2000:])
        os.rename(tmp, SHIM)


# name: (arguments, logs per batch (None: runs), own output files, files appended to)
MODES = {
    "run": ([], None, [], []),
    "response": (["--response"], None, [], []),
    "ext": (["-e"], None, [], []),
    "langevin": (["-l", "0.4"], None, [], []),
    "steps": (["-n", "0.5,2", "--steps", "3"], 2, [], ["evt3.dat"]),
    "mc": (["-m"], 0, [], ["mc_live.dat"]),
    "mc magnus": (["--monte-carlo-magnus"], 0, [], ["mc_live.dat"]),
    "mc profile": (["-p"], 0, ["mc_profile.dat"], []),
    "dynhist": (["-d", "4"], 0, [], ["dyn-hist-t-0.4.dat"]),
    "trajectory": (["-s", "3"], 0, [], ["hist-st-t-0.4.dat"]),
    "magnus hist": (["--magnus-hist", "3"], 0, [], ["hist_mc_magnus.dat"]),
    "high frequency": (["-H", "-0.3"], 0, [], ["betat.dat"]),
    "fit": (["-f", "-0.3"], 0, [], ["betat.dat"]),
    "average": (["-a"], 0, ["avg.dat"], []),
    "two-point": (["--two-point"], 0, ["two-point.dat"], []),
    "profile": (["-P", "-t", "0.05"], None, ["dyn_profile-%d-tau.dat" % (500 * k) for k in range(1, 9)], []),
}
SLOW = {"response", "fit", "high frequency", "profile"}
LOG = "%.3f 1 2 3 4 5 6 7 8 9 10 11 12\n"


class Case:
    """A directory with a past, an invocation, and what it does undisturbed"""

    def __init__(self, mon, rng, mode):
        self.mode = mode
        self.args, logs, self.own, self.append = MODES[mode]
        self.seed = rng.randrange(1, 1 << 31)
        runs = rng.choice([1, 2, 2])
        self.offset = rng.choice([0, 2, 3])
        self.prefix = rng.choice(["log", "r_"])
        self.conf = dict(hsize=rng.choice([5, 6]), ssize=4, t=0.4, dt=0.1, runs=runs, threads=1 if rng.random() < 0.75 else 3, mc_points=3, file=self.prefix,
                         tau=2.0, hfield=[0.1, 0.0, -0.5], jvar=0.25, ednsty=-0.4, offset=self.offset)
        if mode == "profile":
            # 4000 periods
            self.conf.update(t=1.0)
        self.logs = ["%s%d.dat" % (self.prefix, self.offset + n) for n in range(runs if logs is None else logs)]
        self.past = {}
        for n in range(self.offset):
            self.past["%s%d.dat" % (self.prefix, n)] = "".join(LOG % (0.1 * k) for k in range(5)).encode()
        if mode in ("average", "two-point"):
            self.past.update({"%s%d.dat" % (self.prefix, n): "".join(LOG % (0.1 * k) for k in range(5)).encode() for n in range(2)})
        self.past["notes.txt"] = b"mine\n"
        for f in self.append:
            if rng.random() < 0.7:
                self.past[f] = b"0 1 2 3 4 5 6\n"
        if self.own and rng.random() < 0.5:
            self.past[self.own[0]] = b"0 0 0\n" * 50
        # whitespace as a person would leave it
        self.config = ("# my settings\n" + toml(self.conf)).encode()
        self.past["config.toml"] = self.config

    def fresh(self):
        sc = Scratch()
        sc.conf = self.conf
        for f, d in self.past.items():
            sc.write(f, d)
        return sc

    def run(self, sc, mode="none", at=-1, errno=28, count=None, kinds="write", log=None):
        env = {"LD_PRELOAD": SHIM, "VF_MODE": mode, "VF_AT": str(at), "VF_ERRNO": str(errno), "VF_KINDS": kinds}
        if count is not None:
            env["VF_COUNT"] = str(count)
        if log:
            env["VF_LOG"] = log
        return run_sc(sc, self.args, seed=self.seed, env=env, cpu_limit=600, wall_limit=700)

    def show(self, **x):
        return dict({"mode": self.mode, "args": self.args, "config": self.conf, "offset": self.offset}, **x)

    def reference(self, mon):
        """Runs it twice undisturbed: final files, operations, whether it is reproducible"""
        ends = []
        for k in range(2):
            with self.fresh() as sc, tempfile.TemporaryDirectory(prefix="verif-") as d:
                log = os.path.join(d, "ops")
                r = self.run(sc, log=log)
                if not must_finish(mon, sc, r):
                    return False
                ends.append(sc.snapshot())
                if k == 0:
                    with open(log) as f:
                        self.ops = [x.rstrip("\n").split("\t") for x in f]
        self.end = ends[0]
        self.exact = self.conf["threads"] == 1 and ends[0] == ends[1]
        if len(self.ops) == 0:
            raise CheckError("the shim saw no file operation of %s" % self.args)
        self.old = tomllib.loads(self.config.decode())
        self.new = tomllib.loads(self.end["config.toml"].decode())
        return True

    def kept(self, mon, sc, what, show):
        """Whatever happened: the settings and what was there are kept"""
        data = sc.read("config.toml")
        try:
            conf = tomllib.loads(data.decode()) if data is not None else None
        except (tomllib.TOMLDecodeError, UnicodeDecodeError):
            conf = None
        ok = mon.require("the configuration is as before or as after, not in between (%s)" % what, conf is not None and conf in (self.old, self.new),
                         lambda: show(config_now=repr(data)[:400]))
        for f, d in self.past.items():
            if f == "config.toml" or f in self.own:
                continue
            now = sc.read(f)
            if f in self.append:
                mon.require("earlier rows are kept (%s)" % what, now is not None and now.startswith(d), lambda: show(file=f, now=repr(now)[:300]))
            else:
                mon.require("earlier files are kept (%s)" % what, now == d, lambda: show(file=f, now=repr(now)[:300]))
        return ok
