"""What the command-line monitors share: verdicts, workloads, building, running the program"""
import concurrent.futures
import fcntl
import hashlib
import json
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(TARGET, "release")


class CheckError(Exception):
    """The check itself failed: no verdict"""


# ---------------------------------------------------------------- building


def source_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), os.path.join(REPO, "benches"),
             os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock"),
             os.path.join(VERIF, "vendor")]
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def build(force=False):
    """Builds the monitors and the program from the working tree of /repo"""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".verif-built")
        want = source_hash()
        try:
            with open(stamp) as f:
                have = f.read().strip()
        except OSError:
            have = ""
        ok = all(os.path.exists(os.path.join(BIN, b)) for b in ("mon", "sc-mon"))
        if have == want and ok and not force:
            return
        if os.path.exists(stamp):
            os.unlink(stamp)
        # cargo goes by modification times, which say little about a copied tree
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "sc", "-p", "verif-harness"],
                       cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--bins"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--bins"], cwd=HARNESS, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            raise CheckError("the harness does not build against the working tree")
        with open(stamp, "w") as f:
            f.write(want)


# ---------------------------------------------------------------- verdicts


class Mon:
    """Observations and verdict; may be used from several threads"""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == "thorough"
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.worst = {}
        self.found = []
        self.nviol = 0
        self.errors = []
        self.notes = {}
        self.lock = threading.RLock()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *name):
        return random.Random("/".join([self.prop, str(self.seed)] + [str(x) for x in name]))

    def case(self, key=None, n=1):
        """n observations judged; key makes them a distinct non-trivial case"""
        with self.lock:
            self.evals += n
            if key is not None:
                self.distinct.add(hashlib.sha256(repr(key).encode()).digest()[:8])

    def sample(self, x):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(x)

    def note(self, k, n=1):
        with self.lock:
            self.notes[k] = self.notes.get(k, 0) + n

    def fail(self, what, detail):
        with self.lock:
            self.nviol += 1
            if len(self.found) < 20:
                self.found.append({"what": what, "detail": detail})

    def require(self, what, ok, detail):
        with self.lock:
            self.counts[what] = self.counts.get(what, 0) + 1
            if not ok:
                self.fail(what, detail() if callable(detail) else detail)
        return ok

    def bound(self, what, err, tol, detail):
        with self.lock:
            self.counts[what] = self.counts.get(what, 0) + 1
            ratio = err / tol
            if not ratio <= self.worst.get(what, 0.0):
                self.worst[what] = ratio
            if not err <= tol:
                d = detail() if callable(detail) else detail
                self.fail(what, {"error": repr(err), "bound": repr(tol), "case": d})
                return False
        return True


def parallel(mon, jobs, workers=None):
    """Runs the jobs (callables); an exception in one is an error of the check"""
    workers = workers or (os.cpu_count() or 4)
    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        futs = [ex.submit(j) for j in jobs]
        for f in futs:
            try:
                f.result()
            except CheckError as e:
                mon.errors.append(str(e))
            except Exception as e:  # noqa: BLE001
                import traceback
                mon.errors.append("%r\n%s" % (e, traceback.format_exc()[-1500:]))


# ---------------------------------------------------------------- configurations

DEFAULTS = dict(hsize=512, ssize=8, t=256.0, dt=0.02, runs=2, threads=2, trel=0.0, tau=10.0, **{"lambda": 1.0},
                hfield=[0.0, 0.0, 0.0], hs=[0.0, 0.0, 0.0], jvar=0.001, hvar=0.0, method=2, ednsty=-0.66,
                file="log", strob=False, offset=0, beta=2.88, e=0.9, drive="xyplane", mc_points=1000, log=True)


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        s = repr(v)
        return s if any(c in s for c in ".en") else s + ".0"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "[" + ", ".join(toml_value(x) for x in v) + "]"


def toml(conf):
    return "".join("%s = %s\n" % (k, toml_value(v)) for k, v in conf.items())


def load_toml(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


# ---------------------------------------------------------------- running the program


class Scratch:
    """A scratch directory with a configuration"""

    def __init__(self, conf=None, keep=False):
        self.dir = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.conf = dict(conf or {})
        if conf is not None:
            self.write("config.toml", toml(conf))

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *x):
        return os.path.join(self.dir, *x)

    def write(self, name, text):
        with open(self.path(name), "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def read(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def files(self):
        return sorted(os.listdir(self.dir))

    def snapshot(self):
        return {f: self.read(f) for f in self.files() if os.path.isfile(self.path(f)) and not self.is_fifo(f)}

    def is_fifo(self, f):
        import stat
        return stat.S_ISFIFO(os.stat(self.path(f)).st_mode)


def cpu_and_states(pid):
    """CPU seconds of a process and whether any of its threads could run"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        cpu = (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
        busy = False
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/stat" % (pid, t)) as f:
                st = f.read().rsplit(")", 1)[1].split()[0]
            if st in "RD":
                busy = True
        return cpu, busy
    except (OSError, IndexError, ValueError):
        return None, True


class Run:
    def __init__(self):
        self.code = None
        self.out = ""
        self.err = ""
        self.ended = None
        self.cpu = 0.0
        self.args = []


LONG = {"-t": "--tau", "-a": "--avg", "-b": "--beta", "-m": "--monte-carlo", "-p": "--monte-carlo-profile", "-P": "--dynamic-profile",
        "-d": "--dynamic-histogram", "-s": "--trajectory", "-l": "--langevin", "-n": "--n-steps", "-A": "--adiabatic", "-D": "--adiab_full",
        "-r": "--rot-frame", "-e": "--ext", "-E": "--magnus-fit", "-H": "--high-freq"}


def run_sc(scratch, args, seed=1, cpu_limit=400.0, wall_limit=700.0, idle_limit=20.0, binary=None, during=None, env=None, nofile=None):
    """Runs the program in the scratch directory.

    ended is 'exit', 'deadlock' (every thread asleep and no CPU used for idle_limit seconds) or
    'runaway' (more CPU time than any honest run needs). A run which is merely slow is an error."""
    r = Run()
    if seed % 3 == 0:
        # either of the documented names of an option
        args = [LONG.get(a, a) for a in args]
    r.args = list(args)
    e = dict(os.environ, VERIF_RNG_SEED=str(seed), RUST_BACKTRACE="0", TERM="dumb")
    e.update(env or {})
    out = open(scratch.path(".stdout"), "wb+")
    err = open(scratch.path(".stderr"), "wb+")
    start = time.monotonic()
    cmd = [binary or os.path.join(BIN, "sc-mon")] + [str(a) for a in args]
    if nofile:
        cmd = ["/bin/sh", "-c", 'ulimit -n %d; exec "$0" "$@"' % nofile] + cmd
    p = subprocess.Popen(cmd, cwd=scratch.dir,
                         stdin=subprocess.DEVNULL, stdout=out, stderr=err, env=e)
    if during:
        stop = threading.Event()
        t = threading.Thread(target=during, args=(stop,), daemon=True)
        t.start()
    idle_since, last_cpu = time.monotonic(), -1.0
    try:
        while True:
            try:
                p.wait(timeout=0.02 if time.monotonic() - start < 1 else 0.2)
                r.ended = "exit"
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.monotonic()
            cpu, busy = cpu_and_states(p.pid)
            if cpu is not None:
                r.cpu = cpu
                if busy or cpu > last_cpu + 0.011:
                    idle_since, last_cpu = now, cpu
                if now - idle_since > idle_limit:
                    r.ended = "deadlock"
                elif cpu > cpu_limit:
                    r.ended = "runaway"
            if r.ended is None and now - start > wall_limit:
                raise CheckError("too slow to judge: %s" % (r.args,))
            if r.ended:
                break
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
        if during:
            stop.set()
            t.join(timeout=60)
        r.code = p.returncode
        for f, k in ((out, "out"), (err, "err")):
            f.seek(0)
            setattr(r, k, f.read().decode("utf8", "replace"))
            f.close()
        for f in (".stdout", ".stderr"):
            try:
                os.unlink(scratch.path(f))
            except OSError:
                pass
    return r


class SlowPipe:
    """A named pipe in place of an output file, read late and in small pieces"""

    def __init__(self, scratch, name, delay, piece):
        os.mkfifo(scratch.path(name))
        # both ends stay open, so that neither side ever blocks on opening
        self.fd = os.open(scratch.path(name), os.O_RDWR | os.O_NONBLOCK)
        try:
            fcntl.fcntl(self.fd, 1031, 4096)
        except OSError:
            pass
        self.delay, self.piece = delay, piece
        self.got = []

    def __call__(self, stop):
        end = time.monotonic() + self.delay
        while time.monotonic() < end and not stop.is_set():
            time.sleep(0.01)
        n = 0
        while True:
            stopped = stop.is_set()
            try:
                self.got.append(os.read(self.fd, self.piece))
                n += 1
                if n % 8 == 0:
                    time.sleep(0.002)
            except BlockingIOError:
                # nothing is left once the program has ended and the pipe is empty
                if stopped:
                    break
                time.sleep(0.005)
        os.close(self.fd)

    def data(self):
        return b"".join(self.got)


def describe(scratch, r):
    return {"args": r.args, "config": scratch.conf, "exit": r.code, "ended": r.ended,
            "stderr": r.err[-600:] if r.err else ""}


def must_finish(mon, scratch, r):
    """A valid invocation ends, and successfully. Says whether the output can be judged"""
    if r.code is not None and r.code < 0 and r.ended == "exit" and r.code in (-9, -15):
        raise CheckError("killed from outside: %s" % (r.args,))
    ok = mon.require("the program finishes", r.ended == "exit", lambda: describe(scratch, r))
    if ok:
        ok = mon.require("the program succeeds", r.code == 0 and "panicked" not in r.err, lambda: describe(scratch, r))
    return ok


def parse_rows(data, mon=None, what="", ncol=None):
    """Rows of a whitespace-separated file of numbers; None if malformed"""
    text = data.decode("utf8", "replace")
    rows = []
    bad = None
    if text and not text.endswith("\n"):
        bad = "last line is not terminated: %r" % text[-80:]
    lines = text.split("\n")[:-1] if text.endswith("\n") else text.split("\n")
    if text == "":
        lines = []
    for i, line in enumerate(lines):
        try:
            x = [float(y) for y in line.split()]
        except ValueError:
            bad = bad or "line %d: %r" % (i, line[:200])
            continue
        if any(not math.isfinite(y) for y in x):
            bad = bad or "line %d is not finite: %r" % (i, line[:200])
        if ncol is not None and len(x) != ncol:
            bad = bad or "line %d has %d columns, not %d: %r" % (i, len(x), ncol, line[:200])
        rows.append(x)
    if mon is not None:
        mon.require("rows are well formed", bad is None, lambda: "%s: %s" % (what, bad))
    return rows if bad is None else None


# ---------------------------------------------------------------- mathematics


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def add(a, b):
    return [a[0] + b[0], a[1] + b[1], a[2] + b[2]]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def scale(a, k):
    return [a[0] * k, a[1] * k, a[2] * k]


def norm(a):
    return math.sqrt(dot(a, a))


def drive_field(conf, t):
    """The drive as documented"""
    d = conf["drive"]
    p = 2 * math.pi * t / conf["tau"]
    if d == "xyplane":
        return [math.cos(p), math.sin(p), 0.0]
    if d == "uniaxial":
        return [math.cos(p), 0.0, 0.0]
    if d == "xyelliptic":
        return [math.cos(p), conf["e"] * math.sin(p), 0.0]
    if d == "staticfield":
        return list(conf["hs"])
    return [0.0, 0.0, 0.0]


def rotate(s, w, t):
    """Solution of dS/dt = S x w"""
    n = norm(w)
    if n == 0:
        return list(s)
    k = scale(w, 1 / n)
    a = -n * t
    c, sn = math.cos(a), math.sin(a)
    kk = dot(k, s)
    x = cross(k, s)
    return [s[i] * c + x[i] * sn + k[i] * kk * (1 - c) for i in range(3)]


def full(conf):
    c = dict(DEFAULTS)
    c.update(conf)
    if "drivetype" in c:
        c["drive"] = c.pop("drivetype")
    return c


def static_fields(conf):
    """Mean static field of every site"""
    h = [list(conf["hfield"]) for _ in range(conf["hsize"])]
    for j in range(conf["ssize"]):
        h[j] = add(h[j], conf["hs"])
    return h


def rhs(conf, spins, t, js, hs, field=True, ring=True):
    n = len(spins)
    d = drive_field(conf, t)
    out = []
    for j in range(n):
        w = [0.0, 0.0, 0.0]
        if ring or j > 0:
            w = [w[k] + js[(j - 1) % n][k] * spins[(j - 1) % n][k] for k in range(3)]
        if ring or j < n - 1:
            w = [w[k] + js[j][k] * spins[(j + 1) % n][k] for k in range(3)]
        if field:
            w = sub(w, hs[j])
        if j < conf["ssize"]:
            w = sub(w, d)
        out.append(cross(spins[j], w))
    return out


def rk4(conf, spins, t, dt, n, js, hs, field=True, ring=True):
    """Solution of the equations of motion"""
    h = dt / n
    s = [list(x) for x in spins]
    for i in range(n):
        t0 = t + i * h
        k1 = rhs(conf, s, t0, js, hs, field, ring)
        k2 = rhs(conf, [add(a, scale(b, h / 2)) for a, b in zip(s, k1)], t0 + h / 2, js, hs, field, ring)
        k3 = rhs(conf, [add(a, scale(b, h / 2)) for a, b in zip(s, k2)], t0 + h / 2, js, hs, field, ring)
        k4 = rhs(conf, [add(a, scale(b, h)) for a, b in zip(s, k3)], t0 + h, js, hs, field, ring)
        s = [[x[k] + h / 6 * (a[k] + 2 * b[k] + 2 * c[k] + d[k]) for k in range(3)]
             for x, a, b, c, d in zip(s, k1, k2, k3, k4)]
    return s


def ks_bound(n):
    """Kolmogorov-Smirnov distance exceeded with chance 1e-10"""
    return math.sqrt(23.7 / (2.0 * n))


def ks(xs, cdf):
    v = sorted(cdf(x) for x in xs)
    n = len(v)
    return max(max(x - i / n, (i + 1) / n - x) for i, x in enumerate(v))


Z = 6.5
