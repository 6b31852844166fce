"""Sanitizer builds of the monitors and the program: ThreadSanitizer and AddressSanitizer (the standard library instrumented
as well), and Miri, whose scheduler is replayable from a seed"""
import threading as _threading

from .common import *

TRIPLE = "x86_64-unknown-linux-gnu"
EXIT = 66
RUN_ENV = {
    "thread": {"TSAN_OPTIONS": "halt_on_error=1 exitcode=%d" % EXIT},
    "address": {"ASAN_OPTIONS": "detect_leaks=0 exitcode=%d" % EXIT},
}
_locks = {k: _threading.Lock() for k in ("thread", "address", "miri")}


def env_for(kind):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "san-" + kind), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    return e


def build_sanitized(kind):
    """Directory of the programs, or None if this toolchain cannot build them"""
    e = env_for(kind)
    e["RUSTFLAGS"] = "-Zsanitizer=" + kind
    with _locks[kind]:
        # as in build(): cargo goes by modification times
        subprocess.run(["cargo", "+nightly", "clean", "--release", "--offline", "--target", TRIPLE, "-p", "sc", "-p", "verif-harness"],
                       cwd=HARNESS, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "+nightly", "build", "-Zbuild-std", "--target", TRIPLE, "--release", "--offline", "--bins"],
                           cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(TARGET, "san-" + kind, TRIPLE, "release")
    if r.returncode != 0 or not os.path.exists(os.path.join(out, "sc-mon")):
        return None
    # a sanitizer may not be able to start in this environment
    p = subprocess.run([os.path.join(out, "sc-mon"), "--help"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, **RUN_ENV[kind]))
    return out if p.returncode == 0 else None


def report(err):
    """The sanitizer's complaint in what a program wrote to stderr, or None"""
    for mark in ("WARNING: ThreadSanitizer", "ERROR: AddressSanitizer", "ERROR: ThreadSanitizer", "error: Undefined Behavior", "error: the evaluated program deadlocked"):
        k = err.find(mark)
        if k >= 0:
            return err[k:k + 1500]
    return None


def miri(args, cwd, seed, bin="sc-mon", env=None, timeout=3000):
    """Runs a program under Miri; returns (exit status, stdout, stderr)"""
    e = env_for("miri")
    e.update(env or {})
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.03 -Zmiri-seed=%d" % seed
    e["VERIF_RNG_SEED"] = str(seed + 1)
    r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--bin", bin, "--"] + args,
                       cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return r.returncode, r.stdout, r.stderr
