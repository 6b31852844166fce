"""C27: a killed run loses nothing that was there, and the next run is as if it had not been"""
from .faults import *

RULE = ("Invocations of the real program, killed (SIGKILL) before, half way through or after one of the operations with which it changes files, numbered by a shim between it and the C "
        "library; the monitor compares every file with its past, with an undisturbed run under the same random numbers, and with a second run after the crash. evaluations counts crashes "
        "judged; a case is distinct by mode, configuration and crash point.")


def points(rng, ops, k):
    """All that is not an ordinary row, and a sample of these"""
    special = [int(o[0]) for o in ops if o[1] != "write" or "config" in o[2]]
    rows = [int(o[0]) for o in ops if int(o[0]) not in set(special)]
    rng.shuffle(special)
    pick = special[:k]
    pick += rng.sample(rows, min(len(rows), max(2, k // 3)))
    n = len(ops)
    # the end, where the batch is accounted for
    pick += [x for x in range(max(0, n - 3), n)]
    return sorted(set(pick))


def job(mon, mode, i):
    rng = mon.rng(mode, i)
    c = Case(mon, rng, mode)
    if not c.reference(mon):
        return
    mon.note("reproducible" if c.exact else "not reproducible")
    for at in points(rng, c.ops, mon.n(6 if mode not in SLOW else 2, 12)):
        for how in rng.sample(["before", "torn", "after"], mon.n(2 if mode not in SLOW else 1, 3)):
            crash(mon, c, at, how)
    mon.sample({"args": c.args, "config": c.conf, "operations": len(c.ops)})


def crash(mon, c, at, how):
    op = c.ops[at]
    with c.fresh() as sc:
        r = c.run(sc, how, at)
        show = lambda **x: c.show(killed="%s %s of %s, operation %d of %d" % (how, op[1], op[2], at, len(c.ops)), **x)
        if r.ended == "exit" and r.code == 0:
            # this time there were fewer operations
            mon.note("not reached")
            return
        if r.code != -9:
            must_finish(mon, sc, r)
            return
        mon.note("killed %s %s of a %s" % (how, op[1], "configuration" if "config" in op[2] else "data file"))
        mon.case((c.mode, json.dumps(c.conf), at, how))
        if not c.kept(mon, sc, "killed", show):
            return
        if c.exact:
            for f in c.logs + c.append:
                now = sc.read(f)
                # "torn" writes are cut, all else is as it would have been
                mon.require("what was written before the end is what an undisturbed run writes", now is None or c.end.get(f, b"").startswith(now),
                            lambda: show(file=f, now=repr(now)[-300:], undisturbed=repr(c.end.get(f))[-300:]))
        again = tomllib.loads(sc.read("config.toml").decode())
        r2 = c.run(sc)
        if not must_finish(mon, sc, r2):
            return
        conf = tomllib.loads(sc.read("config.toml").decode())
        n = len(c.logs)
        mon.require("the next run goes on from the stored offset", conf.get("offset", 0) == again.get("offset", 0) + n, lambda: show(offset=conf.get("offset")))
        for k in c.old:
            if k not in ("offset", "beta"):
                mon.require("settings survive", conf.get(k) == c.old[k], lambda: show(key=k, value=conf.get(k)))
        for f, d in c.past.items():
            if f != "config.toml" and f not in c.own and f not in c.append:
                mon.require("earlier files are kept (next run)", sc.read(f) == d, lambda: show(file=f))
        if c.exact:
            for k, f in enumerate(c.logs):
                g = "%s%d.dat" % (c.prefix, again.get("offset", 0) + k)
                mon.require("the next run is as if the killed one had not been", sc.read(g) == c.end.get(f), lambda: show(file=g))
            for f in c.own:
                # averages are over the logs, of which a killed run may have left some
                mon.require("the next run is as if the killed one had not been", sc.read(f) == c.end.get(f), lambda: show(file=f))


def first(mon, i):
    """Killed while it writes the first configuration"""
    with tempfile.TemporaryDirectory(prefix="verif-") as d, Scratch() as sc:
        log = os.path.join(d, "ops")
        env = {"LD_PRELOAD": SHIM, "VF_MODE": "none", "VF_LOG": log}
        r = run_sc(sc, ["--config-desc"], env=env)
        if not must_finish(mon, sc, r):
            return
        want = tomllib.loads(sc.read("config.toml").decode())
        with open(log) as f:
            n = sum(1 for _ in f)
    for at in range(n):
        for how in ("before", "torn", "after"):
            with Scratch() as sc:
                run_sc(sc, ["--config-desc"], env={"LD_PRELOAD": SHIM, "VF_MODE": how, "VF_AT": str(at)})
                left = sc.read("config.toml")
                r = run_sc(sc, ["--config-desc"])
                show = lambda: dict(describe(sc, r), killed="%s operation %d" % (how, at), left=repr(left))
                if not must_finish(mon, sc, r):
                    continue
                conf = full(tomllib.loads(sc.read("config.toml").decode()))
                mon.require("a first run killed early leaves nothing but defaults", all(conf.get(k) == v for k, v in full(want).items()), show)
                mon.case(("first", at, how))


def run(mon):
    build_shim()
    jobs = [lambda: first(mon, 0)]
    for mode in MODES:
        k = mon.n(2, 24) if mode not in SLOW else mon.n(1, 6)
        jobs += [lambda mode=mode, i=i: job(mon, mode, i) for i in range(k)]
    parallel(mon, jobs)
