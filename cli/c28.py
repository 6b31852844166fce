"""C28: interrupted and partial writes change nothing, failed ones are not passed over in silence"""
from .faults import *

RULE = ("Invocations of the real program while a shim between it and the C library interrupts, shortens or fails the operations with which it changes files (disk full, I/O error, quota; once, for a "
        "while or from then on); the monitor compares every file with its past and with an undisturbed run under the same random numbers, and the exit status with what is missing. evaluations "
        "counts faulty runs judged; a case is distinct by mode, configuration and fault.")

ENOSPC, EIO, EDQUOT = 28, 5, 122


def job(mon, mode, i):
    rng = mon.rng(mode, i)
    c = Case(mon, rng, mode)
    if not c.reference(mon):
        return
    mon.note("reproducible" if c.exact else "not reproducible")
    slow = mode in SLOW
    # interrupted and short
    for k in range(mon.n(1 if slow else 2, 6)):
        seed = rng.randrange(1 << 30)
        with c.fresh() as sc:
            r = c.run(sc, "short", seed)
            show = lambda **x: c.show(fault="interrupted and short writes %d" % seed, **x)
            if not must_finish(mon, sc, r):
                continue
            mon.case((mode, json.dumps(c.conf), "short", seed))
            mon.note("runs with short writes")
            complete(mon, c, sc, show, "partial writes")
    ops = [int(o[0]) for o in c.ops if o[1] == "write"]
    opens = [int(o[0]) for o in c.ops if o[1] != "write"]
    conf = [int(o[0]) for o in c.ops if "config" in o[2]]
    plan = []
    for k in range(mon.n(2 if slow else 6, 16)):
        at = rng.choice([0, rng.choice(ops) if ops else 0, ops[-1] if ops else 0, rng.choice(conf or [0])])
        plan.append((at, rng.choice([ENOSPC, EIO, EDQUOT]), rng.choice([1, 1, 7, None]), "write"))
    for k in range(mon.n(0 if slow else 2, 6)):
        # no descriptors left, or no place for a new file
        plan.append((rng.choice(opens or [0]), rng.choice([24, ENOSPC, 13]), rng.choice([1, None]), rng.choice(["open", "open,write", "open,rename"])))
    for at, errno, count, kinds in plan:
        with c.fresh() as sc:
            r = c.run(sc, "fail", at, errno, count, kinds)
            show = lambda **x: c.show(fault="error %d from operation %d of %d (%s), %s times" % (errno, at, len(c.ops), kinds, count), exit=r.code, stderr=r.err[-400:], **x)
            if not mon.require("the program finishes", r.ended == "exit", show):
                continue
            mon.case((mode, json.dumps(c.conf), at, errno, count, kinds))
            c.kept(mon, sc, "failed writes", show)
            if r.code == 0:
                mon.note("failures survived")
                complete(mon, c, sc, show, "reported success")
            else:
                mon.note("failures reported")
    mon.sample({"args": c.args, "config": c.conf, "faults": plan[:4]})


def complete(mon, c, sc, show, what):
    """Everything an undisturbed run writes is there"""
    mon.require("the batch is accounted for (%s)" % what, tomllib.loads(sc.read("config.toml").decode()) == c.new, show)
    for f in sorted(c.end):
        now = sc.read(f)
        if not mon.require("every file is there (%s)" % what, now is not None, lambda: show(file=f)):
            continue
        if c.exact:
            mon.require("every row is there, as it should be (%s)" % what, now == c.end[f] or f == "config.toml", lambda: show(file=f, now=repr(now)[-300:]))
        else:
            mon.require("every row is there (%s)" % what, now.count(b"\n") == c.end[f].count(b"\n") or f == "config.toml", lambda: show(file=f, now=repr(now)[-300:]))


def run(mon):
    build_shim()
    jobs = []
    for mode in MODES:
        k = mon.n(3, 24) if mode not in SLOW else mon.n(1, 6)
        jobs += [lambda mode=mode, i=i: job(mon, mode, i) for i in range(k)]
    parallel(mon, jobs)
