"""C19: log rows are on the requested time grid"""
from .common import *


def grid(t0, dt, tend):
    """Allowed numbers of steps after the initial time"""
    if tend <= t0:
        return {0} if tend < t0 - 1e-9 * (1 + abs(t0)) else {0, 1}
    q = (tend - t0) / dt
    eps = 1e-9 * (1 + abs(q)) + 1e-7
    lo = max(0, math.ceil(q - eps))
    hi = max(0, math.ceil(q + eps))
    return {lo, hi}


DTS = [0.02, 0.1, 0.05, 0.01, 0.25, 0.3, 0.7, 0.125, 0.03, 0.07, 1 / 3, 0.011, 0.5, 1.0, 0.2, 0.15]


def make(rng, i):
    mode = ["default", "response", "ext", "langevin"][(i // 2) % 4]
    dt = rng.choice(DTS) if rng.random() < 0.8 else round(rng.uniform(0.01, 1.0), rng.choice([2, 3, 6]))
    k = rng.choice([1, 2, 3, 4, 5, 7, 10, 20, 37, 50, 99, 100, 128, 500])
    strob = i % 2 == 1
    tau = k * dt if rng.random() < 0.5 else float("%.12g" % (k * dt))
    if not strob and rng.random() < 0.4:
        tau = rng.choice([10.0, 0.037, 3.3, 1.0, 1e-3, 250.0, math.pi])
    maxn = rng.choice([0, 1, 3, 50, 700, 2000, 6000])
    if strob:
        tend = rng.choice([1, 2, 3, 11, 40, 101]) * tau + rng.choice([0, 0, 0, 0.5 * dt, 0.4 * tau])
        tend = min(tend, 9000 * dt)
        trel = rng.choice([0, 0, 1, 2, k, 3 * k, 17]) * dt
        trel = min(trel, 4000 * dt)
    else:
        tend = maxn * dt if rng.random() < 0.6 else (maxn + rng.random()) * dt
        trel = rng.choice([0, 0, 0, 5 * dt, 100 * dt, 1.0, 7.77, 33 * dt])
        trel = min(trel, 4000 * dt)
    if rng.random() < 0.5:
        tend, trel = float("%.12g" % tend), float("%.12g" % trel)
    if mode == "response" and tend > 3000 * dt:
        tend = 3000 * dt
    if mode == "response" and strob:
        # starts at -t, which must be on the grid of steps
        tend = float("%.12g" % (round(tend / dt) * dt))
    size = rng.choice([(2, 2), (3, 3), (6, 3), (8, 4), (5, 4)])
    conf = dict(hsize=size[0], ssize=size[1], t=tend, dt=dt, tau=tau, trel=trel, strob=strob,
                runs=rng.choice([1, 1, 2]), threads=rng.choice([1, 2, 3]), drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"]),
                jvar=rng.choice([0.0, 0.01]), offset=rng.choice([0, 0, 3]), file="log")
    args = {"default": [], "response": ["--response"], "ext": ["-e"], "langevin": ["-l", rng.choice(["0", "0.3"])]}[mode]
    if rng.random() < 0.25:
        # the period given on the command line, and quite another one in the file
        conf["tau"] = float(rng.choice([0.5, 13.0, tau * 7.3]))
        args = args + ["-t", repr(tau)]
    return mode, conf, args, tau, k


def times_of(mon, mode, conf, data, show):
    """Times of the rows of a log; for the profile log also checks the blocks"""
    text = data.decode("utf8", "replace")
    if mode == "langevin":
        head, _, text = text.partition("\n")
        if not mon.require("edge-coupled log starts with its header", head.startswith("#t"), lambda: show(head[:80])):
            return None
    if mode != "ext":
        rows = parse_rows(text.encode(), mon, show(""), 8 if mode == "langevin" else 13)
        return None if rows is None else [r[0] for r in rows]
    lines = text.split("\n")
    if not mon.require("rows are well formed", lines and lines[-1] == "", lambda: show("unterminated")):
        return None
    lines = lines[:-1]
    first = parse_rows((lines[0] + "\n").encode(), mon, show("first row"), 13) if lines else []
    if not mon.require("there is a row for the initial time", bool(first), lambda: show("empty")):
        return None
    ts = [first[0][0]]
    inner = list(range(1, min(conf["ssize"], conf["hsize"] - 1)))
    step = len(inner) + 1
    body = lines[1:]
    if not mon.require("profiles are complete", len(body) % step == 0, lambda: show("%d lines for profiles of %d sites" % (len(body), len(inner)))):
        return None
    for b in range(0, len(body), step):
        block = body[b:b + step]
        rows = parse_rows(("\n".join(block[:-1]) + "\n").encode() if inner else b"", mon, show("profile"), 6)
        if rows is None:
            return None
        ok = block[-1] == "" and [r[1] for r in rows] == [float(x) for x in inner] and len(set(r[0] for r in rows)) <= 1
        if not mon.require("each profile has every interior site once, in order, at one time", ok, lambda: show(repr(block[:3]))):
            return None
        if rows:
            ts.append(rows[0][0])
    return ts if inner else None


def judge_times(mon, mode, conf, args, ts, tau, k, name):
    dt, tend = conf["dt"], conf["t"]
    t0 = -conf["trel"]

    def show(x=""):
        return {"file": name, "args": args, "config": conf, "rows": len(ts), "first": ts[:4], "last": ts[-3:], "note": x}

    tol = lambda t: 1e-9 * (1 + abs(t) + abs(t0) + len(ts) * dt)
    ok = abs(ts[0] - t0) <= tol(t0) or (mode == "response" and abs(ts[0] + tend) <= tol(tend))
    mon.require("first row is the initial state", ok, show)
    if mode == "response":
        t0 = -tend
    allowed = grid(t0, dt, tend)
    if not conf["strob"]:
        if mon.require("one row per step up to the end time", len(ts) - 1 in allowed, lambda: show("expected %s steps" % sorted(allowed))):
            worst = max([abs(t - (t0 + n * dt)) / tol(t) for n, t in enumerate(ts) if n > 0] or [0.0])
            mon.bound("row n is at t0 + n dt", worst, 1.0, show)
        return
    # stroboscopic: the multiples of the period among the steps
    m = round(t0 / dt)
    # with t0 on the grid of steps, step n is at (m + n) dt
    want = []
    for n_end in sorted(allowed):
        want.append([(m + n) * dt for n in range(1, n_end + 1) if (m + n) % k == 0])
    got = ts[1:]
    match = any(len(w) == len(got) and all(abs(a - b) <= tol(a) for a, b in zip(w, got)) for w in want)
    mon.require("stroboscopic rows are at every whole multiple of the period", match,
                lambda: show("expected %d rows: %r ... %r" % (len(want[-1]), want[-1][:4], want[-1][-3:])))
    for t in got:
        q = t / tau
        mon.bound("stroboscopic row on a multiple of the period", abs(q - round(q)) * tau, 1e-3 * dt, lambda: show("t=%r" % t))


def job(mon, i):
    rng = mon.rng("grid", i)
    mode, conf, args, tau, k = make(rng, i)
    with Scratch(conf) as sc:
        if rng.random() < 0.4:
            # what a run of before the offset was set back has left
            for n in range(conf["runs"]):
                sc.write("log%d.dat" % (conf["offset"] + n), "%24.6f left over from an earlier run\n" % 1.5 * rng.choice([1, 40, 4000]))
            mon.note("logs written over earlier ones", conf["runs"])
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        for n in range(conf["runs"]):
            name = "log%d.dat" % (conf["offset"] + n)
            data = sc.read(name)

            def show(x):
                return {"file": name, "args": args, "config": conf, "note": x}
            if not mon.require("the log exists", data is not None, lambda: show(sc.files())):
                continue
            c = dict(conf)
            if mode == "langevin":
                c["hsize"] = c["ssize"]
            ts = times_of(mon, mode, c, data, show)
            if ts is None:
                continue
            mon.case((mode, conf["strob"], conf["dt"], tau, conf["t"], conf["trel"]), n=len(ts))
            mon.note("rows seen in mode %s%s" % (mode, " stroboscopic" if conf["strob"] else ""), len(ts))
            judge_times(mon, mode, conf, args, ts, tau, k, name)
        mon.sample({"args": args, "config": {x: conf[x] for x in ("t", "dt", "tau", "trel", "strob", "runs")}})


def nsteps(mon, i):
    """Single shots log their initial state and end at the first step at or beyond steps * tau"""
    rng = mon.rng("nsteps", i)
    taus = [rng.choice([0.1, 0.37, 1.0, 2.5, 9.99, 10.0, 12.3]) for _ in range(rng.choice([1, 2]))]
    steps = rng.choice([1, 3, 17, 100])
    trel = rng.choice([0.0, 0.0, 3.0])
    conf = dict(hsize=4, ssize=3, t=1.0, dt=0.3, trel=trel, runs=1, threads=2, offset=2)
    args = ["-n", ",".join(map(repr, taus)), "--steps", steps]
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        rows = parse_rows(sc.read("evt%d.dat" % steps) or b"", mon, "evt", 7)
        if rows is None:
            return
        left = list(taus)
        for row in rows:
            near = [x for x in left if abs(x - row[0]) < 1e-12]
            if not mon.require("one row per period asked for", bool(near), lambda: describe(sc, r)):
                return
            left.remove(near[0])
            tau = near[0]
            dt = tau / 100 if tau < 10 else 0.1
            ok = any(abs(row[1] - (-trel + n * dt)) < 1e-8 * (1 + steps * tau) for n in grid(-trel, dt, steps * tau))
            mon.require("a single shot ends at the first step at or beyond the end time", ok, lambda: {"row": row, "run": describe(sc, r)})
            mon.case(("n", tau, steps, trel))
        mon.require("one row per period asked for", not left, lambda: describe(sc, r))
        for n in range(len(taus)):
            d = sc.read("log%d.dat" % (2 + n))
            if mon.require("the log exists", d is not None, lambda: describe(sc, r)):
                lr = parse_rows(d, mon, "log", 13)
                mon.require("a single shot logs its initial time once", lr is not None and len(lr) == 1 and abs(lr[0][0] + trel) < 1e-12, lambda: describe(sc, r))


def run(mon):
    jobs = [lambda i=i: job(mon, i) for i in range(mon.n(64, 1600))]
    jobs += [lambda i=i: nsteps(mon, i) for i in range(mon.n(4, 60))]
    parallel(mon, jobs)


RULE = ("Random configurations (step, period = whole number of steps, end time, relaxation time on and off the grid of steps, stroboscopic or not, "
        "period from file or command line, runs, threads) in every logging mode, run with the real program; an offline monitor reads every row of every log. "
        "evaluations counts rows judged; a case is distinct by mode, strob, dt, tau, t, trel.")
