"""C18: every batch gets fresh log files and settings survive"""
from .common import *
from .c21 import solve_beta

OWN = {"-a": {"avg.dat"}, "--two-point": {"two-point.dat"}, "-p": {"mc_profile.dat"}, "-P": {"dyn_profile-%d-tau.dat" % (500 * k) for k in range(1, 9)}}
APPEND = {"-m": "mc_live.dat", "--monte-carlo-magnus": "mc_live.dat", "-d": "dyn-hist-t-", "-s": "hist-st-t-", "--magnus-hist": "hist_mc_magnus.dat",
          "-n": "evt", "-H": "betat.dat", "-f": "betat.dat", "-F": "betat.dat", "-D": "beta.dat", "-A": "beta.dat", "-r": "betat-rot.dat", "-E": "betat-maglab.dat"}


# Offsets many batches away from the first
FAR = [97, 254, 998, 32766, 65534, 70000, 99999, (1 << 31) - 2, 4294967000]


def op(rng, conf):
    """(arguments, number of logs, modes)"""
    kind = rng.choice(["run", "run", "response", "ext", "langevin", "nsteps", "nsteps", "profile", "cheap", "cheap", "cheap", "cheap", "average", "combo", "double", "desc"])
    over = []
    if rng.random() < 0.4:
        over += rng.choice([["-t", "3.25"], ["-b", "1.5"], ["-t", "0.7", "-b", "4"], ["-b", "0"]])
    runs = conf["runs"]
    if kind == "run":
        return over, runs, []
    if kind == "response":
        return ["--response"] + over, runs, ["--response"]
    if kind == "ext":
        return ["-e"] + over, runs, ["-e"]
    if kind == "langevin":
        o = [x if x != "0" else "2" for x in over]
        return ["-l", "0.4"] + o, runs, ["-l"]
    if kind == "nsteps":
        taus = rng.choice([["1"], ["0.5", "2"], ["3", "1", "0.2"]])
        return ["-n", ",".join(taus), "--steps", rng.choice(["1", "7"])] + over, len(taus), ["-n"]
    if kind == "profile":
        # 4000 periods, so a short one
        return ["-P", "-t", "0.05"], runs, ["-P"]
    cheap = [["-d", "5"], ["-s", "4"], ["-m"], ["-p"], ["--magnus-hist", "3"], ["--monte-carlo-magnus"], ["-H", "-0.4"]]
    if kind == "cheap":
        a = rng.choice(cheap)
        return a + over, 0, [a[0]]
    if kind == "average":
        return rng.choice([["-a"], ["--two-point"], ["-a", "--two-point"]]) + over, 0, ["-a", "--two-point"]
    if kind == "combo":
        # --magnus-hist goes on undriven and under another name
        a = rng.choice(cheap[:4] + cheap[5:6])
        c = rng.choice([("-e", runs, ["-e"]), ("--response", runs, ["--response"]), ("-n", 1, ["-n"])])
        extra = ["-n", "0.8", "--steps", "3"] if c[0] == "-n" else [c[0]]
        return a + extra + over, c[1], [a[0]] + c[2]
    if kind == "double":
        # several modes that log, in one invocation
        o = [x if x != "0" else "2" for x in over]
        if rng.random() < 0.5:
            return ["-e", "--response"] + o, 2 * runs, ["-e", "--response"]
        return rng.choice([(["-n", "0.8", "--steps", "3", "-e"] + o, 1 + runs, ["-n", "-e"]),
                           (["-n", "0.8,2", "--steps", "2", "--response"] + o, 2 + runs, ["-n", "--response"]),
                           (["-e", "-l", "0.3"] + o, 2 * runs, ["-e", "-l"]),
                           (["-l", "0.3", "--response"] + o, 2 * runs, ["-l", "--response"])])
    return ["--config-desc"], 0, []


def sequence(mon, i):
    rng = mon.rng("sequence", i)
    prefix = rng.choice(["log", "run-", "abc"])
    user = dict(hsize=rng.choice([6, 8]), ssize=5, t=0.4, dt=0.1, runs=rng.choice([1, 2, 3]), threads=rng.choice([1, 2, 4]), mc_points=2, file=prefix,
                tau=rng.choice([1.0, 10.0]), hfield=[0.1, 0, -0.5], jvar=0.25, ednsty=-0.4)
    if i % 3 != 2:
        user["offset"] = FAR[i // 3 % len(FAR)] if i % 3 == 0 else rng.choice([0, 1, 9, 12])
    if rng.random() < 0.5:
        user["beta"] = 1.25
    # any of the other settings, often at a value that is special
    more = {"e": [0.0, 1.0, 0.9, 0.31], "lambda": [0.0, 1.0, -0.5], "hs": [[0.0, 0.0, 0.0], [0.2, 1.0, -0.3]], "hfield": [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]],
            "hvar": [0.0, 1.0, 0.125], "jvar": [0.0, 1.0, 0.001], "method": [0, 1, 2, 7], "strob": [False, True], "log": [True], "trel": [0.0, 0.3],
            "drive": ["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"], "mc_points": [1, 3], "tau": [1.0, 0.1], "ednsty": [-0.5, -0.66, -0.95]}
    for k in sorted(more):
        if rng.random() < 0.5:
            user[k] = rng.choice(more[k])
    with Scratch(user) as sc:
        values = full(user)
        if values["offset"] > 100:
            # earlier runs, among them those a number of too few digits or bits would hit
            for m_ in (10, 100, 1000, 1 << 8, 1 << 15, 1 << 16, 1 << 31):
                for n in range(3):
                    if values["offset"] % m_ + n < values["offset"]:
                        sc.write("%s%d.dat" % (prefix, values["offset"] % m_ + n), "0 1 2 3 4 5 6 7 8 9 10 11 %d\n" % n)
        allowed_beta = {user.get("beta", 2.88)}
        history = []
        for step in range(rng.choice([5, 6, 7])):
            if step and rng.random() < 0.3:
                # the user edits the file
                change = rng.choice([("runs", rng.choice([1, 2])), ("t", 0.6), ("ednsty", -0.5), ("file", "other"), ("threads", 3), ("e", 0.0), ("hvar", 0.0),
                                     ("lambda", 0.0), ("e", 1.0), ("trel", 0.0), ("drive", "none"), ("offset", values["offset"] + 5)])
                cur = load_toml(sc.path("config.toml"))
                cur[change[0]] = change[1]
                values[change[0]] = change[1]
                sc.write("config.toml", toml(cur))
                history.append("edit %s=%r" % change)
            args, count, modes = op(rng, values)
            before = sc.snapshot()
            history.append(" ".join(args))
            r = run_sc(sc, args, seed=rng.getrandbits(60))
            show = lambda x="": {"config": user, "history": history, "note": x}
            if not must_finish(mon, sc, r):
                return
            after = sc.snapshot()
            new_logs = ["%s%d.dat" % (values["file"], values["offset"] + n) for n in range(count)]
            for f in new_logs:
                mon.require("a run has its own new log", f in after and f not in before, lambda: show("%s; files %s" % (f, sorted(after))))
                if f in after and "-P" not in modes:
                    rows = after[f].decode("utf8", "replace").strip()
                    mon.require("the log of a run has its rows", rows != "", lambda: show(f))
            mine = set(new_logs) | {"config.toml"}
            for m_ in modes:
                mine |= OWN.get(m_, set())
            mayappend = tuple(APPEND[m_] for m_ in modes if m_ in APPEND)
            for f in set(before) | set(after):
                if f in mine or (f not in before and mayappend and f.startswith(mayappend)):
                    continue
                if f in before and mayappend and f.startswith(mayappend):
                    mon.require("samples are appended", after.get(f, b"").startswith(before[f]), lambda: show(f))
                    continue
                if f not in before:
                    mon.require("nothing else is created", False, lambda: show(f))
                    continue
                mon.require("no earlier file is altered", after.get(f) == before[f], lambda: show(f))
            values["offset"] += count
            try:
                conf = load_toml(sc.path("config.toml"))
            except Exception as e:  # noqa: BLE001
                mon.require("the configuration stays readable", False, lambda: show(repr(e)))
                return
            conf = dict(conf)
            if "drivetype" in conf:
                conf["drive"] = conf.pop("drivetype")
            mon.require("the offset advances by the number of runs", conf.get("offset", 0) == values["offset"], lambda: show({"offset": conf.get("offset"), "want": values["offset"]}))
            for k, v in conf.items():
                if k in ("offset", "beta"):
                    continue
                mon.require("settings survive", k in values and v == values[k], lambda: show("%s is %r, was %r" % (k, v, values.get(k))))
            now = full(conf)
            for k in values:
                if k not in ("offset", "beta"):
                    mon.require("settings survive", now[k] == values[k], lambda: show("%s has come to be %r, was %r" % (k, now[k], values[k])))
            for k in user:
                if k not in ("offset", "beta"):
                    mon.require("settings survive", k in conf, lambda: show("%s is lost" % k))
            b = conf.get("beta", 2.88)
            allowed_beta.add(solve_beta(values["ednsty"]))
            ok = any(abs(b - x) <= 2e-3 * (1 + x) for x in allowed_beta)
            mon.require("an overridden temperature is not stored", ok, lambda: show("beta is %r, allowed %r" % (b, allowed_beta)))
            values["offset"] = conf.get("offset", 0)
            mon.case((tuple(history), json.dumps(user)))
            mon.note("invocations")
            mon.note("log files created", count)
        mon.sample({"history": history, "config": user})


def unlogged(mon, i):
    """With log = false the earlier logs of that name stay whatever is run"""
    rng = mon.rng("unlogged", i)
    user = dict(hsize=5, ssize=5, t=0.3, dt=0.1, runs=2, threads=2, log=False, offset=i % 2, mc_points=1)
    with Scratch(user) as sc:
        keep = {"log%d.dat" % n: "0 %d keep\n" % n for n in range(4)}
        for f, t in keep.items():
            sc.write(f, t)
        for args in rng.sample([[], ["--response"], ["-e"], ["-d", "2"], ["-m"], ["-s", "1"]], 3):
            r = run_sc(sc, args, seed=rng.getrandbits(60))
            if not must_finish(mon, sc, r):
                return
            for f, t in keep.items():
                mon.require("nothing is logged with logging off", sc.read(f) == t.encode(), lambda: dict(describe(sc, r), file=f))
            mon.case(("unlogged", tuple(args), i))


def sampling(mon, i):
    """Sampling, fitting and averaging leave the logs alone, also the one the offset points at, and add to the samples of earlier invocations"""
    rng = mon.rng("sampling", i)
    user = dict(hsize=6, ssize=6, t=0.3, dt=0.1, runs=2, threads=2, offset=0, mc_points=1, tau=2.0)
    argss = [["-d", "2"], ["-s", "1"], ["-m"], ["-p"], ["--magnus-hist", "1"], ["--monte-carlo-magnus"], ["-H", "-0.3"], ["-f", "-0.3"], ["-F", "-0.3"], ["-D", "2"], ["-a"],
             ["--two-point"], ["--config-desc"], ["-r", "-0.3"], ["-E", "-0.3"], ["-A", "1"], ["-n", "1", "--steps", "2"]]
    args = argss[i % len(argss)]
    with Scratch(user) as sc:
        for pre in ("log", "x"):
            for n in range(3):
                sc.write("%s%d.dat" % (pre, n), "0 1 2 3 4 5 6 7 8 9 10 11 %d\n" % n)
        grows = {"-d": "dyn-hist-t-0.3.dat", "-s": "hist-st-t-0.3.dat", "-n": "evt2.dat"}.get(args[0]) or APPEND.get(args[0])
        for f in list(APPEND.values()) + ["dyn-hist-t-0.3.dat", "hist-st-t-0.3.dat", "evt2.dat"]:
            if f.endswith(".dat"):
                sc.write(f, "".join("%d 1 2 3 4 5 6 7 8 9 10\n" % n for n in range(rng.choice([1, 40]))))
        before = sc.snapshot()
        if args[0] == "-n":
            before.pop("log0.dat")  # this mode logs
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        after = sc.snapshot()
        for f in before:
            if f == grows:
                mon.require("samples are appended", after.get(f, b"").startswith(before[f]) and len(after[f]) > len(before[f]) and after[f].endswith(b"\n"), lambda: dict(describe(sc, r), file=f))
            elif f != "config.toml":
                mon.require("no earlier file is altered", after.get(f) == before[f], lambda: dict(describe(sc, r), file=f))
        mon.require("settings survive", all(load_toml(sc.path("config.toml")).get(k) == v for k, v in user.items() if k != "offset" or args[0] != "-n"), lambda: describe(sc, r))
        mon.case(("sampling", tuple(args)))


def run(mon):
    jobs = [lambda i=i: sampling(mon, i) for i in range(mon.n(17, 34))]
    jobs += [lambda i=i: sequence(mon, i) for i in range(mon.n(20, 240))]
    jobs += [lambda i=i: unlogged(mon, i) for i in range(mon.n(3, 20))]
    parallel(mon, jobs)


RULE = ("Random sequences of invocations of the real program in one directory (all logging, sampling, averaging modes, combinations, overrides, edits of the configuration in between); the "
        "monitor snapshots every file before and after each invocation and follows the expected offset and settings. evaluations counts invocations judged; a case is a distinct history.")
