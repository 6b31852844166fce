"""C23: averages over log files are exact"""
from .common import *


def number(rng):
    c = rng.randrange(10)
    if c == 0:
        return rng.choice(["0", "-0", "1", "-1", "0.5", "12345678", "1e-7", "-2.5e3", "1e-300"])
    if c == 1:
        return repr(rng.uniform(-1e6, 1e6))
    if c == 2:
        return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-12, 0))
    return repr(rng.uniform(-1, 1))


def make_log(rng, rows, cols, header, zero_row, dt):
    out = []
    if header:
        out.append(rng.choice(["#t es e mx my mz", "# t", "#", "#1 2 3 4"]))
    for n in range(rows):
        t = (n - zero_row) * dt
        out.append(" ".join([repr(t) if t else rng.choice(["0", "-0", "0.0", "1e-12"])] + [number(rng) for _ in range(cols - 1)]))
    return "".join(x + "\n" for x in out)


def expected(texts, two_point):
    table = []
    for text in texts:
        rows = [[float(x) for x in line.split()] for line in text.split("\n") if line.strip() and not line.startswith("#")]
        zero = min(rows, key=lambda r: abs(r[0])) if rows else None
        if two_point and (not rows or abs(zero[0]) > 1e-5):
            # there is nothing to multiply with
            continue
        for n, r in enumerate(rows):
            if two_point:
                r = [r[0]] + [a * b for a, b in zip(r[1:], zero[1:])]
            if n == len(table):
                table.append([])
            table[n].append(r)
    out = []
    for rs in table:
        k = len(rs)
        out.append([(math.fsum(r[c] for r in rs) / k, math.fsum(abs(r[c]) for r in rs) / k) for c in range(len(rs[0]))])
    return out


def judge(mon, name, data, want, show, room=1e-13):
    if not mon.require("the average is written", data is not None, show):
        return
    rows = parse_rows(data, mon, json.dumps(show(), default=repr)[:3000])
    if rows is None:
        return
    if not mon.require("one row for every row index of any log", len(rows) == len(want), lambda: dict(show(), file=name, rows=len(rows), want=len(want))):
        return
    for n, (row, w) in enumerate(zip(rows, want)):
        if not mon.require("every column is averaged", len(row) == len(w), lambda: dict(show(), file=name, row=n)):
            return
        for c, (x, (mean, scale_)) in enumerate(zip(row, w)):
            mon.bound("mean over all logs having the row" if name == "avg.dat" else "mean product with the value at time zero",
                      abs(x - mean), room * scale_ + 1e-300, lambda: dict(show(), file=name, row=n, column=c, got=x, want=mean))


def synthetic(mon, i):
    rng = mon.rng("synthetic", i)
    # also names of which the averages are extensions, and names which could be taken for patterns
    prefix = rng.choice(["log", "run-", "a.b", "L", "out_", "x1y", "a", "t", "two-point", "", "l[12]", "q?", "w*", "d/log", "a b"])
    nfiles = rng.choice([1, 1, 2, 3, 5, 8, 12])
    cols = rng.choice([13, 13, 8, 2, 6])
    conf = dict(file=prefix, hsize=4, ssize=2, t=rng.choice([1.0, 256.0, 0.0, 1e9]), dt=rng.choice([0.02, 0.1]), runs=rng.choice([1, 2, 7]), offset=rng.choice([0, nfiles, 3]))
    same = rng.random() < 0.4
    base = rng.choice([1, 2, 5, 40, 2500 if i % 10 == 0 else 90])
    first = rng.choice([0, 0, 3, 98])
    nozero = rng.random() < 0.2
    texts = {}
    for n in range(nfiles):
        rows = base if same else rng.randint(1, base + 3)
        zero = 0 if rng.random() < 0.5 else rng.randrange(rows)
        dt = rng.choice([0.1, 0.02, 3.0, 4e-6])
        if nozero and dt > 1e-3 and rng.random() < 0.5:
            # time zero is before the first row, after the last or between two
            zero = rng.choice([-1, rows, zero + 0.5])
        texts["%s%d.dat" % (prefix, first + n)] = make_log(rng, rows, cols, rng.random() < 0.4, zero, dt)
    if rng.random() < 0.3:
        # the empty logs that dynamic profiles leave
        texts["%s%d.dat" % (prefix, first + nfiles)] = ""
    if rng.random() < 0.2:
        texts["%s%d.dat" % (prefix, first + nfiles + 1)] = "# only a header\n"
    other = {"unrelated.dat": "1 2 3\n4 5 6\n", (prefix.replace("/", "/z") if "/" in prefix else "z" + prefix) + "0.dat": "0 7 7 7\n", "%s0.txt" % prefix: "0 9 9 9\n"}
    for f in ("_old0", "-1", "", "0x", "x7"):
        other[prefix + f + ".dat"] = "0 5 5 5\n1 5 5 5\n"
    for f in {"l[12]": ("l10", "l1", "l22"), "q?": ("qx0", "q0"), "w*": ("wide0", "w0"), "d/log": ("log0",)}.get(prefix, ()):
        other[f + ".dat"] = "0 5 5 5\n1 5 5 5\n"
    stale = rng.random() < 0.5
    both = rng.choice([["-a"], ["--two-point"], ["-a", "--two-point"]])
    with Scratch(conf) as sc:
        if "/" in prefix:
            os.mkdir(sc.path("d"))
        names = list(texts)
        rng.shuffle(names)
        for f in names:
            sc.write(f, texts[f])
        for f in other:
            sc.write(f, other[f])
        if stale:
            for f in ("avg.dat", "two-point.dat"):
                sc.write(f, "9 9 9 9\n" * 3000)
        before = sc.snapshot()
        r = run_sc(sc, both)
        if not must_finish(mon, sc, r):
            return
        show = lambda: dict(describe(sc, r), logs={f: texts[f][:400] for f in texts})
        if "/" in prefix:
            mon.require("the logs are not changed", all(sc.read(f) == texts[f].encode() for f in texts), show)
        after = sc.snapshot()
        changed = [f for f in before if f not in ("avg.dat", "two-point.dat") and before[f] != after.get(f)]
        mon.require("nothing but the averages is written", not changed and not set(after) - set(before) - {"avg.dat", "two-point.dat"},
                    lambda: dict(show(), changed=changed, files=sorted(after)))
        order = sorted(texts)
        if "-a" in both:
            judge(mon, "avg.dat", after.get("avg.dat"), expected([texts[f] for f in order], False), show)
        if "--two-point" in both:
            judge(mon, "two-point.dat", after.get("two-point.dat"), expected([texts[f] for f in order], True), show)
        mon.case((sorted(texts.items()), tuple(both)), n=sum(t.count("\n") for t in texts.values()) * len(both))
        mon.note("log files averaged", len(texts))
        if i < 3:
            mon.sample({"args": both, "rows": {f: t.count("\n") for f, t in texts.items()}, "columns": cols})


def large(mon, i):
    """More files and more rows than any small limit"""
    rng = mon.rng("large", i)
    nfiles, rows, cols = [(1600, 2, 3), (3, 70000, 2), (70, 1200, 5), (1, 40, 400), (5000, 1, 2), (2, 300000, 2)][i % 6]
    first = rng.choice([0, 1, 990, 65000, 99999999])
    conf = dict(file="log", hsize=4, ssize=2, t=rng.choice([1.0, 1e9]), runs=2, offset=rng.choice([0, 2]))
    texts = {"log%d.dat" % (first + n): make_log(rng, rows, cols, False, rng.randrange(rows), 0.1) for n in range(nfiles)}
    both = [["-a"], ["--two-point"]][i // 6 % 2] if i < 12 else ["-a", "--two-point"]
    with Scratch(conf) as sc:
        for f in texts:
            sc.write(f, texts[f])
        r = run_sc(sc, both)
        if not must_finish(mon, sc, r):
            return
        show = lambda: dict(describe(sc, r), files=nfiles, rows=rows, columns=cols, first=first)
        mon.require("the logs are not changed", all(sc.read(f) == texts[f].encode() for f in texts), show)
        for f, two in (("avg.dat", False), ("two-point.dat", True)):
            if ["-a", "--two-point"][two] in both:
                judge(mon, f, sc.read(f), expected([texts[x] for x in sorted(texts)], two), show, 1e-13 * (1 + nfiles / 50))
        mon.case(("large", i), n=nfiles * rows * len(both))
        mon.note("log files averaged", nfiles)


def real(mon, i):
    """Logs written by the program itself"""
    rng = mon.rng("real", i)
    mode = [[], ["-l", "0.5"], ["-e"]][i % 3]
    conf = dict(hsize=6, ssize=4, t=2.0, dt=0.1, runs=3, threads=3, trel=rng.choice([0.0, 1.0]), file="r")
    with Scratch(conf) as sc:
        r = run_sc(sc, mode, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        if i % 3 == 0:
            # a second batch of another length
            sc.write("config.toml", toml(dict(conf, offset=3, t=3.0, runs=2)))
            r = run_sc(sc, mode, seed=rng.getrandbits(60))
            if not must_finish(mon, sc, r):
                return
        logs = {f: sc.read(f) for f in sc.files() if f.startswith("r") and f.endswith(".dat")}
        args = ["-a", "--two-point"]
        r = run_sc(sc, args)
        if not must_finish(mon, sc, r):
            return
        show = lambda: dict(describe(sc, r), mode=mode)
        for f in logs:
            mon.require("the logs are not changed", sc.read(f) == logs[f], lambda: dict(show(), file=f))
        texts = [logs[f].decode() for f in sorted(logs)]
        mon.require("all runs have logs", len(logs) == (5 if i % 3 == 0 else 3), show)
        if i % 3 == 2:
            # profiles: blank lines separate the times, and stay
            for name, two in (("avg.dat", False), ("two-point.dat", True)):
                want = expected(texts, two)
                got = [[float(x) for x in line.split()] for line in (sc.read(name) or b"").decode().split("\n") if line.strip()]
                if mon.require("one row for every row index of any log", len(got) == len(want), show):
                    for a, b in zip(got, want):
                        if mon.require("every column is averaged", len(a) == len(b), show):
                            for x, (m_, s_) in zip(a, b):
                                mon.bound("mean over all logs having the row", abs(x - m_), 1e-13 * s_ + 1e-300, show)
        else:
            judge(mon, "avg.dat", sc.read("avg.dat"), expected(texts, False), show)
            judge(mon, "two-point.dat", sc.read("two-point.dat"), expected(texts, True), show)
        mon.case(("real", i), n=sum(t.count("\n") for t in texts))
        mon.note("log files averaged", len(texts))


def run(mon):
    jobs = [lambda i=i: real(mon, i) for i in range(mon.n(6, 40))]
    jobs += [lambda k=k: large(mon, k) for k in ([0, 1, 6, 7, 2, 9] if not mon.thorough else range(18))]
    jobs += [lambda i=i: synthetic(mon, i) for i in range(mon.n(400, 8000))]
    parallel(mon, jobs)


RULE = ("Generated sets of log files (numbers, lengths, headers, empty files, prefixes, stray files, stale averages, thousands of files and of rows) and logs of real runs, averaged by the real program; the oracle recomputes "
        "every entry with exact summation. evaluations counts log rows averaged; a case is a distinct set of files.")
