"""C20: log rows report the state of that run at that time"""
from .common import *


def fields(rng):
    return [rng.uniform(-1, 1) if rng.random() < 0.7 else 0.0 for _ in range(3)]


def linear_fit(rows, rhs):
    """Least squares by Householder QR; returns (solution, worst residual, worst diagonal ratio)"""
    m, n = len(rows), len(rows[0])
    a = [list(r) + [b] for r, b in zip(rows, rhs)]
    diag = []
    for k in range(n):
        s = math.sqrt(sum(a[i][k] ** 2 for i in range(k, m)))
        if s == 0:
            return None, None, 0.0
        alpha = -s if a[k][k] > 0 else s
        v = [a[i][k] for i in range(k, m)]
        v[0] -= alpha
        vv = sum(x * x for x in v)
        if vv > 0:
            for c in range(k, n + 1):
                f = 2 * sum(v[i - k] * a[i][c] for i in range(k, m)) / vv
                for i in range(k, m):
                    a[i][c] -= f * v[i - k]
        diag.append(abs(a[k][k]))
    x = [0.0] * n
    for k in reversed(range(n)):
        x[k] = (a[k][n] - sum(a[k][c] * x[c] for c in range(k + 1, n))) / a[k][k]
    res = max(abs(sum(r[c] * x[c] for c in range(n)) - b) for r, b in zip(rows, rhs))
    return x, res, min(diag) / max(diag)


def spins_of(row, s):
    m = scale(row[3:6], s)
    a, b = row[7:10], row[10:13]
    if s == 2:
        return [a, b]
    return [a, sub(sub(m, a), b), b]


def ring_job(mon, i):
    """hsize = ssize = 2 or 3: a row shows the whole state"""
    rng = mon.rng("ring", i)
    s = 2 + (i % 2)
    disorder = i % 4 in (0, 3) and s == 2
    response = i % 3 == 1 and not disorder
    conf = dict(hsize=s, ssize=s, jvar=rng.choice([0.05, 0.2]) if disorder else 0.0,
                hvar=rng.choice([0.0, 0.1]) if disorder else 0.0, hfield=fields(rng), hs=fields(rng),
                drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"]), e=round(rng.uniform(0.1, 1.5), 3),
                tau=round(math.exp(rng.uniform(math.log(0.5), math.log(20))), 4), runs=rng.choice([2, 3, 4]), threads=rng.choice([1, 2, 3, 8]),
                ednsty=rng.choice([-0.1, -0.5, -0.66]), file=rng.choice(["log", "run-"]), trel=rng.choice([0.0, 1.5]))
    conf["lambda"] = round(rng.uniform(-1.5, 2.0), 3)
    conf["dt"] = rng.choice([0.004, 0.01, 0.013])
    conf["t"] = conf["dt"] * rng.choice([120, 200])
    if conf["trel"] and not response:
        conf["trel"] = 0.5
    exact = False
    if response and rng.random() < 0.6:
        # steps which reach t = 0 without rounding: the step from there on is without field
        conf["dt"], exact = 2.0 ** -8, True
        conf["t"] = conf["dt"] * rng.choice([64, 128])
    args = ["--response"] if response else []
    tau = conf["tau"]
    if rng.random() < 0.4:
        # "the period override changes only the drive"
        tau = round(tau * rng.choice([0.3, 2.2]), 5)
        args += ["-t", repr(tau)]
    eff = full(conf)
    eff["tau"] = tau
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        starts, couplings = [], []
        for n in range(conf["runs"]):
            name = "%s%d.dat" % (conf["file"], n)
            data = sc.read(name)
            if not mon.require("every run has a log", data is not None, lambda: describe(sc, r)):
                continue
            rows = parse_rows(data, mon, name, 13)
            if rows is None or not rows:
                continue
            judge_ring(mon, eff, conf, args, rows, name, s, response, starts, couplings, exact)
        mon.require("runs are different", len(set(starts)) == len(starts), lambda: describe(sc, r))
        if disorder:
            ok = len(set(couplings)) == len(couplings)
            mon.require("every run has its own couplings", ok, lambda: {"couplings": couplings, "run": describe(sc, r)})
        mon.sample({"args": args, "config": conf})


def judge_ring(mon, eff, conf, args, rows, name, s, response, starts, couplings, exact=False):
    def show(x):
        return {"file": name, "args": args, "config": conf, "note": x}
    js = [[1.0, 1.0, eff["lambda"]] for _ in range(s)]
    hs = static_fields(eff)
    starts.append(tuple(round(x, 9) for x in rows[0][7:13]))
    states = [spins_of(row, s) for row in rows]
    fit_err = 0.0
    if conf["jvar"] > 0:
        # which couplings and fields does this run have?
        lhs, rhs_ = [], []
        lhs2, rhs2 = [], []
        for row, sp in zip(rows, states):
            d = drive_field(eff, row[0])
            lhs.append([-sp[0][k] * sp[1][k] for k in range(3)] + sp[0])
            rhs_.append(row[2] * (s - 1) - dot(d, sp[0]))
            lhs2.append([-sp[0][k] * sp[1][k] for k in range(3)] + sp[0] + sp[1])
            rhs2.append(row[1] * s - dot(d, add(sp[0], sp[1])))
        x1, res1, q1 = linear_fit(lhs, rhs_)
        x2, res2, q2 = linear_fit(lhs2, rhs2)
        if x1 is None or x2 is None or min(q1, q2) < 1e-6:
            mon.note("runs too regular to infer their couplings")
            return
        fit_err = 1e-14 / min(q1, q2) * 100
        mon.bound("energies are those of one fixed set of couplings and fields", max(res1, res2), 1e-11, lambda: show([x1, x2]))
        js = [x1[:3], [a - b for a, b in zip(x2[:3], x1[:3])]]
        hs = [x1[3:6], x2[6:9]]
        mon.bound("both energies see the same field", max(abs(a - b) for a, b in zip(x1[3:6], x2[3:6])), 1e-9 + 10 * fit_err, lambda: show([x1, x2]))
        couplings.append(tuple(round(x, 6) for x in js[0] + js[1]))
        mean_h = static_fields(eff)
        for k in range(3):
            for q in range(2):
                mon.bound("couplings are as configured", abs(js[q][k] - [1.0, 1.0, eff["lambda"]][k]), 7 * conf["jvar"], lambda: show(js))
                mon.bound("fields are as configured", abs(hs[q][k] - mean_h[q][k]), 7 * conf["hvar"] + 1e-9 + 10 * fit_err, lambda: show(hs))
        mon.note("couplings inferred", 6)
    wmax = max(2 * max(abs(x) for j in js for x in j) + norm(h) for h in hs) + max(1.0, eff["e"]) + norm(conf["hs"]) + 2 * math.pi / eff["tau"] / 4
    prev = None
    for n, (row, sp) in enumerate(zip(rows, states)):
        t = row[0]
        d = drive_field(eff, t)
        for v in sp:
            mon.bound("spins are unit vectors", abs(norm(v) - 1), 1e-12, lambda: show(row))
        msum = [sum(v[k] for v in sp) / s for k in range(3)]
        mon.bound("magnetisation column", max(abs(a - b) for a, b in zip(msum, row[3:6])), 1e-12, lambda: show(row))
        mon.bound("total z magnetisation column", abs(row[6] - msum[2]), 1e-12, lambda: show(row))
        if conf["jvar"] == 0:
            bonds = [-sum(sp[j][k] * js[j][k] * sp[(j + 1) % s][k] for k in range(3)) for j in range(s)]
            f = [dot(add(hs[j], d), sp[j]) for j in range(s)]
            mon.bound("total energy column", abs(row[1] - (sum(bonds) + sum(f)) / s), 1e-11, lambda: show(row))
            mon.bound("subsystem energy column", abs(row[2] - (sum(bonds[:-1]) + sum(f[:-1])) / (s - 1)), 1e-11, lambda: show(row))
        if prev is not None:
            t0 = prev[0]
            dt = conf["dt"]
            if response and n == 1:
                t0 = -conf["t"]
            field = not (response and t0 > -1e-9 * (1 + conf["t"]))
            # the step at t0 = 0 up to rounding may count as either side
            cands = [field]
            if response and abs(t0) < 1e-9 * (1 + conf["t"]):
                cands = [False] if exact else [True, False]
                mon.note("steps at which the field is switched off")
            tol = 0.25 * (wmax * dt) ** 3 + 1e-11 + 10 * fit_err
            err = min(max(norm(sub(a, b)) for a, b in zip(rk4(eff, prev[1], t0, dt, 2, js, hs, field=c), sp)) for c in cands)
            mon.bound("consecutive rows are linked by the equations of motion", err, tol, lambda: show([prev, row]))
        prev = (t, sp)
    mon.case((name, json.dumps(conf), tuple(args)), n=len(rows))
    mon.note("rows linked to the previous one", len(rows) - 1)


def partial_job(mon, i):
    """hsize = 3, ssize = 2: the bath spin follows from the totals"""
    rng = mon.rng("partial", i)
    conf = dict(hsize=3, ssize=2, jvar=0.0, hvar=0.0, hfield=fields(rng), hs=fields(rng), drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "staticfield"]),
                e=0.7, tau=round(rng.uniform(1, 8), 3), runs=2, threads=rng.choice([1, 2]), dt=0.005, t=0.6)
    conf["lambda"] = round(rng.uniform(0.3, 1.6), 3)
    eff = full(conf)
    js = [[1.0, 1.0, eff["lambda"]]] * 3
    hs = static_fields(eff)
    wmax = 2 * max(1, abs(eff["lambda"])) + max(norm(h) for h in hs) + 1 + norm(conf["hs"])
    with Scratch(conf) as sc:
        r = run_sc(sc, [], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        for n in range(2):
            name = "log%d.dat" % n
            rows = parse_rows(sc.read(name) or b"", mon, name, 13)
            if not rows:
                continue
            row = rows[0]
            a, b = row[7:10], row[10:13]
            d = drive_field(eff, row[0])
            z = row[6] * 3 - a[2] - b[2]
            # e = -a J b - (a + b) J c + fields, linear in c
            known = -sum(a[k] * js[0][k] * b[k] for k in range(3)) + dot(add(hs[0], d), a) + dot(add(hs[1], d), b)
            g = [hs[2][k] - js[0][k] * (a[k] + b[k]) for k in range(3)]
            rest = row[1] * 3 - known - g[2] * z
            gg = g[0] ** 2 + g[1] ** 2
            q = 1 - z * z - rest * rest / gg if gg > 1e-3 else -1
            if q < 1e-3:
                # too close to a double root to tell the two candidates
                mon.note("bath spin not determined")
                continue
            base = [g[0] * rest / gg, g[1] * rest / gg]
            perp = [-g[1] / math.sqrt(gg), g[0] / math.sqrt(gg)]
            errs = []
            for sign in (1, -1):
                c = [base[0] + sign * math.sqrt(q) * perp[0], base[1] + sign * math.sqrt(q) * perp[1], z]
                sp = [a, b, c]
                t = row[0]
                worst = 0.0
                for nxt in rows[1:]:
                    sp = rk4(eff, sp, t, conf["dt"], 1, js, hs)
                    t = nxt[0]
                    d2 = drive_field(eff, t)
                    e = (-sum(sp[j][k] * js[0][k] * sp[(j + 1) % 3][k] for j in range(3) for k in range(3))
                         + dot(add(hs[0], d2), sp[0]) + dot(add(hs[1], d2), sp[1]) + dot(hs[2], sp[2])) / 3
                    worst = max(worst, norm(sub(sp[0], nxt[7:10])), norm(sub(sp[1], nxt[10:13])), abs(e - nxt[1]),
                                abs(sum(v[2] for v in sp) / 3 - nxt[6]))
                errs.append(worst)
            tol = 0.5 * wmax ** 3 * conf["dt"] ** 2 * conf["t"] * math.exp(0.3 * wmax * conf["t"]) / math.sqrt(q)
            mon.bound("the log is a trajectory of the driven pair and its bath spin", min(errs), tol,
                      lambda: {"file": name, "config": conf, "errors": errs, "row": row})
            mon.case((name, json.dumps(conf)), n=len(rows))


def ext_job(mon, i):
    rng = mon.rng("ext", i)
    h, s = rng.choice([(8, 8), (7, 7), (9, 5), (6, 4), (12, 11)])
    conf = dict(hsize=h, ssize=s, jvar=0.0, hvar=0.0, hfield=fields(rng), hs=fields(rng), drive=rng.choice(["xyplane", "uniaxial", "xyelliptic", "none"]),
                e=0.6, tau=round(rng.uniform(0.7, 8), 3), runs=rng.choice([1, 2, 3]), threads=rng.choice([1, 2, 4]), dt=0.008, t=0.8, trel=rng.choice([0.0, 0.4]))
    conf["lambda"] = round(rng.uniform(-1, 1.6), 3)
    eff = full(conf)
    js = [1.0, 1.0, eff["lambda"]]
    hs = static_fields(eff)
    wmax = 2 * max(1, abs(eff["lambda"])) + max(norm(x) for x in hs) + 1 + norm(conf["hs"]) + 2 * math.pi / conf["tau"] / 4
    with Scratch(conf) as sc:
        r = run_sc(sc, ["-e"], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        starts = []
        for n in range(conf["runs"]):
            name = "log%d.dat" % n
            data = sc.read(name)
            if not mon.require("every run has a log", data is not None, lambda: describe(sc, r)):
                continue
            blocks = data.decode().split("\n", 1)[1].split("\n\n")
            if not mon.require("profiles are separated by blank lines", blocks[-1] == "", lambda: repr(blocks[-1][-200:])):
                continue
            prev = None
            for b in blocks[:-1]:
                rows = parse_rows((b + "\n").encode(), mon, name, 6)
                if rows is None:
                    break
                sites = {int(x[1]): x for x in rows}

                def show(x=""):
                    return {"file": name, "config": conf, "rows": rows, "note": x}
                t = rows[0][0]
                d = drive_field(eff, t)
                spin = {q: x[3:6] for q, x in sites.items()}
                for q, x in sites.items():
                    mon.bound("spins are unit vectors", abs(norm(spin[q]) - 1), 1e-12, show)
                    if q - 1 in spin and q + 1 in spin:
                        e = -0.5 * sum(spin[q][k] * js[k] * (spin[q - 1][k] + spin[q + 1][k]) for k in range(3)) + dot(add(hs[q], d), spin[q])
                        mon.bound("local energy is half of each bond plus the field", abs(e - x[2]), 1e-11, lambda: show(q))
                        mon.note("local energies judged")
                if prev is not None:
                    t0, old = prev
                    dt = t - t0
                    dm = drive_field(eff, t0 + dt / 2)
                    mid = {q: scale(add(spin[q], old[q]), 0.5) for q in spin if q in old}
                    for q in mid:
                        if q - 1 in mid and q + 1 in mid:
                            w = [js[k] * (mid[q - 1][k] + mid[q + 1][k]) - hs[q][k] - dm[k] for k in range(3)]
                            err = norm(sub(sub(spin[q], old[q]), scale(cross(mid[q], w), dt)))
                            mon.bound("consecutive profiles are linked by the equations of motion", err, 0.25 * (wmax * dt) ** 3 + 1e-11, lambda: show(q))
                            mon.note("rows linked to the previous one")
                else:
                    starts.append(tuple(rows[0][3:6]))
                prev = (t, spin)
                mon.case(n=len(rows))
            mon.case((name, json.dumps(conf)))
        mon.require("runs are different", len(set(starts)) == len(starts), lambda: describe(sc, r))


def langevin_job(mon, i):
    rng = mon.rng("langevin", i)
    s = 2
    kind = ["free", "cold", "warm", "open"][i % 4]
    gamma = {"free": 0.0, "cold": [3.7, 0.2, 30.0, 0.001, 1.0][i // 4 % 5], "warm": rng.choice([0.3, 1.5, 4.0]), "open": rng.choice([0.1, 0.8])}[kind]
    beta = {"free": rng.choice([0.5, 2.0]), "cold": 1e14, "warm": rng.choice([0.7, 3.0]), "open": 1e14}[kind]
    conf = dict(hsize=9, ssize=s, jvar=0.0, hvar=0.0, hfield=fields(rng), hs=fields(rng), drive=rng.choice(["xyplane", "uniaxial", "xyelliptic"]),
                e=0.8, tau=round(rng.uniform(1, 8), 3), runs=2, threads=rng.choice([1, 2]), dt=0.002, t=1.2, jv=0)
    conf.pop("jv")
    if kind == "open":
        conf.update(ssize=rng.choice([3, 4, 5, 8]), hfield=[0.0] * 3, hs=[0.0] * 3, drive="none", jvar=0.3)
        conf["lambda"] = round(rng.uniform(-1, 2), 3)
        beta = 2.0
        gamma = 0.0
    s = conf["ssize"]
    eff = full(conf)
    hs = static_fields(dict(eff, hsize=s))
    bmax = norm(hs[0]) + 1
    args = ["-l", repr(gamma), "-b", repr(beta)]
    with Scratch(conf) as sc:
        r = run_sc(sc, args, seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        starts = []
        for n in range(2):
            name = "log%d.dat" % n
            data = sc.read(name)
            if not mon.require("every run has a log", data is not None, lambda: describe(sc, r)):
                continue
            rows = parse_rows(data.split(b"\n", 1)[1], mon, name, 8)
            if not rows:
                continue

            def show(x=""):
                return {"file": name, "config": conf, "args": args, "note": x}
            starts.append(tuple(rows[0][3:6]))
            e_tot = []
            for row in rows:
                mon.bound("both energy columns are the subsystem energy", abs(row[1] - row[2]), 1e-14, lambda: show(row))
                mon.bound("total z magnetisation column", abs(row[6] - row[5]), 1e-13, lambda: show(row))
                mon.require("magnetisation within bounds", norm(row[3:6]) <= 1 + 1e-12, lambda: show(row))
                if kind != "open":
                    m = scale(row[3:6], s)
                    # isotropic pair: the bond energy follows from the magnetisation
                    e_tot.append(1 - dot(m, m) / 2 + dot(m, add(hs[0], drive_field(eff, row[0]))))
                    bond = e_tot[-1] - dot(m, add(hs[0], drive_field(eff, row[0])))
                    mon.require("subsystem energy is possible", abs(row[2] - bond) <= norm(add(hs[0], drive_field(eff, row[0]))) + 1e-11, lambda: show(row))
                else:
                    mon.bound("an undamped undriven open chain keeps its energy", abs(row[1] - rows[0][1]), 1e-10, lambda: show(row))
                    mon.bound("no energy flow without drive or damping", abs(row[7]), 1e-12, lambda: show(row))
            dt = conf["dt"]
            if kind in ("free", "cold"):
                wm = 1 + bmax
                for k in range(len(rows) - 1):
                    flow = (rows[k][7] + rows[k + 1][7]) / 2
                    err = abs(e_tot[k + 1] - e_tot[k] - dt * flow)
                    tol = 4 * (1 + gamma) * (wm * dt) ** 2 * (wm + 2 * math.pi / conf["tau"]) / 2 + 1e-11
                    if kind == "cold":
                        tol += 20 * wm * math.sqrt(gamma * dt / beta)
                        damping_asked_for(mon, eff, gamma, rows[k], hs[0], lambda: show(rows[k]))
                    mon.bound("energy flow column is the rate of change of the energy", err, tol, lambda: show([rows[k], rows[k + 1]]))
            elif kind == "warm":
                tot = e_tot[-1] - e_tot[0] - sum(dt * row[7] for row in rows[:-1])
                sigma = math.sqrt(2 * len(rows) * dt * 2 * gamma / beta) * (1 + bmax)
                mon.bound("energy flow column is the mean rate of change of the energy", abs(tot),
                          Z * sigma + 3 * dt * (1 + bmax) ** 3 * (1 + gamma) * conf["t"] * (1 + gamma / beta), lambda: show(tot))
            mon.case((name, json.dumps(conf), gamma, beta), n=len(rows))
            mon.note("edge-coupled rows judged", len(rows))
        mon.require("runs are different", len(set(starts)) == len(starts), lambda: describe(sc, r))


def damping_asked_for(mon, eff, gamma, row, h0, show):
    """The magnetisation and the energy of an isotropic pair fix it up to a reflection, and so the loss of energy"""
    m = scale(row[3:6], 2)
    d = drive_field(eff, row[0])
    h = add(h0, d)
    mm = dot(m, m)
    perp = sub(h, scale(m, dot(m, h) / mm)) if mm > 1e-2 else [0.0] * 3
    pp = dot(perp, perp)
    if pp < 1e-2:
        mon.note("pairs not determined")
        return
    # difference of the spins: across the magnetisation, of known length and component along the field
    along = 2 * (row[2] - (1 - mm / 2)) - dot(m, h)
    q = 4 - mm - along ** 2 / pp
    # rate of the drive field
    rate = 2 * math.pi / eff["tau"]
    phi = rate * row[0]
    dd = {"xyplane": [-math.sin(phi), math.cos(phi), 0.0], "uniaxial": [-math.sin(phi), 0.0, 0.0],
          "xyelliptic": [-math.sin(phi), eff["e"] * math.cos(phi), 0.0]}[eff["drive"]]
    driven = rate * dot(dd, m)
    side = cross(m, perp)
    side = scale(side, math.sqrt(max(q, 0.0)) / norm(side))
    errs = []
    for sign in (1, -1):
        diff = add(scale(perp, along / pp), scale(side, sign))
        a, b = scale(add(m, diff), 0.5), scale(sub(m, diff), 0.5)
        lost = sum(dot(x, x) for x in (cross(a, sub(b, h)), cross(b, sub(a, h))))
        errs.append(abs(driven - gamma * lost - row[7]))
    mon.bound("energy is lost at the rate of the damping asked for", min(errs), (1 + gamma) * (1e-9 + min(1e-5, 1e-11 / math.sqrt(max(q, 1e-14)))), show)
    mon.note("rows of which the damping is judged")


def run(mon):
    jobs = [lambda i=i: ring_job(mon, i) for i in range(mon.n(20, 300))]
    jobs += [lambda i=i: partial_job(mon, i) for i in range(mon.n(6, 80))]
    jobs += [lambda i=i: ext_job(mon, i) for i in range(mon.n(7, 80))]
    jobs += [lambda i=i: langevin_job(mon, i) for i in range(mon.n(20, 80))]
    parallel(mon, jobs)


RULE = ("Batches of the real program whose logs show the whole state (2 or 3 spins), a driven pair with a hidden bath spin, interior profiles, and edge-coupled pairs; "
        "an offline monitor recomputes every column from the spins, links each row to the next through the equations of motion with the configured (or inferred) couplings, "
        "and compares runs of a batch. evaluations counts rows judged, a case is one log file of one configuration.")
