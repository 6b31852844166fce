"""C17: configuration is read as written and defaults fill the gaps (the program's side of it)"""
from .common import *
import re


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


def check_all_defaults(mon, conf, what, show):
    conf = dict(conf)
    if "drivetype" in conf:
        conf["drive"] = conf.pop("drivetype")
    for k, v in DEFAULTS.items():
        mon.require("%s has every parameter at its documented default" % what, k in conf and same(conf[k], v), lambda: dict(show(), key=k, value=conf.get(k), default=v))
    for k in conf:
        mon.require("%s has only parameters" % what, k in DEFAULTS, lambda: dict(show(), key=k))
    mon.case((what, repr(conf)))


def description(mon):
    with Scratch({"ssize": 4}) as sc:
        before = sc.snapshot()
        r = run_sc(sc, ["--config-desc"])
        if not must_finish(mon, sc, r):
            return
        show = lambda: dict(describe(sc, r), out=r.out[:3000])
        mon.require("printing the description changes nothing", sc.snapshot() == before, lambda: dict(show(), files=sc.files()))
        try:
            conf = tomllib.loads(r.out)
        except tomllib.TOMLDecodeError as e:
            mon.require("the printed description is a configuration", False, lambda: dict(show(), error=str(e)))
            return
        check_all_defaults(mon, conf, "the printed description", show)
        for k in conf:
            m = re.search(r"^%s\s*=.*#\s*\S" % re.escape(k), r.out, re.M)
            mon.require("the description describes every parameter", m is not None, lambda: dict(show(), key=k))
        # used as it is, it is accepted
        with Scratch() as s2:
            s2.write("config.toml", r.out)
            r2 = run_sc(s2, ["--config-desc"])
            must_finish(mon, s2, r2)
            mon.require("the printed description is accepted and kept", s2.read("config.toml") == r.out.encode(), show)
            mon.case(("description accepted",))


def missing(mon):
    with Scratch() as sc:
        r = run_sc(sc, ["--config-desc"])
        if not must_finish(mon, sc, r):
            return
        data = sc.read("config.toml")
        if mon.require("a missing configuration is written", data is not None, lambda: describe(sc, r)):
            check_all_defaults(mon, tomllib.loads(data.decode()), "the written default", lambda: dict(describe(sc, r), file=data.decode()))
            r = run_sc(sc, ["--config-desc"])
            must_finish(mon, sc, r)
            mon.require("reading a configuration leaves it", sc.read("config.toml") == data, lambda: describe(sc, r))


GOOD = "hsize = 6\nssize = 4\nfile = \"mine\"\n"
BAD = [GOOD + "tau =", GOOD + "tau = \"ten\"\n", GOOD + "runs = -1.5\n", GOOD + "threads = -1\n", GOOD + "drive = \"square\"\n", GOOD + "hfield = 3\n", GOOD + "hfield = [1, \"a\", 0]\n",
       GOOD + "strob = 1\n", GOOD + "hsize = 7\n", "[[[\n", GOOD + "offset = -4\n", GOOD + "t = 1 2\n", "\x00\x01\x02", GOOD + "file = 7\n", GOOD + "mc_points = 1e3\n",
       GOOD + "ssize = true\n", GOOD + "lambda = [1]\n", GOOD + "log = \"yes\"\n", GOOD + "offset = 99999999999\n", b"\xff\xfe\x00 not utf8 \x80\n", GOOD.encode() + b"file2 = \"\xe9\"\n",
       "hsize 6\n", "{\"hsize\": 6}\n", GOOD + "dt = .02.\n", GOOD + "runs = \n\n"]


def malformed(mon, i, bad):
    rng = mon.rng("bad", i)
    modes = [[], ["-m"], ["-a"], ["-d", "2"], ["-s", "1"], ["-n", "1"], ["-e"], ["-l"], ["-P"], ["-f", "-0.4"], ["--response"], ["--config-desc"]]
    args = modes[i % len(modes)]
    with Scratch() as sc:
        sc.write("config.toml", bad)
        sc.write("log0.dat", "0 1 2\n")
        sc.write("mine0.dat", "0 1 2\n")
        before = sc.snapshot()
        r = run_sc(sc, args, cpu_limit=100)
        show = lambda: dict(describe(sc, r), config=repr(bad))
        mon.require("the program finishes", r.ended == "exit", show)
        mon.require("a malformed configuration is refused", r.code != 0, show)
        mon.require("a malformed configuration and the other files are left alone", sc.snapshot() == before, lambda: dict(show(), files=sc.files()))
        mon.case((repr(bad), tuple(args)))
        mon.note("malformed files offered")
        if i < 4:
            mon.sample({"config": repr(bad), "args": args, "exit": r.code})


def unreadable(mon):
    with Scratch() as sc:
        os.mkdir(sc.path("config.toml"))
        sc.write("config.toml/x", "1")
        r = run_sc(sc, ["-d", "2"], cpu_limit=100)
        mon.require("an unreadable configuration is refused", r.ended == "exit" and r.code != 0, lambda: describe(sc, r))
        mon.require("an unreadable configuration is left alone", sc.read("config.toml/x") == b"1" and sc.files() == ["config.toml"], lambda: dict(describe(sc, r), files=sc.files()))
        mon.case(("directory",))
    with Scratch() as sc:
        os.symlink("nowhere/there", sc.path("config.toml"))
        r = run_sc(sc, ["-d", "2"], cpu_limit=100)
        mon.require("the program finishes", r.ended == "exit", lambda: describe(sc, r))
        mon.case(("dangling link",))


def effective(mon, i):
    """The program runs with what the file says: parameters that show in the output"""
    rng = mon.rng("effective", i)
    pairs = []
    hz = rng.choice([0.75, -2, 3])
    hs = rng.choice([0, 1.5])
    lam = rng.choice([0, 1, 2, -0.5])
    conf = {"hsize": rng.choice([2, 7]), "ssize": 2, "t": rng.choice([1, 2.5, 3]), "dt": rng.choice([0.1, 0.5, 1]), "threads": rng.choice([1, 3]), "lambda": lam,
            "hfield": [0, 0, hz], "hs": [0, hs, 0], "jvar": 0, "hvar": 0, "trel": rng.choice([0, 1]), "tau": rng.choice([1, 4]),
            rng.choice(["drive", "drivetype"]): "staticfield", "mc_points": rng.choice([1, 3]), "ednsty": -0.5}
    items = list(conf.items())
    rng.shuffle(items)
    text = rng.choice(["", "# a comment\n\n"]) + "".join("%s=%s%s\n" % (k, toml_value(v), rng.choice(["", "  # note"])) for k, v in items)
    n = 3
    with Scratch() as sc:
        sc.conf = conf
        sc.write("config.toml", text)
        r = run_sc(sc, ["-m", "-d", str(n)], seed=rng.getrandbits(60))
        if not must_finish(mon, sc, r):
            return
        show = lambda: dict(describe(sc, r), text=text, files=sc.files())
        mon.require("reading a configuration leaves it", sc.read("config.toml") == text.encode(), show)
        rows = parse_rows(sc.read("mc_live.dat") or b"", mon, "mc_live.dat", 11)
        mon.require("mc_points is as configured", rows is not None and len(rows) == conf["mc_points"], show)
        for x in rows or []:
            a, b = x[5:8], x[8:11]
            h = [0, hs, hz]
            m = scale(add(a, b), 0.5)
            # ring of two, static field
            e = -(a[0] * b[0] + a[1] * b[1] + lam * a[2] * b[2]) + dot(h, m)
            mon.bound("couplings and fields are as configured", abs(e - x[1]), 1e-11, lambda: dict(show(), row=x))
            if conf["hsize"] == 2:
                mon.bound("drive is as configured", abs(e + hs * m[1] - x[0]), 1e-11, lambda: dict(show(), row=x))
        t = conf["t"]
        name = "dyn-hist-t-%s.dat" % t
        mon.require("the end time is as configured", sc.read(name) is not None, show)
        mon.case(text)


NAMES = ["run #1 ", "a=b", "with \"quotes\"", "back\\slash", "[table]", "tab\tbed", "# log", "日本", "it's", "a, b", "x.y.", "%s", "-", "{}", "$HOME", "~", " ", "RunB-", "ÄÖ", "007-", " x ", "Log", "log", "a" * 200]


def named(mon, i):
    """Any text as name of the logs, in every way to write it, and it stays"""
    rng = mon.rng("named", i)
    name = NAMES[i % len(NAMES)] if i < len(NAMES) else "".join(rng.choice("abXY09#='\"\\[] .,\téÉ{}") for _ in range(rng.randint(1, 12)))
    if name.strip(".") == "":
        name += "_"
    ways = [toml_value(name)]
    if "'" not in name:
        ways.append("'%s'" % name)
        ways.append("\'\'\'%s\'\'\'" % name)
    ways.append('"%s"' % "".join("\\u%04X" % ord(c) for c in name))
    text = "hsize = 4\nssize = 3   # sites\nfile = %s # the name\nt = 0.2\ndt = 0.1\nruns = 1\n" % rng.choice(ways)
    if rng.random() < 0.3:
        text = text.replace("\n", "\r\n")
    with Scratch() as sc:
        sc.write("config.toml", text)
        r = run_sc(sc, [])
        show = lambda: dict(describe(sc, r), text=text, files=sc.files())
        if not must_finish(mon, sc, r):
            return
        mon.require("the logs have the configured name", set(sc.files()) == {"config.toml", name + "0.dat"}, show)
        conf = tomllib.loads(sc.read("config.toml").decode())
        mon.require("the name is kept", conf.get("file") == name and conf.get("hsize") == 4 and conf.get("ssize") == 3, show)
        mon.case(text)


def run(mon):
    jobs = [lambda: description(mon), lambda: missing(mon), lambda: unreadable(mon)]
    jobs += [lambda i=i, b=b: malformed(mon, i, b) for i, b in enumerate(BAD * mon.n(1, 12))]
    jobs += [lambda i=i: effective(mon, i) for i in range(mon.n(24, 400))]
    jobs += [lambda i=i: named(mon, i) for i in range(mon.n(34, 600))]
    parallel(mon, jobs)


RULE = ("The real program started on missing, malformed, unreadable and reordered configuration files; the monitor compares the description and the written default with the documented "
        "defaults, every file before and after, and the output with the configured parameters.")
