"""P15: command lines and job files run the harmonisation they describe."""
import contextlib
import importlib
import inspect
import io
import logging
import os
import sys

import numpy as np

import vh

C = vh.Check(
    "P15",
    rule="A case is a command line: a job file (any layout of its lines, relative or absolute paths) or an input directory, "
         "a sensor name and an output directory, with any of the other options, in any order and spelling, or one that breaks a rule. "
         "Non-trivial: a command line of at least five arguments.",
    assumptions=["Python 3's argparse and configparser parse the mirrored code's options and files.",
                 "Paths do not begin with a hyphen."],
    setup=lambda w: w.use_eiv(),
)

PLAIN = [("job", "-j", "--job_file"), ("input", "-i", "--input_directory"), ("sensor", "-s", "--sensor"),
         ("output", "-o", "--output_directory"), ("pc", None, "--pc_input"), ("save_pc", None, "--save_pc"),
         ("gn", None, "--gn_input"), ("save_gn", None, "--save_gn")]
FLAGS = [("nocov", "--no_covariance"), ("verbose", "--verbose"), ("quiet", "--quiet")]
SOLVER = ("pc", "save_pc", "gn", "save_gn", "nocov", "mode")
JOBS = ["j.cfg", "./job 1.cfg", "jobs/x/j", "a b/.job"]
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]


def names():
    return list(importlib.import_module("harmonisation.sensor_data.SensorDataFactory").SensorDataFactory().get_names())


def cases():
    from hypothesis import strategies as st

    word = st.text("abcXYZ019_.%", min_size=1, max_size=6).map(lambda s: "d" + s)
    path = st.tuples(st.sampled_from(["", "/", "../", "./", "a b/"]), st.lists(word, min_size=1, max_size=3)).map(
        lambda t: t[0] + "/".join(t[1]))
    kind = st.sampled_from(["job", "job", "job and one", "options", "options", "options", "one less", "any"])
    return st.fixed_dictionaries({
        "kind": kind, "solver": st.sampled_from([True, True, False]),
        "values": st.fixed_dictionaries(dict({k: path for k, _, _ in PLAIN}, job=st.sampled_from(JOBS))),
        "sensor": st.integers(0, 99),
        "have": st.lists(st.sampled_from([k for k, _, _ in PLAIN] + [f for f, _ in FLAGS] + ["log", "mode", "list", "version"]),
                         unique=True, max_size=9),
        "mode": st.sampled_from(["normal", "setup_pc", "setup_trans2ind", "fast"]),
        "order": st.integers(0, 2 ** 20), "spell": st.lists(st.integers(0, 2), min_size=12, max_size=12),
        "layout": st.fixed_dictionaries({"sep": st.sampled_from([" = ", "=", ": ", " : "]), "order": st.permutations(range(3)),
                                         "other": st.booleans(), "comment": st.booleans(), "upper": st.booleans()})})


def plan(case):
    """(options of the command line, argv, expected exit status or None)"""
    have = set(case["have"])
    if case["kind"] == "job":
        have = (have & {"nocov", "verbose", "quiet", "log", "mode"}) | {"job"}
    elif case["kind"] == "options":
        have = (have - {"job", "list", "version"}) | {"input", "sensor", "output"}
    others = ["input", "sensor", "output"] + (["pc", "save_pc", "gn", "save_gn"] if case["solver"] else [])
    if case["kind"] == "job and one":
        have = (have & {"nocov", "verbose", "quiet", "log", "mode"}) | {"job", others[case["order"] % len(others)]}
    elif case["kind"] == "one less":
        have = (have - {"job", "list", "version"}) | {"input", "sensor", "output"}
        have -= {others[case["order"] % 3]}
    if case["kind"] != "any":
        have -= {"quiet"} if "verbose" in have else set()
    if not case["solver"]:
        have -= set(SOLVER)
    all_names = names()
    v = dict(case["values"], sensor=all_names[case["sensor"] % len(all_names)])
    args = []
    for n, (k, short, full) in enumerate(PLAIN):
        if k in have:
            s = case["spell"][n]
            if s == 0 and short:
                args.append([short, v[k]])
            elif s == 1:
                args.append([full + "=" + v[k]])
            else:
                args.append([full, v[k]])
    args += [[f] for k, f in FLAGS if k in have]
    if "mode" in have:
        args.append(["--mode", case["mode"]])
    if "log" in have:
        args.append(["--log", v["job"] + ".log"])
    order = np.argsort(vh.uni((case["order"], "o"), len(args))) if args else []
    args = [args[int(k)] for k in order]
    # These end the program where they are met: they are put first.
    if "list" in have:
        args.insert(0, ["--list_sensors"])
    elif "version" in have:
        args.insert(0, ["--version"])
    if have & {"list", "version"}:
        code = 0
    elif ("verbose" in have and "quiet" in have) or ("mode" in have and case["mode"] == "fast"):
        code = 2
    elif "job" in have and have & {"input", "sensor", "output", "pc", "save_pc", "gn", "save_gn"}:
        code = 2
    elif "job" not in have and not {"input", "sensor", "output"} <= have:
        code = 2
    else:
        code = None
    return have, v, [a for g in args for a in g], code


@contextlib.contextmanager
def argv(args):
    old = sys.argv
    sys.argv = ["full_eiv_solver"] + args
    try:
        yield
    finally:
        sys.argv = old


@contextlib.contextmanager
def inside(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


def write_job(case, v, path):
    y = case["layout"]
    keys = [("dataset_dir", v["input"]), ("sensor", v["sensor"]), ("output_dir", v["output"])]
    lines = []
    if y["comment"]:
        lines += ["# a job", ""]
    if y["other"]:
        lines += ["[DEFAULT]", "job_id = 17", "[other]", "sensor = none", "dataset_dir = elsewhere", ""]
    lines.append("[harmonisation]")
    for n in y["order"]:
        k, val = keys[n]
        if y["comment"]:
            lines.append("; the next")
        lines.append((k.upper() if y["upper"] else k) + y["sep"] + val)
    if y["other"]:
        lines += ["[last]", "output_dir = nowhere"]
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def same_sensor_data(got, name, what):
    fac = importlib.import_module("harmonisation.sensor_data.SensorDataFactory")
    want = [s.get_sensor_data() for s in fac.SensorDataFactory().sensors_data.values() if s.name == name]
    vh.equal(len(want), 1, "sensor data of the name " + name)
    vh.equal(list(got), list(want[0]), what + " sensors")
    for s in got:
        vh.equal(sorted(got[s]), sorted(want[0][s]), "%s data of %s" % (what, s))
        vh.equal(list(got[s]["sensor_model_parameter"]), list(want[0][s]["sensor_model_parameter"]), "%s parameters of %s" % (what, s))
        assert got[s]["sensor_model"] is want[0][s]["sensor_model"], "%s model of %s" % (what, s)


def expected(case, have, v, cwd):
    """What a run gets: input, output, pc_input, save_pc, gn_input, save_gn, show, covariance."""
    show = 0 if "quiet" in have else 2 if "verbose" in have else 1
    if "job" in have:
        a = lambda p: os.path.normpath(os.path.join(cwd, p))
        return [a(v["input"]), a(v["output"]), None, None, None, None, show]
    o = lambda k: v[k] if k in have else None
    return [v["input"], v["output"], o("pc"), o("save_pc"), o("gn"), o("save_gn"), show]


@C.prop("arguments", cases, quick=1200)
def arguments(case, ctx):
    common = importlib.import_module("harmonisation.tools.common")
    have, v, args, code = plan(case)
    with vh.ws().tmp() as t, argv(args):
        t = os.path.join(t, "x")
        os.mkdir(t)
        with inside(t):
            out, status, parsed = io.StringIO(), None, None
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                try:
                    parsed = common.parse_cmdline("test", solver_options=case["solver"])
                except SystemExit as e:
                    status = e.code or 0
            vh.equal(status, code, "exit status of %r" % args)
            if "list" in have:
                vh.equal(out.getvalue().split(), [s for n in names() for s in n.split()], "sensors listed")
            if code is None:
                if "job" in have:
                    write_job(case, v, v["job"])
                got = common.read_parsed_cmdline(parsed, solver_options=case["solver"])
                want = expected(case, have, v, os.path.realpath(t))
                if not case["solver"]:
                    want = want[:2] + want[-1:]
                same_sensor_data(got[1], v["sensor"], "run's")
                vh.equal([got[0]] + list(got[2:]), want, "run of %r" % args)
                vh.equal(parsed.log, v["job"] + ".log" if "log" in have else None, "log file")
    ctx.label("exit %s" % code)
    ctx.label("job" if "job" in have else "options")
    if len(args) >= 5:
        ctx.nontrivial()


def restore(logger):
    for h in list(logger.handlers):
        logger.removeHandler(h)
        h.close()


@C.prop("program", cases, quick=250)
def program(case, ctx):
    """The solver's program, with the operator replaced by one that records its arguments."""
    case = dict(case, solver=True)
    have, v, args, code = plan(case)
    if code is not None:
        return
    opm = importlib.import_module("harmonisation.tools.HarmonisationOp")
    common = importlib.import_module("harmonisation.tools.common")
    version = importlib.import_module("harmonisation.version")
    cls = opm.HarmonisationOp
    real, calls = cls.run, []

    def record(self, *a, **k):
        bound = inspect.signature(real).bind(self, *a, **k)
        bound.apply_defaults()
        calls.append(bound.arguments)

    with vh.ws().tmp() as t:
        work = os.path.join(t, "x")
        os.mkdir(work)
        with inside(work), argv(args):
            if "job" in have:
                write_job(case, v, v["job"])
            if os.path.dirname(v["job"]):
                os.makedirs(os.path.dirname(v["job"]), exist_ok=True)
            log_file = v["job"] + ".log"
            cls.run = record
            logger = logging.getLogger("harmonisation.tools.common")
            restore(logger)
            sys.modules.pop("harmonisation.tools.full_eiv_solver", None)
            out = io.StringIO()
            try:
                with contextlib.redirect_stdout(out):
                    m = importlib.import_module("harmonisation.tools.full_eiv_solver")
                    vh.equal(m.main(), 0, "status of the program")
            finally:
                cls.run = real
                restore(logger)
            want = expected(case, have, v, os.path.realpath(work))
            vh.equal(len(calls), 1, "runs of the operator")
            g = calls[0]
            got = [g[k] for k in ("dataset_dir", "output_dir", "pc_input", "save_pc", "gn_input", "save_gn", "show")]
            vh.equal(got, want, "run of %r" % args)
            vh.equal(bool(g["return_covariance"]), "nocov" not in have, "covariance")
            same_sensor_data(g["sensor_data"], v["sensor"], "run's")
            cfg = g["software_cfg"]
            vh.equal([cfg["software"], cfg["version"], cfg["tag"]],
                     [version.__short_name__, version.__version__, version.__tag__], "software")
            text = out.getvalue()
            if "quiet" not in have:
                assert want[0] in text and want[1] in text, "directories in the output: %r" % text
            else:
                vh.equal(text, "", "quiet output")
            vh.equal(os.path.exists(log_file), "log" in have, "log file")
            if "log" in have and "quiet" not in have:
                text = open(log_file).read()
                assert want[0] in text and want[1] in text, "directories in the log: %r" % text
    if len(args) >= 5:
        ctx.nontrivial()


def log_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"file": st.sampled_from([None, "new", "earlier run"]), "mode": st.sampled_from(["normal", "verbose", "quiet"]),
                                  "messages": st.lists(st.tuples(st.sampled_from(LEVELS), st.integers(0, 10 ** 6)), max_size=8),
                                  "before": st.sampled_from([None, None, "normal", "verbose", "quiet"])})


@C.prop("log", log_cases, quick=200)
def log(case, ctx):
    common = importlib.import_module("harmonisation.tools.common")
    logger = logging.getLogger("harmonisation.tools.common")
    restore(logger)
    out = io.StringIO()
    least = {"normal": logging.INFO, "verbose": logging.DEBUG, "quiet": logging.WARNING}[case["mode"]]
    with vh.ws().tmp() as t:
        path = os.path.join(t, "run.log")
        before = []
        if case["file"] == "earlier run":
            before = ["2018-01-01 00:00:00,000 : INFO : message of that run"]
            open(path, "w").write(before[0] + "\n")
        try:
            if case["before"]:
                # As by another program run in the process, before.
                with contextlib.redirect_stdout(io.StringIO()):
                    common.configure_logging(os.path.join(t, "other.log"), case["before"] == "verbose", case["before"] == "quiet")
            with contextlib.redirect_stdout(out):
                lg = common.configure_logging(path if case["file"] else None, case["mode"] == "verbose", case["mode"] == "quiet")
                for level, n in case["messages"]:
                    lg.log(level, "message %d", n)
        finally:
            restore(logger)
        want = [(lv, "message %d" % n) for lv, n in case["messages"] if lv >= least]
        vh.equal(out.getvalue().splitlines(), [m for _, m in want], "messages shown")
        vh.equal(sorted(set(os.listdir(t)) - {"other.log"}), ["run.log"] if case["file"] else [], "files")
        if case["file"]:
            lines = open(path).read().splitlines()
            vh.equal(lines[:len(before)], before, "messages of an earlier run")
            lines = [x.split(" : ") for x in lines[len(before):]]
            vh.equal([(x[1], x[2]) for x in lines], [(logging.getLevelName(lv), m) for lv, m in want], "messages in the log file")
    if len(case["messages"]) > 1:
        ctx.nontrivial()
