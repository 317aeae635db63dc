"""P25: the Fortran software does the job that its configuration files describe."""
import os
import re
import subprocess

import numpy as np

import ftn
import vh
from p24 import read
from vh import gauss, rng, uni

C = vh.Check(
    "P25",
    rule="A case is a set of namelist files (preferences.nml, run.nml, the job, or the job from standard input) that set any of the "
         "settings, as scalars, elements, sections or rows. Non-trivial: a setting is in several files or places, or a row or "
         "section of an array is set.",
    assumptions=["Namelists as gfortran reads them."],
    setup=lambda w: (w.build_driver(), w.build_fortran()),
)
SENSORS, SERIES, COLUMNS, CONSTANTS = 25, 325, 32, 512

# Settings: what kind, their size, and their default
RUN = {"config_job": ("path", (), "job.nml"), "config_enable_log_level": ("level", (), 4), "config_solver_accuracy_goal": ("real", (), 1e-4),
       "config_solver_max_iteration": ("int", (), 100), "config_value_att_software": ("tag", (), "FO")}
JOB = {"config_job_id": ("tag", (), "01"), "config_job_enable_covariance_matrix": ("bool", (), False),
       "config_job_enable_covariance_update": ("bool", (), False), "config_job_enable_covariance_common": ("bool", (), False),
       "config_job_enable_cost_sensors": ("bool", (), True), "config_job_enable_unit": ("text", (), ""),
       "config_job_enable_prior_data": ("bool", (), False), "config_job_path_prior_data": ("text", (), "prior.dat"),
       "config_job_enable_start_data": ("bool", (), False), "config_job_path_start_data": ("text", (), "start.dat"),
       "config_job_sensor_count": ("int", (), 0), "config_job_sensors": ("int", (SENSORS,), 0),
       "config_job_sensor_names": ("text", (SENSORS,), ""), "config_job_sensor_columns": ("int", (SENSORS, COLUMNS), 0),
       "config_job_sensor_columns_select": ("bool", (SENSORS,), False),
       "config_job_sensor_configurations": ("real", (SENSORS, CONSTANTS), 0.), "config_job_matchup_count": ("count", (), 0),
       "config_job_matchup": ("int", (SERIES, 2), 0), "config_job_matchup_datasets": ("text", (SERIES,), ""),
       "config_job_matchup_names": ("text", (SERIES,), ""), "config_job_matchup_samplings": ("int", (SERIES,), 1),
       "config_job_matchup_dataset_id": ("text", (), ""), "config_job_matchup_dataset_path": ("text", (), "./")}
FLAGS = ["covariance_matrix", "covariance_update", "covariance_common", "cost_sensors", "prior_data", "start_data"]


def values(kind):
    from hypothesis import strategies as st

    text = st.text(alphabet="abXY019_-./ '\"!,=*&$()", max_size=20).map(str.rstrip)
    return {"path": st.sampled_from(["job.nml", "the job.nml", "in/job", "other.nml"]), "level": st.sampled_from([1, 2, 3, 4, 6, 7]),
            "real": st.floats(-1e12, 1e12).map(lambda x: float("%.10g" % x)), "int": st.integers(-2 ** 31, 2 ** 31 - 1),
            "count": st.integers(0, SERIES), "tag": text, "text": text, "bool": st.booleans()}[kind]


def entries(table):
    """Strategy of lists of [setting, place, values]."""
    from hypothesis import strategies as st

    @st.composite
    def entry(draw):
        key = draw(st.sampled_from(sorted(table)))
        kind, shape, _ = table[key]
        v = values(kind)
        if not shape:
            return [key, [], [draw(v)]]
        n = shape[-1]
        vs = draw(st.lists(v, min_size=1, max_size=min(n, 6)))
        first = draw(st.one_of(st.just(1), st.integers(1, n - len(vs) + 1)))
        place = [draw(st.sampled_from(["whole", "slice", "element"])), first]
        if len(shape) == 2:
            place = [draw(st.sampled_from(["row", "slice", "element"])), first, draw(st.integers(1, shape[0]))]
        if place[0] in ("whole", "row"):
            place[1] = 1
        elif place[0] == "element":
            vs = vs[:1]
        return [key, place, vs]

    return st.lists(entry(), max_size=8)


def written(kind, v, style):
    if kind == "bool":
        return [["T", "F"], [".true.", ".false."], ["true", "false"]][style % 3][0 if v else 1]
    if kind == "real":
        return [repr(v), "%.17e" % v, ("%.17e" % v).replace("e", "D")][style % 3]
    if kind in ("int", "level", "count"):
        return str(v)
    return '"%s"' % v.replace('"', '""') if style % 2 else "'%s'" % v.replace("'", "''")


def namelist(group, items, table, style):
    """The text of a namelist file."""
    lines = [["$", "&"][style % 2] + [group, group.upper()][style // 2 % 2]]
    for i, (key, place, vs) in enumerate(items):
        name = key.upper() if (style + i) % 5 == 0 else key
        if place:
            row = place[2] if len(place) > 2 else None
            a, b = place[1], place[1] + len(vs) - 1
            sub = {"whole": "", "row": ":", "element": str(a), "slice": "%d:%d" % (a, b)}[place[0]]
            if row is not None:
                sub = "%d,%s" % (row, sub)
            name += "(%s)" % sub if sub else ""
        text = [written(table[key][0], v, style + i) for v in vs]
        if len(set(text)) == 1 and len(text) > 1 and style % 2:
            text = ["%d*%s" % (len(text), text[0])]
        lines.append("  %s = %s%s" % (name, ", ".join(text), " ! a comment" if (style + i) % 4 == 0 else ""))
        if (style + i) % 7 == 0:
            lines.append("")
    return "\n".join(lines + [" /", ""])


def applied(table, lists):
    res = {}
    for key, (kind, shape, default) in table.items():
        res[key] = default if not shape else [default] * shape[0] if len(shape) == 1 else [[default] * shape[1] for _ in range(shape[0])]
    for items in lists:
        for key, place, vs in items:
            if not place:
                res[key] = vs[0]
            else:
                a = res[key] if len(place) == 2 else res[key][place[2] - 1]
                a[place[1] - 1:place[1] - 1 + len(vs)] = vs
    return res


def cases():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "preferences": st.one_of(st.none(), entries(RUN)), "run": st.one_of(st.none(), entries(RUN), entries(RUN)), "job": entries(JOB),
        "stdin": st.booleans(), "style": st.integers(0, 999)})


def prepare(case, d):
    """Writes the files of a case; returns what the settings are, and what is put in."""
    for name in ("preferences", "run"):
        if case[name] is not None:
            with open(os.path.join(d, name + ".nml"), "w") as f:
                f.write(namelist("run", case[name], RUN, case["style"]))
    want = applied(RUN, [case[k] for k in ("preferences", "run") if case[k] is not None])
    want.update(applied(JOB, [case["job"]]))
    text = namelist("job", case["job"], JOB, case["style"] + 1)
    path = os.path.join(d, want["config_job"])
    if not case["stdin"]:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
    # A decoy where the job is in a file of another name
    decoy = os.path.join(d, "job.nml")
    if want["config_job"] != "job.nml":
        with open(decoy, "w") as f:
            f.write(ftn.nml("job", [("config_job_id", "decoy"), ("config_job_sensor_count", 77)]))
    return want, text if case["stdin"] else ""


def check_settings(out, want):
    vh.equal(out["job"], want["config_job"], "config_job")
    vh.equal(out["software"], want["config_value_att_software"], "config_value_att_software")
    vh.equal(int(out["log_level"][0]), want["config_enable_log_level"], "config_enable_log_level")
    vh.close(out["goal"], [want["config_solver_accuracy_goal"]], 1e-15, 0, "config_solver_accuracy_goal")
    vh.equal(int(out["max_iteration"][0]), want["config_solver_max_iteration"], "config_solver_max_iteration")
    vh.equal(out["flags"].tolist(), [int(want["config_job_enable_" + k]) for k in FLAGS], "flags")
    for k, key in (("job_id", "id"), ("unit", "enable_unit"), ("path_prior", "path_prior_data"), ("path_start", "path_start_data"),
                   ("dataset_id", "matchup_dataset_id"), ("dataset_path", "matchup_dataset_path")):
        vh.equal(out[k], want["config_job_" + key], key)
    for k, key in (("sensor_count", "sensor_count"), ("matchup_count", "matchup_count")):
        vh.equal(int(out[k][0]), want["config_job_" + key], key)
    vh.equal(out["sensors"].tolist(), want["config_job_sensors"], "sensors")
    vh.equal(out["columns_select"].tolist(), [int(x) for x in want["config_job_sensor_columns_select"]], "columns_select")
    for i in range(SENSORS):
        vh.equal(out["sensor_name.%d" % (i + 1)], want["config_job_sensor_names"][i], "name of sensor")
        vh.equal(out["columns.%d" % (i + 1)].tolist(), want["config_job_sensor_columns"][i], "columns of sensor %d" % i)
        vh.close(out["configuration.%d" % (i + 1)], want["config_job_sensor_configurations"][i], 1e-15, 0, "constants of sensor %d" % i)
    for k, n in (("i", 0), ("j", 1)):
        vh.equal(out["matchup_" + k].tolist(), [r[n] for r in want["config_job_matchup"]], "pairs")
    vh.equal(out["samplings"].tolist(), want["config_job_matchup_samplings"], "samplings")
    for k in range(max(1, want["config_job_matchup_count"])):
        vh.equal(out["dataset.%d" % (k + 1)], want["config_job_matchup_datasets"][k], "dataset")
        vh.equal(out["matchup_name.%d" % (k + 1)], want["config_job_matchup_names"][k], "name of series")


@C.prop("settings", cases, quick=350, thorough=7000)
def settings(case, ctx):
    keys = [[e[0] for e in case[k] or []] for k in ("preferences", "run", "job")]
    ctx.nontrivial(bool(set(keys[0]) & set(keys[1])) or len(set(keys[2])) < len(keys[2]) or any(e[1] for e in case["job"]))
    with vh.ws().tmp() as d:
        want, text = prepare(case, d)
        out, log, _ = ftn.run(d, ["config"], stdin=text)
    check_settings(out, want)
    if want["config_enable_log_level"] >= 2:
        vh.equal("no run configuration" in log, case["run"] is None, "warning of the run configuration")
        vh.equal("standard input" in log, case["stdin"], "warning of the job configuration")


FAULTS = ["unknown", "no end", "group", "kind", "bounds", "empty"]


def faulty():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"case": cases(), "fault": st.sampled_from(FAULTS), "file": st.sampled_from(["job", "job", "run", "preferences"]),
                                  "at": st.integers(0, 9)})


@C.prop("faulty", faulty, quick=150, thorough=3000)
def refused(case, ctx):
    """A faulty configuration makes the program stop with an error."""
    base, which, fault = case["case"], case["file"], case["fault"]
    ctx.label(which + " " + fault)
    ctx.nontrivial(True)
    if base[which] is None:
        base = dict(base, **{which: []})
    with vh.ws().tmp() as d:
        want, text = prepare(base, d)
        path = os.path.join(d, want["config_job"] if which == "job" else which + ".nml")
        if not os.path.exists(path):
            content = text
        else:
            with open(path) as f:
                content = f.read()
        lines = content.split("\n")
        body = lines[:-2]
        bad = {"unknown": "  config_something_else = 1", "kind": "  config_%s = x y" % ("job_sensor_count" if which == "job" else "solver_max_iteration"),
               "bounds": "  config_job_sensors(%d) = 1" % (SENSORS + 1 + case["at"]) if which == "job" else "  config_job(0) = 1"}
        if fault in bad:
            lines = body + [bad[fault]] + lines[-2:]
        elif fault == "no end":
            lines = body + ["", ""]
        elif fault == "group":
            lines[0] = "$other"
        else:
            lines = []
        content = "\n".join(lines)
        if os.path.exists(path):
            with open(path, "w") as f:
                f.write(content)
        else:
            text = content
        out, log, rc = ftn.run(d, ["config"], stdin=text, ok=False)
    vh.equal(rc != 0 and not out, True, "the program stopped")
    if which == "job":
        assert "aulty job configuration" in log, log[-500:]


def sensor_sets():
    from hypothesis import strategies as st

    sensor = st.fixed_dictionaries({"id": st.integers(0, 999), "n": st.integers(0, 6), "r": st.integers(1, 9), "o": st.one_of(st.just(0), st.integers(1, 20)),
                                    "prior": st.booleans(), "constants": st.integers(0, 20)})
    return st.fixed_dictionaries({"sensors": st.lists(sensor, min_size=1, max_size=6), "key": st.integers(0, 10 ** 6), "room": st.integers(0, 3),
                                  "again": st.booleans()})


@C.prop("sensors", sensor_sets, quick=200, thorough=4000)
def sensors(case, ctx):
    """Sensors have the numbers, constants and prior values they are added with."""
    ss, key = case["sensors"], case["key"]
    ctx.nontrivial(len(ss) > 1 and any(s["prior"] for s in ss))
    room = max(0, len(ss) - case["room"]) if case["room"] < 3 else 25
    cmds, items = [], [("config_job_sensor_count", len(ss))]
    names = ["sensor %d of %d" % (key % 97, i) for i in range(len(ss))]
    prior = []
    for i, s in enumerate(ss):
        items.append(("config_job_sensor_names(%d)" % (i + 1), names[i]))
        if s["constants"]:
            items.append(("config_job_sensor_configurations(%d,:)" % (i + 1), [repr(float(x)) for x in gauss((key, i, "c"), s["constants"])]))
        px, pu = gauss((key, i, "px"), s["n"]), np.abs(gauss((key, i, "pu"), s["n"]))
        pu *= 10. ** np.floor(rng((key, i, "size"), s["n"], -20., 20.))
        pu[uni((key, i, "none"), s["n"]) < 0.2] = 0.
        pu[uni((key, i, "none"), s["n"]) < 0.1] *= -1
        prior.append((px, pu))
        line = "%d %d %d %d %d" % (i + 1, s["id"], s["n"], s["r"], s["o"])
        if s["prior"]:
            cmds += ["prior " + line] + [" ".join(repr(float(x)) for x in v) for v in (px, pu)]
        else:
            cmds.append("sensor " + line)
    if case["again"]:
        cmds = cmds + ["initialize 100 %d 9" % room] + cmds
    with vh.ws().tmp() as d:
        with open(os.path.join(d, "run.nml"), "w") as f:
            f.write(ftn.nml("run", [("config_enable_log_level", 1)]))
        with open(os.path.join(d, "job.nml"), "w") as f:
            f.write(ftn.nml("job", items))
        out, _, _ = ftn.run(d, cmds + ["state"], head="100 %d 9" % room)
    index = [int(x) for x in np.ravel(out["sensor_index"])]
    want = [i + 1 if i < room else 0 for i in range(len(ss))]
    vh.equal(index, want * (2 if case["again"] else 1), "indices of the sensors")
    k = min(room, len(ss))
    vh.equal(out["nsensors"].tolist(), [k, k, room], "numbers of sensors")
    start = 0
    for i, s in enumerate(ss[:k]):
        q, n = ".%d" % (i + 1), s["n"]
        vh.equal([out["s.name" + q], out["s.get_name" + q]], [names[i]] * 2, "name")
        for name in ("id", "n", "r"):
            vh.equal(out["s." + name + q].tolist(), [s[name]] * 2, name)
        vh.equal(out["s.range" + q].tolist(), [start + 1, start + n], "places of parameters")
        start += n
        if s["o"]:
            y = np.zeros(CONSTANTS)
            y[:s["constants"]] = gauss((key, i, "c"), s["constants"])
            y = y[:s["o"]]
        else:
            y = np.tile([0., 1.], n)
        vh.equal(int(out["s.o" + q][0]), len(y), "number of constants")
        vh.close(out["s.y" + q], y, 1e-15, 0, "constants")
        px, pu = prior[i] if s["prior"] else (np.zeros(n), np.zeros(n))
        c = np.where(pu > 0, pu ** 2, 0)
        vh.close(out["s.prior_x" + q], px, 1e-15, 0, "prior values")
        vh.close(out["s.prior_c" + q], np.diag(c).ravel(), 1e-14, 0, "prior covariance")
        vh.close(out["s.prior_c_inverse" + q], np.diag([1 / x if x else 0. for x in c]).ravel(), 1e-14, 0, "inverse of prior covariance")


def existing():
    from hypothesis import strategies as st

    res = []
    for top, _, names in os.walk(os.path.join(vh.REPO, "harmonisation_meiv_demo/src/main/resources-filtered")):
        res += [os.path.relpath(os.path.join(top, n), vh.REPO) for n in names if n.endswith(".nml")]
    return st.fixed_dictionaries({"path": st.sampled_from(sorted(res)), "log": st.integers(1, 7), "place": st.sampled_from(["", "/data", "a folder"])})


@C.prop("delivered", existing, quick=40, thorough=200)
def delivered(case, ctx):
    """The configurations that come with the software are those its modules read."""
    ctx.nontrivial("job" in case["path"])
    with open(os.path.join(vh.REPO, case["path"])) as f:
        text = f.read().replace("@PROC@", case["place"])
    group = re.match(r"\s*[$&](\w+)", text).group(1)
    with vh.ws().tmp() as d:
        with open(os.path.join(d, "preferences.nml"), "w") as f:
            f.write(ftn.nml("run", [("config_enable_log_level", case["log"])]))
        with open(os.path.join(d, group + ".nml"), "w") as f:
            f.write(text)
        if group == "run":
            with open(os.path.join(d, "job.nml"), "w") as f:
                f.write(ftn.nml("job", []))
        out, _, _ = ftn.run(d, ["config"])
    items = []
    for line in text.split("\n"):
        m = re.match(r'\s*(\w+)(?:\((\d+)(,:)?\))?\s*=\s*(.*?)\s*$', line)
        if m:
            key, i, row, v = m.groups()
            kind = dict(RUN, **JOB)[key][0]
            conv = {"int": int, "count": int, "level": int, "real": float, "bool": lambda x: x == "T"}.get(kind, lambda x: x.strip('"'))
            items.append([key, [] if i is None else ["row", 1, int(i)] if row else ["element", int(i)], [conv(x) for x in v.split(", ")]])
    want = applied(RUN, [[["config_enable_log_level", [], [case["log"]]]], [e for e in items if e[0] in RUN]])
    want.update(applied(JOB, [[e for e in items if e[0] in JOB]]))
    check_settings(out, want)


def logs():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"job": ftn.jobs(max_sensors=3), "levels": st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6]), min_size=1, max_size=3, unique=True)})


LEVEL = {"error": 1, "warning": 2, "progress": 3, "info": 4, "fine": 6, "debug": 7}


@C.prop("messages", logs, quick=40, thorough=800)
def messages(case, ctx):
    """Messages are those of the levels asked for."""
    def said(level, d):
        job = dict(case["job"], log=level)
        ms, cmds = ftn.prepare(job, d)
        _, text, _ = ftn.run(d, cmds + ["read %d" % (k + 1) for k in range(len(ms))])
        res = []
        for line in text.split("\n"):
            m = re.match(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}[+-]\d\d:\d\d \[(\w+)\] (.*)", line)
            if m:
                res.append(m.groups())
            else:
                vh.equal(line, "", "a line that is no message")
        return res

    with vh.ws().tmp() as d:
        # What is said before the level is known is of the default level
        every = said(7, d)
        ctx.nontrivial(len({k for k, _ in every}) > 1)
        for level in case["levels"]:
            vh.equal(said(level, d), [x for x in every if LEVEL[x[0]] <= level], "messages up to level %d" % level)


def demos():
    from hypothesis import strategies as st

    @st.composite
    def demo(draw):
        job = draw(ftn.jobs(max_M=6))
        names = ["s%d" % i for i in range(4)]
        types = st.integers(1, 4)
        pairs = draw(st.lists(st.sampled_from([(i, j) for i in range(4) for j in range(i + 1, 4)]), min_size=1, max_size=4, unique=True))
        like = job["net"]["series"][0]
        job["net"]["sensors"] = [dict(job["net"]["sensors"][0], name=n, m=1 if i == 0 else 4) for i, n in enumerate(names)]
        job["net"]["series"] = []
        for k, p in enumerate(pairs):
            t = [draw(st.lists(types, min_size=m, max_size=m)) for m in [1 if q == 0 else 4 for q in p]]
            M, nw = draw(st.integers(1, 6)), sum(x > 2 for x in t[0] + t[1])
            g = [[draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.integers(0, 1))] for _ in range(nw)]
            job["net"]["series"].append(dict(like, pair=list(p), key=draw(st.integers(0, 10 ** 6)), M=M, t=t, g=g,
                                             wc=[draw(st.integers(1, M + 4)) for _ in range(3)]))
        job["sel"], job["r"] = [None] * 4, [1, 4, 4, 4]
        for i in (1, 2, 3):
            if draw(st.booleans()):
                job["sel"][i] = draw(st.lists(st.integers(1, 4 if job["common"] else 8), min_size=4, max_size=5))
        job["steps"] = [draw(st.sampled_from([1, 1, 2, 3])) for _ in pairs]
        return {"job": job, "matrix": draw(st.booleans()), "id": draw(st.sampled_from(["", "PH______TEST_01_RSW_"])),
                "fault": draw(st.sampled_from([None, None, "missing", "nan"]))}

    return demo()


@C.prop("program", demos, quick=120, thorough=2500)
def program(case, ctx):
    """The program reads what the job describes and writes one file of results; or no file if there is an error."""
    from netCDF4 import Dataset

    job = case["job"]
    ctx.nontrivial(len(job["steps"]) > 1 and case["fault"] is None)
    ctx.label(str(case["fault"]))
    exe = os.path.join(vh.ws().build_fortran(), "harmonisation-demo")
    with vh.ws().tmp() as d:
        ftn.prepare(job, d)
        with open(os.path.join(d, "the job.nml")) as f:
            text = f.read()
        with open(os.path.join(d, "the job.nml"), "w") as f:
            f.write(text.replace("$job\n", '$job\nconfig_job_enable_covariance_matrix = %s\nconfig_job_matchup_dataset_id = "%s"\n' % (
                "FT"[case["matrix"]], case["id"])))
        bad = os.path.join(d, "in", "%d.nc" % (job["net"]["series"][0]["key"] % len(job["steps"])))
        if case["fault"] == "missing":
            os.remove(bad)
        elif case["fault"] == "nan":
            with Dataset(bad, "a") as ds:
                ds.variables["X1"][0, 0] = np.nan
        p = subprocess.run([exe], cwd=d, env=vh.ws().env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        found = sorted(n for n in os.listdir(d) if n.endswith(".nc"))
        if case["fault"]:
            vh.equal([p.returncode != 0, found], [True, []], "the program stopped and wrote nothing")
            return
        vh.equal(p.returncode, 0, "exit code; " + p.stdout.decode()[-300:])
        vh.equal(found, ["harm_FO_3.0_develop_J_%s__.nc" % case["id"]], "files written")
        variables, dims, atts = read(os.path.join(d, found[0]), d)
    vh.equal({k: dims[k] for k in ("n", "n_sensor", "n_sensor_pair")}, {"n": 9, "n_sensor": 4, "n_sensor_pair": 3}, "dimensions")
    vh.close(variables["parameter"][0], np.zeros(9), 0, 0, "parameters")
    xc = np.full((9, 9), 0.1) + np.diag(np.full(9, 0.4))
    vh.close(variables["parameter_uncertainty"][0], np.full(9, np.sqrt(0.5)), 1e-14, 0, "uncertainties")
    vh.close(variables["parameter_covariance_matrix"][0], xc, 1e-14, 0, "covariance")
    vh.close(variables["parameter_correlation_matrix"][0], xc / 0.5, 1e-14, 0, "correlation")
    vh.equal(atts["job_id"].rstrip(), "J", "job")
