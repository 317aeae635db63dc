"""P04: the accessors of an opened data set return the data of the file, sensor and covariate asked for."""
import os
import re
import sys

import numpy as np

import mu
import vh
from p01 import opened, seconds

C = vh.Check(
    "P04",
    rule="A case is a generated set of match-up files (also with two series of one pair, in either order) and a use of every "
         "accessor for every series and sensor. Non-trivial: at least two series.",
    assumptions=["Accessors are asked for one given match-up series, as the documentation of their arguments says."],
    setup=lambda w: w.use_eiv(),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(max_sensors=3, max_series=5, types=(1, 2), max_M=7),
                                  "form": st.sampled_from(["list", "dir"])})


def larger_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.larger(max_sensors=7, types=(1, 2)), "form": st.sampled_from(["list", "dir"])})


@C.prop("per sensor, larger", larger_cases, quick=30)
@C.prop("per sensor", cases, quick=250)
def per_sensor(case, ctx):
    with vh.ws().tmp() as folder:
        models, mup = opened(case["net"], ctx, folder, case["form"])
    names, ms = mu.sensor_order(models)
    ctx.nontrivial(len(models) > 1)
    for i, d in enumerate(models):
        for n in ("1", "2"):
            s = d["name" + n]
            for c in range(d["m" + n]):
                col = d["X" + n][:, c].astype(np.float32)
                what = "series %d X%s[:, %d]" % (i, n, c)
                vh.close(mup.getVariableData(c + 1, s, i + 1), col, 0, 0, what)
                vh.equal(float(mup.getVariableDataMax(c + 1, s, i + 1)), float(col.max()), what + " max")
                vh.equal(float(mup.getVariableDataMin(c + 1, s, i + 1)), float(col.min()), what + " min")
            vh.equal(list(mup.getSensorTime(i + 1, s)), [seconds(t) for t in d["time" + n]], "time of " + s)
            for get, name in ((mup.getSensorAlongTrackIndex, "along_track_index"),
                              (mup.getSensorAcrossTrackIndex, "across_track_index")):
                got = get(i + 1, s)
                if not any(name + n in e for e in models):
                    assert got is None, name
                else:
                    vh.close(got, d.get(name + n, np.full(d["M"], np.nan)), 0, 0, "%s of %s" % (name, s))
                    ctx.label("with track index")
        # A sensor that is not in the series is refused, not answered with the data of another.
        for s in names:
            if s not in (d["name1"], d["name2"]):
                ctx.label("absent sensor")
                for get in (lambda: mup.getVariableData(1, s, i + 1), lambda: mup.getSensorTime(i + 1, s),
                            lambda: mup.getSensorAlongTrackIndex(i + 1, s),
                            lambda: mup.getSensorAcrossTrackIndex(i + 1, s)):
                    try:
                        got = get()
                    except (IndexError, ValueError, KeyError):
                        continue
                    raise AssertionError("sensor %s is not in series %d, but has data: %r" % (s, i, got))


@C.prop("additional, larger", larger_cases, quick=30)
@C.prop("additional", cases, quick=200)
def additional(case, ctx):
    with vh.ws().tmp() as folder:
        models, mup = opened(case["net"], ctx, folder, case["form"])
    names = sorted(set(a for d in models for a in d["add"]))
    ctx.nontrivial(len(models) > 1 and names)
    vh.equal(sorted(mup.getAdditionalDataNames()), names, "names")
    for name in names:
        cols = []
        for d in models:
            cols.append(mu.unfilled(d.get(name, np.full(d["M"], np.nan))))
        vh.close(mup.getAdditionalData(name), np.concatenate(cols), 1e-12, 0, name)
        for i, v in enumerate(cols):
            vh.close(mup.getAdditionalData(name, i + 1), v, 1e-12, 0, "%s of series %d" % (name, i))
            if not np.isnan(v).any():
                vh.equal(float(mup.getAdditionalDataMax(name, i + 1)), float(v.max()), name + " max")
                vh.equal(float(mup.getAdditionalDataMin(name, i + 1)), float(v.min()), name + " min")


# Text ----------------------------------------------------------------------------------------------------------------


def text_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(max_sensors=3, max_series=4, max_M=14, opt=False),
                                  "what": st.sampled_from(["opened", "opened", "without uncertainty", "simulated"]), "n": st.integers(1, 14)})


@C.prop("text", text_cases, quick=200)
def text(case, ctx):
    """The text of a data set has its sensors, numbers of match-ups, first and last data, and types of uncertainty."""
    with vh.ws().tmp() as folder:
        models, paths = mu.write_all(case["net"], folder)
        mup = vh.eiv(vh.MU + "matchupIO.MatchUpReader").open_matchup(paths, open_uncertainty=case["what"] != "without uncertainty")
    if case["what"] == "simulated":
        mup = vh.eiv(vh.MU + "matchupProcessing.simulate_matchup.SimulateMatchUp").SimulateMatchUp().run(mup, n_samples_mu=case["n"])
    got = repr(mup)
    vh.equal(str(mup), got, "text")
    names, ms = mu.sensor_order(models)
    parts = re.split(r"Match-up Series (\d+)\n", got)
    head, series = parts[0], dict((int(k), v) for k, v in zip(parts[1::2], parts[2::2]))
    Ms = [case["n"] if case["what"] == "simulated" else d["M"] for d in models]
    for what, n in (("Total Match-Ups", sum(Ms)), ("Match-Up Series", len(models)), ("Total Sensor State Data Values", len(mup.values))):
        found = re.findall(what + r" - (\S+)", head)
        assert found and all(f == str(n) for f in found), "%s: %r, expected %d" % (what, found, n)
    at = [head.index(repr(n)) for n in names]
    assert at == sorted(at), "order of sensors"
    vh.equal(sorted(series), list(range(1, len(models) + 1)), "series")
    blocks = {b: q for q, b in enumerate(mu.blocks(models))}
    for i, d in enumerate(models):
        t = series[i + 1]
        assert re.search(r"Series Sensors: %s, %s\n" % (re.escape(d["name1"]), re.escape(d["name2"])), t), t
        assert re.search(r"Series Match-ups: %d\n" % Ms[i], t), t
        rows = list(range(Ms[i])) if Ms[i] < 10 else [0, 1, 2, Ms[i] - 1]
        want = []
        for s in "12":
            cols = []
            for c in range(d["m" + s]):
                q = blocks[i, s, c]
                cols.append(np.asarray(mup.values[mup.idx["idx"][q]:mup.idx["idx"][q + 1]], dtype=float))
                if case["what"] != "simulated":
                    vh.close(cols[-1], d["X" + s][:, c].astype(np.float32), 0, 0, "data")
            want += ["[" + "".join("{:.2f}, ".format(v[r]) for v in cols) + "]" for r in rows]
            if case["what"] == "opened":
                want.append("[" + "".join("%d, " % k for k in d["uncertainty_type" + s]) + "]")
        K = mup.ks[mup.idx["cNm"][i]:mup.idx["cNm"][i + 1]]
        if case["what"] != "simulated":
            vh.close(K, d["K"], 1e-6, 1e-6, "K")
        want += ["[" + "{:.2f}, ".format(float(K[r])) + "]" for r in rows]
        vh.equal([r.replace(" ", "") for r in re.findall(r"\[.*?\]", t)], [r.replace(" ", "") for r in want], "rows of series %d" % (i + 1))
        vh.equal(t.count("..."), 3 if Ms[i] >= 10 else 0, "rows left out")
        ctx.nontrivial(Ms[i] >= 10 and len(models) > 1)
    ctx.label(case["what"])


# Sensor data ---------------------------------------------------------------------------------------------------------


def sensor_cases():
    from hypothesis import strategies as st

    value = st.floats(-1e3, 1e3, width=32)
    sensor = st.fixed_dictionaries({"p": st.lists(value, max_size=4), "c": st.lists(value, max_size=3),
                                    "adj": st.booleans()})
    return st.fixed_dictionaries({
        "net": mu.networks(types=(1,), opt=False, max_M=2, max_m=3),
        "sensors": st.lists(sensor, min_size=len(mu.NAMES), max_size=len(mu.NAMES)),
        "order": st.permutations(range(len(mu.NAMES))), "extra": st.integers(0, 3),
        "how": st.sampled_from(["set", "path", "set after other", "set after path"])})


class Model(object):
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        return self.name


SRC = """
from collections import OrderedDict
class Model(object):
    def __init__(self, name):
        self.name = name
    def __call__(self, *a):
        return self.name
SENSOR_DATA = OrderedDict(%s)
"""


@C.prop("sensor data", sensor_cases, quick=200)
def sensor_data(case, ctx):
    names = [s["name"] for s in case["net"]["sensors"]]
    keys = names + [n for n in mu.NAMES if n not in names][:case["extra"]]
    keys = [keys[k] for k in case["order"] if k < len(keys)]
    spec = {k: case["sensors"][mu.NAMES.index(k)] for k in keys}
    entries = []
    for k in keys:
        adj = ', "adjustment_model": Model("adj %s")' % k if spec[k]["adj"] else ""
        entries.append('(%r, {"sensor_model": Model("model %s"), "sensor_model_parameter": %r, '
                       '"sensor_model_constant": %r%s})' % (k, k, spec[k]["p"], spec[k]["c"], adj))
    src = SRC % ("[" + ", ".join(entries) + "]")
    with vh.ws().tmp() as folder:
        models, paths = mu.write_all(case["net"], folder)
        reader = vh.eiv(vh.MU + "matchupIO.MatchUpReader")
        before = src.replace("model ", "other model ").replace('_parameter": [', '_parameter": [0.5, ').replace('_constant": [', '_constant": [7., ')
        if case["how"] == "set after path":
            # The data set was opened with other sensor data.
            sys.modules.pop("sensor_data", None)
            path = os.path.join(folder, "sensor_data.py")
            with open(path, "w") as f:
                f.write(before)
            mup = reader.open_matchup(paths, path_sensor_data=path)
        if case["how"] == "path":
            # Another data set has been opened with a file of the same name.
            sys.modules.pop("sensor_data", None)
            for sub in ("before", "now"):
                os.mkdir(os.path.join(folder, sub))
                path = os.path.join(folder, sub, "sensor_data.py")
                with open(path, "w") as f:
                    f.write(src if sub == "now" else src.replace("model ", "other model "))
                mup = reader.open_matchup(paths, path_sensor_data=path)
        else:
            if case["how"] != "set after path":
                mup = reader.open_matchup(paths)
            for text in [before, src] if case["how"] == "set after other" else [src]:
                env = {}
                exec(text, env)
                data = env["SENSOR_DATA"]
                for n in range(1 + case["net"]["series"][0]["key"] % 2):
                    mup.setSensorData(data)
                for k in spec if text == src else []:
                    vh.equal((data[k]["sensor_model_parameter"], data[k]["sensor_model_constant"]), (spec[k]["p"], spec[k]["c"]),
                             "sensor data of %s afterwards" % k)
    order, _ = mu.sensor_order(models)
    ctx.nontrivial(len(models) > 1 and sum(len(spec[k]["p"]) for k in order) > 1)
    ctx.label(case["how"])
    present = [k for k in keys if k in order]
    vh.equal(list(mup.idx["sensors"]), order, "sensors")
    vh.close(mup.a, np.array([v for k in present for v in spec[k]["p"]], np.float32), 0, 0, "parameters")
    vh.equal(list(mup.idx["parameter_sensor"]), [k for k in present for _ in spec[k]["p"]], "sensors of parameters")
    vh.equal([float(v) for v in mup.sensor_model_constant], [v for k in present for v in spec[k]["c"]], "constants")
    vh.equal(list(mup.idx["sensor_model_constant_sensor"]), [k for k in present for _ in spec[k]["c"]],
             "sensors of constants")
    for name in mu.SENSOR_INDEX:
        vh.equal(list(mup._original_idx[name]), list(mup.idx[name]), "index to return to, " + name)
    vh.equal([m(1, 2) for m in mup.sensor_model], ["model " + k for k in order], "sensor models")
    vh.equal(len(mup.adjustment_model), len(order), "number of adjustment models")
    for k, m in zip(order, mup.adjustment_model):
        if spec[k]["adj"]:
            vh.equal(m(1), "adj " + k, "adjustment model")
        else:
            x = np.array([1., -2.5, 3.])
            r, j = m(x)
            vh.close(r, x, 0, 0, "default adjustment")
            vh.close(j, np.ones(3), 0, 0, "default adjustment derivative")
