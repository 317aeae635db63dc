"""P13: a saved harmonisation result is the result when it is opened again."""
import importlib
import os

import numpy as np

import mu
import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P13",
    rule="A case is a result: parameters of 1-4 sensors with covariance, statistics or none, attributes, additional variables, "
         "and residuals of 1-5 match-up series (of data and K, of K only, or none), any sensor first. Non-trivial: residuals "
         "of at least two series, or additional variables.",
    assumptions=["Sensor names of up to 80 characters without blanks at the ends.",
                 "Fewer than ten match-up series of the same pair of sensors."],
    setup=lambda w: w.use_eiv(cython=True),
)

NAMES = ["m02", "n19", "tirosn", "n05", "aatsr", "a", "Z-7", "sensor with a rather long name (channel 4, rescaled)", "noaa  16"]
ATTRS = {"software": "EV", "software_version": "0.0", "software_tag": "", "job_id": "001", "matchup_dataset": "__",
         "number": 3, "length": 2.5, "comment": "some text; more text", "cost_function": "K", "costs": 1.5}


def cases():
    from hypothesis import strategies as st

    sensors = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(1, 4)), min_size=2, max_size=4, unique_by=lambda s: s[0])

    def series(ss):
        pair = st.tuples(st.integers(0, len(ss) - 1), st.integers(0, len(ss) - 1)).filter(lambda p: p[0] != p[1])
        return st.tuples(st.just(ss), st.lists(st.tuples(pair, st.integers(1, 6)), min_size=1, max_size=5))

    extra = st.lists(st.tuples(st.sampled_from(["systematic_errors", "counts", "grid", "names", "matrix"]),
                               st.sampled_from(["f4", "f8", "i4"])), max_size=3, unique_by=lambda v: v[0])
    return st.fixed_dictionaries({
        "net": sensors.flatmap(series), "n": st.integers(1, 9), "key": st.integers(0, 2 ** 20),
        "stats": st.sampled_from(["yes", "yes", "none", "some"]), "attrs": st.lists(st.sampled_from(sorted(ATTRS)), unique=True),
        "extra": extra, "res": st.sampled_from(["all", "all", "all", "k", "none"]),
        "fname": st.sampled_from(["harm.nc", "harm_EV_0.0___.nc", "harm_EV_0.0_tag_001_AVHRR_r___3_RS__.nc",
                                  "harm_EV_0.0__presample_threshold.nc"]),
        "folder": st.sampled_from(["", "harm.nc", "harm", "runs/harm_EV_0.0___", "a b/harm_EV_0.0_tag_001_AVHRR_r___3_RS__.nc"]),
        "again": st.booleans()})


def additional(case):
    key, out, ns = case["key"], {}, 1 + case["key"] % 3
    for name, dtype in case["extra"]:
        if name == "names":
            data = [NAMES[int(k)] for k in rng((key, "names"), ns, 0, len(NAMES) - 1e-9)]
            out[name] = {"data": data, "dim": "s", "dtype": "S1", "Description": "names of %d things" % ns}
            continue
        dims, shape = {"systematic_errors": ("s", (ns,)), "counts": ("count", (4,)), "grid": (("s", "width"), (ns, 5)),
                       "matrix": (("n", "s"), (case["n"], ns))}[name]
        data = rng((key, name), shape, -50., 50.).astype(dtype)
        out[name] = {"data": data, "dim": dims, "dtype": dtype}
        if case["key"] % 2:
            out[name]["Description"] = "values of " + name
    return out


def build(case):
    res = importlib.import_module(vh.MU + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult")
    sensors, series = case["net"]
    key, n = case["key"], case["n"]
    r = res.HarmonisationResult()
    empty = [v for v in vars(r) if getattr(r, v)]
    vh.equal(empty, [], "contents of a new result")
    # One that others are not affected by.
    other = res.HarmonisationResult()
    other.additional_variables["other"], other.additional_attributes["other"] = {"data": [1], "dim": "other", "dtype": "i4"}, 1
    r.parameter = gauss((key, "a"), n) * 10 ** rng((key, "e"), n, -6, 3)
    r.parameter_sensors = [sensors[int(k)][0] for k in rng((key, "ps"), n, 0, len(sensors) - 1e-9)]
    q = gauss((key, "V"), (n, n))
    r.parameter_covariance_matrix = q.dot(q.T) * 1e-3
    if case["stats"] != "none":
        r.cost, r.cost_dof = float(rng((key, "cost"), 1, 0, 1e4)[0]), int(rng((key, "dof"), 1, -3, 900)[0])
        if case["stats"] == "yes":
            r.cost_p_value = float(uni((key, "p"), 1)[0])
        # A probability may be smaller than any number, and all else may be zero as well.
        for name in ("cost", "cost_dof", "cost_p_value"):
            if getattr(r, name) is not None and uni((key, "zero", name), 1)[0] < 0.25:
                setattr(r, name, type(getattr(r, name))(0))
    for k in case["attrs"]:
        r.additional_attributes[k] = ATTRS[k]
    r.additional_variables.update(additional(case))
    d = [{"name1": sensors[p[0]][0], "name2": sensors[p[1]][0], "m1": sensors[p[0]][1], "m2": sensors[p[1]][1], "M": M}
         for p, M in series]
    names, ms = mu.sensor_order(d)
    bl = mu.blocks(d)
    Nm = [v["M"] for v in d]
    at = np.cumsum([0] + [d[i]["M"] for i, _, _ in bl])
    r.idx = {"Nm": Nm, "cNm": [int(v) for v in np.cumsum([0] + Nm)], "Im": [[names.index(v["name1"]), names.index(v["name2"])] for v in d],
             "sensors": names, "sensor_ms": ms, "n_sensor": [names.index(d[i]["name" + s]) for i, s, _ in bl],
             "n_mu": [i + 1 for i, _, _ in bl], "n_cov": [c + 1 for _, _, c in bl], "N_var": [d[i]["M"] for i, _, _ in bl],
             "idx": [int(v) for v in at]}
    if case["res"] != "none":
        r.ks_res = gauss((key, "k"), sum(Nm))
        if case["res"] == "all":
            r.values_res = gauss((key, "v"), int(at[-1]))
    return res, r, d


def residuals(r, d):
    """(sensors, which of the series of these sensors) -> residuals of K and of each covariate of both sensors."""
    out, seen = {}, {}
    blocks = list(zip(r.idx["n_sensor"], r.idx["n_mu"], r.idx["n_cov"])) if r.values_res is not None else []
    for i, (p, q) in enumerate(r.idx["Im"]):
        pair = (str(r.idx["sensors"][p]), str(r.idx["sensors"][q]))
        seen[pair] = seen.get(pair, 0) + 1
        a, b = r.idx["cNm"][i:i + 2]
        vh.equal(b - a, r.idx["Nm"][i], "numbers of match-ups")
        v = {"k": np.asarray(r.ks_res[a:b])}
        for b_, (s, n_mu, c) in enumerate(blocks):
            if n_mu == i + 1:
                v[s == q, c] = np.asarray(r.values_res[r.idx["idx"][b_]:r.idx["idx"][b_ + 1]])
        out[pair + (seen[pair],)] = v
    return out


def same(got, want, what):
    """Compares results without residuals."""
    vh.close(got.parameter, want.parameter, 0, 0, what + " parameters")
    vh.equal([str(s) for s in got.parameter_sensors], list(want.parameter_sensors), what + " sensors of parameters")
    vh.close(got.parameter_covariance_matrix, want.parameter_covariance_matrix, 0, 0, what + " covariance")
    for name in ("cost", "cost_dof", "cost_p_value"):
        g, w = getattr(got, name), getattr(want, name)
        assert g == w and (g is None) == (w is None), "%s %s: %r, saved %r" % (what, name, g, w)
    vh.equal({k: v if isinstance(v, str) else float(v) for k, v in got.additional_attributes.items()},
             {k: v if isinstance(v, str) else float(v) for k, v in want.additional_attributes.items()}, what + " attributes")
    vh.equal(sorted(got.additional_variables), sorted(want.additional_variables), what + " additional variables")
    for k, v in want.additional_variables.items():
        g = got.additional_variables[k]
        if v["dtype"] == "S1":
            vh.equal([str(s).strip() for s in g["data"]], v["data"], what + " variable " + k)
        else:
            vh.close(g["data"], v["data"], 0, 0, what + " variable " + k)
            vh.equal(np.asarray(g["data"]).dtype, np.dtype(v["dtype"]), what + " type of " + k)
        vh.equal(g.get("Description"), v.get("Description"), what + " description of " + k)


def compare_residuals(got, want, d, what):
    g, w = residuals(got, d), residuals(want, d)
    vh.equal(sorted(g), sorted(w), what + " match-up series")
    for k in w:
        vh.equal(sorted(map(str, g[k])), sorted(map(str, w[k])), "%s blocks of %s" % (what, k))
        for b in w[k]:
            vh.close(g[k][b], w[k][b], 0, 0, "%s residuals %s of %s" % (what, b, k))


@C.prop("round trip", cases, quick=250)
def round_trip(case, ctx):
    res, r, d = build(case)
    _, want, _ = build(case)
    has = case["res"] != "none"
    with vh.ws().tmp() as t:
        t = os.path.join(t, case.get("folder", ""))
        os.makedirs(t, exist_ok=True)
        path = os.path.join(t, case["fname"])
        if case["again"]:
            # Another result has been saved there and opened.
            other = build(dict(case, key=case["key"] + 1))[1]
            other.save(path, save_residuals=has)
            same(res.HarmonisationResult(path), build(dict(case, key=case["key"] + 1))[1], "opened before,")
        r.save(path, save_residuals=has)
        same(r, want, "after saving,")
        files(t, case, d, want)
        opened = res.HarmonisationResult(t, open_residuals=bool(has or case["again"]))
        same(opened, want, "opened")
        if has:
            compare_residuals(opened, want, d, "opened")
            vh.equal(opened.values_res is None, case["res"] == "k", "residuals of data")
        else:
            assert opened.ks_res is None and opened.values_res is None, "residuals of a result that has none"
        without = res.HarmonisationResult(t, open_residuals=False)
        same(without, want, "opened without residuals,")
        assert without.ks_res is None, "residuals that were not asked for"
        same(res.HarmonisationResult(path), want, "opened by its path,")
    if case["again"]:
        # An opened result can be saved as well.
        with vh.ws().tmp() as t:
            two = has and case["res"] == "all"
            opened.save(os.path.join(t, "harm_2.nc"), save_residuals=two)
            again = res.HarmonisationResult(t)
            same(again, want, "saved again,")
            if two:
                compare_residuals(again, want, d, "saved again,")
    ctx.label("residuals " + case["res"])
    if (has and len(d) > 1) or case["extra"]:
        ctx.nontrivial()


def files(t, case, d, want):
    """The files themselves, read with netCDF4."""
    from netCDF4 import Dataset, chartostring

    stem = case["fname"][:-3]
    names, seen = [case["fname"]], {}
    if case["res"] != "none":
        for v in d:
            names.append("%s_res_%s_%s" % (stem, v["name1"], v["name2"]))
    got = sorted(os.listdir(t))
    vh.equal(len(got), len(names), "number of files %r" % got)
    for f in set(names[1:]):
        assert f + ".nc" in got, "no file %s.nc: %r" % (f, got)
    with Dataset(os.path.join(t, case["fname"])) as ds:
        vh.close(ds.variables["parameter"][:], want.parameter, 0, 0, "parameters in the file")
        vh.close(ds.variables["parameter_covariance_matrix"][:], want.parameter_covariance_matrix, 0, 0, "covariance in the file")
        vh.equal([str(s).strip() for s in chartostring(ds.variables["parameter_sensors"][:])], want.parameter_sensors,
                 "sensors of parameters in the file")
    if case["res"] == "none":
        return
    ks = {}
    w = residuals(want, d)
    for f in got:
        if f == case["fname"]:
            continue
        with Dataset(os.path.join(t, f)) as ds:
            pair = (ds.sensor_1_name, ds.sensor_2_name)
            k = np.asarray(ds.variables["k_res"][:])
            match = [v for q, v in w.items() if q[:2] == pair and len(v["k"]) == len(k) and (v["k"] == k).all()]
            vh.equal(len(match), 1, "series with the residuals of %s" % f)
            ks[f] = k
            if case["res"] == "all":
                for s in (0, 1):
                    X = ds.variables["X%d_res" % (s + 1)][:]
                    vh.equal(X.shape, (len(k), sum(1 for b in match[0] if b != "k" and b[0] == bool(s))), "shape of X in %s" % f)
                    for c in range(X.shape[1]):
                        vh.close(X[:, c], match[0][bool(s), c + 1], 0, 0, "residuals of X%d in %s" % (s + 1, f))
            else:
                assert "X1_res" not in ds.variables and "X2_res" not in ds.variables, "data residuals in %s" % f


@C.prop("folders", cases, quick=40)
def folders(case, ctx):
    """A folder with other files, with several results or none."""
    res, r, d = build(case)
    has = case["res"] != "none"
    with vh.ws().tmp() as t:
        for what in ("empty folder", "folder without result"):
            try:
                res.HarmonisationResult(t)
            except IOError:
                pass
            else:
                raise AssertionError("no error from a " + what)
            for f in ("plots", "data"):
                os.makedirs(os.path.join(t, f), exist_ok=True)
            for f in ("job.cfg", "other.nc", "log_harm.txt", "plots/harm.nc", "m_harm.nc"):
                open(os.path.join(t, f), "w").close()
        r.save(os.path.join(t, case["fname"]), save_residuals=has)
        opened = res.HarmonisationResult(t)
        same(opened, build(case)[1], "opened among other files,")
        if has:
            compare_residuals(opened, r, d, "opened among other files,")
        r.save(os.path.join(t, "harm_another.nc"), save_residuals=False)
        try:
            res.HarmonisationResult(t)
        except IOError:
            pass
        else:
            raise AssertionError("no error from a folder with two results")
    ctx.nontrivial()
