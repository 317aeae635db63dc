"""P24: result files of the Fortran software have all the results, under the names configured."""
import os

import numpy as np

import ftn
import vh
from vh import gauss, uni

C = vh.Check(
    "P24",
    rule="A case is a set of results of 1-9 parameters, 1-5 sensors and 1-4 match-up series, or of 1-9 residuals, with names of "
         "variables, dimensions, attributes and files as they are or configured in run.nml. Non-trivial: there is more than "
         "one of each, and some name is configured.",
    assumptions=["Blanks at the end of a text are not part of it (they are those of Fortran strings)."],
    setup=lambda w: w.build_driver(),
)
f4 = np.float32
# The names and descriptions that a configuration may change, and what they are otherwise
ATTS = {"software": "software", "software_version": "software_version", "software_tag": "software_tag", "job": "job", "job_id": "job_id",
        "matchup_dataset_id": "matchup_dataset", "matchup_dataset_uuid": "matchup_dataset_uuid",
        "matchup_dataset_begin": "matchup_dataset_begin", "matchup_dataset_end": "matchup_dataset_end",
        "number_of_matchups": "number_of_matchups", "uuid": "uuid", "cost": "cost", "cost_reduced": "cost_reduced",
        "cost_p_value": "cost_p_value", "cost_matchup": "cost_matchup", "cost_sensors": "cost_sensors", "k_res_mean": "K_res_mean",
        "k_res_sdev": "K_res_sdev", "sensor_i": "sensor_1_name", "sensor_j": "sensor_2_name"}
DIMS = {"c": "n_config", "l_name": "l_name", "l_uuid": "l_uuid", "m": "M", "n": "n"}
VARS = {
    "x": ("parameter", "The harmonisation parameters"),
    "x_add_offset": ("parameter_add_offset", "The harmonisation parameter add offsets (used internally only)"),
    "x_scale_factor": ("parameter_scale_factor", "The harmonisation parameter scale factors (used internally only)"),
    "x_unc": ("parameter_uncertainty", "The harmonisation parameter uncertainties"),
    "x_cov": ("parameter_covariance_matrix", "The harmonisation parameter error covariance matrix"),
    "x_cor": ("parameter_correlation_matrix", "The harmonisation parameter error correlation matrix"),
    "x_names": ("parameter_name", "The names of the harmonisation parameters or the names of the sensors associated with them"),
    "k_res": ("K_res", "The harmonisation residual"),
    "k_res_unc": ("K_res_uncertainty", "The uncertainty of the harmonisation residual"),
    "k_res_weights": ("K_res_weights", "The weights of the harmonisation residual"),
    "number_of_matchups": ("number_of_matchups", "The number of matchups in a matchup dataset"),
    "cost": ("cost", "The cost associated with a matchup dataset"),
    "cost_reduced": ("cost_reduced", "The reduced cost associated with a matchup dataset"),
    "k_res_mean": ("K_res_mean", "The mean harmonisation residual"),
    "k_res_sdev": ("K_res_sdev", "The standard deviation of the harmonisation residual"),
    "matchup_sensor_names": ("matchup_sensor_names", "The sensors associated with a matchup dataset"),
    "matchup_dataset_uuids": ("matchup_dataset_uuid", "The UUID associated with a matchup dataset"),
    "time": ("t", "The time of measurement"),
    "sensor_equation_id": ("sensor_equation_id", "The sensor equation identifiers"),
    "sensor_equation_x_count": ("sensor_equation_parameter_count", "The number of sensor equation parameters"),
    "sensor_equation_y_count": ("sensor_equation_config_count", "The number of sensor equation configuration constants"),
    "sensor_equation_y": ("sensor_equation_config", "The sensor equation configuration constants"),
    "sensor_names": ("sensor_name", "The sensor names"),
}
MEASURANDS = {
    "meas_i": ("measurand1", "The measurand (e.g. radiance) of the first sensor"),
    "meas_j": ("measurand2", "The measurand (e.g. radiance) of the other sensor"),
    "meas_i_unc_q": ("measurand1_uncertainty_tel",
                     "The uncertainty of the measurand of the first sensor due to the uncertainty of telemetry"),
    "meas_j_unc_q": ("measurand2_uncertainty_tel",
                     "The uncertainty of the measurand of the other sensor due to the uncertainty of telemetry"),
    "meas_i_unc_x": ("measurand1_uncertainty_cal",
                     "The uncertainty of the measurand of the first sensor due to the uncertainty of calibration"),
    "meas_j_unc_x": ("measurand2_uncertainty_cal",
                     "The uncertainty of the measurand of the other sensor due to the uncertainty of calibration"),
}
ALPHA = "abcXYZ019_-. "


def configurations():
    from hypothesis import strategies as st

    names = sorted(["name_att_" + k for k in ATTS] + ["name_dim_" + k for k in DIMS] + ["name_var_" + k for k in VARS] +
                   ["desc_var_" + k for k in VARS] + ["unit_var_time"])
    return st.fixed_dictionaries({
        "renamed": st.one_of(st.just([]), *[st.lists(st.sampled_from(names), unique=True, min_size=k, max_size=12) for k in (1, 5)]),
        "unit": st.sampled_from(["", "", "K", "mW m-2 sr-1 cm", "1"]),
        "file": st.sampled_from(["", "", "results", "out/some results"]),
        "software": st.sampled_from([None, None, "EIV", "A longer name"]),
        "job_id": st.sampled_from(["J", "EIV_101_01_RSW_", "01"]),
        "id": st.sampled_from(["", "PH______TEST_01_RSW_", "two words"]),
        "job": st.sampled_from(["the job.nml", "job.nml", "in/job.nml"]),
        "log": st.sampled_from([4, 4, 1, 7]),
    })


def texts(key, n, size, top):
    """n texts of up to top characters, without blanks at the ends; some empty, some of all there is room for."""
    res = []
    for i in range(n):
        kind, length = uni((key, i, "kind"), 2)
        k = 0 if kind < 0.1 else top if kind < 0.25 else 1 + int(length * size)
        res.append("".join(ALPHA[int(u * len(ALPHA))] for u in uni((key, i), k)).strip())
    return res


def results(pid):
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        "conf": configurations(), "key": st.integers(0, 10 ** 6), "n": st.integers(1, 9), "sensors": st.sampled_from([2, 3, 4, 5, 1]),
        "series": st.sampled_from([2, 3, 4, 1]), "config": st.sampled_from([0, 1, 2, 7, 12]), "M": st.integers(1, 9),
        "big": st.sampled_from([1., 1e-8, 1e12])})


def names_of(conf):
    res = {}
    for k, v in ATTS.items():
        res["name_att_" + k] = v
    for k, v in DIMS.items():
        res["name_dim_" + k] = v
    for k, (v, d) in VARS.items():
        res["name_var_" + k], res["desc_var_" + k] = v, d
    res["unit_var_time"] = "seconds since 1970-1-1 0:0:0"
    for i, k in enumerate(conf["renamed"]):
        res[k] = "renamed_%d" % i if k.startswith("name") else "Described otherwise, number %d" % i
    return res


def setting(d, conf, kind):
    """Writes the configuration into folder d."""
    names = names_of(conf)
    run = [("config_job", conf["job"]), ("config_enable_log_level", conf["log"])]
    run += [("config_" + k, names[k]) for k in conf["renamed"]]
    if conf["file"]:
        run.append(("config_name_%s_dataset" % kind, conf["file"]))
    if conf["software"]:
        run.append(("config_value_att_software", conf["software"]))
    job = [("config_job_id", conf["job_id"]), ("config_job_matchup_dataset_id", conf["id"]), ("config_job_enable_unit", conf["unit"])]
    for p in ("in", "out"):
        os.makedirs(os.path.join(d, p))
    with open(os.path.join(d, "run.nml"), "w") as f:
        f.write(ftn.nml("run", run))
    with open(os.path.join(d, conf["job"]), "w") as f:
        f.write(ftn.nml("job", job))
    return names


def line(v):
    return " ".join(repr(float(x)) for x in np.ravel(v))


def ints(v):
    return " ".join(str(int(x)) for x in np.ravel(v))


def read(path, d):
    from netCDF4 import Dataset, chartostring

    with Dataset(path) as ds:
        ds.set_auto_maskandscale(False)
        variables = {}
        for name, v in ds.variables.items():
            v.set_auto_chartostring(False)
            a = v[:]
            if a.dtype.kind == "S":
                a = [str(x).rstrip() for x in np.atleast_1d(chartostring(a, encoding="ascii"))]
            variables[name] = (a, v.dimensions, {k: v.getncattr(k) for k in v.ncattrs() if k != "_FillValue"})
        return variables, {k: len(x) for k, x in ds.dimensions.items()}, {k: ds.getncattr(k) for k in ds.ncattrs()}


def same(got, want, what):
    if isinstance(want, str):
        vh.equal(str(got).rstrip(), want, what)
    elif isinstance(want, float):
        vh.close(np.array([got]), np.array([want]), 1e-15, 0, what)
        assert np.asarray(got).dtype == np.float64, what
    else:
        vh.equal(got, want, what)


def compare(found, variables, dims, atts):
    """Everything in a file, and nothing else."""
    got_v, got_d, got_a = found
    vh.equal(got_d, dims, "dimensions")
    vh.equal(sorted(got_a), sorted(atts), "global attributes")
    for k, v in atts.items():
        same(got_a[k], v, "attribute " + k)
    vh.equal(sorted(got_v), sorted(variables), "variables")
    for k, (a, dd, aa) in variables.items():
        data, dd2, aa2 = got_v[k]
        vh.equal(dd2, dd, "dimensions of " + k)
        vh.equal(sorted(aa2), sorted(aa), "attributes of " + k)
        for x, v in aa.items():
            same(aa2[x], v, "attribute %s of %s" % (x, k))
        if isinstance(a, list):
            vh.equal(data, a, k)
        else:
            vh.equal(data.dtype, a.dtype, "type of " + k)
            vh.close(data, a, 1e-15 if a.dtype == np.float64 else 0, 0, k)


def common_atts(conf, names, begin, end):
    version, tag = found_version()
    return {names["name_att_matchup_dataset_id"]: conf["id"], names["name_att_matchup_dataset_begin"]: begin,
            names["name_att_matchup_dataset_end"]: end, names["name_att_software"]: conf["software"] or "FO",
            names["name_att_software_version"]: version, names["name_att_software_tag"]: tag, names["name_att_job"]: conf["job"],
            names["name_att_job_id"]: conf["job_id"]}


def found_version():
    """The version that the project has in its build configuration, and the tag of builds without one."""
    return "3.0", "develop"


def file_name(conf, begin, end, extra=""):
    if conf["file"]:
        return conf["file"] + extra
    return "harm_%s_3.0_develop_%s_%s_%s_%s" % (conf["software"] or "FO", conf["job_id"], conf["id"], begin, end) + (
        "_res" + extra if extra else "")


def only_file(d, name):
    """Paths of the files that are not the harness's own."""
    found = []
    for top, _, files in os.walk(d):
        found += [os.path.relpath(os.path.join(top, f), d) for f in files]
    found = [f for f in found if not f.endswith((".nml", ".txt"))]
    vh.equal(found, [name], "files written")
    return os.path.join(d, name)


def dates(key):
    u = uni((key, "dates"), 6)
    a = ["%04d%02d%02d" % (1970 + 60 * u[i], 1 + 12 * u[i + 1], 1 + 28 * u[i + 2]) for i in (0, 3)]
    return sorted(a)


@C.prop("parameters", lambda: results("p"), quick=300, thorough=6000)
def parameters(case, ctx):
    conf, key, n, ns, npair, nc = [case[k] for k in ("conf", "key", "n", "sensors", "series", "config")]
    ctx.nontrivial(min(n, ns, npair) > 1 and bool(conf["renamed"]))
    g = lambda k, m: gauss((key, k), m) * case["big"]  # noqa: E731
    x, xu, off, scale, y = g("x", n), np.abs(g("xu", n)), g("off", n), g("scale", n), g("y", nc)
    b = g("xc", n * n).reshape(n, n)
    xc, xr = b + b.T, np.corrcoef(b + 0.0).reshape(n, n)
    begin, end = dates(key)
    u1, u2 = ["%08x-0000-4000-8000-%012x" % (key, i) for i in (1, 2)]
    uuids = [u2] + texts((key, "uuid"), npair - 1, 36, 36)
    pn = texts((key, "xn"), n, 12, 80)
    sn = texts((key, "sn"), ns, 12, 80)
    mn = texts((key, "mn"), npair, 30, 80)
    ids = (uni((key, "ids"), ns) * 500).astype(int)
    sx = (uni((key, "sx"), ns) * 9).astype(int)
    sy = (uni((key, "sy"), ns) * 9).astype(int)
    count = (uni((key, "count"), npair + 1) * 2e9).astype(int)
    st = gauss((key, "st"), (npair + 1) * 7).reshape(-1, 7) * case["big"]
    lines = ["parameter", u1, "%d %d %d %d" % (n, npair, ns, nc)] + [line(v) for v in (x, xu, xc, xr, off, scale)] + pn
    lines += [ints(ids), ints(sx)] + sn
    if nc:
        lines += [ints(sy), line(y)]
    for i in range(npair):
        lines += [str(count[i]), line(st[i]), mn[i], uuids[i]]
    lines += [str(count[-1]), line(st[-1]), begin, end]
    with vh.ws().tmp() as d:
        nm = setting(d, conf, "parameter")
        ftn.run(d, lines)
        found = read(only_file(d, file_name(conf, begin, end) + ".nc"), d)
    V, D = lambda k: nm["name_var_" + k], lambda k: nm["name_dim_" + k]  # noqa: E731
    atts = common_atts(conf, nm, begin, end)
    atts[nm["name_att_uuid"]] = u1
    atts[nm["name_att_number_of_matchups"]] = int(count[-1])
    for i, k in enumerate(("cost", "cost_reduced", "cost_p_value", "cost_matchup", "cost_sensors", "k_res_mean", "k_res_sdev")):
        atts[nm["name_att_" + k]] = float(st[-1, i])
    dims = {D("l_name"): 80, D("l_uuid"): 36, D("n"): n, "n_sensor_pair": npair, "n_sensor": ns}
    if nc:
        dims[D("c")] = nc
    units = {"units": conf["unit"]} if conf["unit"] else {}
    want = {}

    def put(k, a, dd, more={}):
        want[V(k)] = (a, dd, dict(more, description=nm["desc_var_" + k]))

    N, S, P, L = D("n"), "n_sensor", "n_sensor_pair", D("l_name")
    for k, a in (("x", x), ("x_unc", xu), ("x_add_offset", off), ("x_scale_factor", scale)):
        put(k, a, (N,))
    put("x_cov", xc, (N, N))
    put("x_cor", xr, (N, N))
    put("x_names", pn, (N, L))
    put("sensor_names", sn, (S, L))
    put("matchup_sensor_names", mn, (P, L))
    put("matchup_dataset_uuids", uuids, (P, D("l_uuid")))
    put("sensor_equation_id", ids.astype("i4"), (S,))
    put("sensor_equation_x_count", sx.astype("i4"), (S,))
    if nc:
        put("sensor_equation_y_count", sy.astype("i4"), (S,))
        put("sensor_equation_y", y, (D("c"),))
    put("number_of_matchups", count[:-1].astype("i4"), (P,))
    put("cost", st[:-1, 0].copy(), (P,))
    put("cost_reduced", st[:-1, 1].copy(), (P,))
    put("k_res_mean", st[:-1, 5].copy(), (P,), units)
    put("k_res_sdev", st[:-1, 6].copy(), (P,), units)
    compare(found, want, dims, atts)


@C.prop("residuals", lambda: results("r"), quick=300, thorough=6000)
def residuals(case, ctx):
    conf, key, M = [case[k] for k in ("conf", "key", "M")]
    ctx.nontrivial(M > 1 and bool(conf["renamed"]))
    begin, end = dates(key)
    u1, u2 = ["%08x-0000-4000-8000-%012x" % (key, i) for i in (1, 2)]
    si, sj = [t.replace(".", "").replace(" ", "") or "s%d" % i for i, t in enumerate(texts((key, "si"), 2, 10, 40))]
    t = 1.2e9 + 1e8 * uni((key, "t"), M)
    fields = ["k_res", "k_res_unc", "k_res_weights"] + sorted(MEASURANDS)
    order = ["k_res", "k_res_unc", "k_res_weights", "meas_i", "meas_j", "meas_i_unc_q", "meas_j_unc_q", "meas_i_unc_x", "meas_j_unc_x"]
    data = {k: gauss((key, k), M) * case["big"] for k in fields}
    lines = ["residuals", u1, u2, begin, end, si, sj, str(M), line(t)] + [line(data[k]) for k in order]
    with vh.ws().tmp() as d:
        nm = setting(d, conf, "residuals")
        ftn.run(d, lines)
        found = read(only_file(d, file_name(conf, begin, end, "_%s_%s" % (si, sj)) + ".nc"), d)
    atts = common_atts(conf, nm, begin, end)
    atts.update({nm["name_att_matchup_dataset_uuid"]: u2, nm["name_att_uuid"]: u1, nm["name_att_sensor_i"]: si, nm["name_att_sensor_j"]: sj})
    m = nm["name_dim_m"]
    units = {"units": conf["unit"]} if conf["unit"] else {}
    want = {nm["name_var_time"]: (t, (m,), {"units": nm["unit_var_time"], "description": nm["desc_var_time"]})}
    for k in order:
        name, desc = MEASURANDS.get(k) or (nm["name_var_" + k], nm["desc_var_" + k])
        un = units if k != "k_res_weights" else {k2: "1 / " + v for k2, v in units.items()}
        want[name] = (data[k].astype(f4), (m,), dict(un, description=desc))
    compare(found, want, {m: M}, atts)


@C.prop("refused", lambda: results("p"), quick=30, thorough=400)
def refused(case, ctx):
    """A file that cannot be written makes the program stop with an error."""
    conf, key = case["conf"], case["key"]
    conf = dict(conf, file="no folder/results")
    ctx.nontrivial(True)
    begin, end = dates(key)
    lines = ["residuals", "u", "u", begin, end, "a", "b", "1"] + ["1."] * 10
    with vh.ws().tmp() as d:
        setting(d, conf, "residuals")
        out, text, rc = ftn.run(d, lines, ok=False)
        vh.equal(rc != 0 and not out, True, "the program stopped")
        assert "Fortran runtime error" not in text, text[-500:]
