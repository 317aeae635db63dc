"""P14: a run of the harmonisation operator on a folder of match-up files writes the least-squares solution."""
import importlib
import os
import random

import numpy as np

import harm
import mu
import p11
import vh
from vh import gauss, rng

C = vh.Check(
    "P14",
    rule="A case is a folder of 1-3 generated match-up files (50-80 match-ups, all error types, W matrices of overlapping "
         "averages), sensor data whose parameters are some standard deviations off, the settings of a run, and whether a second run "
         "starts from the saved preconditioner, or from the saved state of the solver too. Non-trivial: a second run, or "
         "structured or systematic errors.",
    assumptions=["As of P11; the sample for the preconditioner determines the parameters as well (condition below 300)."],
    setup=lambda w: w.use_eiv(cython=True),
)


def cases():
    from hypothesis import strategies as st

    text = st.sampled_from(["", "001", "AVHRR_r___3_RS____", "job-7"])
    return st.fixed_dictionaries({
        "case": harm.cases(max_sensors=3, max_series=3, max_m=3, min_M=50, max_M=80, max_np=2, adj=("none", "scale")),
        "off": st.sampled_from([0., 1., 5.]), "cov": st.booleans(), "show": st.integers(0, 2), "job": text, "dataset": text,
        "second": st.sampled_from(["none", "pc", "pc folder", "gn", "gn", "other"]), "seed": st.integers(0, 2 ** 20)})


def edit(d):
    p11.edit(d)
    for i, v in enumerate(d):
        M = v["M"]
        for q in range(len(v["w"])):
            key = (v["name1"], v["name2"], i, M, q, "w")
            width = (1 + np.floor(3 * vh.uni(key, M))).astype(int)
            width[-1] = 3
            p = np.concatenate([[0], np.cumsum(width)])
            c = np.concatenate([np.arange(k, k + n) for k, n in enumerate(width)])
            x = 0.3 + 0.7 * vh.uni((key, "x"), len(c))
            v["w"][q] = (p, c, x / np.repeat(np.add.reduceat(x, p[:-1]), width))
        v["u"] = [0.2 + 0.4 * vh.uni((v["name1"], i, q, "u"), M + 2) for q in range(len(v["u"]))]


def operator():
    gn, _ = harm.modules()
    return gn, importlib.import_module("harmonisation.tools.HarmonisationOp")


def sampled(gn, sc, seed):
    """Whether the match-ups chosen for the preconditioner determine the parameters."""
    random.seed(seed)
    with vh.quiet():
        s = importlib.import_module(vh.MU + "matchupProcessing.sample2ind.Sample2Ind").Sample2Ind().run(sc.mup, sf=0.1)
    ks, J = sc.evaluate(sc.v0, sc.truth)
    Jv, Ja = J[sc.n_var:, :sc.n_var], J[sc.n_var:, sc.n_var:]
    row, rows = 0, []
    bl = mu.blocks(sc.d)
    for i, v in enumerate(sc.d):
        b = bl.index((i, "1", 0))
        X = s.values[s.idx["idx"][b]:s.idx["idx"][b + 1]]
        rows += [row + int(np.argmin(abs(v["X1"][:, 0].astype(float) - x))) for x in X]
        row += v["M"]
    if len(rows) < sc.n_a + 2:
        return False
    A = Ja[rows] / np.sqrt(1 + (Jv[rows] ** 2).sum(axis=1))[:, None]
    scale = np.linalg.norm(A, axis=0)
    if (scale < 1e-9).any():
        return False
    sv = np.linalg.svd(A / scale, compute_uv=False)
    return sv[0] < 300. * sv[-1]


def scene(case):
    """A scene whose files hold K of known parameters, with its reference solution; or None if they do not determine them."""
    gn, _ = operator()
    sc = harm.Scene(case["case"], edit=edit)
    if not sc.n_a:
        return None
    key = case["case"]["key"]
    sc.v0 = v0 = np.asarray(gn.Transform2NormInd().run(sc.mup).values, dtype=float)
    # The sensor data's parameters are first guesses.
    _, J = sc.evaluate(v0, sc.parameters)
    Jv, Ja = J[sc.n_var:, :sc.n_var], J[sc.n_var:, sc.n_var:]
    A = Ja / np.sqrt(1 + (Jv ** 2).sum(axis=1))[:, None]
    scale = np.linalg.norm(A, axis=0)
    if (scale < 1e-9).any():
        return None
    sv = np.linalg.svd(A / scale, compute_uv=False)
    if sv[0] > 300 * sv[-1]:
        return None
    sd = np.sqrt(np.diag(np.linalg.inv(A.T.dot(A))))
    sc.truth = sc.parameters + np.clip(case["off"] * sd * gauss((key, "start"), sc.n_a), -0.5, 0.5)
    ks, _ = sc.evaluate(v0 + gauss((key, "v"), sc.n_var), sc.truth)
    k0, at = ks + gauss((key, "K"), sc.n_mu), 0
    for v, uk in zip(sc.d, sc.uk):
        v["K"] = (k0[at:at + v["M"]] * uk).astype(v["K"].dtype)
        sc.mup.ks[at:at + v["M"]] = v["K"]
        at += v["M"]
    sc.k0 = sc.mup.ks / np.concatenate(sc.uk)
    if not sampled(gn, sc, case["seed"]):
        return None
    sc.solution = p11.solve(sc, v0, sc.k0, sc.truth.copy())
    return None if sc.solution is None else sc


def opened(folder, sc, name):
    """The files of a result, read with netCDF4, as what p11.compare takes; and the attributes."""
    from netCDF4 import Dataset, chartostring

    text = lambda v: [str(x).strip() for x in chartostring(v[:])]
    got = sorted(f for f in os.listdir(folder) if f.endswith(".nc"))
    vh.equal(len(got), 1 + len(sc.d), "number of files %r" % got)
    assert name in got, "no file %s: %r" % (name, got)
    with Dataset(os.path.join(folder, name)) as ds:
        a, V = np.asarray(ds.variables["parameter"][:]), np.asarray(ds.variables["parameter_covariance_matrix"][:])
        vh.equal(text(ds.variables["parameter_sensors"]), sc.parameter_sensors, "sensors of the parameters")
        attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
        sys_err, sys_sensors = None, None
        if "systematic_errors" in ds.variables:
            sys_err = np.asarray(ds.variables["systematic_errors"][:], dtype=float)
            sys_sensors = text(ds.variables["systematic_error_sensors"])
    files = {}
    for f in got:
        if f != name:
            assert f.startswith(name[:-3] + "_res_"), "file %s of the result %s" % (f, name)
            with Dataset(os.path.join(folder, f)) as ds:
                files.setdefault((ds.sensor_1_name, ds.sensor_2_name), []).append(
                    [np.asarray(ds.variables[k][:], dtype=float) for k in ("k_res", "X1_res", "X2_res")])
    res, values = [], []
    want_k, at = sc.solution[3][sc.n_var:], 0
    for i, v in enumerate(sc.d):
        # Of several series of the same sensors, the one with these residuals of K.
        mine = files.get((v["name1"], v["name2"]), [])
        mine = [r for r in mine if len(r[0]) == v["M"]]
        assert mine, "no residuals of series %d" % i
        w = want_k[at:at + v["M"]] * sc.uk[i]
        r = min(mine, key=lambda r: abs(r[0] - w).max())
        at += v["M"]
        res.append(r[0])
        values += [r[int(s)][:, c] for k, s, c in mu.blocks(sc.d) if k == i]
    bl = [b for i in range(len(sc.d)) for b in mu.blocks(sc.d) if b[0] == i]
    order = [bl.index(b) for b in mu.blocks(sc.d)]
    values = np.concatenate([values[k] for k in order])
    return (a, V, attrs["cost"], attrs["cost_dof"], attrs["cost_p_value"], values, np.concatenate(res), sys_err, sys_sensors), attrs


def independent(net):
    return dict(net, series=[dict(s, key=s["key"] + 1, t=[[1 if v == 2 else 3 if v == 4 else v for v in t] for t in s["t"]])
                             for s in net["series"]])


def check_run(op, sc, case, data, out, cov, Op=None, **kw):
    os.mkdir(out)
    random.seed(case["seed"])
    cfg = {"software": "EV", "version": "0.0", "tag": "t"}
    for k, q in (("job_id", "job"), ("matchup_dataset", "dataset")):
        if case[q]:
            cfg[k] = case[q]
    keep = dict(cfg)
    with vh.quiet():
        (Op or op.HarmonisationOp()).run(dataset_dir=data, sensor_data=sc.data, output_dir=out, software_cfg=cfg, show=case["show"],
                                 return_covariance=cov, **kw)
    vh.equal(cfg, keep, "description of the software afterwards")
    got, attrs = opened(out, sc, "harm_EV_0.0_t_%s_%s.nc" % (case["job"], case["dataset"]))
    p11.compare(sc, got, sc.solution, sc.v0, sc.k0, cov)
    vh.equal([str(attrs[k]) for k in ("software", "software_version", "software_tag", "job_id")],
             ["EV", "0.0", "t", case["job"]], "attributes of the result")


@C.prop("run", cases, quick=26)
def run(case, ctx):
    from netCDF4 import Dataset

    sc = scene(case)
    if sc is None:
        ctx.label("not determined")
        return
    gn, op = operator()
    with vh.ws().tmp() as t:
        data, pc, state = [os.path.join(t, n) for n in ("data", "pc", "state")]
        os.mkdir(data)
        os.mkdir(pc)
        for i, v in enumerate(sc.d):
            mu.write(v, os.path.join(data, "%d.nc" % i))
        two = case["second"] in ("pc", "pc folder", "gn")
        Op = op.HarmonisationOp()
        pc_file = os.path.join(pc, "harm_pc.nc")
        check_run(op, sc, case, data, os.path.join(t, "out"), case["cov"] or not two, Op,
                  save_pc=pc_file if two else None, save_gn=state if case["second"] == "gn" else None)
        if two:
            with Dataset(pc_file) as ds:
                first = [np.asarray(ds.variables[k][:]) for k in ("parameter", "parameter_covariance_matrix")]
            vh.equal(first[0].shape, (sc.n_a,), "number of parameters of the preconditioner")
            kw = {"pc_input": pc if case["second"] == "pc folder" else pc_file, "save_pc": os.path.join(t, "harm_pc2.nc")}
            if case["second"] == "gn":
                kw["gn_input"] = state
            check_run(op, sc, case, data, os.path.join(t, "out2"), not case["cov"], Op, **kw)
            with Dataset(kw["save_pc"]) as ds:
                for k, w in zip(("parameter", "parameter_covariance_matrix"), first):
                    vh.close(ds.variables[k][:], w, 0, 0, "%s of the preconditioner saved again" % k)
        if case["second"] == "other":
            # Afterwards, the operator runs on other data, without systematic errors.
            sim = dict(case["case"], net=independent(case["case"]["net"]))
            last = scene(dict(case, case=sim))
            if last is not None:
                data2 = os.path.join(t, "data2")
                os.mkdir(data2)
                for i, v in enumerate(last.d):
                    mu.write(v, os.path.join(data2, "%d.nc" % i))
                check_run(op, last, case, data2, os.path.join(t, "out3"), True, Op)
                ctx.nontrivial()
        vh.equal(sorted(os.listdir(data)), ["%d.nc" % i for i in range(len(sc.d))], "files of the data set")
    ctx.label("second run " + case["second"])
    if two or p11.special(sc):
        ctx.nontrivial()
