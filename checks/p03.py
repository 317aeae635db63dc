"""P03: a match-up file written by the project's writers opens as what was written."""
import os

import numpy as np

import mu
import vh
from p02 import dense

C = vh.Check(
    "P03",
    rule="A case is a generated match-up series (arrays of 1-9 match-ups, 1-5 covariates per sensor, additional variables, W "
         "matrices and u vectors) written with either writer, W data appended, read back raw and with open_matchup. "
         "Non-trivial: more than one match-up and either W data or additional variables.",
    assumptions=["The package's own writer writes no W data (its argument for that is documented as to do), so W data is "
                 "written with the functions in tools/."],
    setup=lambda w: (w.use_eiv(), w.use_tools()),
)


# Types of variables that the specification has (and the input checker demands).
REAL, WHOLE = ("float32", "float64"), ("int32",)
TYPES = dict({k: REAL for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2", "w_matrix_val", "u_matrix_val")},
             **{k: WHOLE for k in ("uncertainty_type1", "uncertainty_type2", "w_matrix_nnz", "w_matrix_row", "w_matrix_col",
                                   "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count", "u_matrix_use1", "u_matrix_use2")})


def cases(types, M=9):
    from hypothesis import strategies as st

    def f():
        net = mu.networks(max_sensors=2, max_series=1, types=types, max_M=M)
        # Of more covariates and matrices.
        big = mu.networks(max_sensors=2, max_series=1, types=types, max_M=M, max_m=16, groups=14)
        return st.fixed_dictionaries({
            "net": st.one_of(net, net, net, big),
            "extra": st.lists(st.sampled_from(["m1 wide", "per m2", "i4", "f4", "i8"]), unique=True, max_size=3),
            "before": st.sampled_from([[], ["file"], ["files"]]), "loose": st.booleans(), "v": st.integers(0, 2 ** 20)})

    return f


def series(case):
    """The series to write: when "loose", its numbers are not what other programs would write, but still its numbers."""
    d = mu.expand(case["net"], 0)
    if not case["loose"]:
        return d
    key, M = case["v"], d["M"]
    for n in ("1", "2"):
        us = vh.rng((key, "Us", n), d["Us" + n].shape, 0., 3.)
        us[0] = d["Us" + n][0]
        d["Us" + n] = us
        d["X" + n] = d["X" + n] * 10. ** np.floor(vh.rng((key, "mag", n), d["X" + n].shape, -25., 25.))
        d["X" + n][vh.uni((key, "zero", n), d["X" + n].shape) < 0.1] = 0.
    for i, v in enumerate(("X1", "X2", "K", "time1")):
        # Counts and whole seconds, as integers.
        if vh.uni((key, "whole", v), 1)[0] < 0.2:
            d[v] = np.floor(vh.rng((key, "whole", v, 1), d[v].shape, -2. ** 29, 2. ** 31)).astype("i8" if vh.uni((key, v), 1)[0] < 0.5 else "u4")
    for i, u in enumerate(d["u"]):
        u[vh.uni((key, "u", i), len(u)) < 0.2] = 0.
    for i, (indptr, indices, data) in enumerate(d["w"]):
        data[vh.uni((key, "w", i), len(data)) < 0.2] = 0.
        # Columns of a row in another order, as CSR permits.
        for r in range(M):
            if vh.uni((key, "turn", i, r), 1)[0] < 0.3:
                indices[indptr[r]:indptr[r + 1]] = indices[indptr[r]:indptr[r + 1]][::-1].copy()
    return d


def before(case, write, path):
    """Writes other data first: to the same file, or to others with the same writer."""
    other = mu.expand(dict(case["net"], series=[dict(s, M=s["M"] + 2, key=s["key"] + 1) for s in case["net"]["series"]]), 0)
    for k in case["before"]:
        write(other, path if k == "file" else path + "_other.nc")


def write_args(d, case):
    n = d["M"]
    add = {}
    for a in d["add"]:
        add[a] = {"data": d[a], "dtype": d[a].dtype.str[1:], "dim": ("M",), "Description": "additional " + a}
    for e in case["extra"]:
        key = ("extra", e)
        if e == "m1 wide":
            add["wide"] = {"data": vh.rng(key, (n, d["m1"]), -9, 9), "dtype": "f8", "dim": ("M", "m1"),
                           "Description": "wide"}
        if e == "per m2":
            add["per_cov"] = {"data": vh.rng(key, d["m2"], -9, 9), "dtype": "f8", "dim": ("m2",), "Description": "pc"}
        if e == "i4":
            add["flag"] = {"data": np.arange(n, dtype="i4"), "dtype": "i4", "dim": ("M",), "Description": "flag"}
        if e == "i8":
            add["number"] = {"data": np.floor(vh.rng(key, n, -2. ** 50, 2. ** 50)).astype("i8"), "dtype": "i8", "dim": ("M",),
                             "Description": "number"}
        if e == "f4":
            add["small"] = {"data": vh.rng(key, n, -9, 9), "dtype": "f4", "dim": ("M",), "Description": "small"}
    return [d[k] for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2", "K", "Kr",
                           "Ks", "time1", "time2", "name1", "name2")], add


def check_raw(path, d, add, ctx):
    from netCDF4 import Dataset

    with Dataset(path) as ds:
        vh.equal((ds.sensor_1_name, ds.sensor_2_name), (d["name1"], d["name2"]), "sensor names")
        vh.equal({k: ds.dimensions[k].size for k in ("M", "m1", "m2")}, {k: d[k] for k in ("M", "m1", "m2")}, "sizes")
        for n in ("1", "2"):
            for v, dims in (("X", ("M", "m")), ("Ur", ("M", "m")), ("Us", ("M", "m")), ("uncertainty_type", ("m",)),
                            ("time", ("M",))):
                vh.equal(ds[v + n].dimensions, tuple("m" + n if x == "m" else x for x in dims), "dimensions of " + v + n)
                vh.close(ds[v + n][:], d[v + n], 0, 0, v + n)
        for v in ("K", "Kr", "Ks"):
            vh.equal(ds[v].dimensions, ("M",), "dimensions of " + v)
            vh.close(ds[v][:], d[v], 0, 0, v)
        for v in TYPES:
            if v in ds.variables:
                assert str(ds[v].dtype) in TYPES[v], "type of %s: %s" % (v, ds[v].dtype)
        for name, a in add.items():
            vh.equal(ds[name].dimensions, a["dim"], "dimensions of " + name)
            vh.equal(ds[name].dtype, np.dtype(a["dtype"]), "type of " + name)
            vh.equal(ds[name].Description, a["Description"], "description of " + name)
            vh.close(ds[name][:], np.asarray(a["data"]).astype(a["dtype"]), 0, 0, name)


def check_opened(path, d, add, ctx):
    mup = vh.eiv(vh.MU + "matchupIO.MatchUpReader").open_matchup(path)
    vh.equal(list(mup.idx["sensors"]), [d["name1"], d["name2"]], "sensors")
    b = mu.blocks([d])
    vh.equal(len(mup.unc), len(b), "blocks")
    for (i, n, c), u in zip(b, mup.unc):
        what = "X%s[:, %d]" % (n, c)
        vh.close(mup.getVariableData(c + 1, d["name" + n], 1), d["X" + n][:, c].astype(np.float32), 0, 0, what)
        t = int(d["uncertainty_type" + n][c])
        vh.equal(int(u.typeID), t, what + " type")
        if t < 3:
            vh.close(u.uR, d["Ur" + n][:, c], 1e-12, 0, what + " uR")
        else:
            vh.close(mup.u_matrices[u.u_i], d["u"][d["u_matrix_use" + n][c] - 1], 1e-12, 0, what + " u")
            W = dense(d["w"][d["w_matrix_use" + n][c] - 1], len(mup.u_matrices[u.u_i]))
            vh.close(mup.w_matrices[u.w_i].toarray(), W, 1e-12, 0, what + " W")
        if t in (2, 4):
            vh.close(np.ravel(u.uS)[0], d["Us" + n][0, c], 1e-12, 0, what + " uS")
    vh.close(mup.ks, d["K"], 1e-12, 0, "K")
    vh.close(mup.unck[0].uR, np.hypot(d["Kr"].astype(float), d["Ks"].astype(float)), 1e-6, 0, "uK")
    per_match = sorted(k for k, a in add.items() if a["dim"] == ("M",))
    vh.equal(sorted(mup.idx["additional_values_name"]), per_match, "additional variables")
    for k in per_match:
        v = mu.unfilled(np.asarray(add[k]["data"]).astype(add[k]["dtype"]))
        vh.close(mup.getAdditionalData(k), v, 1e-12, 0, k)


@C.prop("package writer", cases((1, 2)), quick=150)
def package_writer(case, ctx):
    d = series(case)
    writer = vh.eiv(vh.MU + "matchupIO.MatchUpWriter").MatchUpWriter()

    def write(x, path):
        args, add = write_args(x, case)
        kept = [np.array(a) for a in args]
        writer.write_input_file(path, *args, additional_variables=add or None)
        for a, b in zip(args, kept):
            vh.equal(np.asarray(a).tolist(), b.tolist(), "data that was written")
        return add

    with vh.ws().tmp() as folder:
        path = os.path.join(folder, "a.nc")
        before(case, write, path)
        add = write(d, path)
        ctx.nontrivial(d["M"] > 1 and len(add) > 0)
        check_raw(path, d, add, ctx)
        check_opened(path, d, add, ctx)


@C.prop("tools writer", cases((1, 2, 3, 4)), quick=150)
def tools_writer(case, ctx):
    d = series(case)
    t = vh.tool("W_matrix_functions")
    ws, us = [], []

    def write(x, path):
        args, add = write_args(x, case)
        kept = [np.array(a) for a in args]
        t.write_input_file(path, *args, additional_variables=add or None)
        if x["w"]:
            append_w(t, path, x, ws, us)
        for a, b in zip(args, kept):
            vh.equal(np.asarray(a).tolist(), b.tolist(), "data that was written")
        return add

    with vh.ws().tmp() as folder:
        path = os.path.join(folder, "a.nc")
        before(case, write, path)
        add = write(d, path)
        ctx.nontrivial(d["M"] > 1 and (d["w"] or add))
        ctx.label("%d W" % len(d["w"]))
        check_raw(path, d, add, ctx)
        check_opened(path, d, add, ctx)


def append_w(t, path, d, ws=None, us=None):
    """Appends the W data of d to a file, by lists that the caller may keep and use again."""
    from scipy.sparse import csr_matrix

    ws, us = [] if ws is None else ws, [] if us is None else us
    ws[:] = [csr_matrix((w[2], w[1], w[0]), shape=(len(w[0]) - 1, w[1].max() + 1)) for w in d["w"]]
    us[:] = d["u"]
    val, row, col, nnz, count, uval = t.return_w_matrix_variables(ws, us)
    t.append_W_to_input_file(path, val, row, col, nnz, count, uval, d["w_matrix_use1"], d["w_matrix_use2"],
                             d["u_matrix_use1"], d["u_matrix_use2"])


def large_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(max_sensors=2, max_series=1, max_m=2, types=(3, 4)),
                                  "v": st.integers(0, 2 ** 20)})


@C.prop("large W", large_cases, quick=4, thorough=40)
def large(case, ctx):
    """W matrices of tens of thousands of rows, columns and entries are appended and opened as they are."""
    net, key = case["net"], case["v"]
    M = 15000 + int(vh.uni((key, "M"), 1)[0] * 15000)
    net = dict(net, series=[dict(s, M=2, wc=[4, 4, 4], opt=[], add=[]) for s in net["series"]])
    d = mu.expand(net, 0)
    small = {k: v for k, v in d.items()}
    pick = np.floor(vh.uni((key, "rows"), M) * 2).astype(int)
    for k in ("X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2"):
        d[k] = small[k][pick]
    d["M"] = M
    n = 1 + int(vh.uni((key, "n"), 1)[0] * 3)
    at = np.cumsum(1 + np.floor(vh.uni((key, "step"), M) * 2.5).astype(int)) - 1
    d["w"] = [(np.arange(M + 1) * n, (at[:, None] + np.arange(n)).ravel(), vh.rng((key, g, "v"), M * n, 0.1, 1.))
              for g in range(len(d["w"]))]
    cols = int(d["w"][0][1].max()) + 1
    d["u"] = [vh.rng((key, g, "u"), cols, 0.1, 1.) for g in range(len(d["u"]))]
    t = vh.tool("W_matrix_functions")
    with vh.ws().tmp() as folder:
        path = os.path.join(folder, "a.nc")
        args, _ = write_args(d, dict(case, extra=[]))
        t.write_input_file(path, *args)
        append_w(t, path, d)
        mup = vh.eiv(vh.MU + "matchupIO.MatchUpReader").open_matchup(path)
    vh.equal(len(mup.values), M * len(mup.unc), "number of values")
    for (i, s, c), u in zip(mu.blocks([d]), mup.unc):
        vh.close(mup.u_matrices[u.u_i], d["u"][d["u_matrix_use" + s][c] - 1], 1e-12, 0, "u of X%s[:, %d]" % (s, c))
        w, want = mup.w_matrices[u.w_i], d["w"][d["w_matrix_use" + s][c] - 1]
        for got, x, what in ((w.indptr, want[0], "rows"), (w.indices, want[1], "columns"), (w.data, want[2], "weights")):
            vh.close(got, x, 1e-12, 0, "%s of W of X%s[:, %d]" % (what, s, c))
    ctx.nontrivial(len(d["w"]) > 1)
    ctx.label("%d0000 columns" % (cols // 10000))


@C.prop("W variables", cases((3, 4), 14), quick=250)
def w_variables(case, ctx):
    """The file variables of W matrices are their CSR parts one after the other."""
    from scipy.sparse import csr_matrix

    d = series(case)
    t = vh.tool("W_matrix_functions")
    ws = [csr_matrix((w[2], w[1], w[0]), shape=(len(w[0]) - 1, w[1].max() + 1)) for w in d["w"]]
    us = [np.array(u) for u in d["u"]]
    val, row, col, nnz, count, uval = t.return_w_matrix_variables(ws, us)
    ctx.nontrivial(len(ws) > 1 and len(us) > 1)
    vh.equal(np.shape(row), (len(ws), len(d["w"][0][0])), "shape of w_matrix_row")
    a = 0
    for i, w in enumerate(d["w"]):
        k = len(w[1])
        vh.equal(int(nnz[i]), k, "nnz of W %d" % i)
        vh.close(val[a:a + k], w[2], 0, 0, "values of W %d" % i)
        vh.close(col[a:a + k], w[1], 0, 0, "columns of W %d" % i)
        vh.close(row[i], w[0], 0, 0, "rows of W %d" % i)
        a += k
    vh.equal((len(val), len(col), len(nnz)), (a, a, len(ws)), "lengths")
    vh.equal([int(c) for c in count], [len(u) for u in us], "u row counts")
    vh.close(uval, np.concatenate(us), 0, 0, "u values")
