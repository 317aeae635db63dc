"""P20: W matrices are added to files of microwave match-ups, which otherwise keep their data."""
import os

import numpy as np
from scipy import sparse

import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P20",
    rule="A case is a folder of 1-9 files of up to 20 match-ups of AMSU-B and MHS instruments, or of one with the reference: "
         "scanlines of each sensor in any order with gaps and repeats, data, uncertainties, additional variables. "
         "Non-trivial: the sensors' scanlines are spaced in different ways.",
    assumptions=["Random uncertainties of structured covariates are those of the first match-up.",
                 "Times are within 0.3 scanlines of the grid through the first."],
    setup=lambda w: w.use_tools(),
)
KIND = {"15": "AMSUB", "16": "AMSUB", "17": "AMSUB", "19": "MHS", "ma": "MHS", "mb": "MHS", "18": "ref"}
SIZE = {"AMSUB": 11, "MHS": 9, "ref": 1}
WEIGHTS = np.array([1., 2., 3., 4., 3., 2., 1.]) / 16.


def cases():
    from hypothesis import strategies as st

    f = st.fixed_dictionaries({
        "M": st.integers(1, 20), "s1": st.sampled_from(sorted(KIND) + ["18"]),
        "s2": st.sampled_from([k for k in sorted(KIND) if k != "18"]), "gap1": st.integers(1, 9), "gap2": st.integers(1, 9),
        "order": st.booleans(), "f4": st.booleans(), "extra": st.booleans(), "jitter": st.booleans()})
    return st.fixed_dictionaries({"files": st.one_of(st.lists(f, min_size=1, max_size=3), st.lists(f, min_size=1, max_size=3), st.lists(f, min_size=4, max_size=9)), "key": st.integers(0, 2 ** 20),
                                  "made": st.sampled_from(["no", "empty", "earlier run"]),
                                  "suffix": st.sampled_from([".nc", ".nc", ".nc", ".NC", ".nc4", ""])})


def make(case, i):
    c, k = case["files"][i], (case["key"], i)
    M, t = c["M"], "f4" if c["f4"] else "f8"
    d = {"M": M}
    for s in "12":
        m = SIZE[KIND[c["s" + s]]]
        lines = np.cumsum(rng((k, "lines", s), M, 0, c["gap" + s]).astype(int))
        if c["order"]:
            lines = lines[np.argsort(uni((k, "order", s), M))]
        lines = lines - lines[0]
        off = rng((k, "off", s), M, -0.3, 0.3) * c["jitter"]
        off[0] = 0.
        d["lines" + s] = lines
        d["time" + s] = 1.1e9 + 8. / 3. * (lines + off)
        d["X" + s] = rng((k, "X", s), (M, m), 100., 300.).astype(t)
        d["Ur" + s] = np.tile(rng((k, "Ur", s), m, 0.1, 2.), (M, 1)).astype(t)
        if case["key"] % 4 == 1:
            # Of few values.
            d["Ur" + s] = (0.5 + (d["Ur" + s] > 1.)).astype(t)
        d["Us" + s] = rng((k, "Us", s), (M if (case["key"] + i) % 3 == 0 else 1, m), 0.1, 2.).repeat(1 if (case["key"] + i) % 3 == 0 else M, axis=0).astype(t)
        d["Us" + s][:, [0, 1, m - 2] if m > 1 else [0]] = 0.
        d["uncertainty_type" + s] = np.array(([1, 1] + [2] * (m - 4) + [1, 2]) if m > 1 else [1], dtype="i4")
    d["K"] = gauss((k, "K"), M).astype(t)
    d["Kr"], d["Ks"] = rng((k, "Kr"), M, 0.1, 1.).astype(t), rng((k, "Ks"), M, 0.1, 1.).astype(t)
    if c["extra"]:
        d["angle"] = rng((k, "angle"), M, -60, 60).astype("f4")
    return d


DIMS = {"X1": ("M", "m1"), "X2": ("M", "m2"), "Ur1": ("M", "m1"), "Ur2": ("M", "m2"), "Us1": ("M", "m1"), "Us2": ("M", "m2"),
        "uncertainty_type1": ("m1",), "uncertainty_type2": ("m2",)}


def write(c, d, path):
    from netCDF4 import Dataset

    with Dataset(path, "w") as ds:
        ds.sensor_1_name, ds.sensor_2_name = c["s1"], c["s2"]
        ds.comment = "as written"
        for name, n in (("M", d["M"]), ("m1", d["X1"].shape[1]), ("m2", d["X2"].shape[1])):
            ds.createDimension(name, n)
        for name in d:
            if name != "M" and not name.startswith("lines"):
                ds.createVariable(name, d[name].dtype, DIMS.get(name, ("M",)))[:] = d[name]


# More scanlines than 2-byte integers count.
LONG = {"files": [{"M": 6000, "s1": "15", "s2": "ma", "gap1": 40, "gap2": 9, "order": False, "f4": False, "extra": True,
                   "jitter": True}], "key": 5, "made": "no", "suffix": ".nc"}


@C.prop("files", cases, quick=120, explicit=[LONG])
def files(case, ctx):
    from netCDF4 import Dataset

    if any(c["s1"] == c["s2"] for c in case["files"]):
        return
    data = [make(case, i) for i in range(len(case["files"]))]
    with vh.ws().tmp() as t:
        src, dst = os.path.join(t, "in"), os.path.join(t, "out", "of")
        os.makedirs(src)
        if case["made"] != "no":
            os.makedirs(dst)
        names = ["%d_%s_%s%s" % (i, c["s1"], c["s2"], case["suffix"]) for i, c in enumerate(case["files"])]
        for c, d, name in zip(case["files"], data, names):
            write(c, d, os.path.join(src, name))
        if case["made"] == "earlier run":
            # Of other data of the same sensors.
            for i, (c, name) in enumerate(zip(case["files"], names)):
                write(c, make(dict(case, key=case["key"] + 1), i), os.path.join(src, name))
            with vh.quiet():
                vh.tool("MW_add_W_matrices").main(src, dst)
            for c, d, name in zip(case["files"], data, names):
                write(c, d, os.path.join(src, name))
        before = [open(os.path.join(src, name), "rb").read() for name in names]
        with vh.quiet():
            vh.tool("MW_add_W_matrices").main(src, dst)
        vh.equal(sorted(os.listdir(dst)), sorted(names), "files written")
        for c, d, name, b in zip(case["files"], data, names, before):
            assert open(os.path.join(src, name), "rb").read() == b, "original file changed"
            with vh.quiet():
                wrong = vh.tool("harmonisation_input_checker").main(os.path.join(dst, name))
            assert not wrong, "file written does not pass the input checker"
            with Dataset(os.path.join(dst, name)) as ds:
                got = {v: np.array(ds.variables[v][:]) for v in ds.variables}
                vh.equal((ds.sensor_1_name, ds.sensor_2_name, ds.comment), (c["s1"], c["s2"], "as written"), "attributes")
            compare(c, d, got)
    ctx.label(" ".join(sorted(set(KIND[c["s1"]] + "-" + KIND[c["s2"]] for c in case["files"]))[:1]))
    ctx.nontrivial(any((d["lines1"] != d["lines2"]).any() for d in data))


def compare(c, d, got):
    """The file written for data d."""
    sensors = "2" if KIND[c["s1"]] == "ref" else "12"
    vars_ = [v for v in d if v != "M" and not v.startswith("lines")]
    matrices, u = [], []
    for s in "12":
        m = d["X" + s].shape[1]
        types = [3, 3] + [4] * (m - 4) + [1, 2] if s in sensors else [1]
        w, q, Ur = [0] * m, [0] * m, d["Ur" + s].copy()
        if s in sensors:
            first = d["lines" + s] - d["lines" + s].min()
            used = sorted(set(int(x + j) for x in first for j in range(7)))
            place = {x: i for i, x in enumerate(used)}
            W = sparse.lil_matrix((d["M"], len(used)))
            for i, x in enumerate(first):
                for j in range(7):
                    W[i, place[int(x + j)]] = WEIGHTS[j]
            matrices.append(W)
            w = [len(matrices)] * (m - 2) + [0, 0]
            q = [len(u) + 1, len(u) + 2] + [len(u) + 3] * (m - 4) + [0, 0]
            u += [np.full(len(used), d["Ur" + s][0, j]) for j in range(3)]
            Ur[:, :m - 2] = 0.
        vh.equal(list(got["uncertainty_type" + s]), types, "types of sensor " + s)
        vh.equal(list(got["w_matrix_use" + s]), w, "use of W matrices, sensor " + s)
        vh.equal(list(got["u_matrix_use" + s]), q, "use of u matrices, sensor " + s)
        vh.close(got["Ur" + s], Ur, 1e-15, 0, "Ur" + s)
    for v in vars_:
        if v[:2] != "Ur" and v[:4] != "unce":
            vh.close(got[v], d[v], 0, 0, v)
    vh.equal(len(got["w_matrix_nnz"]), len(matrices), "number of W matrices")
    vh.equal(list(got["u_matrix_row_count"]), [len(x) for x in u], "sizes of u matrices")
    vh.close(got["u_matrix_val"], np.concatenate(u), 1e-14, 0, "u matrices")
    start = 0
    for i, W in enumerate(matrices):
        row = np.atleast_2d(got["w_matrix_row"])[i]
        r = np.repeat(np.arange(W.shape[0]), np.diff(row))
        e = start + np.arange(row[-1])
        mat = sparse.coo_matrix((got["w_matrix_val"][e], (r, got["w_matrix_col"][e])), W.shape)
        vh.equal(int(got["w_matrix_nnz"][i]), int(row[-1]), "elements of W matrix %d" % i)
        start += int(row[-1])
        vh.equal(int(row[0]), 0, "first row of W matrix %d" % i)
        assert abs(mat - W).max() < 1e-13, "W matrix %d: differs by %g" % (i, abs(mat - W).max())
    vh.equal(sorted(got), sorted(vars_ + ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_val", "w_matrix_use1",
                                          "w_matrix_use2", "u_matrix_row_count", "u_matrix_val", "u_matrix_use1",
                                          "u_matrix_use2"]), "variables")


def unknown_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"s1": st.sampled_from(["14", "m02", "20", "15"]), "s2": st.sampled_from(["18", "14", "AMSUB", "20"]),
                                  "key": st.integers(0, 2 ** 20)})


@C.prop("unknown", unknown_cases, quick=16)
def unknown(case, ctx):
    """Files of sensors that are not known raise ValueError and are not written."""
    c = {"M": 3, "s1": "15", "s2": "16", "gap1": 2, "gap2": 2, "order": False, "f4": False, "extra": False, "jitter": False}
    d = make({"files": [c], "key": case["key"]}, 0)
    c.update(s1=case["s1"], s2=case["s2"])
    with vh.ws().tmp() as t:
        write(c, d, os.path.join(t, "a.nc"))
        try:
            with vh.quiet():
                vh.tool("MW_add_W_matrices").run(os.path.join(t, "a.nc"), os.path.join(t, "b.nc"))
        except ValueError:
            assert not os.path.exists(os.path.join(t, "b.nc")), "file of unknown sensors written"
            ctx.nontrivial()
            return
    raise AssertionError("file of unknown sensors %(s1)s, %(s2)s converted" % case)
