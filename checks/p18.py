"""P18: the input checker accepts every valid match-up file, and reports every file with an error."""
import copy
import os

import numpy as np

import mu
import vh
from vh import rng, uni

C = vh.Check(
    "P18",
    rule="A case is a generated valid match-up file (all error types, single or double precision, netCDF-3 or -4, additional "
         "variables), and for the second part 14 of 43 kinds of error put into copies of it at drawn places. Non-trivial: a file with "
         "W matrices, or any error.",
    assumptions=["One error per file.", "Every W matrix has elements."],
    setup=lambda w: w.use_tools(),
)
MAIN = ["X1", "X2", "Ur1", "Ur2", "Us1", "Us2", "K", "Kr", "Ks", "time1", "time2"]
TYPES = ["uncertainty_type1", "uncertainty_type2"]
WI = ["w_matrix_nnz", "w_matrix_row", "w_matrix_col", "w_matrix_use1", "w_matrix_use2", "u_matrix_row_count",
      "u_matrix_use1", "u_matrix_use2"]
WF = ["w_matrix_val", "u_matrix_val"]


class File(object):
    """The contents of a netCDF file, to be changed and written again."""

    def __init__(self, path):
        from netCDF4 import Dataset

        with Dataset(path) as ds:
            self.format = ds.data_model
            self.dims = {k: d.size for k, d in ds.dimensions.items()}
            self.attrs = {k: ds.getncattr(k) for k in ds.ncattrs()}
            self.vars = {k: [v.dimensions, np.array(v[:])] for k, v in ds.variables.items()}

    def write(self, path):
        from netCDF4 import Dataset

        with Dataset(path, "w", format=self.format) as ds:
            for k, n in self.dims.items():
                ds.createDimension(k, n)
            for k, a in self.attrs.items():
                ds.setncattr(k, a)
            for k, (dims, data) in self.vars.items():
                ds.createVariable(k, data.dtype, dims)[:] = data

    def data(self, name):
        return self.vars[name][1]


def pick(key, values):
    return values[int(uni((key, "pick"), 1)[0] * len(values))]


def at(key, a):
    """A drawn element of an array, as an index."""
    return np.unravel_index(int(uni((key, "at"), 1)[0] * a.size), a.shape)


# Kinds of error. Each changes the file and returns False if the file has nothing to change.


def missing(f, key):
    f.vars.pop(pick(key, MAIN + TYPES))


def missing_w(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    for k in pick(key, [WI[:1], WI[1:3], WF[:1], WF, WI, ["w_matrix_use1"], ["u_matrix_use2"], ["u_matrix_row_count"]]):
        f.vars.pop(k)


def dtype(f, key):
    k = pick(key, [v for v in MAIN + TYPES + WI + WF if v in f.vars])
    v = f.vars[k][1]
    if k in MAIN + WF:
        f.vars[k][1] = np.ceil(abs(v)).astype(np.int32 if k != "K" else np.int16)
    else:
        wide = [np.int64] if f.format == "NETCDF4" else []
        f.vars[k][1] = v.astype(pick((key, "to"), [np.float32, np.float64, np.int16] + 2 * wide))


def dimensions(f, key):
    k = pick(key, [v for v in MAIN + TYPES + WI + WF if v in f.vars])
    dims, v = f.vars[k]
    if len(dims) == 2:
        f.vars[k] = [dims[::-1], v.T]
    else:
        f.dims["other"] = len(v)
        f.vars[k] = [("other",), v]


def side(f, key):
    """The data of one sensor have the dimension of the other's."""
    if f.dims["m1"] != f.dims["m2"]:
        return False
    k = pick(key, [v for v in ("X1", "X2", "Ur1", "Us2", "uncertainty_type1") if v in f.vars])
    dims, v = f.vars[k]
    f.vars[k] = [dims[:-1] + ("m2" if k[-1] == "1" else "m1",), v]


def attribute(f, key):
    f.attrs.pop(pick(key, ["sensor_1_name", "sensor_2_name"]))


def names(f, key):
    f.attrs["sensor_2_name"] = f.attrs["sensor_1_name"]


def resize(f, dim, n):
    old = f.dims[dim]
    f.dims[dim] = n
    for k, (dims, v) in f.vars.items():
        for axis, d in enumerate(dims):
            if d == dim:
                reps = [v] + [np.take(v, [old - 1], axis=axis)] * max(n - old, 0)
                v = np.take(np.concatenate(reps, axis=axis), range(n), axis=axis)
        f.vars[k][1] = v


def count(f, key):
    """A matrix that is not used."""
    if "w_matrix_nnz" not in f.vars:
        return False
    if pick(key, "wu") == "w":
        f.vars["w_matrix_nnz"][1] = np.append(f.data("w_matrix_nnz"), f.data("w_matrix_nnz")[-1]).astype(np.int32)
        f.vars["w_matrix_row"][1] = np.vstack([f.data("w_matrix_row"), f.data("w_matrix_row")[-1:]])
        n = f.data("w_matrix_nnz")[-1]
        for k in ("w_matrix_col", "w_matrix_val"):
            f.vars[k][1] = np.append(f.data(k), f.data(k)[-n:]).astype(f.data(k).dtype)
        f.dims["w_matrix_count"] += 1
        f.dims["w_matrix_nnz_sum"] += int(n)
    else:
        n = f.data("u_matrix_row_count")[-1]
        f.vars["u_matrix_row_count"][1] = np.append(f.data("u_matrix_row_count"), n).astype(np.int32)
        f.vars["u_matrix_val"][1] = np.append(f.data("u_matrix_val"), f.data("u_matrix_val")[-n:])
        f.dims["u_matrix_count"] += 1
        f.dims["u_matrix_row_count_sum"] += int(n)


def fewer(f, key):
    """A matrix that is used but missing."""
    if "w_matrix_nnz" not in f.vars:
        return False
    if pick(key, "wu") == "w":
        if f.dims["w_matrix_count"] < 2:
            return False
        n = int(f.data("w_matrix_nnz")[-1])
        for k in ("w_matrix_nnz", "w_matrix_row"):
            f.vars[k][1] = f.data(k)[:-1]
        for k in ("w_matrix_col", "w_matrix_val"):
            f.vars[k][1] = f.data(k)[:-n]
        f.dims["w_matrix_count"] -= 1
        f.dims["w_matrix_nnz_sum"] -= n
    else:
        if f.dims["u_matrix_count"] < 2:
            return False
        n = int(f.data("u_matrix_row_count")[-1])
        f.vars["u_matrix_row_count"][1] = f.data("u_matrix_row_count")[:-1]
        f.vars["u_matrix_val"][1] = f.data("u_matrix_val")[:-n]
        f.dims["u_matrix_count"] -= 1
        f.dims["u_matrix_row_count_sum"] -= n


def rows(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    resize(f, "w_matrix_row_count", f.dims["M"] + pick(key, [0, 2, 5]))


def elements(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    by = pick(key, [1, 3, -1, -2])
    resize(f, "w_matrix_nnz_sum", f.dims["w_matrix_nnz_sum"] + (by if f.dims["w_matrix_nnz_sum"] + by > 0 else 2))


def u_elements(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    by = pick(key, [1, 3, -1, -2])
    resize(f, "u_matrix_row_count_sum", f.dims["u_matrix_row_count_sum"] + (by if f.dims["u_matrix_row_count_sum"] + by > 0 else 2))


def negative(name):
    def change(f, key):
        v = f.data(name)
        v[at(key, v)] = -pick((key, "value"), [1., 0.01, 200.])
    change.__name__ = "negative " + name
    return change


def no_k(f, key):
    i = at(key, f.data("Kr"))
    f.data("Kr")[i] = 0.
    f.data("Ks")[i] = 0.


def use_gap(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    k = pick(key, ["w_matrix_use", "u_matrix_use"])
    for s in "12":
        v = f.data(k + s)
        v[v == f.dims[k[:8] + "_count"]] += 1
    f.dims[k[:8] + "_count"] += 1
    if k[0] == "w":
        f.vars["w_matrix_nnz"][1] = np.append(f.data("w_matrix_nnz"), f.data("w_matrix_nnz")[-1]).astype(np.int32)
        f.vars["w_matrix_row"][1] = np.vstack([f.data("w_matrix_row"), f.data("w_matrix_row")[-1:]])
        n = int(f.data("w_matrix_nnz")[-1])
        for q in ("w_matrix_col", "w_matrix_val"):
            f.vars[q][1] = np.append(f.data(q), f.data(q)[-n:]).astype(f.data(q).dtype)
        f.dims["w_matrix_nnz_sum"] += n
    else:
        n = int(f.data("u_matrix_row_count")[-1])
        f.vars["u_matrix_row_count"][1] = np.append(f.data("u_matrix_row_count"), n).astype(np.int32)
        f.vars["u_matrix_val"][1] = np.append(f.data("u_matrix_val"), f.data("u_matrix_val")[-n:])
        f.dims["u_matrix_row_count_sum"] += n


def unpaired(f, key):
    """A covariate with a W matrix but no u matrix, or the reverse, where every matrix stays in use."""
    places = []
    for k in ("w_matrix_use", "u_matrix_use"):
        if k + "1" not in f.vars:
            return False
        both = np.concatenate([f.data(k + "1"), f.data(k + "2")])
        places += [(k, i) for i, v in enumerate(both) if v and (both == v).sum() > 1]
    if not places:
        return False
    k, i = pick(key, places)
    m1 = f.dims["m1"]
    f.data(k + ("1" if i < m1 else "2"))[i if i < m1 else i - m1] = 0


def elsewhere(f, key):
    """A u matrix for another covariate than the W matrix is for."""
    if "w_matrix_nnz" not in f.vars:
        return False
    both = {k: np.concatenate([f.data(k + s) for s in "12"]) for k in ("w_matrix_use", "u_matrix_use")}
    used, free = np.flatnonzero(both["u_matrix_use"]), np.flatnonzero(both["u_matrix_use"] == 0)
    if not len(free):
        return False
    k = "u_matrix_use"
    i, j = pick((key, "from"), used), pick((key, "to"), free)
    both[k][j], both[k][i] = both[k][i], 0
    m1 = f.dims["m1"]
    f.vars[k + "1"][1], f.vars[k + "2"][1] = both[k][:m1], both[k][m1:]


def negative_label(f, key):
    """Labels below zero, for W and u matrix of a covariate without."""
    if "w_matrix_nnz" not in f.vars:
        return False
    places = [(s, i) for s in "12" for i, w in enumerate(f.data("w_matrix_use" + s)) if not w]
    if not places:
        return False
    s, i = pick(key, places)
    for k in pick((key, "which"), [["w"], ["u"], ["w", "u"], ["w", "u"]]):
        f.data(k + "_matrix_use" + s)[i] = -1


def label(f, key):
    """A label of a matrix that is missing, or below zero."""
    if "w_matrix_nnz" not in f.vars:
        return False
    k = pick(key, ["w_matrix_use", "u_matrix_use"])
    old, new = pick((key, "of"), [(1, -1), (f.dims[k[:8] + "_count"], -1), (1, 0)])
    for s in "12":
        v = f.data(k + s)
        v[v == old] = new


def nan(f, key):
    """An uncertainty that is not a number."""
    v = f.data(pick(key, ["Ur1", "Ur2", "Us1", "Us2", "Kr", "Ks"]))
    v[at(key, v)] = np.nan


def nan_u(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    v = f.data("u_matrix_val")
    v[at(key, v)] = np.nan


def columns(f, key):
    """One uncertainty too many for the columns of a W matrix, or one too few."""
    if "w_matrix_nnz" not in f.vars:
        return False
    n = f.data("u_matrix_row_count")
    return resize_u(f, key, int(uni((key, "i"), 1)[0] * len(n)))


def columns_later(f, key):
    """The same, of a u matrix that is not the first with its W matrix."""
    if "w_matrix_nnz" not in f.vars:
        return False
    w, u = [np.concatenate([f.data(k + s) for s in "12"]) for k in ("w_matrix_use", "u_matrix_use")]
    first = {}
    for a, b in zip(w, u):
        if a:
            first.setdefault(a, b)
    later = sorted(set(u) - {0} - set(first.values()))
    return resize_u(f, key, pick((key, "later"), later) - 1) if later else False


def resize_u(f, key, i):
    n = f.data("u_matrix_row_count")
    end = int(n[:i + 1].sum())
    v = f.data("u_matrix_val")
    if n[i] > 1 and pick(key, [True, False]):
        n[i] -= 1
        f.vars["u_matrix_val"][1] = np.delete(v, end - 1)
    else:
        n[i] += 1
        f.vars["u_matrix_val"][1] = np.insert(v, end, 1.)
    f.dims["u_matrix_row_count_sum"] = len(f.data("u_matrix_val"))


def u_value(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    v = f.data("u_matrix_val")
    v[at(key, v)] = pick(key, [0., -1., -1e-6])


def index(f, key):
    if "w_matrix_nnz" not in f.vars:
        return False
    v = f.data(pick(key, ["w_matrix_row", "w_matrix_col"]))
    # Not the last column used, on which the width of the matrix depends.
    v[tuple(at(key, v[..., :1]))] = -1


def kind(f, key):
    """Another type of error than the data have."""
    v = f.data(pick(key, TYPES))
    i = at(key, v)
    v[i] = (v[i] - 1 + pick((key, "by"), [1, 2, 3])) % 4 + 1


def no_kind(f, key):
    v = f.data(pick(key, TYPES))
    v[at(key, v)] = pick((key, "to"), [0, 5, -1, 99])


def random_zero(f, key):
    s = pick(key, "12")
    v = f.data("Ur" + s)
    cols = [c for c, t in enumerate(f.data("uncertainty_type" + s)) if t < 3]
    if not cols:
        return False
    v[int(uni((key, "row"), 1)[0] * len(v)), pick((key, "col"), cols)] = 0.


def systematic(s, t):
    """A systematic uncertainty where there is none, or none where there is one."""
    def change(f, key):
        v = f.data("Us" + s)
        cols = [c for c, k in enumerate(f.data("uncertainty_type" + s)) if k == t]
        if not cols:
            return False
        c = pick((key, "col"), cols)
        v[int(uni((key, "row"), 1)[0] * len(v)) if pick((key, "all"), [True, False]) else slice(None), c] = t % 2
    change.__name__ = "systematic, type %d of sensor %s" % (t, s)
    return change


def random_and_w(f, key):
    s = pick(key, "12")
    cols = [c for c, t in enumerate(f.data("uncertainty_type" + s)) if t > 2]
    if not cols:
        return False
    f.data("Ur" + s)[:, pick((key, "col"), cols)] = 1.


def w_and_random(f, key):
    """W and u matrices for a covariate whose errors are random."""
    s = pick(key, "12")
    cols = [c for c, t in enumerate(f.data("uncertainty_type" + s)) if t < 3]
    if not cols or "w_matrix_nnz" not in f.vars:
        return False
    c = pick((key, "col"), cols)
    from_ = [(q, i) for q in "12" for i, w in enumerate(f.data("w_matrix_use" + q)) if w]
    q, i = pick((key, "from"), from_)
    for k in ("w_matrix_use", "u_matrix_use"):
        f.data(k + s)[c] = f.data(k + q)[i]


ERRORS = [missing, missing_w, dtype, dimensions, side, attribute, names, count, fewer, elsewhere, negative_label, rows, elements, u_elements, no_k, use_gap,
          unpaired, columns, columns_later, u_value, index, label, nan, nan_u, kind, no_kind, random_zero, random_and_w, w_and_random] \
    + [systematic(s, t) for s in "12" for t in (1, 2, 3, 4)] + [negative(k) for k in ("Kr", "Ks", "Ur1", "Ur2", "Us1", "Us2")]


def checked(path):
    import contextlib
    import io

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = vh.tool("harmonisation_input_checker").main(path)
    return r, out.getvalue()


def cases(errors):
    def f():
        from hypothesis import strategies as st

        small = mu.networks(max_sensors=2, max_series=1, max_M=7)
        # Of more covariates and matrices.
        big = mu.networks(max_sensors=2, max_series=1, max_M=5, max_m=13, groups=9, types=(1, 2, 3, 4, 3, 4))
        deep = mu.networks(max_sensors=2, max_series=1, max_M=5, max_m=13, groups=1, kinds=12, types=(1, 3, 4, 3, 4))
        d = {"net": st.one_of(small, small, small, big, deep), "key": st.integers(0, 2 ** 20)}
        if errors:
            d["error"], d["number"] = st.integers(0, len(ERRORS) - 1), st.just(errors)
        return st.fixed_dictionaries(d)

    return f


@C.prop("valid", cases(0), quick=250)
def valid(case, ctx):
    d = mu.expand(case["net"], 0)
    key = case["key"]
    # Names alike; one of the uncertainties of K zero, or all of them small.
    alike = pick((key, "alike"), [None, ("n1", "n19"), ("n19", "N19"), ("1", "01"), ("a", "a ")])
    if alike:
        d["name1"], d["name2"] = alike
    small = pick((key, "small"), [None, "Kr", "Ks", "both", "all"])
    if small in ("Kr", "Ks"):
        some = uni((key, "some"), d["M"]) < 0.5
        d[small] = np.where(some, 0., d[small]).astype(d[small].dtype)
        other = {"Kr": "Ks", "Ks": "Kr"}[small]
        d[other] = np.where(some, d[other], 0.).astype(d[other].dtype)
    elif small:
        for v in ("Kr", "Ks") + (("Ur1", "Ur2", "Us1", "Us2") if small == "all" else ()):
            d[v] = (d[v] * 1e-9).astype(d[v].dtype)
        if small == "all":
            d["u"] = [1e-9 * u for u in d["u"]]
    with vh.ws().tmp() as t:
        path = os.path.join(t, "a.nc")
        mu.write(d, path)
        before = open(path, "rb").read()
        r, text = checked(path)
        assert not r, "valid file: %s" % text
        assert "Test Passed" in text, "report of a valid file: %r" % text
        assert open(path, "rb").read() == before, "the file was changed"
    ctx.nontrivial(bool(d["w"]))


@C.prop("errors", cases(14), quick=200)
def errors(case, ctx):
    d = mu.expand(case["net"], 0)
    with vh.ws().tmp() as t:
        path = os.path.join(t, "a.nc")
        mu.write(d, path)
        valid, first = File(path), path
        path = os.path.join(t, "b.nc")
        for n in range(case["number"]):
            change, f = ERRORS[(case["error"] + case["key"] + n) % len(ERRORS)], copy.deepcopy(valid)
            if change(f, (case["key"], "error", n)) is False:
                continue
            f.write(path)
            r, text = checked(path)
            assert r, "file with error of kind '%s' passed: %s" % (change.__name__, text)
            assert "Test Passed" not in text and "\n>" in text, "report of an error of kind '%s': %s" % (change.__name__, text)
            ctx.label(change.__name__)
            ctx.nontrivial()
        # What is wrong with other files is none of this one's errors.
        r, text = checked(first)
        assert not r and "Test Passed" in text and "\n>" not in text, "valid file after ones with errors: %s" % text


def full_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"key": st.integers(0, 2 ** 20),
                                  "net": mu.networks(max_sensors=2, max_series=1, max_M=3, types=(3, 4))})


@C.prop("variables", full_cases, quick=4)
def variables(case, ctx):
    """Each variable in turn is missing, of another type, or of other dimensions."""
    d = mu.expand(case["net"], 0)
    with vh.ws().tmp() as t:
        path = os.path.join(t, "a.nc")
        mu.write(d, path)
        valid = File(path)
        valid.format = "NETCDF4"
        path = os.path.join(t, "b.nc")
        for k in MAIN + TYPES + WI + WF:
            for to in (None, "dims", "i8", "f8" if k in WI + TYPES else "i4", "i2"):
                f = copy.deepcopy(valid)
                if to is None:
                    f.vars.pop(k)
                elif to == "dims":
                    f.dims["other"] = f.data(k).shape[0]
                    f.vars[k][0] = ("other",) + f.vars[k][0][1:]
                else:
                    f.vars[k][1] = f.data(k).astype(to)
                f.write(path)
                r, text = checked(path)
                assert r and "Test Passed" not in text and "\n>" in text, "file with %s %s passed: %s" % (
                    k, {None: "missing", "dims": "of another dimension"}.get(to, "of type %s" % to), text)
    ctx.nontrivial()


@C.prop("program", cases(1), quick=12)
def program(case, ctx):
    """The status of the program tells files with errors."""
    import subprocess
    import sys

    change = ERRORS[case["error"]]
    d = mu.expand(case["net"], 0)
    with vh.ws().tmp() as t:
        path = os.path.join(t, "a.nc")
        mu.write(d, path)
        f = File(path)
        wrong = case["key"] % 2 and change(f, (case["key"], "error")) is not False
        if wrong:
            path = os.path.join(t, "b.nc")
            f.write(path)
        r = subprocess.run([sys.executable, os.path.join(vh.ws().tree, "tools", "harmonisation_input_checker.py"), path],
                           env=vh.ws().env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        vh.equal(r.returncode, 1 if wrong else 0, "status for a file %s: %s" % ("with error" if wrong else "without error", r.stdout))
    ctx.nontrivial()
