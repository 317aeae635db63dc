"""P21: simulated match-ups in text files are converted to match-up files with the same data."""
import contextlib
import io
import logging
import os
import runpy
import sys

import numpy as np
from scipy import sparse

import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P21",
    rule="A case is a set of three text files with 1-4 series of up to 12 match-ups, or thousands, of 1-7 covariates with random, random + "
         "systematic, or rolling average errors, and options of the program. Non-trivial: series of different sizes, or a series "
         "without the reference.",
    assumptions=["At least two match-ups in all.", "The reference is sensor 0, always the first of a pair."],
    setup=lambda w: w.use_tools(),
)


NAMES = [["0", "1", "2", "3", "4"], ["0", "1", "2", "3", "4"], ["0", "01", "00", "10", "0.5"], ["0", "N15", "m02", "n19", "N19"],
         ["0", "Ia", "true", "N", "I"]]


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "series": st.lists(st.tuples(st.integers(0, 3), st.integers(1, 3), st.integers(1, 12)), min_size=1, max_size=4),
        "types": st.lists(st.sampled_from(["R", "RS", "MA"]), min_size=1, max_size=7), "key": st.integers(0, 2 ** 20),
        "names": st.integers(0, len(NAMES) - 1), "scale": st.sampled_from([1] * 12 + [200]),
        "nW": st.integers(1, 6), "differ": st.sampled_from([None, None, None, None, "u", "n", "both"]),
        "out": st.sampled_from(["exists", "new", ".", "deep"]), "amount": st.sampled_from([None, "--verbose", "--quiet"]),
        "log": st.booleans(), "missing": st.sampled_from([None] * 8 + ["data_pams.txt", "data_vals.txt", "data_uncs.txt", "all"]),
        "short": st.booleans()})


def program(args, cwd):
    """Runs the program in this process."""
    out, keep, here = io.StringIO(), sys.argv, os.getcwd()
    names = [n for n in logging.Logger.manager.loggerDict] + ["__main__"]
    sys.argv = ["pmh2fiduceo.py"] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(vh.ws().tree, "tools", "pmh2fiduceo.py"), run_name="__main__")
    finally:
        os.chdir(here)
        sys.argv = keep
        for n in names:
            for h in list(logging.getLogger(n).handlers):
                logging.getLogger(n).removeHandler(h)
                h.close()
    return out.getvalue()


# More match-ups than 2-byte integers count.
LONG = {"series": [[0, 1, 8], [1, 2, 9]], "types": ["MA", "R"], "key": 5, "names": 0, "scale": 2100, "nW": 3, "differ": None,
        "out": "new", "amount": None, "log": False, "missing": None, "short": False}


@C.prop("files", cases, quick=150, explicit=[LONG])
def files(case, ctx):
    from netCDF4 import Dataset

    key, types = case["key"], case["types"]
    nX, case_names = len(types), NAMES[case["names"]]
    # Pairs of sensors, each once.
    pairs, sizes = [], []
    for a, b, n in case["series"]:
        p = (case_names[a], case_names[b + (b >= a) if a else b])
        if p not in pairs:
            pairs.append(p)
            sizes.append(n * case["scale"])
    if sum(sizes) < 2:
        sizes[0] = 2
    H = rng((key, "H"), (sum(sizes), 2 * nX + 1), -5., 900.)
    u = rng((key, "u"), nX, 0.01, 3.)
    us = rng((key, "us"), nX, 0.01, 3.)
    nW = np.full(nX, case["nW"])
    ma = [j for j, t in enumerate(types) if t == "MA"]
    u[ma[1:]] = u[ma[:1]]
    differ = case["differ"] if len(ma) > 1 else None
    if differ in ("u", "both"):
        u[ma[1 + key % (len(ma) - 1)]] *= 2. if key % 3 else 1.0001
    if differ in ("n", "both"):
        nW[ma[1 + key % (len(ma) - 1)]] += 1
    u_ref, Kr = rng((key, "ref"), 2, 0.01, 1.)
    atrue = gauss((key, "a"), (3, 4))
    number = repr
    with vh.ws().tmp() as t:
        src = os.path.join(t, "in")
        os.makedirs(src)
        if case["missing"] != "data_vals.txt":
            with open(os.path.join(src, "data_vals.txt"), "w") as f:
                for row in H:
                    f.write(" ".join(number(float(v)) for v in row) + "\n")
        if case["missing"] != "data_pams.txt":
            with open(os.path.join(src, "data_pams.txt"), "w") as f:
                f.write("Im\n" + "".join(" ".join(p) + "\n" for p in pairs) + "Nm\n" + "".join("%d\n" % n for n in sizes)
                        + "atrue\n" + "".join(" ".join(number(float(v)) for v in row) + "\n" for row in atrue))
        if case["missing"] != "data_uncs.txt":
            with open(os.path.join(src, "data_uncs.txt"), "w") as f:
                f.write("Reference:\n%r\n" % float(u_ref))
                for j, e in enumerate(types):
                    f.write("Covariate %d %s:\n" % (j + 1, e))
                    f.write({"R": "%r\n" % float(u[j]), "RS": "%r %r\n" % (float(u[j]), float(us[j])),
                             "MA": "%r %d\n" % (float(u[j]), nW[j])}[e])
                f.write("K:\n%r\n" % float(Kr))
        if case["missing"] == "all":
            src = os.path.join(t, "nowhere")
        dst = t if case["out"] == "." else os.path.join(t, "a/b c/out" if case["out"] == "deep" else "out")
        if case["out"] == "exists":
            os.makedirs(dst)
            # Of an earlier run, on other data.
            for p in pairs[::2]:
                with Dataset(os.path.join(dst, "_".join(p) + ".nc"), "w") as ds:
                    ds.createDimension("M", 99)
                    ds.createVariable("X1", "f4", ("M",))[:] = 1.
            open(os.path.join(dst, "atrue.txt"), "w").write("0 0\n" * 9)
        args = ["-i" if case["short"] else "--input_directory", src]
        if case["out"] != ".":
            args += ["-o" if case["short"] else "--output_directory", dst]
        args += [case["amount"]] if case["amount"] else []
        args += ["--log", os.path.join(t, "log.txt")] if case["log"] else []
        error = None
        try:
            text = program(args, t)
        except (IOError, ValueError) as e:
            error = e
        if case["missing"]:
            assert isinstance(error, IOError), "missing input: %r" % error
            ctx.label("missing input")
            return
        if differ:
            assert isinstance(error, ValueError), "different W or u matrices: %r" % error
            ctx.label("different matrices")
            return
        if error:
            raise error
        for s in [text] + ([open(os.path.join(t, "log.txt")).read()] if case["log"] else []):
            assert ("Converting Files" in s) == (case["amount"] != "--quiet"), "output %r with %s" % (s, case["amount"])
            assert ("Im: " in s) == (case["amount"] == "--verbose"), "output %r with %s" % (s, case["amount"])
        names = ["_".join(p) + ".nc" for p in pairs]
        vh.equal(sorted(set(os.listdir(dst)) - {"in", "log.txt", "a"}), sorted(names + ["atrue.txt"]), "files written")
        vh.close(np.loadtxt(os.path.join(dst, "atrue.txt")), atrue, 1e-15, 0, "true parameters")
        start = 0
        for p, n, name in zip(pairs, sizes, names):
            with vh.quiet():
                wrong = vh.tool("harmonisation_input_checker").main(os.path.join(dst, name))
            assert not wrong, "%s does not pass the input checker" % name
            with Dataset(os.path.join(dst, name)) as ds:
                got = {v: np.array(ds.variables[v][:]) for v in ds.variables}
                vh.equal((ds.sensor_1_name, ds.sensor_2_name), p, "sensors")
            code = np.array([{"R": 1, "RS": 2, "MA": 3}[e] for e in types])
            rows = H[start:start + n]
            Ur = np.tile(np.where(code == 3, 0., u), (n, 1))
            Us = np.tile(np.where(code == 2, us, 0.), (n, 1))
            want = {"X2": rows[:, nX:2 * nX], "Ur2": Ur, "Us2": Us, "uncertainty_type2": code, "K": rows[:, -1],
                    "Kr": np.full(n, Kr), "Ks": np.zeros(n), "X1": rows[:, :nX], "Ur1": Ur, "Us1": Us, "uncertainty_type1": code,
                    "time1": np.arange(start, start + n), "time2": np.arange(start, start + n)}
            if p[0] == "0":
                want.update(X1=rows[:, :1], Ur1=np.full((n, 1), u_ref), Us1=np.zeros((n, 1)), uncertainty_type1=np.array([1]))
            if ma:
                use = (code == 3).astype(int)
                k = case["nW"]
                shape = (n, n + k - 1)
                W = sparse.csr_matrix((np.full(n * k, 1. / k), (np.repeat(np.arange(n), k), (np.arange(n)[:, None] + np.arange(k)).ravel())), shape)
                want.update(w_matrix_use1=use if p[0] != "0" else np.array([0]), w_matrix_use2=use, u_matrix_use2=use,
                            u_matrix_use1=use if p[0] != "0" else np.array([0]), u_matrix_row_count=np.array([shape[1]]),
                            u_matrix_val=np.full(shape[1], u[ma[0]]), w_matrix_nnz=np.array([n * case["nW"]]))
                row = got["w_matrix_row"].reshape(-1)
                vh.equal(int(row[0]), 0, name + ": first row of the W matrix")
                mat = sparse.csr_matrix((got["w_matrix_val"].astype(float), got["w_matrix_col"], row), shape)
                assert abs(mat - W).max() < 1e-6 / k, "%s: W matrix differs by %g" % (name, abs(mat - W).max())
            vh.equal(sorted(got), sorted(list(want) + (["w_matrix_row", "w_matrix_col", "w_matrix_val"] if ma else [])),
                     name + ": variables")
            for v in want:
                vh.equal(got[v].shape, want[v].shape, "%s: shape of %s" % (name, v))
                vh.close(got[v], want[v], 1e-6 if v == "u_matrix_val" else 1e-15, 0, "%s: %s" % (name, v))
            start += n
    ctx.label("%d series" % len(pairs))
    ctx.nontrivial(len(set(sizes)) > 1 or any(p[0] != "0" for p in pairs))
