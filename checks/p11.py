"""P11: the Gauss-Newton solver finds the least-squares solution of the harmonisation problem, its covariance and residuals."""
import os

import numpy as np

import harm
import mu
import vh
from vh import gauss, rng

C = vh.Check(
    "P11",
    rule="A case is a generated data set (1-4 series of 8-20 match-ups between a reference sensor and others, all error "
         "types), nonlinear sensor models with 1-3 parameters each, K computed at known parameters plus noise, a start some "
         "standard deviations away and a preconditioner. Non-trivial: a solution that is determined (condition of the scaled "
         "problem below 300) with a structured or systematic error.",
    assumptions=["Models mildly nonlinear over the start's distance, so that Gauss-Newton iteration converges.",
                 "Parameters within 2 % of a standard deviation, covariances within 1 %, residuals within single precision.",
                 "Cases whose parameters the match-ups do not determine are skipped."],
    setup=lambda w: w.use_eiv(cython=True),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "case": harm.cases(max_sensors=4, max_series=4, max_m=3, min_M=8, max_M=20, max_np=3, adj=("none", "scale")),
        "V": st.sampled_from(["cov", "cov", "diagonal", "random"]), "cov": st.booleans(), "reopen": st.booleans(), "units": st.booleans(),
        "off": st.sampled_from([0., 1., 5.])})


def edit(d):
    """Data of sizes like those of real match-ups: a signal well above its uncertainty."""
    for i, v in enumerate(d):
        key = (v["name1"], v["name2"], i, v["M"])
        for s in "12":
            X = rng((key, "X", s), v["X" + s].shape, 20., 200.)
            # The state variable of a reference sensor is its measurand.
            scale = 0.03 if X.shape[1] == 1 else 1.
            v["X" + s] = (X * scale).astype(np.float32)
            v["Ur" + s] = np.where(v["Ur" + s] > 0, rng((key, "Ur", s), X.shape, 0.5, 2.), 0.) * scale
            v["Us" + s] = np.where(v["Us" + s] > 0, rng((key, "Us", s), (1, X.shape[1]), 0.5, 2.), 0.) * scale * mu.varying(v, s, key)
        v["Kr"] = rng((key, "Kr"), v["M"], 0.02, 0.1)
        v["Ks"] = rng((key, "Ks"), v["M"], 0.02, 0.1)
        w = []
        for p, c, x in v["w"]:
            x = 0.3 + 0.7 * np.asarray(x)
            sums = np.add.reduceat(x, p[:-1])
            w.append((p, c, x / np.repeat(sums, np.diff(p))))
        v["w"] = w
        v["u"] = [0.2 + 0.4 * np.asarray(u) for u in v["u"]]


def solve(sc, v0, k0, a, iterations=60):
    """Gauss-Newton iteration in double precision with dense matrices: (v, a, covariance, f), or None."""
    v, last = v0.copy(), np.inf
    for n in range(iterations):
        ks, J = sc.evaluate(v, a)
        f = np.concatenate([v - v0, ks - k0])
        J[:, sc.n_var:] *= sc.unit
        scale = np.linalg.norm(J, axis=0)
        if not np.isfinite(f).all() or not np.isfinite(scale).all() or (scale < 1e-9).any():
            return None
        Q, R = np.linalg.qr(J / scale)
        s = np.linalg.svd(R, compute_uv=False)
        if s[0] > 300. * s[-1]:
            return None
        d = np.linalg.solve(R, Q.T.dot(-f)) / scale
        if not np.isfinite(d).all() or np.linalg.norm(d) > 1e6:
            return None
        v, a = v + d[:sc.n_var], a + d[sc.n_var:] * sc.unit
        if abs(d).max() < 1e-10 * (1 + max(abs(v).max(), abs(a / sc.unit).max())):
            break
    else:
        return None
    Ri = np.linalg.inv(R) / scale[:, None]
    return v, a, Ri.dot(Ri.T)[sc.n_var:, sc.n_var:] * np.outer(sc.unit, sc.unit), f


def wide(d):
    """The same with larger uncertainties, of a smaller part of the data each."""
    edit(d)
    for v in d:
        for s in "12":
            v["Ur" + s], v["Us" + s] = 5. * v["Ur" + s], 5. * v["Us" + s]
        v["u"] = [5. * u for u in v["u"]]


def steps(sc, v0, k0, a, tol=1e-3, limit=1e8):
    """Costs of the Gauss-Newton iteration in double precision from a, and its end; or None if it does not come to one."""
    v, costs = v0.copy(), []
    while len(costs) < 40:
        ks, J = sc.evaluate(v, a)
        f = np.concatenate([v - v0, ks - k0])
        if not np.isfinite(f).all() or not np.isfinite(J).all() or abs(J).max() > limit:
            return None
        costs.append(f.dot(f))
        d = np.linalg.lstsq(J, -f, rcond=None)[0]
        v, a = v + d[:sc.n_var], a + d[sc.n_var:]
        if abs(d).max() < tol * (1 + max(abs(v).max(), abs(a).max())):
            return costs, a
    return None


class Exponential(harm.Model):
    """A model whose first parameter is that of an exponential: from above, a Gauss-Newton step goes down by about one."""

    def __call__(self, X, a, c, *rest):
        R, J = harm.Model.__call__(self, X, a, c, *rest)
        if not self.ref and len(a):
            e = np.exp(float(a[0]) + 1.5)
            R, J[:, self.m] = R - float(a[0]) + e, e
        return R, J


def slow_scene(case):
    sc = harm.Scene(case["case"], edit=edit)
    for m in sc.models:
        m.__class__ = Exponential
    return sc


def problem(case):
    """(scene, transformed data, start, reference solution) or None if the match-ups do not determine the parameters."""
    gn, _ = harm.modules()
    far = case.get("far")
    sc = slow_scene(case) if "slow" in case else harm.Scene(case["case"], edit=wide, curve=0.1, warp=0.5) if far else harm.Scene(case["case"], edit=edit, units=case["units"])
    if not sc.n_a:
        return None
    key = case["case"]["key"]
    hdata = gn.Transform2NormInd().run(sc.mup)
    v0 = np.asarray(hdata.values, dtype=float)
    ks, J = sc.evaluate(v0 + gauss((key, "v"), sc.n_var), sc.parameters)
    k0 = ks + gauss((key, "K"), sc.n_mu)
    sc.mup.ks[:] = k0 * np.concatenate(sc.uk)
    k0 = sc.mup.ks / np.concatenate(sc.uk)
    ref = solve(sc, v0, k0, sc.parameters.copy())
    if ref is None:
        return None
    if far:
        start = ref[1] + np.clip(3. * gauss((key, "start"), sc.n_a), -4., 4.)
        way = steps(sc, v0, k0, start)
        if way is None or (abs(way[1] - ref[1]) > 0.02 + 0.1 * np.sqrt(np.diag(ref[2]))).any() or (np.diff(way[0]) > 0).any():
            return None
        return gn, sc, v0, k0, start, ref, len(way[0])
    if "slow" in case:
        start = ref[1].copy()
        start[[at for at, a in zip(sc.first, sc.a) if len(a)]] += case["slow"]
        way = steps(sc, v0, k0, start, limit=1e14)
        if way is None or (abs(way[1] - ref[1]) > 0.02 + 0.1 * np.sqrt(np.diag(ref[2]))).any() or (np.diff(way[0]) > 0).any():
            return None
        return gn, sc, v0, k0, start, ref, len(way[0])
    start = ref[1] + case["off"] * np.sqrt(np.diag(ref[2])) * gauss((key, "start"), sc.n_a)
    if abs((start - ref[1]) / sc.unit).max() > 3.:
        start = sc.parameters.copy()
    return gn, sc, v0, k0, start, ref


def compare(sc, got, ref, v0, k0, covariance, tol=0.02):
    a, V, cost, dof, p, values_res, ks_res, sys_err, sys_sensors = got
    v, a0, C0, f = ref
    sd = np.sqrt(np.diag(C0))
    a = np.asarray(a, dtype=float)
    bad = ~(abs(a - a0) <= tol * sd + 3e-6 * (sc.unit + abs(a0)))
    assert not bad.any(), "parameters %r, least-squares solution %r, standard uncertainties %r" % (a, a0, sd)
    vh.equal(np.shape(V), (sc.n_a, sc.n_a), "shape of the covariance")
    if covariance:
        V = np.asarray(V, dtype=float)
        vh.close(V, V.T, 0, 0, "symmetry of the covariance")
        bad = ~(abs(V - C0) <= 0.01 * np.outer(sd, sd))
        assert not bad.any(), "covariance %r, expected %r" % (V, C0)
    else:
        vh.close(V, np.zeros((sc.n_a, sc.n_a)), 0, 0, "covariance not asked for")
    vh.close(cost, f.dot(f), 1e-2, 0.02, "cost")
    vh.equal(int(dof), sc.n_mu - sc.n_a, "degrees of freedom")
    if sc.n_mu > sc.n_a:
        from scipy.stats import chi2

        vh.close(p, chi2.sf(f.dot(f), sc.n_mu - sc.n_a), 0, 0.02, "probability of the cost")
    # Residuals are in the units and order of the data.

    dv = f[:sc.n_var]
    want, mag = [], []
    for i, s, c in mu.blocks(sc.d):
        want.append(sc.A[i, s, c].dot(dv))
        mag.append(abs(sc.A[i, s, c]).dot(np.ones(sc.n_var)))
    want, mag = np.concatenate(want), np.concatenate(mag)
    vh.equal(len(values_res), len(want), "number of residuals")
    bad = ~(abs(values_res - want) <= 0.02 * mag)
    assert not bad.any(), "residuals %r, expected %r" % (values_res[bad], want[bad])
    uk = np.concatenate(sc.uk)
    bad = ~(abs(ks_res - f[sc.n_var:] * uk) <= 0.02 * uk)
    assert not bad.any(), "residuals of K %r, expected %r" % (ks_res[bad], (f[sc.n_var:] * uk)[bad])
    if sc.n_sys:
        vh.close(sys_err, v[sc.n_var - sc.n_sys:], 0, 0.02, "systematic errors")
        vh.equal(list(sys_sensors), [n for n, _ in sc.sys_order], "sensors of systematic errors")
    else:
        assert sys_err is None and sys_sensors is None, "systematic errors of data that have none"


def special(sc):
    return any(t > 1 for d in sc.d for n in "12" for t in d["uncertainty_type" + n])


@C.prop("solution", cases, quick=60)
def solution(case, ctx):
    pr = problem(case)
    if pr is None:
        ctx.label("not determined")
        return
    gn, sc, v0, k0, start, ref = pr[:6]
    key, n = case["case"]["key"], sc.n_a
    if case["V"] == "cov":
        V = ref[2]
    elif case["V"] == "diagonal":
        V = np.diag(np.diag(ref[2]) * rng((key, "V"), n, 0.5, 2.))
    elif case["V"] == "poor":
        V = np.diag(np.diag(ref[2]) * 10. ** rng((key, "V"), n, -1.5, 1.5))
    else:
        q = np.linalg.cholesky(ref[2]).dot(np.eye(n) + 0.3 * gauss((key, "V"), (n, n)))
        V = q.dot(q.T) + np.diag(np.diag(ref[2])) * 0.1
    sc.mup.a = start.copy()
    hdata = gn.Transform2NormInd().run(sc.mup)
    vh.close(hdata.ks, k0, 1e-9, 1e-9, "normalised K")
    op = gn.GNAlgo(hdata, V)
    with vh.quiet():
        got = op.run(return_covariance=case["cov"])
    compare(sc, got, ref, v0, k0, case["cov"])
    vh.close(np.asarray(hdata.values, dtype=float), v0, 0, 0, "data after solving")
    if case["reopen"]:
        # The saved state of the solver stands for it: opened by a solver of the same data it goes on from there.
        with vh.ws().tmp() as t:
            folder = os.path.join(t, "state")
            op.save(folder)
            other = gn.GNAlgo(sc.mup)
            other.open(folder)
            vh.close(other.xyza, op.xyza, 1e-6, 1e-9, "estimate opened from the saved state")
            vh.close(other.S, op.S, 1e-6, 1e-9 * abs(op.S).max(), "preconditioner opened from the saved state")
            with vh.quiet():
                V2 = other.calculate_parameter_covariance_matrix_ij([0, n - 1])
            sd = np.sqrt(np.diag(ref[2]))
            vh.close(V2, ref[2][0, n - 1], 0, 0.01 * sd[0] * sd[n - 1], "covariance from the saved state")
            with vh.quiet():
                again = other.run(return_covariance=False)
            compare(sc, again, ref, v0, k0, False)
        ctx.label("reopened")
    ctx.label("preconditioner " + case["V"])
    if len(pr) > 6:
        ctx.label("%d iterations" % min(pr[6], 12))
    if special(sc) if len(pr) == 6 else pr[6] > 2:
        ctx.nontrivial()


def far_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "case": harm.cases(max_sensors=4, max_series=4, max_m=3, min_M=8, max_M=14, max_np=3, adj=("none", "scale")),
        "V": st.sampled_from(["poor", "poor", "random", "cov"]), "cov": st.booleans(), "reopen": st.just(False), "far": st.just(True)})


@C.prop("far start", far_cases, quick=36)
def far_start(case, ctx):
    """Models that are nonlinear in their parameters too, from starts many standard deviations away, with poor preconditioners."""
    solution(case, ctx)


def slow_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "case": harm.cases(max_sensors=3, max_series=2, max_m=2, min_M=16, max_M=24, max_np=1, adj=("none", "scale")),
        "V": st.sampled_from(["diagonal", "cov"]), "cov": st.booleans(), "reopen": st.just(False), "slow": st.integers(5, 12)})


@C.prop("many steps", slow_cases, quick=12)
def many_steps(case, ctx):
    """Models of exponentials from starts that the solver needs many steps from."""
    solution(case, ctx)
