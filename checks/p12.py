"""P12: the preconditioner solves the weighted least-squares problem in which data are fixed and their errors are weights."""
import importlib

import numpy as np

import harm
import mu
import vh
from vh import gauss, rng

C = vh.Check(
    "P12",
    rule="A case is a generated data set (1-4 series of 8-16 match-ups of random and random + systematic errors between a "
         "reference sensor and others with different numbers of covariates), nonlinear sensor models, adjustment models, K at "
         "known parameters plus noise, and a start. Non-trivial: the parameters are determined (condition of the scaled "
         "problem below 300, standard uncertainties below 300 times their size) and a systematic effect, or sensors with different numbers of covariates.",
    assumptions=["Errors are random, or random and systematic: sampling leaves no others (P06).",
                 "Parameters within 2 % of a standard deviation of a stationary point, covariances within 1 %.",
                 "Parameters have values of 1e-10 to 1e4.",
                 "Cases whose parameters the match-ups do not determine are skipped."],
    setup=lambda w: w.use_eiv(cython=True),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "case": harm.cases(max_sensors=4, max_series=4, max_m=3, min_M=8, max_M=16, max_np=3, types=(1, 2)), "units": st.booleans(),
        "off": st.sampled_from([0., 1., 5.])})


def edit(d):
    for i, v in enumerate(d):
        key = (v["name1"], v["name2"], i, v["M"])
        for s in "12":
            X = rng((key, "X", s), v["X" + s].shape, 20., 200.)
            scale = 0.03 if X.shape[1] == 1 else 1.
            v["X" + s] = (X * scale).astype(np.float32)
            v["Ur" + s] = rng((key, "Ur", s), X.shape, 1., 6.) * scale
            v["Us" + s] = np.where(v["Us" + s] > 0, rng((key, "Us", s), (1, X.shape[1]), 1., 6.), 0.) * scale * mu.varying(v, s, key)
        v["Kr"] = rng((key, "Kr"), v["M"], 0.05, 0.2)
        v["Ks"] = rng((key, "Ks"), v["M"], 0.05, 0.2)


def parts(sc, v0, k0, a):
    """(K residuals, their covariance matrix, derivatives with respect to parameters) at parameters a."""
    ks, J = sc.evaluate(v0, a)
    Jv, Ja = J[sc.n_var:, :sc.n_var], J[sc.n_var:, sc.n_var:]
    return ks - k0, np.eye(len(ks)) + Jv.dot(Jv.T), Ja


def normal(r, V, Ja, unit, limit=300.):
    """(step to the solution, covariance of parameters), or None if the problem is worse conditioned than the limit"""
    L = np.linalg.cholesky(V)
    A, b = np.linalg.solve(L, Ja), np.linalg.solve(L, r)
    scale = np.linalg.norm(A, axis=0)
    if (scale * unit < 1e-9).any():
        return None
    Q, R = np.linalg.qr(A / scale)
    s = np.linalg.svd(R, compute_uv=False)
    if s[0] > limit * s[-1]:
        return None
    Ri = np.linalg.inv(R) / scale[:, None]
    return Ri.dot(Q.T.dot(-b)), Ri.dot(Ri.T)


def strong(d):
    """The same with larger uncertainties, so that weights depend on the parameters."""
    edit(d)
    for v in d:
        for s in "12":
            v["Ur" + s], v["Us" + s] = 25. * v["Ur" + s], 25. * v["Us" + s]


def reweighted(sc, v0, k0, a):
    """Solutions with the weights of the one before, from parameters a, until they do not change; or None if they go on."""
    from scipy.optimize import least_squares

    L = None

    def f(x):
        r, _, Ja = parts(sc, v0, k0, x * sc.unit)
        return np.linalg.solve(L, r), np.linalg.solve(L, Ja * sc.unit)

    out = [a / sc.unit]
    while len(out) < 12:
        L = np.linalg.cholesky(parts(sc, v0, k0, out[-1] * sc.unit)[1])
        out.append(least_squares(lambda x: f(x)[0], out[-1], lambda x: f(x)[1], ftol=1e-10, xtol=1e-10)["x"])
        if abs(out[-1] - out[-2]).max() < 1e-5 * (1 + abs(out[-1]).max()):
            return out
    return None


@C.prop("solution", cases, quick=250)
def solution(case, ctx):
    solved(case, ctx, {})


@C.prop("weights by parameters", cases, quick=200)
def weights(case, ctx):
    """Problems in which the weights depend on the parameters so much that the solution takes several reweightings."""
    solved(case, ctx, {"curve": 0.1, "warp": 0.5, "edit": strong})


def solved(case, ctx, how):
    gn, _ = harm.modules()
    pc = importlib.import_module(vh.MU + "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.pc_algo")
    sc = harm.Scene(case["case"], **dict({"edit": edit, "units": case["units"]}, **how))
    key, n = case["case"]["key"], sc.n_a
    if not n or sc.n_mu <= n:
        ctx.label("no parameters")
        return
    hdata = gn.Transform2NormInd().run(sc.mup)
    v0 = np.asarray(hdata.values, dtype=float)
    ks, _ = sc.evaluate(v0 + gauss((key, "v"), sc.n_var), sc.parameters)
    k0 = ks + gauss((key, "K"), sc.n_mu)
    ok = normal(*parts(sc, v0, k0, sc.parameters), unit=sc.unit)
    if ok is None:
        ctx.label("not determined")
        return
    sd = np.sqrt(np.diag(ok[1]))
    start = sc.parameters + np.clip(case["off"] * sd / sc.unit * gauss((key, "start"), n), -1., 1.) * sc.unit
    if np.isinf(sd).any() or abs(sd / sc.unit).max() > (10. if how else 300.):
        ctx.label("not determined")
        return
    if how:
        way = reweighted(sc, v0, k0, start)
        if way is None:
            ctx.label("no end of reweighting")
            return
        moves = len([1 for q in way[2:] if (abs(way[-1] - q) > 0.05 * sd / sc.unit + 3e-4 * (1 + abs(way[-1]))).any()])
        ctx.label("%d reweightings and more" % min(moves + 1, 5))
    hdata.ks = k0.copy()
    hdata.a = start.copy()
    op = pc.PCAlgo(hdata)

    # The pieces at some point, which need not be a solution.
    a1 = (sc.parameters + rng((key, "a1"), n, -1., 1.) * sc.unit).astype(np.float32).astype(float)
    op.xyza[sc.n_var:] = a1
    r, VK, Ja = parts(sc, v0, k0, a1)
    L = np.linalg.cholesky(VK)
    op.LK = op.calc_LK(hdata)
    near(op.LK.dot(op.LK.T), VK, abs(VK).max(), 1e-4, "covariance of K")
    near(op.LK, np.tril(op.LK), 1., 0., "triangle of the factor of the covariance of K")
    near(op.get_f(a1), np.linalg.solve(L, r), abs(np.linalg.inv(L)).dot(abs(r) + abs(k0) + 10).max(), 1e-3, "weighted residuals")
    near(op.get_Ja(a1) * sc.unit, np.linalg.solve(L, Ja) * sc.unit, (abs(np.linalg.solve(L, Ja)) * sc.unit).max() + (abs(Ja) * sc.unit).max(), 1e-3, "weighted derivatives")

    op = pc.PCAlgo(hdata)
    with vh.quiet():
        got = op.runPC(tol=1e-6)
    a, V = np.asarray(got[0], dtype=float), np.asarray(got[1], dtype=float)
    vh.equal(a.shape, (n,), "number of parameters")
    vh.equal(len(got), 7, "number of values returned")
    vh.close(hdata.ks, k0, 0, 0, "K after solving")
    vh.close(hdata.a, start, 0, 0, "parameters of the data after solving")
    step, C0 = normal(*parts(sc, v0, k0, a), unit=sc.unit, limit=1e6)
    sd = np.sqrt(np.diag(C0))
    bad = ~(abs(step) <= 0.02 * sd + 1e-4 * (sc.unit + abs(a)))
    assert not bad.any(), "solution %r is %r from the least-squares solution, standard uncertainties %r" % (a, step, sd)
    bad = ~(abs(V - C0) <= 0.01 * np.outer(sd, sd))
    assert not bad.any(), "covariance %r, expected %r" % (V, C0)
    ctx.label("systematic effects %d" % min(sc.n_sys, 3))
    if how and not moves:
        return
    if how or sc.n_sys or len(set(sc.ms[k] for k in range(len(sc.ms)) if not sc.ref[k])) > 1:
        ctx.nontrivial()


def near(got, want, mag, tol, what):
    got = np.asarray(got, dtype=float)
    vh.equal(got.shape, np.shape(want), what + " shape")
    bad = ~(abs(got - want) <= tol * mag)
    assert not bad.any(), "%s: %s %r, expected %r" % (what, np.argwhere(bad)[0], got[bad][0], np.asarray(want)[bad][0])


@C.prop("result", cases, quick=15)
def result(case, ctx):
    """The preconditioner's result object holds the solution, and the sensors its parameters are of."""
    gn, _ = harm.modules()
    pc = importlib.import_module(vh.MU + "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.pc_algo")
    res = importlib.import_module(vh.MU + "matchupToolbox.harmonisation.harmonisationProcessing.harmonisation_eiv_pc.HarmonisationEIVPC")
    sc = harm.Scene(case["case"], edit=edit)
    if not sc.n_a:
        return
    hdata = gn.Transform2NormInd().run(sc.mup)
    v0 = np.asarray(hdata.values, dtype=float)
    ks, _ = sc.evaluate(v0, sc.parameters)
    ok = normal(*parts(sc, v0, ks, sc.parameters), unit=sc.unit)
    if ok is None:
        return
    hdata.ks = ks + gauss((case["case"]["key"], "K"), sc.n_mu)
    with vh.quiet():
        out = res.HarmonisationEIVPC().run(hdata)
        want = pc.PCAlgo(hdata).runPC(tol=1e-6)
    vh.close(out.parameter, want[0], 1e-6, 1e-6, "parameters of the result")
    vh.close(out.parameter_covariance_matrix, want[1], 1e-6, 1e-12, "covariance of the result")
    vh.equal([str(s) for s in out.parameter_sensors], sc.parameter_sensors, "sensors of the parameters")
    assert out.values_res is None and out.ks_res is None, "residuals of the preconditioner"
    ctx.nontrivial()
