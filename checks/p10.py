"""P10: the iterative solvers find the solution, and say truthfully how close to it they are."""
import numpy as np

import vh
from vh import gauss, rng, uni

C = vh.Check(
    "P10",
    rule="A case is a matrix with drawn singular values or eigenvalues (some zero, some repeated, both signs for MINRES), a "
         "right-hand side (zero, in the range, an eigenvector, of no energy, or any), units of both over 16 orders of magnitude, damping or "
         "shift, weights of data and unknowns, tolerances and limits. Non-trivial: at least three unknowns and a right-hand side "
         "that is not zero.",
    assumptions=["Condition numbers up to 1000 in exact comparisons; at default tolerances only the reported state is checked.",
                 "Least-squares problems of at least two equations."],
    setup=lambda w: w.use_eiv(),
)


def spectrum():
    from hypothesis import strategies as st

    return st.lists(st.one_of(st.sampled_from([0., 1., 1., 2., 1000.]), st.floats(1., 1000.)), min_size=1, max_size=9)


def ls_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "s": spectrum(), "rows": st.integers(0, 6), "cols": st.integers(0, 3), "key": st.integers(0, 2 ** 20),
        "b": st.sampled_from(["any", "any", "range", "zero", "orthogonal"]), "damp": st.sampled_from([0., 0., 0.5, 20.]),
        "default": st.booleans(), "weight": st.booleans(), "itnlim": st.sampled_from([None, None, 2]), "extra": st.integers(0, 2 ** 12)})


def orth(key, n):
    return np.linalg.qr(gauss(key, (n, n)))[0]


def spd(key, n):
    """A positive definite matrix of moderate condition."""
    Q = orth(key, n)
    return (Q * rng((key, "d"), n, 0.3, 3.)).dot(Q.T)


def op(A, pkg=None):
    from scipy.sparse.linalg import LinearOperator

    return LinearOperator(A.shape, matvec=lambda x: A.dot(x), rmatvec=lambda x: A.T.dot(x), dtype=float)


def pick(key, *values):
    return values[int(uni(key, 1)[0] * len(values))]


def units(extra):
    """Those of the matrix and of the right-hand side."""
    return pick((extra, "A"), 1., 1., 1., 1e-8, 1e-4, 1e5, 1e8), pick((extra, "b"), 1., 1., 1., 1e-8, 1e-3, 1e4, 1e8)


def windows(solver, images, itn, window, etol, reason, loose=0.1):
    """Steps of the last iterations relative to the solution, in the energy norm, and the iteration at which they are small."""
    got = np.array(solver.dir_errors_window, dtype=float)
    vh.equal(len(got), max(0, itn - window), "number of direct errors")
    if images is not None:
        for k, v in enumerate(got):
            now, before = images[window + 1 + k], images[1 + k]
            vh.close(v, np.linalg.norm(now - before) / np.linalg.norm(now), loose, loose / 100, "direct error of iteration %d" % (window + 1 + k))
    assert not (got[:-1] < etol).any(), "went on at direct errors %r" % got
    if len(got) and got[-1] >= etol:
        assert reason not in (8, 10) or etol == 1e-6, "stopped at direct errors %r" % got


@C.prop("LSMR", ls_cases, quick=6000)
def lsmr(case, ctx):
    mod = vh.eiv(vh.EIV + "pykrylov_lsmr")
    s, key, extra = np.array(case["s"]), case["key"], case["extra"]
    m, n = max(2, len(s) + case["rows"]), len(s) + case["cols"]
    fA, fb = units(extra)
    s = s * fA
    A = orth((key, "U"), m)[:, :len(s)].dot(np.diag(s)).dot(orth((key, "V"), n)[:, :len(s)].T)
    b = gauss((key, "b"), m)
    if case["b"] == "range":
        b = A.dot(gauss((key, "x"), n)) / fA
    elif case["b"] == "zero":
        b = np.zeros(m)
    elif case["b"] == "orthogonal" and case["rows"]:
        b = orth((key, "U"), m)[:, -1]
    b = b * fb
    damp = case["damp"] * fA
    show, window = pick((extra, "show"), False, False, True), pick((extra, "window"), 5, 5, 2, 3)
    solver = mod.LSMRFramework(op(A))
    kw = {"damp": damp, "show": show}
    if window != 5:
        kw.update(window=window)
    etol = 1e-6
    if not case["default"]:
        etol = 0.
        kw.update(atol=1e-14, btol=1e-14, conlim=1e12, etol=0., itnlim=12 * n)
    else:
        if case["itnlim"]:
            kw.update(itnlim=case["itnlim"])
        if key % 7 == 1:
            kw.update(atol=1e-13, btol=1e-2)
        elif key % 7 == 2:
            kw.update(atol=1e-3, btol=1e-13)
        if key % 6 == 1:
            kw.update(conlim=pick((extra, "conlim"), 0., 3., 30.))
        if pick((extra, "etol"), 0, 0, 1):
            etol = 0.03
            kw.update(etol=etol)
    W, N = np.eye(m), np.eye(n)
    if case["weight"]:
        # The norms of residuals and solution
        if key % 5 < 4:
            W = np.diag(rng((key, "W"), m, 0.3, 3.)) if key % 5 < 2 else spd((key, "W"), m)
            kw.update(M=lambda v: W.dot(v))
        if key % 5 > 1:
            N = spd((key, "N"), n)
            kw.update(N=lambda v: N.dot(v))
    root, L = np.linalg.cholesky(W).T, np.linalg.cholesky(N)
    B, c = root.dot(A).dot(L), root.dot(b)
    stored = key % 4 < 2
    if stored:
        kw.update(store_iterates=True, store_resids=True)
    b0 = b.copy()
    with vh.quiet(), np.errstate(all="ignore"):
        # A solver object may be used again: the solution is that of the last call.
        if int(key) % 3 == 0:
            solver.solve(gauss((key, "b2"), m), **kw)
        x, istop, itn, normr, normar, normA, condA, normx = solver.solve(b, **kw)
    vh.close(b, b0, 0, 0, "right-hand side afterwards")
    vh.close(solver.x, x, 0, 0, "solution kept by the solver")
    vh.equal(np.shape(x), (n,), "shape of the solution")
    assert np.isfinite(x).all(), "solution %r" % x

    def state(x):
        """Norms of residual and gradient, the image of the normal equations"""
        y = np.linalg.solve(L, x)
        r = c - B.dot(y)
        return (np.hypot(np.linalg.norm(r), damp * np.linalg.norm(y)), np.linalg.norm(B.T.dot(r) - damp ** 2 * y),
                B.T.dot(B.dot(y)) + damp ** 2 * y)

    true_r, true_g, _ = state(x)
    scale = np.linalg.norm(c) + 1e-300
    sv = np.linalg.svd(B, compute_uv=False)
    sA = max(sv.max(), damp, 1e-300) * 2.
    vh.close(normr, true_r, 1e-6, 1e-7 * scale, "reported norm of the residual")
    vh.close(normar, true_g, 1e-5, 1e-7 * scale * sA, "reported norm of the gradient")
    assert 0 <= istop <= 8, istop
    limit = kw.get("itnlim") or min(m, n)
    assert itn <= limit, "%d iterations" % itn
    if istop == 7:
        vh.equal(itn, limit, "iterations at the limit")
    if itn:
        vh.close(normx, np.linalg.norm(x), 1e-9, 1e-12 * abs(x).max(), "reported norm of the solution")
        # Those of the bidiagonal matrix
        first = np.linalg.norm(B.T.dot(c)) / scale
        assert first * (1 - 1e-9) <= normA <= np.sqrt(2 * itn + 1) * sv.max() * (1 + 1e-9), "norm %r of the matrix" % normA
        pos = np.sqrt(sv[sv > 1e-9 * sv.max()] ** 2 + damp ** 2)
        assert condA >= 1 - 1e-9, "condition %r" % condA
        if itn < len(pos):
            assert condA <= pos.max() / pos.min() * (1 + 1e-3), "condition %r of %r" % (condA, pos)
        if istop == 3:
            assert condA >= kw.get("conlim", 1e8) * (1 - 1e-9) and kw.get("conlim"), "condition %r" % condA
    images = None
    if stored and itn:
        vh.equal(len(solver.iterates), itn + 1, "number of iterates")
        vh.close(solver.iterates[0], np.zeros(n), 0, 0, "first iterate")
        vh.close(solver.iterates[-1], x, 0, 0, "last iterate")
        vh.equal((len(solver.resids), len(solver.normal_eqns_resids)), (itn + 1, itn + 1), "numbers of residuals")
        vh.equal(len(solver.norms), itn, "number of norms")
        images = []
        loose = 0.1 + 1e-12 * (pos.max() / pos.min()) ** 4
        for k, v in enumerate(solver.iterates):
            q, h, image = state(v)
            images.append(image)
            vh.close(solver.resids[k], q, 1e-6, 1e-7 * scale, "residual %d" % k)
            vh.close(solver.normal_eqns_resids[k], h, 1e-5, 1e-7 * scale * sA, "gradient %d" % k)
            if k:
                vh.close(solver.norms[k - 1], np.linalg.norm(image) ** 2, loose, 0, "energy norm of iterate %d" % k)
        ctx.label("stored")
    windows(solver, images, itn, window, etol, istop, max(0.1, loose) if images else 0)
    # The gradient falls, iteration by iteration.
    g0 = np.linalg.norm(B.T.dot(c))
    assert true_g <= g0 * (1 + 1e-9) + 1e-9 * scale * sA, "the gradient grew from %r to %r" % (g0, true_g)
    if istop == 0:
        assert g0 <= 1e-12 * scale * sA, "stopped at zero"
        vh.close(x, np.zeros(n), 0, 0, "solution")
    tol = kw.get("atol", 1e-9)
    if istop == 1:
        y = np.linalg.norm(np.linalg.solve(L, x))
        assert true_r <= (2 * kw.get("btol", 1e-9) + 1e-10) * scale + (2 * tol + 1e-10) * np.sqrt(2 * itn + 1) * sv.max() * max(
            y, np.linalg.norm(x)), "solved, istop 1"
    if istop == 2:
        assert true_g <= (10 * tol + 1e-10) * sA * len(s) * max(true_r, 1e-9 * scale), "least squares, istop 2"
    if not case["default"]:
        # In units of the matrix
        want = np.linalg.lstsq(np.vstack([B / fA, damp / fA * np.eye(n)]), np.concatenate([c / fb, np.zeros(n)]), rcond=1e-10)[0]
        want = L.dot(want) * (fb / fA)
        low = max(damp, pos.min() if itn and len(pos) else fA)
        vh.close(x, want, 0, 1e-6 * (np.linalg.norm(want) + scale / low), "solution (istop %d, %d iterations)" % (istop, itn))
    ctx.nontrivial(n > 2 and case["b"] != "zero")
    ctx.label("istop %d" % istop, *(["singular"] if (s == 0).any() or case["cols"] else []))


def mr_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "s": spectrum(), "signs": st.booleans(), "key": st.integers(0, 2 ** 20),
        "b": st.sampled_from(["range", "range", "zero", "eigenvector", "any"]), "shift": st.sampled_from([0., 0., -3.5]),
        "skew": st.integers(0, 5), "precon": st.sampled_from(["none", "none", "good", "good", "good", "skew", "negative", "mixed"]),
        "stored": st.booleans(), "default": st.booleans(), "extra": st.integers(0, 2 ** 12)})


@C.prop("MINRES", mr_cases, quick=6000, explicit=[
    {"s": [1., 1.], "signs": False, "key": 1, "b": "range", "shift": 0., "skew": 1, "precon": "none", "stored": True, "default": True,
     "extra": 0, "balanced": True}])
def minres(case, ctx):
    mod = vh.eiv(vh.EIV + "pykrylov_minres")
    s, key, extra = np.array(case["s"]), case["key"], case["extra"]
    n = len(s)
    fA, fb = units(extra)
    if case["signs"]:
        s = s * np.where(uni((key, "sign"), n) < 0.4, -1, 1)
    Q = orth((key, "Q"), n)
    shift = case["shift"]
    # Eigenvalues in pairs of both signs, and a right-hand side b with b'Ab = 0
    balanced = n > 1 and case.get("balanced", pick((extra, "balanced"), 0, 0, 0, 0, 1)) and case["b"] == "range"
    if balanced:
        shift, h = 0., n // 2
        Z = np.zeros((n, n))
        Z[:h, h:2 * h] = (orth((key, "l"), h) * s[:h]).dot(orth((key, "r"), h))
        A = Z + Z.T
        s = np.linalg.eigvalsh(A)
        s[abs(s) < 1e-9] = 0.
        ctx.label("balanced")
    else:
        A = (Q * s).dot(Q.T)
        A = (A + A.T) / 2
    if (abs(s - shift) < 0.1).any() and shift:
        shift = 0.
    S = A - shift * np.eye(n)
    skew = case["skew"] == 0 and n > 1 and abs(A).max() > 0 and not balanced
    if skew:
        odd = np.triu(np.ones((n, n)), 1) * abs(A).max() * pick((extra, "odd"), 1., -1.)
        A = A + pick((extra, "skew"), odd, odd.T)
        fA = max(1., fA)
    compatible = True
    if case["b"] == "zero":
        b = np.zeros(n)
    elif case["b"] == "eigenvector":
        j = int(uni((key, "j"), 1)[0] * n)
        b = Q[:, j] * (1. if s[j] - shift else 0.)
        if key % 2:
            # Exactly so
            S = np.diag(s) - shift * np.eye(n)
            A = np.diag(s)
            b = np.eye(n)[j] * (s[j] - shift)
            skew = False
    elif case["b"] == "any":
        b = gauss((key, "x"), n)
        compatible = not (s - shift == 0).any()
    else:
        x = gauss((key, "x"), n)
        if balanced:
            x[:n // 2] = 0.
        b = S.dot(x)
    # That of the solution is fb
    A, S, s, shift, b = A * fA, S * fA, s * fA, shift * fA, b * fA * fb
    show, window = pick((extra, "show"), False, False, True), pick((extra, "window"), 5, 5, 2, 3)
    kw = {"show": show, "shift": shift}
    if window != 5:
        kw.update(window=window)
    etol = 1e-6
    few = key % 9 == 1
    if not case["default"]:
        etol = 0.
        kw.update(rtol=1e-15, etol=0., itnlim=12 * n)
    elif few:
        kw.update(itnlim=1 + key % 4)
    elif pick((extra, "etol"), 0, 0, 1):
        etol = 0.03
        kw.update(etol=etol)
    P = None
    if case["stored"]:
        kw.update(store_iterates=True)
    bad = case["precon"]
    if bad != "none":
        q = gauss((key, "P"), (n, n)) * 0.2
        P = np.linalg.inv(np.eye(n) + q.dot(q.T))
        P = (P + P.T) / 2
        if bad == "negative":
            P = -P
        if bad == "mixed":
            T = orth((key, "T"), n)
            P = (T * np.where(np.arange(n) % 2, -1., 1.)).dot(T.T)
            P = (P + P.T) / 2
        if bad == "skew" and n > 1:
            P = P + np.triu(np.ones((n, n)), 1) * abs(P).max()
            # The first product is not negative.
            if b.dot(P.dot(b)) < 0:
                return
        kw.update(precon=op(P))
    solver = mod.Minres(op(A))
    b0 = b.copy()
    with vh.quiet(), np.errstate(all="ignore"):
        # A solver may be used again
        if pick((extra, "again"), 0, 0, 1) and not skew and bad in ("none", "good"):
            solver.solve(S.dot(gauss((key, "x2"), n)), **kw)
        solver.solve(b, **kw)
    x, istop, itn = solver.x, solver.istop, solver.itn
    vh.close(b, b0, 0, 0, "right-hand side afterwards")
    assert np.isfinite(x).all(), "solution %r" % x
    vh.equal(np.shape(x), (n,), "shape of the solution")
    assert itn <= kw.get("itnlim", 5 * n), "%d iterations" % itn
    if istop == 6:
        vh.equal(itn, kw.get("itnlim", 5 * n), "iterations at the limit")
    vh.equal(solver.converged, istop in (-1, 1, 2, 3, 4, 10), "convergence, istop %d" % istop)
    if skew:
        assert istop == 7 or bad in ("skew", "negative", "mixed") and istop in (8, 9), "istop %r" % istop
        vh.close(x, np.zeros(n), 0, 0, "solution")
        assert not solver.converged
        ctx.label("not symmetric")
        return
    if b.any() and bad in ("negative", "skew") and (n > 1 or bad == "negative"):
        vh.equal(istop, 9 if bad == "negative" else 8, "reason to stop, for a preconditioner that is %s" % bad)
        assert not solver.converged
        vh.close(x, np.zeros(n), 0, 0, "solution")
        ctx.label("preconditioner " + bad)
        return
    if bad == "mixed" and n > 1:
        assert istop != 6 or itn == kw.get("itnlim", 5 * n), "the preconditioner is not positive definite"
        if b.dot(P.dot(b)) < -1e-9 * b.dot(b):
            vh.equal(istop, 9, "reason to stop, for a preconditioner of both signs")
        ctx.label("preconditioner mixed, istop %d" % istop)
        return
    assert istop != 7, "a symmetric matrix was taken for one that is not"
    if not compatible:
        with ctx.finding("minres-incompatible", only=AssertionError):
            r = b - S.dot(x)
            norms = np.linalg.norm(S, 2) + 1e-300
            assert np.linalg.norm(S.dot(r)) <= 1e-6 * norms * np.linalg.norm(b), (
                "gradient %r of a least-squares solution, istop %d" % (np.linalg.norm(S.dot(r)), istop))
        ctx.label("incompatible")
        return
    # In the norm of the preconditioner
    L = np.linalg.cholesky(P) if bad == "good" or n == 1 and bad in ("skew", "mixed") else np.eye(n)
    B, c = L.T.dot(S).dot(L), L.T.dot(b)
    scale, norm = np.linalg.norm(c) + 1e-300, np.linalg.norm(B, 2) + 1e-300

    def state(x):
        r = c - B.dot(np.linalg.solve(L, x))
        return np.linalg.norm(r), np.linalg.norm(B.dot(r)), c - r

    if b.any():
        vh.equal(len(solver.residHistory), itn, "number of residuals")
    images = None
    if case["stored"] and b.any():
        vh.equal(len(solver.iterates), itn + 1, "number of iterates")
        vh.close(solver.iterates[0], np.zeros(n), 0, 0, "first iterate")
        vh.close(solver.iterates[-1], x, 0, 0, "last iterate")
        for k, v in enumerate(solver.iterates[1:]):
            vh.close(solver.residHistory[k], state(v)[0], 1e-5, 1e-7 * scale, "residual %d" % k)
        images = [state(v)[2] for v in solver.iterates]
        # ... of the iterate before the last
        vh.close(solver.Arnorm, state(solver.iterates[-2])[1], 1e-5, 1e-7 * scale * norm, "reported norm of the gradient")
        ctx.label("stored")
    if b.any():
        windows(solver, images, itn, window, etol, istop)
    norm_r = state(x)[0]
    if itn:
        vh.close(solver.rnorm, norm_r, 1e-5, 1e-7 * scale, "reported norm of the residual")
        vh.close(solver.ynorm, np.linalg.norm(x), 1e-9, 0, "reported norm of the solution")
        first = np.linalg.norm(B.dot(c)) / scale
        assert first * (1 - 1e-9) <= solver.Anorm <= np.sqrt(3 * itn) * norm * (1 + 1e-9), "norm %r of the matrix" % solver.Anorm
        if (s > shift).all() and itn <= n and istop != -1:
            ev = np.linalg.eigvalsh(B)
            assert 1 - 1e-9 <= solver.Acond <= ev.max() / ev.min() * (1 + 1e-3), "condition %r of %r" % (solver.Acond, ev)
    assert norm_r <= scale * (1 + 1e-9), "the residual grew"
    if not b.any():
        vh.close(x, np.zeros(n), 0, 0, "solution")
    rtol = kw.get("rtol", 1e-12)
    if istop == 1:
        assert norm_r <= (10 * rtol + 1e-10) * np.sqrt(3 * itn) * norm * (np.linalg.norm(np.linalg.solve(L, x)) + scale / norm), "solved, istop 1"
    pos = abs(s - shift)[abs(s - shift) > 0]
    if (not case["default"] or case["b"] == "eigenvector" and P is None or etol == 1e-6 and istop not in (6, 10)) and len(pos):
        # S may be singular, b is in its range: compare within the range.
        inv = np.linalg.pinv(S, rcond=1e-10)
        want = inv.dot(b)
        got = inv.dot(S.dot(x))
        tol = 1e-3 if case["default"] else 1e-5
        vh.close(got, want, 0, tol * (np.linalg.norm(want) + 1e-3 * np.linalg.norm(b) / pos.min()),
                 "solution (istop %d, %d iterations)" % (istop, itn))
        assert solver.converged or not b.any() or istop == 6, "istop %d" % istop
    ctx.nontrivial(n > 2 and b.any())
    ctx.label("istop %d" % istop)
