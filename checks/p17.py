"""P17: the W matrix of rolling averages correlates match-ups through the scanlines they share."""
import numpy as np

import vh
from vh import rng, uni

C = vh.Check(
    "P17",
    rule="A case is a set of 1-25 match-up times near a grid of scanlines (any order, gaps, several on a scanline, passes up to a million scanlines apart), a scanline "
         "time, a kernel (a size, weights, or the width of the uncertainties) and uncertainties per value or one for all. "
         "Non-trivial: two match-ups that share some but not all scanlines.",
    assumptions=["Times are within 0.3 scanlines of the grid through the first; scanline times from 0.05 s.",
                 "Uncertainties are positive."],
    setup=lambda w: w.use_tools(),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "lines": st.lists(st.integers(-40, 40), min_size=1, max_size=25), "key": st.integers(0, 2 ** 20),
        "dt": st.sampled_from([0.05, 0.1, 1 / 6., 0.5, 1., 8 / 3., 6.4, 60.]), "t0": st.sampled_from([0., 1e6, 1.2e9]),
        "kernel": st.integers(1, 9), "how": st.sampled_from(["width", "size", "weights", "weights"]),
        "zero": st.sampled_from([False, False, False, True]),
        "far": st.sampled_from([0, 0, 0, 10 ** 3, 2 ** 15, 40000, 2 ** 16, 10 ** 6]),
        "u": st.sampled_from(["full", "full", "one"]), "same": st.booleans(), "scale": st.integers(-14, 6)})


@C.prop("matrix", cases, quick=1500)
def matrix(case, ctx):
    f = vh.tool("generate_w_matrices").generate_rolling_average_w_matrix
    key, n, dt, k = case["key"], len(case["lines"]), case["dt"], case["kernel"]
    # Some match-ups are of later passes.
    lines = np.array(case["lines"]) + case["far"] * (uni((key, "far"), n) * 4).astype(int)
    off = rng((key, "off"), n, -0.3, 0.3) * (0 if case["scale"] % 2 else 1)
    off[0] = 0.
    times = case["t0"] + dt * (lines + off)
    weights, kw = np.ones(k) / k, {}
    if case["how"] == "weights":
        weights = rng((key, "w"), k, 0.1, 1.)
        if case["zero"] and k > 1:
            weights[int(uni((key, "z"), 1)[0] * k)] = 0.
        weights = weights / weights.sum()
        kw["weights"] = weights.copy()
    # The values averaged at a scanline: the same whatever match-up they are given with, or not.
    first = lines - lines.min()
    seen = np.unique(first[:, None] + np.arange(k))
    per_line = rng((key, "u"), len(seen), 0.1, 2.) * 10. ** case["scale"]
    U = per_line[np.searchsorted(seen, first[:, None] + np.arange(k))]
    if not case["same"]:
        U = U * rng((key, "du"), U.shape, 0.9, 1.1)
    u = U
    if case["u"] == "one":
        u = float(per_line[0])
        U = np.full((n, k), u)
        if case["how"] != "weights":
            kw["kernel_size"] = k
    elif case["how"] == "size":
        kw["kernel_size"] = k
    keep = np.array(u), times.copy()
    W, got_u = f(times, dt, u, **kw)
    # Which scanline each column is.
    used = sorted(set(int(c + j) for c in first for j in range(k) if weights[j] != 0))
    want = np.zeros((n, len(used)))
    want_u = np.zeros(len(used))
    for i, c in enumerate(first):
        for j in range(k):
            if int(c + j) in used:
                q = used.index(int(c + j))
                want[i, q] += weights[j]
                want_u[q] = max(want_u[q], U[i, j])
    vh.equal(W.shape, want.shape, "shape of W")
    vh.close(W.toarray(), want, 1e-13, 0, "W")
    vh.close(np.asarray(got_u), want_u, 1e-13, 0, "uncertainties of scanlines")
    assert (W.indptr[0] == 0) and (np.diff(W.indptr) >= 0).all() and W.indices.max() == len(used) - 1, "indices of W"
    vh.close(np.array(u), keep[0], 0, 0, "uncertainties afterwards")
    vh.close(times, keep[1], 0, 0, "times afterwards")
    ctx.label(case["how"] + " " + case["u"])
    d = abs(first[:, None] - first[None, :])
    if ((d > 0) & (d < k)).any():
        ctx.nontrivial()
