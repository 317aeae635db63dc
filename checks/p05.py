"""P05: sampling to independent errors, and simulating over the range of the data."""
import random
from copy import deepcopy

import numpy as np

import mu
import vh
from p06 import load as opened

C = vh.Check(
    "P05",
    rule="A case is a generated set of match-up files, opened and sampled with a generated factor and maximum size (or "
         "simulated with a generated size). Non-trivial: a series with structured errors loses match-ups, or a factor "
         "below one drops some.",
    assumptions=["The sampler draws from Python's global random generator, which the case seeds.",
                 "Systematic uncertainties and additional variables are left out of a sample, as the sampler documents."],
    setup=lambda w: w.use_eiv(cython=True),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "net": mu.networks(max_sensors=3, max_series=3, max_m=3, max_M=14, types=(1, 2, 3, 4, 1)),
        "sf": st.one_of(st.just(1.0), st.floats(0.0, 1.0)), "n_max": st.one_of(st.just(100000), st.integers(1, 30)),
        "seed": st.integers(0, 1000), "less": st.integers(0, 2 ** 20)}).map(less)


def less(case):
    """Half of the time, a factor well between 0 and 1 and a maximum that reduces the sample further."""
    key, total = case.pop("less"), sum(s["M"] for s in case["net"]["series"])
    if key % 2:
        case["sf"] = float(vh.rng((key, "sf"), 1, 0.3, 0.95)[0])
        case["n_max"] = max(1, int(total * case["sf"] * vh.rng((key, "n"), 1, 0.3, 1.1 if key // 2 % 2 else 3.)[0]))
    return case


def structured_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "net": mu.networks(max_sensors=3, max_series=2, max_m=2, max_M=20, types=(3, 4, 3, 1), opt=False),
        "sf": st.one_of(st.just(1.0), st.floats(0.2, 1.0)), "n_max": st.just(100000), "seed": st.integers(0, 1000)})


def load(net):
    with vh.ws().tmp() as folder:
        models, paths = mu.write_all(net, folder)
        mup = vh.eiv(vh.MU + "matchupIO.MatchUpReader").open_matchup(paths)
        mu.describe(mup, models, len(models[0]["K"]))
        return models, mup


def windows(d, n, c):
    w = d["w"][d["w_matrix_use" + n][c] - 1]
    return [w[1][w[0][r]:w[0][r + 1]] for r in range(d["M"])]


def state(mup):
    """What a data set holds, copied."""
    out = {"idx": deepcopy(mup.idx), "a": np.array(mup.a)}
    for name in ["values", "ks", "time1", "time2"] + mu.OPT:
        v = getattr(mup, name)
        out[name] = None if v is None else np.array(v)
    for name in ("unc", "unck"):
        for i, u in enumerate(getattr(mup, name)):
            for k, v in vars(u).items():
                out["%s[%d].%s" % (name, i, k)] = np.array(v)
    for i, u in enumerate(mup.u_matrices):
        out["u %d" % i] = np.array(u)
    for i, w in enumerate(mup.w_matrices):
        out["w %d" % i] = w.toarray()
    return out


def unchanged(mup, before, what):
    after = state(mup)
    vh.equal(sorted(after), sorted(before), "parts of the " + what)
    for k, v in before.items():
        if isinstance(v, np.ndarray):
            assert v.shape == after[k].shape, "%s of the %s has changed" % (k, what)
            w = after[k]
            assert all(a == b or a != a and b != b for a, b in zip(v.ravel(), w.ravel())), "%s of the %s has changed" % (k, what)
        else:
            vh.equal(after[k], v, "%s of the %s" % (k, what))


def sample(case, ctx):
    models, mup = load(case["net"])
    before = state(mup)
    random.seed(case["seed"])
    op = vh.eiv(vh.MU + "matchupProcessing.sample2ind.Sample2Ind").Sample2Ind()
    out = op.run(mup, sf=case["sf"], n_sample_max=case["n_max"])
    total = sum(d["M"] for d in models)
    sf = case["sf"]
    if total * sf > case["n_max"]:
        sf = case["n_max"] / float(total)

    # The data that was sampled is left as it was.
    unchanged(mup, before, "sampled data")

    idx = out.idx
    for k in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
        vh.equal(list(idx[k]), list(mup.idx[k]), k)
    mu.same_sensors(out, mup, "sampled data")
    vh.equal(list(idx["cNm"]), [0] + list(np.cumsum(idx["Nm"])), "cNm")
    vh.equal([int(n) for n in idx["N_var"]], [int(idx["Nm"][m - 1]) for m in idx["n_mu"]], "N_var")
    vh.equal([int(n) for n in idx["idx"]], [0] + [int(n) for n in np.cumsum(idx["N_var"])], "idx")
    vh.equal((len(out.values), len(out.ks)), (int(idx["idx"][-1]), int(idx["cNm"][-1])), "sizes")
    assert idx["cNm"][-1] <= case["n_max"], "%d match-ups sampled, at most %d asked for" % (idx["cNm"][-1], case["n_max"])

    bl = mu.blocks(models)
    rows = []
    for i, d in enumerate(models):
        a, b = idx["cNm"][i], idx["cNm"][i + 1]
        ks = [float(k) for k in d["K"]]
        if len(set(ks)) != len(ks):
            return
        got = [float(k) for k in out.ks[a:b]]
        assert all(k in ks for k in got), "series %d: sampled K %r is not of the series" % (i, got)
        r = [ks.index(k) for k in got]
        assert len(set(r)) == len(r), "series %d: match-ups sampled twice: %r" % (i, r)
        rows.append(r)
        # Structured errors of sampled match-ups are independent: no column of any W is used twice.
        structured = [(n, c) for n in ("1", "2") for c, t in enumerate(d["uncertainty_type" + n]) if t > 2]
        wins = [windows(d, n, c) for n, c in structured]
        for w in wins:
            used = [col for k in r for col in w[k]]
            assert len(used) == len(set(used)), "series %d: match-ups %r share an error" % (i, r)
        # Both ways of a product that rounding may put below or on a whole number.
        least, allowed = int(d["M"] * sf - 1e-9), int(d["M"] * sf + 1e-9)
        assert len(r) <= allowed, "series %d: %d of %d match-ups, sampling factor %g" % (i, len(r), d["M"], sf)
        if not wins:
            assert len(r) >= least, "series %d: %d match-ups sampled, not %d" % (i, len(r), least)
        elif len(r) < least:
            for k in range(d["M"]):
                free = all(not set(w[k]) & set(c for q in r for c in w[q]) for w in wins)
                assert k in r or not free, "series %d: match-up %d is independent of those sampled, %r" % (i, k, r)
        ctx.nontrivial(0 < len(r) < d["M"])
        ctx.label("structured" if wins else "unstructured")
        vh.close(out.unck[i].uR, np.hypot(d["Kr"].astype(float), d["Ks"].astype(float))[r], 1e-6, 0, "K uncertainty")
        for n in ("1", "2"):
            vh.equal(list(getattr(out, "time" + n)[a:b]),
                     list(np.array(getattr(mup, "time" + n))[mup.idx["cNm"][i]:mup.idx["cNm"][i + 1]][r]), "time" + n)
        for name in mu.OPT:
            if getattr(mup, name) is None:
                assert getattr(out, name) is None, name
            else:
                vh.close(getattr(out, name)[a:b], getattr(mup, name)[mup.idx["cNm"][i]:mup.idx["cNm"][i + 1]][r], 0, 0,
                         name)
    for q, (i, n, c) in enumerate(bl):
        d, r = models[i], rows[i]
        what = "series %d X%s[:, %d]" % (i, n, c)
        vh.close(out.values[idx["idx"][q]:idx["idx"][q + 1]], d["X" + n][:, c].astype(np.float32)[r], 0, 0, what)
        vh.equal(int(out.unc[q].typeID), 1, what + " uncertainty type")
        if d["uncertainty_type" + n][c] < 3:
            vh.close(out.unc[q].uR, d["Ur" + n][:, c][r], 1e-6, 0, what + " uncertainty")
        else:
            w, u = windows(d, n, c), d["u"][d["u_matrix_use" + n][c] - 1]
            vh.close(out.unc[q].uR, [np.mean(u[w[k]] ** 2) ** 0.5 for k in r], 1e-6, 0, what + " uncertainty")


def larger_cases():
    """Many series, or covariates and matrices, or match-ups."""
    from hypothesis import strategies as st

    net = st.one_of(mu.larger(max_sensors=6, types=(3, 1, 2, 4), opt=False),
                    mu.networks(max_sensors=3, max_series=2, max_m=5, min_M=6, max_M=16, types=(3, 4), opt=False, groups=8))
    return st.fixed_dictionaries({"net": net, "sf": st.one_of(st.just(1.0), st.floats(0.2, 1.0)), "n_max": st.just(100000),
                                  "seed": st.integers(0, 1000)})


def many_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "net": mu.many(max_sensors=3, max_series=2, max_m=2, types=(1, 2, 3, 1), opt=False), "sf": st.just(1.0), "n_max": st.just(100000),
        "seed": st.integers(0, 1000), "less": st.integers(0, 2 ** 20)}).map(less)


C.prop("sample", cases, quick=250)(sample)
C.prop("sample structured", structured_cases, quick=250)(sample)
C.prop("sample larger", larger_cases, quick=120)(sample)
C.prop("sample many", many_cases, quick=25)(sample)


def random_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        "net": mu.networks(max_sensors=3, max_series=2, max_m=2, max_M=12, min_M=4, types=(1, 2, 3, 1), opt=False),
        "part": st.floats(0.3, 0.7), "seed": st.integers(0, 1000)})


@C.prop("any match-up", random_cases, quick=40)
def any_match_up(case, ctx):
    """The match-ups to keep, of those that are independent, are drawn at random: any may be."""
    # W matrices whose windows never meet, so that all match-ups are independent.
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    for i, d in enumerate(models):
        M = d["M"]
        for g in range(len(d["w"])):
            n = 1 + int(vh.uni((case["seed"], i, "n"), 1)[0] * 3)
            d["w"][g] = (np.arange(M + 1) * n, np.arange(M * n), vh.rng((case["seed"], i, g), M * n, 0.1, 1.))
        d["u"] = [vh.rng((case["seed"], i, g, "u"), M * n, 0.1, 1.) for g in range(len(d["u"]))]
    mup = opened(models)
    op = vh.eiv(vh.MU + "matchupProcessing.sample2ind.Sample2Ind").Sample2Ind()
    seen = [set() for _ in models]
    for k in range(60):
        random.seed(1000 * case["seed"] + k)
        out = op.run(mup, sf=case["part"])
        for i, n in enumerate(seen):
            a, b = out.idx["cNm"][i:i + 2]
            vh.equal(b - a, int(models[i]["M"] * case["part"]), "match-ups of series %d" % i)
            n.update(float(v) for v in out.ks[a:b])
    for i, d in enumerate(models):
        # Where one match-up is left out of 60 samples once in a million cases at most.
        n = int(d["M"] * case["part"])
        if (1 - n / float(d["M"])) ** 60 * d["M"] < 1e-6:
            vh.equal(len(seen[i]), len(set(float(v) for v in d["K"])), "match-ups of series %d that are ever sampled" % i)
            ctx.nontrivial(True)


def sim_cases():
    from hypothesis import strategies as st

    net = lambda types: st.one_of(mu.networks(max_sensors=3, max_series=3, max_m=3, max_M=9, types=types, opt=False),
                                  mu.networks(max_sensors=3, max_series=3, max_m=3, max_M=9, types=types, opt=False),
                                  mu.larger(max_sensors=6, types=types, opt=False))
    return st.fixed_dictionaries({
        "net": net((1, 2)), "n": st.one_of(st.integers(1, 40), st.integers(1, 300)), "verbose": st.booleans(),
        "scale": st.sampled_from([0, 0, 0, -4, 4])})


@C.prop("simulate", sim_cases, quick=200)
def simulate(case, ctx):
    models = [mu.expand(case["net"], i) for i in range(len(case["net"]["series"]))]
    for d in models:
        for v in ("X1", "X2", "K"):
            d[v] = d[v] * d[v].dtype.type(10. ** case["scale"])
    mup = opened(models)
    mu.describe(mup, models, len(models[0]["K"]))
    before = state(mup)
    op = vh.eiv(vh.MU + "matchupProcessing.simulate_matchup.SimulateMatchUp").SimulateMatchUp()
    out = op.run(mup, n_samples_mu=case["n"], verbose=case["verbose"])
    n = case["n"]
    unchanged(mup, before, "input")
    ctx.nontrivial(len(models) > 1 and n > 1)
    idx = out.idx
    for k in ("Im", "sensors", "sensor_ms", "n_sensor", "n_mu", "n_cov"):
        vh.equal(list(idx[k]), list(mup.idx[k]), k)
    bl = mu.blocks(models)
    mu.same_sensors(out, mup, "simulated data")
    vh.equal(list(idx["Nm"]), [n] * len(models), "Nm")
    vh.equal(list(idx["N_var"]), [n] * len(bl), "N_var")
    vh.equal(list(idx["cNm"]), [n * i for i in range(len(models) + 1)], "cNm")
    vh.equal(list(idx["idx"]), [n * i for i in range(len(bl) + 1)], "idx")

    def ramp(x, what, got):
        x = np.asarray(x, np.float32)
        lo, hi = float(x.min()), float(x.max())
        want = [lo + (hi - lo) * k / (n - 1) if n > 1 else lo for k in range(n)]
        vh.close(got, want, 1e-5, 1e-5 * max(abs(lo), abs(hi)), what)

    for q, (i, s, c) in enumerate(bl):
        ramp(models[i]["X" + s][:, c], "series %d X%s[:, %d]" % (i, s, c), out.values[n * q:n * (q + 1)])
    for i, d in enumerate(models):
        ramp(d["K"], "K of series %d" % i, out.ks[n * i:n * (i + 1)])
