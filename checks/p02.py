"""P02: the uncertainty information of an opened data set is the one of the files."""
import numpy as np

import mu
import vh
from p01 import opened

TYPES = {1: "independent", 2: "independent + systematic", 3: "structured", 4: "structured + systematic"}

C = vh.Check(
    "P02",
    rule="A case is a generated set of match-up files with all four uncertainty types, W matrices and u vectors shared "
         "between covariates in any pattern and numbered in any order. Non-trivial: at least two structured covariates, or "
         "a systematic effect that occurs in at least two series.",
    assumptions=["The systematic uncertainty of a covariate that has structured errors as well is the same for all match-ups of a series.",
                 "The last column of a W matrix is used, so that its width is the length of its u vector (the input "
                 "checker demands it)."],
    setup=lambda w: w.use_eiv(),
)


def cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(opt=False), "form": st.sampled_from(["list", "dir"])})


def structured_cases():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.networks(opt=False, types=(3, 4, 3, 1), max_series=3),
                                  "form": st.sampled_from(["list", "dir"])})


def rows(w):
    return np.repeat(np.arange(len(w[0]) - 1), np.diff(w[0]))


def dense(w, ncol):
    a = np.zeros((len(w[0]) - 1, ncol))
    np.add.at(a, (rows(w), w[1]), w[2])
    return a


def check(case, ctx):
    with vh.ws().tmp() as folder:
        models, mup = opened(case["net"], ctx, folder, case["form"])
    bl = mu.blocks(models)
    vh.equal(len(mup.unc), len(bl), "number of uncertainties")
    instances, where = [], {}
    sys_i = {}
    n_struct = 0
    for (i, n, c), u in zip(bl, mup.unc):
        d = models[i]
        t = int(d["uncertainty_type" + n][c])
        what = "file %d X%s[:, %d]" % (i, n, c)
        vh.equal(int(u.typeID), t, what + " type")
        vh.equal(u.type, TYPES[t], what + " name of type")
        M = d["M"]
        if t in (1, 2):
            vh.close(u.uR, d["Ur" + n][:, c], 1e-12, 0, what + " uR")
        if t == 2:
            vh.close(np.ravel(u.uS) * np.ones(M), d["Us" + n][:, c], 1e-12, 0, what + " uS")
        if t == 4:
            vh.equal(np.size(u.uS), 1, what + " uS size")
            vh.close(float(u.uS), d["Us" + n][0, c], 1e-12, 0, what + " uS")
        if t in (3, 4):
            n_struct += 1
            iw, iu = int(d["w_matrix_use" + n][c]), int(d["u_matrix_use" + n][c])
            W, U = mup.w_matrices[u.w_i], mup.u_matrices[u.u_i]
            vh.close(U, d["u"][iu - 1], 1e-12, 0, what + " u vector")
            vh.equal(tuple(W.shape), (M, len(U)), what + " shape of W")
            if M * len(U) < 1e7:
                vh.close(W.toarray(), dense(d["w"][iw - 1], len(U)), 1e-12, 0, what + " W")
            else:
                from scipy.sparse import coo_matrix

                want = coo_matrix((d["w"][iw - 1][2], (rows(d["w"][iw - 1]), d["w"][iw - 1][1])), shape=W.shape)
                assert abs(W - want.tocsr()).max() < 1e-12, what + " W"
            # One matrix of the file is one matrix of the object.
            for tag, num, got in (("w", iw, u.w_i), ("u", iu, u.u_i)):
                vh.equal(where.setdefault((tag, i, num), got), got, what + " place of " + tag)
        if t in (2, 4):
            key = (d["name" + n], c)
            if key not in instances:
                instances.append(key)
            vh.equal(int(u.uS_i), instances.index(key) + 1, what + " systematic effect number")
            sys_i.setdefault(key, set()).add(i)
    used = {tag: [k for k in where if k[0] == tag] for tag in ("w", "u")}
    for tag, mats in (("w", mup.w_matrices), ("u", mup.u_matrices)):
        vh.equal(len(mats), len(used[tag]), "number of %s matrices" % tag)
        vh.equal(len(set(where[k] for k in used[tag])), len(used[tag]), "distinct places of %s matrices" % tag)
    vh.equal(len(mup.unck), len(models), "number of K uncertainties")
    for d, u in zip(models, mup.unck):
        vh.equal(int(u.typeID), 1, "K uncertainty type")
        vh.close(u.uR, np.hypot(d["Kr"].astype(float), d["Ks"].astype(float)), 1e-6, 0, "K uncertainty")
    ctx.nontrivial(n_struct > 1 or any(len(v) > 1 for v in sys_i.values()))
    ctx.label(*(["shared matrix"] if len(used["w"]) < n_struct else []))
    ctx.label(*(["shared systematic effect"] if any(len(v) > 1 for v in sys_i.values()) else []))


C.prop("all types", cases, quick=220)(check)
C.prop("structured", structured_cases, quick=220)(check)


def long():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": st.one_of(mu.networks(opt=False, min_series=8, max_series=14, max_M=4, max_m=3),
                                                   mu.networks(opt=False, max_series=3, max_M=4, max_m=14),
                                                   mu.networks(opt=False, max_series=2, max_M=4, max_m=14, groups=9, types=(3, 4, 3, 1))), "form": st.sampled_from(["list", "dir"])})


def large():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({"net": mu.many(opt=False, types=(3, 4, 3, 1), max_series=2), "form": st.sampled_from(["list", "dir"])})


C.prop("many series or covariates", long, quick=40)(check)
BIG = {"form": "list", "net": {"sensors": [{"name": "m02", "m": 2}, {"name": "n19", "m": 3}], "series": [
    {"pair": [0, 1], "M": 12000, "key": 5, "t": [[1, 3], [3, 4, 2]], "g": [[0, 0, 0], [1, 0, 0], [2, 0, 1]], "wc": [500, 260, 33000], "rev": False,
     "opt": [], "add": [], "f4": False, "t0": 0}]}}
C.prop("many match-ups", large, quick=12, explicit=[BIG])(check)
