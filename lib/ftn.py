"""Runs the Fortran modules of harmonisation_meiv_demo (through /verif/fortran/driver.F90) on generated match-up files.

A case ("job") is plain JSON:

    {"net": a network of lib/mu.py with pairs (i < j), each once,
     "steps": subsetting step of each match-up, "sel": per sensor None or the columns selected (from 1),
     "r": per sensor the number of columns where none are selected, "common": bool, "log": log level,
     "base": 0 or 1 (first index of W matrices), "desc": bool (columns of W matrices in descending order),
     "gaps": bool (W matrices with gaps and empty rows), "bare": optional variables that files do not have}"""

import os
import subprocess

import numpy as np

import mu
import vh
from vh import rng, uni

f4 = np.float32


def jobs(max_sensors=4, max_m=4, max_M=9, types=(1, 2, 3, 4)):
    from hypothesis import strategies as st

    @st.composite
    def job(draw):
        net = draw(mu.networks(max_sensors=max_sensors, max_series=4, max_m=max_m, max_M=max_M, types=types))
        seen, series = set(), []
        for s in net["series"]:
            if s["pair"][0] > s["pair"][1]:
                s["pair"].reverse()
                s["t"].reverse()
            if tuple(s["pair"]) not in seen:
                seen.add(tuple(s["pair"]))
                series.append(s)
        net["series"] = series
        common = draw(st.booleans())
        sel, r = [], []
        for s in net["sensors"]:
            m = s["m"] if common else 2 * s["m"]
            sel.append(draw(st.one_of(st.none(), st.lists(st.integers(1, m), min_size=1, max_size=min(m, 6)))))
            r.append(draw(st.sampled_from(sorted({s["m"], m, max(1, s["m"] - 1)}))))
        return {"net": net, "sel": sel, "r": r, "common": common,
                "steps": [draw(st.sampled_from([1, 1, 2, 3, 5, 20])) for _ in series],
                "log": draw(st.sampled_from([4, 4, 1, 7])), "base": draw(st.integers(0, 1)), "desc": draw(st.booleans()),
                "gaps": draw(st.booleans()), "uuid": draw(st.booleans()),
                "bare": draw(st.lists(st.sampled_from(BARE), unique=True, max_size=3))}

    return job()


BARE = ["Ur1", "Ur2", "Us1", "Us2", "uncertainty_type1", "uncertainty_type2", "K", "Kr", "Ks"]
UUID = "9cab83ea-4f89-45d1-91ad-d9a17f225583"


def models(job):
    """The arrays of each file, as lib/mu.py describes them, with W matrices that have gaps where asked for."""
    res = []
    for i in range(len(job["net"]["series"])):
        d = mu.expand(job["net"], i)
        k = job["net"]["series"][i]["key"]
        if job["gaps"]:
            for q, (ptr, col, val) in enumerate(d["w"]):
                keep = uni((k, q, "gap"), len(col)) < 0.7
                keep[col == col.max()] = True
                at = np.repeat(np.arange(d["M"]), np.diff(ptr))
                d["w"][q] = (np.concatenate([[0], np.cumsum(np.bincount(at[keep], minlength=d["M"]))]), col[keep], val[keep])
        res.append(d)
    return res


def dense(w, n):
    ptr, col, val = w
    a = np.zeros((len(ptr) - 1, n))
    for i in range(len(ptr) - 1):
        a[i, col[ptr[i]:ptr[i + 1]]] = val[ptr[i]:ptr[i + 1]]
    return a


def stored(d, job):
    """The model with W matrices stored as the case says."""
    d = dict(d)
    ws = []
    for ptr, col, val in d["w"]:
        if job["desc"]:
            order = np.concatenate([np.arange(b - 1, a - 1, -1) for a, b in zip(ptr[:-1], ptr[1:])]).astype(int)
            col, val = col[order], val[order]
        ws.append((ptr + job["base"], col + job["base"], val))
    d["w"] = ws
    return d


def bare(d, job):
    """Optional variables that this file does not have: not those that its structured uncertainties need."""
    drop = list(job["bare"])
    for n in "12":
        if (d["uncertainty_type" + n] > 2).any() and "uncertainty_type" + n in drop:
            drop.remove("uncertainty_type" + n)
    return drop


def seen(d, drop):
    """What the file says, with the defaults of what it does not have, in single precision."""
    d = dict(d)
    for n in "12":
        for v, x in (("Ur", 0.), ("Us", 0.)):
            if v + n in drop:
                d[v + n] = np.zeros_like(d[v + n])
        if "uncertainty_type" + n in drop:
            d["uncertainty_type" + n] = np.ones_like(d["uncertainty_type" + n])
    for v, x in (("K", 0.), ("Kr", 1.), ("Ks", 0.)):
        if v in drop:
            d[v] = np.full_like(d[v], x)
    return d


def nml(name, items):
    lines = ["$" + name]
    for k, v in items:
        if isinstance(v, bool):
            v = "T" if v else "F"
        elif isinstance(v, str):
            v = '"%s"' % v
        elif isinstance(v, (list, tuple)):
            v = ", ".join(str(x) for x in v)
        lines.append("  %s = %s" % (k, v))
    return "\n".join(lines + ["/", ""])


def job_items(job, ms):
    net = job["net"]
    items = [("config_job_id", "J"), ("config_job_enable_covariance_common", job["common"]),
             ("config_job_sensor_count", len(net["sensors"])), ("config_job_matchup_count", len(ms)),
             ("config_job_matchup_dataset_path", "in/")]
    for i, s in enumerate(net["sensors"]):
        items.append(("config_job_sensor_names(%d)" % (i + 1), s["name"]))
        if job["sel"][i]:
            items.append(("config_job_sensor_columns(%d,:)" % (i + 1), job["sel"][i]))
            items.append(("config_job_sensor_columns_select(%d)" % (i + 1), True))
    for k, s in enumerate(net["series"]):
        items.append(("config_job_matchup(%d,:)" % (k + 1), [p + 1 for p in s["pair"]]))
        items.append(("config_job_matchup_datasets(%d)" % (k + 1), "%d.nc" % k))
        items.append(("config_job_matchup_names(%d)" % (k + 1), "pair %d" % k))
        items.append(("config_job_matchup_samplings(%d)" % (k + 1), job["steps"][k]))
    return items


def columns(job, s, m):
    """Columns (from 0) that sensor s has in the order it has them, of those of X and then of Us."""
    if job["sel"][s]:
        return [c - 1 for c in job["sel"][s]]
    return list(range(job["r"][s]))


def prepare(job, d, write=mu.write):
    """Writes all a run needs into folder d; returns the models and the commands."""
    ms = models(job)
    os.makedirs(os.path.join(d, "in"), exist_ok=True)
    for k, m in enumerate(ms):
        p = os.path.join(d, "in", "%d.nc" % k)
        write(stored(m, job), p, bare(m, job))
        if job["uuid"]:
            from netCDF4 import Dataset
            with Dataset(p, "a") as ds:
                ds.matchup_dataset_uuid = UUID
    with open(os.path.join(d, "run.nml"), "w") as f:
        f.write(nml("run", [("config_job", "the job.nml"), ("config_enable_log_level", job["log"])]))
    with open(os.path.join(d, "the job.nml"), "w") as f:
        f.write(nml("job", job_items(job, ms)))
    cmds = ["sensor %d 7 2 %d 0" % (i + 1, len(columns(job, i, s["m"]))) for i, s in enumerate(job["net"]["sensors"])]
    return ms, cmds


def run(d, commands, head="6500 25 325", ok=True, stdin="", env=None):
    """Runs the driver in folder d. Returns what it put out ({} where it stopped), its messages and its exit code."""
    with open(os.path.join(d, "commands.txt"), "w") as f:
        f.write("\n".join([head] + commands + [""]))
    out = os.path.join(d, "out.txt")
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run([vh.ws().build_driver()], cwd=d, env=dict(vh.ws().env(), GFORTRAN_ERROR_BACKTRACE="yn"[not ok], **(env or {})),
                       input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    text = p.stdout.decode(errors="replace")
    if ok and p.returncode:
        raise AssertionError("the program ended with %d: %s" % (p.returncode, text[-1500:]))
    return (parse(out) if p.returncode == 0 else {}), text, p.returncode


def parse(path):
    res = {}
    with open(path) as f:
        while True:
            head = f.readline()
            if not head:
                break
            body = f.readline().rstrip("\n")
            name, kind, n = head.split()
            if kind == "text":
                v = body.rstrip()
            else:
                v = np.array([int(x) if kind == "int" else float(x) for x in body.split()], int if kind == "int" else float)
                if kind == "single":
                    v = v.astype(f4).astype(float)
                vh.equal(len(v), int(n), "numbers put out for " + name)
            res.setdefault(name, []).append(v)
    assert "done" in res, "the program ended early"
    return {k: (v[0] if len(v) == 1 else v) for k, v in res.items()}
