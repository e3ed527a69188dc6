#!/opt/venv/bin/python
"""Decide one property:  check.py C01 [--tier quick|thorough]

Runs every harness case of the property symbolically on the code in /repo,
replays counterexamples on the unpatched code, cross-checks the encoding by
running the same harnesses numerically, writes evidence/<id>.json and exits
0 (held within the bounds), 1 (VIOLATION) or 2 (no verdict).
"""

import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
PYMPI = "/opt/venv-mpi/bin/python"
NPROC = int(os.environ.get("VERIF_JOBS", "7"))


def env_for(backend, ranks=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("MUYGPYS_") or k == "MUYGPYS_SRC"}
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["MUYGPYS_BACKEND"] = backend
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e.pop("PYTHONPATH", None)
    return e


def spawn(mod, spec, backend, timeout, ranks=None):
    if ranks and mod.endswith("numworker"):
        cmd = ["mpirun.openmpi", "--oversubscribe", "--bind-to", "none",
               "--allow-run-as-root", "-n", str(ranks), PYMPI,
               os.path.join(HERE, "symx", "mpinum.py")]
    else:
        cmd = [PY, os.path.join(HERE, "symx", mod.split(".")[-1] + ".py")]
    e = env_for(backend)
    if ranks and mod.endswith("numworker"):
        e.update(
            OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
            OMPI_MCA_btl="self,vader",
            OMPI_MCA_btl_vader_single_copy_mechanism="none",
            OMPI_MCA_plm="isolated", OMPI_MCA_rmaps_base_oversubscribe="1",
        )
    p = subprocess.Popen(
        cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=e, cwd=HERE, text=True,
        start_new_session=True,
    )
    try:
        out, err = p.communicate(json.dumps(spec), timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        err = (err or "") + f"\n[timed out after {timeout:.0f} s]"
    rows = []
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                rows.append(json.loads(line))
            except ValueError:
                pass
    return rows, err, p.returncode


class Pool:
    """Run jobs (callables) on a few threads."""

    def __init__(self, n):
        self.sem = threading.Semaphore(n)
        self.ts = []

    def go(self, f, *a):
        def run():
            with self.sem:
                f(*a)

        t = threading.Thread(target=run)
        t.start()
        self.ts.append(t)

    def wait(self):
        while self.ts:
            self.ts.pop().join()


def known(prop):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) case=(\S+) check=(\S+) (.*)",
                         line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def worst(kn, c, rows):
    """One failure to report, an unlisted one if there is any."""
    fs = [(x, f) for x in rows for f in x["failures"]]
    new = [t for t in fs if not any(
        k[0] == c.id and k[1] == tag(t[1]["label"]) for k in kn)]
    return (new or fs)[:1]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from symx import registry

    cases = registry.load(prop, tier)
    if a.only:
        cases = [c for c in cases if a.only in c.id]
    byid = {c.id: c for c in cases}
    total = 600.0 if tier == "quick" else 7200.0
    final = total + 240.0  # replays and second attempts end by then
    budget = 60.0 if tier == "quick" else 900.0
    results, errs = {}, []
    lock = threading.Lock()

    # symbolic workers: cases grouped by backend, dealt round-robin
    groups = {}
    for c in sorted(cases, key=lambda c: -c.opts.get("budget", 0)):
        groups.setdefault(c.backend, []).append(c.id)
    pool = Pool(NPROC)
    w = {b: len(ids) for b, ids in groups.items()}
    tot = sum(w.values())
    for b, ids in groups.items():
        k = max(1, min(len(ids), round((NPROC - 1) * len(ids) / max(tot, 1))))
        for i in range(k):
            chunk = ids[i::k]

            def job(chunk=chunk, b=b):
                rest = list(chunk)
                while rest:
                    left = total - (time.time() - t0)
                    if left < 5:
                        break
                    rows, err, rc = spawn(
                        "symx.worker",
                        dict(prop=prop, cases=rest, seed=seed, budget=budget,
                             end=t0 + total),
                        b, left + 30,
                    )
                    with lock:
                        for r in rows:
                            results[r["id"]] = r
                    done = {r["id"] for r in rows}
                    nrest = [x for x in rest if x not in done]
                    if not nrest:
                        break
                    with lock:
                        results[nrest[0]] = dict(
                            id=nrest[0], status="error", failures=[],
                            error="worker died: " + err[-800:], stats={},
                            functions=[], paths=0, checked=0, decisions=0,
                            domains=[], wall=0)
                    rest = nrest[1:]

            pool.go(job)

    # numeric validation of the encoding on the unpatched code
    vals = {}
    ngroups = {}
    for c in cases:
        n = c.opts.get("nval", 2)
        if n:
            ngroups.setdefault((c.backend, c.opts.get("ranks")), []).extend(
                dict(case=c.id, seed=seed * 1000 + k) for k in range(n))
    for (b, ranks), jobs in ngroups.items():
        k = 1 if ranks or len(jobs) < 40 else 2
        for i in range(k):

            def vjob(b=b, ranks=ranks, jobs=jobs[i::k]):
                rest = list(jobs)
                for n, j in enumerate(rest):
                    j["n"] = n
                while rest:
                    rows, err, rc = spawn(
                        "symx.numworker", dict(prop=prop, jobs=rest), b,
                        min(total, 300.0), ranks)
                    with lock:
                        for r in rows:
                            vals.setdefault(r["id"], []).append(r)
                    done = {r["job"] for r in rows}
                    nrest = [j for j in rest if j["n"] not in done]
                    if not nrest or len(nrest) == len(rest):
                        if nrest:
                            errs.append(
                                f"validation stopped at {nrest[0]['case']}: "
                                + err[-600:])
                            with lock:
                                vals.setdefault(nrest[0]["case"], []).append(
                                    dict(status="crash", failures=[], checks=0,
                                         assign={}, seed=nrest[0]["seed"]))
                        break
                    rest = nrest

            pool.go(vjob)
    pool.wait()

    # a case without verdict under the opaque encoding of inverse matrices is
    # tried again with exact inverses
    redo = [
        c for c in cases
        if results.get(c.id, {}).get("status") in ("fail", None)
        and any("[unknown]" in f["detail"]
                for f in results.get(c.id, {}).get("failures", []))
        and c.opts.get("linalg", "opaque") == "opaque"
    ]

    kn = known(prop)
    violations, inconclusive, notes = [], [], []
    todo = []
    for c in cases:
        r = results.get(c.id)
        if r is None:
            inconclusive.append((c.id, "no result"))
            continue
        v = vals.get(c.id, [])
        realfail = [x for x in v if x["status"] == "fail"]
        if realfail and r["status"] == "ok":
            # only the random draws disagree: believe them when it recurs
            # (a single draw may just be badly conditioned)
            rows, err, rc = spawn(
                "symx.numworker",
                dict(prop=prop, jobs=[
                    dict(case=c.id, seed=seed * 1000 + 100 + k, n=k)
                    for k in range(6)]), c.backend, 120.0,
                c.opts.get("ranks"))
            again = [x for x in rows if x["status"] == "fail"]
            if len(again) < 2:
                realfail = []
                notes.append(f"one numeric draw of {c.id} differed beyond "
                             "the tolerance and did not recur")
                v = [x for x in rows if x["status"] != "fail"]
        for x, f in worst(kn, c, realfail):
            violations.append((c, f["label"], f["detail"], x["assign"],
                               "numeric run of the unpatched code"))
        if r["status"] == "fail":
            if not realfail:
                todo.append((c, r))
        elif r["status"] == "error" and not realfail:
            inconclusive.append((c.id, r["error"]))
        if c.opts.get("nval", 2) and not realfail:
            good = [x for x in v if x["status"] == "ok" and x["checks"]]
            if not good and not any(x["status"] == "fail" for x in v) and (
                not c.opts.get("novac")
            ):
                inconclusive.append((c.id, "no numeric run reached a check"))
    # replay the solver's counterexamples on the unpatched code
    rep = Pool(NPROC)

    def do_replay(c, r):
        jobs = []
        for f in r["failures"]:
            for cand in f["cands"][:6]:
                jobs.append(dict(case=c.id, assign=cand, n=len(jobs),
                                 label=f["label"], detail=f["detail"]))
        rows, err = [], ""
        if jobs:
            rows, err, rc = spawn("symx.numworker",
                                  dict(prop=prop, jobs=jobs), c.backend,
                                  min(200.0, max(5.0, final + t0 -
                                                 time.time())),
                                  c.opts.get("ranks"))
        hits = worst(kn, c, [x for x in rows if x["status"] == "fail"])
        with lock:
            if hits:
                for x, f in hits:
                    violations.append((c, f["label"], f["detail"],
                                       x["assign"], "solver counterexample"))
            elif any("[unknown]" not in f["detail"] for f in r["failures"]) or (
                c not in redo
            ):
                inconclusive.append(
                    (c.id, "not reproduced: " + "; ".join(
                        f"{f['label']}: {f['detail']}"
                        for f in r["failures"])[:900] + " " + err[-300:]))
            else:
                redo2.append(c)

    redo2 = []
    for c, r in todo:
        rep.go(do_replay, c, r)
    rep.wait()

    def again(c):
        left = final + t0 - time.time()
        rows, err = [], "out of time"
        if left > 10:
            rows, err, rc = spawn(
                "symx.worker", dict(prop=prop, cases=[c.id], seed=seed,
                                    budget=min(budget, left - 5),
                                    linalg="exact"),
                c.backend, min(budget + 60, left))
        with lock:
            if rows and rows[0]["status"] == "ok":
                results[c.id] = rows[0]
            else:
                inconclusive.append((c.id, "no verdict: " + json.dumps(
                    (rows or [{}])[0].get("failures", err[-500:]))[:900]))

    new = [v for v in violations if not any(
        k[0] == v[0].id and k[1] == tag(v[1]) for k in kn)]
    for c in redo2:
        if new:  # the verdict is known
            inconclusive.append((c.id, "not tried with exact inverses"))
        else:
            rep.go(again, c)
    rep.wait()

    # report
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    nviol, shown, knownhits = 0, 0, []
    for c, label, detail, assign, how in violations:
        k = next((x for x in kn if x[0] == c.id and x[1] == tag(label)), None)
        if k:
            knownhits.append(k)
            print(f"KNOWN-FINDING: property={prop} {c.id} {label}: {k[2]}")
            continue
        nviol += 1
        h = hashlib.sha1((c.id + label).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(prop=prop, case=c.id, backend=c.backend,
                           ranks=c.opts.get("ranks"), assign=assign,
                           label=label, detail=detail, found_by=how,
                           replay_cmd=f"{PY} {HERE}/check.py {prop} --replay {path}"),
                      f, indent=1, default=str)
        if shown < 8:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {c.id} check {label}: {detail} ({how})")
            shown += 1
    for cid, why in inconclusive[:8]:
        print(f"INCONCLUSIVE property={prop} case={cid}: {why}")
    for e in errs[:4]:
        print("NOTE", e)

    st = {}
    for r in results.values():
        for k, v in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + v
    okvals = sum(1 for v in vals.values() for x in v if x["status"] == "ok")
    bad = {cid for cid, _ in inconclusive}
    doms = sorted({d for r in results.values() for d in r.get("domains", [])})
    samples = []
    for cid, v in list(vals.items())[:5]:
        for x in v[:1]:
            samples.append(dict(
                case=cid, checks=x["checks"], status=x["status"],
                inputs=dict(list(x["assign"].items())[:6])))
    if not samples:
        samples = [dict(case=c.id) for c in cases[:5]]
    meta = {}
    mpath = os.path.join(HERE, "props", "meta.json")
    if os.path.exists(mpath):
        meta = json.load(open(mpath)).get(prop, {})
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r.get("paths", 0) for r in results.values()),
            transitions=sum(r.get("decisions", 0) for r in results.values()),
            traces_validated_against_impl=okvals,
            samples=samples,
            cases=len(cases),
            cases_decided=len([c for c in cases if c.id not in bad]),
            assertions_checked=sum(r.get("checked", 0)
                                   for r in results.values()),
            queries=st.get("queries", 0),
            queries_unsat=st.get("unsat", 0),
            queries_sat=st.get("sat", 0),
            queries_unknown=st.get("unknown", 0),
            path_feasibility_queries=st.get("feas", 0),
            entries_equal_by_normal_form=st.get("normal_form", 0),
            identities_closed_by_solver=st.get("solver_identity", 0),
            identities_closed_by_normal_form_only=st.get(
                "normalised_only", 0),
            solver_s=round(st.get("solver_s", 0.0), 3),
            symbolic_inputs=sum(r.get("vars", 0) for r in results.values()),
            functions_encoded=sorted(
                {f for r in results.values() for f in r.get("functions", [])}),
            bounds=meta.get("bounds", "see the case list"),
            case_list=[c.id for c in cases],
            known_findings=len(knownhits),
            inconclusive=[f"{x}: {y}"[:300] for x, y in inconclusive],
            notes=notes,
        ),
        assumptions=meta.get("assumptions", []) + COMMON + [
            "definedness assumed on the explored paths: " + "; ".join(doms)
        ] if doms else meta.get("assumptions", []) + COMMON,
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for c in cases:
            r = results.get(c.id, {})
            print(f"  {r.get('status')} paths={r.get('paths')} "
                  f"checks={r.get('checked')} {r.get('wall', 0):.1f}s {c.id}")
    print(f"{prop} {tier}: {len(cases)} cases, "
          f"{ev['coverage']['states']} paths, {st.get('queries', 0)} queries "
          f"({st.get('solver_s', 0):.1f} s), {okvals} numeric runs, "
          f"{nviol} violations, {len(inconclusive)} inconclusive, "
          f"{ev['wall_s']} s")
    if nviol:
        return 1
    # no verdict when a large part of the cases stayed undecided; otherwise
    # the property held on everything explored (the rest is in the evidence)
    return 2 if len(bad) * 3 > len(cases) else 0


COMMON = [
    "floats are read as exact reals (rounding, overflow and NaN are outside "
    "the model); float literals are read as the simple rational or square "
    "root they denote",
    "kernel matrices plus noise are nonsingular; inverse matrices are opaque "
    "symmetric unknowns of the exact matrix entries unless a case says exact",
]


def tag(label):
    return re.sub(r"\s+", "_", label)


def replay(path):
    d = json.load(open(path))
    rows, err, rc = spawn(
        "symx.numworker",
        dict(prop=d["prop"], jobs=[dict(case=d["case"], assign=d["assign"],
                                        n=0)]),
        d["backend"], 300.0, d.get("ranks"))
    for r in rows:
        print(json.dumps(r, indent=1))
    if not rows:
        print(err[-2000:])
    return 1 if any(r["status"] == "fail" for r in rows) else 0


if __name__ == "__main__":
    sys.exit(main())
