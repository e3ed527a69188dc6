"""Numeric runs of the harnesses under mpirun (every rank runs this file)."""

import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

LIMIT = 12.0
_comm = None


def comm():
    global _comm
    if _comm is None:
        from mpi4py import MPI

        _comm = MPI.COMM_WORLD.Dup()  # apart from the traffic of the package
    return _comm


class RankError(Exception):
    pass


def spmd(body):
    w = comm()
    r = w.Get_rank()
    try:
        res = ("ok", body(r))
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}"
                           for f in reversed(tb[-4:]))
        res = ("exc", f"rank {r}: {type(e).__name__}: {e} at {where}")
        sys.stderr.write(res[1] + "\n")
    out = w.allgather(res)
    bad = [v for k, v in out if k == "exc"]
    if bad:
        raise RankError(bad[0])
    return [v for _, v in out]


def main():
    from symx import mpinum  # the copy the contexts use

    w = mpinum.comm()
    r = w.Get_rank()
    spec = json.loads(sys.stdin.read()) if r == 0 else None
    spec = w.bcast(spec, root=0)
    res = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    from symx import numworker, registry

    cases = {c.id: c for c in registry.load(spec["prop"])}
    for job in spec["jobs"]:

        def stuck(job=job):
            if r == 0:
                res.write(json.dumps(dict(
                    id=job["case"], job=job.get("n"), status="fail", checks=0,
                    assign=job.get("assign") or {}, seed=job.get("seed", 1),
                    failures=[dict(label="exception",
                                   detail="the ranks block each other")]))
                    + "\n")
                res.flush()
                time.sleep(1)
                from mpi4py import MPI

                MPI.COMM_WORLD.Abort(1)

        t = threading.Timer(LIMIT, stuck)
        t.daemon = True
        t.start()
        row = numworker.run(cases[job["case"]], job.get("assign"),
                            job.get("seed", 1))
        t.cancel()
        w.barrier()
        if r == 0:
            row["job"] = job.get("n")
            res.write(json.dumps(row, default=lambda o: float(o)) + "\n")
            res.flush()


if __name__ == "__main__":
    main()
