"""Run cases numerically on the unpatched code; JSON lines on stdout."""

import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = os.environ.get("MUYGPYS_SRC", "/repo/src")
sys.path.insert(0, SRC)


def run(case, assign, seed):
    from symx import ctx

    c = ctx.NumCtx(case.backend, assign, seed)
    status = "ok"
    try:
        case.fn(c, **case.params)
    except ctx.AssumeFailed:
        status = "assume"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        c.failures.append(ctx.Failure(
            "exception", f"{type(e).__name__}: {e} at " + " < ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}"
                for f in reversed(tb[-5:])), []))
    finally:
        from symx import stubs

        stubs.restore()
    if c.failures:
        status = "fail"
    return dict(
        id=case.id, status=status, checks=c.checks, assign=c.used, seed=seed,
        failures=[dict(label=f.label, detail=f.detail[:600])
                  for f in c.failures],
    )


def main():
    spec = json.loads(sys.stdin.read())
    res = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    from symx import registry

    cases = {c.id: c for c in registry.load(spec["prop"])}
    import faulthandler

    for job in spec["jobs"]:
        case = cases[job["case"]]
        r = run(case, job.get("assign"), job.get("seed", 1))
        r["job"] = job.get("n")
        res.write(json.dumps(r, default=lambda o: float(o)) + "\n")
        res.flush()


if __name__ == "__main__":
    main()
