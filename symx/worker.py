"""Run cases symbolically (one process); JSON lines on stdout."""

import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from symx import arr, core, ctx, explore, loader, registry  # noqa: E402


def run_case(case, seed, budget, linalg=None):
    backend = case.backend
    core.reset()
    arr.ENV.clear()
    core.LINALG["mode"] = linalg or case.opts.get("linalg", "opaque")
    ranks = case.opts.get("ranks")
    loader.unload()
    loader.install(
        backend=backend,
        torch=backend == "torch" or case.opts.get("torch", False),
        comm=ranks,
    )
    if ranks:
        from symx import mpishim

        mpishim.load_ranks(ranks, loader)
    else:
        loader.load()
    ex = explore.Explorer(
        seed=seed, max_paths=case.opts.get("max_paths", 400),
        timeout_ms=case.opts.get("timeout_ms", 6000),
    )
    ex.deadline = time.time() + budget
    out = dict(
        id=case.id, status="ok", paths=0, checked=0, decisions=0,
        failures=[], error=None, notes=[],
    )
    t0 = time.time()
    holder = {}

    def body():
        c = ctx.SymCtx(ex, backend)
        holder["c"] = c
        if case.opts.get("fresh"):
            loader.unload()
            loader.load()
        arr.ENV.clear()
        try:
            case.fn(c, **case.params)
        except ctx.Stop:
            pass
        except core.Infeasible:
            raise
        except core.PathLimit:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb]
            try:
                cands = c.candidates(lambda env: 1.0, None)
            except Exception:
                cands = []
            c.failures.append(ctx.Failure(
                "exception", f"{type(e).__name__}: {e} at "
                + " < ".join(reversed(where[-5:])), cands))
        return c

    domains = set()
    try:
        for status, _ in ex.explore(body):
            if status != "ok":
                continue
            c = holder["c"]
            out["paths"] += 1
            out["checked"] += c.checks
            out["decisions"] += len(ex.decisions)
            domains.update(ex.domains)
            for f in c.failures:
                out["failures"].append(
                    dict(label=f.label, detail=f.detail[:600], cands=f.cands))
            if len(out["failures"]) >= 3:
                break
    except core.PathLimit as e:
        out["error"] = f"limit: {e}"
    except Exception:
        out["error"] = traceback.format_exc()[-1500:]
    if out["failures"]:
        out["status"] = "fail"
    elif out["error"]:
        out["status"] = "error"
    elif not out["checked"]:
        out["status"] = "error"
        out["error"] = "no path reached a check"
    out["stats"] = dict(ex.stats)
    out["domains"] = sorted(domains)
    out["wall"] = time.time() - t0
    out["linalg"] = core.LINALG["mode"]
    out["vars"] = len(ex.vars)
    return out


def main():
    spec = json.loads(sys.stdin.read())
    cases = {c.id: c for c in registry.load(spec["prop"])}
    fns = loader.Functions()
    loader.real_stdout = sys.stdout
    res = os.fdopen(os.dup(1), "w")
    sys.stdout = open(os.devnull, "w")
    import warnings

    warnings.simplefilter("ignore")
    loader.preload()
    fns.start()
    for cid in spec["cases"]:
        line = forked(cases[cid], spec, fns)
        res.write(line + "\n")
        res.flush()


def forked(case, spec, fns):
    """Run one case in a child process with a wall-clock limit."""
    import select
    import signal

    budget = max(spec["budget"], case.opts.get("budget", 0))
    if spec.get("end"):
        budget = max(5.0, min(budget, spec["end"] - time.time()))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            row = run_case(case, spec["seed"], budget,
                           spec.get("linalg"))
            row["functions"] = sorted(fns.seen)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(row, default=_js))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b"", time.time() + budget * 1.3 + 10
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            buf = b""
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf and st == 0:
        return buf.decode()
    return json.dumps(dict(
        id=case.id, status="error", failures=[], stats={}, functions=[],
        paths=0, checked=0, decisions=0, domains=[],
        wall=budget, error="time limit" if time.time() >= end
        else f"worker ended with status {st}"))


def _js(o):
    try:
        return float(o)
    except Exception:
        return str(o)


if __name__ == "__main__":
    main()
