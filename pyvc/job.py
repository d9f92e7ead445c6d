"""Worker entry points.

  python -m pyvc.job sym PROP NAME DEADLINE_S OUT.json   (instrumented code)
  python -m pyvc.job conc PROP                           (real code; JSON lines)
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.setrecursionlimit(3000)


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except (TypeError, ValueError):
        return repr(v)


def sym_main(prop, name, deadline, out):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from . import loader, core, hooks, values, nparr, spath, api  # noqa
    from . import frames  # noqa
    try:
        from . import mapping  # noqa
    except ImportError:
        pass
    loader.install()
    t0 = time.time()
    c = [x for x in api.load_contracts(prop) if x.name == name][0]
    doc = {"contract": c.key}
    try:
        for t in c.targets:
            api._resolve(t)
    except core.Unsupported as u:
        doc["unsupported"] = [[u.what, []]]
        doc["vcs"] = {}
        doc.update(paths=0, wall=time.time() - t0)
        json.dump(doc, open(out, "w"))
        return

    def run(ctx):
        vc = api.SymVC(ctx)
        if c.opts.get("branch_ms"):
            ctx.solver.set("timeout", c.opts["branch_ms"])
        try:
            c.fn(vc)
        finally:
            vc.close()
        return "|".join(vc.outcome_labels)

    if c.opts.get("prepare"):
        c.opts["prepare"]()
    res = core.explore(run, depth=c.opts.get("depth", 400),
                       max_paths=c.opts.get("max_paths", 6000),
                       deadline=t0 + deadline)
    agg = {}
    for v in res.vcs:
        a = agg.setdefault(v.name, {"proved": 0, "refuted": 0, "unknown": 0,
                                    "secs": 0.0, "backends": {}, "models": [],
                                    "detail": ""})
        a[v.status] += 1
        a["secs"] += v.secs
        a["backends"][v.backend] = a["backends"].get(v.backend, 0) + 1
        if v.status == "refuted":
            a["abstract"] = a.get("abstract", True) and getattr(
                v, "abstract", False)
        if v.status == "refuted" and len(a["models"]) < 4:
            a["models"].append(v.model)
            a["detail"] = a["detail"] or v.detail
        if v.status == "unknown":
            a["detail"] = a["detail"] or v.detail
    doc.update(
        vcs=agg, paths=res.paths, killed=res.killed,
        unsupported=[[str(w), len(t)] for w, t in res.unsupported[:5]],
        n_unsupported=len(res.unsupported),
        truncated=res.truncated, solver_secs=res.solver_secs,
        queries=res.queries, witnesses=[[l, w] for l, w in res.witnesses],
        assumed=sorted(res.assumed), outcomes=res.outcomes,
        undecided_branches=res.undecided_branches, wall=time.time() - t0,
        files=sorted(loader.LOADED.values()))
    with open(out, "w") as f:
        json.dump(doc, f, default=repr)


def constants(repo, targets):
    """(numbers, words) the code under contract mentions: inputs near them
    are tried more often"""
    import ast
    import re
    nums, words = set(), set()
    for t in targets:
        mod, _, qual = t.partition(":")
        base = os.path.join(repo, *mod.split("."))
        p = base + ".py" if os.path.isfile(base + ".py") else os.path.join(
            base, "__init__.py")
        try:
            with open(p, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        doc = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                doc.add(id(n.value))
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in doc:
                continue
            if type(n.value) is int:
                nums.add(n.value)
            elif isinstance(n.value, str):
                words.update(re.findall("[A-Z][A-Z0-9_]*", n.value))
    return sorted(nums), sorted(w for w in words if 1 < len(w) < 40)


class _Hang(Exception):
    pass


def _alarm(*_):
    raise _Hang()


def one(api, core, c, values, rng, cpu=20):
    vc = api.ConcreteVC(values, rng)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, c.opts.get("cpu", cpu))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.fn(vc)
        r = {"status": "ok"}
    except api.Violated as v:
        r = {"status": "violated", "obligation": v.name,
             "detail": str(v.detail)[:2000]}
    except api.Reject:
        r = {"status": "reject"}
    except core.Unsupported as u:
        r = {"status": "unsupported", "detail": u.what}
    except core.PathKill:
        r = {"status": "reject"}
    except _Hang:
        r = {"status": "violated", "obligation": "terminates",
             "detail": f"no result after {cpu} s of CPU time"}
    except Exception:
        r = {"status": "harness-error", "detail": traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        vc.close()
    r["values"] = {k: jsonable(v) for k, v in vc.used.items()}
    r["labels"] = "|".join(vc.outcome_labels)
    r["ensured"] = vc.ensured
    return r


def conc_main(prop):
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)            # code under test may print
    from . import core
    core.Ctx.cur = None
    from . import api
    repo = os.environ.get("PYVC_REPO", "/repo")
    sys.path.insert(0, repo)
    cs = {c.name: c for c in api.load_contracts(prop)}
    for line in sys.stdin:
        q = json.loads(line)
        c = cs[q["contract"]]
        if q["op"] == "replay":
            r = one(api, core, c, q["values"], None)
        else:
            rng = random.Random(f"{q['seed']}/{c.key}")
            api.ConcreteVC.numbers = constants(repo, c.targets)[0]
            t0 = time.time()
            n = bad = rej = ens = 0
            distinct = set()
            r = None
            err = None
            samples = []
            while time.time() - t0 < q["secs"] and n < q["max"]:
                n += 1
                o = one(api, core, c, {}, rng)
                ens += o["ensured"]
                if o["status"] == "violated":
                    r = o
                    break
                if o["status"] == "reject":
                    rej += 1
                elif o["status"] in ("harness-error", "unsupported"):
                    err = o["detail"]
                    bad += 1
                    if bad > 3:
                        break
                else:
                    if o["ensured"]:
                        distinct.add(json.dumps(o["values"], sort_keys=True,
                                                default=repr))
                    if len(samples) < 2:
                        samples.append(o["values"])
            d = {"evaluations": n, "rejected": rej, "ensured": ens,
                 "distinct": len(distinct), "error": err, "samples": samples}
            r = {**(r or {"status": "ok"}), "stats": d}
        real_out.write(json.dumps(r, default=repr) + "\n")
        real_out.flush()


if __name__ == "__main__":
    if sys.argv[1] == "sym":
        sym_main(sys.argv[2], sys.argv[3], float(sys.argv[4]), sys.argv[5])
    else:
        conc_main(sys.argv[2])
