#!/usr/bin/env python3
"""check.py PROPERTY            run one property's check (quick or thorough by
                               VERIF_TIER), write evidence/PROPERTY.json
check.py --replay FILE         re-run a replay file against the real code"""
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("PYVC_PYTHON", "/opt/venv/bin/python")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("PYVC_JOBS", "8"))

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")
if THOROUGH:
    ENV.setdefault("PYVC_VC_MS", "60000")
    ENV.setdefault("PYVC_BRANCH_MS", "8000")


class Worker:
    """Clean process running the uninstrumented code."""

    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def _start(self):
        self.p = subprocess.Popen(
            [PY, "-m", "pyvc.job", "conc", self.prop], cwd=ROOT, env=ENV,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)

    def ask(self, q, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self._start()
        res = []

        def rd():
            res.append(self.p.stdout.readline())
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return {"status": "worker-died"}
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive() or not res or not res[0]:
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"status": "worker-died"}
        return json.loads(res[0])

    def close(self):
        if self.p is not None and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()


def list_contracts(prop):
    code = ("import sys,json;sys.path.insert(0,%r);from pyvc import api;"
            "print(json.dumps([dict(name=c.name,key=c.key,targets=c.targets,"
            "bounded=c.bounded,doc=c.doc,opts={k:v for k,v in c.opts.items() "
            "if isinstance(v,(int,float,str,bool))}) "
            "for c in api.load_contracts(%r)]))" % (ROOT, prop))
    r = subprocess.run([PY, "-c", code], cwd=ROOT, env=ENV,
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        raise SystemExit(3)
    return json.loads(r.stdout.strip().split("\n")[-1])


def run_sym(c, prop, deadline, tmp):
    out = os.path.join(tmp, c["name"] + ".json")
    log = os.path.join(tmp, c["name"] + ".log")
    with open(log, "w") as lf:
        p = subprocess.Popen([PY, "-m", "pyvc.job", "sym", prop, c["name"],
                              str(deadline), out], cwd=ROOT, env=ENV,
                             stdout=lf, stderr=lf)
        try:
            p.wait(deadline + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except ValueError:
            pass
    tail = open(log).read()[-1500:]
    return {"contract": c["key"], "vcs": {}, "paths": 0, "wall": deadline,
            "unsupported": [["engine stopped: " + tail, 0]],
            "n_unsupported": 1, "solver_secs": 0, "queries": 0,
            "witnesses": [], "assumed": [], "outcomes": {}}


def pmap(f, xs, n):
    q = queue.Queue()
    out = [None] * len(xs)
    for i, x in enumerate(xs):
        q.put((i, x))

    def w():
        while True:
            try:
                i, x = q.get_nowait()
            except queue.Empty:
                return
            out[i] = f(x)
    ts = [threading.Thread(target=w) for _ in range(min(n, len(xs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def main(prop):
    t0 = time.time()
    contracts = list_contracts(prop)
    only = os.environ.get("PYVC_ONLY")
    if only:
        contracts = [c for c in contracts if c["name"] in only.split(",")]
    tmp = tempfile.mkdtemp(prefix="pyvc_run_")
    try:
        return _main(prop, contracts, tmp, t0)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def triage(c, sym, prop):
    """Concrete phase for one contract: replays, witness cross-check, bounded
    search.  Returns (violations, info)."""
    w = Worker(prop)
    info = {"replayed_witnesses": 0, "witness_mismatch": [],
            "counterexamples_replayed": 0}
    viol = []
    try:
        proved_all = sym is not None
        if sym is not None:
            for name, a in sym["vcs"].items():
                if a["refuted"] or a["unknown"]:
                    proved_all = False
            if sym.get("n_unsupported") or sym.get("unsupported") or \
                    sym.get("truncated"):
                proved_all = False
            for name, a in sym["vcs"].items():
                if not a["refuted"]:
                    continue
                hit = None
                for m in a["models"]:
                    if m is None:
                        continue
                    r = w.ask({"op": "replay", "contract": c["name"],
                               "values": m})
                    info["counterexamples_replayed"] += 1
                    if r["status"] == "violated":
                        hit = r
                        break
                viol.append({"obligation": name, "detail": a["detail"],
                             "models": a["models"], "hit": hit,
                             "abstract": a.get("abstract", False)})
            for label, m in sym.get("witnesses", []):
                r = w.ask({"op": "replay", "contract": c["name"], "values": m})
                if r["status"] == "violated":
                    viol.append({"obligation": r["obligation"],
                                 "detail": "path witness", "models": [m],
                                 "hit": r})
                    break
                if r["status"] == "ok":
                    info["replayed_witnesses"] += 1
                    if r["labels"] != label:
                        info["witness_mismatch"].append(
                            [label, r["labels"], m])
                elif r["status"] != "reject":
                    info.setdefault("witness_errors", []).append(
                        [r["status"], str(r.get("detail"))[:300]])
        nohit = any(v["hit"] is None for v in viol)
        if c["opts"].get("random", True) and not any(
                v["hit"] for v in viol):
            secs = c["opts"].get("secs", 6 if proved_all else 20)
            if nohit:
                secs = max(secs, 30)
            if THOROUGH:
                secs *= 6
            r = w.ask({"op": "random", "contract": c["name"], "seed": SEED,
                       "secs": secs, "max": 10 ** 9}, timeout=secs + 120)
            info["random"] = r.get("stats", {"error": r["status"]})
            if r["status"] == "violated":
                viol.append({"obligation": r["obligation"],
                             "detail": "bounded search", "models": [],
                             "hit": r})
        # a counter-model that relies on an over-approximated library call and
        # does not fail on the real code decides nothing
        info["spurious"] = [v["obligation"] for v in viol
                            if v["hit"] is None and v.get("abstract")]
        viol = [v for v in viol if v["hit"] or not v.get("abstract")]
        info["proved_all"] = proved_all and not viol
    finally:
        w.close()
    return viol, info


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def _main(prop, contracts, tmp, t0):
    dl = 500 if THOROUGH else 180

    def job(c):
        sym = None
        if not (c["bounded"] or "").startswith("concrete"):
            sym = run_sym(c, prop, c["opts"].get("deadline", dl), tmp)
        v, info = triage(c, sym, prop)
        return c, sym, v, info

    order = sorted(contracts, key=lambda c: -c["opts"].get("weight", 1))
    outs = pmap(job, order, JOBS)
    return report(prop, outs, t0)


def report(prop, outs, t0):
    known = [k for k in load_known() if k.get("property") == prop
             and not k.get("fixed")]
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    nviol = 0
    obligations = discharged = 0
    functions, assumed, bounded, undecided, items = [], set(), [], [], []
    solver_secs, b_proved = 0.0, 0
    backends = {}
    evals = distinct = 0
    samples = []
    printed = set()
    crosschecked = 0
    for c, sym, viol, info in outs:
        item = {"contract": c["name"], "targets": c["targets"],
                "statement": c["doc"], "bounded": c["bounded"]}
        if sym is not None:
            st = {}
            for name, a in sym["vcs"].items():
                n = a["proved"] + a["refuted"] + a["unknown"]
                if not c["bounded"]:
                    obligations += n
                    discharged += a["proved"]
                st[name] = {k: a[k] for k in ("proved", "refuted", "unknown")}
                for b, k in a["backends"].items():
                    backends[b] = backends.get(b, 0) + k
                if a["unknown"]:
                    undecided.append(f"{c['name']}/{name}: solver unknown on "
                                     f"{a['unknown']} path(s)")
            undecided += [f"{c['name']}/{x}: refuted only with an abstracted "
                          "library call" for x in info.get("spurious", [])]
            solver_secs += sym.get("solver_secs", 0)
            assumed |= set(sym.get("assumed", []))
            for wmsg, _ in sym.get("unsupported", []):
                undecided.append(f"{c['name']}: outside the verified subset: "
                                 f"{wmsg[-300:]}")
                if not c["bounded"]:
                    obligations += 1
            if c["bounded"]:
                b_proved += sum(a["proved"] for a in sym["vcs"].values())
            if sym.get("truncated"):
                undecided.append(f"{c['name']}: path exploration cut off")
                if not c["bounded"]:
                    obligations += 1
            if not sym["vcs"] and not sym.get("unsupported"):
                undecided.append(f"{c['name']}: no obligation generated")
                obligations += 1
            item.update(obligations=st, paths=sym.get("paths"),
                        outcomes=sym.get("outcomes"),
                        solver_secs=round(sym.get("solver_secs", 0), 2),
                        wall=round(sym.get("wall", 0), 2))
            complete = (not sym.get("unsupported")
                        and not sym.get("truncated") and all(
                            not a["refuted"] and not a["unknown"]
                            for a in sym["vcs"].values()) and sym["vcs"])
            if complete and not c["bounded"]:
                functions += [t for t in c["targets"] if t not in functions]
            elif not c["bounded"]:
                bounded.append(f"{c['name']}: fell back to random search of "
                               "the same contract")
        if c["bounded"]:
            bounded.append(f"{c['name']}: {c['bounded']}")
        rs = info.get("random") or {}
        evals += rs.get("evaluations", 0)
        distinct += rs.get("distinct", 0)
        crosschecked += info.get("replayed_witnesses", 0)
        samples += [{"contract": c["name"], "input": s}
                    for s in rs.get("samples", [])[:1]]
        item["concrete"] = {**info, "random": {
            k: v for k, v in rs.items() if k != "samples"}}
        items.append(item)
        for v in viol:
            hit = v["hit"]
            ob = f"{c['name']}/{v['obligation']}"
            if hit is None and any(x["hit"] for x in viol):
                continue
            kf = match_known(known, c, v)
            if kf:
                line = f"KNOWN-FINDING: property={prop} {kf['what']}"
                if line not in printed:
                    print(line)
                    printed.add(line)
                continue
            if ob in printed:
                continue
            printed.add(ob)
            nviol += 1
            path = os.path.join("replays", f"{prop}.{c['name']}.{nviol}.json")
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump({"property": prop, "contract": c["name"],
                           "targets": c["targets"], "obligation": ob,
                           "statement": c["doc"],
                           "values": hit["values"] if hit else None,
                           "failure": hit["detail"] if hit else None,
                           "verifier_output": {
                               "unprovable": v["detail"],
                               "counter_models": v["models"]},
                           "rerun": f"python3 check.py --replay {path}"},
                          f, indent=1, default=repr)
            print(f"obligation {ob} failed ({c['targets'][0] if c['targets'] else prop})"
                  + (f": {hit['detail'][:400]} input={json.dumps(hit['values'])[:600]}"
                     if hit else ""))
            print(f"VIOLATION property={prop} replay={path}"
                  + ("" if hit else " no-failing-input-found"))
        for e in (rs.get("error"),):
            if e:
                undecided.append(f"{c['name']}: bounded search error: "
                                 f"{str(e)[-300:]}")
    level, note = claimed(prop)
    ev = {
        "property": prop, "tier": "thorough" if THOROUGH else "quick",
        "seed": SEED, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"python3 check.py {prop}",
            "trusted_base": [
                "pyvc (/verif/pyvc): AST instrumentation, symbolic execution "
                "and library models", "z3 5.3.2, cvc5 1.1.2",
                "CPython 3.12 and the assumed contracts listed in "
                "assumptions"],
            "functions_under_contract": functions,
            "backends": backends, "solver_seconds": round(solver_secs, 2),
            "bounded_stand_ins": bounded,
            "bounded_obligations_discharged": b_proved,
            **({"explanation": note} if level == "other" else {}),
            "undecided": undecided,
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "random search over each contract's inputs on the real "
                    "code; non-trivial: the precondition held and at least "
                    "one postcondition was evaluated",
            "samples": samples[:6],
            "path_witnesses_replayed_on_real_code": crosschecked,
            "contracts": items,
        },
        "assumptions": sorted(assumed) + [
            "Python ints are mathematical (exact in CPython); floats are "
            "idealised as reals in symbolic mode",
            "functions not listed in functions_under_contract are unverified "
            "or checked by the bounded stand-ins only"],
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print(f"{prop}: {discharged}/{obligations} obligations discharged, "
          f"{evals} concrete evaluations, {len(undecided)} undecided, "
          f"{nviol} violations, {ev['wall_s']} s")
    for u in list(dict.fromkeys(undecided))[:12]:
        print("  undecided:", u[:500])
    for c, sym, viol, info in outs:
        for mm in info["witness_mismatch"][:2]:
            print("  cross-check mismatch:", c["name"], mm)
        for mm in info.get("witness_errors", [])[:2]:
            print("  cross-check error:", c["name"], mm)
    return 1 if nviol else 0


def claimed(prop):
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"], c["level_note"]
    return "proof", ""


def match_known(known, c, v):
    for k in known:
        if k["contract"] != c["name"]:
            continue
        if k.get("obligation") and k["obligation"] != v["obligation"]:
            continue
        if v["hit"] is None:
            continue
        vals = v["hit"]["values"]
        if all(vals.get(a) == b for a, b in k.get("input", {}).items()):
            return k
    return None


def replay(path):
    d = json.load(open(path))
    if d["values"] is None:
        print("no failing input was found; verifier output:")
        print(json.dumps(d["verifier_output"], indent=1))
        return 1
    w = Worker(d["property"])
    r = w.ask({"op": "replay", "contract": d["contract"],
               "values": d["values"]})
    w.close()
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "violated" else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
