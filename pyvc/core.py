"""Path-exploring symbolic execution core: decisions, solver, obligations."""
import os
import sys
import time

_Z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z not in sys.path:
    sys.path.append(_Z)
import z3  # noqa: E402


class Control(BaseException):
    """Engine control flow; never caught by verified code."""


class PathKill(Control):
    """This path is infeasible / finished."""


class Unsupported(Control):
    """The code left the verifier's subset."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Refuted(Control):
    pass


class Speculation(Control):
    """A decision would be needed while evaluating an operand ahead."""


BRANCH_TIMEOUT = int(os.environ.get("PYVC_BRANCH_MS", "2500"))
VC_TIMEOUT = int(os.environ.get("PYVC_VC_MS", "12000"))


class VC:
    __slots__ = ("name", "status", "model", "secs", "backend", "path", "detail",
                 "abstract")

    def __init__(self, name, status, model, secs, backend, path, detail=""):
        self.name, self.status, self.model = name, status, model
        self.secs, self.backend, self.path = secs, backend, path
        self.detail = detail


_VARS = {}


def _vars(e):
    """Names of the uninterpreted symbols in e."""
    i = e.get_id()
    if i in _VARS and _VARS[i][0].eq(e):
        return _VARS[i][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo += x.children()
    _VARS[i] = (e, frozenset(out))
    return _VARS[i][1]


class Ctx:
    """One path's execution context."""

    cur = None

    def __init__(self, prefix, limits):
        self.prefix = prefix
        self.trace = []           # decisions taken
        self.pending = []         # alternative prefixes discovered
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_TIMEOUT)
        self.pcs = []
        self.vcs = []
        self.fresh_n = 0
        self.inputs = {}          # name -> (kind, z3 expr)
        self.notes = []
        self.limits = limits
        self.solver_secs = 0.0
        self.queries = 0
        self.known = {}
        self.assumed = set()
        self.abstract = set()   # over-approximated library calls on this path
        self.stubs = {}
        self.invariants = {}
        self.undecided_branches = 0
        self.merge = False      # evaluate and/or without forking
        self.nofork = False

    def fresh(self, base="t"):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    def add(self, c):
        if z3.is_true(c):
            return
        self.pcs.append(c)
        self.solver.add(c)

    def _check(self, *cs):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*cs)
        self.solver_secs += time.time() - t
        return r

    def feasible(self, c):
        return self._check(c) != z3.unsat

    def must(self, c):
        """Is c implied by the path condition (False if unknown)?"""
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = ("must", c.get_id(), len(self.pcs))
        if k in self.known:
            return self.known[k][0]
        r = self._check(z3.Not(c)) == z3.unsat
        self.known[k] = (r, c)
        return r

    def must_about(self, c, e):
        """Is c implied by the facts about e's own variables alone?"""
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = ("about", c.get_id(), len(self.pcs))
        if k not in self.known:
            vs = _vars(e)
            sol = z3.Solver()
            sol.set("timeout", 3000)
            sol.add(*[p for p in self.pcs if _vars(p) <= vs])
            sol.add(z3.Not(c))
            t = time.time()
            self.known[k] = (sol.check() == z3.unsat, c)
            self.solver_secs += time.time() - t
            self.queries += 1
        return self.known[k][0]

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = ("br", c.get_id())
        if k in self.known:
            return self.known[k][0]
        if self.nofork:
            raise Speculation("decision")
        pos = len(self.trace)
        if pos >= self.limits["depth"]:
            raise Unsupported("decision depth limit (unbounded loop without "
                              "invariant?)")
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
        else:
            rt = self._check(c)
            rf = self._check(z3.Not(c))
            if rt == z3.unknown or rf == z3.unknown:
                self.undecided_branches += 1
            if rt == z3.unsat and rf == z3.unsat:
                raise PathKill("infeasible")
            if rt == z3.unsat:
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.pending.append(self.trace + [False])
            self.trace.append(d)
        cc = c if d else z3.Not(c)
        self.add(cc)
        self.known[k] = (d, c)
        nc = z3.simplify(z3.Not(c))
        self.known[("br", nc.get_id())] = (not d, nc)
        return d

    def choose(self, n, label="choice"):
        """Nondeterministic concrete choice in range(n) (forks n ways)."""
        if n <= 1:
            return 0
        v = z3.Int(self.fresh("ch_" + label))
        self.add(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    def assume(self, c):
        if self.nofork:
            raise Speculation("assumption")
        if isinstance(c, bool):
            if not c:
                raise PathKill("assume")
            return
        c = z3.simplify(c)
        if z3.is_false(c):
            raise PathKill("assume")
        if z3.is_true(c):
            return
        self.add(c)
        if len(self.trace) >= len(self.prefix):
            if self._check() == z3.unsat:
                raise PathKill("assume")

    # ---- obligations
    def obligation(self, name, c):
        """Record the obligation  pc => c."""
        from . import values as V
        if self.nofork:
            raise Speculation("obligation")
        c = V.to_bool_expr(c)
        if len(self.trace) < len(self.prefix):
            # This prefix was already covered by the path that forked here.
            self.assume_silent(c)
            return True
        t = time.time()
        s = z3.simplify(c)
        if z3.is_true(s):
            self.vcs.append(VC(name, "proved", None, 0.0, "simplify",
                               list(self.trace)))
            return True
        st, model, backend = self._prove(s)
        dt = time.time() - t
        v = VC(name, st, model, dt, backend, list(self.trace),
               "" if st == "proved" else str(s)[:600])
        v.abstract = bool(self.abstract)
        self.vcs.append(v)
        self.solver_secs += dt
        self.assume_silent(c)
        return st == "proved"

    def assume_silent(self, c):
        self.add(c)

    def _prove(self, s):
        from .poly import normalize_eqs
        s2 = normalize_eqs(s)
        if z3.is_true(s2):
            return "proved", None, "poly"
        sol = z3.Solver()
        sol.set("timeout", VC_TIMEOUT)
        sol.add(*self.pcs)
        sol.add(z3.Not(s2))
        r = sol.check()
        if r == z3.unsat:
            return "proved", None, "z3"
        if r == z3.sat:
            return "refuted", self.model_inputs(self._small(sol)), "z3"
        # second attempts
        for tac in ("qfnra-nlsat", "smt"):
            try:
                g = z3.Then("simplify", "propagate-values", "solve-eqs", tac
                            ).solver()
                g.set("timeout", VC_TIMEOUT)
                g.add(*self.pcs)
                g.add(z3.Not(s2))
                r = g.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return "proved", None, "z3:" + tac
            if r == z3.sat:
                try:
                    return "refuted", self.model_inputs(g.model()), "z3:" + tac
                except z3.Z3Exception:
                    pass
        r = _cvc5(self.pcs + [z3.Not(s2)])
        if r == "unsat":
            return "proved", None, "cvc5"
        return "unknown", None, "none"

    def _small(self, sol):
        """A model with small inputs if there is one."""
        m = sol.model()
        sol.set("timeout", 1500)
        for b in (4, 12, 64, 1000):
            sol.push()
            for kind, e in self.inputs.values():
                if kind == "int":
                    sol.add(e <= b, e >= -b)
                elif kind == "str":
                    sol.add(z3.Length(e) <= b)
            ok = sol.check() == z3.sat
            if ok:
                m = sol.model()
            sol.pop()
            if ok:
                break
        return m

    def model_inputs(self, m):
        out = {}
        for name, (kind, e) in self.inputs.items():
            if kind == "const":
                out[name] = e
                continue
            if kind == "name":
                s = e.concretise(m)
                if s is not None:
                    out[name] = s
                continue
            v = m.eval(e, model_completion=True)
            out[name] = decode(kind, v)
        return out

    def witness(self):
        """A model of the path condition, as input values (or None)."""
        sol = z3.Solver()
        sol.set("timeout", VC_TIMEOUT)
        sol.add(*self.pcs)
        if sol.check() != z3.sat:
            return None
        return self.model_inputs(self._small(sol))


def decode(kind, v):
    if kind == "int":
        return v.as_long()
    if kind == "bool":
        return z3.is_true(v)
    if kind == "real":
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return {"__frac__": [v.numerator_as_long(), v.denominator_as_long()]}
    if kind == "str":
        return _unescape(v.as_string())
    if kind == "bv":
        return v.as_long()
    raise ValueError(kind)


def _unescape(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)),
                  s)


def _cvc5(assertions):
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    if "str.<" in txt or "seq." in txt:
        pass
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2") as f:
            f.write(txt)
            f.flush()
            r = subprocess.run(
                ["cvc5", "--tlimit=%d" % VC_TIMEOUT, "--strings-exp", f.name],
                capture_output=True, text=True, timeout=VC_TIMEOUT / 1000 + 5)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "error"


class Result:
    def __init__(self):
        self.vcs = []
        self.paths = 0
        self.killed = 0
        self.unsupported = []
        self.solver_secs = 0.0
        self.queries = 0
        self.witnesses = []
        self.assumed = set()
        self.outcomes = {}
        self.truncated = False
        self.undecided_branches = 0
        self.covers = {}


def explore(run, depth=400, max_paths=4000, deadline=None, witnesses=3):
    """Explore every path of run(ctx).  run returns a short outcome label."""
    res = Result()
    stack = [[]]
    limits = {"depth": depth}
    while stack:
        if res.paths >= max_paths or (deadline and time.time() > deadline):
            res.truncated = True
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, limits)
        Ctx.cur = ctx
        label = None
        try:
            label = run(ctx)
            res.paths += 1
            ok = True
        except PathKill:
            res.killed += 1
            ok = False
        except Unsupported as u:
            res.unsupported.append((u.what, ctx.trace[:]))
            res.paths += 1
            ok = False
        except RecursionError:
            res.unsupported.append(("recursion limit", ctx.trace[:]))
            ok = False
        except Exception as ex:  # a slip of the harness, not of the code
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)
            res.unsupported.append(
                ("harness error %s: %s @ %s" % (type(ex).__name__, ex, tb[-1]),
                 ctx.trace[:]))
            ok = False
        finally:
            Ctx.cur = None
        if ok:
            res.outcomes[label] = res.outcomes.get(label, 0) + 1
            # keep witnesses spread over outcomes
            n = res.covers.get(label, 0)
            if n < witnesses and "any names" not in ctx.abstract:
                t = time.time()
                w = ctx.witness()
                res.solver_secs += time.time() - t
                if w is not None:
                    res.covers[label] = n + 1
                    res.witnesses.append((label, w))
        res.vcs.extend(ctx.vcs)
        res.solver_secs += ctx.solver_secs
        res.queries += ctx.queries
        res.assumed |= ctx.assumed
        res.undecided_branches += ctx.undecided_branches
        stack.extend(ctx.pending)
    return res
