"""C13: loading parameters are resolved in order, each exactly once."""
from pyvc.api import contract, And, Or, Not, Implies

F = "pdr.func:"
W = "pdr.loaders.datawrap:"


class Boom(Exception):
    pass


class Tracker:
    def __init__(self):
        self.log = []

    def track(self, f, **k):
        self.log.append(f)

    def set_metadata(self, **k):
        pass

    def dump(self, *a, **k):
        pass


# ------------------------------------------------------------ the pipeline
def _softquery_all(vc):
    """any number of queries, any names, any supplied parameters"""
    from pyvc.core import z3, Ctx
    from pyvc.values import (SStr, mkbool, to_bool_expr, int_expr)
    from pyvc.names import (NameTable, NameDict, NameSet, Values, Fn, Answer,
                            env, S, B, I)
    from pyvc import hooks as H
    c = Ctx.cur
    c.abstract.add("any names")
    tr = vc.flag("has.tracker")
    tracker = Tracker()
    have = z3.Function("have", S, B)
    v0 = z3.Function("value", S, I)
    req = z3.Function("required", S, B)
    every = z3.Function("parameter", S, B)
    ans = z3.Function("answer", S, I)
    env().fact(lambda e: z3.Implies(req(e), every(e)))
    queries = NameTable(vc, "queries")
    env().fact(lambda e: ans(e) > 0)
    env().fact(lambda e: v0(e) > 0)
    T = z3.StringVal("tracker")
    c.assume(have(T) == z3.BoolVal(tr))
    c.assume(z3.Not(queries.has(T)))
    kw = NameDict(have, v0, {"tracker": tracker} if tr else {})
    func = Fn(z3.StringVal("the loader"))

    def needed(e):
        return z3.And(req(e), z3.Not(have(e)))

    def state_at(i):
        d = NameDict(lambda e: z3.Or(have(e), z3.And(
            queries.before(e, i), needed(e))),
            lambda e: z3.If(have(e), v0(e), ans(e)),
            {"tracker": tracker} if tr else {})
        return d
    calls, at = [], {}

    def all_argnames(*funcs, nonoptional=False):
        vc.ensure("parameters of the loader and of every query are collected",
                  any(f is func for f in funcs) and any(
                      isinstance(f, Values) and f.table is queries
                      for f in funcs))
        return NameSet((lambda e: req(e)) if nonoptional is True
                       else (lambda e: every(e)))

    def call(fn, *a, **k):
        if not isinstance(fn, Fn) or a or set(k) != {"**"}:
            from pyvc.core import Unsupported
            raise Unsupported("query called in another way")
        calls.append(fn)
        if "i" not in at:
            vc.ensure("queries are answered in the loop", False)
        vc.ensure("the query answered is the one of that name",
                  mkbool(fn.e == at["name"]))
        vc.ensure("only missing, required parameters are queried",
                  mkbool(needed(fn.e)))
        p = env().point(z3.String(c.fresh("any")))
        vc.ensure("a query sees what was supplied and every earlier answer",
                  k["**"].agrees(state_at(at["i"]), p))
        if vc.flag("fails"):
            raise Boom()
        return Answer(ans(fn.e))

    class Inv(H.Invariant):
        def __init__(self):
            self.state = None

        def run(self, seq, frame, name, sets=()):
            c.assumed.add(f"loop {name}: inductive invariant (checked)")
            entry = dict(frame.f_locals)
            dicts = {id(x): x for x in entry.values()
                     if isinstance(x, NameDict)}
            if len(dicts) != 1:
                raise H.Unsupported("the dictionary of parameters")
            d = next(iter(dicts.values()))
            new = {k: v for k, v in entry.items() if v is d}
            n = seq.length()

            def check(i, what):
                p = env().point(z3.String(c.fresh("any")))
                c.obligation(f"inv-{what}:{name}", d.agrees(state_at(i), p))

            def enter(i):
                s = state_at(i)
                d._keys, d._vals, d.objects = s._keys, s._vals, s.objects
            check(0, "init")
            vc.ensure("no query is answered before its turn", not calls)
            if c.branch(z3.Bool(c.fresh("loopiter"))):
                i = H.mkint(z3.Int(c.fresh("i")))
                c.assume(to_bool_expr(And(i >= 0, i < n)))
                enter(i)
                keep = H._frame_state(entry, new)
                x = seq.elem(i)
                at["i"], at["name"] = i, x.e
                yield x
                H._frame_check(frame, entry, new, keep, name)
                vc.ensure("exactly once if needed, never otherwise",
                          mkbool(z3.If(needed(x.e), z3.BoolVal(
                              len(calls) == 1), z3.BoolVal(not calls))))
                check(i + 1, "step")
                raise H.PathKill("inductive step done")
            enter(n)

    vc.stub(F + "get_all_argnames", all_argnames, "contract argnames")
    vc.stub(F + "call_kwargfiltered", call, "contract kwargs")
    vc.invariant("softquery", 0, Inv())
    o = vc.run(vc.f(F + "softquery"), func, queries, kw)
    e = env().point(z3.String("some name"))
    gap = z3.And(needed(e), z3.Not(queries.has(e)))
    if not o.ok:
        if isinstance(o.exc, Boom):
            vc.ensure("a failing query is not answered again",
                      len(calls) == 1)
            return
        vc.ensure("an unsatisfiable requirement is a TypeError",
                  isinstance(o.exc, TypeError))
        # the witness: the members found by the code's own test
        vc.ensure("and only that is", mkbool(z3.Or(*[z3.And(
            needed(p), z3.Not(queries.has(p))) for p in env().points])))
        vc.ensure("found before any query is answered", not calls)
        return
    vc.ensure("every requirement can be satisfied", mkbool(z3.Not(gap)))
    r = o.value
    vc.ensure("a dictionary of parameters", isinstance(r, NameDict))
    vc.ensure("supplied parameters are never overridden", mkbool(z3.Implies(
        have(e), z3.And(r._keys(e), r._vals(e) == v0(e)))))
    vc.ensure("each required parameter has its query's answer", mkbool(
        z3.Implies(needed(e), z3.And(r._keys(e), r._vals(e) == ans(e)))))
    vc.ensure("nothing else is added", mkbool(z3.Implies(
        r._keys(e), z3.Or(have(e), needed(e)))))


KINDS = [("", True), (": int", True), ("=5", True), (": int = 5", True),
         (": Optional[int] = None", False), (": int | None = None", False),
         (": None | int = None", False), (": Optional[dict[str, int]] = None",
                                          False),
         (": 'Optional[int]' = None", False), (": dict[str, int] = {}", True),
         (": Union[int, str]", True)]


def _function(vc, tag, names, log, result=None):
    """A function with an arbitrary signature over `names`."""
    import typing
    plain, dflt, need = [], [], set()
    accepts = []
    for n in names:
        if not vc.flag(f"{tag}.{n}"):
            continue
        t, required = vc.choice(f"{tag}.{n}.kind", KINDS)
        accepts.append(n)
        (dflt if "=" in t else plain).append(n + t)
        if required and n not in ("_", "__"):
            need.add(n)
    must = {p.split(":")[0] for p in plain}
    ns = {"Optional": typing.Optional, "Union": typing.Union, "log": log,
          "result": result}
    exec(f"def {tag}({', '.join(plain + dflt)}):\n"
         f"    log.append(({tag!r}, dict(locals())))\n"
         f"    return result", ns)
    f = ns[tag]
    return f, set(accepts), need, must


@contract("C13", "pipeline", [F + "softquery"], random=1500,
          weight=2, secs=6)
def pipeline(vc):
    """For any table of queries of any size and any supplied parameters:
    every required, unsupplied parameter is answered exactly once, in the
    table's order, by its own query, which sees the supplied parameters and
    every earlier answer; supplied parameters are never overridden; a
    requirement without a query is an error before anything is answered."""
    if vc.symbolic:
        return _softquery_all(vc)
    n = vc.int("n", 0, 5)
    order = vc.choice("order", ["forward", "backward"])
    names = [f"q{i}" for i in range(n)]
    pool = names + ["data", "_", "other"]
    log = []
    qs, table, spec = (names if order == "forward" else names[::-1]), {}, {}
    answer = {}
    for q in qs:
        answer[q] = None if vc.flag("none.fn_" + q) else ("answer", q)
        table[q], *spec[q] = _function(vc, "fn_" + q, pool, log, answer[q])
    func, *fs = _function(vc, "loader", pool, log)
    kw = {}
    for p in ["data", "other", "tracker"] + names:
        if vc.flag("has." + p):
            kw[p] = Tracker() if p == "tracker" else (
                None if vc.flag("none." + p) else ("given", p))
    given = dict(kw)
    need = set(fs[1]).union(*[s[1] for s in spec.values()])
    o = vc.run(vc.f(F + "softquery"), func, table, kw)
    # what must happen
    missing = need - set(given) - set(qs)
    if missing:
        vc.ensure("a requirement without a query is an error",
                  not o.ok and isinstance(o.exc, TypeError), lambda: repr(o))
        vc.ensure("found before any query is answered", log == [])
        return
    info, calls, bad = dict(given), [], False
    for q in qs:
        if q not in need or q in info:
            continue
        acc, _, must = spec[q]
        if not must <= set(info):
            bad = True
            break
        calls.append(("fn_" + q, {k: info[k] for k in acc if k in info}))
        info[q] = answer[q]
    got = [(n_, {k: v for k, v in a.items() if isinstance(v, tuple)})
           for n_, a in log]
    calls = [(n_, {k: v for k, v in a.items() if isinstance(v, tuple)})
             for n_, a in calls]
    vc.ensure("the queries answered, their order and what they see",
              got == calls, lambda: f"{got} {calls}")
    if bad:
        vc.ensure("a circular requirement is an error", not o.ok)
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the parameters found", o.value == info)


@contract("C13", "argnames", [F + "get_all_argnames", F + "not_optional",
                              F + "get_argnames"], random=1500, secs=4,
          bounded="concrete: up to three functions over seven parameter "
          "names, eleven kinds of parameter")
def argnames(vc):
    """The parameters required are those not marked optional."""
    pool = ["a", "b", "c", "_", "__", "Optional_x", "n_None"]
    fs, acc, need = [], set(), set()
    for i in range(vc.int("n", 1, 3)):
        f, a, d, _ = _function(vc, f"f{i}", pool, [])
        fs.append(f)
        acc |= a
        need |= d
    o = vc.run(vc.f(F + "get_all_argnames"), *fs)
    vc.ensure("all parameters", o.ok and o.value == acc)
    o = vc.run(vc.f(F + "get_all_argnames"), *fs, nonoptional=True)
    vc.ensure("those not marked optional", o.ok and o.value == need,
              lambda: f"{o.value} {need}")


# ------------------------------------------------------- arguments of a call
@contract("C13", "kwargs", [F + "call_kwargfiltered", F + "filterkwargs"],
          random=800)
def kwargs(vc):
    """For any callable and any dictionary of parameters of any size: the
    callable is called once with exactly the named arguments it accepts, and
    its result is returned."""
    if vc.symbolic:
        import cytoolz
        from pyvc.core import z3, Ctx
        from pyvc.values import mkbool
        from pyvc.names import NameDict, NameSet, env, S, B, I
        c = Ctx.cur
        c.abstract.add("any names")
        have, acc = z3.Function("have", S, B), z3.Function("accepts", S, B)
        v0 = z3.Function("value", S, I)
        got = []
        out = object()
        pos = [object() for _ in range(vc.choice("positional", [0, 1, 2]))]

        def func(*a, **k):
            got.append((a, k))
            return out
        c.stubs[func] = func
        vc.stub(F + "get_argnames", lambda f: NameSet(
            lambda e: acc(e)) if f is func else vc.ensure(
            "the callable's own parameters", False), "contract argnames")
        kw = NameDict(have, v0)
        c.stubs[cytoolz.keyfilter] = lambda p, d: d.filtered(p)
        c.assumed.add("cytoolz.keyfilter keeps the entries whose key "
                      "satisfies the predicate")
        o = _with_star(vc, func, pos, kw)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        vc.ensure("called once", len(got) == 1)
        a, k = got[0]
        vc.ensure("positional arguments are passed on", len(a) == len(pos)
                  and all(x is y for x, y in zip(a, pos)))
        d = k.get("**")
        vc.ensure("named arguments", isinstance(d, NameDict)
                  and set(k) == {"**"})
        e = env().point(z3.String("some name"))
        vc.ensure("exactly those it accepts", mkbool(
            d._keys(e) == z3.And(have(e), acc(e))))
        vc.ensure("with their values", mkbool(z3.Implies(
            d._keys(e), d._vals(e) == v0(e))))
        vc.ensure("the result is returned", o.value is out)
        return
    log = []
    pool = ["a", "b", "c", "dd", "_"]
    out = ("the", "result")
    func, acc, _, must = _function(vc, "g", pool, log, out)
    kw = {p: ("v", p) for p in pool + ["x", "y"] if vc.flag("has." + p)}
    o = vc.run(vc.f(F + "call_kwargfiltered"), func, **kw)
    if not must <= set(kw):
        vc.ensure("a missing value is an error", not o.ok and isinstance(
            o.exc, TypeError) and not log)
        return
    vc.ensure("the result", o.ok and o.value == out, lambda: repr(o.exc))
    vc.ensure("called once with what it accepts", len(log) == 1 and {
        k: v for k, v in log[0][1].items() if isinstance(v, tuple)} == {
        k: v for k, v in kw.items() if k in acc})


def _with_star(vc, func, pos, kw):
    """call_kwargfiltered collects **kwargs itself: hand it the dictionary by
    stubbing its own helper's argument"""
    from pyvc.core import Ctx
    fk = vc.f(F + "filterkwargs")
    raw = fk.__wrapped__ if hasattr(fk, "__wrapped__") else fk
    c = Ctx.cur

    def filt(f, d):
        # inside call_kwargfiltered the collected dictionary is {"**": kw}
        if isinstance(d, dict) and set(d) == {"**"}:
            d = d["**"]
        return raw(f, d)
    c.stubs[fk] = filt
    return vc.run(vc.f(F + "call_kwargfiltered"), func, *pos, **{"**": kw})


# ---------------------------------------------------------- special overrides
@contract("C13", "special", [F + "specialize"], random=400)
def special(vc):
    """The special answer replaces the general one exactly when the check
    says so; the check and the function each run at most once, with what
    they accept; an error goes to the error handler or to the caller."""
    says = vc.choice("says", [True, False, None, 1, 0, "yes", ()])
    check_fails = vc.flag("check.fails")
    func_fails = vc.flag("func.fails")
    handler = vc.flag("handler")
    style = vc.choice("style", ["positional", "named"])
    log = []
    odd = [None] if vc.symbolic else [None, False, 0, (), "text", {}]
    special_value = vc.choice("special.value", odd + [object()])
    value = vc.choice("value", odd + [object()])
    handled = object()
    x, y, z = object(), None if vc.flag("none.b") else object(), object()

    def check(a, b=None):
        log.append(("check", a, b))
        if check_fails:
            raise Boom("check")
        return says, special_value

    def func(a, b=None, c=None):
        log.append(("func", a, b, c))
        if func_fails:
            raise Boom("func")
        return value

    def error(ex):
        log.append(("error", str(ex)))
        return handled
    tr = Tracker()
    if vc.symbolic:
        import inspect
        vc.stub(F + "sig_union", lambda *fs: inspect.Signature([
            inspect.Parameter(n, inspect.Parameter.KEYWORD_ONLY)
            for n in "abc"]), "contract signatures")
    o = vc.run(vc.f(F + "specialize"), func, check,
               **({"error": error} if handler else {}), tracker=tr)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    f = o.value
    if style == "positional":
        o = vc.run(f, x, b=y, c=z)
    else:
        o = vc.run(f, a=x, b=y, c=z)
    want = [("check", x, y)]
    if not check_fails and says is not True:
        want.append(("func", x, y, z))
    failed = "check" if check_fails else (
        "func" if says is not True and func_fails else None)
    if failed and handler:
        want.append(("error", failed))
    vc.ensure("check first, then the function unless special",
              log == want, lambda: f"{log} {want}")
    if failed:
        if handler:
            vc.ensure("the handler's answer", o.ok and o.value is handled)
        else:
            vc.ensure("the error is the caller's", not o.ok and isinstance(
                o.exc, Boom))
    else:
        vc.ensure("the special answer, or the general one", o.ok and o.value
                  is (special_value if says is True else value))
    names = set(f.__signature__.parameters)
    vc.ensure("it accepts what either accepts", names == {"a", "b", "c"})


@contract("C13", "signatures", [F + "sig_union"], random=1500, secs=4,
          bounded="concrete: two or three functions over five names, seven "
          "kinds of parameter")
def signatures(vc):
    """A dispatching wrapper accepts every parameter of either function,
    required ones first."""
    import inspect
    kinds = ["", ": int", ": Optional[int] = None", "=None", ": str = 'x'",
             ": Optional[int]", "*"]
    import typing
    fs, names, notes = [], set(), {}
    for i in range(vc.int("n", 1, 3)):
        pl, df, kwo = [], [], []
        for n in "abcde":
            if not vc.flag(f"f{i}.{n}"):
                continue
            k = vc.choice(f"f{i}.{n}.kind", kinds)
            names.add(n)
            ann = k.split("=")[0].strip(": ") if k != "*" else ""
            notes.setdefault(n, set()).add(ann)
            (kwo if k == "*" else df if "=" in k else pl).append(
                n + (k if k != "*" else ""))
        args = pl + df + (["*"] + kwo if kwo else [])
        ns = {"Optional": typing.Optional}
        exec(f"def f({', '.join(args)}): pass", ns)
        fs.append(ns["f"])
    o = vc.run(vc.f(F + "sig_union"), *fs)
    clash = any(len(s - {""}) > 1 for s in notes.values())
    if clash:
        return      # mismatched annotations may be rejected
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the union of the parameters",
              set(o.value.parameters) == names,
              lambda: f"{o.value} {names}")


# -------------------------------------------------------------- the loaders
LOADERS = ["ReadImage", "ReadTable", "ReadHeader", "ReadText", "ReadLabel",
           "ReadFits", "ReadCompressedImage", "ReadArray", "TBD", "Trivial"]


@contract("C13", "loader-call", [W + "Loader.__call__"], random=300)
def loader_call(vc):
    """A loader resolves its parameters once, starting from the object, its
    name and what the caller supplied, then calls its function once with what
    was found, and returns the result under the object's name."""
    name = vc.choice("name", ["IMAGE", "^IMAGE"])
    qfail, lfail = vc.flag("query.fails"), vc.flag("load.fails")
    supplied = vc.flag("supplied")
    cls = vc.f(W + "Loader")
    log = []
    out = object()
    data = object()
    tr = Tracker()

    def fn(name, data, alpha, beta=None, gamma: "Optional[int]" = None):
        log.append(("load", name, data, alpha, beta, gamma))
        if lfail:
            raise Boom("load")
        return out

    def q_alpha(name, data):
        log.append(("alpha", name, data))
        if qfail:
            raise Boom("query")
        return "A"

    def q_beta(alpha):
        log.append(("beta", alpha))
        return alpha + "B"
    o = vc.run(cls, fn)
    vc.ensure("no error", o.ok)
    ld = o.value
    ld.queries = {"alpha": q_alpha, "beta": q_beta,
                  "gamma": lambda: log.append("gamma")}
    kw = {"beta": "mine", "unused": 3} if supplied else {}
    o = vc.run(ld, data, name, tracker=tr, **kw)
    want = [("alpha", "IMAGE", data)]
    if not qfail:
        if not supplied:
            want.append(("beta", "A"))
        want.append(("load", "IMAGE", data, "A",
                     "mine" if supplied else "AB", None))
    vc.ensure("each step once, in order", log == want,
              lambda: f"{log} {want}")
    if qfail or lfail:
        vc.ensure("the error is the caller's", not o.ok and isinstance(
            o.exc, Boom))
    else:
        vc.ensure("the result under the object's name", o.ok and o.value == {
            name: out}, lambda: repr(o.value))


@contract("C13", "loaders", [W + c for c in LOADERS], random=len(LOADERS) * 6,
          secs=4, bounded="concrete: every loader and its query table, each "
          "parameter supplied or not")
def loaders(vc):
    """Every real loader's table of queries can be answered in its order:
    each query only needs what is given or answered before it, and no query
    or loader function runs before an answer it could use."""
    import inspect
    which = vc.choice("loader", LOADERS)
    cls = vc.f(W + which)
    ld = cls()
    log = []

    def recorder(tag, f):
        def g(*a, **k):
            log.append((tag, k))
            return ("answer", tag)
        g.__signature__ = inspect.signature(f)
        return g
    params = {q: set(inspect.signature(f).parameters)
              for q, f in ld.queries.items()}
    ld.loader_function = recorder("load", ld.loader_function)
    ld.queries = {q: recorder(q, f) for q, f in ld.queries.items()}
    given = {}
    for q in params:
        if vc.flag("given." + q):
            given[q] = ("given", q)
    tr = Tracker()
    o = vc.run(ld, object(), "X", tracker=tr, **given)
    vc.ensure("no error", o.ok, lambda: f"{which}: {o.exc!r}")
    tags = [t for t, _ in log]
    vc.ensure("each query once, then the loader", len(set(tags)) == len(tags)
              and tags[-1] == "load", lambda: f"{which}: {tags}")
    vc.ensure("supplied parameters are not queried",
              not set(tags) & set(given))
    for n, (t, k) in enumerate(log):
        later = set(tags[n + 1:])
        if t != "load":
            vc.ensure("after all it depends on", not params[t] & later,
                      lambda: f"{which}.{t} before {params[t] & later}")
        for p, v in k.items():
            if p in given:
                vc.ensure("the supplied value", v == given[p])
            elif p in params:
                vc.ensure("the answer of its query", v == ("answer", p))
