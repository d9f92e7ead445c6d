"""Contract API.  A contract is a Python harness that runs in three modes:

  symbolic  inputs are symbolic, the instrumented real code runs on every
            path, each `ensure` becomes a proof obligation (deciding mode)
  replay    inputs come from a counter-model (or a replay file) and the
            uninstrumented real code runs
  random    inputs are drawn at random (bounded stand-in / input search)
"""
import importlib
import inspect
import os
import random
import re
import shutil
import sys
import tempfile
import types
import zlib
from fractions import Fraction

from .core import z3, Ctx, Control, PathKill, Unsupported
from . import values as V

Ite = V.Ite


def _anysym(bs):
    return any(isinstance(b, V.Sym) for b in bs)


def And(*bs):
    return V.And(*bs) if _anysym(bs) else all(bool(b) for b in bs)


def Or(*bs):
    return V.Or(*bs) if _anysym(bs) else any(bool(b) for b in bs)


def Not(b):
    return V.Not(b) if _anysym([b]) else not b


def Implies(a, b):
    return V.Implies(a, b) if _anysym([a, b]) else (not a) or bool(b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, targets, bounded, opts, doc):
        self.prop, self.name, self.fn = prop, name, fn
        self.targets, self.bounded, self.opts = targets, bounded, opts
        self.doc = doc

    @property
    def key(self):
        return f"{self.prop}.{self.name}"


def contract(prop, name, targets=(), bounded=None, **opts):
    """bounded: None for a full-domain proof harness; a text stating the bound
    for a bounded harness; 'concrete: ...' for one that never runs
    symbolically."""
    def deco(fn):
        c = Contract(prop, name, fn, tuple(targets), bounded, opts,
                     (fn.__doc__ or "").strip())
        assert c.key not in REGISTRY, c.key
        REGISTRY[c.key] = c
        return fn
    return deco


class Violated(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


class Reject(Exception):
    pass


class Outcome:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def label(self):
        return "return" if self.exc is None else \
            "raise " + type(self.exc).__name__

    def __repr__(self):
        return repr(self.value) if self.ok else repr(self.exc)


def _resolve(path):
    mod, _, attr = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for a in attr.split("."):
            o = getattr(o, a)
    except (ImportError, AttributeError) as ex:
        raise Unsupported(f"target {path} is gone: {ex}")
    return o


class Base:
    symbolic = False

    def __init__(self):
        self.outcome_labels = []
        self._tmp = None

    def f(self, path):
        return _resolve(path)

    def count(self, name, lo, hi, most, often=.06):
        return self.int(name, lo, hi)

    def run(self, fn, /, *a, **k):
        if isinstance(fn, types.FunctionType) and \
                str(fn.__module__).startswith("pdr"):
            try:
                inspect.signature(fn).bind(*a, **k)
            except TypeError as ex:
                raise Unsupported(f"{fn.__qualname__}: the signature under "
                                  f"contract is gone: {ex}")
        try:
            o = Outcome(value=self._call(fn, a, k))
        except Exception as ex:
            if isinstance(ex, z3.Z3Exception):
                raise Unsupported("solver interface: " + str(ex))
            if self.symbolic and _engine_slip(ex) or _stand_in_slip(ex):
                raise Unsupported(f"{type(ex).__name__}: {ex}")
            o = Outcome(exc=ex)
        self.outcome_labels.append(o.label)
        return o

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)


_ENGINE = re.compile(
    r"'(SSeq|SymSet|SymList|SymMatch|SymKeys|SymBlock|SArr|SymFile|SymBytes|"
    r"SymDtype|EArr|SymObj|SymFrame|Elem|_Flags|_Num)'|% *: *'SStr'|"
    r"for (<<|>>|&|\^|\|)=?: 'S")


_STAND_INS = {}


def _stand_ins():
    """the names of the classes and functions that contracts hand to the code
    in place of its own (or its dependencies') objects"""
    if not _STAND_INS:
        classes, functions = set(), set()
        d = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), "contracts")
        for fn in os.listdir(d):
            if fn.endswith(".py"):
                with open(os.path.join(d, fn)) as f:
                    text = f.read()
                classes |= set(re.findall(r"^ *class (\w+)(?!.*Exception)",
                                          text, re.M))
                functions |= set(re.findall(r"^def (\w+)", text, re.M))
        _STAND_INS["classes"], _STAND_INS["functions"] = classes, functions
    return _STAND_INS["classes"], _STAND_INS["functions"]


def _stand_in_slip(ex):
    """Is this exception about something that a contract's stand-in for a
    collaborator lacks (an attribute, a protocol, a parameter), and so about
    the contract and not the code?"""
    if not isinstance(ex, (TypeError, AttributeError)) or not ex.args or \
            not isinstance(ex.args[0], str):
        return False
    classes, functions = _stand_ins()
    if isinstance(ex, AttributeError) and ex.name is not None:
        obj = getattr(ex, "obj", None)
        kind = obj if isinstance(obj, type) else type(obj)
        return str(kind.__module__).startswith("contracts")
    m = re.match(r"(\w+)\.<locals>\.[\w.<>]+\(\) (got|takes|missing)",
                 ex.args[0])
    if m:
        return m.group(1) in functions
    return any(w in classes for w in re.findall(
        r"'(\w+)' object|of type '?(\w+)|: '(\w+)' and|and '(\w+)'$",
        ex.args[0]) for w in w)


def _engine_slip(ex):
    """Is this exception about the engine's stand-ins, not the code's own
    values?"""
    if isinstance(ex, (TypeError, AttributeError)) and ex.args and \
            isinstance(ex.args[0], str) and _ENGINE.search(ex.args[0]):
        return True
    if isinstance(ex, (NameError, AttributeError)):
        if str(type(getattr(ex, "obj", None)).__module__).startswith("pdr"):
            return False
        tb = ex.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        return "/pyvc/" in tb.tb_frame.f_code.co_filename
    return False


def _isconst(o):
    return isinstance(o, (str, int, float, bool, type(None), tuple))


class SymVC(Base):
    symbolic = True
    mode = "symbolic"

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def _call(self, fn, a, k):
        from . import hooks
        return hooks.call(fn, *a, **k)

    def call(self, fn, /, *a, **k):
        return self._call(fn, a, k)

    def int(self, name, lo=None, hi=None, pool=None, r=None):
        e = z3.Int(name)
        self.ctx.inputs[name] = ("int", e)
        if lo is not None:
            self.ctx.add(e >= V.int_expr(lo))
        if hi is not None:
            self.ctx.add(e <= V.int_expr(hi))
        return V.SInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.ctx.inputs[name] = ("bool", e)
        return V.SBool(e)

    def flag(self, name):
        """A boolean decided by a fork (concrete in the harness)."""
        return bool(self.bool(name))

    def real(self, name, lo=None, hi=None, pool=None):
        e = z3.Real(name)
        self.ctx.inputs[name] = ("real", e)
        if lo is not None:
            self.ctx.add(e >= V.real_expr(lo))
        if hi is not None:
            self.ctx.add(e <= V.real_expr(hi))
        return V.SReal(e)

    def str(self, name, pool=None, maxlen=None):
        e = z3.String(name)
        self.ctx.inputs[name] = ("str", e)
        if maxlen is not None:
            self.ctx.add(z3.Length(e) <= maxlen)
        return V.SStr(e)

    def name(self, name, pool=None):
        """An arbitrary string, looked at through tests (see aname.py)."""
        from .aname import Name
        n = Name(name)
        self.ctx.inputs[name] = ("name", n)
        return n

    def merge(self):
        """Evaluate and/or of conditions without forking."""
        self.ctx.merge = True

    def choice(self, name, options):
        options = list(options)
        e = z3.Int(name)
        self.ctx.inputs[name] = ("int", e)
        self.ctx.add(z3.And(e >= 0, e < len(options)))
        for i in range(len(options) - 1):
            if self.ctx.branch(e == i):
                return options[i]
        if len(options) > 0:
            return options[-1]
        raise PathKill("empty choice")

    def index(self, name, n, pool=None):
        """an arbitrary index 0 <= i < n (n may be symbolic)"""
        i = self.int(name)
        self.assume(And(i >= 0, i < n))
        return i

    def assume(self, c):
        self.ctx.assume(V.to_bool_expr(c))

    def ensure(self, name, c, detail=None):
        if isinstance(c, V.Sym):
            return self.ctx.obligation(name, c)
        return self.ctx.obligation(name, z3.BoolVal(bool(c)))

    def stub(self, path, model, why):
        f = _resolve(path)
        self.ctx.stubs[f] = model
        self.ctx.assumed.add(f"contract assumed at call site: {path} ({why})")

    def invariant(self, qual, k, inv):
        self.ctx.invariants[(qual, k)] = inv

    def block(self, name, schema, required=()):
        """A label block: {keyword: maker(vc, name) or constant}; keywords not
        in `required` may be absent."""
        from .mapping import SymBlock
        return SymBlock(self, name, schema, required)

    def multidict(self, items):
        """A MultiDict that accepts symbolic keys (append-only)."""
        self.ctx.assumed.add("multidict.MultiDict: add() appends the pair")
        return _PairList(items)

    def bytes(self, name, n):
        raise Unsupported("concrete bytes in symbolic mode")


class _PairList:
    """Contract stand-in for an append-only MultiDict."""
    def __init__(self, items=()):
        self._items = list(items)

    def add(self, k, v):
        self._items.append((k, v))

    def items(self):
        return list(self._items)

    def __len__(self):
        return len(self._items)


class ConcreteVC(Base):
    """Replay of given input values; missing values get defaults."""
    mode = "replay"
    numbers = ()        # constants of the code under contract

    def __init__(self, values=None, rng=None):
        super().__init__()
        self.values = dict(values or {})
        self.used = {}
        self.rng = rng
        self.ensured = 0
        if rng is not None:
            self.mode = "random"

    def _call(self, fn, a, k):
        return fn(*a, **k)

    def call(self, fn, /, *a, **k):
        return fn(*a, **k)

    def _get(self, name, gen):
        if name in self.values:
            v = self.values[name]
            if isinstance(v, dict) and "__frac__" in v:
                a, b = v["__frac__"]
                v = a / b
        else:
            v = gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, pool=None, r=None):
        def gen():
            a = -5 if lo is None else lo
            b = a + 40 if hi is None else hi
            if r is not None and self.rng is not None and (
                    pool is None or self.rng.random() < .5):
                return self.rng.randint(*r)
            if self.rng is None:
                return max(a, min(0, b))
            if pool is not None and self.rng.random() < .7:
                return self.rng.choice(list(pool))
            top = min(b, a + 400) if hi is None else b
            if self.numbers and self.rng.random() < .1:
                n = self.rng.choice(self.numbers) + self.rng.choice(
                    (-1, 0, 0, 1))
                if a <= n <= top:
                    return n
            if self.rng.random() < .6:
                return self.rng.randint(a, min(b, a + 6))
            return self.rng.randint(a, top)
        v = self._get(name, gen)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        return v

    def count(self, name, lo, hi, most, often=.06):
        """a number of things: lo to hi, or now and then up to `most`"""
        if self.rng is not None and name not in self.values and \
                self.rng.random() < often:
            return self._get(name, lambda: self.rng.randint(
                hi, max(hi, most)))
        if name in self.values:
            hi = max(hi, most)
        return self.int(name, lo, hi)

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng is not None
                              and self.rng.random() < .5))

    flag = bool

    def real(self, name, lo=None, hi=None, pool=None):
        def gen():
            if self.rng is None:
                return 0.0
            if pool is not None and self.rng.random() < .7:
                return self.rng.choice(list(pool))
            return self.rng.uniform(-100 if lo is None else lo,
                                    100 if hi is None else hi)
        v = self._get(name, gen)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject(name)
        return v

    def str(self, name, pool=None, maxlen=None):
        def gen():
            if self.rng is None:
                return ""
            if pool is not None and self.rng.random() < .85:
                return self.rng.choice(list(pool))
            n = self.rng.randint(0, 8)
            return "".join(self.rng.choice("ABIMXabc_ 019.\"'(){},<>=/*-")
                           for _ in range(n))
        return self._get(name, gen)

    def name(self, name, pool=None):
        return self.str(name, pool=pool)

    def merge(self):
        pass

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: 0 if self.rng is None
                      else self.rng.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Reject(name)
        return options[i]

    def index(self, name, n, pool=None):
        if n <= 0:
            raise Reject(name)
        v = self._get(name, lambda: 0 if self.rng is None
                      else self.rng.randrange(n))
        if not 0 <= v < n:
            raise Reject(name)
        return v

    def assume(self, c):
        if not c:
            raise Reject("assume")

    def ensure(self, name, c, detail=None):
        self.ensured += 1
        if not c:
            if callable(detail):
                detail = detail()
            raise Violated(name, detail if detail is not None else "false")
        return True

    def stub(self, path, model, why):
        pass

    def invariant(self, qual, k, inv):
        pass

    def block(self, name, schema, required=()):
        from multidict import MultiDict
        b = MultiDict()
        for k, mk in schema.items():
            if k in required or self.flag(f"{name}.has.{k}"):
                b[k] = mk(self, f"{name}.{k}") if callable(mk) else mk
        return b

    def multidict(self, items):
        from multidict import MultiDict
        return MultiDict(items)

    def bytes(self, name, n):
        seed = zlib.crc32(name.encode()) ^ (n * 2654435761 & 0xffffffff)
        if "__seed__" in self.values:
            seed ^= self.values["__seed__"]
        elif self.rng is not None:
            s = self.rng.getrandbits(30)
            self.values["__seed__"] = s
            seed ^= s
        if "__seed__" in self.values:
            self.used["__seed__"] = self.values["__seed__"]
        return random.Random(seed).randbytes(n)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="pyvc_")
        return self._tmp

    def file(self, name, data):
        p = os.path.join(self.tmp(), name)
        with open(p, "wb") as f:
            f.write(data)
        return p


def load_contracts(prop):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if root not in sys.path:
        sys.path.insert(0, root)
    importlib.import_module(f"contracts.{prop}")
    return [c for c in REGISTRY.values() if c.prop == prop]
