"""Label blocks whose keywords are present or absent symbolically."""
from multidict import MultiDict

from .core import z3, Ctx, Unsupported
from .values import Sym, SymObj, SymSet, SStr, Or, mkbool, contains_sym
from . import hooks as H

_MISSING = object()


class SymKeys(SymObj):
    pytype = set

    def __init__(self, blocks, extra=()):
        self.blocks = list(blocks)
        self.extra = list(extra)

    def contains(self, k):
        return Or(*[b.contains(k) for b in self.blocks],
                  H.contains(self.extra, k) if self.extra else False)

    def union(self, *others):
        bs, ex = list(self.blocks), list(self.extra)
        for o in others:
            if isinstance(o, SymKeys):
                bs += o.blocks
                ex += o.extra
            else:
                ex += list(o)
        return SymKeys(bs, ex)

    __or__ = union

    def intersection(self, o):
        if isinstance(o, SymKeys):
            raise Unsupported("intersection of symbolic key sets")
        return SymSet([k for k in o if bool(self.contains(k))])

    __and__ = __rand__ = intersection

    def vc_iter(self):
        for b in self.blocks:
            yield from b.force()
        yield from self.extra

    __iter__ = vc_iter


class SymBlock(SymObj):
    """Mapping with a finite schema {key: maker()}; presence of each key is
    decided when first observed.  Keys outside the schema are absent."""
    pytype = MultiDict

    def __init__(self, vc, name, schema, required=()):
        self.vc, self.name = vc, name
        self.schema = dict(schema)
        self.required = set(required)
        self.state = {}      # key -> value or _MISSING
        self.order = list(schema)

    def has(self, k):
        if k in self.state:
            return self.state[k] is not _MISSING
        if k not in self.schema:
            return False
        if k in self.required or self.vc.flag(f"{self.name}.has.{k}"):
            mk = self.schema[k]
            self.state[k] = mk(self.vc, f"{self.name}.{k}") if callable(mk) \
                else mk
            return True
        self.state[k] = _MISSING
        return False

    def force(self):
        return [k for k in self.order if self.has(k)]

    def contains(self, k):
        if isinstance(k, Sym):
            return Or(*[H.eq(k, x) for x in self.force()])
        return self.has(k)

    __contains__ = contains

    def getitem(self, k):
        if isinstance(k, Sym):
            for x in self.force():
                if bool(H.eq(k, x)):
                    return self.state[x]
            raise KeyError(k)
        if self.has(k):
            return self.state[k]
        raise KeyError(k)

    __getitem__ = getitem

    def get(self, k, default=None):
        try:
            return self.getitem(k)
        except KeyError:
            return default

    getone = get

    def __setitem__(self, k, v):
        if isinstance(k, Sym):
            raise Unsupported("symbolic key store")
        if k not in self.schema:
            self.schema[k] = None
            self.order.append(k)
        self.state[k] = v

    def add(self, k, v):
        if self.has(k):
            raise Unsupported("duplicate key in symbolic block")
        self[k] = v

    def __delitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        self.state[k] = _MISSING

    def pop(self, k, *d):
        if self.has(k):
            v = self.state[k]
            self.state[k] = _MISSING
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def keys(self):
        return SymKeys([self])

    def values(self):
        return [self.state[k] for k in self.force()]

    def items(self):
        return [(k, self.state[k]) for k in self.force()]

    def copy(self):
        b = SymBlock(self.vc, self.name, self.schema, self.required)
        b.state = self.state        # presence decisions are shared ...
        b.state = _CowState(self)
        b.order = list(self.order)
        return b

    def vc_iter(self):
        return iter(self.force())

    __iter__ = vc_iter

    def length(self):
        return len(self.force())

    def update(self, other=(), **k):
        for a, b in (other.items() if hasattr(other, "items") else other):
            self[a] = b
        for a, b in k.items():
            self[a] = b

    def __or__(self, other):
        c = self.copy()
        c.update(other)
        return c

    def __ror__(self, other):
        d = dict(other)
        d.update(self.items())
        return d

    def __bool__(self):
        return bool(self.force())


class _CowState(dict):
    """Copy of a block's state that shares undecided keys with its parent."""

    def __init__(self, parent):
        super().__init__(parent.state)
        self.parent = parent

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        if k in self.parent.schema:
            self.parent.has(k)
            self[k] = self.parent.state[k]
            return True
        return False
