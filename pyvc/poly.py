"""Polynomial normal form for integer terms (exact, over the integers)."""
import z3


def poly(e):
    """z3 int expr -> {monomial(tuple of (key, expr) ids): coeff}."""
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    if z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in ch:
                _acc(out, poly(c), 1)
            return out
        if k == z3.Z3_OP_SUB:
            out = dict(poly(ch[0]))
            for c in ch[1:]:
                _acc(out, poly(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): 1}
            for c in ch:
                out = mul(out, poly(c))
            return out
    key = e.get_id()
    ATOMS[key] = e
    return {(key,): 1}


ATOMS = {}


def _acc(out, p, s):
    for m, c in p.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)


def mul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def to_expr(p):
    if not p:
        return z3.IntVal(0)
    ts = []
    for m, c in sorted(p.items()):
        t = z3.IntVal(c)
        for a in m:
            t = t * ATOMS[a] if not (z3.is_int_value(t) and t.as_long() == 1) \
                else ATOMS[a]
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def exact_div(num, den):
    """num / den as polynomials when den is a single monomial dividing every
    monomial of num; None otherwise.  A general den is tried by multivariate
    long division on sorted monomials."""
    if not den:
        return None
    if not num:
        return {}
    rem = dict(num)
    q = {}
    lead = max(den, key=lambda m: (len(m), m))
    lc = den[lead]
    for _ in range(200):
        if not rem:
            return q
        done = False
        for m in sorted(rem, key=lambda m: (len(m), m), reverse=True):
            d = _mono_div(m, lead)
            if d is not None and rem[m] % lc == 0:
                c = rem[m] // lc
                _acc(q, {d: c}, 1)
                _acc(rem, mul({d: c}, den), -1)
                done = True
                break
        if not done:
            return None
    return None


def _mono_div(m, d):
    m = list(m)
    for a in d:
        if a in m:
            m.remove(a)
        else:
            return None
    return tuple(m)


def equal(a, b):
    """Are two int exprs identical as polynomials?"""
    p = dict(poly(a))
    _acc(p, poly(b), -1)
    return not p


def normalize_eqs(e):
    """Rewrite integer equalities inside e whose sides are identical
    polynomials to true."""
    if z3.is_eq(e) and z3.is_int(e.arg(0)):
        if equal(e.arg(0), e.arg(1)):
            return z3.BoolVal(True)
        return e
    if z3.is_and(e) or z3.is_or(e) or z3.is_not(e) or z3.is_implies(e):
        ch = [normalize_eqs(c) for c in e.children()]
        return z3.simplify(e.decl()(*ch))
    return e
