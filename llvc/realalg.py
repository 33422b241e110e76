"""Canonical forms of real terms: quotients of polynomials over atoms.

Used to decide equalities between formulas (the mathematical reading of the
code against the formula of the specification).  Atoms are variables and
applications of sin, cos, sqrt, ... to canonical arguments; the rewriting uses
only sin(-x)=-sin x, cos(-x)=cos x, sin^2 = 1-cos^2, sqrt(x)^2=x.
"""
from fractions import Fraction
import z3

_atoms = {}      # key -> index
_atom_info = []  # index -> (name, args canonical, z3 term)
_cache = {}
MAXTERMS = 20000
SQRT2 = True     # rewrite sqrt(x)^2 (option opaquesqrt: no)


class TooBig(Exception):
    pass


def atom(key, info):
    i = _atoms.get(key)
    if i is None:
        i = _atoms[key] = len(_atom_info)
        _atom_info.append(info)
    return i


def pconst(c):
    return {(): c} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS * 20:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return reduce_poly(r)


def reduce_poly(p):
    """apply sin^2 -> 1-cos^2 and sqrt^2 -> arg"""
    again = True
    while again:
        again = False
        for m in list(p):
            for a, e in m:
                if e >= 2:
                    info = _atom_info[a]
                    if info[0] == 'sin':
                        cosa = mkfun('cos', info[1])
                        rep = padd(pconst(Fraction(1)), pmul_raw(cosa[0], cosa[0]), -1)
                    elif SQRT2 and info[0] == 'sqrt' and info[1][1] == {(): Fraction(1)}:
                        rep = info[1][0]
                    else:
                        continue
                    c = p.pop(m)
                    rest = tuple(sorted((x, y - 2 if x == a else y) for x, y in m if not (x == a and y == 2)))
                    p = padd(p, pmul_raw({rest: c}, rep))
                    again = True
                    break
            if again:
                break
    return p


def pmul_raw(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def norm(q):
    """normalise a quotient: monic leading denominator, common monomials cancelled"""
    n, d = q
    if not n:
        return ({}, ONE)
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return ({k: v / c for k, v in n.items()}, ONE) if c != 1 else (n, d)
        # cancel common powers
        com = dict(m)
        for k in n:
            kd = dict(k)
            for a in list(com):
                e = min(com[a], kd.get(a, 0))
                if e:
                    com[a] = e
                else:
                    del com[a]
            if not com:
                break
        if com:
            def sub(k):
                return tuple(sorted((a, e - com.get(a, 0)) for a, e in k if e - com.get(a, 0)))
            n = {sub(k): v / c for k, v in n.items()}
            return (n, {sub(m): Fraction(1)})
        return ({k: v / c for k, v in n.items()}, {m: Fraction(1)})
    lead = max(d)
    c = d[lead]
    if c != 1:
        n = {k: v / c for k, v in n.items()}
        d = {k: v / c for k, v in d.items()}
    if n == d:
        return (ONE, ONE)
    return (n, d)


def qadd(a, b, k=1):
    if a[1] == b[1]:
        return norm((padd(a[0], b[0], k), a[1]))
    return norm((padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1])))


def qmul(a, b):
    return norm((pmul(a[0], b[0]), pmul(a[1], b[1])))


def qdiv(a, b):
    if not b[0]:
        raise TooBig()
    return norm((pmul(a[0], b[1]), pmul(a[1], b[0])))


def freeze(q):
    return (tuple(sorted(q[0].items())), tuple(sorted(q[1].items())))


def qneg(q):
    return ({k: -v for k, v in q[0].items()}, q[1])


def mkfun(name, arg):
    """canonical application of a unary function"""
    if name in ('sin', 'cos', 'tan', 'atan'):
        if not arg[0]:
            return (ONE, ONE) if name == 'cos' else ({}, ONE)
        lead = max(arg[0])
        if arg[0][lead] < 0:
            arg = qneg(arg)
            r = mkfun(name, arg)
            return r if name == 'cos' else qneg(r)
    if name == 'sqrt' and arg[1] == ONE and set(arg[0]) <= {()}:
        c = arg[0].get((), Fraction(0))
        if c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return (pconst(Fraction(a, b)), ONE)
    k = (name, freeze(arg))
    i = atom(k, (name, arg))
    return ({((i, 1),): Fraction(1)}, ONE)


def canon(e):
    """z3 real term -> (num, den)"""
    if isinstance(e, Fraction):
        return (pconst(e), ONE)
    i = e.get_id()
    c = _cache.get(i)
    if c is not None:
        return c[0]
    r = _canon(e)
    _cache[i] = (r, e)
    return r


def _canon(e):
    if z3.is_rational_value(e):
        return (pconst(Fraction(e.numerator_as_long(), e.denominator_as_long())), ONE)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = canon(ch[0])
        for c in ch[1:]:
            r = qadd(r, canon(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = canon(ch[0])
        for c in ch[1:]:
            r = qadd(r, canon(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return qneg(canon(ch[0]))
    if k == z3.Z3_OP_MUL:
        r = canon(ch[0])
        for c in ch[1:]:
            r = qmul(r, canon(c))
        return r
    if k == z3.Z3_OP_DIV:
        d = canon(ch[1])
        if not d[0]:
            raise TooBig()
        return qdiv(canon(ch[0]), d)
    if k == z3.Z3_OP_POWER:
        ex = canon(ch[1])
        if ex[1] == ONE and set(ex[0]) <= {()}:
            v = ex[0].get((), Fraction(0))
            if v.denominator == 1 and 0 <= v <= 8:
                r = (ONE, ONE)
                b = canon(ch[0])
                for _ in range(int(v)):
                    r = qmul(r, b)
                return r
    if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_real(c) for c in ch):
        args = [canon(c) for c in ch]
        if len(args) == 1:
            return mkfun(e.decl().name(), args[0])
        key = (e.decl().name(),) + tuple(freeze(a) for a in args)
        i = atom(key, (e.decl().name(), args))
        return ({((i, 1),): Fraction(1)}, ONE)
    if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
        return (pconst(Fraction(ch[0].as_long())), ONE)
    i = atom(('z', e.get_id()), ('opaque', e))
    return ({((i, 1),): Fraction(1)}, ONE)


def is_zero(e):
    """True: identically zero; False: a non-zero constant; None: not decided"""
    try:
        n, d = canon(e)
    except TooBig:
        return None
    if not n:
        return True
    if set(n) == {()} and set(d) == {()}:
        return False
    # coefficients that only differ by rounding of literals
    return None


def near_zero(e, tol=Fraction(1, 10**12)):
    """the polynomial difference vanishes up to relative rounding of literals:
    used only for terms built as a-b (see engine.real_eq)"""
    return None


def eq_upto_literals(a, b, tol=Fraction(1, 10**12)):
    """True if a and b have the same canonical form up to relative perturbations
    `tol` of the coefficients (rounding of literal constants)"""
    try:
        p, q = canon(a), canon(b)
        l = pmul(p[0], q[1])
        r = pmul(q[0], p[1])
    except TooBig:
        return None
    if l == r:
        return True
    keys = set(l) | set(r)
    # per-monomial relative comparison
    for k in keys:
        x, y = l.get(k, Fraction(0)), r.get(k, Fraction(0))
        if abs(x - y) > tol * max(abs(x), abs(y)):
            return False
    return True


_build = {}


def rebuild(e, uf):
    """an equal term in canonical form (equal wherever the divisions are defined)"""
    c = _build.get(e.get_id())
    if c is not None:
        return c[0]
    try:
        n, d = canon(e)
        if len(n) > 60 or len(d) > 8:
            raise TooBig()
        r = poly_z3(n, uf)
        if d != ONE:
            r = r / poly_z3(d, uf)
    except TooBig:
        r = e
    r = z3.simplify(r) if z3.is_expr(r) else r
    _build[e.get_id()] = (r, e)
    if z3.is_expr(r):
        _cache.setdefault(r.get_id(), (canon(e), r)) if r is not e else None
        _build[r.get_id()] = (r, r)
    return r


_atomz = {}


def atom_z3(i, uf):
    if i not in _atomz:
        name, x = _atom_info[i]
        if name == 'opaque':
            _atomz[i] = x
        else:
            xs = x if isinstance(x, list) else [x]
            args = []
            for n, d in xs:
                a = poly_z3(n, uf)
                if d != ONE:
                    a = a / poly_z3(d, uf)
                args.append(a)
            _atomz[i] = uf(name, len(args))(*args)
    return _atomz[i]


def poly_z3(p, uf):
    out = []
    for m in sorted(p):
        fs = []
        c = p[m]
        if c != 1 or not m:
            fs.append(z3.RealVal(str(c)))
        for a, e in m:
            fs += [atom_z3(a, uf)] * e
        out.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(*out)


# ---- linear abstraction: monomials over atoms become fresh variables, so an
# unsatisfiable abstraction means the query is unsatisfiable
_lin = {}
_mono = {}


def mono_var(key):
    v = _mono.get(key)
    if v is None:
        v = _mono[key] = z3.Real('mono!%d' % len(_mono))
    return v


def lin_real(e):
    n, d = canon(e)
    if set(d) != {()}:
        return mono_var(('q', freeze((n, d))))
    k = d[()]
    out = [z3.RealVal(str(c / k)) if not m else z3.RealVal(str(c / k)) * mono_var(m) for m, c in n.items()]
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(*out)


REL = (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)


def linear_abs(e):
    c = _lin.get(e.get_id())
    if c is not None:
        return c[0]
    k = e.decl().kind() if z3.is_app(e) else None
    r = None
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ) and z3.is_bool(e.arg(e.num_args() - 1))):
        r = e.decl()(*[linear_abs(x) for x in e.children()])
    elif k in REL and z3.is_real(e.arg(0)):
        try:
            a, b = lin_real(e.arg(0) - e.arg(1)), z3.RealVal(0)
            r = {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b,
                 z3.Z3_OP_DISTINCT: a != b}[k]
        except (TooBig, KeyError):
            r = None
    if r is None:
        r = z3.BoolVal(True) if k is not None and z3.is_true(e) else z3.BoolVal(False) if k is not None and z3.is_false(e) else z3.Bool('opq!%d' % e.get_id())
    _lin[e.get_id()] = (r, e)
    return r
