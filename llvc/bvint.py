"""Bit-vector constraints -> linear integer arithmetic (for unsatisfiability).

Every bit-vector term is translated to an integer term denoting its signed
value when interval analysis shows that no intermediate result wraps around;
otherwise it becomes an unconstrained integer of its width.  The translation
only forgets, so "unsatisfiable" carries over; "satisfiable" does not.
"""
import z3

SBV2INT = getattr(z3, 'Z3_OP_SBV2INT', -1)
ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT, z3.Z3_OP_DIV,
         z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_IS_INT)

def consts_of(t):
    return t.as_signed_long() if z3.is_bv_value(t) else None


class Tr:
    def __init__(s, limit=40000):
        s.cache = {}
        s.bcache = {}
        s.ccache = {}
        s.acache = {}
        s.apps = {}
        s.side = []
        s.bounds = {}
        s.keep = []
        s.n = 0
        s.limit = limit

    # ---------------------------------------------------- bounds from atoms
    def note(s, t, lo, hi):
        l, h = s.bounds.get(t.get_id(), (None, None))
        if lo is not None:
            l = lo if l is None else max(l, lo)
        if hi is not None:
            h = hi if h is None else min(h, hi)
        s.bounds[t.get_id()] = (l, h)

    def collect(s, c, neg=False):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return s.collect(c.arg(0), not neg)
        if (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
            for a in c.children():
                s.collect(a, neg)
            return
        if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        w = a.size()
        top = (1 << (w - 1)) - 1
        if k == z3.Z3_OP_EQ and not neg:
            for x, y in ((a, b), (b, a)):
                v = consts_of(y)
                if v is not None:
                    s.note(x, v, v)
            return
        less = {z3.Z3_OP_SLT: (0, 1, 1), z3.Z3_OP_SLEQ: (0, 1, 0), z3.Z3_OP_SGT: (1, 0, 1), z3.Z3_OP_SGEQ: (1, 0, 0)}
        uless = {z3.Z3_OP_ULT: (0, 1, 1), z3.Z3_OP_ULEQ: (0, 1, 0), z3.Z3_OP_UGT: (1, 0, 1), z3.Z3_OP_UGEQ: (1, 0, 0)}
        if k in less:
            i, j, strict = less[k]
            x, y = c.arg(i), c.arg(j)
            if neg:
                x, y, strict = y, x, 1 - strict
            v = consts_of(y)
            if v is not None:
                s.note(x, None, v - strict)
            v = consts_of(x)
            if v is not None:
                s.note(y, v + strict, None)
        elif k in uless:
            i, j, strict = uless[k]
            x, y = c.arg(i), c.arg(j)
            if neg:
                x, y, strict = y, x, 1 - strict
            if z3.is_bv_value(y) and y.as_long() - strict <= top:
                s.note(x, 0, y.as_long() - strict)

    # ---------------------------------------------------- terms
    def leaf(s, t):
        s.n += 1
        w = t.size()
        v = z3.Int('bvu!%d' % t.get_id())
        s.keep.append(t)
        b = s.bounds.get(t.get_id(), (None, None))
        half = 1 << (w - 1)
        lo = -half if b[0] is None else max(b[0], -half)
        hi = half - 1 if b[1] is None else min(b[1], half - 1)
        s.side.append(v >= lo)
        s.side.append(v <= hi)
        f, key = t, ()
        if t.decl().kind() == z3.Z3_OP_EXTRACT:
            f, key = t.arg(0), tuple(t.params())
        if f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.num_args() > 0 and all(z3.is_bv(a) for a in f.children()):
            x = [s.term(a)[0] for a in f.children()]
            g = s.apps.setdefault((f.decl().name(),) + key, [])
            for y, u in g:  # the same function of equal arguments
                s.side.append(z3.Or(v == u, *[a != b for a, b in zip(x, y)]))
            g.append((x, v))
        return v, lo, hi

    def unsigned(s, t):
        """unsigned value of t"""
        e, lo, hi = s.term(t)
        if lo >= 0:
            return e, lo, hi
        w = t.size()
        if hi < 0:
            return e + (1 << w), lo + (1 << w), hi + (1 << w)
        return z3.If(e < 0, e + (1 << w), e), 0, (1 << w) - 1

    def fresh(s):
        s.n += 1
        return z3.FreshConst(z3.IntSort(), 'q')

    def floordiv(s, x, c):
        """(q, r) with x = c*q + r, 0 <= r < c"""
        e, lo, hi = x
        q, r = s.fresh(), s.fresh()
        s.side += [e == c * q + r, r >= 0, r < c, q >= lo // c, q <= hi // c]
        return (q, lo // c, hi // c), (r, 0, min(c - 1, hi) if lo >= 0 else c - 1)

    def truncdiv(s, x, c):
        e, lo, hi = x
        if lo >= 0:
            return s.floordiv(x, c)
        q, r = s.fresh(), s.fresh()
        s.side += [e == c * q + r, z3.Implies(e >= 0, z3.And(r >= 0, r < c)), z3.Implies(e < 0, z3.And(r <= 0, r > -c))]
        t = lambda v: v // c if v >= 0 else -(-v // c)
        return (q, t(lo), t(hi)), (r, max(-(c - 1), lo), max(0, min(c - 1, hi)))

    def term(s, t):
        i = t.get_id()
        r = s.cache.get(i)
        if r is None:
            if s.n > s.limit:
                raise OverflowError
            r = s.term_(t)
            w = t.size()
            half = 1 << (w - 1)
            if r is None or r[2] - r[1] > 16 << w:
                r = s.leaf(t)
            elif r[1] < -half or r[2] >= half:  # may wrap around
                v, q = s.fresh(), s.fresh()
                s.side += [v == r[0] - (1 << w) * q, v >= -half, v < half, q >= (r[1] + half) >> w, q <= (r[2] + half) >> w]
                r = (v, -half, half - 1)
            if i in s.bounds:
                l, h = s.bounds[i]
                r = (r[0], r[1] if l is None else max(l, r[1]), r[2] if h is None else min(h, r[2]))
                if r[1] > r[2]:
                    s.side.append(z3.BoolVal(False))
                    r = (r[0], r[1], r[1])
            s.keep.append(t)
            s.cache[i] = r
        return r

    def cases(s, t):
        """[(condition, constant)] of a term with few values (truth values in words)"""
        i = t.get_id()
        if i in s.ccache:
            return s.ccache[i]
        r = s.cases_(t)
        if r is not None:
            m = {}
            for c, v in r:
                m[v] = c if v not in m else z3.Or(m[v], c)
            r = [(c, v) for v, c in m.items()] if len(m) <= 4 else None
        s.keep.append(t)
        s.ccache[i] = r
        return r

    def cases_(s, t):
        if z3.is_bv_value(t):
            return [(z3.BoolVal(True), t.as_long())]
        k, w, ch = t.decl().kind(), t.size(), t.children()
        full = (1 << w) - 1
        if k == z3.Z3_OP_ITE:
            a, b = s.cases(ch[1]), s.cases(ch[2])
            if a is None or b is None:
                return None
            c = s.boolean(ch[0])
            return [(z3.And(c, x), v) for x, v in a] + [(z3.And(z3.Not(c), x), v) for x, v in b]
        if k == z3.Z3_OP_BNOT:
            a = s.cases(ch[0])
            return a and [(c, full & ~v) for c, v in a]
        if k == z3.Z3_OP_EXTRACT:
            a = s.cases(ch[0])
            h, l = t.params()
            return a and [(c, v >> l & full) for c, v in a]
        if k == z3.Z3_OP_ZERO_EXT:
            return s.cases(ch[0])
        f = {z3.Z3_OP_BOR: lambda x, y: x | y, z3.Z3_OP_BAND: lambda x, y: x & y, z3.Z3_OP_BXOR: lambda x, y: x ^ y}.get(k)
        if k == z3.Z3_OP_CONCAT:
            f = 1
        if f is None:
            return None
        r = None
        for x in ch:
            a = s.cases(x)
            if a is None:
                return None
            if r is None:
                r = a
            elif f == 1:
                r = [(z3.And(c, d), u << x.size() | v) for c, u in r for d, v in a]
            else:
                r = [(z3.And(c, d), f(u, v)) for c, u in r for d, v in a]
            if len(r) > 64:
                return None
        return r

    def term_(s, t):
        r = s.term0_(t)
        if r is None and not z3.is_const(t):
            c = s.cases(t)
            if c:
                w = t.size()
                sg = lambda v: v - (1 << w) if v >> (w - 1) else v
                e = z3.IntVal(sg(c[-1][1]))
                for x, v in c[:-1]:
                    e = z3.If(x, z3.IntVal(sg(v)), e)
                return e, min(sg(v) for _, v in c), max(sg(v) for _, v in c)
        return r

    def term0_(s, t):
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return z3.IntVal(v), v, v
        k = t.decl().kind()
        w = t.size()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            e, lo, hi = s.term(ch[0])
            for c in ch[1:]:
                f, l, h = s.term(c)
                e, lo, hi = e + f, lo + l, hi + h
            return e, lo, hi
        if k == z3.Z3_OP_BSUB and len(ch) == 2:
            e, lo, hi = s.term(ch[0])
            f, l, h = s.term(ch[1])
            return e - f, lo - h, hi - l
        if k == z3.Z3_OP_BNEG:
            e, lo, hi = s.term(ch[0])
            return -e, -hi, -lo
        if k == z3.Z3_OP_BMUL:
            c, rest = 1, []
            for x in ch:
                e, lo, hi = s.term(x)
                if lo == hi:
                    c *= lo
                else:
                    rest.append((e, lo, hi))
            if len(rest) == 0:
                return z3.IntVal(c), c, c
            if len(rest) > 1:
                return None
            e, lo, hi = rest[0]
            return c * e, min(c * lo, c * hi), max(c * lo, c * hi)
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
            c = consts_of(ch[1])
            if c is None or c <= 0:
                return None
            return s.truncdiv(s.term(ch[0]), c)[k in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)]
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            c = consts_of(ch[1])
            x = s.term(ch[0])
            if c is None or c <= 0 or x[1] < 0:
                return None
            return s.floordiv(x, c)[k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)]
        if k == z3.Z3_OP_ITE:
            c = s.boolean(ch[0])
            a, b = s.term(ch[1]), s.term(ch[2])
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if k == z3.Z3_OP_SIGN_EXT:
            return s.term(ch[0])
        if k == z3.Z3_OP_ZERO_EXT:
            return s.unsigned(ch[0]) if w > ch[0].size() else s.term(ch[0])
        if k == z3.Z3_OP_CONCAT:
            if z3.is_bv_value(ch[0]) and ch[0].as_long() == 0 and len(ch) == 2:
                return s.unsigned(ch[1])
            x = ch[-1]
            if all(y.decl().kind() == z3.Z3_OP_EXTRACT and y.params() == [x.size() - 1] * 2 and y.arg(0).eq(x) for y in ch[:-1]):
                return s.term(x)  # sign extension
            if len(ch) == 2:
                h, l = s.term(ch[0]), s.unsigned(ch[1])
                m = 1 << ch[1].size()
                return h[0] * m + l[0], h[1] * m + l[1], h[2] * m + l[2]
            return None
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            x = s.term(ch[0])
            half = 1 << (w - 1)
            if lo_ == 0 and -half <= x[1] and x[2] < half:
                return x
            if z3.is_const(ch[0]) or ch[0].decl().kind() == z3.Z3_OP_SELECT:
                return None
            if lo_ == 0 and x[1] >= 0:
                r = s.floordiv(x, 1 << w)[1]
                return r if r[2] < half else None
            return None
        if k == z3.Z3_OP_BSHL:
            c = consts_of(ch[1])
            if c is None or not 0 <= c < w:
                return None
            e, lo, hi = s.term(ch[0])
            return e * (1 << c), lo << c, hi << c
        if k in (z3.Z3_OP_BASHR, z3.Z3_OP_BLSHR):
            c = consts_of(ch[1])
            x = s.term(ch[0])
            if c is None or not 0 <= c < w or (k == z3.Z3_OP_BLSHR and x[1] < 0):
                return None
            return s.floordiv(x, 1 << c)[0]
        if k == z3.Z3_OP_BNOT:
            e, lo, hi = s.term(ch[0])
            return -1 - e, -1 - hi, -1 - lo
        if k == z3.Z3_OP_INT2BV:
            v, q = s.fresh(), s.fresh()
            half = 1 << (w - 1)
            s.side += [v == s.arith(ch[0]) - (1 << w) * q, v >= -half, v < half]
            return v, -half, half - 1
        return None

    def arith(s, t):
        """integer or real term with its bit-vector parts translated"""
        i = t.get_id()
        r = s.acache.get(i)
        if r is None:
            if s.n > s.limit:
                raise OverflowError
            k, ch = t.decl().kind(), t.children()
            if k == z3.Z3_OP_BV2INT:
                r = s.unsigned(ch[0])[0]
            elif k == SBV2INT:
                r = s.term(ch[0])[0]
            elif k == z3.Z3_OP_ITE:
                r = z3.If(s.boolean(ch[0]), s.arith(ch[1]), s.arith(ch[2]))
            elif k in ARITH:
                r = t.decl()(*[s.arith(x) for x in ch]) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                    (z3.Sum if k == z3.Z3_OP_ADD else z3.Product)(*[s.arith(x) for x in ch])
            else:
                r = t
            s.keep.append(t)
            s.acache[i] = r
        return r

    # ---------------------------------------------------- formulas
    def boolean(s, c):
        i = c.get_id()
        r = s.bcache.get(i)
        if r is None:
            if s.n > s.limit:
                raise OverflowError
            r = s.bcache[i] = s.boolean_(c)
            s.keep.append(c)
        return r

    def opaque(s, c):
        s.keep.append(c)
        return z3.Bool('bvb!%d' % c.get_id())

    def boolean_(s, c):
        k = c.decl().kind()
        ch = c.children()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return c
        if k == z3.Z3_OP_NOT:
            return z3.Not(s.boolean(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And(*[s.boolean(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[s.boolean(x) for x in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(s.boolean(ch[0]), s.boolean(ch[1]))
        if k == z3.Z3_OP_XOR and len(ch) == 2:
            return z3.Xor(s.boolean(ch[0]), s.boolean(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(*[s.boolean(x) for x in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]):
                e = s.boolean(ch[0]) == s.boolean(ch[1])
                return e if k == z3.Z3_OP_EQ else z3.Not(e)
            if z3.is_bv(ch[0]):
                e = s.term(ch[0])[0] == s.term(ch[1])[0]
                return e if k == z3.Z3_OP_EQ else z3.Not(e)
        ops = {z3.Z3_OP_SLT: 'lt', z3.Z3_OP_SLEQ: 'le', z3.Z3_OP_SGT: 'gt', z3.Z3_OP_SGEQ: 'ge'}
        u = {z3.Z3_OP_ULT: 'lt', z3.Z3_OP_ULEQ: 'le', z3.Z3_OP_UGT: 'gt', z3.Z3_OP_UGEQ: 'ge'}
        if k in ops or k in u:
            a, b = (s.term(ch[0])[0], s.term(ch[1])[0]) if k in ops else (s.unsigned(ch[0])[0], s.unsigned(ch[1])[0])
            o = ops.get(k) or u[k]
            return a < b if o == 'lt' else a <= b if o == 'le' else a > b if o == 'gt' else a >= b
        if k in (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL):
            a, b = s.term(ch[0]), s.term(ch[1])
            if b[1] != b[2]:
                a, b = b, a
            if b[1] == b[2]:
                half = 1 << (ch[0].size() - 1)
                e = a[0] * b[1]
                return e < half if k == z3.Z3_OP_BSMUL_NO_OVFL else e >= -half
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and z3.is_arith(ch[0]):
            return c.decl()(s.arith(ch[0]), s.arith(ch[1]))
        if z3.is_const(c):
            return c
        return s.opaque(c)


def unsat(cs, timeout=3000):
    tr = Tr()
    try:
        for c in cs:
            tr.collect(c)
        out = [tr.boolean(c) for c in cs]
    except (OverflowError, RecursionError, z3.Z3Exception):
        return False
    sv = z3.SolverFor('ALL') if False else z3.Solver()
    sv.set('timeout', timeout)
    sv.add(*out)
    sv.add(*tr.side)
    return sv.check() == z3.unsat
