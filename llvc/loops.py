"""Inductive loop summaries.

A loop whose trip count the path condition does not decide is cut at its header:

 * a trial iteration from a generic state finds what one iteration can change
   (SSA values, memory cells, array ranges);
 * every changed scalar gets a template valid at the start of iteration k:
   affine (init + c*k) or an uninterpreted ghost function H(k) of the iteration
   number, with H(0) = init;
 * array ranges written at lo + n*k become a region whose content at iteration
   j is given by the path iteration j took;
 * Trans(j) - "iteration j followed one of the back-edge paths, and H(j+1) is
   what that path computes from H(j)" - holds for every j < k; it is
   instantiated at j = k-1 and at every array index the proof looks at.

The templates are checked to be inductive (`back`): the initial state satisfies
them by construction and each back edge re-establishes them at k+1.  If not,
SummaryFailed makes the engine unroll the loop to a bound instead.
"""
from fractions import Fraction
import z3
from ir import *
from vals import *
from mem import *

KSORT = z3.BitVecSort(64)


class SummaryFailed(Exception):
    def __init__(s, key, why):
        s.key = key
        s.why = why


class NoRepeat(Exception):
    pass


class Poison:
    """a value a summarised loop left unknown; using it aborts the summary"""

    def __init__(s, key, what):
        s.key = key
        s.what = what


def val_kind(v):
    if type(v) is int or (z3.is_expr(v) and (z3.is_bv(v) or z3.is_bool(v))):
        return 'int'
    if isinstance(v, Fraction) or (z3.is_expr(v) and z3.is_real(v)):
        return 'real'
    if isinstance(v, Ptr) and isinstance(v.obj, int):
        return 'ptr'
    return 'other'


def same_val(a, b):
    if a is b:
        return True
    ka, kb = val_kind(a), val_kind(b)
    if ka != kb:
        return False
    if ka in ('int', 'real'):
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if z3.is_expr(a) or z3.is_expr(b):
            return False
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
        return (type(a.off) is int and type(b.off) is int and a.off == b.off) or (
            z3.is_expr(a.off) and z3.is_expr(b.off) and a.off.eq(b.off))
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    return False


def width_of(v, dflt):
    if z3.is_expr(v):
        if z3.is_bool(v):
            return 1
        if z3.is_bv(v):
            return v.size()
    return dflt


class Var:
    """a loop-modified scalar: ('r', reg) or ('m', oid, off, nbytes)"""

    def __init__(s, where, init, w):
        s.where = where
        s.init = init
        s.kind = val_kind(init)
        s.w = w          # bits for ints
        s.mode = 'hav'   # hav | aff | poison
        s.c = None
        s.ext = False
        s.H = None
        s.nexts = []

    def __repr__(s):
        return '%s:%s%s' % (s.where, s.mode, s.c if s.c is not None else '')


def fresh_ids(eng):
    return eng.fresh, len(getattr(eng, 'numvals', ()))


def mentions_fresh(e, snap, cache, allowed):
    """does e mention a constant created after the snapshot (other than allowed)?"""
    stk = [e]
    seen = set()
    while stk:
        t = stk.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if nm not in allowed and '!' in nm:
                    a, b = nm.rsplit('!', 1)
                    b = b.split('.')[0]
                    if b.isdigit():
                        if a == 'num':
                            if int(b) >= snap[1]:
                                return True
                        elif int(b) > snap[0]:
                            return True
            stk.extend(t.children())
    return False


def pre_state_content(o):
    return (o.layers, o.cells)


class Loop:
    def __init__(s, eng, st, fr, blk):
        s.eng = eng
        s.blk = blk
        s.f = fr.f
        s.key = (fr.f.name, blk)
        s.id = eng.fresh_name('loop')
        s.k = z3.BitVec(eng.fresh_name('k'), 64)
        s.depth = len(st.frames)
        s.vars = {}
        s.regions = {}   # oid -> dict(lo, n, paths)
        s.paths = []
        s.allowed = {s.k.decl().name()}
        code = s.f.blocks[blk]
        s.phis = [(i.dst, i.ty) for i in code if i.op == 'phi']
        s.init_state = st
        for d, ty in s.phis:
            v = fr.regs[d]
            s.vars[('r', d)] = Var(('r', d), v, size_bits(ty))

    def fail(s, why):
        raise SummaryFailed(s.key, why)

    # ---------------------------------------------------------- templates
    def hfun(s, v):
        if v.H is None:
            if v.kind == 'real':
                rs = z3.RealSort()
            elif v.kind == 'ptr':
                rs = KSORT
            else:
                w = v.w
                rs = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
            nm = s.eng.fresh_name('H')
            s.allowed.add(nm)
            v.H = z3.Function(nm, KSORT, rs)
        return v.H

    def value(s, v, k):
        """template of v at iteration k (a z3 term)"""
        if v.mode == 'poison':
            return Poison(s.key, str(v.where))
        if v.mode == 'hav':
            if v.kind == 'other':
                return Poison(s.key, str(v.where))
            t = s.hfun(v)(k)
            return Ptr(v.init.obj, t) if v.kind == 'ptr' else t
        if v.kind == 'ptr':
            return Ptr(v.init.obj, s.affine(v.init.off, v.c, k))
        if v.w == 64:
            return s.affine(v.init, v.c, k)
        if v.ext:
            return simp(z3.Extract(v.w - 1, 0, to_bv(s.xval(v, k), 64)))
        return simp(to_bv(v.init, v.w) + z3.BitVecVal(v.c & mask(v.w), v.w) * z3.Extract(v.w - 1, 0, k))

    def xval(s, v, k):
        i = v.init
        i = sgn(i, v.w) & mask(64) if type(i) is int else z3.SignExt(64 - v.w, i)
        return s.affine(i, v.c, k)

    def affine(s, init, c, k):
        return simp(to_bv(init, 64) + z3.BitVecVal(c & mask(64), 64) * k)

    def install_vars(s, st, fr):
        for v in s.vars.values():
            t = s.value(v, s.k)
            if v.where[0] == 'r':
                fr.regs[v.where[1]] = t
            else:
                _, oid, off, n = v.where
                if v.kind == 'int' and z3.is_expr(t) and z3.is_bool(t):
                    t = to_bv(t, 8)
                st.write_n(oid, off, n, t)
            if v.mode == 'aff' and v.ext:
                x = s.xval(v, s.k)
                st.add(z3.And(x >= -(1 << (v.w - 1)), x < (1 << (v.w - 1))))
                st.ghost.setdefault('exts', ())
                st.ghost['exts'] = st.ghost['exts'] + ((t, x, v.w),)
            if v.mode == 'hav' and v.kind in ('int', 'real', 'ptr'):
                z = z3.BitVecVal(0, 64)
                h = s.hfun(v)(z)
                i = v.init.off if v.kind == 'ptr' else v.init
                if v.kind == 'real':
                    st.add(h == to_real(i))
                elif v.kind == 'ptr':
                    st.add(h == to_bv(i, 64))
                elif v.w == 1:
                    st.add(h == tob(i))
                else:
                    st.add(h == to_bv(i, v.w))

    # ---------------------------------------------------------- trial
    def trial(s, with_hist):
        """run one generic iteration; -> list of back-edge records"""
        eng = s.eng
        T = s.init_state.fork()
        tok = object()
        T.trial = tok
        fr = T.frames[-1]
        fr.loopctx[s.blk] = {'trial': tok}
        snap = fresh_ids(eng)
        s.install_regions(T)
        s.install_vars(T, fr)
        if with_hist:
            s.install_history(T)
        T.model = None
        pre = {}
        for i, o in T.objs.items():
            o.owner = None
            pre[i] = o
        pre_reads = {i: set(r) for i, r in T.reads.items()}
        npc = len(T.pc)
        backs = []
        nexc = len(T.exc)

        def on_end(e):
            if not hasattr(e, 'kind'):
                s.fail('trial left the contract')
            if e.kind != 'back':
                return
            B = e.st
            if len(B.exc) != nexc:
                s.fail('exception state changes')
            backs.append(s.record(B, pre, pre_reads, npc, snap))
            if len(backs) > 400:
                s.fail('too many paths through the body')
        old = (eng.npaths,)
        try:
            eng.explore(T, on_end)
        except Unsupported as e:
            s.fail('trial iteration: %s' % e)
        eng.npaths = old[0]
        return backs

    def record(s, B, pre, pre_reads, npc, snap):
        r = {}
        fr = B.frames[s.depth - 1]
        r['conds'] = [c for c in B.pc[npc:]]
        r['regs'] = {d: fr.regs[d] for d, _ in s.phis}
        cells = {}
        writes = {}
        for i, p in pre.items():
            o = B.objs.get(i)
            if o is p or o is None:
                continue
            if o.alive != p.alive:
                if p.kind == 'stack' and not o.alive:
                    continue
                s.fail('an object is destroyed in the loop')
            if o.size is not p.size:
                s.fail('object resized')
            if len(o.layers) == len(p.layers) and all(a is b for a, b in zip(o.layers, p.layers)) and o.base is p.base:
                for off in set(o.cells) | set(p.cells):
                    a, b = p.cells.get(off), o.cells.get(off)
                    if b is None:
                        s.fail('cell removed')
                    if a is None or a[0] != b[0] or not same_val(a[1], b[1]):
                        cells[(i, off, b[0])] = b[1]
                continue
            if o.base is not p.base:
                s.fail('object refilled in the loop')
            n = len(p.layers)
            if len(o.layers) < n or any(a is not b for a, b in zip(o.layers[:n], p.layers)):
                s.fail('memory layers')
            ws = []
            rest = o.layers[n:]
            base = p.cells
            for L in rest:
                if isinstance(L, CellsLayer):
                    for off, c in L.cells.items():
                        a = base.get(off)
                        if a is None or a[0] != c[0] or not same_val(a[1], c[1]):
                            cells[(i, off, c[0])] = c[1]
                    base = {}
                else:
                    if type(L.n) is not int:
                        s.fail('block write of symbolic size in the loop')
                    ws.append((L.lo, L.n, L.fn(B, 0)))
                    if L.n != 1:
                        s.fail('block write in the loop')
            for off, c in o.cells.items():
                a = base.get(off)
                if a is None or a[0] != c[0] or not same_val(a[1], c[1]):
                    cells[(i, off, c[0])] = c[1]
            if ws:
                writes[i] = ws
        r['cells'] = cells
        r['writes'] = writes
        r['state'] = B
        r['snap'] = snap
        reads = {}
        for i, rd in B.reads.items():
            if i not in pre:
                continue
            old = pre_reads.get(i, ())
            new = [x for k, x in rd.items() if k not in old and z3.is_expr(x)]
            if new:
                reads[i] = new
        r['reads'] = reads
        return r

    # ---------------------------------------------------------- analysis
    def analyse(s):
        # 1. find everything the body modifies
        for rnd in range(12):
            backs = s.trial(False)
            if not backs:
                raise NoRepeat()
            new = False
            for r in backs:
                for (oid, off, n), v in r['cells'].items():
                    w = ('m', oid, off, n)
                    if w in s.vars:
                        continue
                    if any(x[0] == 'm' and x[1] == oid and not (x[2] + x[3] <= off or off + n <= x[2]) for x in s.vars):
                        # overlapping cells of different shape: give up on their value
                        for x in list(s.vars):
                            if x[0] == 'm' and x[1] == oid and not (x[2] + x[3] <= off or off + n <= x[2]):
                                s.fail('overlapping cells modified')
                    o = s.init_state.objs[oid]
                    c = o.cells.get(off)
                    if c is not None and c[0] == n:
                        iv = c[1]
                    else:
                        iv = s.init_state.read_n(o, off, n)
                    nv = s.vars[w] = Var(w, iv, 8 * n)
                    s.guess(nv, v)
                    new = True
                for oid, ws in r['writes'].items():
                    if oid not in s.regions:
                        s.regions[oid] = None
                        new = True
            if not new:
                break
        else:
            s.fail('modified set does not stabilise')
        # 2. classify the scalars
        for v in s.vars.values():
            nx = [s.next_of(r, v) for r in backs]
            s.classify(v, nx, backs)
        # 3. iterate to a stable set of templates
        for rnd in range(8):
            backs = s.trial(False)
            changed = False
            for v in s.vars.values():
                if v.mode != 'aff':
                    continue
                for r in backs:
                    nx = s.next_of(r, v)
                    if not s.is_next(r['state'], v, nx):
                        if v.ext:
                            v.ext = False
                        else:
                            v.mode = 'hav'
                        changed = True
                        break
            if not changed:
                break
        else:
            s.fail('templates do not stabilise')
        if s.regions:
            backs = s.region_rounds(backs)
        s.paths = [s.path_of(r) for r in backs]
        s.readpts = s.read_points(backs)
        s.backs = None
        # history may rule out paths; templates were valid without it

    def guess(s, v, nx):
        """first template of a newly found cell, from the change seen in the
        trial that still held it at its initial value"""
        if val_kind(nx) != v.kind:
            return
        if v.kind == 'ptr' and nx.obj == v.init.obj:
            d = osub(nx.off, v.init.off)
            if type(d) is int and d != 0:
                v.mode, v.c = 'aff', sgn(d & mask(64), 64)
        elif v.kind == 'int' and v.w in (8, 16, 32, 64):
            if any(z3.is_expr(x) and (not z3.is_bv(x) or x.size() != v.w) for x in (nx, v.init)):
                return
            d = simp(to_bv(nx, v.w) - to_bv(v.init, v.w))
            if type(d) is int and d != 0:
                v.mode, v.c = 'aff', sgn(d, v.w)
                v.ext = v.w < 64 and v.w >= 16

    def next_of(s, r, v):
        if v.where[0] == 'r':
            return r['regs'][v.where[1]]
        _, oid, off, n = v.where
        o = r['state'].objs[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return r['state'].read_n(o, off, n)

    def classify(s, v, nx, backs):
        if v.kind == 'other':
            v.mode = 'poison'
            return
        cur = s.value(v, s.k)
        if any(val_kind(x) != v.kind for x in nx):
            if v.kind == 'real' and all(val_kind(x) == 'real' or x == 0 for x in nx):
                pass
            else:
                v.mode = 'poison'
                return
        if v.kind == 'real':
            v.mode = 'hav'
            return
        if v.kind == 'ptr':
            if any(x.obj != v.init.obj for x in nx):
                v.mode = 'poison'
                return
            ds = [osub(x.off, cur.off) for x in nx]
            w = 64
        else:
            w = v.w
            if w == 1 or any(z3.is_expr(x) and z3.is_bool(x) for x in nx):
                if v.where[0] == 'r':
                    v.w = 1
                v.mode = 'hav'
                return
            if any(z3.is_expr(x) and x.size() != w for x in nx):
                v.mode = 'poison'
                return
            ds = [simp(to_bv(x, w) - to_bv(cur, w)) for x in nx]
        if all(type(d) is int for d in ds) and len(set(ds)) == 1:
            v.mode = 'aff'
            v.c = sgn(ds[0], w)
            v.ext = v.kind == 'int' and w < 64 and w >= 16
        else:
            v.mode = 'hav'

    def is_next(s, B, v, nx):
        """does nx equal the template at k+1 ?"""
        k1 = s.k + 1
        if val_kind(nx) != v.kind:
            return False
        if v.kind == 'ptr':
            if nx.obj != v.init.obj:
                return False
            c = oeq(nx.off, s.affine(v.init.off, v.c, k1))
        else:
            w = v.w
            t = s.value(v, k1)
            if z3.is_expr(nx) and nx.size() != w:
                return False
            c = simp(to_bv(nx, w) == to_bv(t, w))
            if v.ext:
                x = to_bv(s.xval(v, k1), 64)
                c = b_and(c, simp(z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1)))))
                if not isinstance(c, bool):
                    c = simp(c)
        return c is True or (not isinstance(c, bool) and s.holds(B, c))

    def holds(s, B, c):
        try:
            return B.implied(c) is True
        except PathEnd:
            return True

    # ---------------------------------------------------------- regions
    def region_rounds(s, backs):
        for oid in s.regions:
            s.regions[oid] = s.region_info(oid, backs)
        prev = s.region_key()
        for _ in range(3):
            backs = s.trial(True) if False else s.trial(False)
            for oid in s.regions:
                s.regions[oid] = s.region_info(oid, backs)
            for r in backs:
                for oid in r['writes']:
                    if oid not in s.regions:
                        s.fail('writes do not stabilise')
            cur = s.region_key()
            if cur == prev:
                return backs
            prev = cur
        s.fail('array content does not stabilise')

    def region_key(s):
        return sorted((oid, str(i['lo0']), i['n'], tuple(sorted((p[0].sexpr(), str(p[1])) for p in i['paths'])))
                      for oid, i in s.regions.items())

    def region_info(s, oid, backs):
        lo0 = None
        n = None
        paths = []
        for r in backs:
            ws = r['writes'].get(oid)
            cond = s.conj(r)
            if not ws:
                paths.append((cond, None))
                continue
            if len(ws) > 8:
                s.fail('many array writes per iteration')
            # byte writes, consecutive
            lo = ws[0][0]
            if not z3.is_expr(lo):
                s.fail('array write at a fixed position')
            c0, terms = linear(lo)
            ck = [cf for t, cf in terms if t.eq(s.k)]
            if len(ck) != 1:
                s.fail('array write position is not affine')
            cf = sgn(ck[0] & mask(64), 64)
            rest = simp(lo - s.k * z3.BitVecVal(ck[0] & mask(64), 64))
            bs = {}
            for l, m, val in ws:
                d = osub(l, lo)
                if type(d) is not int:
                    s.fail('array writes not adjacent')
                bs[d] = val
            if cf != len(bs) or set(bs) != set(range(cf)):
                s.fail('array writes not contiguous')
            if lo0 is None:
                lo0, n = rest, cf
            elif n != cf or not (rest is lo0 or (z3.is_expr(rest) and z3.is_expr(lo0) and rest.eq(lo0)) or rest == lo0 is True
                                 or (type(rest) is int and type(lo0) is int and rest == lo0)):
                s.fail('array writes differ between paths')
            vals = []
            for d in range(cf):
                v = bs[d]
                if z3.is_expr(v) and mentions_fresh(v, r['snap'], None, s.allowed):
                    s.fail('array content depends on iteration-local values')
                if not (type(v) is int or (z3.is_expr(v) and z3.is_bv(v))):
                    s.fail('array content')
                vals.append(v)
            paths.append((cond, vals))
        if lo0 is None:
            s.fail('no array write')
        return dict(lo0=lo0, n=n, paths=paths)

    def conj(s, r):
        cs = [c for c in r['conds'] if not mentions_fresh(c, r['snap'], None, s.allowed)]
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def install_regions(s, st):
        for oid, info in s.regions.items():
            snap = st.snap(oid)
            if info is None:
                st.push_region(oid, 0, 0, lambda st2, i: 0)
                continue
            lo0, n, paths = info['lo0'], info['n'], info['paths']
            k = s.k

            def fn(st2, i, snap=snap, lo0=lo0, n=n, paths=paths):
                off = oadd(lo0, i)
                old = st2.rbyte(snap, off, False)
                i64 = to_bv(i, 64)
                j = i64 if n == 1 else z3.UDiv(i64, z3.BitVecVal(n, 64))
                rr = 0 if n == 1 else z3.URem(i64, z3.BitVecVal(n, 64))
                res = old
                for cond, vals in paths:
                    if vals is None:
                        continue
                    v = vals[-1]
                    for d in range(n - 1):
                        v = ite(rr == d, vals[d], v, 8)
                    v = z3.substitute(to_bv(v, 8), (k, j))
                    res = ite(z3.substitute(cond, (k, j)), v, res, 8)
                return simp(res) if z3.is_expr(res) else res
            size = simp(k * n) if n != 1 else k
            st.push_region(oid, lo0, size, fn)
            st.push_region(oid, 0, 0, lambda st2, i: 0)

    # ---------------------------------------------------------- history
    def path_of(s, r):
        """conjunct list describing one back-edge path at iteration k"""
        cs = [c for c in r['conds'] if not mentions_fresh(c, r['snap'], None, s.allowed)]
        k1 = s.k + 1
        prog = False
        for v in s.vars.values():
            if v.mode == 'aff':
                prog = prog or v.c != 0
                continue
            if v.mode != 'hav':
                prog = True
                continue
            nx = s.next_of(r, v)
            cur = s.value(v, s.k)
            if not same_val(nx, cur):
                prog = True
            t = s.hfun(v)(k1)
            if v.kind == 'ptr':
                nx = to_bv(nx.off, 64)
            elif v.kind == 'real':
                nx = to_real(nx)
            elif v.w == 1:
                nx = tob(nx)
            else:
                nx = to_bv(nx, v.w)
            if not mentions_fresh(nx, r['snap'], None, s.allowed):
                cs.append(t == nx)
        if r['writes']:
            prog = True
        return cs

    def trans(s, j):
        """Trans(j) as a formula"""
        if s._trans is None:
            s._trans = z3.Or(*[z3.And(*cs) if cs else z3.BoolVal(True) for cs in s.paths]) if s.paths else z3.BoolVal(True)
        return z3.substitute(s._trans, (s.k, to_bv(j, 64)))

    _trans = None

    def read_points(s, backs):
        """(oid, R, m): the body reads element R + m*k of object oid"""
        pts = {}
        for r in backs:
            for oid, idxs in r['reads'].items():
                for x in idxs:
                    if mentions_fresh(x, r['snap'], None, s.allowed):
                        continue
                    try:
                        c0, terms = linear(x)
                    except Exception:
                        continue
                    ck = [cf for t, cf in terms if t.eq(s.k)]
                    if len(ck) != 1:
                        continue
                    m = sgn(ck[0] & mask(64), 64)
                    R = simp(x - s.k * z3.BitVecVal(ck[0] & mask(64), 64))
                    others = tuple(sorted((t.get_id(), cf) for t, cf in terms if not t.eq(s.k)))
                    key = (oid, m, others)
                    c = sgn(c0, 64)
                    if key not in pts or (c < pts[key][0]) == (m > 0):
                        pts[key] = (c, R)
        return [(oid, R, m) for (oid, m, _), (c, R) in pts.items()]

    def diseq_points(s):
        out = {}
        for cs in s.paths:
            for c in cs:
                if not (z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_bv(c.arg(0).arg(0))):
                    continue
                a, b = c.arg(0).children()
                if a.size() != 64:
                    continue
                d = simp(a - b)
                if not z3.is_expr(d):
                    continue
                c0, terms = linear(d)
                ck = [cf for t, cf in terms if t.eq(s.k)]
                if len(ck) != 1:
                    continue
                cf = sgn(ck[0] & mask(64), 64)
                m = abs(cf)
                rest = [(t, f) for t, f in terms if not t.eq(s.k)]
                if m == 0 or any(s.mentions_k(t) for t, f in rest):
                    continue
                sg = -1 if cf > 0 else 1
                c0 = sgn(c0 & mask(64), 64)
                fs = [(t, sgn(f & mask(64), 64)) for t, f in rest]
                if c0 % m or any(f % m for t, f in fs):
                    continue
                e = z3.BitVecVal((sg * c0 // m) & mask(64), 64)
                for t, f in fs:
                    e = e + t * z3.BitVecVal((sg * f // m) & mask(64), 64)
                e = simp(e)
                out[e if type(e) is int else e.get_id()] = e
        return list(out.values())

    def mentions_k(s, e):
        stk, seen = [e], set()
        while stk:
            t = stk.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.eq(s.k):
                return True
            stk.extend(t.children())
        return False

    def install_history(s, st):
        k = s.k
        for oid, R, m in s.readpts:
            def fact(st2, idx, R=R, m=m):
                d = osub(idx, R) if m > 0 else osub(R, idx)
                a = abs(m)
                if a == 1:
                    j = d
                elif type(d) is int:
                    j = d // a
                else:
                    c0, terms = linear(d)
                    if c0 % a == 0 and all(cf % a == 0 for _, cf in terms):
                        e = z3.BitVecVal(c0 // a, 64)
                        for t, cf in terms:
                            e = e + t * z3.BitVecVal((cf // a) & mask(64), 64)
                        j = simp(e)
                    else:
                        j = simp(z3.UDiv(d, z3.BitVecVal(a, 64)))
                g = olt(j, k)
                if g is False:
                    return True
                dk = ('hist', s.id, j if type(j) is int else j.get_id())
                if dk in st2.ghost:
                    return True
                st2.ghost[dk] = j
                return z3.Implies(tob_(g), s.trans(j))
            st.add_fact(oid, fact)
        # exits of the form "position = end": the iteration that would reach
        # the end was not passed
        for j in s.diseq_points():
            g = olt(j, k)
            if g is not False:
                st.add(z3.Implies(tob_(g), s.trans(j)))
        # the previous iteration
        kp = s.k - 1
        st.add(z3.Or(s.k == 0, s.trans(kp)))
        if s.eng.lipschitz:
            import builtins_
            builtins_.lipschitz_scan(s.eng, st, s.trans(kp))
        st.ghost['loops'] = st.ghost.get('loops', ()) + (s,)


def tob_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def size_bits(ty):
    if isinstance(ty, IntT):
        return ty.w
    return 64


def enter(eng, st, fr, blk):
    L = Loop(eng, st, fr, blk)
    st.model = None
    L.init_state = st.fork()
    try:
        L.analyse()
    except NoRepeat:
        return          # the body never repeats from any state: no cut needed
    # install the generic state for the real run
    L.install_regions(st)
    L.install_vars(st, fr)
    L.install_history(st)
    st.model = None
    pre = {}
    for i, o in st.objs.items():
        o.owner = None
        pre[i] = o
    cx = {'loop': L, 'pre': pre, 'trial': None, 'npc': len(st.pc), 'nexc': len(st.exc),
          'reads': {i: set(r) for i, r in st.reads.items()}, 'snap': fresh_ids(eng)}
    fr.loopctx[blk] = cx
    eng.loop_notes[L.key] = 'summarised (%s)' % ', '.join(
        '%s%s' % (v.mode, '' if v.c is None else '%+d' % v.c) for v in L.vars.values())
    if not eng.feasible(st):
        raise PathEnd()


def back(eng, st, fr, blk, cx):
    """a back edge in the generic run: the templates must hold at k+1"""
    L = cx['loop']
    r = L.record(st, cx['pre'], cx['reads'], cx['npc'], cx['snap'])
    prog = False
    for (oid, off, n), v in r['cells'].items():
        if ('m', oid, off, n) not in L.vars:
            L.fail('cell modified outside the template')
    for oid in r['writes']:
        if oid not in L.regions:
            L.fail('array modified outside the template')
        prog = True
    for v in L.vars.values():
        nx = L.next_of(r, v)
        if v.mode == 'aff':
            if not L.is_next(st, v, nx):
                L.fail('template of %s is not inductive' % (v.where,))
            prog = prog or v.c != 0
        elif v.mode == 'hav':
            if val_kind(nx) != v.kind and not (v.kind == 'real' and nx == 0):
                L.fail('value kind changes')
            if v.kind == 'ptr' and nx.obj != v.init.obj:
                L.fail('pointer object changes')
            prog = prog or not same_val(nx, L.value(v, L.k))
        else:
            prog = True
    if len(st.exc) != cx['nexc']:
        L.fail('exception state')
    if st.trial is None:
        eng.obligation(st, 'termination', prog, None, 'an iteration of the loop changes nothing: it repeats forever')


def couple(eng, st, x, y):
    """prove that two ghost functions of two summarised loops agree (induction
    on the iteration number); learns the equalities it proves"""
    loops = st.ghost.get('loops', ())
    if len(loops) < 2:
        return
    apps = {}
    stk = [x, y]
    seen = set()
    while stk:
        t = stk.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and z3.is_real(t):
                for L in loops:
                    for v in L.vars.values():
                        if v.H is not None and v.kind == 'real' and v.H.eq(t.decl()):
                            apps.setdefault((L.id, t.decl().name()), (L, v, t))
            stk.extend(t.children())
    al = list(apps.values())
    for i in range(len(al)):
        for j in range(i + 1, len(al)):
            L1, v1, t1 = al[i]
            L2, v2, t2 = al[j]
            if L1 is L2:
                continue
            k1, k2 = t1.arg(0), t2.arg(0)
            if st.implied(simp(k1 == k2)) is not True:
                continue
            if st.implied(simp(to_real(v1.init) == to_real(v2.init))) is not True:
                continue
            q = z3.BitVec(eng.fresh_name('j'), 64)
            s2 = st.fork()
            s2.model = None
            s2.add(z3.ULT(q, k1))
            s2.add(L1.trans(q))
            s2.add(L2.trans(q))
            s2.add(v1.H(q) == v2.H(q))
            goal = v1.H(q + 1) == v2.H(q + 1)
            eng.sync(s2)
            r, m = eng._check(z3.Not(goal))
            if r == z3.unknown:
                r, m = eng.oneshot(s2, z3.Not(goal))
            if r == z3.unsat:
                st.add(t1 == t2)
                eng.assumes.discard('')
