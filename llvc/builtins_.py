"""Contracts of everything outside the real code: the verification intrinsics
(vf_*), compiler intrinsics, the C library and the C++ runtime.  These are the
assumed (trusted) contracts listed in the evidence."""
import re
from fractions import Fraction
import z3
from ir import *
from vals import *
from mem import *
import realalg
import loops as loopmod


class _C:
    pass


CONTROL = _C()   # the builtin already transferred control
FALLBACK = _C()  # use the reference implementation linked into the module

B = {}
RX = []


def b(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


def rx(p):
    def d(f):
        RX.append((re.compile(p), f))
        return f
    return d


_miss = set()


def find(name):
    f = B.get(name)
    if f is not None:
        return f
    if name in _miss:
        return None
    for p, f in RX:
        if p.match(name):
            B[name] = f
            return f
    _miss.add(name)
    return None


# ------------------------------------------------------------------ helpers
def cstring(st, p):
    """concrete C string"""
    o = st.objs[p.obj]
    r = bytearray()
    i = p.off
    while True:
        c = st.rbyte(o, i, False)
        if type(c) is not int:
            raise Unsupported('string literal expected')
        if c == 0:
            return r.decode('latin1')
        r.append(c)
        i += 1


def okbyte(st, v):
    if v is UNDEF:
        st.fail('uninit', detail='uninitialised bytes inspected')
    if isinstance(v, Part):
        raise Unsupported('non-character bytes inspected as characters')
    return v


def rd(st, p, i=0, check=True):
    """checked byte read"""
    q = Ptr(p.obj, oadd(p.off, i))
    if check:
        st.access(q, 1, 'read')
    return okbyte(st, st.rbyte(st.objs[p.obj], q.off))


def strlen(st, p):
    if not isinstance(p, Ptr) or not isinstance(p.obj, int):
        st.fail('memory', detail='string function on a null/invalid pointer')
    st.access(p, 1, 'read')
    o = st.objs[p.obj]
    if isinstance(o.base, SymBase) and o.base.nul is not None and not o.cells and not o.layers:
        nul = o.base.nul
        st.note_read(o.id, nul)
        return osub(nul, p.off)   # access() proved off <= nul (size = nul+1)
    if type(o.size) is int and o.size <= 4096:
        off = st.concretize(p.off)
        i = 0
        while True:
            c = rd(st, Ptr(p.obj, off), i)
            if st.decide(int_eq(c, 0, 8)):
                return i
            i += 1
    # skolem: first NUL at fresh index n
    key = ('strlen', o.id, id(o.layers), len(o.cells), p.off if type(p.off) is int else p.off.get_id())
    part = st.ghost.get(key)
    if part is not None and part[1] is o.layers and part[2] == o.cells:
        if part[3]:
            return part[0]
        n = part[0]      # resumed after a case split
    else:
        n = z3.BitVec(st.eng.fresh_name('len'), 64)
        st.ghost[key] = (n, o.layers, dict(o.cells), False, p.off)
    snap = st.snap(p.obj)
    poff = p.off
    # existence of a terminator: needs to be inside the object
    # (obligation: some byte before the end is NUL -- provided by a known NUL)
    end = snap.size
    if isinstance(snap.base, SymBase) and snap.base.nul is not None:
        z = st.rbyte(snap, snap.base.nul)
        cond = b_and(ole(poff, snap.base.nul), int_eq(okbyte(st, z), 0, 8))
        st.oblige('memory', cond, detail='string is NUL terminated inside ' + snap.name)
        known = snap.base.nul
    else:
        known = None
        cands = [off for off, c in snap.cells.items() if c[0] == 1]
        for L in reversed(snap.layers):
            if isinstance(L, Region):
                if type(L.n) is int and L.n == 1:
                    cands.append(L.lo)
            else:
                cands += [off for off, c in L.cells.items() if c[0] == 1]
        for lo in cands[:8]:
            z = st.rbyte(snap, lo, False)
            if isinstance(z, (Undef, Part)):
                continue
            c = b_and(b_and(ole(poff, lo), olt(lo, snap.size)), int_eq(z, 0, 8))
            if c is True or (c is not False and st.implied(simp(c)) is True):
                known = lo
                break
        if known is None:
            raise Unsupported('strlen of an unbounded buffer')
    v = st.rbyte(snap, oadd(poff, n))
    st.add(simp(z3.ULE(n, to_bv(osub(known, poff), 64))))

    def fact(st2, idx):
        c = b_and(ole(poff, idx), olt(osub(idx, poff), n))
        if c is False:
            return True
        v = st2.rbyte(snap, idx, False)
        if isinstance(v, (Undef, Part)):
            return True
        nz = b_not(int_eq(v, 0, 8))
        return z3.Implies(tob_(c), tob_(nz))
    st.add_fact(p.obj, fact)
    st.add(simp(tob_(int_eq(okbyte(st, v), 0, 8))))
    st.ghost[key] = st.ghost[key][:3] + (True, p.off)
    return n


def tob_(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def compare(st, a, c, n, stop_nul):
    """strncmp (stop_nul) / memcmp over concrete n -> BV32/int result"""
    run = True
    parts = []
    for i in range(n):
        pa = Ptr(a.obj, oadd(a.off, i))
        pb = Ptr(c.obj, oadd(c.off, i))
        for q in (pa, pb):
            o = st.objs[q.obj]
            if not o.alive:
                st.access(q, 1, 'read')
            inb = olt(q.off, o.size)
            if inb is not True:
                cond = b_or(b_not(run), inb)
                if cond is False:
                    st.access(q, 1, 'read')
                st.oblige('memory', cond if isinstance(cond, bool) else simp(cond),
                          detail='string comparison reads within ' + o.name)
        oa, ob = st.objs[pa.obj], st.objs[pb.obj]
        x = st.rbyte(oa, pa.off)
        y = st.rbyte(ob, pb.off)
        if x is UNDEF or y is UNDEF:
            if run is not True and st.implied(run) is False:
                break
            if not isinstance(run, bool) and not st.decide(simp(run)):
                break
            st.fail('uninit', detail='comparison reads uninitialised bytes')
        if isinstance(x, Part) or isinstance(y, Part):
            raise Unsupported('memcmp over non-bytes')
        eq = int_eq(x, y, 8)
        parts.append((eq, x, y))
        if eq is False:
            run = False
            break
        nz = b_not(int_eq(x, 0, 8)) if stop_nul else True
        if nz is False:
            parts.append((None, 0, 0))
            run = False
            break
        parts[-1] = (eq, x, y, nz)
        run = b_and(run, eq, nz)
        if not isinstance(run, bool):
            run = simp(run)
        if run is False:
            break
        if i % 4 == 3 and not isinstance(run, bool) and st.implied(run) is False:
            break
    r = 0
    for p in reversed(parts):
        if p[0] is None:
            r = 0
            continue
        eq, x, y = p[:3]
        if type(x) is int and type(y) is int:
            sg = mask(32) if x < y else 1
        else:
            sg = z3.If(z3.ULT(to_bv(x, 8), to_bv(y, 8)), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32))
        if len(p) == 4 and p[3] is not True:
            r = ite(p[3], r, 0, 32)
        r = ite(eq, r, sg, 32)
    return simp(r) if type(r) is not int else r


def compare_sym(st, a, c, n, stop_nul):
    """unbounded comparison through the index d of the first difference/end"""
    d = z3.BitVec(st.eng.fresh_name('diff'), 64)
    oa, ob = st.snap(a.obj), st.snap(c.obj)
    if n is not None:
        st.add(simp(z3.ULE(d, to_bv(n, 64))))
        if not stop_nul:
            st.access(a, n, 'read')
            st.access(c, n, 'read')
    else:
        la, lb = strlen(st, a), strlen(st, c)
        st.add(simp(z3.And(z3.ULE(d, to_bv(la, 64)), z3.ULE(d, to_bv(lb, 64)))))
    aoff, boff = a.off, c.off

    def eqat(st2, i):
        x = st2.rbyte(oa, oadd(aoff, i), False)
        y = st2.rbyte(ob, oadd(boff, i), False)
        if isinstance(x, (Undef, Part)) or isinstance(y, (Undef, Part)):
            return True
        e = int_eq(x, y, 8)
        if stop_nul:
            e = b_and(e, b_not(int_eq(x, 0, 8)))
        return e

    def mk(off):
        def fact(st2, idx):
            i = osub(idx, off)
            g = olt(i, d)
            if g is False:
                return True
            e = eqat(st2, i)
            return True if e is True else z3.Implies(tob_(g), tob_(e))
        return fact
    st.add_fact(a.obj, mk(aoff))
    st.add_fact(c.obj, mk(boff))
    x = okbyte(st, st.rbyte(oa, oadd(aoff, d)))if n is None else None
    if n is not None:
        if not st.decide(oeq(d, n)):
            x = okbyte(st, st.rbyte(oa, oadd(aoff, d)))
        else:
            return 0
    y = okbyte(st, st.rbyte(ob, oadd(boff, d)))
    e = int_eq(x, y, 8)
    if stop_nul:
        st.add(simp(tob_(b_or(b_not(e), int_eq(x, 0, 8)))))
    else:
        st.add(simp(tob_(b_not(e))))
        e = False
    lt = olt(z3.ZeroExt(56, to_bv(x, 8)), z3.ZeroExt(56, to_bv(y, 8)))
    return ite(e, 0, ite(lt, mask(32), 1, 32), 32)


# ------------------------------------------------------------------ vf_*
def fresh_int(w):
    def f(eng, st, fr, ins, a, name):
        nm = cstring(st, a[0])
        v = z3.BitVec(eng.fresh_name(nm), w)
        st.nd.append(('i%d' % w, nm, v))
        return v
    return f


for _w in (8, 16, 32, 64):
    B['vf_i%d' % _w] = fresh_int(_w)


@b('vf_bool')
def _(eng, st, fr, ins, a, name):
    nm = cstring(st, a[0])
    v = z3.Bool(eng.fresh_name(nm))
    st.nd.append(('bool', nm, v))
    return v


@b('vf_real')
def _(eng, st, fr, ins, a, name):
    nm = cstring(st, a[0])
    v = z3.Real(eng.fresh_name(nm))
    st.nd.append(('real', nm, v))
    return v


@b('vf_in')
def _(eng, st, fr, ins, a, name):
    nm = cstring(st, a[0])
    v = z3.BitVec(eng.fresh_name(nm), 64)
    st.nd.append(('i64', nm, v))
    st.assume(simp(z3.And(to_bv(a[1], 64) <= v, v <= to_bv(a[2], 64))))
    return v


@b('vf_real_hint')
def _(eng, st, fr, ins, a, name):
    nm = cstring(st, a[0])
    v = z3.Real(eng.fresh_name(nm))
    st.nd.append(('real', nm, v))
    return v


@b('vf_lemma_factor')
def _(eng, st, fr, ins, a, name):
    """ghost: |e| <= bound (an obligation); products e*(sin a - sin b) are then at most
    bound*|a - b|, a consequence z3 does not find by itself"""
    e, bd = a[0], a[1]
    st.oblige('lemma', simp(z3.And(to_real(e) <= to_real(bd), -to_real(bd) <= to_real(e))), 'factor bound', 'factor bound')
    st.ghost['factors'] = st.ghost.get('factors', ()) + ((to_real(e), to_real(bd)),)
    return None


@b('vf_bytes')
def _(eng, st, fr, ins, a, name):
    p, n, nm = a[0], a[1], cstring(st, a[2])
    if type(n) is not int:
        raise Unsupported('vf_bytes needs a constant size')
    st.access(p, n, 'write')
    nm2 = eng.fresh_name(nm)
    bs = [z3.BitVec('%s.%d' % (nm2, i), 8) for i in range(n)]
    for i in range(n):
        st.write_n(p.obj, p.off + i, 1, bs[i])
    st.nd.append(('bytes', nm, bs))
    return None


@b('vf_chars')
def _(eng, st, fr, ins, a, name):
    """n arbitrary bytes, each one of the characters of the given set"""
    p, n, cs, nm = a[0], a[1], cstring(st, a[2]), cstring(st, a[3])
    if type(n) is not int:
        raise Unsupported('vf_chars needs a constant size')
    vals = tuple(sorted(set(x if type(x) is int else ord(x) for x in cs)))
    if n == 0:
        return None
    st.access(p, n, 'write')
    nm2 = eng.fresh_name(nm)
    bs = [z3.BitVec('%s.%d' % (nm2, i), 8) for i in range(n)]
    cons = []
    for i in range(n):
        v = bs[i]
        if len(vals) == 1:
            v = vals[0]
            cons.append(bs[i] == v)
        else:
            eng.classes[v.get_id()] = (v, vals)
            lo, hi = vals[0], vals[-1]
            if len(vals) == hi - lo + 1:
                cons.append(z3.And(z3.ULE(lo, v), z3.ULE(v, hi)))
            else:
                cons.append(z3.Or(*[v == x for x in vals]))
        st.write_n(p.obj, p.off + i, 1, v)
    st.nd.append(('bytes', nm, bs))
    st.add(z3.And(*cons) if len(cons) > 1 else cons[0])
    return None


@b('vf_cstr')
def _(eng, st, fr, ins, a, name):
    """arbitrary NUL-terminated string of length <= max (unbounded if huge)"""
    nm, mx = cstring(st, a[0]), a[1]
    nm2 = eng.fresh_name(nm)
    L = z3.BitVec(nm2 + '.len', 64)
    base = SymBase(nm2, L)
    i = st.new_obj('string ' + nm, 'input', simp(L + 1), base)
    st.add(simp(z3.ULE(L, min(mx, eng.ndlimit) if type(mx) is int else to_bv(mx, 64))))
    arr = base.arr
    st.add(z3.Select(arr, L) == 0)

    def fact(st2, idx):
        g = olt(idx, L)
        if g is False:
            return True
        return z3.Implies(tob_(g), z3.Select(arr, to_bv(idx, 64)) != 0)
    st.add_fact(i, fact)
    st.nd.append(('cstr', nm, L, arr))
    return Ptr(i, 0)


@b('vf_vec')
def _(eng, st, fr, ins, a, name):
    """vf_vec(name, n, stride, "off:size:kind,..."): n elements (n symbolic)"""
    nm, n, stride, spec = cstring(st, a[0]), a[1], a[2], cstring(st, a[3])
    nm2 = eng.fresh_name(nm)
    fields = []
    for x in spec.split(','):
        o, sz, k = x.split(':')
        o, sz = int(o), int(sz)
        f = z3.Function('%s.%d' % (nm2, o), z3.BitVecSort(64), z3.RealSort() if k == 'real' else z3.BitVecSort(8 * sz))
        fields.append((o, sz, k, f))
    i = st.new_obj('array ' + nm, 'heap', omul(n, stride), StructBase(nm2, stride, fields))
    st.nd.append(('vec', nm, n, fields))
    return Ptr(i, 0)


@b('vf_assume')
def _(eng, st, fr, ins, a, name):
    c = a[0]
    if c is UNDEF:
        st.fail('uninit', detail='precondition depends on uninitialised data')
    st.assume(to_bool(c))
    return None


@b('vf_assert')
def _(eng, st, fr, ins, a, name):
    c, lab = a[0], cstring(st, a[1])
    eng.covered.add(lab)
    if c is UNDEF:
        st.oblige('ensures', False, lab, 'postcondition depends on uninitialised data')
    st.oblige('ensures', to_bool(c), lab, lab)
    return None


@b('vf_assert_eq')
def _(eng, st, fr, ins, a, name):
    """equality of reals: canonical forms, then z3"""
    x, y, lab = a[0], a[1], cstring(st, a[2])
    eng.covered.add(lab)
    oblige_eq(eng, st, real_eq(st, x, y), lab)
    return None


@b('vf_assert_near')
def _(eng, st, fr, ins, a, name):
    x, y, lab = a[0], a[1], cstring(st, a[3])
    eng.covered.add(lab)
    oblige_eq(eng, st, real_eq(st, x, y), lab)
    return None


def oblige_eq(eng, st, c, lab):
    if eng.eqcanon and st.trial is None and c is not True and c is not False:
        # (option eqcanon) formulas that do not have the same canonical form are
        # left to the native stand-in at once
        eng.undecide(eng.oblig_of(st, 'ensures', lab, lab), 'different canonical forms: ' + lab)
        return
    st.oblige('ensures', c, lab, lab)


def real_eq(st, x, y):
    if x is UNDEF or y is UNDEF:
        return False
    if isinstance(x, tuple) or isinstance(y, tuple):
        return x == y
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x == y or abs(x - y) <= Fraction(1, 10**12) * max(abs(x), abs(y))
    x, y = to_real(x), to_real(y)
    if x.eq(y):
        return True
    if realalg.eq_upto_literals(x, y):
        return True
    if 'loops' in st.ghost:
        loopmod.couple(st.eng, st, x, y)
    return simp(x == y)


@b('vf_real_eq')
def _(eng, st, fr, ins, a, name):
    r = real_eq(st, a[0], a[1])
    return int(r) if isinstance(r, bool) else r


@b('vf_symbolic')
def _(eng, st, fr, ins, a, name):
    return 1


@b('vf_cover')
def _(eng, st, fr, ins, a, name):
    eng.covered.add('cover:' + cstring(st, a[0]))
    return None


@b('vf_split')
def _(eng, st, fr, ins, a, name):
    """case split (proof hint)"""
    return int(st.decide(to_bool(a[0])))


@b('vf_concretize')
def _(eng, st, fr, ins, a, name):
    return st.concretize(a[0])


@rx(r'^vf_ufb\d_')
def _(eng, st, fr, ins, a, name):
    f = eng.ufs.get(name)
    if f is None:
        f = eng.ufs[name] = z3.Function(name, *([z3.BitVecSort(64)] * (len(a) + 1)))
    return f(*[to_bv(x, 64) for x in a])


@rx(r'^vf_uf\d_')
def _(eng, st, fr, ins, a, name):
    f = eng.uf_real('spec.' + name, len(a))
    return f(*[to_real(x) for x in a])


# ------------------------------------------------------------------ llvm.*
@rx(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|stacksave|stackrestore|prefetch|donothing|invariant)')
def _(eng, st, fr, ins, a, name):
    return NULL


@rx(r'^(llvm\.memcpy|llvm\.memmove|memcpy$|memmove$)')
def _(eng, st, fr, ins, a, name):
    d, s, n = a[:3]
    if type(n) is int and n == 0:
        return d
    if type(n) is not int:
        m = st.const_of(n)
        if m is not None:
            n = m
            if n == 0:
                return d
        elif st.decide(oeq(n, 0)):
            return d
    st.access(s, n, 'read')
    st.access(d, n, 'write')
    st.copy_bytes(d, s, n)
    return d


@rx(r'^(llvm\.memset|memset$)')
def _(eng, st, fr, ins, a, name):
    d, c, n = a[:3]
    if name == 'memset':
        c = c & 255 if type(c) is int else simp(z3.Extract(7, 0, c))
    if type(n) is int and n == 0:
        return d
    if type(n) is not int:
        m = st.const_of(n)
        if m is not None:
            n = m
            if n == 0:
                return d
        elif st.decide(oeq(n, 0)):
            return d
    st.access(d, n, 'write')
    st.fill(d, c, n)
    return d


@b('llvm.trap')
def _(eng, st, fr, ins, a, name):
    st.fail('trap', detail='trap')


@rx(r'^llvm\.expect')
def _(eng, st, fr, ins, a, name):
    return a[0]


@rx(r'^llvm\.is\.constant')
def _(eng, st, fr, ins, a, name):
    return 0


@rx(r'^llvm\.objectsize')
def _(eng, st, fr, ins, a, name):
    return mask(64)


@rx(r'^llvm\.eh\.typeid\.for')
def _(eng, st, fr, ins, a, name):
    n = ins.b[0][1]
    return eng.typeid(n[1] if n[0] == 'g' else None)


@rx(r'^llvm\.(smax|smin|umax|umin)\.i(\d+)')
def _(eng, st, fr, ins, a, name):
    op, w = name.split('.')[1], int(name.split('.i')[-1])
    pred = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
    c = st.icmp(pred, intt(w), a[0], a[1])
    return simp(ite(to_bool(c), a[0], a[1], w))


@rx(r'^(llvm\.abs\.i|abs$|labs$|llabs$)')
def _(eng, st, fr, ins, a, name):
    w = ins.ty.w
    x = a[0]
    if type(x) is int:
        return abs(sgn(x, w)) & mask(w)
    return simp(z3.If(x < 0, -x, x))


@rx(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)')
def _(eng, st, fr, ins, a, name):
    p = name.split('.')
    op, w = p[1], int(p[-1][1:])
    x, y = a
    if type(x) is int and type(y) is int:
        if op[0] == 's':
            x, y = sgn(x, w), sgn(y, w)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
        lo, hi = (0, mask(w)) if op[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return (r & mask(w), int(not lo <= r <= hi))
    x, y = to_bv(x, w), to_bv(y, w)
    sg = op[0] == 's'
    if op[1:] == 'add':
        return (simp(x + y), simp(z3.Not(z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else True))))
    if op[1:] == 'sub':
        return (simp(x - y), simp(z3.Not(z3.And(z3.BVSubNoUnderflow(x, y, sg), z3.BVSubNoOverflow(x, y) if sg else True))))
    return (simp(x * y), simp(z3.Not(z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else True))))


@rx(r'^(llvm\.fmuladd|llvm\.fma|fma$)')
def _(eng, st, fr, ins, a, name):
    return st.fbin('fadd', st.fbin('fmul', a[0], a[1]), a[2])


@rx(r'^(llvm\.fabs|fabsf?$)')
def _(eng, st, fr, ins, a, name):
    x = a[0]
    if x is UNDEF:
        return UNDEF
    if isinstance(x, tuple):
        return ('special', x[1].lstrip('-'))
    if isinstance(x, Fraction):
        return abs(x)
    if eng.linabs and getattr(st, 'trial', None) is None:
        # |x| as a fresh value: z3 would turn "x >= 0" into conditions on the factors of x
        t = z3.Real(eng.fresh_name('abs'))
        st.add(z3.And(t >= x, t >= -x, z3.Or(t == x, t == -x)))
        return t
    return z3.If(x >= 0, x, -x)


@rx(r'^(llvm\.(minnum|maxnum)|fmin$|fmax$)')
def _(eng, st, fr, ins, a, name):
    mn = 'min' in name
    x, y = a
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return min(x, y) if mn else max(x, y)
    x, y = to_real(x), to_real(y)
    return z3.If(x < y, x if mn else y, y if mn else x)


def trunc_real(kind, x):
    import math
    if isinstance(x, Fraction):
        if kind == 'floor':
            return Fraction(math.floor(x))
        if kind == 'ceil':
            return Fraction(math.ceil(x))
        if kind == 'trunc':
            return Fraction(math.trunc(x))
        return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
    fl = lambda e: z3.ToReal(z3.ToInt(e))
    if kind == 'floor':
        return fl(x)
    if kind == 'ceil':
        return -fl(-x)
    if kind == 'trunc':
        return z3.If(x >= 0, fl(x), -fl(-x))
    return z3.If(x >= 0, fl(x + z3.RealVal('1/2')), -fl(-x + z3.RealVal('1/2')))


@rx(r'^(llvm\.)?(floor|ceil|trunc|round)(\.f64|\.f32|f)?$')
def _(eng, st, fr, ins, a, name):
    k = re.match(r'^(llvm\.)?(floor|ceil|trunc|round)', name).group(2)
    if a[0] is UNDEF:
        return UNDEF
    r = trunc_real(k, a[0])
    if eng.canon and z3.is_expr(r) and getattr(st, 'trial', None) is None:
        # a rounded value that the path determines is that value
        eng.ensure_model(st)
        if st.model is not None:
            v = st.model.eval(r, model_completion=True)
            if z3.is_rational_value(v):
                eng.sync(st)
                if eng._check(r != v)[0] == z3.unsat:
                    return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return r


def mathfun(eng, st, k, x):
    if x is UNDEF:
        return UNDEF
    if isinstance(x, tuple):
        raise Unsupported('math function of inf/nan')
    if isinstance(x, Fraction):
        if x == 0:
            if k in ('sin', 'tan', 'asin', 'atan', 'sqrt'):
                return Fraction(0)
            if k in ('cos', 'exp'):
                return Fraction(1)
        if k == 'sqrt' and x > 0:
            import math
            p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if p * p == x.numerator and q * q == x.denominator:
                return Fraction(p, q)
            return Fraction(math.sqrt(x))   # the machine's correctly rounded value
    f = eng.uf_real(k, 1)
    t = f(to_real(x))
    key = ('ax', t.get_id())
    if key not in st.ghost:
        st.ghost[key] = t
        if k == 'sqrt':
          if not eng.sqrtax:
            st.add(z3.And(t >= 0, z3.Implies(to_real(x) > 0, t > 0)))
          else:
            st.add(z3.Implies(to_real(x) >= 0, z3.And(t >= 0, t * t == to_real(x))))
        elif k in ('sin', 'cos'):
            st.add(z3.And(t >= -1, t <= 1))
            if k == 'sin' and eng.lipschitz:
                lipschitz(eng, st, to_real(x), t)
    return t


def lipschitz(eng, st, x, t):
    """|sin a - sin b| <= |a - b| for t = sin x and every earlier sine"""
    olds = st.ghost.get('sins', ((z3.RealVal(0), z3.RealVal(0)),))
    for y, u in olds:
        d = simp(x - y)
        if eng.linabs:
            D = z3.Real(eng.fresh_name('abs'))
            st.add(z3.And(D >= d, D >= -d, z3.Or(D == d, D == -d)))
            st.add(z3.And(t - u <= D, u - t <= D))
        else:
            D = d
            st.add(z3.Implies(d >= 0, z3.And(t - u <= d, u - t <= d)))
            st.add(z3.Implies(d <= 0, z3.And(t - u <= -d, u - t <= -d)))
        for e, bd in st.ghost.get('factors', ()):
            p, q = [realalg.rebuild(z3.simplify(e * v), eng.uf_real) for v in (t, u)]
            if eng.linabs:
                st.add(z3.And(p - q <= bd * D, q - p <= bd * D))
    for e, bd in st.ghost.get('factors', ()):
        p = realalg.rebuild(z3.simplify(e * t), eng.uf_real)
        st.add(z3.And(p <= bd, -bd <= p))
    st.ghost['sins'] = olds + ((x, t),)


def lipschitz_scan(eng, st, e):
    """register the sines a loop invariant mentions"""
    stk, seen = [e], set()
    while stk:
        t = stk.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'sin' and t.num_args() == 1:
            key = ('ax', t.get_id())
            if key not in st.ghost:
                st.ghost[key] = t
                st.add(z3.And(t >= -1, t <= 1))
                lipschitz(eng, st, t.arg(0), t)
        stk.extend(t.children())


@rx(r'^(llvm\.)?(sin|cos|tan|asin|acos|atan|sqrt|exp|log|log10)(\.f64|\.f32|f|l)?$')
def _(eng, st, fr, ins, a, name):
    k = re.match(r'^(llvm\.)?(sin|cos|tan|asin|acos|atan|sqrt|exp|log10|log)', name).group(2)
    return mathfun(eng, st, k, a[0])


@rx(r'^(atan2|fmod|hypot)$')
def _(eng, st, fr, ins, a, name):
    if a[0] is UNDEF or a[1] is UNDEF:
        return UNDEF
    if name == 'fmod':
        return st.fbin('frem', a[0], a[1])
    if name == 'hypot':
        return mathfun(eng, st, 'sqrt', st.fbin('fadd', st.fbin('fmul', a[0], a[0]), st.fbin('fmul', a[1], a[1])))
    return eng.uf_real(name, 2)(to_real(a[0]), to_real(a[1]))


@b('sincos')
def _(eng, st, fr, ins, a, name):
    s, c = mathfun(eng, st, 'sin', a[0]), mathfun(eng, st, 'cos', a[0])
    st.store(a[1], DBL, s)
    st.store(a[2], DBL, c)
    return None


@b('pow', 'llvm.pow.f64')
def _(eng, st, fr, ins, a, name):
    x, y = a
    if isinstance(y, Fraction):
        if y.denominator == 1 and -8 <= y <= 8:
            r = Fraction(1)
            for _ in range(abs(int(y))):
                r = st.fbin('fmul', r, x)
            return r if y >= 0 else st.fbin('fdiv', Fraction(1), r)
        if y.denominator == 1 and isinstance(x, Fraction) and abs(y) < 400 and x != 0:
            return x ** int(y)
        if y == Fraction(1, 2):
            return mathfun(eng, st, 'sqrt', x)
        if y.denominator == 2 and abs(y) < 40:
            k = int(y - Fraction(1, 2))
            r = mathfun(eng, st, 'sqrt', x)
            for _ in range(abs(k)):
                r = st.fbin('fmul' if k > 0 else 'fdiv', r, x)
            return r
    return eng.uf_real('pow', 2)(to_real(x), to_real(y))


@rx(r'^(llvm\.powi)')
def _(eng, st, fr, ins, a, name):
    return B['pow'](eng, st, fr, ins, [a[0], Fraction(sgn(a[1], 32))], name)


# ------------------------------------------------------------------ strings
@b('strlen')
def _(eng, st, fr, ins, a, name):
    return strlen(st, a[0])


@b('strnlen')
def _(eng, st, fr, ins, a, name):
    p, n = a
    n = st.concretize(n)
    for i in range(n):
        if st.decide(int_eq(rd(st, p, i), 0, 8)):
            return i
    return n


def fixed_len(st, p):
    """length of a string with constant content/length, else None"""
    o = st.objs[p.obj]
    if type(p.off) is not int or type(o.size) is not int:
        return None
    for i in range(p.off, min(o.size, p.off + 200)):
        v = st.rbyte(o, i, False)
        if type(v) is int and v == 0:
            return i - p.off
        if type(v) is not int:
            return None
    return None


@b('strncmp')
def _(eng, st, fr, ins, a, name):
    x, y, n = a
    if type(n) is not int:
        m = st.const_of(n)
        n = m if m is not None else n
    if type(n) is int:
        for q in (x, y):
            l = fixed_len(st, q) if isinstance(q.obj, int) else None
            if l is not None:
                n = min(n, l + 1)
        if n <= 300:
            return compare(st, x, y, n, True)
    return compare_sym(st, x, y, n, True)


@b('strcmp')
def _(eng, st, fr, ins, a, name):
    x, y = a
    for q in (x, y):
        l = fixed_len(st, q)
        if l is not None:
            return compare(st, x, y, l + 1, True)
    for q in (x, y):
        o = st.objs[q.obj]
        if type(o.size) is int and o.size <= 300 and type(q.off) is int:
            return compare(st, x, y, o.size - q.off + 1, True)
    return compare_sym(st, x, y, None, True)


@b('memcmp', 'bcmp')
def _(eng, st, fr, ins, a, name):
    x, y, n = a
    if type(n) is not int:
        m = st.const_of(n)
        n = m if m is not None else n
    if type(n) is int:
        if n == 0:
            return 0
        if n <= 400:
            st.access(x, n, 'read')
            st.access(y, n, 'read')
            return compare(st, x, y, n, False)
    # a symbolic length bounded by a small object: enumerate
    for q in (x, y):
        o = st.objs[q.obj]
        if type(o.size) is int and o.size <= 64:
            n = st.concretize(n)
            if n == 0:
                return 0
            st.access(x, n, 'read')
            st.access(y, n, 'read')
            return compare(st, x, y, n, False)
    return compare_sym(st, x, y, n, False)


@b('memchr', '_ZL6memchrUa9enable_ifILb1EEPvim')
def _(eng, st, fr, ins, a, name):
    p, c, n = a
    if type(n) is not int:
        n = st.const_of(n)
    if n is None or n > 64:
        return FALLBACK
    c = c & 255 if type(c) is int else simp(z3.Extract(7, 0, c))
    for i in range(n):
        if st.decide(int_eq(rd(st, p, i), c, 8)):
            return Ptr(p.obj, oadd(p.off, i))
    return NULL


@b('strchr', 'strrchr')
def _(eng, st, fr, ins, a, name):
    p, c = a
    if fixed_len(st, p) is None:
        return FALLBACK
    c = c & 255 if type(c) is int else simp(z3.Extract(7, 0, c))
    i = 0
    last = NULL
    while True:
        v = rd(st, p, i)
        if st.decide(int_eq(v, c, 8)):
            last = Ptr(p.obj, oadd(p.off, i))
            if name == 'strchr':
                return last
        if st.decide(int_eq(v, 0, 8)):
            return last
        i += 1


@b('strncpy', 'strcpy', 'stpcpy', 'strcat', 'strncat')
def _(eng, st, fr, ins, a, name):
    d, s = a[:2]
    if name in ('strcat', 'strncat'):
        dl = strlen(st, d)
        d2 = Ptr(d.obj, oadd(d.off, dl))
        l = strlen(st, s)
        if name == 'strncat':
            n = a[2]
            l = simp(ite(olt(to_bv(l, 64), to_bv(n, 64)), l, n, 64)) if not (
                type(l) is int and type(n) is int) else min(l, n)
        st.access(d2, oadd(l, 1), 'write')
        if not (type(l) is int and l == 0):
            st.copy_bytes(d2, s, l)
        st.write_n(d2.obj, oadd(d2.off, l), 1, 0)
        return a[0]
    if name in ('strcpy', 'stpcpy'):
        l = strlen(st, s)
        st.access(d, oadd(l, 1), 'write')
        st.copy_bytes(d, s, oadd(l, 1))
        return d if name == 'strcpy' else Ptr(d.obj, oadd(d.off, l))
    n = st.concretize(a[2])
    if n == 0:
        return d
    st.access(d, n, 'write')
    done = False
    vals = []
    run = True
    for i in range(n):
        if run is False:
            vals.append(0)
            continue
        q = Ptr(s.obj, oadd(s.off, i))
        o = st.objs[q.obj]
        inb = olt(q.off, o.size)
        if inb is not True:
            if run is True or st.implied(run) is True:
                st.access(q, 1, 'read')
            else:
                c = b_or(b_not(run), inb)
                st.oblige('memory', c if isinstance(c, bool) else simp(c), detail='strncpy reads within ' + o.name)
                if st.implied(run) is False:
                    run = False
                    vals.append(0)
                    continue
        v = okbyte(st, st.rbyte(o, q.off))
        vals.append(v if run is True else ite(run, v, 0, 8))
        run = b_and(run, b_not(int_eq(v, 0, 8)))
        if not isinstance(run, bool):
            run = simp(run)
    for i, v in enumerate(vals):
        st.write_n(d.obj, oadd(d.off, i), 1, simp(v) if type(v) is not int else v)
    return d


@rx(r'^(isspace|isdigit|isalpha|isalnum|toupper|tolower|isupper|islower|isblank)$')
def _(eng, st, fr, ins, a, name):
    c = a[0]
    w = 32

    def rng(lo, hi):
        if type(c) is int:
            return ord(lo) <= c <= ord(hi)
        return z3.And(c >= ord(lo), c <= ord(hi))
    if name == 'isspace':
        r = b_or(rng('\t', '\r'), int_eq(c, 32, w))
    elif name == 'isblank':
        r = b_or(int_eq(c, 9, w), int_eq(c, 32, w))
    elif name == 'isdigit':
        r = rng('0', '9')
    elif name == 'isupper':
        r = rng('A', 'Z')
    elif name == 'islower':
        r = rng('a', 'z')
    elif name == 'isalpha':
        r = b_or(rng('a', 'z'), rng('A', 'Z'))
    elif name == 'isalnum':
        r = b_or(rng('a', 'z'), rng('A', 'Z'), rng('0', '9'))
    elif name == 'toupper':
        return simp(ite(rng('a', 'z'), (c - 32) & mask(32) if type(c) is int else c - 32, c, 32))
    else:
        return simp(ite(rng('A', 'Z'), c + 32, c, 32))
    return simp(ite(r, 1, 0, 32))


# ------------------------------------------------------------------ numbers in text
def errno_ptr(eng, st):
    k = st.ghost.get('errno')
    if k is None:
        k = st.new_obj('errno', 'global', 4, ZeroBase())
        st.ghost['errno'] = k
    return Ptr(k, 0)


@b('__errno_location')
def _(eng, st, fr, ins, a, name):
    return errno_ptr(eng, st)


def byte_set(eng, c):
    """the possible values of a byte drawn from a declared set (None if unknown)"""
    if type(c) is int:
        return frozenset((c,))
    k = eng.classes.get(c.get_id())
    if k is not None:
        return frozenset(k[1])
    return None


SPACES = frozenset((32, 9, 10, 11, 12, 13))
DIGITS = frozenset(range(48, 58))
SIGNS = frozenset((43, 45))


def scan_number(eng, st, p, real):
    """Number in a text whose characters are drawn from declared sets such that the
    sets alone determine its extent.  -> (sign byte or None, digits, length) or None."""
    def at(i):
        return byte_set(eng, rd(st, p, i))
    i = 0
    s = at(i)
    while s is not None and s <= SPACES:
        i += 1
        s = at(i)
    if s is None:
        return None
    sign = None
    digs = []
    if not s <= DIGITS:
        if s <= SIGNS or s <= SIGNS | SPACES:
            s2 = at(i + 1)
            if s2 is None or not s2 <= DIGITS:
                return None
            sign = rd(st, p, i)
            i += 1
            s = s2
        else:
            return None
    while s is not None and s <= DIGITS:
        digs.append(rd(st, p, i))
        i += 1
        s = at(i)
    if s is None or s & DIGITS:
        return None
    if real:
        if s == frozenset((46,)):
            digs.append(46)
            i += 1
            s = at(i)
            while s is not None and s <= DIGITS:
                digs.append(rd(st, p, i))
                i += 1
                s = at(i)
            if s is None or s & DIGITS:
                return None
        elif 46 in s:
            return None
        if s <= frozenset((101, 69)):
            j = i + 1
            s = at(j)
            es = [101]
            if s is None:
                return None
            if s <= SIGNS:
                c = rd(st, p, j)
                es.append(c)
                j += 1
                s = at(j)
            if s is None or (s & DIGITS and not s <= DIGITS):
                return None
            k = 0
            while s is not None and s <= DIGITS:
                es.append(rd(st, p, j))
                j += 1
                k += 1
                s = at(j)
            if s is None or s & DIGITS:
                return None
            if k:
                if len(es) > 1 and type(es[1]) is int and es[1] == 43:
                    del es[1]
                digs += es
                i = j
        elif s & frozenset((101, 69)):
            return None
    return sign, digs, i


def is_class(st, c, cls):
    """decide whether byte c is in the class; forks if open"""
    if cls == 'space':
        if type(c) is int:
            return c == 32 or 9 <= c <= 13
        return st.decide(simp(z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))))
    if cls == 'digit':
        if type(c) is int:
            return 48 <= c <= 57
        return st.decide(simp(z3.And(z3.UGE(c, 48), z3.ULE(c, 57))))
    if type(c) is int:
        return chr(c) in cls
    return st.decide(simp(z3.Or(*[c == ord(x) for x in cls])))


def num_value(eng, st, bs):
    """the number denoted by the text bs (canonical per byte sequence)"""
    if all(type(x) is int for x in bs):
        t = bytes(bs).decode('latin1')
        return Fraction(t)
    key = tuple(x if type(x) is int else ('t', x.get_id()) for x in bs)
    k = eng.numvals.get(key) if hasattr(eng, 'numvals') else None
    if k is None:
        if not hasattr(eng, 'numvals'):
            eng.numvals = {}
        k = (z3.Real('num!%d' % len(eng.numvals)), list(bs))
        eng.numvals[key] = k
    return k[0]


def int_value(eng, st, neg, ds):
    """decimal integer from digit bytes as BV64 (two's complement)"""
    if all(type(x) is int for x in ds):
        v = int(bytes(ds).decode())
        return (-v if neg else v) & mask(64)
    v = z3.BitVecVal(0, 64)
    for d in ds:
        dv = d - 48 if type(d) is int else z3.ZeroExt(56, d) - 48
        v = v * 10 + dv
    if neg:
        v = -v
    return simp(v)


@b('strtod', 'atof', 'strtof', 'strtold')
def _(eng, st, fr, ins, a, name):
    p = a[0]
    i = 0
    k = scan_number(eng, st, p, True)
    if k is not None:
        sign, ds, n = k
        v = num_value(eng, st, ds)
        if type(sign) is int and sign == 45:
            v = simp(-v) if not isinstance(v, Fraction) else -v
        elif sign is not None and type(sign) is not int:
            v = simp(z3.If(sign == 45, -to_real(v), to_real(v)))
        if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None:
            st.store(a[1], PTR, Ptr(p.obj, oadd(p.off, n)))
        st.eng.assumes.add('numbers in text do not overflow the range of double (strtod leaves errno unchanged)')
        return v
    c = rd(st, p, i)
    while is_class(st, c, 'space'):
        i += 1
        c = rd(st, p, i)
    bs = []
    if is_class(st, c, '+-'):
        if type(c) is int:
            if c == ord('-'):
                bs.append(c)
        elif st.decide(simp(c == ord('-'))):
            bs.append(ord('-'))
        i += 1
        c = rd(st, p, i)
    nd = 0
    while is_class(st, c, 'digit'):
        bs.append(c)
        nd += 1
        i += 1
        c = rd(st, p, i)
    if is_class(st, c, '.'):
        j = i + 1
        c2 = rd(st, p, j)
        fs = []
        while is_class(st, c2, 'digit'):
            fs.append(c2)
            j += 1
            c2 = rd(st, p, j)
        if nd or fs:
            bs += [ord('.')] + fs
            nd += len(fs)
            i = j
            c = c2
    if nd == 0:
        if is_class(st, c, 'iInN'):
            st.eng.assumes.add('numeric text is decimal (no inf/nan/hexadecimal)')
            raise PathEnd()
        if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None:
            st.store(a[1], PTR, p)
        return Fraction(0)
    if is_class(st, c, 'eE'):
        j = i + 1
        c2 = rd(st, p, j)
        es = [ord('e')]
        if is_class(st, c2, '+-'):
            if type(c2) is int:
                if c2 == ord('-'):
                    es.append(c2)
            elif st.decide(simp(c2 == ord('-'))):
                es.append(ord('-'))
            j += 1
            c2 = rd(st, p, j)
        k = 0
        while is_class(st, c2, 'digit'):
            es.append(c2)
            k += 1
            j += 1
            c2 = rd(st, p, j)
        if k:
            bs += es
            i = j
    if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None:
        st.store(a[1], PTR, Ptr(p.obj, oadd(p.off, i)))
    st.eng.assumes.add('numbers in text do not overflow the range of double (strtod leaves errno unchanged)')
    return num_value(eng, st, bs)


@b('strtol', 'atoi', 'atol', 'strtoll', 'strtoul', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll')
def _(eng, st, fr, ins, a, name):
    p = a[0]
    i = 0
    k = scan_number(eng, st, p, False) if not (len(a) > 2 and a[2] not in (0, 10)) else None
    if k is not None and len(k[1]) <= 18:
        sign, ds, n = k
        end = a[1] if len(a) > 1 else None
        if isinstance(end, Ptr) and end.obj is not None:
            st.store(end, PTR, Ptr(p.obj, oadd(p.off, n)))
        v = int_value(eng, st, type(sign) is int and sign == 45, ds)
        if sign is not None and type(sign) is not int:
            v = simp(z3.If(sign == 45, -to_bv(v, 64), to_bv(v, 64)))
        w = ins.ty.w
        if w < 64:
            v = v & mask(w) if type(v) is int else simp(z3.Extract(w - 1, 0, v))
        return v
    c = rd(st, p, i)
    while is_class(st, c, 'space'):
        i += 1
        c = rd(st, p, i)
    neg = False
    if is_class(st, c, '+-'):
        neg = (c == ord('-')) if type(c) is int else st.decide(simp(c == ord('-')))
        i += 1
        c = rd(st, p, i)
    ds = []
    while is_class(st, c, 'digit'):
        ds.append(c)
        i += 1
        c = rd(st, p, i)
        if len(ds) > 18:
            raise Unsupported('integer text of more than 18 digits')
    if len(a) > 2 and not (type(a[2]) is int and a[2] in (10, 0)):
        raise Unsupported('strtol base')
    end = a[1] if len(a) > 1 else None
    if isinstance(end, Ptr) and end.obj is not None:
        st.store(end, PTR, Ptr(p.obj, oadd(p.off, i)) if ds else p)
    if not ds:
        return 0
    v = int_value(eng, st, neg, ds)
    w = ins.ty.w
    if w < 64:
        v = v & mask(w) if type(v) is int else simp(z3.Extract(w - 1, 0, v))
    return v


# ------------------------------------------------------------------ allocation
@rx(r'^(_Znwm|_Znam|malloc|_ZnwmSt11align_val_t|_ZnwmRKSt9nothrow_t|_ZnamRKSt9nothrow_t)$')
def _(eng, st, fr, ins, a, name):
    n = a[0]
    if type(n) is not int:
        m = st.const_of(n)
        if m is not None:
            n = m
        else:
            st.oblige('memory', simp(z3.ULT(n, 1 << 40)), detail='allocation size is sane')
    return Ptr(st.new_obj('heap block', 'heap', n), 0)


@rx(r'^(_ZdlPv|_ZdaPv|free$)')
def _(eng, st, fr, ins, a, name):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is None:
        return None
    if p is UNDEF or not isinstance(p, Ptr) or not isinstance(p.obj, int):
        st.fail('memory', detail='delete of an invalid pointer')
    o = st.objs[p.obj]
    if o.kind != 'heap' or not o.alive or p.off != 0:
        st.fail('memory', detail='invalid or double delete')
    st.wobj(p.obj).alive = False
    return None


# ------------------------------------------------------------------ exceptions
@b('__cxa_allocate_exception')
def _(eng, st, fr, ins, a, name):
    return Ptr(st.new_obj('exception', 'heap', max(a[0], 16), ZeroBase()), 0)


@b('__cxa_free_exception', '__cxa_call_unexpected')
def _(eng, st, fr, ins, a, name):
    return None


@b('__cxa_throw')
def _(eng, st, fr, ins, a, name):
    st.throw(ins.b[1][1][1], a[0])
    return CONTROL


@b('__cxa_rethrow', '_Unwind_Resume')
def _(eng, st, fr, ins, a, name):
    if name == '__cxa_rethrow' and st.exc:
        # the handler that is left ends its catch without destroying it
        st.exc.append(st.exc[-1])
    st.unwind()
    return CONTROL


@b('__cxa_begin_catch')
def _(eng, st, fr, ins, a, name):
    return a[0]


@b('__cxa_end_catch')
def _(eng, st, fr, ins, a, name):
    if st.exc:
        st.exc.pop()
    return None


@b('__cxa_guard_acquire')
def _(eng, st, fr, ins, a, name):
    v = st.load(a[0], I[8])
    if v is UNDEF:
        v = 0
    return int(not st.decide(b_not(int_eq(v, 0, 8))))


@b('__cxa_guard_release')
def _(eng, st, fr, ins, a, name):
    st.store(a[0], I[8], 1)
    return None


@b('__cxa_guard_abort', '__cxa_atexit', 'atexit')
def _(eng, st, fr, ins, a, name):
    return 0


@rx(r'^(_ZSt9terminatev|abort|__clang_call_terminate|exit|_exit|_ZSt4exiti)$')
def _(eng, st, fr, ins, a, name):
    if 'terminate' in name:
        st.fail('noexcept', detail='an exception escapes a function that promises not to throw')
    st.fail('abort', detail='the program is aborted')


@rx(r'^_ZSt21__glibcxx_assert_fail')
def _(eng, st, fr, ins, a, name):
    try:
        d = cstring(st, a[3]) + ' in ' + cstring(st, a[2])[:80]
    except Exception:
        d = ''
    st.fail('library', detail='precondition of the standard library violated: ' + d)


@b('__assert_fail')
def _(eng, st, fr, ins, a, name):
    st.fail('abort', detail='assert(%s) fails' % cstring(st, a[0]))


THROW = {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
}


@rx(r'^_ZSt\d+__throw_')
def _(eng, st, fr, ins, a, name):
    t = THROW.get(name)
    if t is None:
        raise Unsupported(name)
    st.throw(t, Ptr(st.new_obj('exception', 'heap', 16, ZeroBase()), 0))
    return CONTROL


@rx(r'^_ZNSt\d+(runtime_error|logic_error|out_of_range|invalid_argument|length_error|domain_error|range_error|overflow_error|underflow_error)[CD][0-9]')
def _(eng, st, fr, ins, a, name):
    if re.search(r'(error|argument|range)C[0-9]', name):
        # a virtual table whose only member that is called is what()
        vt = st.new_obj('vtable', 'heap', 40, ZeroBase())
        for k in range(5):
            st.store(Ptr(vt, 8 * k), PTR, Ptr(('fn', 'vf_exception_what'), 0))
        st.store(a[0], PTR, Ptr(vt, 16))
    return None


@b('vf_exception_what')
def _(eng, st, fr, ins, a, name):
    # the text of the message is not modelled
    return Ptr(st.new_obj('message', 'heap', 8, ZeroBase()), 0)


@rx(r'^_ZNSt9exception[CD]|^_ZNSt8ios_base4Init')
def _(eng, st, fr, ins, a, name):
    return None


# ------------------------------------------------------------------ printing
@rx(r'^(_ZStls|_ZNSols|_ZNSo|_ZSt4endl|_ZSt5flush|_ZSt16__ostream_insert|_ZSt4ends|_ZNSo5flushEv|_ZNSo3putEc|_ZNSo9_M_insert)')
def _(eng, st, fr, ins, a, name):
    # an output stream: the destination is outside the program's observable state
    return a[0]


@b('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'perror', 'fflush', 'fwrite')
def _(eng, st, fr, ins, a, name):
    return 0


@b('llvm.va_start', 'llvm.va_start.p0')
def _(eng, st, fr, ins, a, name):
    p = a[0]
    st.ghost[('va', p.obj, p.off)] = fr.va
    return None


@b('llvm.va_end', 'llvm.va_end.p0')
def _(eng, st, fr, ins, a, name):
    return None


def int_digits(st, v, w, signed):
    """decimal digits (bytes) of integer v, forking on sign and digit count"""
    if type(v) is int:
        x = sgn(v, w) if signed else v
        t = str(abs(x)).encode()
        return x < 0, list(t)
    neg = False
    if signed:
        neg = st.decide(simp(v < 0))
        if neg:
            v = simp(-v)
    n = 1
    while n < 20 and 10 ** n < (1 << w):
        if st.decide(simp(z3.ULT(v, 10 ** n))):
            break
        n += 1
    ds = []
    for k in range(n - 1, -1, -1):
        q = z3.UDiv(v, z3.BitVecVal(10 ** k, w)) if k else v
        d = z3.URem(q, z3.BitVecVal(10, w))
        ds.append(simp(z3.Extract(7, 0, d) + 48))
    return neg, ds


def format_bytes(eng, st, fmt, args):
    """printf formatting to a list of byte values"""
    out = []
    i = 0
    ai = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(ord(c))
            i += 1
            continue
        m = re.match(r'%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diuxXcsfgeEG%p])', fmt[i:])
        if not m:
            raise Unsupported('printf format %r' % fmt)
        i += m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == '%':
            out.append(37)
            continue
        if wd == '*':
            wd = st.concretize(args[ai])
            ai += 1
        if pr == '*':
            pr = st.concretize(args[ai])
            ai += 1
        wd = int(wd) if wd else 0
        v = args[ai]
        ai += 1
        if v is UNDEF:
            st.fail('uninit', detail='uninitialised value printed')
        if cv in 'di':
            w = {None: 32, 'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64}[ln]
            if w < 32:
                v = v & mask(w) if type(v) is int else simp(z3.Extract(w - 1, 0, v))
            neg, ds = int_digits(st, v, w, True)
        elif cv == 'u':
            w = {None: 32, 'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64}[ln]
            if w < 32:
                v = v & mask(w) if type(v) is int else simp(z3.Extract(w - 1, 0, v))
            neg, ds = int_digits(st, v, w, False)
        elif cv == 'c':
            neg, ds = None, [v & 255 if type(v) is int else simp(z3.Extract(7, 0, v))]
        elif cv == 's':
            n = None
            ds = []
            while pr is None or len(ds) < int(pr):
                x = rd(st, v, len(ds))
                if st.decide(int_eq(x, 0, 8)):
                    break
                ds.append(x)
            neg = None
        else:
            raise Unsupported('printf %%%s' % cv)
        if neg is not None and pr is not None:
            while len(ds) < int(pr):
                ds = [48] + ds
        sgnb = [] if not neg else [45]
        if neg is False and '+' in fl and cv in 'di':
            sgnb = [43]
        elif neg is False and ' ' in fl and cv in 'di':
            sgnb = [32]
        pad = wd - len(ds) - len(sgnb)
        if pad > 0:
            if '-' in fl:
                ds = ds + [32] * pad
            elif '0' in fl and neg is not None and pr is None:
                ds = [48] * pad + ds
            else:
                sgnb = [32] * pad + sgnb
        out += sgnb + ds
    return out


@b('snprintf', 'sprintf', 'vsnprintf', 'vsprintf')
def _(eng, st, fr, ins, a, name):
    buf = a[0]
    if name.startswith('v'):
        va = a[-1]
        args = st.ghost[('va', va.obj, va.off)]
        rest = a[1:-1]
    else:
        k = 3 if name == 'snprintf' else 2
        args = a[k:]
        rest = a[1:k]
    n = rest[0] if len(rest) == 2 else None
    fmt = cstring(st, rest[-1])
    out = format_bytes(eng, st, fmt, args)
    total = len(out)
    if n is not None:
        n = st.concretize(n)
        if n == 0:
            return total
        out = out[:n - 1]
    st.access(buf, len(out) + 1, 'write')
    for i, x in enumerate(out):
        st.write_n(buf.obj, oadd(buf.off, i), 1, x)
    st.write_n(buf.obj, oadd(buf.off, len(out)), 1, 0)
    return total


@b('_ZNSt7__cxx119to_stringEd', '_ZNSt7__cxx119to_stringEf')
def _(eng, st, fr, ins, a, name):
    """std::to_string(double): an uninterpreted text, the same for equal arguments"""
    ret, x = a
    if x is UNDEF:
        st.fail('uninit', detail='uninitialised value printed')
    if isinstance(x, Fraction):
        q = abs(x)
        import decimal
        t = ('-' if x < 0 else '') + '%.6f' % float(q)
        bs = t.encode()
        n = len(bs)
        base = BytesBase(bs + b'\0')
        size = n + 1
        L = n
    else:
        try:
            key = ('fmt', realalg.freeze(realalg.canon(x)))
        except realalg.TooBig:
            key = ('fmt', x.get_id())
        if not hasattr(eng, 'fmts'):
            eng.fmts = {}
        if key not in eng.fmts:
            eng.fmts[key] = len(eng.fmts)
        nm = 'fmt%d' % eng.fmts[key]
        L = z3.BitVec(nm + '.len', 64)
        base = SymBase(nm, L)
        size = simp(L + 1)
        st.add(z3.And(z3.UGE(L, 16), z3.ULE(L, 330), z3.Select(base.arr, L) == 0))
        st.eng.assumes.add('std::to_string(double) yields a text of 16..330 characters determined by its argument '
                           '(a shorter text takes the same code paths)')
    i = st.new_obj('heap block', 'heap', size, base)
    if base.__class__ is SymBase:
        arr = base.arr

        def fact(st2, idx):
            g = olt(idx, L)
            return True if g is False else z3.Implies(tob_(g), z3.Select(arr, to_bv(idx, 64)) != 0)
        st.add_fact(i, fact)
    st.access(ret, 32, 'write')
    if type(L) is int and L <= 15:
        for k in range(L):
            st.write_n(ret.obj, ret.off + 16 + k, 1, bs[k])
        st.write_n(ret.obj, ret.off + 16 + L, 1, 0)
        st.write_n(ret.obj, ret.off, 8, Ptr(ret.obj, ret.off + 16))
        st.write_n(ret.obj, ret.off + 8, 8, L)
        return None
    st.write_n(ret.obj, ret.off, 8, Ptr(i, 0))
    st.write_n(ret.obj, ret.off + 8, 8, L)
    st.write_n(ret.obj, ret.off + 16, 8, L)
    return None
