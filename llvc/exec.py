"""Path-wise weakest-precondition engine over LLVM IR.

Every contract (a C++ function `vc_*` in /verif/harness that assumes its
precondition, calls the real code and asserts its postcondition) is executed on
symbolic values over *all* feasible paths.  Each assertion, memory access,
arithmetic operation with undefined overflow, library precondition and
no-throw promise becomes a proof obligation discharged by z3 under the path
condition.  Loops whose trip count is not decided are replaced by an inductive
summary (loops.py); a loop that cannot be summarised is unrolled up to a stated
bound and the contract is then reported as bounded.
"""
import time
from fractions import Fraction
import z3
from ir import *
from vals import *
from mem import *
import realalg
from loops import Poison, SummaryFailed


class Frame:
    __slots__ = ('f', 'regs', 'blk', 'code', 'i', 'prev', 'allocas', 'callins', 'va', 'iters', 'loopctx', 'onret')

    def __init__(s, f):
        s.f = f
        s.regs = {}
        s.blk = None
        s.code = None
        s.i = 0
        s.prev = None
        s.allocas = []
        s.va = None
        s.iters = {}
        s.loopctx = {}
        s.onret = None

    def copy(s):
        n = Frame.__new__(Frame)
        n.f = s.f
        n.regs = dict(s.regs)
        n.blk = s.blk
        n.code = s.code
        n.i = s.i
        n.prev = s.prev
        n.allocas = list(s.allocas)
        n.va = s.va
        n.iters = dict(s.iters)
        n.loopctx = dict(s.loopctx)
        n.onret = s.onret
        return n


class LoopRestart(Exception):
    """restart the contract with this loop summarised"""

    def __init__(s, key):
        s.key = key


class TrialStop(Exception):
    def __init__(s, kind, st):
        s.kind = kind
        s.st = st


def class_decide(eng, c):
    """truth of a condition on one byte drawn from a declared set (vf_chars), if the
    set alone decides it"""
    k = eng.cdec.get(c.get_id())
    if k is not None:
        return k[1]
    r = None
    todo, seen, var, n = [c], set(), None, 0
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        n += 1
        if n > 60:
            var = None
            break
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if var is not None and var.get_id() != i or i not in eng.classes:
                        var = None
                        break
                    var = x
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                var = None
                break
            else:
                todo.extend(x.children())
        else:
            var = None
            break
    if var is not None:
        seen = set()
        for v in eng.classes[var.get_id()][1]:
            e = z3.simplify(z3.substitute(c, (var, z3.BitVecVal(v, 8))))
            seen.add(True if z3.is_true(e) else False if z3.is_false(e) else None)
            if len(seen) > 1:
                break
        r = seen.pop() if len(seen) == 1 else None
    eng.cdec[c.get_id()] = (c, r)
    return r


class State(Mem):
    def __init__(s, eng):
        s.eng = eng
        s.frames = []
        s.objs = {}
        s.token = object()
        s.pc = []
        s.known = {}
        s.facts = {}
        s.reads = {}
        s.nd = []
        s.trace = []
        s.exc = []       # stack of in-flight / caught exceptions
        s.model = None
        s.ghost = {}
        s.trial = None
        s.bounded = False
        s.steps = 0

    def fork(s):
        n = State.__new__(State)
        n.eng = s.eng
        n.frames = [f.copy() for f in s.frames]
        n.objs = dict(s.objs)
        s.token = object()
        n.token = object()
        n.pc = list(s.pc)
        n.known = dict(s.known)
        n.facts = {k: list(v) for k, v in s.facts.items()}
        n.reads = {k: dict(v) for k, v in s.reads.items()}
        n.nd = list(s.nd)
        n.trace = list(s.trace)
        n.exc = list(s.exc)
        n.model = s.model
        n.ghost = dict(s.ghost)
        n.trial = s.trial
        n.bounded = s.bounded
        n.steps = s.steps
        return n

    # -------------------------------------------------- path condition
    def add(s, c):
        """add a constraint known to be consistent (or a fact)"""
        if c is True:
            return
        if c is False:
            raise PathEnd()
        s.pc.append(c)
        s.known[c.get_id()] = (True, c)

    def learn(s, c, val):
        s.known[c.get_id()] = (val, c)

    def lookup(s, c):
        k = s.known.get(c.get_id())
        if k is not None:
            return k[0]
        if z3.is_not(c):
            k = s.known.get(c.arg(0).get_id())
            if k is not None:
                return not k[0]
        return None

    def implied(s, c):
        """True/False if the path condition decides c, else None (no fork)"""
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        v = s.lookup(c)
        if v is not None:
            return v
        if s.eng.classes:
            v = class_decide(s.eng, c)
            if v is not None:
                return v
        t, f = s.eng.both(s, c)
        if t and f:
            return None
        if not t and not f:
            raise PathEnd()
        s.learn(c, t)
        return t

    def decide(s, c):
        if isinstance(c, bool):
            return c
        v = s.implied(c)
        if v is not None:
            return v
        raise Fork(simp(c))

    def assume(s, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        v = s.lookup(c)
        if v is True:
            return
        if v is False:
            raise PathEnd()
        s.pc.append(c)
        s.learn(c, True)
        if not s.eng.feasible(s):
            raise PathEnd()

    def const_of(s, e):
        """the unique value of bit-vector e under the path condition, if unique"""
        e = simp(e)
        if type(e) is int:
            return e
        s.eng.ensure_model(s)
        if s.model is None:
            return None
        v = s.model.eval(e, model_completion=True)
        if not z3.is_bv_value(v):
            return None
        v = v.as_long()
        if s.implied(e == v) is True:
            return v
        return None

    def concretize(s, e):
        """fork over the feasible values of e"""
        if type(e) is int:
            return e
        v = s.const_of(e)
        if v is not None:
            return v
        s.eng.concretizations += 1
        if s.eng.concretizations > 20000:
            raise Unsupported('too many concretizations')
        v = s.model.eval(e, model_completion=True).as_long()
        c = simp(e == v)
        if s.decide(c):
            return v
        raise Unsupported('concretize')

    # -------------------------------------------------- quantified facts
    def add_fact(s, oid, fn):
        """fn(st, idx) -> Bool holds for every byte index of object oid"""
        s.facts.setdefault(oid, []).append(fn)
        for k, idx in list(s.reads.get(oid, {}).items()):
            s._inst(fn, idx)

    def _inst(s, fn, idx):
        c = fn(s, idx)
        if c is not None and c is not True:
            if c is False:
                raise PathEnd()
            c = simp(c)
            if c is True:
                return
            if c is False:
                raise PathEnd()
            s.pc.append(c)
            s.known[c.get_id()] = (True, c)

    def note_read(s, oid, idx):
        r = s.reads.get(oid)
        if r is None:
            r = s.reads[oid] = {}
        k = idx if type(idx) is int else ('t', idx.get_id())
        if k in r:
            return
        r[k] = idx
        fs = s.facts.get(oid)
        if fs:
            for fn in list(fs):
                s._inst(fn, idx)

    # -------------------------------------------------- obligations
    def where(s):
        for fr in reversed(s.frames):
            if fr.i < len(fr.code):
                l = fr.code[fr.i].line
                if l and not l[0].startswith('/usr/'):
                    return '%s:%d' % (l[0], l[1])
        for fr in reversed(s.frames):
            if fr.i < len(fr.code):
                l = fr.code[fr.i].line
                if l:
                    return '%s:%d' % (l[0], l[1])
        return '?'

    def oblige(s, kind, cond, label=None, detail=''):
        """prove cond here; afterwards it is assumed"""
        if s.trial is not None:
            if cond is False:
                raise PathEnd()
            if cond is not True:
                s.assume(cond)
            return
        s.eng.obligation(s, kind, cond, label, detail)

    def fail(s, kind, label=None, detail=''):
        s.oblige(kind, False, label, detail)
        raise PathEnd()

    def lost(s, p):
        """a global referenced by another global's initialiser on another path"""
        o = (s.eng.glob_objs or {}).get(p.obj)
        if o is None:
            raise Unsupported('unknown object %r' % (p,))
        s.objs[p.obj] = o
        return o

    # -------------------------------------------------- memory access
    def access(s, p, n, what):
        """obligation: [p, p+n) lies inside a live object"""
        if isinstance(p, Pieces):
            bs = []
            for m, v in p.ps:
                bs += piece_bytes(m, v)
            p = join_bytes(bs)
        if not isinstance(p, Ptr):
            if p is UNDEF:
                s.fail('memory', detail='use of an uninitialised pointer (%s)' % what)
            raise Unsupported('access through %r' % (p,))
        if p.obj is None:
            s.fail('memory', detail='%s through an invalid or null pointer' % what)
        if not isinstance(p.obj, int):
            raise Unsupported('data access to a function')
        o = s.objs.get(p.obj) or s.lost(p)
        if not o.alive:
            s.fail('memory', detail='%s of %s after its lifetime ended' % (what, o.name))
        if type(p.off) is int and type(o.size) is int and type(n) is int:
            if p.off + n > o.size:
                s.fail('memory', detail='%s of %d bytes at offset %d of %s (size %d)' % (
                    what, n, p.off if p.off < 1 << 63 else p.off - (1 << 64), o.name, o.size))
            s.eng.trivial += 1
        else:
            # n <= size and off <= size - n (no wrap)
            if type(n) is int:
                c = b_and(ole(n, o.size), ole(p.off, osub(o.size, n)))
            else:
                c = b_and(ole(n, o.size), ole(p.off, osub(o.size, n)))
            s.oblige('memory', c, detail='%s within %s' % (what, o.name))
        if what == 'write' and o.const:
            s.fail('memory', detail='write to constant %s' % o.name)
        return p

    def load(s, p, ty):
        if isinstance(ty, StructT):
            offs, _ = layout(ty)
            return tuple(s.load(Ptr(p.obj, oadd(p.off, o)), e) for o, e in zip(offs, ty.els))
        if isinstance(ty, ArrT):
            es = size_of(ty.el)
            return tuple(s.load(Ptr(p.obj, oadd(p.off, i * es)), ty.el) for i in range(ty.n))
        if isinstance(ty, IntT):
            n = (ty.w + 7) // 8
        elif isinstance(ty, FloatT) and ty.w == 80:
            n = 16
        else:
            n = size_of(ty)
        p = s.access(p, n, 'read')
        o = s.objs.get(p.obj) or s.lost(p)
        v = s.read_n(o, p.off, n)
        return s.as_type(v, ty, n)

    def as_type(s, v, ty, n):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Poison):
            raise SummaryFailed(v.key, 'the value of %s after the loop is needed' % v.what)
        if isinstance(ty, IntT):
            if type(v) is int:
                return v & mask(ty.w)
            if isinstance(v, (Ptr, Pieces, Fraction, tuple, Part)):
                return v
            if z3.is_bool(v):
                return v if ty.w == 1 else to_bv(v, ty.w)
            if z3.is_bv(v):
                if ty.w == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                if v.size() != ty.w:
                    v = z3.Extract(ty.w - 1, 0, v) if v.size() > ty.w else z3.ZeroExt(ty.w - v.size(), v)
                return v
            return v  # a real carried in an integer register
        if isinstance(ty, PtrT):
            if isinstance(v, Ptr):
                return v
            if type(v) is int:
                return Ptr(None, v)
            if isinstance(v, Pieces):
                return v
            raise Unsupported('non-pointer %r read as pointer' % (v,))
        # float
        if isinstance(v, (Fraction, tuple)) or z3.is_expr(v) and z3.is_real(v):
            return v
        if type(v) is int:
            if v == 0:
                return Fraction(0)
            if isinstance(ty, FloatT) and ty.w == 64:
                import struct
                d = struct.unpack('<d', struct.pack('<Q', v))[0]
                return real_of_double(d)
        if isinstance(v, Pieces):
            return v
        raise Unsupported('bytes %r read as floating point' % (v,))

    def store(s, p, ty, v):
        if isinstance(v, tuple) and isinstance(ty, StructT):
            offs, _ = layout(ty)
            for o, e, x in zip(offs, ty.els, v):
                s.store(Ptr(p.obj, oadd(p.off, o)), e, x)
            return
        if isinstance(v, tuple) and isinstance(ty, ArrT):
            es = size_of(ty.el)
            for i, x in enumerate(v):
                s.store(Ptr(p.obj, oadd(p.off, i * es)), ty.el, x)
            return
        if isinstance(ty, IntT):
            n = (ty.w + 7) // 8
            if ty.w == 1:
                v = to_bv(v, 8) if not (type(v) is int or v is UNDEF) else v
                if type(v) is not int and v is not UNDEF:
                    v = simp(v)
        elif isinstance(ty, FloatT) and ty.w == 80:
            n = 16
        else:
            n = size_of(ty)
        if isinstance(ty, PtrT) and isinstance(v, Ptr) and v.obj is None and type(v.off) is int:
            v = v.off
        p = s.access(p, n, 'write')
        if isinstance(v, Pieces):
            tot = sum(m for m, _ in v.ps)
            if tot != n:
                raise Unsupported('partial Pieces store')
        s.write_n(p.obj, p.off, n, v)

    # -------------------------------------------------- operands
    def const_agg(s, ty, op):
        k = op[0]
        if k == 'zero':
            return s.zero(ty)
        if k == 'undef':
            return s.undef(ty)
        if k == 'agg':
            return tuple(s.operand(t, o) for t, o in op[1])
        if k == 'bytes':
            return tuple(op[1])
        raise IRError('const_agg')

    def zero(s, ty):
        if isinstance(ty, IntT):
            return 0
        if isinstance(ty, FloatT):
            return Fraction(0)
        if isinstance(ty, PtrT):
            return NULL
        if isinstance(ty, StructT):
            return tuple(s.zero(e) for e in ty.els)
        if isinstance(ty, ArrT):
            return tuple(s.zero(ty.el) for _ in range(ty.n))
        raise IRError('zero')

    def undef(s, ty):
        if isinstance(ty, StructT):
            return tuple(s.undef(e) for e in ty.els)
        if isinstance(ty, ArrT):
            return tuple(s.undef(ty.el) for _ in range(ty.n))
        return UNDEF

    def operand(s, ty, op):
        k = op[0]
        if k == 'l':
            v = s.frames[-1].regs[op[1]]
            if type(v) is Poison:
                raise SummaryFailed(v.key, 'the value of %s after the loop is needed' % v.what)
            return v
        if k == 'c':
            return op[1]
        if k == 'g':
            return s.eng.globptr(s, op[1])
        if k == 'null':
            return NULL
        if k == 'gep':
            base = s.operand(PTR, op[2])
            return s.gep(op[1], base, [(t, s.operand(t, o)) for t, o in op[3]])
        if k == 'ccast':
            return s.cast(op[1], op[2], s.operand(op[2], op[3]), op[4])
        if k == 'cbin':
            return s.binop(op[1], op[2], s.operand(op[2], op[3]), s.operand(op[2], op[4]), ())
        return s.const_agg(ty, op)

    # -------------------------------------------------- arithmetic
    def gep(s, ty, base, idx):
        if base is UNDEF:
            s.fail('memory', detail='pointer arithmetic on an uninitialised pointer')
        if isinstance(base, Pieces):
            bs = []
            for m, v in base.ps:
                bs += piece_bytes(m, v)
            base = join_bytes(bs)
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        first = True
        for t, v in idx:
            if v is UNDEF:
                s.fail('memory', detail='index is uninitialised')
            if first:
                es = size_of(ty)
                first = False
            elif isinstance(ty, StructT):
                offs, _ = layout(ty)
                off = oadd(off, offs[v])
                ty = ty.els[v]
                continue
            else:
                ty = ty.el
                es = size_of(ty)
            if type(v) is int:
                off = oadd(off, (sgn(v, t.w) * es) & mask(64))
            else:
                if isinstance(v, Ptr):
                    raise Unsupported('pointer as index')
                if t.w < 64:
                    v = z3.SignExt(64 - t.w, v)
                off = oadd(off, omul(v, es))
        return Ptr(base.obj, off)

    def fix(s, v, w):
        """resolve Pieces etc. to an integer"""
        if isinstance(v, Pieces):
            bs = []
            for m, x in v.ps:
                bs += piece_bytes(m, x)
            bs = [z3.FreshConst(z3.BitVecSort(8), 'pad') if b is UNDEF else b for b in bs]
            r = join_bytes(bs)
            if isinstance(r, Pieces):
                raise Unsupported('arithmetic on mixed bytes')
            return r
        return v

    def binop(s, op, ty, a, b, flags):
        if isinstance(ty, ArrT):
            return tuple(s.binop(op, ty.el, x, y, flags) for x, y in zip(a, b))
        w = ty.w
        if isinstance(a, Pieces):
            if op == 'lshr' and type(b) is int and b % 8 == 0:
                bs = []
                for m, v in a.ps:
                    bs += piece_bytes(m, v)
                bs = bs[b // 8:] + [0] * (b // 8)
                return Pieces([(1, x) for x in bs])
            a = s.fix(a, w)
        if isinstance(b, Pieces):
            b = s.fix(b, w)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return s.ptr_arith(op, a, b, w)
        if isinstance(a, (Fraction, tuple)) or isinstance(b, (Fraction, tuple)):
            raise Unsupported('integer arithmetic on floating point bytes')
        ia = type(a) is int
        ib = type(b) is int
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if op == 'and':
                return b2i(b_and(x, y))
            if op == 'or':
                return b2i(b_or(x, y))
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, bool) and isinstance(y, bool):
                    return int(x != y)
                if isinstance(x, bool):
                    return b2i(b_not(y) if x else y)
                if isinstance(y, bool):
                    return b2i(b_not(x) if y else x)
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        m = mask(w)
        if ia and ib:
            if op == 'add':
                r = a + b
                if 'nsw' in flags:
                    t = sgn(a, w) + sgn(b, w)
                    if not -(1 << (w - 1)) <= t < (1 << (w - 1)):
                        s.fail('overflow', detail='signed addition overflows')
            elif op == 'sub':
                r = a - b
                if 'nsw' in flags:
                    t = sgn(a, w) - sgn(b, w)
                    if not -(1 << (w - 1)) <= t < (1 << (w - 1)):
                        s.fail('overflow', detail='signed subtraction overflows')
            elif op == 'mul':
                r = a * b
                if 'nsw' in flags:
                    t = sgn(a, w) * sgn(b, w)
                    if not -(1 << (w - 1)) <= t < (1 << (w - 1)):
                        s.fail('overflow', detail='signed multiplication overflows')
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    s.fail('arith', detail='division by zero')
                if op == 'udiv':
                    r = a // b
                elif op == 'urem':
                    r = a % b
                else:
                    x, y = sgn(a, w), sgn(b, w)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    r = q if op == 'sdiv' else x - q * y
            elif op == 'shl':
                r = a << b if b < w else 0
            elif op == 'lshr':
                r = a >> b if b < w else 0
            elif op == 'ashr':
                r = sgn(a, w) >> min(b, w - 1)
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            return r & m
        if not ia and not ib and op in ('sub', 'xor') and a.eq(b):
            return 0
        if op == 'add':
            if ib and b == 0:
                return a
            if ia and a == 0:
                return b
        if op == 'sub' and ib and b == 0:
            return a
        if op == 'mul':
            if (ia and a == 0) or (ib and b == 0):
                return 0
            if ia and a == 1:
                return b
            if ib and b == 1:
                return a
        x = to_bv(a, w)
        y = to_bv(b, w)
        if op == 'add':
            if 'nsw' in flags:
                s.ovf(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y), 'addition', x, y, op)
            return simp(x + y)
        if op == 'sub':
            if 'nsw' in flags:
                s.ovf(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True), 'subtraction', x, y, op)
            return simp(x - y)
        if op == 'mul':
            if 'nsw' in flags:
                s.ovf(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y), 'multiplication', x, y, op)
            return simp(x * y)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not ib:
                s.oblige('arith', simp(y != 0), detail='division by zero')
            elif b == 0:
                s.fail('arith', detail='division by zero')
            elif s.eng.divkopt and b < 1 << (w - 4) and s.trial is None:
                r = s.eng.divk(s, op, z3.simplify(x), b)
                if r is not None:
                    return r
            return simp({'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y))
        if op == 'shl':
            return simp(x << y)
        if op == 'lshr':
            return simp(z3.LShR(x, y))
        if op == 'ashr':
            return simp(x >> y)
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        raise IRError(op)

    def ovf(s, c1, c2, what, x, y, op):
        c = simp(z3.And(c1, c2))
        s.oblige('overflow', c, detail='signed %s does not overflow' % what)

    def ptr_arith(s, op, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op == 'sub':
                if a.obj == b.obj:
                    return osub(a.off, b.off)
                if a.obj is None or b.obj is None:
                    o = a if a.obj is not None else b
                    n = b if a.obj is not None else a
                    if type(n.off) is int and n.off == 0 and o is a:
                        return a
                s.fail('memory', detail='subtraction of pointers into different objects')
            raise Unsupported('pointer ' + op)
        if op == 'add':
            p, i = (a, b) if isinstance(a, Ptr) else (b, a)
            return Ptr(p.obj, oadd(p.off, i))
        if op == 'sub' and isinstance(a, Ptr):
            return Ptr(a.obj, osub(a.off, b))
        if op == 'and' and isinstance(a, Ptr) and type(b) is int and type(a.off) is int:
            if b < 16:
                return a.off & b
        raise Unsupported('pointer arithmetic ' + op)

    def icmp(s, pred, ty, a, b):
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            a = s.fix(a, 64)
            b = s.fix(b, 64)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return s.ptr_cmp(pred, a, b)
        w = ty.w
        if w == 1:
            x, y = to_bool(a), to_bool(b)
            if pred in ('eq', 'ne'):
                if isinstance(x, bool) and isinstance(y, bool):
                    r = x == y
                elif isinstance(x, bool):
                    r = y if x else b_not(y)
                elif isinstance(y, bool):
                    r = x if y else b_not(x)
                else:
                    r = simp(x == y)
                return b2i(r if pred == 'eq' else b_not(r))
            raise Unsupported('icmp i1 ' + pred)
        if type(a) is int and type(b) is int:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
            return int(r)
        x, y = to_bv(a, w), to_bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pred]()
        return b2i(simp(r))

    def ptr_cmp(s, pred, a, b):
        if type(a) is int:
            a = Ptr(None, a)
        if type(b) is int:
            b = Ptr(None, b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer compared with symbolic integer')
        if a.obj == b.obj:
            x, y = a.off, b.off
            if a.obj is not None and pred not in ('eq', 'ne'):
                # pointers before the start of the object: signed view
                pred = pred.replace('u', 's')
            return s.icmp(pred, I[64], x, y)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        # different objects: an arbitrary but fixed total order (ids)
        ka = -1 if a.obj is None else (a.obj if isinstance(a.obj, int) else 0)
        kb = -1 if b.obj is None else (b.obj if isinstance(b.obj, int) else 0)
        return int(ka < kb if pred[1:] in ('lt', 'le') else ka > kb)

    def fbin(s, op, a, b):
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            raise Unsupported('float bytes')
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('arithmetic with inf/nan')
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b == 0:
                    raise Unsupported('division by literal zero')
                return a / b
            q = a / b
            import math
            return a - b * math.trunc(q)
        if op == 'fadd':
            if isinstance(a, Fraction) and a == 0:
                return b
            if isinstance(b, Fraction) and b == 0:
                return a
        elif op == 'fsub':
            if isinstance(b, Fraction) and b == 0:
                return a
        elif op == 'fmul':
            if isinstance(a, Fraction):
                if a == 0:
                    return Fraction(0)
                if a == 1:
                    return b
            if isinstance(b, Fraction):
                if b == 0:
                    return Fraction(0)
                if b == 1:
                    return a
        elif op == 'fdiv':
            if isinstance(b, Fraction):
                if b == 1:
                    return a
                if b != 0:
                    return to_real(a) * z3.RealVal(1 / b)
        x, y = to_real(a), to_real(b)
        r = None
        if op == 'fadd':
            r = x + y
        elif op == 'fsub':
            r = x - y
        elif op == 'fmul':
            r = x * y
        elif op == 'fdiv':
            r = x / y
        if r is not None:
            if s.eng.canon:
                r = realalg.rebuild(r, s.eng.uf_real)
                if z3.is_rational_value(r):
                    return Fraction(r.numerator_as_long(), r.denominator_as_long())
            return r
        if op == 'frem':
            return s.eng.uf_real('fmod', 2)(x, y)
        raise IRError(op)

    def fcmp(s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred == 'ord' or pred == 'true':
            return 1
        if pred == 'uno' or pred == 'false':
            return 0
        if isinstance(a, tuple) or isinstance(b, tuple):
            return s.cmp_special(pred, a, b)
        p = pred[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        x, y = to_real(a), to_real(b)
        if p in ('eq', 'ne'):
            z = realalg.is_zero(x - y)
            if z is True:
                return int(p == 'eq')
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
             'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()
        return b2i(simp(r))

    def cmp_special(s, pred, a, b):
        def key(v):
            if isinstance(v, tuple):
                if 'nan' in v[1]:
                    return None
                return float('-inf') if v[1].startswith('-') else float('inf')
            return 0
        x, y = key(a), key(b)
        if x is None or y is None:
            return int(pred[0] == 'u')
        p = pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])

    def ext_of(s, v, w, signed):
        """64-bit affine form of a narrow loop counter"""
        for t, x, tw in s.ghost['exts']:
            if tw != w:
                continue
            d = 0 if t is v or (z3.is_expr(t) and t.eq(v)) else simp(v - t)
            if type(d) is not int:
                continue
            c = oadd(x, sgn(d, w) & mask(64))
            if d == 0 and signed:
                return c
            e = z3.SignExt(64 - w, v) if signed else z3.ZeroExt(64 - w, v)
            if s.implied(simp(to_bv(c, 64) == e)) is True:
                return c
        return None

    def cast(s, op, ft, v, tt):
        if v is UNDEF:
            return UNDEF
        if op == 'bitcast':
            return v
        if op == 'ptrtoint':
            if tt.w != 64:
                raise Unsupported('ptrtoint i%d' % tt.w)
            if isinstance(v, Ptr) and v.obj is None:
                return v.off
            return v
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            return Ptr(None, v)
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, Pieces):
                if op == 'trunc':
                    bs = []
                    for m, x in v.ps:
                        bs += piece_bytes(m, x)
                    r = join_bytes(bs[:(tt.w + 7) // 8])
                    return s.as_type(r, tt, 0) if tt.w % 8 == 0 else s.cast('trunc', ft, s.fix(v, ft.w), tt)
                v = s.fix(v, ft.w)
            if isinstance(v, Ptr):
                raise Unsupported('%s of a pointer' % op)
            if op == 'trunc':
                if tt.w == 1:
                    if type(v) is int:
                        return v & 1
                    return b2i(simp(z3.Extract(0, 0, v) == 1))
                if type(v) is int:
                    return v & mask(tt.w)
                return simp(z3.Extract(tt.w - 1, 0, v))
            if ft.w == 1:
                if type(v) is int:
                    return v if op == 'zext' else (mask(tt.w) if v else 0)
                b = to_bool(v)
                return z3.If(b, z3.BitVecVal(1 if op == 'zext' else mask(tt.w), tt.w), z3.BitVecVal(0, tt.w))
            if type(v) is int:
                return v if op == 'zext' else sgn(v, ft.w) & mask(tt.w)
            if tt.w == 64 and 'exts' in s.ghost:
                x = s.ext_of(v, ft.w, op == 'sext')
                if x is not None:
                    return x
            if op == 'zext':
                return simp(z3.ZeroExt(tt.w - ft.w, v))
            return simp(z3.SignExt(tt.w - ft.w, v))
        if op in ('sitofp', 'uitofp'):
            v = s.fix(v, ft.w)
            if ft.w == 1:
                v = to_bv(v, 8) if type(v) is not int else v
                if type(v) is int:
                    return Fraction(v)
                return z3.If(v == 1, z3.RealVal(1), z3.RealVal(0))
            if type(v) is int:
                return Fraction(sgn(v, ft.w) if op == 'sitofp' else v)
            r = s.eng.real_of_bv(v, op == 'sitofp')
            return r
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Fraction):
                import math
                return math.trunc(v) & mask(tt.w)
            if isinstance(v, tuple):
                s.fail('arith', detail='conversion of inf/nan to an integer')
            return s.eng.bv_of_real(s, v, tt.w, op == 'fptosi')
        if op in ('fpext', 'fptrunc'):
            return v
        raise IRError('cast ' + op)

    # -------------------------------------------------- control
    def top(s):
        return s.frames[-1]

    def goto(s, blk):
        fr = s.frames[-1]
        eng = s.eng
        f = fr.f
        loops = f.loops()
        if fr.loopctx:
            for h in list(fr.loopctx):
                if blk not in loops[h]:
                    cx = fr.loopctx.pop(h)
                    if s.trial is not None and cx.get('trial') is s.trial:
                        fr.prev = fr.blk
                        raise TrialStop('exit', s)
        if fr.iters:
            for h in list(fr.iters):
                if blk not in loops[h]:
                    del fr.iters[h]
        ishead = blk in loops
        back = ishead and fr.blk in loops[blk] and (blk in fr.iters or blk in fr.loopctx)
        # phis
        code = f.blocks[blk]
        regs = fr.regs
        prev = fr.blk
        i = 0
        if code[0].op == 'phi':
            vals = []
            for ins in code:
                if ins.op != 'phi':
                    break
                vals.append((ins.dst, s.operand(ins.ty, ins.a[prev])))
                i += 1
            for d, v in vals:
                regs[d] = v
        fr.prev = prev
        fr.blk = blk
        fr.code = code
        fr.i = i
        if ishead:
            if back:
                if blk in fr.loopctx:
                    cx = fr.loopctx[blk]
                    if s.trial is not None and cx.get('trial') is s.trial:
                        raise TrialStop('back', s)
                    eng.loop_back(s, fr, blk, cx)
                    raise PathEnd()
                n, nf = fr.iters[blk]
                n += 1
                if len(s.pc) > nf[1]:
                    nf = (nf[0] + 1, len(s.pc))
                fr.iters[blk] = (n, nf)
                if nf[0] > eng.unroll_limit:
                    eng.loop_limit(s, (f.name, blk))
                if n > eng.iter_limit:
                    raise Unsupported('loop at %s runs more than %d iterations' % (s.where(), eng.iter_limit))
            else:
                fr.iters[blk] = (0, (0, len(s.pc)))
                if (f.name, blk) in eng.summarize:
                    eng.loop_enter(s, fr, blk)

    def run(s):
        eng = s.eng
        while True:
            fr = s.frames[-1]
            ins = fr.code[fr.i]
            s.steps += 1
            eng.nsteps += 1
            if eng.nsteps & 1023 == 0:
                eng.tick()
            H[ins.op](s, fr, ins)
            if not s.frames:
                return

    # -------------------------------------------------- calls
    def push_call(s, f, args, va=None):
        f.parse()
        if len(s.frames) > 300:
            raise Unsupported('recursion too deep')
        s.eng.used_funcs.add(f.name)
        n = Frame(f)
        for (t, nm, at), v in zip(f.params, args):
            n.regs[nm] = v
        n.va = va
        n.blk = f.entry
        n.code = f.blocks[f.entry]
        s.frames.append(n)

    def leave(s, fr):
        for i in fr.allocas:
            o = s.wobj(i)
            o.alive = False
        s.frames.pop()

    def do_return(s, val):
        fr = s.frames[-1]
        s.leave(fr)
        if fr.onret is not None:
            fr.onret(s, val)
            return
        if not s.frames:
            return
        c = s.frames[-1]
        ins = c.code[c.i]
        s.finish_call(c, ins, val)

    def finish_call(s, c, ins, val):
        if ins.dst is not None:
            c.regs[ins.dst] = val
        if ins.op == 'invoke':
            s.goto(ins.c[0])
        else:
            c.i += 1

    def throw(s, typename, obj=None, msg=None):
        """raise an exception from the current call instruction"""
        s.exc.append({'type': typename, 'obj': obj, 'msg': msg})
        s.unwind()

    def unwind(s):
        e = s.exc[-1]
        while s.frames:
            fr = s.frames[-1]
            ins = fr.code[fr.i]
            if ins.op == 'invoke':
                ub = fr.f.blocks[ins.c[1]]
                lp = next(x for x in ub if x.op == 'landingpad')
                sel = None
                clean = False
                for c in lp.a:
                    if c[0] == 'cleanup':
                        clean = True
                    elif c[0] == 'catch' and sel is None:
                        if c[1][0] == 'null':
                            sel = s.eng.typeid(None)
                        elif s.eng.is_a(e['type'], c[1][1]):
                            sel = s.eng.typeid(c[1][1])
                    elif c[0] == 'filter':
                        sel = mask(32)
                if sel is not None or clean:
                    s.ghost['lp'] = (e['obj'] or NULL, sel or 0)
                    s.goto(ins.c[1])
                    return
            if s.trial is not None and any(cx.get('trial') is s.trial for cx in fr.loopctx.values()):
                raise TrialStop('exit', s)
            s.leave(fr)
            if fr.onret is not None:
                raise Unsupported('exception through a library callback')
        s.frames.clear()
        s.eng.uncaught(s, e)
        raise PathEnd()


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return b


# ------------------------------------------------------------ handlers
H = {}


def h(name):
    def d(f):
        H[name] = f
        return f
    return d


@h('nop')
def _(st, fr, ins):
    fr.i += 1


@h('unsupported')
def _(st, fr, ins):
    raise Unsupported('IR instruction %s: %s' % (ins.x, ins.text[:100]))


@h('alloca')
def _(st, fr, ins):
    n = 1
    if ins.a is not None:
        n = st.operand(*ins.a)
    sz = size_of(ins.ty)
    sz = sz * n if type(n) is int else omul(n, sz)
    i = st.new_obj('%s:%s' % (fr.f.name, ins.dst), 'stack', sz)
    fr.allocas.append(i)
    fr.regs[ins.dst] = Ptr(i, 0)
    fr.i += 1


@h('load')
def _(st, fr, ins):
    p = st.operand(PTR, ins.a)
    fr.regs[ins.dst] = st.load(p, ins.ty)
    fr.i += 1


@h('store')
def _(st, fr, ins):
    v = st.operand(ins.ty, ins.a)
    st.store(st.operand(PTR, ins.b), ins.ty, v)
    fr.i += 1


@h('getelementptr')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.gep(ins.ty, st.operand(PTR, ins.a), [(t, st.operand(t, o)) for t, o in ins.b])
    fr.i += 1


@h('bin')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.binop(ins.c, ins.ty, st.operand(ins.ty, ins.a), st.operand(ins.ty, ins.b), ins.x)
    fr.i += 1


@h('fbin')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.fbin(ins.c, st.operand(ins.ty, ins.a), st.operand(ins.ty, ins.b))
    fr.i += 1


@h('fneg')
def _(st, fr, ins):
    v = st.operand(ins.ty, ins.a)
    if isinstance(v, tuple):
        v = ('special', v[1][1:] if v[1].startswith('-') else '-' + v[1])
    elif v is not UNDEF:
        v = -v
    fr.regs[ins.dst] = v
    fr.i += 1


@h('freeze')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.operand(ins.ty, ins.a)
    fr.i += 1


@h('icmp')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.icmp(ins.c, ins.ty, st.operand(ins.ty, ins.a), st.operand(ins.ty, ins.b))
    fr.i += 1


@h('fcmp')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.fcmp(ins.c, st.operand(ins.ty, ins.a), st.operand(ins.ty, ins.b))
    fr.i += 1


@h('cast')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.cast(ins.c, ins.x, st.operand(ins.x, ins.a), ins.ty)
    fr.i += 1


@h('select')
def _(st, fr, ins):
    c = st.operand(I[1], ins.c)
    if c is UNDEF:
        st.fail('uninit', detail='decision on an uninitialised value')
    c = to_bool(c)
    a = st.operand(ins.ty, ins.a)
    b = st.operand(ins.ty, ins.b)
    if isinstance(c, bool):
        v = a if c else b
    elif isinstance(ins.ty, IntT) and not isinstance(a, (Ptr, Pieces, Undef)) and not isinstance(b, (Ptr, Pieces, Undef)):
        v = b2i(simp(ite(c, a, b, ins.ty.w)))
    elif isinstance(ins.ty, FloatT) and not isinstance(a, (tuple, Undef)) and not isinstance(b, (tuple, Undef)):
        k = st.implied(c)
        v = (a if k else b) if k is not None else z3.If(c, to_real(a), to_real(b))
    else:
        v = a if st.decide(c) else b
    fr.regs[ins.dst] = v
    fr.i += 1


@h('br')
def _(st, fr, ins):
    if ins.c is None:
        st.goto(ins.a)
        return
    c = st.operand(I[1], ins.c)
    if c is UNDEF:
        st.fail('uninit', detail='branch on an uninitialised value')
    st.goto(ins.a if st.decide(to_bool(c)) else ins.b)


@h('switch')
def _(st, fr, ins):
    v = st.operand(ins.ty, ins.c)
    if v is UNDEF:
        st.fail('uninit', detail='switch on an uninitialised value')
    v = st.fix(v, ins.ty.w)
    if type(v) is int:
        for k, l in ins.b:
            if k == v:
                st.goto(l)
                return
        st.goto(ins.a)
        return
    for k, l in ins.b:
        if st.decide(int_eq(v, k, ins.ty.w)):
            st.goto(l)
            return
    st.goto(ins.a)


@h('phi')
def _(st, fr, ins):
    raise IRError('phi reached')


def do_call(st, fr, ins):
    if ins.a[0] == 'g':
        name = ins.a[1]
    else:
        p = st.operand(PTR, ins.a)
        if not isinstance(p, Ptr) or not isinstance(p.obj, tuple):
            if isinstance(p, Ptr) and p.obj is None:
                st.fail('memory', detail='call through a null function pointer')
            raise Unsupported('indirect call through %r' % (p,))
        name = p.obj[1]
    args = [st.operand(t, o) if not isinstance(t, OpaqueT) else None for t, o, _ in ins.b]
    st.eng.call(st, fr, ins, name, args)


H['call'] = do_call
H['invoke'] = do_call


@h('landingpad')
def _(st, fr, ins):
    fr.regs[ins.dst] = st.ghost['lp']
    fr.i += 1


@h('resume')
def _(st, fr, ins):
    if st.trial is not None and any(cx.get('trial') is st.trial for cx in fr.loopctx.values()):
        raise TrialStop('exit', st)
    st.leave(fr)
    st.unwind()


@h('ret')
def _(st, fr, ins):
    v = None if ins.a is None else st.operand(ins.ty, ins.a)
    st.do_return(v)


@h('unreachable')
def _(st, fr, ins):
    st.fail('unreachable', detail='control reaches an unreachable point')


@h('extractvalue')
def _(st, fr, ins):
    v = st.operand(ins.ty, ins.a)
    for i in ins.b:
        v = v[i]
    fr.regs[ins.dst] = v
    fr.i += 1


@h('insertvalue')
def _(st, fr, ins):
    v = st.operand(ins.ty, ins.a)
    x = st.operand(*ins.b)

    def put(v, path, t):
        if not path:
            return x
        if v is UNDEF:
            v = st.undef(t)
        l = list(v)
        l[path[0]] = put(l[path[0]], path[1:], t.els[path[0]] if isinstance(t, StructT) else t.el)
        return tuple(l)
    fr.regs[ins.dst] = put(v, ins.c, ins.ty)
    fr.i += 1


@h('atomicrmw')
def _(st, fr, ins):
    p = st.operand(PTR, ins.a)
    v = st.operand(ins.ty, ins.b)
    old = st.load(p, ins.ty)
    if ins.c not in ('add', 'sub', 'xchg', 'and', 'or'):
        raise Unsupported('atomicrmw')
    new = v if ins.c == 'xchg' else st.binop(ins.c, ins.ty, old, v, ())
    st.store(p, ins.ty, new)
    fr.regs[ins.dst] = old
    fr.i += 1
