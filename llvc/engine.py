import os
import re
import subprocess
import tempfile
import time
import json
from fractions import Fraction
import z3
from ir import *
from vals import *
from mem import *
from exec import *
import realalg
import bvint
import builtins_ as bi
import loops as loopmod

STD_BASES = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
    '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error', '_ZTISt17bad_function_call': '_ZTISt9exception',
}


DUMP = os.environ.get('VF_DUMP')


class Timeout(Exception):
    pass


class Oblig:
    """aggregated verification condition: one program point / label of a contract"""
    __slots__ = ('key', 'kind', 'label', 'where', 'vcs', 'solver', 'status', 'detail', 'time', 'model')

    def __init__(s, key, kind, label, where, detail):
        s.key = key
        s.kind = kind
        s.label = label
        s.where = where
        s.detail = detail
        s.vcs = 0
        s.solver = 0
        s.status = 'discharged'
        s.time = 0.0
        s.model = None


class Engine:
    def __init__(s, mod, opts=None):
        o = opts or {}
        s.mod = mod
        s.ids = 1
        s.nsteps = 0
        s.trivial = 0
        s.unroll_limit = o.get('unroll', 24)
        s.iter_limit = o.get('iters', 6000)
        s.deadline = None
        s.summarize = set()
        s.no_summary = set()
        s.o = o
        s.solver = z3.Solver()
        s.solver.set('timeout', o.get('feas_timeout', 4000))
        s.rb = {}
        s.stack = []
        s.obligs = {}
        s.violations = []
        s.undecided = []
        s.used_funcs = set()
        s.builtins_used = set()
        s.stubs_used = set()
        s.glob_ids = {}
        s.ufs = {}
        s.tids = {}
        s.concretizations = 0
        s.solver_time = 0.0
        s.solver_calls = 0
        s.labels = {}
        s.covered = set()
        s.npaths = 0
        s.fresh = 0
        s.init_objs = None
        s.loop_notes = {}
        s.sum_why = {}
        s.maxviol = o.get('maxviol', 3)
        s.vc_timeout = o.get('vc_timeout', 60000)
        s.assumes = set()
        s.stubs = {}
        s.backends = {}
        s.canon = o.get('canon', 0)
        s.sqrtax = not o.get('nosqrt', 0)
        s.divkopt = o.get('divk', 0)
        s.linabs = o.get('linabs', 0)
        s.lia = o.get('lia', 0)
        s.eqcanon = o.get('eqcanon', 0)
        realalg.SQRT2 = not o.get('opaquesqrt', 0)
        s.lipschitz = o.get('lipschitz', 0)
        s.ndlimit = o.get('ndlimit', 1 << 32)
        s.intreal = {}
        s.classes = {}
        s.cdec = {}

    def new_id(s):
        s.ids += 1
        return s.ids

    def tick(s):
        if s.deadline and time.time() > s.deadline:
            raise Timeout()

    def fresh_name(s, n):
        s.fresh += 1
        return '%s!%d' % (n, s.fresh)

    # ------------------------------------------------ solver
    def sync(s, st):
        pc = st.pc
        k = 0
        stk = s.stack
        n = min(len(pc), len(stk))
        while k < n and pc[k] is stk[k]:
            k += 1
        if len(stk) > k:
            s.solver.pop(len(stk) - k)
            del stk[k:]
        for c in pc[k:]:
            s.solver.push()
            s.solver.add(c)
            stk.append(c)

    def _check(s, *extra):
        t = time.time()
        s.solver_calls += 1
        if s.linabs and s.lin_unsat(extra):
            s.solver_time += time.time() - t
            s.backends['linear abstraction'] = s.backends.get('linear abstraction', 0) + 1
            return z3.unsat, None
        if s.lia:
            s.solver.set('timeout', 150)
            r, m = s.__check(extra)
            if r == z3.unknown and bvint.unsat(list(s.solver.assertions()) + list(extra)):
                r = z3.unsat
                s.backends['integer arithmetic'] = s.backends.get('integer arithmetic', 0) + 1
            s.solver.set('timeout', s.o.get('feas_timeout', 4000))
            if r == z3.unknown:
                r, m = s.__check(extra)
        else:
            r, m = s.__check(extra)
        s.solver_time += time.time() - t
        if DUMP and time.time() - t > 3:
            s.slow = getattr(s, 'slow', 0) + 1
            open('%s/slow%d_%s_%d.txt' % (DUMP, os.getpid(), r, s.slow), 'w').write('\n'.join(map(str, list(s.solver.assertions()) + ['EXTRA'] + list(extra))))
        s.tick()
        return r, m

    def __check(s, extra):
        if extra:
            s.solver.push()
            s.solver.add(*extra)
        r = s.solver.check()
        m = s.solver.model() if r == z3.sat else None
        if extra:
            s.solver.pop()
        return r, m

    def lin_unsat(s, extra):
        sv = z3.Solver()
        sv.set('timeout', 20000)
        try:
            for c in list(s.solver.assertions()) + list(extra):
                sv.add(realalg.linear_abs(c))
        except (realalg.TooBig, z3.Z3Exception):
            return False
        return sv.check() == z3.unsat

    def ensure_model(s, st):
        if st.model is not None and s.model_ok(st):
            return
        s.sync(st)
        r, m = s._check()
        if r == z3.unsat:
            raise PathEnd()
        st.model = m if r == z3.sat else None
        st.ghost['mlen'] = len(st.pc)

    def model_ok(s, st):
        """does the cached model satisfy the constraints added since?"""
        k = st.ghost.get('mlen', 0)
        for c in st.pc[k:]:
            if not z3.is_true(st.model.eval(c, model_completion=True)):
                return False
        st.ghost['mlen'] = len(st.pc)
        return True

    def both(s, st, c):
        """(can be true, can be false) under the path condition"""
        s.ensure_model(st)
        t = f = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v):
                t = True
            elif z3.is_false(v):
                f = True
        if t is None:
            s.sync(st)
            r, m = s._check(c)
            t = r != z3.unsat
        if f is None:
            s.sync(st)
            r, m = s._check(z3.Not(c))
            f = r != z3.unsat
        return t, f

    def feasible(s, st):
        if st.model is not None and s.model_ok(st):
            return True
        st.model = None
        s.sync(st)
        r, m = s._check()
        if r == z3.unsat:
            return False
        if r == z3.sat:
            st.model = m
            st.ghost['mlen'] = len(st.pc)
        return True

    # ------------------------------------------------ obligations
    def oblig_of(s, st, kind, label, detail):
        where = st.where()
        key = (kind, label if label is not None else where)
        ob = s.obligs.get(key)
        if ob is None:
            ob = s.obligs[key] = Oblig(key, kind, label, where, detail)
        ob.vcs += 1
        return ob

    def obligation(s, st, kind, cond, label, detail):
        ob = s.oblig_of(st, kind, label, detail)
        if cond is True:
            return
        t0 = time.time()
        try:
            if cond is False:
                s.sync(st)
                r, m = s._check()
                if r == z3.unsat:
                    raise PathEnd()
                if r == z3.unknown:
                    r, m = s.oneshot(st, z3.BoolVal(True))
                    if r == z3.unsat:
                        raise PathEnd()
                ob.solver += 1
                if r == z3.unknown:
                    s.undecide(ob, 'path feasibility unknown: ' + (detail or label or kind))
                else:
                    s.violated(st, ob, m, detail, z3.BoolVal(True))
                raise PathEnd()
            c = simp(cond)
            if c is True:
                return
            if c is not False and st.lookup(c) is True:
                return
            neg = z3.BoolVal(True) if c is False else z3.Not(c)
            ob.solver += 1
            s.sync(st)
            r, m = s._check(neg)
            if r == z3.unknown:
                r, m = s.oneshot(st, neg)
            if r == z3.unsat:
                if c is not False:
                    st.learn(c, True)
                return
            if r == z3.unknown:
                s.undecide(ob, 'solver gave up: ' + (detail or label or kind))
            else:
                s.violated(st, ob, m, detail, neg)
        finally:
            ob.time += time.time() - t0
        # continue under the assumption that it holds
        st.assume(c)

    def oneshot(s, st, neg):
        t = time.time()
        sv = z3.Solver()
        sv.set('timeout', s.vc_timeout)
        sv.add(*st.pc)
        sv.add(neg)
        text = sv.to_smt2()
        r = sv.check()
        m = sv.model() if r == z3.sat else None
        if r == z3.unknown:
            if DUMP:
                open('%s/%d.smt2' % (DUMP, s.solver_calls), 'w').write(text)
            if s.portfolio(text):
                r = z3.unsat
        s.solver_time += time.time() - t
        s.solver_calls += 1
        return r, m

    def portfolio(s, text):
        """is the query unsatisfiable for another solver?  (z3-new, cvc5)"""
        text = re.sub(r'\(set-info[^)]*\)', '', text)
        for f in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'asin', 'acos', 'atan'):
            text = re.sub(r'(?<=[( ])%s(?=[ )])' % f, 'uf_' + f, text)
        left = int(max(5, min(s.vc_timeout / 1000, (s.deadline or time.time() + 999) - time.time())))
        jobs = []
        fd, path = tempfile.mkstemp(suffix='.smt2')
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        try:
            for name, cmd in (('z3-new', ['z3-new', '-T:%d' % left, path]),
                              ('cvc5', ['cvc5', '--tlimit=%d' % (left * 1000), path])):
                try:
                    jobs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            end = time.time() + left + 5
            while jobs and time.time() < end:
                for j in list(jobs):
                    if j[1].poll() is not None:
                        jobs.remove(j)
                        o = j[1].stdout.read()
                        if '(error' not in o and o.strip().split('\n')[-1] == 'unsat':
                            s.backends[j[0]] = s.backends.get(j[0], 0) + 1
                            return True
                time.sleep(0.05)
            return False
        finally:
            for j in jobs:
                j[1].kill()
                j[1].wait()
            os.unlink(path)

    def undecide(s, ob, why):
        if ob.status == 'discharged':
            ob.status = 'undecided'
        s.undecided.append((ob.key, why))

    def violated(s, st, ob, m, detail, neg):
        first = ob.status != 'violated'
        ob.status = 'violated'
        if not first or len(s.violations) >= 12:
            return
        ob.detail = detail
        m = s.nice_model(st, neg, m)
        v = {'kind': ob.kind, 'label': ob.label, 'where': st.where(), 'detail': detail,
             'inputs': s.inputs(st, m),
             'stack': [fr.f.name for fr in st.frames]}
        s.violations.append(v)

    def nice_model(s, st, neg, m):
        """prefer short strings in the counterexample"""
        lens = [to_bv(x[2], 64) for x in st.nd if x[0] in ('cstr', 'vec') and not type(x[2]) is int]
        for bound in (4, 24, 60, 200):
            if not lens:
                break
            sv = z3.Solver()
            sv.set('timeout', 5000)
            sv.add(*st.pc)
            sv.add(neg)
            for l in lens:
                sv.add(z3.ULE(l, bound))
            if sv.check() == z3.sat:
                return sv.model()
        return m

    def inputs(s, st, m):
        out = []
        for x in st.nd:
            k, name = x[0], x[1]
            try:
                if k in ('i8', 'i16', 'i32', 'i64', 'bool'):
                    v = x[2]
                    if type(v) is not int:
                        v = m.eval(to_bv(v, int(k[1:]) if k != 'bool' else 8), model_completion=True).as_long()
                    out.append([k, name, str(v)])
                elif k == 'real':
                    v = m.eval(to_real(x[2]), model_completion=True)
                    out.append([k, name, real_text(v)])
                elif k == 'bytes':
                    v = [m.eval(to_bv(b, 8), model_completion=True).as_long() for b in x[2]]
                    out.append([k, name, bytes(v).hex()])
                elif k == 'cstr':
                    n = x[2]
                    if type(n) is not int:
                        n = m.eval(n, model_completion=True).as_long()
                    n = min(n, 100000)
                    v = bytes(m.eval(z3.Select(x[3], z3.BitVecVal(i, 64)), model_completion=True).as_long()
                              for i in range(n))
                    out.append([k, name, v.hex()])
                elif k == 'vec':
                    n = m.eval(to_bv(x[2], 64), model_completion=True).as_long()
                    rows = []
                    for j in range(min(n, 200)):
                        row = []
                        for fo, fn_, kind, f in x[3]:
                            e = m.eval(f(z3.BitVecVal(j, 64)), model_completion=True)
                            row.append(str(e.as_long()) if kind == 'int' else real_text(e))
                        rows.append(' '.join(row))
                    out.append([k, name, '%d %s' % (n, ' '.join(rows))])
            except z3.Z3Exception as e:
                out.append([k, name, '?'])
        return out

    # ------------------------------------------------ real <-> bit-vector
    def uf_real(s, name, n):
        f = s.ufs.get((name, n))
        if f is None:
            f = s.ufs[(name, n)] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        return f

    def real_of_bv(s, v, signed):
        r = z3.ToReal(z3.BV2Int(v, signed))
        for t in (r, z3.simplify(r)):
            s.rb[t.get_id()] = (v, signed, t)
        return r

    def bv_of_real(s, st, v, w, signed):
        # undo a previous integer -> real conversion
        x = s.rb.get(v.get_id()) or s.rb.get(z3.simplify(v).get_id())
        if x is not None:
            b, sg, _ = x
            if b.size() == w and sg == signed:
                return b
            if b.size() < w and (signed or not sg):
                return simp(z3.SignExt(w - b.size(), b) if sg else z3.ZeroExt(w - b.size(), b))
            if b.size() > w and signed and sg:
                t = z3.Extract(w - 1, 0, b)
                if st.implied(simp(z3.SignExt(b.size() - w, t) == b)) is True:
                    return simp(t)
        i = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return z3.Int2BV(i, w)

    def divk(s, st, op, x, k):
        """x div k or x mod k (k constant) by the multiple of k the path determines"""
        w = x.size()
        terms = list(x.children()) if x.decl().kind() == z3.Z3_OP_BADD else [x]
        a, r = z3.BitVecVal(0, w), z3.BitVecVal(0, w)
        for t in terms:
            c = None
            if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
                c = t.arg(0).as_signed_long()
            if c is not None and c % k == 0:
                a = a + (c // k) * t.arg(1)
            elif z3.is_bv_value(t) and t.as_signed_long() % k == 0:
                a = a + t.as_signed_long() // k
            else:
                r = r + t
        a, r = z3.simplify(a), z3.simplify(r)
        s.ensure_model(st)
        if st.model is None:
            return None
        v = st.model.eval(r, model_completion=True)
        if not z3.is_bv_value(v):
            return None
        q = v.as_signed_long() // k
        if abs(q) * k > 1 << (w - 3):
            return None
        lim = (1 << (w - 3)) // k
        c = z3.And(r >= q * k, r < (q + 1) * k, a <= lim, a >= -lim, a + q >= 0)
        s.sync(st)
        if s._check(z3.Not(c))[0] != z3.unsat:
            return None
        return simp(a + q) if op.endswith('div') else simp(r - q * k)

    # ------------------------------------------------ globals
    def globptr(s, st, name):
        k = s.glob_ids.get(name)
        if k is None:
            k = s.mk_glob(st, name)
        if isinstance(k, Ptr):
            return k
        if k not in st.objs:
            st.objs[k] = s.glob_objs[k]
        return Ptr(k, 0)

    glob_objs = None

    def mk_glob(s, st, name):
        if s.glob_objs is None:
            s.glob_objs = {}
        if name in s.mod.funcs or name in s.mod.decls:
            p = Ptr(('fn', name), 0)
            s.glob_ids[name] = p
            return p
        g = s.mod.glob(name)
        if g is None:
            raise Unsupported('unknown global ' + name)
        if isinstance(g, tuple):
            return s.globptr(st, g[1])
        i = s.new_id()
        if g.external:
            try:
                sz = size_of(g.ty)
            except IRError:
                sz = 0
            o = Obj(i, '@' + name, 'global', max(sz, 8) if name.startswith('_ZTV') else sz, None)
            if name == 'stderr' or name == 'stdout':
                o.cells = {0: (8, Ptr(('fn', name), 0))}
            s.glob_ids[name] = i
            s.glob_objs[i] = o
            st.objs[i] = o
            return i
        o = Obj(i, '@' + name, 'global', size_of(g.ty), None)
        s.glob_ids[name] = i
        s.glob_objs[i] = o
        st.objs[i] = o
        if g.init[0] == 'bytes':
            o.base = BytesBase(g.init[1])
        elif g.init[0] == 'zero':
            o.base = ZeroBase()
        elif g.init[0] == 'undef':
            o.base = None
        else:
            tok = st.token
            o.owner = tok
            st.store(Ptr(i, 0), g.ty, st.operand(g.ty, g.init))
            st.objs[i].owner = None
            # merge constant byte strings nested in aggregates are kept as cells
        st.objs[i].const = g.const
        st.objs[i].owner = None
        s.glob_objs[i] = st.objs[i]
        return i

    def typeid(s, name):
        if name not in s.tids:
            s.tids[name] = len(s.tids) + 1
        return s.tids[name]

    def base_type(s, t):
        b = STD_BASES.get(t)
        if b:
            return b
        g = s.mod.glob(t)
        if isinstance(g, Global) and g.init and g.init[0] == 'agg' and len(g.init[1]) >= 3:
            o = g.init[1][2][1]
            if o[0] == 'g':
                return o[1]
        return None

    def is_a(s, t, want):
        if want == 'any':
            return True
        for _ in range(20):
            if t == want:
                return True
            t = s.base_type(t)
            if t is None:
                return False
        return False

    def uncaught(s, st, e):
        st.eng.obligation_noframe(st, 'exception', 'uncaught exception %s' % e['type'])

    def obligation_noframe(s, st, kind, detail):
        key = (kind, detail)
        ob = s.obligs.get(key)
        if ob is None:
            ob = s.obligs[key] = Oblig(key, kind, None, 'contract', detail)
        ob.vcs += 1
        if st.trial is not None:
            return
        s.sync(st)
        r, m = s._check()
        if r == z3.sat:
            s.violated(st, ob, m, detail, z3.BoolVal(True))
        elif r == z3.unknown:
            s.undecide(ob, detail)

    # ------------------------------------------------ calls
    def call(s, st, fr, ins, name, args):
        stub = s.stubs.get(name)
        if stub is not None and st.ghost.get('nostub') != name:
            s.stubs_used.add(name)
            st.push_call(s.mod.func(stub), s.prep_args(st, ins, args))
            return
        b = bi.find(name)
        if b is not None:
            s.builtins_used.add(name)
            r = b(s, st, fr, ins, args, name)
            if r is bi.CONTROL:
                return
            if r is not bi.FALLBACK:
                st.finish_call(fr, ins, r)
                return
            name = {'_ZL6memchrUa9enable_ifILb1EEPvim': 'memchr'}.get(name, name)
        f = s.mod.func(name)
        if f is None:
            g = s.mod.glob(name)
            if isinstance(g, tuple):
                f = s.mod.func(g[1])
        if f is None:
            raise Unsupported('external function without contract: ' + name)
        args = s.prep_args(st, ins, args)
        va = args[len(f.params):] if f.va else None
        st.push_call(f, args, va)

    def prep_args(s, st, ins, args):
        out = []
        for (t, o, at), v in zip(ins.b, args):
            by = [a for a in at if isinstance(a, tuple) and a[0] == 'byval']
            if by:
                n = size_of(by[0][1])
                i = st.new_obj('byval', 'stack', n)
                st.access(v, n, 'read')
                st.copy_bytes(Ptr(i, 0), v, n)
                v = Ptr(i, 0)
            out.append(v)
        return out

    # ------------------------------------------------ loops
    def loop_limit(s, st, key):
        if key in s.no_summary or key in s.summarize:
            st.bounded = True
            s.loop_notes[key] = 'bounded: unrolled %d times%s' % (s.unroll_limit, s.sum_why.get(key, ''))
            raise PathEnd()
        raise LoopRestart(key)

    def loop_enter(s, st, fr, blk):
        loopmod.enter(s, st, fr, blk)

    def loop_back(s, st, fr, blk, cx):
        loopmod.back(s, st, fr, blk, cx)

    # ------------------------------------------------ exploration
    def explore(s, st0, on_end=None):
        work = [st0]
        while work:
            st = work.pop()
            while True:
                try:
                    st.run()
                    s.npaths += 1
                    if on_end:
                        on_end(st)
                    break
                except Fork as f:
                    c = f.cond
                    t = st.fork()
                    # keep the side of the cached model in st
                    side = True
                    if st.model is not None:
                        v = st.model.eval(c, model_completion=True)
                        if z3.is_false(v):
                            side = False
                    a = c if side else simp(z3.Not(c))
                    b = simp(z3.Not(c)) if side else c
                    st.pc.append(a)
                    st.learn(a, True)
                    st.learn(c, side)
                    t.pc.append(b)
                    t.learn(b, True)
                    t.learn(c, not side)
                    t.model = None
                    work.append(t)
                    continue
                except PathEnd:
                    s.npaths += 1
                    break
                except TrialStop as e:
                    if on_end is None:
                        raise
                    on_end(e)
                    break
                except z3.Z3Exception as e:
                    raise Unsupported('z3: %s' % e)

    def initial_state(s):
        st = State(s)
        st.objs = dict(s.glob_objs or {})
        return st

    def run_ctors(s):
        """execute the static initialisers once (concretely)"""
        g = s.mod.glob('llvm.global_ctors')
        s.glob_objs = {}
        if g is None:
            return
        st = s.initial_state()
        for t, o in g.init[1]:
            fn = o[1][1][1][1]
            f = s.mod.func(fn)
            ends = []
            st.push_call(f, [])
            s.explore(st, ends.append)
            if len(ends) != 1:
                raise Unsupported('static initialiser forks')
            st = ends[0]
            st.frames = []
        for i, o in st.objs.items():
            o.owner = None
        s.glob_objs = dict(st.objs)

    def run_contract(s, fname):
        f = s.mod.func(fname)
        if f is None:
            raise Unsupported('no contract function ' + fname)
        while True:
            s.obligs = {}
            s.violations = []
            s.undecided = []
            s.covered = set()
            s.npaths = 0
            s.bounded_paths = 0
            s.fresh = 0
            s.trivial = 0
            s.concretizations = 0
            st = s.initial_state()
            st.push_call(f, [])
            try:
                s.explore(st, s._end)
                return
            except LoopRestart as e:
                s.summarize.add(e.key)
                s.loop_notes[e.key] = 'summarised'
                continue
            except loopmod.SummaryFailed as e:
                s.no_summary.add(e.key)
                s.summarize.discard(e.key)
                s.sum_why[e.key] = ' (summary failed: %s)' % e.why
                s.loop_notes[e.key] = 'unrolled%s' % s.sum_why[e.key]
                continue

    def _end(s, e):
        pass


def real_text(v):
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        return repr(n / d) if abs(n) < 10**300 and d < 10**300 else '0'
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return repr(a.numerator_as_long() / a.denominator_as_long())
    return '0'
