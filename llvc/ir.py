"""Parser for the textual LLVM-18 IR that clang emits from the real sources.

Nothing here is specific to ggnss.  Function bodies are parsed lazily (first
execution), so a module with thousands of libstdc++ instantiations is cheap.
"""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    """construct outside the supported IR subset"""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ()


class IntT(Ty):
    __slots__ = ('w',)

    def __init__(s, w):
        s.w = w

    def __repr__(s):
        return 'i%d' % s.w


class FloatT(Ty):
    __slots__ = ('w',)

    def __init__(s, w):
        s.w = w

    def __repr__(s):
        return 'f%d' % s.w


class PtrT(Ty):
    __slots__ = ()

    def __repr__(s):
        return 'ptr'


class VoidT(Ty):
    __slots__ = ()

    def __repr__(s):
        return 'void'


class ArrT(Ty):
    __slots__ = ('n', 'el')

    def __init__(s, n, el):
        s.n = n
        s.el = el

    def __repr__(s):
        return '[%d x %r]' % (s.n, s.el)


class StructT(Ty):
    __slots__ = ('els', 'packed', 'name', '_lay')

    def __init__(s, els, packed=False, name=None):
        s.els = els
        s.packed = packed
        s.name = name
        s._lay = None

    def __repr__(s):
        return s.name or '{%s}' % ','.join(map(repr, s.els))


class FuncT(Ty):
    __slots__ = ('ret', 'args', 'va')

    def __init__(s, ret, args, va):
        s.ret = ret
        s.args = args
        s.va = va


class OpaqueT(Ty):
    __slots__ = ()


I = {w: IntT(w) for w in (1, 8, 16, 32, 64, 128)}
PTR = PtrT()
VOID = VoidT()
DBL = FloatT(64)
FLT = FloatT(32)
LDBL = FloatT(80)


def intt(w):
    t = I.get(w)
    if t is None:
        t = I[w] = IntT(w)
    return t


def align_of(t):
    if isinstance(t, IntT):
        b = (t.w + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if isinstance(t, FloatT):
        return {64: 8, 32: 4, 80: 16}[t.w]
    if isinstance(t, PtrT):
        return 8
    if isinstance(t, ArrT):
        return align_of(t.el)
    if isinstance(t, StructT):
        if t.packed:
            return 1
        return max([align_of(e) for e in t.els] or [1])
    raise IRError('align_of %r' % t)


def size_of(t):
    if isinstance(t, IntT):
        return align_of(t) * (((t.w + 7) // 8 + align_of(t) - 1) // align_of(t))
    if isinstance(t, FloatT):
        return {64: 8, 32: 4, 80: 16}[t.w]
    if isinstance(t, PtrT):
        return 8
    if isinstance(t, ArrT):
        return t.n * size_of(t.el)
    if isinstance(t, StructT):
        return layout(t)[1]
    raise IRError('size_of %r' % t)


def layout(t):
    if t._lay is None:
        offs = []
        o = 0
        for e in t.els:
            a = 1 if t.packed else align_of(e)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += size_of(e)
        a = align_of(t)
        o = (o + a - 1) // a * a
        t._lay = (offs, o)
    return t._lay


# ---------------------------------------------------------------- operands
# ('l', name) local, ('c', pyvalue) const int/real, ('g', name) global,
# ('undef',), ('null',), ('agg', [(ty,op)..]), ('zero',), ('ce', op, ...)

TOK = re.compile(r'''
   \s+
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>[-+]?\d+\.\d*(?:e[-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<attr>\#\d+)
 | (?P<md>![a-zA-Z0-9._]*)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<comdat>\$"(?:[^"\\]|\\.)*")
 | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        out.append((k, m.group(k)))
    return out


def cstr_bytes(t):
    # c"...."
    b = bytearray()
    s = t[2:-1]
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                b.append(92)
                i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            b.append(ord(s[i]))
            i += 1
    return bytes(b)


def real_of_double(d):
    """the mathematical reading of a double literal: shortest decimal"""
    if d != d or d in (float('inf'), float('-inf')):
        return ('special', repr(d))
    return Fraction(repr(d))


SKIP_ATTR = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly',
    'readnone', 'returned', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'allocalign',
    'allocptr', 'writable', 'dead_on_unwind', 'nounwind', 'noreturn', 'noinline', 'fastcc', 'ccc',
    'coldcc', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
    'afn', 'reassoc', 'dso_local', 'hidden', 'internal', 'private', 'linkonce_odr', 'weak', 'external',
    'weak_odr', 'linkonce', 'available_externally', 'unnamed_addr', 'local_unnamed_addr', 'constant',
    'dso_preemptable', 'protected', 'common', 'appending', 'default', 'extern_weak', 'mustprogress',
}


class P:
    """token cursor"""

    def __init__(s, toks, mod):
        s.t = toks
        s.i = 0
        s.mod = mod

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else (None, None)

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v:
            s.i += 1
            return True
        return False

    def exp(s, v):
        x = s.next()
        if x[1] != v:
            raise IRError('expected %r got %r in %r' % (v, x, ' '.join(q[1] for q in s.t)))

    def skip_attrs(s):
        attrs = []
        while s.i < len(s.t):
            k, v = s.t[s.i]
            if k == 'word':
                if v in SKIP_ATTR:
                    attrs.append(v)
                    s.i += 1
                    continue
                if v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'addrspace',
                         'range', 'memory', 'thread_local', 'byref', 'inalloca', 'preallocated', 'elementtype',
                         'allocsize', 'nofpclass', 'inrange'):
                    s.i += 1
                    if v in ('byval', 'sret'):
                        attrs.append(v)
                    if s.i < len(s.t) and s.t[s.i][1] == '(':
                        start = s.i
                        s.skip_paren()
                        if v == 'byval':
                            sub = P(s.t[start + 1:s.i - 1], s.mod)
                            attrs.append(('byval', sub.type()))
                    elif v == 'align':
                        s.i += 1
                    continue
            elif k == 'attr':
                s.i += 1
                continue
            elif k == 'str':
                s.i += 1
                if s.acc('='):
                    s.i += 1
                continue
            break
        return attrs

    def skip_paren(s):
        d = 0
        while True:
            v = s.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def type(s):
        k, v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = intt(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if s.peek()[1] == 'addrspace':
                    raise IRError('addrspace')
            elif v == 'double':
                t = DBL
            elif v == 'float':
                t = FLT
            elif v == 'x86_fp80':
                t = LDBL
            elif v == 'void':
                t = VOID
            elif v in ('metadata', 'label', 'token', 'opaque'):
                t = OpaqueT()
            else:
                raise IRError('type %r' % v)
        elif k == 'loc':
            t = s.mod.named_type(v)
        elif v == '[':
            n = int(s.next()[1])
            s.exp('x')
            e = s.type()
            s.exp(']')
            t = ArrT(n, e)
        elif v == '{':
            t = StructT(s._els('}'))
        elif v == '<':
            if s.acc('{'):
                els = s._els('}')
                s.exp('>')
                t = StructT(els, True)
            else:
                n = int(s.next()[1])
                s.exp('x')
                e = s.type()
                s.exp('>')
                t = ArrT(n, e)
        else:
            raise IRError('type token %r in %r' % ((k, v), ' '.join(q[1] for q in s.t)))
        # function type
        if s.peek()[1] == '(' and s.peek()[0] == 'p':
            save = s.i
            try:
                s.next()
                args = []
                va = False
                while not s.acc(')'):
                    if s.acc('...'):
                        va = True
                    else:
                        args.append(s.type())
                        s.skip_attrs()
                    s.acc(',')
                return FuncT(t, args, va)
            except (IRError, IndexError):
                s.i = save
        return t

    def _els(s, close):
        els = []
        while not s.acc(close):
            els.append(s.type())
            s.acc(',')
        return els

    # operand of a known type
    def val(s, ty):
        k, v = s.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', unq(v))
        if k == 'int':
            if isinstance(ty, IntT):
                return ('c', int(v) & ((1 << ty.w) - 1))
            return ('c', Fraction(int(v)))
        if k == 'flt':
            return ('c', real_of_double(float(v)))
        if k == 'hex':
            if v[2] in 'KLMHR':
                if v[2] == 'K':
                    h = int(v[3:], 16)
                    sg = h >> 79
                    ex = (h >> 64) & 0x7fff
                    ma = h & ((1 << 64) - 1)
                    if ex == 0 and ma == 0:
                        return ('c', Fraction(0))
                    if ex == 0x7fff:
                        return ('c', ('special', 'inf'))
                    f = Fraction(ma) * Fraction(2) ** (ex - 16383 - 63)
                    # a long double literal: nearest short decimal when it is a
                    # double value, else exact
                    d = float(f)
                    r = Fraction(repr(d)) if Fraction(d) == f else f
                    return ('c', -r if sg else r)
                raise IRError('float literal ' + v)
            h = int(v, 16)
            d = struct.unpack('<d', struct.pack('<Q', h))[0]
            if isinstance(ty, FloatT) and ty.w == 32 and d == d and d not in (float('inf'), float('-inf')):
                import numpy  # shortest float32 decimal
                return ('c', Fraction(str(numpy.float32(d))))
            return ('c', real_of_double(d))
        if k == 'cstr':
            return ('bytes', cstr_bytes(v))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'sub', 'add', 'addrspacecast'):
                return s.constexpr(v)
            if v in ('asm',):
                return ('asm',)
            raise IRError('operand word %r' % v)
        if v == '{' or v == '[' or v == '<':
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and s.acc('{'):
                packed = True
                close = '}'
            els = []
            while not s.acc(close):
                et = s.type()
                els.append((et, s.val(et)))
                s.acc(',')
            if packed:
                s.exp('>')
            return ('agg', els)
        raise IRError('operand %r' % ((k, v),))

    def constexpr(s, op):
        while s.peek()[1] in ('inbounds', 'nuw', 'nsw'):
            s.next()
        s.exp('(')
        if op == 'getelementptr':
            bt = s.type()
            s.exp(',')
            pt = s.type()
            base = s.val(pt)
            idx = []
            while s.acc(','):
                s.skip_attrs()
                it = s.type()
                idx.append((it, s.val(it)))
            s.exp(')')
            return ('gep', bt, base, idx)
        if op in ('sub', 'add'):
            t = s.type()
            a = s.val(t)
            s.exp(',')
            t2 = s.type()
            b = s.val(t2)
            s.exp(')')
            return ('cbin', op, t, a, b)
        t = s.type()
        a = s.val(t)
        s.exp('to')
        t2 = s.type()
        s.exp(')')
        return ('ccast', op, t, a, t2)

    def tv(s):
        t = s.type()
        at = s.skip_attrs()
        return t, s.val(t), at


def unq(v):
    v = v[1:]
    if v.startswith('"'):
        v = v[1:-1]
    return v


# ---------------------------------------------------------------- instructions
class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'c', 'x', 'line', 'text', 'fn', 'key')

    def __init__(s):
        s.op = s.dst = s.ty = s.a = s.b = s.c = s.x = s.line = s.text = s.fn = s.key = None

    def __repr__(s):
        return s.text.strip()


class Func:
    def __init__(s, mod, name, header, body):
        s.mod = mod
        s.name = name
        s.header = header
        s.body = body
        s.parsed = False
        s.va = False
        s.params = []
        s.ret = None
        s.blocks = {}
        s.order = []
        s.entry = None
        s._parse_header()
        s._loops = None

    def _parse_header(s):
        h = s.header
        p = P(tokenize(h.split('{')[0] if False else h), s.mod)
        p.next()  # define/declare
        p.skip_attrs()
        s.ret = p.type()
        p.skip_attrs()
        k, v = p.next()
        if k != 'glob':
            raise IRError('header ' + h)
        p.exp('(')
        n = 0
        while not p.acc(')'):
            if p.acc('...'):
                s.va = True
                continue
            t = p.type()
            at = p.skip_attrs()
            nm = None
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            if nm is None:
                nm = '%%%d' % n
            s.params.append((t, nm, at))
            n += 1
            p.acc(',')

    def parse(s):
        if s.parsed:
            return
        s.parsed = True
        nparam_unnamed = sum(1 for _, nm, _ in s.params if nm[1:].isdigit())
        cur = '%%%d' % nparam_unnamed
        s.entry = None
        blk = None
        i = 0
        lines = s.body
        while i < len(lines):
            ln = lines[i]
            i += 1
            st = ln.strip()
            if not st or st[0] == ';':
                continue
            if ln[0] not in ' \t}' and ':' in ln:
                lab = ln.split(':', 1)[0] if ln[0] != '"' else ln[:ln.index('":') + 1]
                cur = '%' + lab
                blk = None
                # fallthrough to make the block
                blk = []
                s.blocks[cur] = blk
                s.order.append(cur)
                if s.entry is None:
                    s.entry = cur
                continue
            if st.startswith('switch '):
                while ']' not in lines[i - 1]:
                    st += ' ' + lines[i].strip()
                    i += 1
            elif ' invoke ' in ' ' + st:
                st += ' ' + lines[i].strip()
                i += 1
            elif 'landingpad' in st:
                while i < len(lines) and re.match(r'(cleanup|catch|filter)\b', lines[i].strip()):
                    # drop the !dbg of earlier line parts
                    st = re.sub(r', !dbg !\d+', '', st) + ' ' + lines[i].strip()
                    i += 1
            if blk is None:
                blk = []
                s.blocks[cur] = blk
                s.order.append(cur)
                if s.entry is None:
                    s.entry = cur
            ins = s.parse_ins(st)
            if ins is not None:
                ins.fn = s
                ins.key = (s.name, cur, len(blk))
                blk.append(ins)
        return s

    def parse_ins(s, st):
        ins = Ins()
        ins.text = st
        m = re.search(r', !dbg !(\d+)', st)
        if m:
            ins.line = s.mod.dbgloc(int(m.group(1)))
        m = re.search(r'(, ![a-zA-Z._]+ !\d+)+\s*$', st)
        if m:
            st = st[:m.start()]
        p = P(tokenize(st), s.mod)
        if p.peek()[0] == 'loc' and p.t[1][1] == '=':
            ins.dst = p.next()[1]
            p.next()
        k, op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        ins.op = op
        f = getattr(s, 'i_' + op, None)
        if f is None:
            ins.op = 'unsupported'
            ins.x = op
            return ins
        f(p, ins)
        return ins

    def _bin(s, p, ins):
        fl = set()
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                              'reassoc', 'disjoint'):
            fl.add(p.next()[1])
        ins.ty = p.type()
        ins.a = p.val(ins.ty)
        p.exp(',')
        ins.b = p.val(ins.ty)
        ins.x = fl
        ins.c = ins.op
        ins.op = 'bin'

    for _o in ('add sub mul udiv sdiv urem srem shl lshr ashr and or xor').split():
        locals()['i_' + _o] = _bin

    def _fbin(s, p, ins):
        s._bin(p, ins)
        ins.op = 'fbin'

    for _o in 'fadd fsub fmul fdiv frem'.split():
        locals()['i_' + _o] = _fbin
    del _o

    def i_fneg(s, p, ins):
        p.skip_attrs()
        ins.ty = p.type()
        ins.a = p.val(ins.ty)

    def i_freeze(s, p, ins):
        ins.ty = p.type()
        ins.a = p.val(ins.ty)

    def i_alloca(s, p, ins):
        ins.ty = p.type()
        ins.a = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                t = p.type()
                ins.a = (t, p.val(t))

    def i_load(s, p, ins):
        p.acc('volatile')
        if p.acc('atomic'):
            pass
        ins.ty = p.type()
        p.exp(',')
        _, ins.a, _ = p.tv()

    def i_store(s, p, ins):
        p.acc('volatile')
        p.acc('atomic')
        ins.ty, ins.a, _ = p.tv()
        p.exp(',')
        _, ins.b, _ = p.tv()

    def i_getelementptr(s, p, ins):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ins.ty = p.type()
        p.exp(',')
        _, ins.a, _ = p.tv()
        ins.b = []
        while p.acc(','):
            t, v, _ = p.tv()
            ins.b.append((t, v))

    def i_icmp(s, p, ins):
        ins.c = p.next()[1]
        ins.ty = p.type()
        ins.a = p.val(ins.ty)
        p.exp(',')
        ins.b = p.val(ins.ty)

    def i_fcmp(s, p, ins):
        p.skip_attrs()
        s.i_icmp(p, ins)

    def i_select(s, p, ins):
        p.skip_attrs()
        _, ins.c, _ = p.tv()
        p.exp(',')
        ins.ty, ins.a, _ = p.tv()
        p.exp(',')
        _, ins.b, _ = p.tv()

    def i_phi(s, p, ins):
        p.skip_attrs()
        ins.ty = p.type()
        ins.a = {}
        while True:
            p.exp('[')
            v = p.val(ins.ty)
            p.exp(',')
            l = p.next()[1]
            p.exp(']')
            ins.a[l] = v
            if not p.acc(','):
                break

    def i_br(s, p, ins):
        if p.acc('label'):
            ins.a = p.next()[1]
            ins.c = None
        else:
            t = p.type()
            ins.c = p.val(t)
            p.exp(',')
            p.exp('label')
            ins.a = p.next()[1]
            p.exp(',')
            p.exp('label')
            ins.b = p.next()[1]

    def i_switch(s, p, ins):
        ins.ty, ins.c, _ = p.tv()
        p.exp(',')
        p.exp('label')
        ins.a = p.next()[1]
        p.exp('[')
        ins.b = []
        while not p.acc(']'):
            t = p.type()
            v = p.val(t)
            p.exp(',')
            p.exp('label')
            ins.b.append((v[1], p.next()[1]))

    def _call(s, p, ins):
        p.skip_attrs()
        t = p.type()
        if isinstance(t, FuncT):
            t = t.ret
        ins.ty = t
        p.skip_attrs()
        if p.peek()[1] == 'asm':
            ins.op = 'unsupported'
            ins.x = 'inline asm'
            return
        ins.a = p.val(PTR)
        p.exp('(')
        ins.b = []
        while not p.acc(')'):
            t = p.type()
            at = p.skip_attrs()
            if isinstance(t, OpaqueT):
                # metadata argument: skip to the , or )
                while p.peek()[1] not in (',', ')'):
                    if p.peek()[1] == '(':
                        p.skip_paren()
                    else:
                        p.next()
                ins.b.append((t, ('undef',), []))
            else:
                ins.b.append((t, p.val(t), at))
            p.acc(',')
        if len(ins.b) and isinstance(ins.b[0][0], OpaqueT) and ins.a[0] == 'g' and ins.a[1].startswith('llvm.dbg'):
            ins.op = 'nop'

    def i_call(s, p, ins):
        s._call(p, ins)

    def i_invoke(s, p, ins):
        s._call(p, ins)
        p.skip_attrs()
        p.exp('to')
        p.exp('label')
        n = p.next()[1]
        p.exp('unwind')
        p.exp('label')
        u = p.next()[1]
        ins.c = (n, u)

    def i_landingpad(s, p, ins):
        ins.ty = p.type()
        ins.a = []
        while p.peek()[0] is not None:
            v = p.next()[1]
            if v == 'cleanup':
                ins.a.append(('cleanup',))
            elif v == 'catch':
                t = p.type()
                ins.a.append(('catch', p.val(t)))
            elif v == 'filter':
                t = p.type()
                ins.a.append(('filter', p.val(t)))

    def i_resume(s, p, ins):
        ins.ty, ins.a, _ = p.tv()

    def i_ret(s, p, ins):
        ins.ty = p.type()
        ins.a = None if isinstance(ins.ty, VoidT) else p.val(ins.ty)

    def i_unreachable(s, p, ins):
        pass

    def i_extractvalue(s, p, ins):
        ins.ty, ins.a, _ = p.tv()
        ins.b = []
        while p.acc(','):
            ins.b.append(int(p.next()[1]))

    def i_insertvalue(s, p, ins):
        ins.ty, ins.a, _ = p.tv()
        p.exp(',')
        t, v, _ = p.tv()
        ins.b = (t, v)
        ins.c = []
        while p.acc(','):
            ins.c.append(int(p.next()[1]))

    def _cast(s, p, ins):
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, v, _ = p.tv()
        p.exp('to')
        ins.x = t
        ins.a = v
        ins.ty = p.type()
        ins.c = ins.op
        ins.op = 'cast'

    for _o in 'zext sext trunc ptrtoint inttoptr sitofp uitofp fptosi fptoui fpext fptrunc bitcast'.split():
        locals()['i_' + _o] = _cast
    del _o

    def i_atomicrmw(s, p, ins):
        p.acc('volatile')
        ins.c = p.next()[1]
        _, ins.a, _ = p.tv()
        p.exp(',')
        ins.ty, ins.b, _ = p.tv()

    def i_fence(s, p, ins):
        ins.op = 'nop'

    def i_va_arg(s, p, ins):
        ins.op = 'unsupported'
        ins.x = 'va_arg'

    # ---------------- loop structure (natural loops through dominators)
    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == 'br':
            return [t.a] if t.c is None else [t.a, t.b]
        if t.op == 'switch':
            return [t.a] + [l for _, l in t.b]
        if t.op == 'invoke':
            return [t.c[0], t.c[1]]
        return []

    def loops(s):
        """header -> set(blocks)"""
        if s._loops is not None:
            return s._loops
        s.parse()
        reach = []
        seen = set()
        st = [s.entry]
        # rpo
        post = []
        stack = [(s.entry, iter(s.succs(s.entry)))]
        seen.add(s.entry)
        while stack:
            b, it = stack[-1]
            for n in it:
                if n not in seen:
                    seen.add(n)
                    stack.append((n, iter(s.succs(n))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for n in s.succs(b):
                preds[n].append(b)
        idom = {s.entry: s.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for q in preds[b]:
                    if q in idom:
                        if nd is None:
                            nd = q
                        else:
                            x, y = q, nd
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == s.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for n in s.succs(b):
                if dom(n, b):
                    body = loops.setdefault(n, {n})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(preds[x])
        s._loops = loops
        return loops


class Global:
    def __init__(s, name, ty, const, init, external):
        s.name = name
        s.ty = ty
        s.const = const
        s.init = init
        s.external = external


class Module:
    def __init__(s, text):
        s.types_src = {}
        s.types = {}
        s.funcs = {}
        s.decls = {}
        s.globs_src = {}
        s.globs = {}
        s.aliases = {}
        s.md = {}
        s._loc = {}
        s._scope = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                nm, d = ln.split(' = type ', 1)
                s.types_src[nm] = d
            elif c == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)', ln)
                s.globs_src[unq(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                hdr = ln
                j = i
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                nm = unq(m.group(1))
                s.funcs[nm] = (hdr, i, j)
                i = j + 1
            elif ln.startswith('declare'):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
                s.decls[unq(m.group(1))] = ln
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    s.md[int(m.group(1))] = m.group(2)
        s.lines = lines

    def named_type(s, nm):
        t = s.types.get(nm)
        if t is None:
            d = s.types_src.get(nm)
            if d is None:
                raise IRError('unknown type ' + nm)
            if d.strip() == 'opaque':
                t = StructT([], False, nm)
                s.types[nm] = t
                return t
            t = StructT([], False, nm)
            s.types[nm] = t
            q = P(tokenize(d), s).type()
            t.els = q.els
            t.packed = q.packed
        return t

    def func(s, nm):
        f = s.funcs.get(nm)
        if f is None:
            return None
        if isinstance(f, tuple):
            hdr, a, b = f
            f = Func(s, nm, hdr, s.lines[a:b])
            s.funcs[nm] = f
        return f

    def glob(s, nm):
        g = s.globs.get(nm)
        if g is not None:
            return g
        d = s.globs_src.get(nm)
        if d is None:
            return None
        if re.search(r'\balias\b', d.split('"')[0]):
            m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\s*$', d)
            g = ('alias', unq(m.group(1)))
            s.globs[nm] = g
            return g
        # strip trailing ", comdat..., align N, section, !dbg"
        p = P(tokenize(re.sub(r', !dbg !\d+', '', d)), s)
        ext = False
        const = False
        while True:
            k, v = p.peek()
            if v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v == 'external' or v == 'extern_weak':
                ext = True
            p.next()
            if p.peek()[1] == '(':
                p.skip_paren()
        ty = p.type()
        init = None
        if not ext:
            init = p.val(ty)
        g = Global(nm, ty, const, init, ext)
        s.globs[nm] = g
        return g

    # ---- debug locations
    def _mdfield(s, d, f):
        m = re.search(r'\b%s: ("[^"]*"|[^,)]+)' % f, d)
        return m.group(1).strip('"') if m else None

    def _file(s, n, depth=0):
        if n in s._scope:
            return s._scope[n]
        d = s.md.get(n, '')
        r = '?'
        if d.startswith('!DIFile') or 'DIFile(' in d:
            r = s._mdfield(d, 'filename') or '?'
        else:
            f = s._mdfield(d, 'file')
            if f and f[0] == '!' and depth < 20:
                r = s._file(int(f[1:]), depth + 1)
            else:
                f = s._mdfield(d, 'scope')
                if f and f[0] == '!' and depth < 20:
                    r = s._file(int(f[1:]), depth + 1)
        s._scope[n] = r
        return r

    def dbgloc(s, n):
        r = s._loc.get(n)
        if r is None:
            d = s.md.get(n, '')
            ln = s._mdfield(d, 'line') or '0'
            sc = s._mdfield(d, 'scope')
            f = s._file(int(sc[1:])) if sc and sc[0] == '!' and sc[1:].isdigit() else '?'
            r = (f, int(ln))
            s._loc[n] = r
        return r
