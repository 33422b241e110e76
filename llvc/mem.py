"""Memory model: objects of bytes/cells with layered symbolic updates."""
from fractions import Fraction
import z3
from ir import IRError
from vals import *


class Fork(Exception):
    """the instruction needs `cond` decided: explore both branches"""

    def __init__(s, cond):
        s.cond = cond


class PathEnd(Exception):
    """this path is finished (assumption false, violation reported, ...)"""


class Unsupported(Exception):
    """outside the verifier's reach: the check becomes undecided"""


class ZeroBase:
    name = '0'

    def byte(s, st, off):
        return 0


class BytesBase:
    def __init__(s, data):
        s.data = data

    def byte(s, st, off):
        if type(off) is int:
            return s.data[off] if off < len(s.data) else UNDEF
        if len(s.data) > 600:
            raise Unsupported('symbolic index in a large constant')
        r = s.data[-1] if s.data else 0
        for i in range(len(s.data) - 1):
            r = ite(oeq(off, i), s.data[i], r, 8)
        return r if type(r) is int else r


class SymBase:
    """arbitrary bytes; `nul`: index of the terminating NUL if it is a C string"""

    def __init__(s, name, nul=None):
        s.name = name
        s.arr = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
        s.nul = nul

    def byte(s, st, off):
        return z3.Select(s.arr, to_bv(off, 64))


class FnBase:
    """content given by a function of the index"""

    def __init__(s, fn):
        s.fn = fn

    def byte(s, st, off):
        return s.fn(st, off)


class StructBase:
    """an array of arbitrary length whose elements have named scalar fields:
    field (offset,size) -> z3 function of the element index"""

    def __init__(s, name, stride, fields):
        s.name = name
        s.stride = stride
        s.fields = fields  # list (off, n, kind, z3func)

    def locate(s, st, off):
        if type(off) is int:
            return off // s.stride, off % s.stride
        c, terms = linear(off)
        for t, k in terms:
            if k % s.stride:
                raise Unsupported('offset %s not a multiple of the element size' % off)
        j = c // s.stride
        r = c % s.stride
        e = z3.BitVecVal(j, 64)
        for t, k in terms:
            e = e + t * z3.BitVecVal(k // s.stride, 64)
        return simp(e), r

    def field(s, st, off):
        j, r = s.locate(st, off)
        for fo, n, kind, f in s.fields:
            if fo <= r < fo + n:
                return fo, n, kind, f(to_bv(j, 64)), r
        return None, 1, 'undef', UNDEF, r

    def byte(s, st, off):
        fo, n, kind, v, r = s.field(st, off)
        if kind == 'undef':
            return UNDEF
        if kind == 'int':
            return extract_byte(v, r - fo, n * 8)
        return Part(v, r - fo, n)

    def typed(s, st, off, n):
        fo, m, kind, v, r = s.field(st, off)
        if kind != 'undef' and r == fo and m == n:
            return v
        return None


def linear(e):
    """BV64 expression -> (const, [(term, coef)])"""
    acc = {}
    const = 0
    st = [(e, 1)]
    while st:
        t, k = st.pop()
        if z3.is_bv_value(t):
            const += t.as_long() * k
            continue
        kk = t.decl().kind()
        if kk == z3.Z3_OP_BADD:
            for ch in t.children():
                st.append((ch, k))
            continue
        if kk == z3.Z3_OP_BSUB:
            ch = t.children()
            st.append((ch[0], k))
            for c in ch[1:]:
                st.append((c, -k))
            continue
        if kk == z3.Z3_OP_BNEG:
            st.append((t.children()[0], -k))
            continue
        if kk == z3.Z3_OP_BMUL:
            ch = t.children()
            if len(ch) == 2 and z3.is_bv_value(ch[0]):
                v = ch[0].as_long()
                if v >> 63:
                    v -= 1 << 64
                st.append((ch[1], k * v))
                continue
            if len(ch) == 2 and z3.is_bv_value(ch[1]):
                v = ch[1].as_long()
                if v >> 63:
                    v -= 1 << 64
                st.append((ch[0], k * v))
                continue
        i = t.get_id()
        if i in acc:
            acc[i] = (t, acc[i][1] + k)
        else:
            acc[i] = (t, k)
    return const & mask(64), [(t, k) for t, k in acc.values() if k]


class CellsLayer:
    def __init__(s, cells):
        s.cells = cells


class Region:
    """bytes [lo, lo+n) have value fn(st, i) for relative index i"""

    def __init__(s, lo, n, fn):
        s.lo = lo
        s.n = n
        s.fn = fn


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'base', 'cells', 'layers', 'alive', 'const', 'owner')

    def __init__(s, id, name, kind, size, base=None):
        s.id = id
        s.name = name
        s.kind = kind
        s.size = size
        s.base = base
        s.cells = {}
        s.layers = ()
        s.alive = True
        s.const = False
        s.owner = None

    def copy(s):
        o = Obj.__new__(Obj)
        o.id = s.id
        o.name = s.name
        o.kind = s.kind
        o.size = s.size
        o.base = s.base
        o.cells = dict(s.cells)
        o.layers = s.layers
        o.alive = s.alive
        o.const = s.const
        o.owner = None
        return o


def piece_bytes(n, v):
    """split a cell value into n byte-values"""
    if v is UNDEF:
        return [UNDEF] * n
    if type(v) is int or (z3.is_expr(v) and (z3.is_bv(v) or z3.is_bool(v))):
        w = 8 * n
        if type(v) is not int and z3.is_bv(v):
            w = v.size()
        return [extract_byte(v, k, w) if 8 * k < w else 0 for k in range(n)]
    if isinstance(v, Part):
        return [v]
    return [Part(v, k, n) for k in range(n)]


def join_bytes(bs):
    """list of byte values -> a value: int/BV, whole Part value, UNDEF or Pieces"""
    n = len(bs)
    if all(not isinstance(b, (Part, Undef)) for b in bs):
        return concat_bytes(bs)
    if all(b is UNDEF for b in bs):
        return UNDEF
    b0 = bs[0]
    if isinstance(b0, Part) and b0.n == n and all(
            isinstance(b, Part) and b.v is b0.v and b.k == i for i, b in enumerate(bs)):
        return b0.v
    return Pieces([(1, b) for b in bs])


def find_cell(cells, off):
    """cell covering byte off: (start, n, v) or None"""
    c = cells.get(off)
    if c is not None:
        return off, c[0], c[1]
    for d in range(1, 16):
        c = cells.get(off - d)
        if c is not None:
            if c[0] > d:
                return off - d, c[0], c[1]
            return None
    return None


class Mem:
    """memory operations; mixed into State"""

    # -------------------------------------------------- object management
    def new_obj(st, name, kind, size, base=None):
        i = st.eng.new_id()
        o = Obj(i, name, kind, size, base)
        o.owner = st.token
        st.objs[i] = o
        return i

    def wobj(st, i):
        o = st.objs[i]
        if o.owner is not st.token:
            o = o.copy()
            o.owner = st.token
            st.objs[i] = o
        return o

    def snap(st, i):
        """immutable reference to the current content"""
        o = st.objs[i]
        o.owner = None
        return o

    # -------------------------------------------------- byte-level reads
    def cells_byte(st, cells, off):
        c = find_cell(cells, off)
        if c is None:
            return None
        o, n, v = c
        if n == 1 and not isinstance(v, Ptr):
            if type(v) is int:
                return v
            if isinstance(v, (Undef, Part)):
                return v
        return piece_bytes(n, v)[off - o]

    def rbyte(st, o, off, note=True):
        if type(off) is int:
            b = st.cells_byte(o.cells, off)
            if b is not None:
                return b
            b = st.layer_byte(o, len(o.layers) - 1, off)
        else:
            b = st.sym_cells_byte(o, o.cells, len(o.layers) - 1, off)
        if note:
            st.note_read(o.id, off)
        return b

    def sym_cells_byte(st, o, cells, below, off):
        if not cells:
            return st.layer_byte(o, below, off)
        bl = []
        for s in sorted(cells):
            n, v = cells[s]
            for k, b in enumerate(piece_bytes(n, v)):
                bl.append((s + k, b))
        # constant-content fast path and UNDEF handling
        plain = all(not isinstance(b, (Part, Undef)) for _, b in bl)
        if plain:
            full = type(o.size) is int and len(bl) == o.size
            v = None
            if not full:
                v = st.layer_byte(o, below, off)
                if isinstance(v, (Part, Undef)):
                    inr = b_or(*[oeq(off, s) for s, _ in bl])
                    if st.decide(inr):
                        v = 0
                    else:
                        return v
            else:
                v = bl[-1][1]
            for s, b in bl:
                v = ite(oeq(off, s), b, v, 8)
            return v
        c = st.concretize(off)
        b = st.cells_byte(cells, c)
        if b is not None:
            return b
        return st.layer_byte(o, below, c)

    def layer_byte(st, o, i, off):
        while i >= 0:
            L = o.layers[i]
            if isinstance(L, CellsLayer):
                if type(off) is int:
                    b = st.cells_byte(L.cells, off)
                    if b is not None:
                        return b
                    i -= 1
                    continue
                return st.sym_cells_byte(o, L.cells, i - 1, off)
            if type(off) is int and type(L.lo) is int and off < L.lo:
                i -= 1
                continue
            rel = osub(off, L.lo)
            c = olt(rel, L.n)
            if not isinstance(c, bool):
                c2 = st.implied(c)
                if c2 is not None:
                    c = c2
            if c is True:
                return L.fn(st, rel)
            if c is False:
                i -= 1
                continue
            a = L.fn(st, rel)
            b = st.layer_byte(o, i - 1, off)
            if isinstance(a, (Part, Undef)) or isinstance(b, (Part, Undef)):
                return a if st.decide(c) else b
            return ite(c, a, b, 8)
        if o.base is None:
            return UNDEF
        return o.base.byte(st, off)

    # -------------------------------------------------- reads of n bytes
    def read_n(st, o, off, n):
        """-> value (int/BV/Ptr/Real/UNDEF/Pieces)"""
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
            if n > 1:
                # any covering cells on top?
                v = st.read_typed(o, off, n)
                if v is not None:
                    return v
        else:
            if not o.cells and not o.layers and isinstance(o.base, StructBase):
                v = o.base.typed(st, off, n)
                if v is not None:
                    st.note_read(o.id, osub(off, o.base.locate(st, off)[1]))
                    return v
            if n > 1 and not isinstance(o.base, (SymBase, FnBase, BytesBase)):
                off = st.concretize(off)
                return st.read_n(o, off, n)
        bs = [st.rbyte(o, oadd(off, k)) for k in range(n)]
        return join_bytes(bs)

    def read_typed(st, o, off, n):
        """whole-cell value at concrete offset through the layers, or None"""
        if any(find_cell(o.cells, off + k) for k in range(n)):
            return None
        i = len(o.layers) - 1
        while i >= 0:
            L = o.layers[i]
            if isinstance(L, CellsLayer):
                c = L.cells.get(off)
                if c is not None and c[0] == n:
                    return c[1]
                if any(find_cell(L.cells, off + k) for k in range(n)):
                    return None
            else:
                if not (type(L.lo) is int and off + n <= L.lo):
                    c = b_or(*[olt(osub(off + k, L.lo), L.n) for k in range(n)])
                    if not isinstance(c, bool):
                        c = st.implied(simp(c))
                    if c is not False:
                        return None
            i -= 1
        if isinstance(o.base, StructBase):
            return o.base.typed(st, off, n)
        return None

    # -------------------------------------------------- writes
    def write_n(st, oid, off, n, v):
        o = st.wobj(oid)
        if type(off) is not int:
            if type(o.size) is int and o.size <= n:
                off = 0
            elif n == 1 and not isinstance(v, (Ptr, Part, Undef)):
                st.push_region(oid, off, 1, lambda st2, i, v=v: v)
                return
            elif type(v) is int or (z3.is_expr(v) and z3.is_bv(v)):
                bs = piece_bytes(n, v)
                for k in range(n):
                    st.push_region(oid, oadd(off, k), 1, lambda st2, i, v=bs[k]: v)
                return
            else:
                off = st.concretize(off)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        st.clear_range(cells, off, n)
        if isinstance(v, Pieces):
            p = off
            for m, x in v.ps:
                cells[p] = (m, x)
                p += m
            return
        cells[off] = (n, v)

    def clear_range(st, cells, off, n):
        hits = []
        for s in range(off - 15, off + n):
            c = cells.get(s)
            if c is not None and s + c[0] > off:
                hits.append((s, c[0], c[1]))
        for s, m, v in hits:
            del cells[s]
            if s < off or s + m > off + n:
                bs = piece_bytes(m, v)
                for k in range(m):
                    if not (off <= s + k < off + n):
                        cells[s + k] = (1, bs[k])

    def push_region(st, oid, lo, n, fn):
        o = st.wobj(oid)
        ly = o.layers
        if o.cells:
            ly = ly + (CellsLayer(o.cells),)
            o.cells = {}
        o.layers = ly + (Region(lo, n, fn),)

    # -------------------------------------------------- block operations
    def copy_bytes(st, dst, src, n):
        """memcpy/memmove with concrete or symbolic n (bounds already checked)"""
        so = st.objs[src.obj]
        if type(n) is not int:
            m = st.const_of(n)
            if m is not None:
                n = m
        if type(n) is int:
            if n == 0:
                return
            if type(src.off) is int and type(dst.off) is int:
                items = st.read_block(so, src.off, n)
                p = dst.off
                for m, v in items:
                    st.write_n(dst.obj, p, m, v)
                    p += m
                return
            if n <= 96 and type(dst.off) is int:
                bs = [st.rbyte(so, oadd(src.off, k)) for k in range(n)]
                for k, b in enumerate(bs):
                    st.write_n(dst.obj, dst.off + k, 1, b)
                return
        snap = st.snap(src.obj)
        soff = src.off
        st.push_region(dst.obj, dst.off, n, lambda st2, i: st2.rbyte(snap, oadd(soff, i)))

    def read_block(st, o, off, n):
        """list of (nbytes, value) covering [off,off+n), whole cells kept"""
        out = []
        p = off
        end = off + n
        while p < end:
            c = o.cells.get(p)
            if c is not None and p + c[0] <= end:
                out.append(c)
                p += c[0]
                continue
            c2 = find_cell(o.cells, p)
            if c2 is None:
                # typed lower-layer cell?
                v = None
                m = 1
                for L in reversed(o.layers):
                    if isinstance(L, CellsLayer):
                        c = L.cells.get(p)
                        if c is not None and c[0] > 1 and p + c[0] <= end:
                            v = st.read_typed(o, p, c[0])
                            m = c[0]
                        break
                if v is None and isinstance(o.base, StructBase):
                    fo, m, kind, vv, r = o.base.field(st, p)
                    if kind != 'undef' and r == fo and p + m <= end:
                        v = st.read_typed(o, p, m)
                if v is not None:
                    out.append((m, v))
                    p += m
                    continue
            out.append((1, st.rbyte(o, p)))
            p += 1
        return out

    def fill(st, dst, byte, n):
        if type(n) is not int:
            m = st.const_of(n)
            if m is not None:
                n = m
        if type(n) is int and type(dst.off) is int:
            if n > 64 and byte == 0:
                o = st.objs[dst.obj]
                if dst.off == 0 and type(o.size) is int and o.size == n:
                    o = st.wobj(dst.obj)
                    o.cells = {}
                    o.layers = ()
                    o.base = ZeroBase()
                    return
            if n <= 4096:
                for k in range(n):
                    st.write_n(dst.obj, dst.off + k, 1, byte)
                return
        st.push_region(dst.obj, dst.off, n, lambda st2, i: byte)
