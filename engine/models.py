"""Trusted models of the C++ standard library (and a little of Boost): the specifications that calls
into code outside /repo are checked against.  Every model used in a run is listed in the evidence."""
import re, z3
from sym import *
import sym

NPOS = (1 << 64) - 1

class Str(Abs):
    """std::string as a mathematical byte sequence"""
    size = 32; esize = 1
    def __init__(self, seq): self.seq = seq
    def __repr__(self): return 'Str(%s)' % self.seq
    def same(self, o): return self.seq.eq(o.seq)
    def lenterm(self, V): return V.slen(self.seq)
    def havoc(self, V, st, hint): return Str(V.fresh_seq(hint + '_str'))
    def load(self, V, st, p, ty):
        if ty.kind != 'int' or ty.width != 8: raise Unsupported('non-byte access to string data')
        i = addr1(V, p)
        n = V.slen(self.seq)
        V.oblige(st, z3.And(i >= 0, i <= n) if isz(i) or isz(n) else 0 <= i <= n, 'string access in bounds')
        if not isz(i) and not isz(n):
            return V.nth(st, self.seq, i) if i < n else 0
        lt = i < n
        if V.entails_quick(st, lt): return V.nth(st, self.seq, i)
        e = V.nth(st, self.seq, i, rng=False)
        if V.mode == 'int':
            V.assume(st, z3.Implies(lt, z3.And(e >= 0, e < 256)))
            return z3.If(lt, e, z3.IntVal(0))
        return z3.If(lt, e, z3.BitVecVal(0, 8))
    def store(self, V, st, p, v, ty):
        if ty.width != 8: raise Unsupported('non-byte store to string data')
        i = addr1(V, p); n = V.slen(self.seq)
        V.oblige(st, z3.And(i >= 0, i < n) if isz(i) or isz(n) else 0 <= i < n, 'string store in bounds')
        i = V.ival(i)
        return Str(V.cat(z3.SubSeq(self.seq, 0, i), V.unit(v), z3.SubSeq(self.seq, i + 1, V.ival(n) - i - 1)))
    def elem_cells(self, V, st, idx, off, n):
        out = {}
        for k in range(n):
            out[k] = (self.load(V, st, Ptr(None, off + k if not isz(idx) else off + k, idx, 1), sym._FakeTy(8)), 1)
        return out

class Block(Str):
    """a heap block of bytes obtained from new[], malloc or realloc: accesses must stay inside it"""
    def __init__(self, seq, alive=True, fill=None): self.seq, self.alive, self.fill = seq, alive, fill
    def __repr__(self): return 'Block(%s)' % self.seq
    def same(self, o): return isinstance(o, Block) and self.alive == o.alive and self.seq.eq(o.seq)
    def havoc(self, V, st, hint): return Block(V.fresh_seq(hint + '_blk'), self.alive)
    def chk(self, V, st, i, n, what):
        V.oblige(st, self.alive, 'the block is not freed')
        i, n = V.ival(i), V.ival(n); V.oblige(st, z3.And(i >= 0, n >= 0, i + n <= V.ival(V.slen(self.seq))), what)
    def load(self, V, st, p, ty):
        if ty.kind != 'int' or ty.width != 8: raise Unsupported('non-byte access to a block')
        i = addr1(V, p); self.chk(V, st, i, 1, 'block read in bounds')
        return V.nth(st, self.seq, i)
    def store(self, V, st, p, v, ty):
        if ty.width != 8: raise Unsupported('non-byte store to a block')
        i = addr1(V, p); self.chk(V, st, i, 1, 'block write in bounds'); i = V.ival(i)
        return Block(V.cat(z3.SubSeq(self.seq, 0, i), V.unit(v), z3.SubSeq(self.seq, i + 1, V.ival(V.slen(self.seq)) - i - 1)))

def heap_bytes(V):
    """give new char[n], malloc, realloc, free, delete and memcpy of any size their exact meaning on byte blocks"""
    def fresh(st, n):
        V.oblige(st, V.ival(n) >= 0, 'size of a new block is not negative')
        q = V.fresh_seq('blk'); V.assume(st, z3.Length(q) == V.ival(n))
        return V.dataptr(V.region(st, 'blk', {0: (Block(q), 32)}), 0)
    def blk(st, p):
        c = V.container(st, p.rid) if isinstance(p, Ptr) and p.rid and p.rid[0] == 'd' else None
        if not isinstance(c, Block): raise Unsupported('not a heap block: %r' % (p,))
        return c
    def kill(st, p):
        if isinstance(p, Ptr) and p.rid is None: return
        if isinstance(p, int) and p == 0: return
        c = blk(st, p); V.oblige(st, z3.And(zb(c.alive), V.ival(addr1(V, p)) == 0), 'only a live block is freed'); V.write_abs(st, p.rid[1], Block(c.seq, False))
    def realloc(V_, st, a, ins):
        c = blk(st, a[0]); n = V.ival(a[1]); q = fresh(st, n); d = V.container(st, q.rid).seq; L = V.ival(V.slen(c.seq))
        m = z3.If(n < L, n, L); V.assume(st, z3.SubSeq(d, 0, m) == z3.SubSeq(c.seq, 0, m)); kill(st, a[0])
        r = V.fresh_seq('rest'); V.write_abs(st, q.rid[1], Block(V.cat(z3.SubSeq(c.seq, 0, m), r))); V.assume(st, z3.Length(r) == n - m); return q
    def memcpy(V_, st, a, ins):
        d, s_, n = a[0], a[1], V.ival(a[2])
        if isinstance(s_, Ptr) and s_.rid and s_.rid[0] == 'd': c = V.container(st, s_.rid)
        else: raise Unsupported('memcpy from %r' % (s_,))
        i = V.ival(addr1(V, s_))
        if isinstance(c, Block): c.chk(V, st, i, n, 'memcpy reads inside the block')
        else: V.oblige(st, z3.And(i >= 0, n >= 0, i + n <= V.ival(V.slen(c.seq))), 'memcpy reads inside the data')
        b = blk(st, d); j = V.ival(addr1(V, d)); b.chk(V, st, j, n, 'memcpy writes inside the block')
        L = V.ival(V.slen(b.seq)); x = z3.SubSeq(c.seq, i, n)
        full = V.entails_quick(st, z3.And(j == 0, n == L))
        if b.fill is not None and V.entails_quick(st, z3.And(j == 0, n == L - 1)): V.write_abs(st, d.rid[1], Block(V.cat(x, V.unit(b.fill)))); return d
        V.write_abs(st, d.rid[1], Block(x if full else V.cat(z3.SubSeq(b.seq, 0, j), x, z3.SubSeq(b.seq, j + n, L - j - n))))
        return d
    def memset(V_, st, a, ins):
        b = blk(st, a[0]); b.chk(V, st, addr1(V, a[0]), a[2], 'memset writes inside the block')
        j = V.ival(addr1(V, a[0])); n = V.ival(a[2]); L = V.ival(V.slen(b.seq)); z = V.fresh_seq('fill'); k = z3.Int('k!fill'); V.assume(st, z3.Length(z) == n); b2 = V.ival(a[1])
        V.assume(st, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z[k] == b2), patterns=[z[k]]))
        if V.entails_quick(st, z3.And(j == 0, n == L)): V.write_abs(st, a[0].rid[1], Block(z, True, b2)); return a[0]
        V.write_abs(st, a[0].rid[1], Block(V.cat(z3.SubSeq(b.seq, 0, j), z, z3.SubSeq(b.seq, j + n, L - j - n)))); return a[0]
    V.models.insert(0, (re.compile(r'(_Zna[mj]|malloc|operator new\[\]\(.*)$'), lambda V_, st, a, ins: fresh(st, a[0])))
    V.models.insert(0, (re.compile(r'realloc$'), realloc))
    V.models.insert(0, (re.compile(r'(free|_Zd[la]Pv.*|operator delete(\[\])?\(.*)$'), lambda V_, st, a, ins: kill(st, a[0])))
    isb = lambda st, p: isinstance(p, Ptr) and p.rid and p.rid[0] == 'd' and isinstance(V.container(st, p.rid), Block)
    def cpy(st, d, s_, n):
        if not isb(st, d): return False
        memcpy(V, st, (d, s_, n), None); return True
    def mset(st, p, v, n):
        if not isb(st, p): return False
        memset(V, st, (p, v, n), None); return True
    for k in [k for k in V.exact if k.startswith('operator delete') or k.startswith('operator new[]')]: V.exact.pop(k)
    V.heap = {'cpy': cpy, 'set': mset, 'fresh': fresh, 'blk': blk, 'kill': kill}

def addr1(V, p):
    a = V.addr(p)
    return V.py(z3.simplify(a)) if isz(a) else a

class ElemSpec:
    """how an element of a container is represented as one z3 value"""
    def __init__(self, name, size, fields):
        self.name, self.size, self.fields = name, size, fields   # fields: [(off, size, kind)] kind int/bool/str/real
    def sort(self, V):
        k = ('es', self.name, V.mode)
        if k not in _sorts:
            fs = [self.fsort(V, f) for f in self.fields]
            if len(fs) == 1: _sorts[k] = (fs[0], None)
            else:
                d = z3.Datatype('E_' + re.sub(r'\W', '_', self.name) + V.mode)
                d.declare('mk', *[('f%d' % f[0], s) for f, s in zip(self.fields, fs)])
                _sorts[k] = (d.create(), True)
        return _sorts[k][0]
    def fsort(self, V, f):
        if f[2] == 'str': return V.ssort
        if f[2] == 'bool': return z3.BoolSort()
        if f[2] == 'real': return z3.RealSort()
        return z3.BitVecSort(8 * f[1]) if V.mode == 'bv' or f[2] == 'bv' else z3.IntSort()
    def get(self, V, e, off):
        for j, f in enumerate(self.fields):
            if f[0] == off:
                if len(self.fields) == 1: return e, f
                s = self.sort(V)
                return s.accessor(0, j)(e), f
        raise Unsupported('element field at %s of %s' % (off, self.name))
    def make(self, V, vals):
        s = self.sort(V)
        zs = []
        for f, v in zip(self.fields, vals):
            if isinstance(v, Str): v = v.seq
            if not isz(v):
                if isinstance(v, bool) and f[2] == 'bool': v = z3.BoolVal(v)
                elif isinstance(v, (int, bool)):
                    v = z3.BitVecVal(int(v), 8 * f[1]) if self.fsort(V, f).kind() == z3.Z3_BV_SORT else z3.BoolVal(bool(v)) if f[2] == 'bool' else z3.IntVal(int(v))
                else: raise Unsupported('element value %r' % (v,))
            elif f[2] == 'bool' and not z3.is_bool(v): v = v != 0
            zs.append(v)
        return zs[0] if len(zs) == 1 else s.constructor(0)(*zs)
    def read(self, V, st, p):
        """the z3 value of the element stored at pointer p"""
        vals = []
        for f in self.fields:
            q = V.gep(st, p, f[0], [])
            if f[2] == 'str': vals.append(V.read_abs(st, q, Str))
            elif f[2] == 'real':
                t = sym._FakeTy(64); t2 = _FT('double', 8); v = V.load(st, q, t2)
                vals.append(v if isz(v) else z3.RealVal(v) if isinstance(v, (int, float)) else V.fresh('flt', z3.RealSort()))
            else:
                v = V.load(st, q, sym._FakeTy(1 if f[2] == 'bool' else 8 * f[1]))
                vals.append(v)
        return self.make(V, vals)
    def range_facts(self, V, st, e):
        if V.mode != 'int': return
        for f in self.fields:
            if f[2] == 'int':
                v, _ = self.get(V, e, f[0])
                V.assume(st, z3.And(v >= 0, v < (1 << (8 * f[1]))))
class _FT:
    def __init__(self, kind, size): self.kind, self.size, self.width = kind, size, 0
def rawcell(V, st, q):
    if q.rid[0] == 'd': return None
    c = st.cell(q.rid, V.coff(q)); return c[0] if c else None
_sorts = {}
PRIM = {'char': (1, 'int'), 'unsigned char': (1, 'int'), 'signed char': (1, 'int'), 'int': (4, 'int'), 'unsigned int': (4, 'int'), 'long': (8, 'int'),
        'unsigned long': (8, 'int'), 'short': (2, 'int'), 'unsigned short': (2, 'int'), 'bool': (1, 'bool'), 'double': (8, 'real'), 'float': (4, 'real')}

def espec(V, t):
    t = t.strip()
    if t in V.elemspecs: return V.elemspecs[t]
    if t in PRIM: return ElemSpec(t, PRIM[t][0], [(0,) + PRIM[t]])
    if t == 'std::string': return ElemSpec(t, 32, [(0, 32, 'str')])
    raise Unsupported('no element spec for ' + t)

class Vec(Abs):
    """std::vector / std::list / std::deque as a mathematical sequence of element values"""
    size = 24
    def __init__(self, spec, seq): self.spec, self.seq = spec, seq; self.esize = spec.size
    def __repr__(self): return 'Vec(%s)' % self.seq
    def same(self, o): return self.seq.eq(o.seq)
    def lenterm(self, V): return V.slen(self.seq)
    def havoc(self, V, st, hint): return Vec(self.spec, V.fresh(hint + '_vec', self.seq.sort()))
    def bound(self, V, st, idx, what='container element access in bounds'):
        n = V.slen(self.seq)
        V.oblige(st, z3.And(idx >= 0, idx < n) if isz(idx) or isz(n) else 0 <= idx < n, what)
    def at(self, V, st, idx):
        self.bound(V, st, idx)
        e = V.nth(st, self.seq, idx, rng=False)
        if isinstance(e, int): return z3.IntVal(e) if V.mode == 'int' else z3.BitVecVal(e, 8 * self.esize)
        self.spec.range_facts(V, st, e)
        return e
    def load(self, V, st, p, ty):
        e = self.at(V, st, p.idx if p.stride else 0)
        v, f = self.spec.get(V, e, p.off)
        if ty.size != f[1] and f[2] != 'bool': raise Unsupported('partial element load')
        return V.py(v)
    def store(self, V, st, p, v, ty):
        idx = p.idx if p.stride else 0
        e = self.at(V, st, idx)
        vals = [v if f[0] == p.off else self.spec.get(V, e, f[0])[0] for f in self.spec.fields]
        return self.replace(V, idx, self.spec.make(V, vals))
    def replace(self, V, idx, e):
        i = V.ival(idx); n = V.ival(V.slen(self.seq))
        return Vec(self.spec, V.cat(z3.SubSeq(self.seq, 0, i), z3.Unit(e), z3.SubSeq(self.seq, i + 1, n - i - 1)))
    def elem_abs(self, V, st, idx, off):
        e = self.at(V, st, idx)
        v, f = self.spec.get(V, e, off)
        if f[2] == 'str': return Str(v)
        raise Unsupported('abstract element of kind ' + f[2])
    def set_elem_abs(self, V, st, idx, off, a):
        e = self.at(V, st, idx)
        x = a.seq if isinstance(a, Str) else None
        if x is None: raise Unsupported('set element')
        vals = [x if f[0] == off else self.spec.get(V, e, f[0])[0] for f in self.spec.fields]
        return self.replace(V, idx, self.spec.make(V, vals))
    def elem_cells(self, V, st, idx, off, n):
        e = self.at(V, st, idx)
        out = {}
        for f in self.spec.fields:
            if off <= f[0] < off + n:
                v, _ = self.spec.get(V, e, f[0])
                out[f[0] - off] = (Str(v) if f[2] == 'str' else V.py(v), f[1])
        return out
    def set_elem_cells(self, V, st, idx, off, cells):
        e = self.at(V, st, idx)
        vals = []
        for f in self.spec.fields:
            c = cells.get(f[0] - off)
            if c is None: vals.append(self.spec.get(V, e, f[0])[0])
            else: vals.append(c[0])
        return self.replace(V, idx, self.spec.make(V, vals))

class Map(Abs):
    """std::map from strings to strings: which keys are there, and what is at them.  A node is addressed by its key (data index)."""
    size = 48; esize = 96
    def __init__(self, dom, val): self.dom, self.val = dom, val
    def same(self, o): return self.dom.eq(o.dom) and self.val.eq(o.val)
    @staticmethod
    def any(V, hint='map'): return Map(z3.Const(hint + '!dom', z3.ArraySort(V.ssort, z3.BoolSort())), z3.Const(hint + '!val', z3.ArraySort(V.ssort, V.ssort)))
    @staticmethod
    def empty(V): return Map(z3.K(V.ssort, z3.BoolVal(False)), z3.K(V.ssort, z3.Empty(V.ssort)))
    def havoc(self, V, st, hint): return Map(V.fresh(hint + '_dom', self.dom.sort()), V.fresh(hint + '_val', self.val.sort()))
    def put(self, k, v): return Map(z3.Store(self.dom, k, True), z3.Store(self.val, k, v))
    def elem_abs(self, V, st, k, off):
        if not isz(k) or k.sort() != V.ssort: raise Unsupported('map node')
        if off == 32: return Str(k)
        if off == 64: V.oblige(st, self.dom[k], 'the map node read exists'); return Str(self.val[k])
        raise Unsupported('map node field')
    def set_elem_abs(self, V, st, k, off, a):
        if off != 64 or not isinstance(a, Str): raise Unsupported('map node field set')
        V.oblige(st, self.dom[k], 'the map node written exists')
        return Map(self.dom, z3.Store(self.val, k, a.seq))

class Opaque(Abs):
    """an object whose content is not tracked (streams, loggers)"""
    def __init__(self, what, size=8): self.what = what; self.size = size
    def same(self, o): return self.what == o.what
    def havoc(self, V, st, hint): return self

# ------------------------------------------------------------------ helpers
def getstr(V, st, p): return V.read_abs(st, p, Str).seq
def setstr(V, st, p, seq): V.write_abs(st, p, Str(seq))
def cstr(V, st, p):
    if not isinstance(p, Ptr): raise Unsupported('cstr of %r' % (p,))
    if p.rid is None:
        V.oblige(st, False, 'no null C string'); raise Dead()
    if p.rid[0] == 'g':
        for m in V.mods:
            gi = m.ginit(p.rid[1]) if p.rid[1] in m.globs else None
            if gi and gi[0]: break
        else: raise Unsupported('C string in external global')
        off = V.coff(p); bs = []
        init, ty, _ = gi
        while off < ty.size:
            c = m.const_at(init, ty, off, 1)
            if c[1] == 0: break
            bs.append(c[1] & 255); off += 1
        return V.lit(bytes(bs))
    if p.rid[0] == 'd':
        c = V.container(st, p.rid)
        if isinstance(c, Str):
            s = c.seq; i = addr1(V, p)
            if not (isinstance(i, int) and i == 0): s = z3.SubSeq(s, V.ival(i), V.ival(V.slen(s)) - i)
            parts = V._flat(s)
            if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_UNIT and not (isz(V.py(x.children()[0]))) for x in parts):
                bs = [V.py(x.children()[0]) for x in parts]
                return V.lit(bytes(bs[:bs.index(0)] if 0 in bs else bs))
            zero = V.unit(0)
            if any(x.eq(s) for x in getattr(V, 'nulfree', [])): return s
            if len(parts) > 1 and z3.is_app(parts[-1]) and parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT and V.py(parts[-1].children()[0]) == 0: s = V.cat(*parts[:-1])
            elif isinstance(c, Block): V.oblige(st, z3.Contains(s, zero), 'the C string ends inside its block')
            return z3.If(z3.Contains(s, zero), z3.SubSeq(s, 0, z3.IndexOf(s, zero, 0)), s)
    if p.rid[0] == 'r':
        # literal local array
        off = V.coff(p); bs = []
        r = st.mem.get(p.rid, {})
        while True:
            c = r.get(off)
            if c is None or c[1] != 1 or not isinstance(c[0], int): raise Unsupported('C string in symbolic buffer')
            if c[0] == 0: return V.lit(bytes(bs))
            bs.append(c[0]); off += 1
    raise Unsupported('C string at %r' % (p,))
def buf(V, st, p, n):
    """byte sequence of n bytes at p"""
    if isinstance(n, int) and n == 0: return z3.Empty(V.ssort)
    if p.rid[0] == 'd':
        c = V.container(st, p.rid)
        s = c.seq; i = addr1(V, p); L = V.ival(V.slen(s))
        V.oblige(st, z3.And(V.ival(i) >= 0, V.ival(n) >= 0, V.ival(i) + n <= L + (1 if isinstance(c, Str) else 0)), 'buffer read in bounds')
        if isinstance(i, int) and i == 0 and V.entails_quick(st, V.ival(n) == L): return s
        return z3.SubSeq(s, V.ival(i), V.ival(n))
    if p.rid[0] == 'g':
        s = cstr(V, st, p)
        if isinstance(n, int) and n <= V.slen(s) + 1:
            x = V._flat(s)[:n]
            return V.cat(*x) if x else z3.Empty(V.ssort)
    if p.rid[0] == 'r' and isinstance(n, int):
        off = V.coff(p); us = []
        for k in range(n):
            v = V.load(st, Ptr(p.rid, off + k), sym._FakeTy(8)); us.append(V.unit(v))
        return V.cat(*us)
    raise Unsupported('buffer at %r' % (p,))
def sub(V, st, s, pos, n):
    """s.substr(pos,n) for pos<=len; n may exceed"""
    L = V.ival(V.slen(s)); pos = V.ival(pos); n = V.ival(n)
    m = z3.If(pos + n > L, L - pos, n)
    if V.entails_quick(st, pos + n <= L): m = n
    elif V.entails_quick(st, pos + n >= L):
        m = L - pos
        if V.entails_quick(st, pos == 0): return s
    return z3.SubSeq(s, pos, m)
def charv(V, c):
    return c
def streq(V, a, b):
    return a == b
def zb(x): return x if isz(x) else z3.BoolVal(bool(x))

EX = {}
RX = []
def ex(*names):
    def d(f):
        for n in names: EX[n] = f
        return f
    return d
def rx(pat):
    def d(f):
        RX.append((re.compile(pat), f)); return f
    return d
S = 'std::string::'
_nop = lambda V, st, a, ins: None

# ---------------- construction / destruction / assignment
@ex(S + 'basic_string()')
def _(V, st, a, ins): setstr(V, st, a[0], z3.Empty(V.ssort))
@rx(r'std::string::basic_string(<std::allocator<char>, void>|<std::allocator<char>>|<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)$')
def _(V, st, a, ins): setstr(V, st, a[0], cstr(V, st, a[1]))
@ex(S + 'basic_string(std::string const&)')
def _(V, st, a, ins): setstr(V, st, a[0], getstr(V, st, a[1]))
@ex(S + 'basic_string(std::string&&)', S + 'basic_string(std::string&&, std::allocator<char> const&)')
def _(V, st, a, ins):
    s = getstr(V, st, a[1]); setstr(V, st, a[0], s); setstr(V, st, a[1], z3.Empty(V.ssort))
@ex(S + 'basic_string(char const*, unsigned long, std::allocator<char> const&)')
def _(V, st, a, ins): setstr(V, st, a[0], buf(V, st, a[1], a[2]))
@ex(S + 'basic_string(std::string const&, unsigned long, unsigned long)')
def _(V, st, a, ins): return substr_(V, st, a[0], a[1], a[2], a[3])
@ex(S + 'basic_string(unsigned long, char, std::allocator<char> const&)')
def _(V, st, a, ins):
    if isinstance(a[1], int): setstr(V, st, a[0], V.cat(*[V.unit(a[2])] * a[1]) if a[1] else z3.Empty(V.ssort))
    else: raise Unsupported('string(n,c) symbolic')
@rx(r'std::string::basic_string<__gnu_cxx::__normal_iterator<char (const)?\*, std::string>, void>\(')
def _(V, st, a, ins): setstr(V, st, a[0], itrange(V, st, a[1], a[2]))
@rx(r'std::string::basic_string<char (const)?\*, void>\(')
def _(V, st, a, ins): setstr(V, st, a[0], itrange(V, st, a[1], a[2]))
def itrange(V, st, b, e):
    if b.rid == e.rid and b.rid[0] == 'd':
        d = V.ptrdiff(st, e, b)
        return buf(V, st, b, d)
    d = V.ptrdiff(st, e, b)
    return buf(V, st, b, d)
@ex(S + '~basic_string()')
def _(V, st, a, ins): return None
@ex(S + 'operator=(std::string const&)', S + 'assign(std::string const&)')
def _(V, st, a, ins): setstr(V, st, a[0], getstr(V, st, a[1])); return a[0]
@ex(S + 'operator=(std::string&&)', S + 'assign(std::string&&)')
def _(V, st, a, ins): setstr(V, st, a[0], getstr(V, st, a[1])); return a[0]
@ex(S + 'operator=(char const*)', S + 'assign(char const*)')
def _(V, st, a, ins): setstr(V, st, a[0], cstr(V, st, a[1])); return a[0]
@ex(S + 'operator=(char)')
def _(V, st, a, ins): setstr(V, st, a[0], V.unit(a[1])); return a[0]
@ex(S + 'assign(char const*, unsigned long)')
def _(V, st, a, ins): setstr(V, st, a[0], buf(V, st, a[1], a[2])); return a[0]
@ex(S + 'assign(std::string const&, unsigned long, unsigned long)')
def _(V, st, a, ins):
    r = substr_(V, st, a[0], a[1], a[2], a[3])
    return [(k, s, a[0] if k == 'ret' else v) for k, s, v in r]
# ---------------- size / access
@ex(S + 'length() const', S + 'size() const')
def _(V, st, a, ins):
    n = V.slen(getstr(V, st, a[0]))
    if isz(n): V.assume(st, z3.And(n >= 0, n < MAXLEN))
    return n
@ex(S + 'empty() const')
def _(V, st, a, ins):
    n = V.slen(getstr(V, st, a[0])); return n == 0
@ex(S + 'operator[](unsigned long)', S + 'operator[](unsigned long) const')
def _(V, st, a, ins):
    n = V.slen(getstr(V, st, a[0])); i = a[1]
    V.oblige(st, i <= n, 'string index in bounds')
    return V.dataptr(a[0], i)
@ex(S + 'at(unsigned long)', S + 'at(unsigned long) const')
def _(V, st, a, ins):
    n = V.slen(getstr(V, st, a[0])); i = a[1]
    return fork(V, st, i < n, lambda s: [('ret', s, V.dataptr(a[0], i))], lambda s: V.throw(s, '_ZTISt12out_of_range'))
@ex(S + 'front()', S + 'front() const')
def _(V, st, a, ins):
    V.oblige(st, V.slen(getstr(V, st, a[0])) > 0, 'front of nonempty string'); return V.dataptr(a[0], 0)
@ex(S + 'back()', S + 'back() const')
def _(V, st, a, ins):
    n = V.slen(getstr(V, st, a[0])); V.oblige(st, n > 0, 'back of nonempty string'); return V.dataptr(a[0], n - 1)
@ex(S + 'begin()', S + 'begin() const', S + 'cbegin() const', S + 'data() const', S + 'c_str() const', S + 'data()')
def _(V, st, a, ins):
    V.read_abs(st, a[0], Str); return V.dataptr(a[0], 0)
@ex(S + 'end()', S + 'end() const', S + 'cend() const')
def _(V, st, a, ins): return V.dataptr(a[0], V.slen(getstr(V, st, a[0])))
# ---------------- modification
@ex(S + 'operator+=(char)', S + 'push_back(char)')
def _(V, st, a, ins): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), V.unit(a[1]))); return a[0]
@ex(S + 'operator+=(char const*)', S + 'append(char const*)')
def _(V, st, a, ins): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), cstr(V, st, a[1]))); return a[0]
@ex(S + 'operator+=(std::string const&)', S + 'append(std::string const&)')
def _(V, st, a, ins): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), getstr(V, st, a[1]))); return a[0]
@ex(S + 'append(char const*, unsigned long)')
def _(V, st, a, ins): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), buf(V, st, a[1], a[2]))); return a[0]
@ex(S + 'append(unsigned long, char)')
def _(V, st, a, ins):
    if isinstance(a[1], int): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), *[V.unit(a[2])] * a[1])); return a[0]
    raise Unsupported('append(n,c)')
@ex(S + 'append(std::string const&, unsigned long, unsigned long)')
def _(V, st, a, ins):
    s = getstr(V, st, a[1]); n = V.slen(s)
    def ok(s2):
        setstr(V, s2, a[0], V.cat(getstr(V, s2, a[0]), sub(V, s2, s, a[2], a[3]))); return [('ret', s2, a[0])]
    return fork(V, st, a[2] <= n, ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
@rx(r'std::string& std::string::append<.*>\(')
def _(V, st, a, ins): setstr(V, st, a[0], V.cat(getstr(V, st, a[0]), itrange(V, st, a[1], a[2]))); return a[0]
@ex(S + 'clear()')
def _(V, st, a, ins): setstr(V, st, a[0], z3.Empty(V.ssort))
@ex(S + 'reserve(unsigned long)', S + 'reserve()')
def _(V, st, a, ins): return None
@ex(S + 'swap(std::string&)')
def _(V, st, a, ins):
    x, y = getstr(V, st, a[0]), getstr(V, st, a[1]); setstr(V, st, a[0], y); setstr(V, st, a[1], x)
@ex(S + 'pop_back()')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); n = V.slen(s); V.oblige(st, n > 0, 'pop_back of nonempty string'); setstr(V, st, a[0], z3.SubSeq(s, 0, V.ival(n) - 1))
@ex(S + 'insert(unsigned long, std::string const&)', S + 'insert(unsigned long, char const*)')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); n = V.slen(s)
    x = V.read_abs(st, a[2], Str).seq if 'std::string const' in calleename(V, ins) else cstr(V, st, a[2])
    def ok(s2):
        setstr(V, s2, a[0], V.cat(z3.SubSeq(s, 0, V.ival(a[1])), x, z3.SubSeq(s, V.ival(a[1]), V.ival(n) - a[1]))); return [('ret', s2, a[0])]
    return fork(V, st, a[1] <= n, ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
@ex(S + 'erase(unsigned long, unsigned long)')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); n = V.slen(s)
    def ok(s2):
        c = V.ival(a[2]); p = V.ival(a[1]); L = V.ival(n)
        e = z3.If(p + c > L, L, p + c)
        setstr(V, s2, a[0], V.cat(z3.SubSeq(s, 0, p), z3.SubSeq(s, e, L - e))); return [('ret', s2, a[0])]
    return fork(V, st, a[1] <= n, ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
@ex(S + 'resize(unsigned long)')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); n = V.slen(s)
    if V.entails_quick(st, V.ival(a[1]) <= n): setstr(V, st, a[0], z3.SubSeq(s, 0, V.ival(a[1]))); return None
    raise Unsupported('resize growing')
def calleename(V, ins):
    c = ins.x[0]
    G = V.fnbyname(c[1]); return norm(G.dem) if G else c[1]
def fork(V, st, c, ok, bad):
    if isz(c): c = V.py(z3.simplify(c))
    if isinstance(c, bool): return ok(st) if c else bad(st)
    out = []
    if V.feasible(st, c):
        s2 = st.fork(); V.assume(s2, c); out += ok(s2)
    if V.feasible(st, z3.Not(c)):
        s2 = st.fork(); V.assume(s2, z3.Not(c)); out += bad(s2)
    return out
# ---------------- substr / find / compare
def substr_(V, st, ret, src, pos, n):
    s = getstr(V, st, src); L = V.slen(s)
    def ok(s2):
        setstr(V, s2, ret, sub(V, s2, s, pos, n)); return [('ret', s2, None)]
    return fork(V, st, pos <= L, ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
@ex(S + 'compare(unsigned long, unsigned long, std::string const&) const')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); t = getstr(V, st, a[3])
    def ok(s2):
        x = sub(V, s2, s, a[1], a[2]); r = V.fresh_int(s2, 32, 'cmp'); V.assume(s2, (V.ival(r) == 0) == (x == t)); return [('ret', s2, r)]
    return fork(V, st, a[1] <= V.slen(s), ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
@ex(S + 'substr(unsigned long, unsigned long) const')
def _(V, st, a, ins): return substr_(V, st, a[0], a[1], a[2], a[3])
def find_(V, st, s, t, pos):
    L = V.ival(V.slen(s)); pos = V.ival(pos)
    r = z3.IndexOf(s, t, pos)
    v = z3.If(z3.Or(pos > L, r < 0), z3.IntVal(NPOS), r)
    x = V.fresh('find', z3.IntSort())
    V.assume(st, x == v)
    V.assume(st, z3.Or(x == NPOS, z3.And(x >= pos, x + V.slen(t) <= L)))
    return x
@ex(S + 'find(char, unsigned long) const')
def _(V, st, a, ins): return find_first(V, st, getstr(V, st, a[0]), lambda c: c == a[1], a[2])
@ex(S + 'find(char const*, unsigned long) const')
def _(V, st, a, ins): return find_(V, st, getstr(V, st, a[0]), cstr(V, st, a[1]), a[2])
@ex(S + 'find(std::string const&, unsigned long) const')
def _(V, st, a, ins): return find_(V, st, getstr(V, st, a[0]), getstr(V, st, a[1]), a[2])
@ex(S + 'replace(unsigned long, unsigned long, std::string const&)', S + 'replace(unsigned long, unsigned long, char const*)')
def _(V, st, a, ins):
    s = getstr(V, st, a[0]); t = cstr(V, st, a[3]) if 'char const*' in calleename(V, ins) else getstr(V, st, a[3]); L = V.ival(V.slen(s)); p, n = V.ival(a[1]), V.ival(a[2])
    def ok(s2):
        e = z3.If(n > L - p, L, p + n); e2 = V.fresh('end', z3.IntSort()); V.assume(s2, e2 == e)
        setstr(V, s2, a[0], V.cat(z3.SubSeq(s, 0, p), t, z3.SubSeq(s, e2, L - e2))); return [('ret', s2, a[0])]
    return fork(V, st, p <= L, ok, lambda s2: V.throw(s2, '_ZTISt12out_of_range'))
def inset(V, c, t):
    """c occurs in the literal sequence t"""
    cs = [x.children()[0] for x in V._flat(t) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_UNIT]
    if len(cs) != len([x for x in V._flat(t) if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]):
        return z3.Contains(t, z3.Unit(c))
    return z3.Or(*[c == x for x in cs]) if cs else z3.BoolVal(False)
def forall_idx(V, lo, hi, f, pat):
    """for all lo<=i<hi: f(i); when the unit names ghost indices (V.ghosts) only those instances are assumed (weaker, quantifier-free)"""
    if getattr(V, 'ghosts', None): return z3.And(*[z3.Implies(z3.And(g >= lo, g < hi), f(g)) for g in V.ghosts])
    i = z3.Int('i!ff%d' % V.nfresh); V.nfresh += 1
    return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), f(i)), patterns=[pat(i)])
def named(V, st, s):
    """a constant equal to s (quantifier patterns cannot contain conditionals)"""
    if z3.is_const(s) or getattr(V, 'ghosts', None): return s
    q = V.fresh_seq('q'); V.assume(st, q == s); return q
def find_first(V, st, s, pred, pos):
    """first i>=pos with pred(s[i])"""
    s = named(V, st, s); L = V.ival(V.slen(s)); pos = V.ival(pos)
    x = V.fresh('ff', z3.IntSort()); no = lambda lo, hi: forall_idx(V, lo, hi, lambda i: z3.Not(pred(s[i])), lambda i: s[i])
    V.assume(st, z3.Or(z3.And(x == NPOS, no(pos, L)), z3.And(x >= pos, x < L, pred(s[x]), no(pos, x))))
    return x
def find_last(V, st, s, pred, pos):
    s = named(V, st, s); L = V.ival(V.slen(s)); pos = V.ival(pos)
    top = z3.If(pos >= L, L - 1, pos)
    x = V.fresh('fl', z3.IntSort()); no = lambda lo, hi: forall_idx(V, lo, hi, lambda i: z3.Not(pred(s[i])), lambda i: s[i])
    V.assume(st, z3.Or(z3.And(x == NPOS, no(0, top + 1)), z3.And(x >= 0, x <= top, pred(s[x]), no(x + 1, top + 1))))
    return x
def _fam(name, fn, neg):
    def f1(V, st, a, ins): return fn(V, st, getstr(V, st, a[0]), lambda c: (c != a[1]) if neg else (c == a[1]), a[2])
    def f2(V, st, a, ins):
        t = cstr(V, st, a[1]); return fn(V, st, getstr(V, st, a[0]), lambda c: z3.Not(inset(V, c, t)) if neg else inset(V, c, t), a[2])
    def f3(V, st, a, ins):
        t = getstr(V, st, a[1]); return fn(V, st, getstr(V, st, a[0]), lambda c: z3.Not(inset(V, c, t)) if neg else inset(V, c, t), a[2])
    EX[S + name + '(char, unsigned long) const'] = f1
    EX[S + name + '(char const*, unsigned long) const'] = f2
    EX[S + name + '(std::string const&, unsigned long) const'] = f3
_fam('find_first_of', find_first, False); _fam('find_first_not_of', find_first, True)
_fam('find_last_of', find_last, False); _fam('find_last_not_of', find_last, True)
EX[S + 'rfind(char, unsigned long) const'] = EX[S + 'find_last_of(char, unsigned long) const']
# ---------------- std::map<std::string, std::string>
_MSS = r'std::map<std::string, std::string>::'
def _mnode(V, m, k): return Ptr(('d', HP(m)), 0, k, Map.esize)
def _mend(m): return Ptr(m.rid, m.off + 8, m.idx, m.stride)
@rx(_MSS + r'(find|lower_bound)\(std::string const&\)( const)?$')
def map_find(V, st, a, ins):
    if 'lower_bound' in calleename(V, ins): raise Unsupported('map::lower_bound')
    m = V.read_abs(st, a[0], Map); k = getstr(V, st, a[1])
    return fork(V, st, m.dom[k], lambda s: [('ret', s, _mnode(V, a[0], k))], lambda s: [('ret', s, _mend(a[0]))])
@rx(_MSS + r'end\(\)( const)?$')
def map_end(V, st, a, ins): return _mend(a[0])
@rx(_MSS + r'(count|contains)\(std::string const&\) const$')
def map_count(V, st, a, ins):
    m = V.read_abs(st, a[0], Map); k = getstr(V, st, a[1])
    return fork(V, st, m.dom[k], lambda s: [('ret', s, 1)], lambda s: [('ret', s, 0)])
@rx(_MSS + r'operator\[\]\(std::string (const&|&&)\)$')
def map_index(V, st, a, ins):
    m = V.read_abs(st, a[0], Map); k = getstr(V, st, a[1]); e = z3.Empty(V.ssort)
    def new(s): V.write_abs(s, a[0], m.put(k, e)); return True
    def there(s): return [('ret', s, Ptr(('d', HP(a[0])), 64, k, Map.esize))]
    return fork(V, st, m.dom[k], there, lambda s: new(s) and there(s))
@rx(_MSS + r'at\(std::string const&\)( const)?$')
def map_at(V, st, a, ins):
    m = V.read_abs(st, a[0], Map); k = getstr(V, st, a[1])
    return fork(V, st, m.dom[k], lambda s: [('ret', s, Ptr(('d', HP(a[0])), 64, k, Map.esize))], lambda s: V.throw(s, '_ZTISt12out_of_range'))
@rx(_MSS + r'erase\(std::string const&\)$')
def map_erase(V, st, a, ins):
    m = V.read_abs(st, a[0], Map); k = getstr(V, st, a[1]); V.write_abs(st, a[0], Map(z3.Store(m.dom, k, False), m.val)); return z3.If(m.dom[k], z3.IntVal(1), z3.IntVal(0)) if V.mode == 'int' else None
@rx(_MSS + r'map\(\)$')
def map_ctor(V, st, a, ins): V.write_abs(st, a[0], Map.empty(V)); return None
@rx(_MSS + r'map\(std::map<std::string, std::string> (const&|&&)\)$')
def map_copy(V, st, a, ins): V.write_abs(st, a[0], V.read_abs(st, a[1], Map)); return None
@rx(_MSS + r'~map\(\)$')
def map_dtor(V, st, a, ins): return None
class PairList(Abs):
    """boost::assign::map_list_of of string literals"""
    size = 80
    def __init__(self, items): self.items = items
    def same(self, o): return len(self.items) == len(o.items) and all(a.eq(c) and b.eq(d) for (a, b), (c, d) in zip(self.items, o.items))
def _plput(V, st, p, x, y):
    l = V.read_abs(st, p, PairList, default=lambda: PairList([])); V.write_abs(st, p, PairList(l.items + [(cstr(V, st, x), cstr(V, st, y))]))
@rx(r'.*boost::assign::map_list_of<char \[\d+\], char \[\d+\]>\(.*')
def map_list_of(V, st, a, ins): V.write_abs(st, a[0], PairList([])); _plput(V, st, a[0], a[1], a[2]); return None
@rx(r'.*boost::assign_detail::generic_list<std::pair<char const\*, char const\*>>::operator\(\)<char const \(&\) \[\d+\], char const \(&\) \[\d+\]>\(.*')
def map_list_more(V, st, a, ins): _plput(V, st, a[0], a[1], a[2]); return a[0]
@rx(r'boost::assign_detail::generic_list<std::pair<char const\*, char const\*>>::operator std::map<std::string, std::string>.*')
def map_list_conv(V, st, a, ins):
    m = Map.empty(V)
    for k, v in reversed(V.read_abs(st, a[1], PairList).items): m = m.put(k, v)
    V.write_abs(st, a[0], m); return None
@rx(r'boost::assign_detail::generic_list<std::pair<char const\*, char const\*>>::~generic_list\(\)$')
def map_list_dtor(V, st, a, ins): return None
def _cmpfam(op):
    def f(V, st, a, ins):
        n = calleename(V, ins)
        ar = n[n.index('('):] if '>(' not in n else n[n.rindex('>(') + 1:]
        ps = re.findall(r'std::string const&|char const\*', ar)
        x = getstr(V, st, a[0]) if ps[0].startswith('std') else cstr(V, st, a[0])
        y = getstr(V, st, a[1]) if ps[1].startswith('std') else cstr(V, st, a[1])
        if op == '==': return V.py(z3.simplify(x == y))
        if op == '!=': return V.py(z3.simplify(x != y))
        lt = seqlt(V, x, y)
        return lt
    return f
def seqlt(V, x, y):
    f = z3.Function('seq_lt_' + V.mode, V.ssort, V.ssort, z3.BoolSort())
    return f(x, y)
rx(r'bool std::operator==<char, std::char_traits<char>>\(')(_cmpfam('==')); rx(r'bool std::operator!=<char, std::char_traits<char>>\(')(_cmpfam('!='))
rx(r'std::enable_if<std::__is_char<char>::__value, bool>::type std::operator==<char>\(')(_cmpfam('=='))
rx(r'bool std::operator==<char>\(')(_cmpfam('=='))
@ex(S + 'compare(std::string const&) const')
def _(V, st, a, ins):
    x, y = getstr(V, st, a[0]), getstr(V, st, a[1]); return cmp_(V, st, x, y)
@ex(S + 'compare(char const*) const')
def _(V, st, a, ins):
    x, y = getstr(V, st, a[0]), cstr(V, st, a[1]); return cmp_(V, st, x, y)
def cmp_(V, st, x, y):
    r = V.fresh_int(st, 32, 'cmp'); V.assume(st, (r == 0) == (x == y)); return r
@rx(r'std::string std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(|std::string std::operator\+<char, std::char_traits<char>>\(')
def _(V, st, a, ins):
    n = calleename(V, ins); ar = n[n.index('>(') + 1:]
    ps = re.findall(r'std::string const&|std::string&&|char const\*|char\b(?! const\*)', ar)
    def g(p, v):
        if p.startswith('std'): return getstr(V, st, v)
        if p == 'char': return V.unit(v)
        return cstr(V, st, v)
    setstr(V, st, a[0], V.cat(g(ps[0], a[1]), g(ps[1], a[2])))
# ---------------- allocators, new/delete, misc
rx(r'std::(__new_)?allocator<.*>::~?(__new_)?allocator\(')(_nop)
rx(r'std::allocator<.*>::allocator')(_nop)
ex('__cxa_guard_release', '__cxa_atexit', '__clang_call_terminate', '__cxa_free_exception', '__cxa_end_catch', 'operator delete(void*)', 'operator delete(void*, unsigned long)', 'operator delete[](void*)', 'std::ios_base::Init::Init()', 'std::ios_base::Init::~Init()')(_nop)
@ex('__cxa_guard_acquire')
def _(V, st, a, ins): return 1
@ex('operator new(unsigned long)', 'operator new[](unsigned long)')
def _(V, st, a, ins): return V.region(st, 'new')
@ex('__cxa_allocate_exception')
def _(V, st, a, ins): return V.region(st, 'exc')
@ex('__cxa_throw')
def _(V, st, a, ins): return [('throw', st, Exc(a[1].rid[1], a[0]))]
@ex('__cxa_rethrow')
def _(V, st, a, ins): 
    c = st.ghost.get('caught', [])
    return [('throw', st, c[-1])] if c else []
@ex('__cxa_begin_catch')
def _(V, st, a, ins):
    e = a[0]
    if isinstance(e, Exc):
        st.ghost['caught'] = st.ghost.get('caught', []) + [e]; return e.obj
    return NULL
@ex('__assert_fail')
def _(V, st, a, ins):
    V.oblige(st, False, 'assertion holds'); return []
@ex('abort', 'std::terminate()', 'exit')
def _(V, st, a, ins):
    V.oblige(st, False, 'program does not abort'); return []
@rx(r'__gnu_cxx::__exchange_and_add|std::__throw_')
def _(V, st, a, ins):
    n = calleename(V, ins)
    if 'throw_out_of_range' in n: return V.throw(st, '_ZTISt12out_of_range')
    if 'throw_length_error' in n: return V.throw(st, '_ZTISt12length_error')
    if 'throw_logic_error' in n: return V.throw(st, '_ZTISt11logic_error')
    raise Unsupported(n)
@rx(r'vp_assert|_?_?vp_assert')
def _(V, st, a, ins):
    nm = 'assertion'
    try:
        q = cstr(V, st, a[1]); nm = bytes(V.py(x.children()[0]) for x in V._flat(q)).decode()
    except Exception: pass
    c = a[0]
    if isinstance(c, (int, bool)): c = bool(c)
    elif not z3.is_bool(c): c = c != 0
    V.oblige(st, c, nm)
    return None
@rx(r'vp_assume')
def _(V, st, a, ins):
    c = a[0]
    if isinstance(c, (int, bool)):
        if not c: return []
        return None
    if not z3.is_bool(c): c = c != 0
    V.assume(st, c)
    if not V.feasible(st, True if False else z3.BoolVal(True)): return []
    return None
# ---------------- logging / streams as opaque sinks
@rx(r'std::ostream& std::operator<<')
def _(V, st, a, ins): return a[0]
@rx(r'std::ostream::(operator<<|put|write|flush)')
def _(V, st, a, ins): return a[0]
rx(r'Logging::|log4cpp::|LoggingSingleton::')(lambda V, st, a, ins: (_ for _ in ()).throw(Unsupported('logging')))
@rx(r'PsiException::PsiException\(')
def _(V, st, a, ins): return None
@rx(r'std::(logic_error|runtime_error|out_of_range|invalid_argument|length_error|exception)::~?\w+\(')
def _(V, st, a, ins): return None
# ctype
def _ctype(f):
    def g(V, st, a, ins):
        c = V.ival(a[0]) if V.mode == 'int' else V.bvv(a[0], 32)
        r = f(c)
        return z3.If(r, V.ival(1), V.ival(0)) if V.mode == 'int' else z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return g
_rng = lambda c, lo, hi: z3.And(c >= lo, c <= hi)
EX['isdigit'] = _ctype(lambda c: _rng(c, 48, 57)); EX['isxdigit'] = _ctype(lambda c: z3.Or(_rng(c, 48, 57), _rng(c, 65, 70), _rng(c, 97, 102)))
EX['isspace'] = _ctype(lambda c: z3.Or(c == 32, _rng(c, 9, 13))); EX['isalpha'] = _ctype(lambda c: z3.Or(_rng(c, 65, 90), _rng(c, 97, 122)))
EX['isalnum'] = _ctype(lambda c: z3.Or(_rng(c, 48, 57), _rng(c, 65, 90), _rng(c, 97, 122)))
EX['isupper'] = _ctype(lambda c: _rng(c, 65, 90)); EX['islower'] = _ctype(lambda c: _rng(c, 97, 122))
@ex('tolower')
def _(V, st, a, ins):
    c = V.ival(a[0]); return z3.If(_rng(c, 65, 90), c + 32, c)
@ex('toupper')
def _(V, st, a, ins):
    c = V.ival(a[0]); return z3.If(_rng(c, 97, 122), c - 32, c)
@ex('strlen')
def _(V, st, a, ins): return V.slen(cstr(V, st, a[0]))
@ex('strcmp')
def _(V, st, a, ins): return cmp_(V, st, cstr(V, st, a[0]), cstr(V, st, a[1]))

# ---------------- sequences: vector / list / deque
def targ(n, cont):
    """element type of std::cont<T> in normalised name n (first occurrence)"""
    k = n.index(cont + '<') + len(cont) + 1
    d = 1; j = k
    while d:
        if n[j] == '<': d += 1
        if n[j] == '>': d -= 1
        if n[j] == ',' and d == 1: break
        j += 1
    return n[k:j].strip() if n[j] == ',' else n[k:j - 1].strip() if d == 0 else n[k:j].strip()
def seqmodel(f):
    def g(V, st, a, ins):
        n = calleename(V, ins)
        m = re.search(r'std::(vector|list|deque|_Vector_base)<', n)
        t = targ(n, 'std::' + m.group(1))
        return f(V, st, a, espec(V, t), n)
    return g
def getvec(V, st, p, sp):
    v = V.read_abs(st, p)
    if isinstance(v, Vec): return v
    raise Unsupported('expected a sequence container, found %r' % (v,))
Cn = r'std::(vector|list|deque)<.*>::'
def meth(pat):
    return rx(r'std::(vector|list|deque)<(?:[^()]|\(\))*>::' + pat)
@meth(r'(vector|list|deque)\(\)$')
@seqmodel
def _(V, st, a, sp, n): V.write_abs(st, a[0], Vec(sp, z3.Empty(z3.SeqSort(sp.sort(V)))))
@meth(r'(vector|list|deque)\(std::(vector|list|deque)<.* const&\)$')
@seqmodel
def _(V, st, a, sp, n): V.write_abs(st, a[0], V.read_abs(st, a[1], Vec))
@meth(r'(vector|list|deque)\(std::(vector|list|deque)<.*&&\)$')
@seqmodel
def _(V, st, a, sp, n):
    v = V.read_abs(st, a[1], Vec); V.write_abs(st, a[0], v); V.write_abs(st, a[1], Vec(sp, z3.Empty(v.seq.sort())))
@meth(r'operator=\(')
@seqmodel
def _(V, st, a, sp, n): V.write_abs(st, a[0], V.read_abs(st, a[1], Vec)); return a[0]
meth(r'~(vector|list|deque)\(\)$')(_nop)
@meth(r'size\(\) const$')
@seqmodel
def _(V, st, a, sp, n): return V.slen(getvec(V, st, a[0], sp).seq)
@meth(r'empty\(\) const$')
@seqmodel
def _(V, st, a, sp, n): return V.slen(getvec(V, st, a[0], sp).seq) == 0
@meth(r'(begin|cbegin)\(\)( const)?$')
@seqmodel
def _(V, st, a, sp, n): getvec(V, st, a[0], sp); return V.dataptr(a[0], 0, sp.size)
@meth(r'data\(\)( const)?$')
@seqmodel
def _(V, st, a, sp, n): getvec(V, st, a[0], sp); return V.dataptr(a[0], 0, sp.size)
@meth(r'(end|cend)\(\)( const)?$')
@seqmodel
def _(V, st, a, sp, n): return V.dataptr(a[0], V.slen(getvec(V, st, a[0], sp).seq), sp.size)
@meth(r'push_back\(')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); V.write_abs(st, a[0], Vec(v.spec, V.cat(v.seq, z3.Unit(sp.read(V, st, a[1])))))
@meth(r'emplace_back<')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); V.write_abs(st, a[0], Vec(v.spec, V.cat(v.seq, z3.Unit(sp.read(V, st, a[1])))))
@meth(r'push_front\(')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); V.write_abs(st, a[0], Vec(v.spec, V.cat(z3.Unit(sp.read(V, st, a[1])), v.seq)))
@meth(r'pop_back\(\)')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); L = V.slen(v.seq); V.oblige(st, L > 0, 'pop_back of nonempty container')
    V.write_abs(st, a[0], Vec(v.spec, z3.SubSeq(v.seq, 0, V.ival(L) - 1)))
@meth(r'pop_front\(\)')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); L = V.slen(v.seq); V.oblige(st, L > 0, 'pop_front of nonempty container')
    V.write_abs(st, a[0], Vec(v.spec, z3.SubSeq(v.seq, 1, V.ival(L) - 1)))
@meth(r'front\(\)( const)?$')
@seqmodel
def _(V, st, a, sp, n):
    V.oblige(st, V.slen(getvec(V, st, a[0], sp).seq) > 0, 'front of nonempty container'); return V.dataptr(a[0], 0, sp.size)
@meth(r'back\(\)( const)?$')
@seqmodel
def _(V, st, a, sp, n):
    L = V.slen(getvec(V, st, a[0], sp).seq); V.oblige(st, L > 0, 'back of nonempty container'); return V.dataptr(a[0], L - 1, sp.size)
@meth(r'operator\[\]\(unsigned long\)( const)?$')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); L = V.slen(v.seq); i = a[1]
    V.oblige(st, i < L, 'vector index in bounds'); return V.dataptr(a[0], i, sp.size)
@meth(r'at\(unsigned long\)( const)?$')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); L = V.slen(v.seq); i = a[1]
    return fork(V, st, i < L, lambda s: [('ret', s, V.dataptr(a[0], i, sp.size))], lambda s: V.throw(s, '_ZTISt12out_of_range'))
@meth(r'clear\(\)$')
@seqmodel
def _(V, st, a, sp, n):
    v = getvec(V, st, a[0], sp); V.write_abs(st, a[0], Vec(v.spec, z3.Empty(v.seq.sort())))
meth(r'(reserve|shrink_to_fit)\(')(_nop)
@meth(r'vector\(unsigned long, .* const&, std::allocator')
@seqmodel
def _(V, st, a, sp, n):
    e = sp.read(V, st, a[2])
    if isinstance(a[1], int):
        V.write_abs(st, a[0], Vec(sp, V.cat(*[z3.Unit(e)] * a[1]) if a[1] else z3.Empty(z3.SeqSort(sp.sort(V))))); return
    q = V.fresh('vecn', z3.SeqSort(sp.sort(V))); i = z3.Int('i!vn%d' % V.nfresh)
    V.assume(st, z3.Length(q) == a[1]); V.assume(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a[1]), q[i] == e), patterns=[q[i]]))
    V.write_abs(st, a[0], Vec(sp, q))
@meth(r'swap\(')
@seqmodel
def _(V, st, a, sp, n):
    x, y = V.read_abs(st, a[0], Vec), V.read_abs(st, a[1], Vec); V.write_abs(st, a[0], y); V.write_abs(st, a[1], x)
# list iterators: the node pointer is the element position
@rx(r'std::_List_(const_)?iterator<.*>::_List_(const_)?iterator\(')
def _(V, st, a, ins):
    if len(a) == 2:
        v = a[1]
        n = calleename(V, ins)
        if n.endswith('iterator const&)') or 'iterator<' in n[n.rindex('('):]: v = V.load(st, a[1], _FT('ptr', 8))
        V.store(st, a[0], v, _FT('ptr', 8))
@rx(r'std::_List_(const_)?iterator<.*>::operator\+\+\(\)')
def _(V, st, a, ins):
    p = V.load(st, a[0], _FT('ptr', 8)); V.store(st, a[0], Ptr(p.rid, p.off, p.idx + 1, p.stride), _FT('ptr', 8)); return a[0]
@rx(r'std::_List_(const_)?iterator<.*>::operator--\(\)')
def _(V, st, a, ins):
    p = V.load(st, a[0], _FT('ptr', 8)); V.store(st, a[0], Ptr(p.rid, p.off, p.idx - 1, p.stride), _FT('ptr', 8)); return a[0]
@rx(r'std::_List_(const_)?iterator<.*>::operator\+\+\(int\)')
def _(V, st, a, ins):
    p = V.load(st, a[0], _FT('ptr', 8)); V.store(st, a[0], Ptr(p.rid, p.off, p.idx + 1, p.stride), _FT('ptr', 8)); return p
@rx(r'std::_List_(const_)?iterator<.*>::operator(\*|->)\(\) const')
def _(V, st, a, ins): return V.load(st, a[0], _FT('ptr', 8))
@rx(r'(bool )?std::operator(==|!=)\(std::_List_')
def _(V, st, a, ins):
    p, q = V.load(st, a[0], _FT('ptr', 8)), V.load(st, a[1], _FT('ptr', 8))
    return V.ptrcmp(st, 'eq' if 'operator==' in calleename(V, ins) else 'ne', p, q)
@rx(r'std::_List_(const_)?iterator<.*>::operator(==|!=)\(')
def _(V, st, a, ins):
    p, q = V.load(st, a[0], _FT('ptr', 8)), V.load(st, a[1], _FT('ptr', 8))
    return V.ptrcmp(st, 'eq' if 'operator==' in calleename(V, ins) else 'ne', p, q)
# the logger: writes a message, touches nothing else
@rx(r'PSILogger::operator<<\(')
def _(V, st, a, ins): return a[0]
rx(r'PSILogger::(flush|~?PSILogger|setLogging\w+)\(')(_nop)
# back_insert_iterator<std::string>
@rx(r'std::back_insert_iterator<std::string>::operator=\(char')
def _(V, st, a, ins):
    s = V.load(st, a[0], _FT('ptr', 8))
    c = V.load(st, a[1], sym._FakeTy(8)) if isinstance(a[1], Ptr) else a[1]
    setstr(V, st, s, V.cat(getstr(V, st, s), V.unit(c))); return a[0]

def install(V):
    V.exact.update(EX); V.models.extend(RX)
    return V
