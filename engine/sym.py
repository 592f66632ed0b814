import os
"""Modular symbolic executor / verification-condition generator over LLVM IR.

* values: Python ints or z3 terms.  mode 'int': machine integers are z3 Int terms kept in
  canonical unsigned range [0,2^w) (wrap-around is modelled exactly); mode 'bv': z3 bit-vectors.
* memory: regions (one per object) with typed cells; library containers are abstract values.
* calls: contract summary -> library model -> inline the definition found in the loaded IR.
* loops: complete concrete unrolling when every exit test is decided, otherwise an inductive
  invariant (candidates from the contract + generic bounds, pruned Houdini-style), with havoc of
  every location the body writes.
"""
import z3, time, re, os, subprocess, tempfile, sys
import ir
sys.setrecursionlimit(20000)

MAXLEN = 1 << 62     # no std::string / container object is longer (max_size)
class Unsupported(Exception):
    pass
class NeedInvariant(Exception):
    pass

# ---------------------------------------------------------------- values
class Ptr:
    """rid + idx*stride + off.  rid None with off==0 is null."""
    __slots__ = ('rid', 'idx', 'stride', 'off')
    def __init__(self, rid, off=0, idx=0, stride=0):
        self.rid, self.off, self.idx, self.stride = rid, off, idx, stride
    def __repr__(self):
        return 'Ptr(%s,%s*%s+%s)' % (self.rid, self.idx, self.stride, self.off)
NULL = Ptr(None)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Fn(%s)' % self.name
class PtrInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
class Exc:
    """in-flight exception: typeinfo symbol, object pointer"""
    __slots__ = ('ti', 'obj')
    def __init__(self, ti, obj): self.ti, self.obj = ti, obj
    def __repr__(self): return 'Exc(%s)' % self.ti

class Abs:
    """base class of abstract library values stored in a cell (immutable)"""
    size = None
    def havoc(self, V, st, hint):
        raise Unsupported('havoc of %s' % type(self).__name__)
    def same(self, o):
        return self is o

def isz(x): return isinstance(x, z3.ExprRef)

def samev(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and a.stride == b.stride and samev(a.idx, b.idx) and samev(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
    if isz(a) and isz(b): return a.sort() == b.sort() and a.eq(b)
    if isinstance(a, Abs) and isinstance(b, Abs): return type(a) is type(b) and a.same(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(samev(x, y) for x, y in zip(a, b))
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): return samev(a.p, b.p)
    if isinstance(a, Exc) and isinstance(b, Exc): return a.ti == b.ti and samev(a.obj, b.obj)
    return False


class State:
    __slots__ = ('mem', 'pc', 'apc', 'ghost', 'trace')
    def __init__(self):
        self.mem = {}; self.pc = []; self.apc = []; self.ghost = {}; self.trace = ()
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = list(self.pc); s.apc = list(self.apc)
        s.ghost = dict(self.ghost); s.trace = self.trace
        return s
    def setcell(self, rid, off, val, size):
        r = dict(self.mem.get(rid) or {})
        r[off] = (val, size)
        self.mem[rid] = r
    def delcell(self, rid, off):
        r = dict(self.mem.get(rid) or {})
        r.pop(off, None)
        self.mem[rid] = r
    def cell(self, rid, off):
        r = self.mem.get(rid)
        return r.get(off) if r else None


class Oblig:
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'where', 'reason', 'smt')
    def __repr__(self): return '%s: %s (%s, %.2fs)' % (self.name, self.status, self.backend, self.time)


def norm(d):
    """normalise a demangled name"""
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('std::__cxx11::', 'std::').replace('[abi:cxx11]', '')
    d = d.replace('std::basic_string_view<char, std::char_traits<char> >', 'std::string_view')
    d = d.replace('std::basic_ostream<char, std::char_traits<char> >', 'std::ostream')
    d = d.replace('std::basic_istream<char, std::char_traits<char> >', 'std::istream')
    d = re.sub(r'std::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::stringstream', d)
    d = re.sub(r'std::basic_istringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::istringstream', d)
    d = re.sub(r'std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >', 'std::ostringstream', d)
    prev = None
    while prev != d:
        prev = d
        d = re.sub(r', std::allocator<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*> ?>', '>', d)
        d = re.sub(r'(std::(?:set|map)<.*?), std::less<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*> ?>', r'\1>', d)
    return d.replace('> >', '>>')


class Loop:
    """what a contract's invariant generator sees: the modified locations of one loop"""
    def __init__(self, V, fn, header, entry, mod):
        self.V, self.fn, self.header, self.entry, self.mod = V, fn, header, entry, mod


class Verifier:
    def __init__(self, mode='int', modules=(), timeout_ms=8000):
        self.mode = mode
        self.mods = list(modules)
        self.models = []          # (compiled regex, fn)
        self.exact = {}           # normalised demangled -> fn
        self.contracts = {}       # normalised name (without params) -> summary fn
        self.elemspecs = {}
        self.nfresh = 0
        self.obligs = []
        self.timeout = timeout_ms
        self.cand_gens = []       # contract-specific invariant generators
        self.axioms = []          # global facts
        self.functions = set()    # real functions symbolically executed
        self.modelled = set()     # library functions replaced by models
        self.summaries = set()    # calls resolved by contract
        self.loops_inv = []       # records about loops
        self.depth = 0
        self.maxdepth = 60
        self._abs = {}
        self._keep = []
        self._feas_cache = {}
        self.solver_time = 0.0
        self.safety = True
        self.unroll_limit = 300
        self.symbolic_unroll = 40
        self.rcount = 0
        self.paths = 0
        self.maxpaths = 4000
        self.deadline = None
        self.assume_nothrow_new = True
        self.findings = []
        self.curline = None
        self.quiet_obl = 0
        self.glob_cells = {}
        self.prefix = ''
        self.lenvals = []

    # ------------------------------------------------------------ names
    def find(self, pat, defined=True):
        """function whose normalised demangled name matches regex pat"""
        r = re.compile(pat)
        res = []
        for m in self.mods:
            for F in m.fns.values():
                if defined and F.isdecl: continue
                if r.match(norm(F.dem)) and F.name not in [x.name for x in res]:
                    res.append(F)
        if not res: raise Unsupported('function not found: ' + pat)
        return res[0]
    def findall(self, pat):
        r = re.compile(pat); res = {}
        for m in self.mods:
            for F in m.fns.values():
                if not F.isdecl and r.match(norm(F.dem)): res.setdefault(F.name, F)
        return list(res.values())
    def fnbyname(self, name):
        for m in self.mods:
            if name in m.aliases:
                name = m.aliases[name]
        for m in self.mods:
            F = m.fns.get(name)
            if F and not F.isdecl: return F
        for m in self.mods:
            F = m.fns.get(name)
            if F: return F
        return None

    # ------------------------------------------------------------ fresh things
    def fresh(self, hint, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (hint, self.nfresh), sort)
    def fresh_int(self, st, w, hint='v'):
        if w == 1: return self.fresh(hint, z3.BoolSort())
        if self.mode == 'bv': return self.fresh(hint, z3.BitVecSort(w))
        x = self.fresh(hint, z3.IntSort())
        self.assume(st, z3.And(x >= 0, x < (1 << w)))
        return x
    @property
    def esort(self):
        return z3.BitVecSort(8) if self.mode == 'bv' else z3.IntSort()
    @property
    def ssort(self):
        return z3.SeqSort(self.esort)
    def fresh_seq(self, hint='s', sort=None):
        return self.fresh(hint, z3.SeqSort(sort) if sort is not None else self.ssort)
    def region(self, st, hint='r', cells=None):
        self.rcount += 1
        rid = ('r', self.rcount, hint)
        st.mem[rid] = {}
        for off, (v, s) in (cells or {}).items():
            st.setcell(rid, off, v, s)
        return Ptr(rid)
    # sequences
    def unit(self, x):
        if isinstance(x, int):
            x = z3.BitVecVal(x, 8) if self.mode == 'bv' else z3.IntVal(x)
        return z3.Unit(x)
    def lit(self, bs):
        if isinstance(bs, str): bs = bs.encode('utf8')
        if len(bs) == 0: return z3.Empty(self.ssort)
        us = [self.unit(b) for b in bs]
        return us[0] if len(us) == 1 else z3.Concat(*us)
    def cat(self, *xs):
        out = []
        for x in xs:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY: continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                out.extend(self._flat(x))
            else: out.append(x)
        if not out: return xs[0]
        return out[0] if len(out) == 1 else z3.Concat(*out)
    def _flat(self, x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            r = []
            for c in x.children(): r += self._flat(c)
            return r
        return [x]
    def slen(self, s):
        """length term, folded for literals"""
        n = 0; sym = []
        for p in self._flat(s):
            k = p.decl().kind() if z3.is_app(p) else None
            if k == z3.Z3_OP_SEQ_UNIT: n += 1
            elif k == z3.Z3_OP_SEQ_EMPTY: pass
            else: sym.append(z3.Length(p))
        if not sym: return n
        r = sym[0]
        for x in sym[1:]: r = r + x
        return r + n if n else r
    def nth(self, st, s, i, rng=True):
        """element i (z3 or int) of sequence s, folded when s is a literal"""
        parts = self._flat(s)
        if isinstance(i, int):
            pos = 0
            for p in parts:
                k = p.decl().kind() if z3.is_app(p) else None
                if k == z3.Z3_OP_SEQ_UNIT:
                    if pos == i:
                        return self.py(p.children()[0])
                    pos += 1
                elif k == z3.Z3_OP_SEQ_EMPTY: pass
                else: break
        e = s[i if isz(i) else z3.IntVal(i)]
        if self.mode == 'int' and s.sort().basis() == z3.IntSort() and rng and st is not None:
            self.assume(st, z3.And(e >= 0, e < 256))
        return e
    def py(self, e):
        """z3 literal -> python value"""
        if not isz(e): return e
        if z3.is_int_value(e): return e.as_long()
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return e

    # ------------------------------------------------------------ solver
    def assume(self, st, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        f2 = z3.simplify(f) if False else f
        if z3.is_true(f2): return
        st.pc.append(f2)
        a = self.arith(f2)
        if a is not None: st.apc.append(a)

    def arith(self, e):
        """abstraction of e where non-arithmetic terms become opaque constants"""
        return self._ar(e)
    def _ar(self, e):
        k = e.get_id()
        c = self._abs.get(k)
        if c is not None: return c[1]
        r = None
        s = e.sort()
        if z3.is_quantifier(e): r = self.fresh('qb', z3.BoolSort())
        elif z3.is_app(e):
            d = e.decl().kind()
            ch = e.children()
            ok = d in _ARITH_OPS
            if ok and d in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and ch and not (z3.is_arith(ch[0]) or z3.is_bool(ch[0]) or z3.is_bv(ch[0])):
                ok = False
            if ok and d == z3.Z3_OP_ITE and not (z3.is_arith(e) or z3.is_bool(e) or z3.is_bv(e)):
                ok = False
            if ok:
                if not ch: r = e
                else:
                    n = [self._ar(x) for x in ch]
                    r = e.decl()(*n) if not _NARY.get(d) else _NARY[d](n)
            elif d == z3.Z3_OP_UNINTERPRETED and not ch:
                r = e
            elif z3.is_bool(e): r = self.fresh('ab', z3.BoolSort())
            elif z3.is_int(e):
                r = self.fresh('ai', z3.IntSort())
                if d == z3.Z3_OP_SEQ_LENGTH:
                    self._lenfacts.append(z3.And(r >= 0, r < MAXLEN))
            elif z3.is_bv(e): r = self.fresh('av', e.sort())
            else: r = self.fresh('au', e.sort())
        else: r = e
        self._abs[k] = (e, r)
        return r
    _lenfacts = []

    def _quick(self, st, extra):
        """'unsat' if pc & extra is infeasible in the arithmetic abstraction, else 'sat?'"""
        if extra is False: return 'unsat'
        x = self.arith(extra) if isz(extra) else None
        s = z3.Solver(); s.set('timeout', 400)
        s.add(*st.apc)
        if x is not None: s.add(x)
        for f in self._lenfacts: s.add(f)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return 'unsat' if r == z3.unsat else 'sat?'
    def feasible(self, st, cond):
        if cond is True: return True
        if cond is False: return False
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget for this unit exhausted')
        return self._quick(st, cond) != 'unsat'
    def entails_quick(self, st, f):
        if f is True: return True
        if f is False: return False
        return self._quick(st, z3.Not(f)) == 'unsat'

    def solve(self, hyps, goal, timeout=None, want_model=True):
        """is goal valid under hyps? -> (status, model, backend, secs)"""
        timeout = timeout or self.timeout
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', timeout)
        s.add(*self.axioms); s.add(*hyps); s.add(z3.Not(goal))
        r = s.check()
        dt = time.time() - t0
        self.solver_time += dt
        if r == z3.unsat: return 'proved', None, 'z3', dt
        if r == z3.sat: return 'failed', s.model(), 'z3', dt
        st2 = cvc5_check(s, max(4, timeout // 1000)) if want_model or not getattr(self, 'own_cands', False) else 'unknown'
        dt = time.time() - t0
        if st2 == 'unsat': return 'proved', None, 'cvc5', dt
        if st2 == 'sat': return 'failed', None, 'cvc5', dt
        return 'unknown', None, 'z3+cvc5', dt

    def oblige(self, st, goal, name, assume=True, where=None):
        """generate and discharge one obligation in state st"""
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        nm = self.prefix + name
        o = Oblig(); o.name = nm; o.where = where or self.curline; o.model = None; o.reason = ''; o.smt = None
        g = z3.simplify(goal)
        if z3.is_true(g):
            o.status, o.time, o.backend = 'proved', 0.0, 'simplifier'
        elif self.entails_quick(st, goal):
            o.status, o.time, o.backend = 'proved', 0.0, 'z3-arith'
        else:
            o.status, m, o.backend, o.time = self.solve(st.pc, goal)
            if m is not None:
                o.model = m
            if o.status != 'proved':
                o.smt = (list(st.pc), goal)
                self.cexmodel(st, goal)
        if self.quiet_obl == 0:
            self.obligs.append(o)
        if assume and o.status != 'proved': self.assume(st, goal)
        elif assume and isz(goal) and not z3.is_true(g): self.assume(st, goal)
        return o

    # ------------------------------------------------------------ integer ops
    def tosigned(self, st, x, w):
        if isinstance(x, bool): return -1 if x else 0
        if isinstance(x, int): return x - (1 << w) if x >= 1 << (w - 1) else x
        if z3.is_bool(x): return z3.If(x, z3.IntVal(-1), z3.IntVal(0))
        h = 1 << (w - 1)
        if self.entails_quick(st, x < h): return x
        return z3.If(x >= h, x - (1 << w), x)
    def wrapu(self, st, x, w):
        """reduce arbitrary int term to [0,2^w)"""
        M = 1 << w
        if isinstance(x, int): return x % M
        if self.entails_quick(st, z3.And(x >= 0, x < M)): return x
        if self.entails_quick(st, z3.And(x >= -M, x < 2 * M)):
            return z3.If(x >= M, x - M, z3.If(x < 0, x + M, x))
        return x % M
    def b2i(self, x, w=None):
        if isinstance(x, bool): return int(x)
        if isz(x) and z3.is_bool(x):
            if self.mode == 'bv' and w: return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    def bvv(self, x, w):
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int): return z3.BitVecVal(x, w)
        if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_int(x): return z3.Int2BV(x, w)
        return x
    def binop(self, st, ins, a, b, w):
        op = ins.op
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptrdiff(st, a.p, b.p)
            raise Unsupported('arithmetic on pointer integers')
        if a is UNDEF or b is UNDEF:
            return self.fresh_int(st, w, 'undef')
        if w == 1:
            za = a if isz(a) else z3.BoolVal(bool(a)); zb = b if isz(b) else z3.BoolVal(bool(b))
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}.get(op)
            if r is None: raise Unsupported('i1 ' + op)
            return self.py(z3.simplify(r(za, zb)))
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            sa = a - M if a >= M // 2 else a; sb = b - M if b >= M // 2 else b
            if op == 'add': return (a + b) % M
            if op == 'sub': return (a - b) % M
            if op == 'mul': return (a * b) % M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) % M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sa >> b) % M
            if op == 'udiv' and b: return a // b
            if op == 'urem' and b: return a % b
            if op == 'sdiv' and sb: return int(abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) % M
            if op == 'srem' and sb: return int(abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) % M
        if self.mode == 'bv' or (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
            A, B = self.bvv(a, w), self.bvv(b, w)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.oblige(st, B != 0, 'no division by zero')
            f = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
                 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
                 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]
            r = f()
            if ins.x and isinstance(ins.x, tuple) and ins.x[0] and op in ('add', 'sub', 'mul') and self.safety:
                if op == 'add': c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                else: c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                self.oblige(st, c, 'no signed overflow')
            return self.py(z3.simplify(r))
        nsw = isinstance(ins.x, tuple) and len(ins.x) == 2 and ins.x[0] is True
        if op in ('add', 'sub', 'mul'):
            if nsw and self.safety:
                sa, sb = self.tosigned(st, a, w), self.tosigned(st, b, w)
                r = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
                self.oblige(st, z3.And(r >= -(M // 2), r < M // 2), 'no signed overflow')
                return self.wrapu(st, r, w)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            return self.wrapu(st, r, w)
        if op in ('udiv', 'urem'):
            if isz(b): self.oblige(st, b != 0, 'no division by zero')
            elif b == 0: self.oblige(st, False, 'no division by zero')
            a = a if isz(a) else z3.IntVal(a)
            return a / b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem'):
            if isz(b): self.oblige(st, b != 0, 'no division by zero')
            sa, sb = self.tosigned(st, a, w), self.tosigned(st, b, w)
            if isinstance(sb, int) and sb > 0:
                sa = sa if isz(sa) else z3.IntVal(sa)
                q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                if self.entails_quick(st, sa >= 0): q = sa / sb
                return self.wrapu(st, q if op == 'sdiv' else sa - q * sb, w)
            raise Unsupported('symbolic sdiv')
        if op == 'shl' and isinstance(b, int):
            return self.wrapu(st, a * (1 << b), w)
        if op == 'lshr' and isinstance(b, int):
            return a / (1 << b)
        if op == 'ashr' and isinstance(b, int):
            return self.wrapu(st, self.tosigned(st, a, w) / (1 << b), w)
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b == 0: return 0
                if b == M - 1: return a
                if b & (b + 1) == 0: return a % (b + 1)
                lo = (b & -b)
                if (b // lo) & (b // lo + 1) == 0:   # contiguous mask
                    return (a / lo) % (b // lo + 1) * lo
        if op == 'or' and isinstance(b, int) and b == 0: return a
        if op == 'or' and isinstance(a, int) and a == 0: return b
        if op == 'xor' and isinstance(b, int) and b == M - 1: return (M - 1) - a
        A, B = z3.Int2BV(a if isz(a) else z3.IntVal(a), w), z3.Int2BV(b if isz(b) else z3.IntVal(b), w)
        f = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]
        r = z3.BV2Int(f())
        self.assume(st, z3.And(r >= 0, r < M))
        return r

    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF: return self.fresh('undefcmp', z3.BoolSort())
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): a, b = a.p, b.p
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptrcmp(st, pred, a, b)
        w = ty.width
        if w == 1:
            za = a if isz(a) else z3.BoolVal(bool(a)); zb = b if isz(b) else z3.BoolVal(bool(b))
            if pred == 'eq': return self.py(z3.simplify(za == zb))
            if pred == 'ne': return self.py(z3.simplify(z3.Xor(za, zb)))
            raise Unsupported('i1 cmp')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt): raise Unsupported('cmp ptrint with int')
        if (self.mode == 'bv' and (isz(a) or isz(b))) or (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
            A, B = self.bvv(a, w), self.bvv(b, w)
            r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
                 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
            return self.py(z3.simplify(r))
        if pred[0] == 's' :
            a, b = self.tosigned(st, a, w), self.tosigned(st, b, w); p = pred[1:]
        elif pred[0] == 'u': p = pred[1:]
        else: p = pred
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b}[p]()
        if isz(r):
            return self.py(z3.simplify(r))
        return r
    def addr(self, p):
        a = p.off
        if not (isinstance(p.idx, int) and p.idx == 0):
            a = p.idx * p.stride + a
        return a
    def ptrcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if pred == 'eq' else not e
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if a.rid == b.rid:
            if a.stride == b.stride and samev(a.off, b.off):
                x, y = a.idx, b.idx
            else: x, y = self.addr(a), self.addr(b)
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[pred.lstrip('us') if pred not in ('eq', 'ne') else pred]()
            return self.py(z3.simplify(r)) if isz(r) else r
        if pred == 'eq': return False
        if pred == 'ne': return True
        raise Unsupported('ordering of unrelated pointers')
    def ptrdiff(self, st, a, b):
        if a.rid != b.rid: raise Unsupported('difference of unrelated pointers')
        if a.stride == b.stride and samev(a.off, b.off):
            d = (a.idx - b.idx)
            d = d * a.stride if a.stride != 1 else d
        else: d = self.addr(a) - self.addr(b)
        return self.wrapu(st, d, 64) if self.mode == 'int' else (d % (1 << 64) if isinstance(d, int) else d)

    # ------------------------------------------------------------ memory
    def gep(self, st, base, const, dyn):
        """dyn: list of (value, stride, width)"""
        if isinstance(base, FnPtr): raise Unsupported('gep on fn')
        idx, stride, off = base.idx, base.stride, base.off
        for v, s, w in dyn:
            if isinstance(v, int):
                sv = v - (1 << w) if v >= 1 << (w - 1) else v
                off = off + sv * s
                continue
            if self.mode == 'bv':
                v = z3.BV2Int(v, is_signed=True) if False else z3.BV2Int(v)   # unsigned index
                v2 = v
            else:
                v2 = self.tosigned(st, v, w)
            if stride == 0 or (isinstance(idx, int) and idx == 0):
                idx, stride = v2, s
            elif stride == s: idx = idx + v2
            elif s % stride == 0: idx = idx + v2 * (s // stride)
            else: raise Unsupported('mixed strides in gep')
        off = off + const
        if stride and isinstance(off, int) and not isinstance(idx, int):
            q, r = divmod(off, stride)
            if q and (off < 0 or off >= stride):
                idx = idx + q; off = r
        elif base.rid and base.rid[0] == 'd' and isinstance(off, int):
            # data region with concrete position: normalise to idx/stride of the element
            es = self.elemsize(st, base.rid)
            if es:
                if stride in (0, es):
                    q, r = divmod(off, es)
                    idx = (idx if stride else 0) + q; stride = es; off = r
        if isz(idx): idx = self.py(z3.simplify(idx))
        return Ptr(base.rid, off, idx, stride)
    def elemsize(self, st, rid):
        c = self.container(st, rid)
        return getattr(c, 'esize', None)
    def container(self, st, rid):
        """abstract container behind a data region id ('d', ownerRid, ownerOff[, idx])"""
        owner = rid[1]
        a = self.read_abs(st, owner)
        return a
    # owner pointers in data region ids are hashable tuples (rid, off, idx-id, stride)
    def dataptr(self, p, idx=0, esize=1):
        return Ptr(('d', HP(p)), 0, idx, esize)

    def lookup_global(self, st, rid):
        """materialise a global's region"""
        return

    def load(self, st, p, ty, ins=None):
        if p is UNDEF: raise Unsupported('load through undef pointer')
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        if p.rid is None:
            self.oblige(st, False, 'no null dereference'); raise Dead()
        k = p.rid[0]
        if k == 'd':
            return self.load_data(st, p, ty)
        if k == 'g' and p.rid not in st.mem:
            return self.load_global(st, p, ty)
        if not isinstance(p.off, int) or not (isinstance(p.idx, int)):
            return self.load_array(st, p, ty)
        off = p.off + (p.idx * p.stride if p.idx else 0)
        if getattr(ty, 'kind', '') == 'struct' and len(ty.mod.fields(ty)) > 1:
            return [self.load(st, Ptr(p.rid, off + fo), ft) for fo, ft in ty.mod.fields(ty)]
        c = st.cell(p.rid, off)
        if c is None:
            # overlapping wider cell?
            r = st.mem.get(p.rid, {})
            arr = r.get('arr')
            if arr is not None:
                return self.load_array(st, Ptr(p.rid, 0, off // arr[1], arr[1]), ty)
            v = self.load_partial(st, r, off, ty)
            if v is not None: return v
            if p.rid[0] == 'g': return self.load_global(st, p, ty)
            return self.load_uninit(st, p, off, ty)
        v, sz = c
        if isinstance(v, Abs):
            if ty.size == sz or v.size == 0: pass
            raise Unsupported('raw load from abstract %s at %s' % (type(v).__name__, p.rid,))
        if ty.kind == 'int' and (ty.width + 7) // 8 != sz:
            return self.convert_cell(st, st.mem[p.rid], off, ty)
        if ty.kind == 'int' and ty.width != 1 and isinstance(v, (bool, z3.BoolRef)):
            return self.b2i(v, ty.width)
        if ty.kind == 'int' and ty.width == 1 and not isinstance(v, (bool, z3.BoolRef)):
            return self.py(z3.simplify(v != 0)) if isz(v) else bool(v)
        if ty.kind == 'int' and isinstance(v, Ptr):
            return PtrInt(v)
        if ty.kind == 'ptr' and isinstance(v, PtrInt): return v.p
        if ty.kind == 'ptr' and isinstance(v, int) and v == 0: return NULL
        return v
    def load_partial(self, st, r, off, ty):
        if ty.kind in ('struct', 'array'):
            return None
        return self.convert_cell(st, r, off, ty, soft=True)
    def convert_cell(self, st, r, off, ty, soft=False):
        """read `ty` at off by assembling/splitting integer cells (little endian)"""
        if ty.kind != 'int':
            if soft: return None
            raise Unsupported('partial load of %s' % ty)
        n = (ty.width + 7) // 8
        parts = []
        o = off
        while o < off + n:
            found = None
            for co, cv in r.items():
                if isinstance(co, int) and co <= o < co + cv[1]:
                    found = (co, cv); break
            if found is None:
                if soft: return None
                raise Unsupported('partial load of uninitialised bytes')
            co, (v, sz) = found
            if isinstance(v, (Abs, Ptr, PtrInt, Undef, FnPtr)):
                if soft: return None
                raise Unsupported('partial load over %r' % (v,))
            take = min(co + sz, off + n) - o
            parts.append((o - off, v, sz, o - co, take)); o += take
        if self.mode == 'bv':
            t = []
            for (po, v, sz, inner, take) in parts:
                b = self.bvv(v, sz * 8)
                t.append(z3.Extract((inner + take) * 8 - 1, inner * 8, b))
            e = t[0] if len(t) == 1 else z3.Concat(*t[::-1])
            return self.py(z3.simplify(e))
        tot = 0
        for (po, v, sz, inner, take) in parts:
            v = self.b2i(v)
            x = v
            if inner: x = x // (1 << (8 * inner)) if isinstance(x, int) else x / (1 << (8 * inner))
            if inner + take < sz: x = x % (1 << (8 * take))
            tot = tot + x * (1 << (8 * po)) if po else (x if isinstance(tot, int) and tot == 0 else tot + x)
        return tot
    def load_uninit(self, st, p, off, ty):
        if ty.kind == 'int':
            v = self.fresh_int(st, ty.width, 'uninit')
            st.setcell(p.rid, off, v, max(1, (ty.width + 7) // 8))
            return v
        if ty.kind == 'ptr':
            if p.rid[0] == 'r' and p.rid[2].startswith('lazy'):
                q = self.region(st, 'lazy')
                st.setcell(p.rid, off, q, 8)
                return q
            return UNDEF
        if ty.kind in ('double', 'float'):
            return UNDEF
        if ty.kind == 'struct':
            out = []
            for fo, ft in ft_list(ty):
                out.append(self.load(st, Ptr(p.rid, off + fo), ft))
            return out
        raise Unsupported('load of uninitialised %s' % ty)
    def load_global(self, st, p, ty):
        name = p.rid[1]
        for m in self.mods:
            if name in m.globs:
                gi = m.ginit(name)
                if gi[0]: break
        else:
            raise Unsupported('external global ' + name)
        init, gty, isconst = gi
        if not init: raise Unsupported('external global ' + name)
        if not isconst and not getattr(self, 'globals_at_init', False) and not name.startswith(('.str', '__const', 'switch.')):
            # mutable global: unknown unless dynamic-initialised support knows it
            v = self.global_hook(st, p, ty, m, name)
            if v is not None: return v
        if isinstance(p.idx, int) and isinstance(p.off, int):
            off = p.off + p.idx * p.stride
            if off < 0 or off + ty.size > gty.size:
                self.oblige(st, False, 'global access in bounds'); raise Dead()
            c = m.const_at(init, gty, off, ty.size)
            return self.constval(st, m, c, ty)
        # symbolic index into a constant table
        es = p.stride
        n = gty.size // es
        self.oblige(st, self.inrange(p.idx, n), 'table index in bounds')
        vals = []
        for j in range(n):
            vals.append(self.constval(st, m, m.const_at(init, gty, j * es + p.off, ty.size), ty))
        return self.table(st, vals, p.idx, ty)
    def inrange(self, i, n):
        return z3.And(i >= 0, i < n)
    def table(self, st, vals, idx, ty):
        if any(not isinstance(v, (int, bool)) for v in vals): raise Unsupported('table of non-integers')
        key = ('tab', tuple(vals), ty.width)
        if self.mode == 'bv':
            r = z3.BitVecVal(vals[-1], ty.width)
            mk = lambda v: z3.BitVecVal(v, ty.width)
        else:
            mk = lambda v: z3.IntVal(v)
        # group runs
        r = mk(vals[-1])
        for j in range(len(vals) - 2, -1, -1):
            r = z3.If(idx == j, mk(vals[j]), r)
        return r
    def global_hook(self, st, p, ty, m, name):
        return None
    def constval(self, st, m, c, ty):
        if c is None: raise Unsupported('constant decode')
        if c[0] == 'c':
            if ty.kind == 'int':
                v = c[1] % (1 << ty.width)
                return bool(v) if ty.width == 1 else v
            if ty.kind == 'ptr' and c[1] == 0: return NULL
            if ty.kind in ('double', 'float'): return 0
            raise Unsupported('const of %s' % ty)
        return self.operand(st, None, {}, None, c, m)
    def load_array(self, st, p, ty):
        r = st.mem.get(p.rid, {})
        arr = r.get('arr')
        if arr is None:
            raise Unsupported('symbolic index into region %s' % (p.rid,))
        seqv, es = arr[0], arr[1]
        if ty.size != es or p.stride != es or not (isinstance(p.off, int) and p.off == 0): raise Unsupported('array access shape')
        n = arr[2]
        self.oblige(st, self.inrange(p.idx, n) if isz(p.idx) or isz(n) else (0 <= p.idx < n), 'array index in bounds')
        v = z3.Select(seqv, self.ival(p.idx))
        if self.mode == 'int': self.assume(st, z3.And(v >= 0, v < (1 << (8 * es))))
        return v
    def ival(self, i): return i if isz(i) else z3.IntVal(i)

    def store(self, st, p, v, ty):
        if p is UNDEF: raise Unsupported('store through undef pointer')
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        if p.rid is None:
            self.oblige(st, False, 'no null dereference'); raise Dead()
        if p.rid[0] == 'd': return self.store_data(st, p, v, ty)
        if not isinstance(p.off, int) or not isinstance(p.idx, int):
            r = st.mem.get(p.rid, {}); arr = r.get('arr')
            if arr is None or arr[1] != ty.size: raise Unsupported('symbolic store')
            n = arr[2]
            self.oblige(st, self.inrange(p.idx, n), 'array store in bounds')
            r2 = dict(r); r2['arr'] = (z3.Store(arr[0], self.ival(p.idx), v if isz(v) else (z3.BitVecVal(v, 8 * ty.size) if self.mode == 'bv' else z3.IntVal(v))), arr[1], arr[2])
            st.mem[p.rid] = r2
            return
        off = p.off + p.idx * p.stride
        r = st.mem.get(p.rid)
        if r and r.get('arr') is not None:
            arr = r['arr']
            if off % arr[1] == 0 and arr[1] == ty.size:
                ok = self.inrange(self.ival(off // arr[1]), arr[2]) if isz(arr[2]) else off // arr[1] < arr[2]
                self.oblige(st, ok, 'array store in bounds')
                r2 = dict(r); r2['arr'] = (z3.Store(arr[0], z3.IntVal(off // arr[1]), v if isz(v) else (z3.BitVecVal(v, 8 * ty.size) if self.mode == 'bv' else z3.IntVal(v))), arr[1], arr[2])
                st.mem[p.rid] = r2
                return
        if isinstance(v, list):
            fs = ty.mod.fields(ty)
            for (fo, ft), x in zip(fs, v):
                if x is not UNDEF: self.store(st, Ptr(p.rid, off + fo), x, ft)
            return
        size = max(1, ty.size)
        if r:
            for co in [co for co in r if isinstance(co, int) and co != off and co < off + size and off < co + r[co][1]]:
                cv, cs = r[co]
                if isinstance(cv, Abs): raise Unsupported('raw store over abstract value')
                # split remaining bytes of a partially overwritten integer cell
                if isinstance(cv, (Ptr, PtrInt, FnPtr, Undef)): st.delcell(p.rid, co); continue
                st.delcell(p.rid, co)
                for b in range(co, co + cs):
                    if not (off <= b < off + size):
                        bt = _FakeTy(8)
                        st.setcell(p.rid, b, self.convert_cell(st, {co: (cv, cs)}, b, bt), 1)
            c = r.get(off)
            if c is not None and isinstance(c[0], Abs): raise Unsupported('raw store over abstract %s' % type(c[0]).__name__)
            if c is not None and c[1] > size and not isinstance(c[0], (Ptr, PtrInt, FnPtr, Undef)):
                cv, cs = c
                for b in range(off + size, off + cs):
                    st.setcell(p.rid, b, self.convert_cell(st, {off: (cv, cs)}, b, _FakeTy(8)), 1)
        st.setcell(p.rid, off, v, size)

    # abstract values
    def read_abs(self, st, p, cls=None, default=None):
        if isinstance(p, HP): p = p.p
        if p is UNDEF or not isinstance(p, Ptr): raise Unsupported('abstract read through %r' % (p,))
        if p.rid is None:
            self.oblige(st, False, 'no null dereference'); raise Dead()
        if p.rid[0] == 'd':
            c = self.container(st, p.rid)
            v = c.elem_abs(self, st, p.idx, p.off)
        else:
            off = self.coff(p)
            c = st.cell(p.rid, off)
            if c is None and p.rid[0] == 'g':
                v = self.global_abs(st, p, cls)
            else: v = c[0] if c else None
        if v is None and default is not None:
            v = default(); self.write_abs(st, p, v)
        if cls is not None and not isinstance(v, cls):
            raise Unsupported('expected %s at %r, found %r' % (cls.__name__, p, v))
        return v
    def coff(self, p):
        if isinstance(p.off, int) and isinstance(p.idx, int): return p.off + p.idx * p.stride
        raise Unsupported('symbolic address of abstract value')
    def global_abs(self, st, p, cls):
        """run the dynamic initialiser of global p"""
        name = p.rid[1]
        for m in self.mods:
            if name in m.globs and m.ginit(name)[0]:
                for F in m.fns.values():
                    if F.name.startswith('__cxx_global_var_init') and not F.isdecl:
                        if F.name not in self._ginit_cache:
                            refs = set()
                            for B in F.blocks:
                                for i in B.instrs:
                                    for o in i.ops:
                                        if o[0] == 'g': refs.add(o[1])
                                    if i.op in ('call', 'invoke') and i.ops and i.ops[0][0] == 'g': refs.add(i.ops[0][1])
                            self._ginit_cache[F.name] = refs
                        if name in self._ginit_cache[F.name]:
                            outs = [o for o in self.exec_function(F, [], st.fork()) if o[0] == 'ret']
                            if len(outs) == 1:
                                s2 = outs[0][1]
                                c = s2.cell(p.rid, self.coff(p))
                                if c:
                                    st.mem[p.rid] = s2.mem[p.rid]
                                    return c[0]
        raise Unsupported('global object ' + name)
    _ginit_cache = {}
    def write_abs(self, st, p, v):
        if isinstance(p, HP): p = p.p
        if p.rid is None:
            self.oblige(st, False, 'no null dereference'); raise Dead()
        if p.rid[0] == 'd':
            c = self.container(st, p.rid)
            self.write_abs(st, p.rid[1], c.set_elem_abs(self, st, p.idx, p.off, v)); return
        off = self.coff(p)
        r = dict(st.mem.get(p.rid) or {})
        sz = v.size or 1
        for co in [co for co in r if isinstance(co, int) and off < co < off + sz]: r.pop(co)
        r[off] = (v, sz)
        st.mem[p.rid] = r
    def load_data(self, st, p, ty):
        c = self.container(st, p.rid)
        return c.load(self, st, p, ty)
    def store_data(self, st, p, v, ty):
        c = self.container(st, p.rid)
        self.write_abs(st, p.rid[1], c.store(self, st, p, v, ty))

    def memcpy(self, st, d, s, n):
        if getattr(self, 'heap', None) and self.heap['cpy'](st, d, s, n): return
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
        if n == 0: return
        if s.rid and s.rid[0] == 'd':
            c = self.container(st, s.rid)
            es = c.esize
            if d.rid[0] == 'd': raise Unsupported('memcpy data->data')
            cells = c.elem_cells(self, st, s.idx, s.off, n)
            for o, (v, sz) in cells.items():
                st.setcell(d.rid, self.coff(d) + o, v, sz)
            return
        if d.rid and d.rid[0] == 'd':
            so = self.coff(s)
            cells = {o - so: c for o, c in st.mem.get(s.rid, {}).items() if isinstance(o, int) and so <= o < so + n}
            c = self.container(st, d.rid)
            self.write_abs(st, d.rid[1], c.set_elem_cells(self, st, d.idx, d.off, cells)); return
        if s.rid and s.rid[0] == 'g' and s.rid not in st.mem:
            self.materialise(st, s.rid)
        so, do = self.coff(s), self.coff(d)
        src = st.mem.get(s.rid, {})
        dst = dict(st.mem.get(d.rid) or {})
        for o in [o for o in dst if isinstance(o, int) and do <= o < do + n]: dst.pop(o)
        for o, (v, sz) in [(o, c) for o, c in src.items() if isinstance(o, int)]:
            if so <= o and o + sz <= so + n: dst[do + o - so] = (v, sz)
            elif so <= o < so + n: raise Unsupported('memcpy splits a cell')
        st.mem[d.rid] = dst
    def materialise(self, st, rid):
        """expand a constant global into cells"""
        name = rid[1]
        for m in self.mods:
            if name in m.globs:
                init, ty, isconst = m.ginit(name)
                if init: break
        else: raise Unsupported('global ' + name)
        cells = {}
        def walk(t, off):
            if t.kind in ('struct', 'array'):
                for fo, ft in m.fields(t): walk(ft, off + fo)
            else:
                cells[off] = (self.constval(st, m, m.const_at(init, ty, off, t.size), t), max(1, t.size))
        walk(ty, 0)
        st.mem[rid] = cells

    # ------------------------------------------------------------ operands
    def operand(self, st, F, env, args, o, mod):
        k = o[0]
        if k == 'i':
            v = env.get(o[1])
            if v is None and o[1] not in env: raise Unsupported('undefined SSA value')
            return v
        if k == 'a': return args[o[1]]
        if k == 'c':
            if o[2] is not None and o[2].width == 1: return bool(o[1])
            return o[1]
        if k == 'null': return NULL
        if k == 'fn': return FnPtr(o[1])
        if k == 'g': return Ptr(('g', o[1]))
        if k == 'undef':
            return UNDEF
        if k == 'cgep':
            base = self.operand(st, F, env, args, o[2][0], mod)
            c, dyn = o[1]
            return self.gep(st, base, c, [(self.operand(st, F, env, args, o[2][j], mod), s, 64) for j, s in dyn])
        if k == 'zero':
            t = o[1]
            if t.kind == 'ptr': return NULL
            if t.kind == 'int': return 0
            return [self.operand(st, F, env, args, ('zero', ft), mod) for fo, ft in mod.fields(t)]
        if k == 'agg':
            t = o[2]
            return [self.constval(st, mod, mod.const_at(o[1], t, fo, ft.size), ft) for fo, ft in mod.fields(t)]
        if k == 'cf': return z3.RealVal(repr(o[1])) if o[1] == o[1] and abs(o[1]) != float('inf') else UNDEF
        if k == 'cexpr':
            if o[1] in ('bitcast', 'addrspacecast'): return self.operand(st, F, env, args, o[2][0], mod)
            if o[1] == 'ptrtoint': return PtrInt(self.operand(st, F, env, args, o[2][0], mod))
            if o[1] == 'inttoptr':
                v = self.operand(st, F, env, args, o[2][0], mod)
                if isinstance(v, PtrInt): return v.p
                return Ptr(('abs', v))
            raise Unsupported('const expr ' + o[1])
        raise Unsupported('operand %r' % (o,))

    # ------------------------------------------------------------ execution
    def exec_function(self, F, args, st):
        """-> list of ('ret', st, val) / ('throw', st, Exc)"""
        if self.depth > self.maxdepth: raise Unsupported('call depth')
        self.depth += 1
        try:
            if F.isdecl: raise Unsupported('no body for ' + norm(F.dem))
            self.functions.add(F.name)
            self._dem_cache[F.name] = norm(F.dem)
            outs = []
            F.blocks
            frame = {}
            self.run(F, [(0, None, dict(frame), st)], args, outs, None)
            # drop this frame's allocas
            for k, s, v in outs:
                for rid in [r for r in s.mem if r[0] == 'r' and r[2] == 'alloca' and len(r) > 3 and r[3] == self.depth]:
                    if not self._escapes(rid, v): del s.mem[rid]
            return outs
        finally:
            self.depth -= 1
    _dem_cache = {}
    def _escapes(self, rid, v):
        return isinstance(v, Ptr) and v.rid == rid
    def run(self, F, work, args, outs, within):
        """execute work items; `within`: (loop header, blocks, collected back-edge list, exits list)"""
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget for this unit exhausted')
            bi, prev, env, st = work.pop()
            if within is not None:
                hd, body, backs, exits, entered = within
                if bi == hd and prev is not None and entered.get(id(env)) is not True and prev in body:
                    backs.append((prev, env, st)); continue
                if bi not in body:
                    exits.append((bi, prev, env, st)); continue
            if bi in F.loops and not (within is not None and bi == within[0]):
                try:
                    self.do_loop(F, bi, prev, env, st, args, outs, work)
                except Dead:
                    pass
                continue
            try:
                self.exec_block(F, bi, prev, env, st, args, outs, work)
            except Dead:
                pass
            self.paths += 1
            if len(work) > self.maxpaths: raise Unsupported('too many paths')

    def exec_block(self, F, bi, prev, env, st, args, outs, work, start=0):
        B = F.blocks[bi]
        mod = F.mod
        O = lambda o: self.operand(st, F, env, args, o, mod)
        n = len(B.instrs)
        j = start
        # phis first, simultaneously
        if start == 0:
            newv = {}
            while j < n and B.instrs[j].op == 'phi':
                ins = B.instrs[j]
                for pb, o in ins.x:
                    if pb == prev:
                        newv[ins.id] = O(o); break
                else: raise Unsupported('phi without matching predecessor')
                j += 1
            if newv:
                env.update(newv)
        while j < n:
            ins = B.instrs[j]
            op = ins.op
            if ins.line: self.curline = (F.name, ins.line)
            if op == 'alloca':
                self.rcount += 1
                rid = ('r', self.rcount, 'alloca', self.depth)
                st.mem[rid] = {}
                env[ins.id] = Ptr(rid)
                t = ins.x
                if t.kind == 'array' and self.want_array(t):
                    self.init_array(st, rid, t)
            elif op == 'load':
                env[ins.id] = self.load(st, O(ins.ops[0]), ins.ty, ins)
            elif op == 'store':
                self.store(st, O(ins.ops[1]), O(ins.ops[0]), ins.x)
            elif op == 'getelementptr':
                c, dyn = ins.x
                base = O(ins.ops[0])
                if base is UNDEF: raise Unsupported('gep on undef pointer')
                if isinstance(base, Ptr) and base.rid is None and dyn == [] and c == 0: env[ins.id] = base
                else:
                    env[ins.id] = self.gep(st, base, c, [(O(ins.ops[k]), s, 64) for k, s in dyn])
            elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                env[ins.id] = self.binop(st, ins, O(ins.ops[0]), O(ins.ops[1]), ins.ty.width)
            elif op == 'icmp':
                env[ins.id] = self.icmp(st, ins.pred, O(ins.ops[0]), O(ins.ops[1]), ins.x)
            elif op in ('zext', 'sext', 'trunc'):
                env[ins.id] = self.conv(st, op, O(ins.ops[0]), ins.x.width, ins.ty.width)
            elif op == 'ptrtoint':
                v = O(ins.ops[0]); env[ins.id] = UNDEF if v is UNDEF else v.rid[1] if isinstance(v, Ptr) and isinstance(v.rid, tuple) and v.rid[0] == 'abs' and isinstance(v.off, int) and v.off == 0 and isinstance(v.idx, int) and v.idx == 0 and ins.ty.size == 8 else PtrInt(v)
            elif op == 'inttoptr':
                v = O(ins.ops[0])
                if isinstance(v, PtrInt): env[ins.id] = v.p
                elif isinstance(v, int) and v == 0: env[ins.id] = NULL
                else: env[ins.id] = Ptr(('abs', v))
            elif op in ('bitcast', 'freeze', 'addrspacecast'):
                env[ins.id] = O(ins.ops[0])
            elif op == 'select':
                c = O(ins.ops[0]); a = O(ins.ops[1]); b = O(ins.ops[2])
                if isinstance(c, bool): env[ins.id] = a if c else b
                elif ins.ty.kind == 'int':
                    w = ins.ty.width
                    if w == 1: za, zb = [x if isz(x) else z3.BoolVal(bool(x)) for x in (a, b)]
                    elif self.mode == 'bv': za, zb = self.bvv(a, w), self.bvv(b, w)
                    else: za, zb = self.ival(a), self.ival(b)
                    env[ins.id] = z3.If(c, za, zb)
                else:
                    # fork on pointer select
                    for cond, v in ((c, a), (z3.Not(c), b)):
                        if self.feasible(st, cond):
                            s2 = st.fork(); self.assume(s2, cond); e2 = dict(env); e2[ins.id] = v
                            self.exec_block(F, bi, prev, e2, s2, args, outs, work, j + 1)
                    return
            elif op == 'extractvalue':
                v = O(ins.ops[0])
                for k in ins.x:
                    if v is UNDEF: break
                    v = v[k]
                env[ins.id] = v
            elif op == 'insertvalue':
                v = O(ins.ops[0]); x = O(ins.ops[1])
                n_ = len(mod.fields(ins.ty))
                v = [UNDEF] * n_ if v is UNDEF else list(v)
                if len(ins.x) != 1: raise Unsupported('deep insertvalue')
                v[ins.x[0]] = x; env[ins.id] = v
            elif op == 'br':
                if not ins.ops:
                    work.append((ins.x[0], bi, env, st)); return
                c = O(ins.ops[0])
                if isz(c): c = self.py(z3.simplify(c))
                if c is UNDEF: c = self.fresh('undefbr', z3.BoolSort())
                if isinstance(c, (bool, int)):
                    work.append((ins.x[0] if c else ins.x[1], bi, env, st)); return
                self.branch(F, bi, env, st, [(c, ins.x[0]), (z3.Not(c), ins.x[1])], work); return
            elif op == 'switch':
                v = O(ins.ops[0]); dflt, cases = ins.x
                if isinstance(v, int):
                    for cv, tb in cases:
                        if cv == v: work.append((tb, bi, env, st)); return
                    work.append((dflt, bi, env, st)); return
                conds = []
                groups = {}
                for cv, tb in cases: groups.setdefault(tb, []).append(v == cv)
                for tb, cs in groups.items(): conds.append((z3.Or(*cs) if len(cs) > 1 else cs[0], tb))
                conds.append((z3.And(*[v != cv for cv, tb in cases]), dflt))
                self.branch(F, bi, env, st, conds, work); return
            elif op == 'ret':
                v = O(ins.ops[0]) if ins.ops else None
                outs.append(('ret', st, v)); return
            elif op == 'unreachable':
                return
            elif op == 'resume':
                v = O(ins.ops[0])
                outs.append(('throw', st, v[0])); return
            elif op == 'landingpad':
                clauses, cleanup = ins.x
                exc = env.get('exc')
                sel = 0
                for cl in clauses:
                    if cl[0] == 'null' or cl[0] == 'zero': sel = 1; break
                    if cl[0] == 'g' and self.catches(cl[1], exc.ti):
                        sel = self.tid(cl[1]); break
                env[ins.id] = [exc, sel]
            elif op in ('call', 'invoke'):
                callee = ins.x[0]
                a = [O(o) if o[0] != 'other' else None for o in ins.ops]
                if op == 'call':
                    r = self.call_fast(st, F, ins, callee, a)
                    if r is not _SLOW:
                        env[ins.id] = r; j += 1; continue
                cal = O(callee) if callee[0] != 'other' else None
                res = self.call(st, cal, a, ins, F)
                if op == 'call':
                    if len(res) == 1 and res[0][0] == 'ret':
                        st2 = res[0][1]
                        if st2 is not st:
                            st.mem, st.pc, st.apc, st.ghost = st2.mem, st2.pc, st2.apc, st2.ghost
                        env[ins.id] = res[0][2]
                    else:
                        for k, s2, v in res:
                            if k == 'throw': outs.append((k, s2, v))
                            else:
                                e2 = dict(env); e2[ins.id] = v
                                try: self.exec_block(F, bi, prev, e2, s2, args, outs, work, j + 1)
                                except Dead: pass
                        return
                else:
                    for k, s2, v in res:
                        e2 = dict(env)
                        if k == 'ret':
                            e2[ins.id] = v
                            work.append((ins.x[1], bi, e2, s2))
                        else:
                            e2['exc'] = v
                            work.append((ins.x[2], bi, e2, s2))
                    return
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
                env[ins.id] = self.fresh('flt', z3.RealSort())
            elif op in ('fptosi', 'fptoui'):
                env[ins.id] = self.fresh_int(st, ins.ty.width, 'f2i')
            elif op == 'fcmp':
                env[ins.id] = self.fcmp(st, ins, O(ins.ops[0]), O(ins.ops[1]))
            elif op in ('fence',): pass
            elif op in ('atomicrmw', 'cmpxchg'):
                raise Unsupported(op)
            else:
                raise Unsupported('instruction ' + op)
            j += 1

    def fcmp(self, st, ins, a, b):
        if isz(a) and isz(b) and a.sort() == z3.RealSort() and b.sort() == z3.RealSort():
            p = ins.pred
            d = {1: lambda: a == b, 2: lambda: a > b, 3: lambda: a >= b, 4: lambda: a < b, 5: lambda: a <= b, 6: lambda: a != b,
                 9: lambda: a == b, 10: lambda: a > b, 11: lambda: a >= b, 12: lambda: a < b, 13: lambda: a <= b, 14: lambda: a != b}
            if p in d: return d[p]()
        return self.fresh('fcmp', z3.BoolSort())
    def want_array(self, t): return False
    def init_array(self, st, rid, t): pass
    def branch(self, F, bi, env, st, conds, work):
        feas = [(c, tb) for c, tb in conds if self.feasible(st, c)]
        if len(feas) > 1 and self._noexit and self._noexit[-1] and F is self._noexit[-1][0]:
            body = self._noexit[-1][1]
            ins_ = [tb in body for c, tb in feas]
            if not all(ins_) and any(ins_):
                # a symbolic loop exit: unrolling is not complete
                self._noexit[-1][2][0] += 1
                if bi == self._noexit[-1][2][1] or self._noexit[-1][2][0] > self.symbolic_unroll: raise NeedInvariant()
        for c, tb in feas:
            s2 = st.fork() if len(feas) > 1 else st
            self.assume(s2, c)
            work.append((tb, bi, dict(env) if len(feas) > 1 else env, s2))
    _noexit = []

    def conv(self, st, op, v, fw, tw):
        if v is UNDEF: return UNDEF
        if isinstance(v, PtrInt): 
            if fw == tw: return v
            raise Unsupported('conv of pointer integer')
        if op == 'zext':
            if fw == 1: return self.b2i(v, tw)
            if isinstance(v, int): return v
            return z3.ZeroExt(tw - fw, v) if z3.is_bv(v) else v
        if op == 'sext':
            if fw == 1:
                if isinstance(v, bool): return (1 << tw) - 1 if v else 0
                return z3.If(v, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw)) if self.mode == 'bv' else z3.If(v, z3.IntVal((1 << tw) - 1), z3.IntVal(0))
            if isinstance(v, int): return v if v < 1 << (fw - 1) else v + (1 << tw) - (1 << fw)
            if z3.is_bv(v): return z3.SignExt(tw - fw, v)
            if self.entails_quick(st, v < (1 << (fw - 1))): return v
            return z3.If(v < (1 << (fw - 1)), v, v + ((1 << tw) - (1 << fw)))
        # trunc
        if tw == 1:
            if isinstance(v, int): return bool(v & 1)
            if z3.is_bool(v): return v
            if z3.is_bv(v): return z3.Extract(0, 0, v) == 1
            # ite(c,1,0) pattern
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and self.py(v.children()[1]) == 1 and self.py(v.children()[2]) == 0:
                return v.children()[0]
            return v % 2 == 1
        if isinstance(v, int): return v % (1 << tw)
        if z3.is_bv(v): return self.py(z3.simplify(z3.Extract(tw - 1, 0, v)))
        return self.wrapu(st, v, tw)

    # ------------------------------------------------------------ exceptions
    def tid(self, ti):
        if ti not in self._tids: self._tids[ti] = 2 + len(self._tids)
        return self._tids[ti]
    _tids = {}
    STDBASES = {'_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
                '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt8bad_cast': ['_ZTISt9exception']}
    def bases(self, ti):
        if ti in self.STDBASES: return self.STDBASES[ti]
        for m in self.mods:
            gi = m.ginit(ti) if ti in m.globs else None
            if gi and gi[0]:
                s = ir.L.LLVMPrintValueToString(gi[0]).decode()
                return re.findall(r'@(_ZTI\w+)', s)
        return []
    def catches(self, clause, ti):
        if clause == ti: return True
        return any(self.catches(clause, b) for b in self.bases(ti))

    # ------------------------------------------------------------ calls
    def call_fast(self, st, F, ins, callee, a):
        if callee[0] != 'fn': return _SLOW
        n = callee[1]
        if n.startswith('llvm.'):
            if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n.startswith('llvm.stack') or n.startswith('llvm.assume') or n.startswith('llvm.experimental') or n.startswith('llvm.va_'):
                return None
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                self.memcpy(st, a[0], a[1], a[2]); return None
            if n.startswith('llvm.memset'):
                self.memset(st, a[0], a[1], a[2]); return None
            if n == 'llvm.eh.typeid.for' or n.startswith('llvm.eh.typeid.for'):
                return self.tid(a[0].rid[1])
            if n == 'llvm.trap': raise Dead()
            m = re.match(r'llvm\.(u|s)(max|min)\.i(\d+)', n)
            if m:
                w = int(m.group(3))
                c = self.icmp(st, ('u' if m.group(1) == 'u' else 's') + 'gt', a[0], a[1], _FakeTy(w))
                x, y = (a[0], a[1]) if m.group(2) == 'max' else (a[1], a[0])
                if isinstance(c, bool): return x if c else y
                return z3.If(c, self.bvv(x, w) if self.mode == 'bv' else self.ival(x), self.bvv(y, w) if self.mode == 'bv' else self.ival(y))
            if n.startswith('llvm.expect'): return a[0]
            if n.startswith('llvm.is.constant'): return False
            m = re.match(r'llvm\.fsh([lr])\.i(\d+)', n)
            if m and self.mode == 'bv':
                w = int(m.group(2)); A, B, S = self.bvv(a[0], w), self.bvv(a[1], w), self.bvv(a[2], w)
                S = z3.URem(S, w)
                cc = z3.Concat(A, B)
                if m.group(1) == 'l': return self.py(z3.simplify(z3.Extract(2 * w - 1, w, cc << z3.ZeroExt(w, S))))
                return self.py(z3.simplify(z3.Extract(w - 1, 0, z3.LShR(cc, z3.ZeroExt(w, S)))))
            m = re.match(r'llvm\.bswap\.i(\d+)', n)
            if m and self.mode == 'bv':
                w = int(m.group(1)); A = self.bvv(a[0], w)
                return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, A) for i in range(w // 8)])
            m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
            if m and self.mode == 'int':
                w = int(m.group(3)); M = 1 << w
                if m.group(1) == 'u':
                    x, y = a[0], a[1]
                    r = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
                    ov = (r < 0 or r >= M) if isinstance(r, int) else z3.Or(r < 0, r >= M)
                    return [self.wrapu(st, r, w), ov]
            raise Unsupported('intrinsic ' + n)
        return _SLOW
    def memset(self, st, p, v, n):
        if getattr(self, 'heap', None) and self.heap['set'](st, p, v, n): return
        if not isinstance(n, int): raise Unsupported('memset of symbolic size')
        off = self.coff(p)
        r = dict(st.mem.get(p.rid) or {})
        if r.get('arr') is not None: raise Unsupported('memset on array region')
        for o in [o for o in r if isinstance(o, int) and off <= o < off + n]: r.pop(o)
        if n > 4096: raise Unsupported('large memset')
        b = 0
        while b < n:
            step = 8 if (isinstance(v, int) and v == 0 and n - b >= 8 and (off + b) % 8 == 0) else 1
            r[off + b] = (0 if step == 8 else v, step); b += step
        st.mem[p.rid] = r

    def call(self, st, cal, a, ins, F):
        if isinstance(cal, Ptr) and cal.rid is None:
            self.oblige(st, False, 'no null call'); raise Dead()
        if not isinstance(cal, FnPtr): raise Unsupported('indirect call through %r' % (cal,))
        name = cal.name
        G = self.fnbyname(name)
        dem = norm(G.dem if G else name)
        return self.call_named(st, name, dem, G, a, ins)
    def call_named(self, st, name, dem, G, a, ins):
        base = dem
        c = self.lookup_contract(dem)
        if c is not None:
            self.summaries.add(dem)
            return c(self, st, a, ins)
        m = self.exact.get(dem) or self.exact.get(name)
        if m is None:
            for rx, f in self.models:
                if rx.match(dem): m = f; break
        if m is not None:
            self.modelled.add(dem)
            r = m(self, st, a, ins)
            if isinstance(r, list) and r and isinstance(r[0], tuple) and r[0] and r[0][0] in ('ret', 'throw'): return r
            if isinstance(r, list) and not r: return []
            return [('ret', st, r)]
        if os.environ.get("VP_CALLS"): print("CALL", dem[:150], file=sys.stderr)
        if G is None or G.isdecl: raise Unsupported('no body, model or contract for ' + dem)
        return self.exec_function(G, a, st)
    def lookup_contract(self, dem):
        c = self.contracts.get(dem)
        if c is not None: return c
        for k, v in self.contracts.items():
            if hasattr(k, 'match') and k.match(dem): return v
        return None
    def throw(self, st, ti):
        return [('throw', st, Exc(ti, NULL))]

    # ------------------------------------------------------------ loops
    def do_loop(self, F, hd, prev, env, st, args, outs, work):
        body = F.loops[hd]
        # 1. complete unrolling when all exits are decided
        snap = (len(self.obligs), st.fork(), dict(env))
        try:
            if getattr(self, 'no_unroll', False): raise NeedInvariant()
            self._noexit.append((F, body, [0, hd]))
            try:
                w = [(hd, prev, dict(env), st.fork())]
                exits = []; o2 = []
                cnt = 0
                cur = w
                while cur:
                    backs = []
                    for it in cur:
                        ent = (it[0], it[1], it[2], it[3])
                        self.run_iter(F, hd, body, ent, args, o2, backs, exits)
                    cnt += 1
                    if cnt > self.unroll_limit: raise NeedInvariant()
                    cur = [(hd, p, e, s) for p, e, s in backs]
                    if len(cur) > 64: raise NeedInvariant()
            finally:
                self._noexit.pop()
            outs.extend(o2)
            work.extend(exits)
            return
        except NeedInvariant:
            del self.obligs[snap[0]:]
        # 2. inductive invariant
        self._noexit.append(None)
        try:
            if not getattr(self, 'peel_undef', False):
                return self.inv_loop(F, hd, body, prev, env, st, args, outs, work)
            n, o2, w2 = len(self.obligs), [], []
            try:
                self.inv_loop(F, hd, body, prev, env, st.fork(), args, o2, w2); outs.extend(o2); work.extend(w2)
            except Unsupported as e:
                if 'undef' not in str(e): raise
                # the first iteration sets variables the others read: run it on its own, then find the invariant of the rest
                del self.obligs[n:]; backs, exits, o2, w2 = [], [], [], []
                self.run_iter(F, hd, body, (hd, prev, dict(env), st.fork()), args, o2, backs, exits)
                for p_, e_, s_ in backs: self.inv_loop(F, hd, body, p_, e_, s_, args, o2, w2)
                outs.extend(o2); work.extend(exits); work.extend(w2)
        finally:
            self._noexit.pop()

    def run_iter(self, F, hd, body, item, args, outs, backs, exits):
        """run one iteration from the header to back edges / exits"""
        bi, prev, env, st = item
        work = []
        try:
            self.exec_block(F, bi, prev, env, st, args, outs, work)
        except Dead:
            return
        self.run(F, work, args, outs, (hd, body, backs, exits, {}))

    def havoc_value(self, st, v, size, hint):
        if isinstance(v, Ptr):
            if v.rid is None or v.stride == 0: return None
            i = self.fresh(hint, z3.IntSort())
            return Ptr(v.rid, v.off, i, v.stride)
        if isinstance(v, Abs): return v.havoc(self, st, hint)
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return self.fresh(hint, z3.BoolSort())
        if isinstance(v, int) or (isz(v) and (z3.is_int(v) or z3.is_bv(v))):
            if isz(v) and z3.is_bv(v): return self.fresh(hint, v.sort())
            return self.fresh_int(st, size * 8, hint)
        if isz(v) and z3.is_real(v): return self.fresh(hint, z3.RealSort())
        if isz(v): return self.fresh(hint, v.sort())
        return None

    def inv_loop(self, F, hd, body, prev, env, st, args, outs, work):
        W = set()      # (rid, off) modified
        ptrkinds = {}
        for rnd in range(12):
            H = st.fork()
            henv = dict(env)
            hv = {}
            for loc in sorted(W, key=str):
                rid, off = loc
                c = st.cell(rid, off)
                if c is None or loc in ptrkinds.get('kill', ()):
                    H.delcell(rid, off); continue
                if off == 'arr':
                    nv = (self.fresh('arr', c[0].sort()), c[1], c[2])
                    r2 = dict(H.mem[rid]); r2['arr'] = nv; H.mem[rid] = r2; hv[loc] = (c, nv); continue
                nv = self.havoc_value(H, c[0], c[1], 'h')
                if nv is None: H.delcell(rid, off); continue
                H.setcell(rid, off, nv, c[1]); hv[loc] = (c[0], nv)
            # header phis
            for ins in F.blocks[hd].instrs:
                if ins.op != 'phi': break
                if ins.ty.kind == 'int': henv[('phi', ins.id)] = self.fresh_int(H, ins.ty.width, 'phi')
                else: raise Unsupported('pointer phi at loop header')
            lv = Loop(self, F, hd, st, hv)
            cands = self.gen_cands(lv, st, H)
            # entry check
            live = []
            for nm, f, key in cands:
                try: g = f(st)
                except KeyError: continue
                if self.holds(st, g): live.append((nm, f, key))
                elif key is not None:
                    self.cexmodel(st, g)
                    if key in os.environ.get('VP_DROP','').split(','): print('NOENTRY', self.loop_line(F,hd), nm, str(g).replace(chr(10),' ')[:300], 'PC', [str(x).replace(chr(10),' ')[:100] for x in st.pc if 'EQ' in str(x)][-6:])
            newW = None
            while True:
                H2 = H.fork()
                for nm, f, key in live: self.assume(H2, self.b(f(H2)))
                for f in self.loop_facts(lv, H2): self.assume(H2, f)
                o0 = len(self.obligs)
                backs, exits, o2 = [], [], []
                base = H2.fork()
                self.run_iter_phi(F, hd, body, prev, dict(henv), H2, args, o2, backs, exits)
                # new written locations?
                mod = set()
                for s in [b[2] for b in backs] + [x[3] for x in exits] + [o[1] for o in o2]:
                    mod |= self.diff(base, s)
                bad = mod - W
                if bad:
                    newW = bad; del self.obligs[o0:]; break
                # pointer regions stable?
                kill = set()
                for b in backs:
                    for loc in W:
                        c0 = base.cell(*loc); c1 = b[2].cell(*loc)
                        if c0 and c1 and isinstance(c0[0], Ptr) and isinstance(c1[0], Ptr) and (c0[0].rid != c1[0].rid or not samev(c0[0].off, c1[0].off)):
                            kill.add(loc)
                if kill - ptrkinds.get('kill', set()):
                    ptrkinds['kill'] = ptrkinds.get('kill', set()) | kill; newW = set(); del self.obligs[o0:]; break
                dropped = []
                for nm, f, key in live:
                    for b in backs:
                        try: g = f(b[2])
                        except KeyError: g = False
                        if not self.holds(b[2], g):
                            if key is not None: self.cexmodel(b[2], g)
                            if key in os.environ.get('VP_DROP','').split(','): print('DROP', self.loop_line(F,hd), nm, str(g).replace(chr(10),' ')[:300])
                            dropped.append((nm, f, key)); break
                if not dropped: break
                del self.obligs[o0:]
                live = [x for x in live if x not in dropped]
            if newW is not None:
                W |= newW
                if len(W) > 400: raise Unsupported('loop modifies too much')
                continue
            # termination
            term = self.find_measure(lv, base, backs)
            rec = {'fn': norm(F.dem), 'line': self.loop_line(F, hd), 'inv': [nm for nm, f, key in live], 'term': term,
                   'keys': sorted({key for nm, f, key in live if key}), 'allkeys': sorted({key for nm, f, key in cands if key})}
            if self.quiet_obl == 0:
                self.loops_inv.append(rec)
                for nm, f, key in live:
                    if key is not None or True:
                        o = Oblig(); o.name = self.prefix + 'loop invariant: ' + nm; o.status = 'proved'; o.time = 0.0; o.backend = 'z3'; o.model = None
                        o.where = (F.name, rec['line']); o.reason = ''; o.smt = None
                        self.obligs.append(o)
                o = Oblig(); o.name = self.prefix + 'loop terminates'; o.time = 0.0; o.backend = 'z3'; o.model = None; o.where = (F.name, rec['line']); o.smt = None
                o.status = 'proved' if term else 'unknown'; o.reason = term or 'no measure found'
                self.obligs.append(o)
            outs.extend(o2)
            work.extend(exits)
            return
        raise Unsupported('loop did not stabilise')
    def loop_line(self, F, hd):
        for ins in F.blocks[hd].instrs:
            if ins.line: return ins.line
        return 0
    def run_iter_phi(self, F, hd, body, prev, env, st, args, outs, backs, exits):
        B = F.blocks[hd]
        start = 0
        for ins in B.instrs:
            if ins.op != 'phi': break
            env[ins.id] = env[('phi', ins.id)]; start += 1
        work = []
        try: self.exec_block(F, hd, prev, env, st, args, outs, work, start if start else 0)
        except Dead: return
        self.run(F, work, args, outs, (hd, body, backs, exits, {}))
    def diff(self, a, b):
        mod = set()
        for rid, r in a.mem.items():
            r2 = b.mem.get(rid)
            if r2 is None or r2 is r: continue
            for off in set(r) | set(r2):
                c0, c1 = r.get(off), r2.get(off)
                if c0 is None or c1 is None: mod.add((rid, off)); continue
                if off == 'arr':
                    if not c0[0].eq(c1[0]): mod.add((rid, off))
                elif not samev(c0[0], c1[0]): mod.add((rid, off))
        return mod
    def b(self, g):
        return g if isz(g) else z3.BoolVal(bool(g))
    def holds(self, st, g):
        if g is True: return True
        if g is False: return False
        g2 = z3.simplify(g)
        if z3.is_true(g2): return True
        if self.entails_quick(st, g): return True
        if z3.is_false(g2) and False: return False
        r, m, be, dt = self.solve(st.pc, g, timeout=min(self.timeout, 4000), want_model=False)
        return r == 'proved'

    def cexmodel(self, st, g):
        """a (small, if possible) assignment of the inputs refuting g: a candidate failing input"""
        if not getattr(self, 'cex', None) or g is False: return
        if getattr(self, '_ncex', 0) > 60: return
        self._ncex = getattr(self, '_ncex', 0) + 1
        small = getattr(self, 'cex_small', None)
        for extra in ([small(12), small(80), small(700), []] if small else [[]]):
            s = z3.Solver(); s.set('timeout', 2500)
            s.add(*self.axioms); s.add(*st.pc); s.add(*extra)
            if g is not None: s.add(z3.Not(g))
            if s.check() == z3.sat: self.cex(s.model()); return
    def intcells(self, lv):
        """modified scalar cells: (loc, entry value, kind) with an accessor returning the Int value (pointer index for pointers)"""
        out = []
        for loc, (v0, vh) in lv.mod.items():
            if isinstance(vh, Ptr): out.append((loc, 'ptr'))
            elif isz(vh) and z3.is_int(vh): out.append((loc, 'int'))
        return out
    def acc(self, loc):
        """state -> Int term of the scalar/pointer-index at loc"""
        def f(s):
            c = s.cell(*loc)
            if c is None: raise KeyError(loc)
            v = c[0]
            if isinstance(v, Ptr): v = v.idx
            if isinstance(v, Abs) or v is UNDEF or isinstance(v, (PtrInt, FnPtr, bool)) or (isz(v) and not z3.is_int(v)): raise KeyError(loc)
            return v
        return f
    def abscell(self, loc):
        def f(s):
            c = s.cell(*loc)
            if c is None: raise KeyError(loc)
            return c[0]
        return f
    def lengths(self, lv, st):
        """length terms of loop-invariant containers in the state, plus contract-provided bounds"""
        res = []
        for rid, r in st.mem.items():
            for off, c in r.items():
                if off == 'arr': continue
                v = c[0]
                if (rid, off) in lv.mod: continue
                n = getattr(v, 'lenterm', None)
                if n is not None: res.append(n(self))
                elif isinstance(v, Abs): pass
                elif isz(v) and z3.is_int(v) and c[1] in (4, 8): res.append(v)
                elif isinstance(v, Ptr) and isz(v.idx) and z3.is_int(v.idx): res.append(v.idx)
        res += list(self.lenvals)
        out = []; seen = set()
        for x in res:
            if isinstance(x, int): k = ('c', x)
            else: k = x.get_id()
            if k not in seen: seen.add(k); out.append(x)
        return out[:14]
    def gen_cands(self, lv, st, H):
        cands = []
        lens = self.lengths(lv, st)
        for loc, kind in self.intcells(lv) if not getattr(self, 'own_cands', False) else []:
            a = self.acc(loc)
            try: v0 = a(st)
            except KeyError: continue
            nm = 'cell%d' % (hash(loc) % 1000)
            cands.append(('%s >= entry' % nm, (lambda a, v0: lambda s: a(s) >= v0)(a, v0), None))
            cands.append(('%s <= entry' % nm, (lambda a, v0: lambda s: a(s) <= v0)(a, v0), None))
            for n in lens:
                if isinstance(n, int) and isinstance(v0, int) and n == v0: continue
                cands.append(('%s <= %s' % (nm, str(n)[:30]), (lambda a, n: lambda s: a(s) <= n)(a, n), None))
            if kind == 'int' and isz(H.cell(*loc)[0]) and H.cell(*loc)[1] == 4:
                cands.append(('%s signed nonneg' % nm, (lambda a: lambda s: a(s) < 2**31)(a), None))
        # relations between modified pairs
        cells = self.intcells(lv) if not getattr(self, 'own_cands', False) else []
        for i in range(len(cells)):
            for j in range(len(cells)):
                if i == j or len(cells) > 8: continue
                a, b = self.acc(cells[i][0]), self.acc(cells[j][0])
                try: d = a(st) - b(st)
                except KeyError: continue
                if i < j:
                    cands.append(('lockstep', (lambda a, b, d: lambda s: a(s) - b(s) == d)(a, b, d), None))
                cands.append(('pair <=', (lambda a, b: lambda s: a(s) <= b(s))(a, b), None))
        for g in self.cand_gens:
            for c in g(self, lv, st, H) or []:
                cands.append(c if len(c) == 3 else (c[0], c[1], c[0]))
        return cands
    def loop_facts(self, lv, H):
        out = []
        for g in getattr(self, 'fact_gens', []):
            out += g(self, lv, H) or []
        return out
    def find_measure(self, lv, base, backs):
        if not backs: return 'loop body never repeats'
        lens = self.lengths(lv, lv.entry)
        ms = []
        for loc, kind in self.intcells(lv):
            a = self.acc(loc)
            ms.append(('cell decreases', a))
            for n in lens: ms.append(('%s - cell' % str(n)[:30], (lambda a, n: lambda s: n - a(s))(a, n)))
        for g in getattr(self, 'measure_gens', []): ms += g(self, lv)
        for nm, m in ms:
            ok = True
            for b in backs:
                try: x, y = m(base), m(b[2])
                except KeyError: ok = False; break
                if isinstance(x, tuple):    # lexicographic
                    g, eq = [], []
                    for p_, q_ in zip(x, y): g.append(z3.And(*eq, self.ival(q_) < self.ival(p_), self.ival(p_) >= 0)); eq.append(self.ival(q_) == self.ival(p_))
                    g = z3.Or(g)
                else: g = z3.And(self.ival(y) < self.ival(x), self.ival(x) >= 0)
                if not self.entails_quick(b[2], g):
                    if not self.holds(b[2], g): ok = False; break
            if ok: return nm
        return None


class Dead(Exception):
    """current path ended by a failed obligation that makes continuing meaningless"""

class HP:
    """hashable pointer (owner of a data region)"""
    __slots__ = ('p', 'k')
    def __init__(self, p):
        self.p = p
        self.k = (p.rid, p.off if isinstance(p.off, int) else p.off.get_id(), p.idx if isinstance(p.idx, int) else p.idx.get_id(), p.stride)
    def __hash__(self): return hash(self.k)
    def __eq__(self, o): return isinstance(o, HP) and self.k == o.k
    def __repr__(self): return 'HP(%r)' % (self.p,)

class _FakeTy:
    kind = 'int'
    def __init__(self, w): self.width = w; self.size = (w + 7) // 8
_SLOW = object()

def ft_list(ty): return ty.mod.fields(ty)

_ARITH_OPS = set(getattr(z3, n) for n in (
    'Z3_OP_TRUE Z3_OP_FALSE Z3_OP_EQ Z3_OP_DISTINCT Z3_OP_ITE Z3_OP_AND Z3_OP_OR Z3_OP_XOR Z3_OP_NOT Z3_OP_IMPLIES '
    'Z3_OP_ANUM Z3_OP_LE Z3_OP_GE Z3_OP_LT Z3_OP_GT Z3_OP_ADD Z3_OP_SUB Z3_OP_UMINUS Z3_OP_MUL Z3_OP_IDIV Z3_OP_MOD Z3_OP_REM Z3_OP_TO_REAL '
    'Z3_OP_BNUM Z3_OP_BADD Z3_OP_BSUB Z3_OP_BMUL Z3_OP_BAND Z3_OP_BOR Z3_OP_BXOR Z3_OP_BNOT Z3_OP_BNEG Z3_OP_ULEQ Z3_OP_SLEQ Z3_OP_UGEQ Z3_OP_SGEQ '
    'Z3_OP_ULT Z3_OP_SLT Z3_OP_UGT Z3_OP_SGT Z3_OP_CONCAT Z3_OP_EXTRACT Z3_OP_ZERO_EXT Z3_OP_SIGN_EXT Z3_OP_BSHL Z3_OP_BLSHR Z3_OP_BASHR').split())
_NARY = {z3.Z3_OP_AND: lambda n: z3.And(*n), z3.Z3_OP_OR: lambda n: z3.Or(*n), z3.Z3_OP_ADD: lambda n: _fold(n, lambda a, b: a + b),
         z3.Z3_OP_MUL: lambda n: _fold(n, lambda a, b: a * b), z3.Z3_OP_DISTINCT: lambda n: z3.Distinct(*n), z3.Z3_OP_SUB: lambda n: _fold(n, lambda a, b: a - b),
         z3.Z3_OP_BADD: lambda n: _fold(n, lambda a, b: a + b), z3.Z3_OP_BMUL: lambda n: _fold(n, lambda a, b: a * b),
         z3.Z3_OP_BAND: lambda n: _fold(n, lambda a, b: a & b), z3.Z3_OP_BOR: lambda n: _fold(n, lambda a, b: a | b), z3.Z3_OP_BXOR: lambda n: _fold(n, lambda a, b: a ^ b),
         z3.Z3_OP_CONCAT: lambda n: z3.Concat(*n)}
def _fold(n, f):
    r = n[0]
    for x in n[1:]: r = f(r, x)
    return r

def cvc5_check(s, secs):
    """ask cvc5 about the same assertions; -> 'sat'/'unsat'/'unknown'"""
    try:
        txt = s.to_smt2()
    except Exception:
        return 'unknown'
    txt = txt.replace('(check-sat)', '')
    if 'seq.nth_u' in txt or 'seq.nth_i' in txt: txt = txt.replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + txt + '\n(check-sat)\n')
        fn = f.name
    try:
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % (secs * 1000), fn], capture_output=True, text=True, timeout=secs + 5)
        o = r.stdout.strip().split('\n')[-1].strip() if r.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)
