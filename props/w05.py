"""W05"""
from vc import *
from webcommon import *
LEVEL = 'proof'
UNIT_BUDGET = 200
HARNESS = 'h_web.cpp'
ASSUMPTIONS = ['the callers are proved against the contracts of BoundaryPosition and TruncateToN, which are proved in their own units; _ParseHeaders may throw', 'boundary and data are shorter than 2^30 bytes']
BOUNDED = ['multipart bodies in every split into chunks; boundary-like bytes inside the data']
BUDGET = 12
SOURCES = SRC
HOPTS = hopts(5)
EXPLAIN = 'see DESIGN.md'
INC = dict(extra_inc=tuple(HOPTS['extra_inc']))
MAXN = 2**30
class _P: kind = 'ptr'; size = 8; width = 64
_PT = _P()
class Parser:
    """a parser object: boundary (a string), collected data (a heap block of its recorded length) and the rest"""
    def __init__(self, c, collected=True, **kw):
        self.c = c; V = self.V = c.load([os.path.join(build.VERIF, 'drivers/p_mpfd.cpp'), 'server/mpfd-parser/Parser.cpp', 'server/mpfd-parser/Field.cpp'], **INC, **kw); heap_bytes(V); self.st = st = c.st
        self.off = self.consts('vp_parser_off', 8); self.foff = self.consts('vp_field_off', 4)
        self.b = V.fresh_seq('boundary'); self.d = V.fresh_seq('data'); self.lb = z3.Length(self.b); self.ld = z3.Length(self.d)
        V.assume(st, z3.And(self.lb >= 1, self.lb < MAXN, self.ld < MAXN))
        self.max = V.fresh_int(st, 64, 'max'); self.fname = V.fresh_seq('fname')
        self.blk = V.dataptr(V.region(st, 'collected', {0: (Block(self.d), 32)}), 0) if collected else NULL
        self.this = V.region(st, 'parser', {self.off[0]: (Str(self.b), 32), self.off[1]: (self.blk, 8), self.off[2]: (self.ld if collected else 0, 8), self.off[3]: (self.max, 8), self.off[4]: (V.fresh_int(st, 32, 'status'), 4), self.off[5]: (Str(self.fname), 32), self.off[6]: (Str(V.fresh_seq('tmpdir')), 32), self.off[7]: (V.fresh_int(st, 32, 'where'), 4)})
    def consts(self, name, n):
        for m in self.V.mods:
            if name in m.globs:
                init, ty, _ = m.ginit(name)
                if init: return [m.const_at(init, ty, 8 * k, 8)[1] for k in range(n)]
        raise Unsupported(name)
    def cell(self, k): return Ptr(self.this.rid, self.off[k])
    def length(self, st): return self.V.ival(self.V.load(st, self.cell(2), sym._FakeTy(64)))
    def data(self, st, what=''):
        """the collected data: they must be a live block of exactly the recorded length"""
        p = st.cell(self.this.rid, self.off[1])[0]; V = self.V
        c = V.heap['blk'](st, p); V.oblige(st, z3.And(zb(c.alive), V.ival(addr1(V, p)) == 0, z3.Length(c.seq) == self.length(st)), what + 'the collected data are a live block of the recorded length'); return c.seq
    def setdata(self, st, q):
        p = self.V.heap['fresh'](st, z3.Length(q)); self.V.write_abs(st, p.rid[1], Block(q)); self.V.store(st, self.cell(1), p, _PT); self.V.store(st, self.cell(2), z3.Length(q), sym._FakeTy(64))
    def frame(self, st, what=''):
        V = self.V; V.oblige(st, z3.And(st.cell(self.this.rid, self.off[0])[0].seq == self.b, V.ival(V.load(st, self.cell(3), sym._FakeTy(64))) == V.ival(self.max)), what + 'boundary and limit unchanged')
def zb(x): return x if isz(x) else z3.BoolVal(bool(x))
FIRST = {}
def first(P, q):
    """position of the first boundary in q, or -1"""
    return z3.Function('FIRST', P.V.ssort, z3.IntSort())(q)
def firstfacts(P, q): return z3.And(first(P, q) >= -1, z3.Or(first(P, q) == -1, first(P, q) + P.lb <= z3.Length(q)))
def sgn64(V, v):
    v = V.ival(v); return z3.If(v >= 2**63, v - 2**64, v)
def allints(st):
    return [(rid, off) for rid, r in st.mem.items() for off, (v, size) in r.items() if 'alloca' in rid and size in (4, 8) and (isinstance(v, int) and not isinstance(v, bool) or isz(v) and z3.is_int(v))]
def boundary(c):
    """the position found is that of the first boundary in the collected data, -1 when there is none; only collected data are read"""
    P = Parser(c); V, st = P.V, P.st; I = z3.IntSort()
    NO = z3.Function('NO', I, z3.BoolSort())   # no boundary starts before position i
    EQ = z3.Function('EQ', I, I, z3.BoolSort())  # the first j bytes of the boundary are at i
    rng = lambda x: z3.And(x >= 0, x < 256)
    uf = lambda i, j: z3.And(EQ(i, z3.IntVal(0)), z3.Implies(z3.And(j >= 0, j < P.lb), EQ(i, j + 1) == z3.And(EQ(i, j), P.d[i + j] == P.b[j])), rng(P.d[i + j]), rng(P.b[j]), z3.And([z3.Implies(z3.And(x >= 0, x <= P.lb, z3.Not(EQ(i, x))), z3.Not(EQ(i, P.lb))) for x in (j, j + 1)]),
                           z3.Implies(i >= 0, NO(i + 1) == z3.And(NO(i), z3.Not(EQ(i, P.lb)))))
    V.assume(st, z3.And(NO(z3.IntVal(0)), uf(z3.IntVal(0), z3.IntVal(0))))
    V.unroll_limit = 1
    def gen(V, lv, st0, H):
        r = []; ints = [V.acc(l) for l in allints(st0)] ; mods = [V.acc(l) for l, k in V.intcells(lv)]
        for l, k in V.intcells(lv):
            if (H.cell(*l) or (0, 0))[1] == 1:
                f = V.acc(l); r.append(('flag is a bool', (lambda f: lambda S: z3.And(V.ival(f(S)) >= 0, V.ival(f(S)) <= 1))(f), 'fb'))
                for a in mods: r.append(('not found yet', (lambda f, a: lambda S: z3.Implies(V.ival(a(S)) >= 1, V.ival(f(S)) == 0))(f, a), 'nf'))
        for a in mods:
            r.append(('range', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= P.ld + P.lb))(a), 'rg'))
            r.append(('range 2', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= P.ld - P.lb + 1))(a), 'rg'))
            r.append(('no boundary before', (lambda a: lambda S: NO(V.ival(a(S))))(a), 'no'))
            for b in ints:
                for l, k in V.intcells(lv):
                    if (H.cell(*l) or (0, 0))[1] != 1: continue
                    f = V.acc(l); r.append(('flag tells whether the prefix matches', (lambda a, b, f: lambda S: z3.If(V.ival(f(S)) != 0, EQ(V.ival(b(S)), V.ival(a(S))), z3.Not(EQ(V.ival(b(S)), P.lb))))(a, b, f), 'eqf'))
                r.append(('prefix matches', (lambda a, b: lambda S: EQ(V.ival(b(S)), V.ival(a(S))))(a, b), 'eq'))
        return r
    V.cand_gens = [gen]
    V.fact_gens = [lambda V, lv, H: [uf(V.ival(V.acc(l)(H)), z3.IntVal(0)) for l in allints(H)] + [uf(V.ival(V.acc(l)(H)), V.ival(V.acc(l2)(H))) for l in allints(H) for l2 in allints(H) if l != l2][:80]]
    for k, s, v in c.call('vp_boundary', [P.this], st):
        if k != 'ret': V.oblige(s, False, 'no exception'); continue
        r = sgn64(V, v); V.assume(s, uf(r, P.lb))
        V.oblige(s, z3.Implies(r >= 0, z3.And(r + P.lb <= P.ld, EQ(r, P.lb), NO(r))), 'a position found is that of the first boundary')
        V.oblige(s, z3.Or(r >= 0, z3.And(r == -1, z3.Or(P.ld < P.lb, NO(P.ld - P.lb + 1)))), '-1 only when no position holds the boundary')
        P.data(s); P.frame(s); c.cover(s, 'return')
def trunc_spec(P, s, n, q0, what=''):
    """after truncation by n: the data from n on, in a live block of the recorded length"""
    q = P.data(s, what); P.V.oblige(s, q == z3.SubSeq(q0, n, z3.Length(q0) - n), what + 'what remains are the data after the first n bytes')
def truncate(c):
    """truncating the collected data by n bytes leaves exactly the rest, for every n up to their length"""
    P = Parser(c); V, st = P.V, P.st; n = V.fresh_int(st, 64, 'n'); V.assume(st, n <= P.ld)
    for k, s, v in c.call('vp_trunc', [P.this, n], st):
        if k != 'ret': V.oblige(s, False, 'no exception'); continue
        trunc_spec(P, s, n, P.d); P.frame(s); old = V.container(s, P.blk.rid); V.oblige(s, z3.Not(zb(old.alive)), 'the old block is freed'); c.cover(s, 'return')
def with_contracts(P, *which):
    V = P.V
    def bpos(V_, st, a, ins):
        q = P.data(st, 'contract of BoundaryPositionInDataCollector: '); r = V.fresh('pos', z3.IntSort()); V.assume(st, z3.And(r == first(P, q), firstfacts(P, q))); return z3.If(r < 0, r + 2**64, r)
    def tr(V_, st, a, ins):
        q = P.data(st, 'contract of Truncate: '); n = sgn64(V, a[1]); V.oblige(st, z3.And(n >= 0, n <= z3.Length(q)), 'only collected bytes are cut off'); P.setdata(st, z3.SubSeq(q, n, z3.Length(q) - n)); V.assume(st, z3.Length(P.data(st)) == z3.Length(q) - n); return None
    V.models.insert(0, (re.compile(r'MPFD::Parser::BoundaryPositionInDataCollector\('), bpos))
    V.models.insert(0, (re.compile(r'MPFD::Parser::TruncateDataCollectorFromTheBeginning\('), tr))
def start(c):
    """looking for the first boundary: found, everything up to and including it is dropped; not found, nothing is lost"""
    P = Parser(c); V, st = P.V, P.st; with_contracts(P)
    for k, s, v in c.call('vp_start', [P.this], st):
        if k != 'ret': V.oblige(s, False, 'no exception'); continue
        q = P.data(s); f = first(P, P.d); V.oblige(s, (V.ival(v) % 2 == 1) == (f >= 0), 'true exactly when there is a boundary')
        V.oblige(s, z3.If(f >= 0, q == z3.SubSeq(P.d, f + P.lb, P.ld - f - P.lb), q == P.d), 'data after the boundary, or all of them, are kept'); P.frame(s); c.cover(s, 'return')
def content(c):
    """content of a field: everything that cannot belong to the next boundary (or the line break before it) is handed to the current field exactly once and in order; the rest is kept"""
    P = Parser(c); V, st = P.V, P.st; with_contracts(P); st.ghost['sent'] = V.lit(b''); fld = V.region(st, 'field'); slot = V.region(st, 'slot', {0: (fld, 8)})
    def index(V_, st, a, ins):
        V.oblige(st, V.read_abs(st, a[1], Str).seq == P.fname, 'the field is the one the headers named'); return slot
    def accept(V_, st, a, ins):
        V.oblige(st, samep(a[0], fld), 'handed to the current field'); n = sgn64(V, a[2]); q = V.heap['blk'](st, a[1]); i = V.ival(addr1(V, a[1])); V.oblige(st, z3.And(zb(q.alive), n >= 0, i + n <= z3.Length(q.seq)), 'the bytes handed over are in the block')
        st.ghost['sent'] = z3.Concat(st.ghost['sent'], z3.SubSeq(q.seq, i, n)); return None
    V.models.insert(0, (re.compile(r'std::map<std::string, MPFD::Field\*.*::(operator\[\]|at)'), index))
    V.models.insert(0, (re.compile(r'MPFD::Field::AcceptSomeData'), accept))
    for k, s, v in c.call('vp_content', [P.this], st):
        if k != 'ret': V.oblige(s, False, 'no exception'); continue
        q = P.data(s); f = first(P, P.d); V.oblige(s, (V.ival(v) % 2 == 1) == (f >= 0), 'true exactly when there is a boundary'); n = z3.If(f >= 0, f - 2, P.ld - P.lb - 2); m = z3.If(n > 0, n, 0)
        V.oblige(s, s.ghost['sent'] == z3.SubSeq(P.d, 0, m), 'the field gets the bytes before the line break and the boundary'); V.oblige(s, q == z3.SubSeq(P.d, m, P.ld - m), 'all other bytes are kept'); P.frame(s); c.cover(s, 'return')
def samep(p, q): return isinstance(p, Ptr) and p.rid == q.rid and p.off == q.off and p.idx == q.idx
def headers(c):
    """the headers end at the first empty line: its text is parsed, the data after it are kept; without one nothing is lost"""
    P = Parser(c); V, st = P.V, P.st; with_contracts(P); I = z3.IntSort(); NO = z3.Function('NOH', I, z3.BoolSort()); d = P.d; V.unroll_limit = 1; st.ghost['h'] = ()
    end = lambda i: z3.And(i >= 0, i + 4 <= P.ld, d[i] == 13, d[i + 1] == 10, d[i + 2] == 13, d[i + 3] == 10)
    uf = lambda i: z3.And(z3.Implies(i >= 0, NO(i + 1) == z3.And(NO(i), z3.Not(end(i)))), [z3.And(d[i + k] >= 0, d[i + k] < 256) for k in range(4)])
    uf = lambda i: z3.And([z3.Implies(i >= 0, NO(i + 1) == z3.And(NO(i), z3.Not(end(i))))] + [z3.And(d[i + k] >= 0, d[i + k] < 256) for k in range(4)])
    V.assume(st, z3.And(NO(z3.IntVal(0)), uf(z3.IntVal(0))))
    def parse(V_, st, a, ins):
        t = V.read_abs(st, a[1], Str).seq; st.ghost['h'] = st.ghost['h'] + (t,); bad = st.fork(); return [('ret', st, None), ('throw', bad, None)]
    V.models.insert(0, (re.compile(r'MPFD::Parser::_ParseHeaders'), parse))
    def gen(V, lv, st0, H):
        r = []
        for l, k in V.intcells(lv):
            a = V.acc(l); r.append(('range', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= P.ld))(a), 'rg')); r.append(('no empty line before', (lambda a: lambda S: NO(V.ival(a(S))))(a), 'no'))
            r.append(('range 2', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, z3.Or(V.ival(a(S)) == 0, V.ival(a(S)) <= P.ld - 3)))(a), 'rg'))
        return r
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [uf(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    for k, s, v in c.call('vp_headers', [P.this], st):
        hs = s.ghost['h']; P.frame(s)
        if k == 'throw':
            V.oblige(s, len(hs) == 1, 'exceptions come from parsing the headers only'); continue
        t = V.ival(v) % 2 == 1; q = P.data(s)
        if hs:
            i = P.ld - 4 - z3.Length(q); V.oblige(s, z3.And(t, z3.BoolVal(len(hs) == 1), end(i), NO(i)), 'the headers end at the first empty line'); h = z3.SubSeq(d, 0, i)
            V.oblige(s, z3.And(q == z3.SubSeq(d, i + 4, P.ld - i - 4)), 'the data after the headers are kept')
            V.oblige(s, hs[0] == z3.If(z3.Contains(h, V.unit(0)), z3.SubSeq(h, 0, z3.IndexOf(h, V.unit(0), 0)), h), 'the text parsed is that before the empty line (up to a NUL)'); c.cover(s, 'found')
        else:
            V.oblige(s, z3.And(z3.Not(t), q == d, z3.Or(P.ld < 4, NO(P.ld - 3))), 'false only without an empty line, and nothing is lost'); c.cover(s, 'not found')
def process(c):
    """processing goes on as long as a step succeeds: when it stops, the step of the current state has found nothing to do in what is left; it always stops"""
    P = Parser(c); V, st = P.V, P.st; V.unroll_limit = 1; st.ghost['last'] = z3.IntVal(-1); status = lambda s: V.ival(V.load(s, P.cell(4), sym._FakeTy(32))); V.assume(st, status(st) <= 4)
    kinds = (('FindStartingBoundaryAndTruncData', 0, 1), ('WaitForHeadersEndAndParseThem', 1, 4), ('ProcessContentOfTheField', 2, 0)); codes = P.consts('vp_status', 3)
    def step(idx, cut):
        def f(V_, st, a, ins):
            n0 = P.length(st); n1 = V.fresh('len', z3.IntSort()); ok = V.fresh('ok', z3.BoolSort()); V.oblige(st, status(st) == codes[idx], 'the step belongs to the current state'); V.oblige(st, samep(a[0], P.this), 'same parser')
            V.assume(st, z3.And(n1 >= 0, n1 <= n0, z3.Implies(ok, n1 <= n0 - cut))); V.store(st, P.cell(2), n1, sym._FakeTy(64)); st.ghost['last'] = z3.If(ok, z3.IntVal(-1), z3.IntVal(codes[idx]))
            if idx == 2: V.store(st, P.cell(4), z3.If(ok, z3.IntVal(codes[0]), status(st)), sym._FakeTy(32))
            out = [('ret', st, ok)]
            if idx: out.append(('throw', st.fork(), None))
            return out
        return f
    for nm, idx, cut in kinds: V.models.insert(0, (re.compile('MPFD::Parser::' + nm), step(idx, cut)))
    L = V.acc((P.this.rid, P.off[2])); S_ = V.acc((P.this.rid, P.off[4]))
    V.cand_gens = [lambda V, lv, st0, H: [('states', lambda S: z3.Or([V.ival(S_(S)) == k for k in codes] + [V.ival(S_(S)) == V.ival(S_(st))]), 'st'), ('length', lambda S: z3.And(V.ival(L(S)) >= 0, V.ival(L(S)) <= P.ld), 'ln')]]
    V.measure_gens = [lambda V, lv: [('2*length + [content]', lambda S: 2 * V.ival(L(S)) + z3.If(V.ival(S_(S)) == codes[2], 1, 0))]]
    V.assume(st, z3.Or([status(st) == k for k in codes]))
    for k, s, v in c.call('vp_process', [P.this], st):
        if k != 'ret': continue
        V.oblige(s, s.ghost['last'] == status(s), 'the last step was that of the final state and it found nothing more'); c.cover(s, 'return')
def accept(c):
    """each piece of data is appended to what was collected before, and all of it is processed"""
    for coll in (False, True):
        P = Parser(c, coll); V, st = P.V, P.st; x = V.fresh_seq('piece'); V.assume(st, z3.Length(x) < MAXN); px = V.dataptr(V.region(st, 'piece', {0: (Str(x), 32)}), 0); want = z3.Concat(P.d, x) if coll else x; st.ghost['n'] = 0
        def proc(V_, st, a, ins):
            V.oblige(st, P.data(st) == want, 'what is processed is everything collected, in order'); V.oblige(st, V.ival(P.length(st)) <= sgn64(V, P.max), 'the limit is respected'); st.ghost['n'] += 1; return None
        V.models.insert(0, (re.compile(r'MPFD::Parser::_ProcessData'), proc)); V.models.insert(0, (re.compile(r'MPFD::Exception::~?Exception'), lambda V_, st, a, ins: None))
        for k, s, v in c.call('vp_accept', [P.this, px, z3.Length(x)], st):
            if k == 'throw': V.oblige(s, z3.And(z3.Length(want) > sgn64(V, P.max)), 'refused only beyond the limit'); continue
            V.oblige(s, z3.BoolVal(s.ghost['n'] == 1), 'processed once'); P.frame(s); c.cover(s, 'return %d' % coll)
def field(c):
    """a text field, or a file kept in memory, holds the concatenation of the pieces handed to it"""
    for text in (True, False):
        for first_ in (True, False):
            P = Parser(c); V, st = P.V, P.st; o = P.foff; old = V.fresh_seq('old'); V.assume(st, z3.Length(old) < MAXN); n0 = z3.IntVal(0) if first_ else z3.Length(old); x = V.fresh_seq('piece'); V.assume(st, z3.Length(x) < MAXN); px = V.dataptr(V.region(st, 'piece', {0: (Str(x), 32)}), 0)
            body = z3.Concat(old, V.unit(0)) if text else old; blk = NULL if first_ else V.dataptr(V.region(st, 'content', {0: (Block(body), 32)}), 0); k_ = P.consts('vp_kinds', 3)
            F = V.region(st, 'field', {o[0]: (blk, 8), o[1]: (0 if first_ else n0, 8), o[2]: (k_[0] if text else k_[1], 4), o[3]: (k_[2], 4)})
            for k, s, v in c.call('vp_field', [F, px, z3.Length(x)], st):
                if k != 'ret': V.oblige(s, False, 'no exception'); continue
                p = s.cell(F.rid, o[0])[0]; b = V.heap['blk'](s, p); want = x if first_ else z3.Concat(old, x)
                if text: want = z3.Concat(want, V.unit(0))
                n = V.ival(V.load(s, Ptr(F.rid, o[1]), sym._FakeTy(64))); V.oblige(s, z3.And(zb(b.alive), n == n0 + z3.Length(x)), 'length recorded'); V.oblige(s, b.seq == want, 'content = earlier content + this piece'); c.cover(s, 'return')
def alnum(x): return z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122))
def findparameter(c):
    """the position found is the first one outside quoted values that holds the parameter's text and does not continue a longer name; npos when there is none"""
    V = c.load([os.path.join(build.VERIF, 'drivers/p_mpfd.cpp'), 'server/mpfd-parser/Parser.cpp'], **INC); st = c.st; V.unroll_limit = 1; I = z3.IntSort(); Q = z3.Function('Q', I, z3.BoolSort()); NO = z3.Function('NO', I, z3.BoolSort())
    h, hp = c.str_arg(st, 'headers'); p, pp = c.str_arg(st, 'parameter'); n = z3.Length(h); m = z3.Length(p); V.assume(st, z3.And(n < MAXN, m >= 1, m < 64))
    at = lambda i: z3.And(i >= 0, i < n, z3.Not(Q(i)), z3.SubSeq(h, i, m) == p, z3.Or(i == 0, z3.Not(alnum(h[i - 1]))))
    uf = lambda i: z3.And(h[i] >= 0, h[i] < 256, h[i - 1] >= 0, h[i - 1] < 256, z3.Implies(i >= 0, z3.And(Q(i + 1) == z3.If(h[i] == 34, z3.Not(Q(i)), Q(i)), NO(i + 1) == z3.And(NO(i), z3.Not(at(i))))))
    V.assume(st, z3.And(z3.Not(Q(z3.IntVal(0))), NO(z3.IntVal(0)), uf(z3.IntVal(0))))
    def gen(V, lv, st0, H):
        r = []
        for l, kd in V.intcells(lv):
            a = V.acc(l); r.append(('range', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n))(a), 'rg')); r.append(('no parameter before', (lambda a: lambda S: NO(V.ival(a(S))))(a), None))
            for l2, k2 in V.intcells(lv):
                if (H.cell(*l2) or (0, 0))[1] == 1: f = V.acc(l2); r.append(('quoted', (lambda a, f: lambda S: z3.And(V.ival(f(S)) >= 0, V.ival(f(S)) <= 1, (V.ival(f(S)) == 1) == Q(V.ival(a(S)))))(a, f), None))
        return r
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [uf(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    for k, s, v in c.call(r'FindParameter\(', [hp, pp], st):
        if k != 'ret': V.oblige(s, False, 'no exception'); continue
        r = V.ival(v); V.oblige(s, z3.If(r == 2**64 - 1, NO(n), z3.And(at(r), NO(r))), 'first position of the parameter, or npos'); c.cover(s, 'return')
def parseheaders(c):
    """the headers of a part give the field its name and kind, its file name and its content type: each the text after the parameter outside quoted values, up to the closing quote (the blank or line end for the content type)"""
    P = Parser(c, timeout_ms=1200); V, st = P.V, P.st; h, hp = c.str_arg(st, 'headers'); n = z3.Length(h); V.assume(st, n < MAXN); V.unroll_limit = 1; I = z3.IntSort()
    V.own_cands = True; POS = z3.Function('POS', V.ssort, I); names = {b'name="': 0, b'filename="': 1, b'Content-Type: ': 2}; pos = {k: POS(V.lit(k)) for k in names}
    def fp(V_, st, a, ins):
        V.oblige(st, V.read_abs(st, a[0], Str).seq == h, 'the parameter is looked for in the headers'); t = V.read_abs(st, a[1], Str).seq; r = POS(t); V.assume(st, z3.And(r >= -1, z3.Implies(r >= 0, z3.And(r + z3.Length(t) <= n)))); return z3.If(r < 0, r + 2**64, r)
    V.models.insert(0, (re.compile(r'FindParameter\('), fp))
    E = z3.Function('E', I, I, z3.BoolSort())   # no end of the content type from the first position up to the second
    eol = lambda x: z3.Or(x == 32, x == 10, x == 13); c0 = pos[b'Content-Type: '] + 14
    uf = lambda i: z3.And(h[i] >= 0, h[i] < 256, E(c0, i + 1) == z3.And(E(c0, i), z3.Not(eol(h[i])))); V.assume(st, z3.And(E(c0, c0), uf(c0)))
    V.models.insert(0, (re.compile(r'MPFD::Exception::~?Exception'), lambda V_, st, a, ins: None)); st.ghost['f'] = (); fld = V.region(st, 'newfield'); slot = V.region(st, 'slot', {0: (NULL, 8)})
    def index(V_, st, a, ins): V.oblige(st, V.read_abs(st, a[1], Str).seq == V.read_abs(st, P.cell(5), Str).seq, 'the field of the current name'); return slot
    V.models.insert(0, (re.compile(r'std::map<std::string, MPFD::Field\*.*::operator\[\]'), index))
    def ev(kind):
        def f(V_, st, a, ins):
            V.oblige(st, samep(a[0], fld), 'the new field'); v = None
            if kind in ('SetFileName', 'SetFileContentType'): v = V.read_abs(st, a[1], Str).seq
            elif kind not in ('new', 'SetTempDir'): v = V.ival(a[1])
            st.ghost['f'] = st.ghost['f'] + ((kind, v),)
        return f
    for k in ('SetType', 'SetFileName', 'SetFileContentType', 'SetTempDir', 'SetUploadedFilesStorage'): V.models.insert(0, (re.compile('MPFD::Field::%s\\(' % k), ev(k)))
    V.models.insert(0, (re.compile(r'MPFD::Field::Field\('), ev('new')))
    V.models.insert(0, (re.compile(r'(_Znwm|operator new\(unsigned long\))$'), lambda V_, st, a, ins: fld)); V.exact.pop('operator new(unsigned long)', None); V.exact.pop('_Znwm', None)
    kinds = P.consts('vp_kinds', 3)
    def gen(V, lv, st0, H):
        r = []
        for l, kd in V.intcells(lv):
            a = V.acc(l); r.append(('range', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n))(a), 'rg')); r.append(('no end before', (lambda a: lambda S: z3.And(V.ival(a(S)) >= c0, E(c0, V.ival(a(S)))))(a), None))
            r.append(('zero', (lambda a: lambda S: V.ival(a(S)) == 0)(a), None))
            for l2, k2 in V.intcells(lv):
                b = V.acc(l2); r.append(('end found', (lambda a, b: lambda S: z3.If(V.ival(b(S)) == 0, z3.And(V.ival(a(S)) >= c0, E(c0, V.ival(a(S)))), z3.And(V.ival(b(S)) >= c0, V.ival(b(S)) < n, E(c0, V.ival(b(S))), eol(h[V.ival(b(S))]))))(a, b), None))
        return r
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [uf(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    q = V.unit(34); val = lambda s, k: (pos[k] + len(k), z3.IndexOf(h, q, pos[k] + len(k))); np, fnp, ctp = (pos[k] for k in names); disp = z3.Contains(h, V.lit(b'Content-Disposition: form-data;'))
    (n0, n1), (f0, f1) = val(0, b'name="'), val(0, b'filename="'); nm = z3.SubSeq(h, n0, n1 - n0); fnm = z3.SubSeq(h, f0, f1 - f0)
    for k, s, v in c.call('vp_parse', [P.this, hp], st):
        f = s.ghost['f']; d = [x for x in f]
        if k == 'throw': V.oblige(s, z3.Or(z3.Not(disp), np < 0, n1 < 0, z3.And(fnp >= 0, f1 < 0)), 'refused only without the needed parameters'); continue
        V.oblige(s, z3.And(disp, np >= 0, n1 >= 0, z3.Or(fnp < 0, f1 >= 0)), 'accepted only with the needed parameters'); V.oblige(s, V.read_abs(s, P.cell(5), Str).seq == nm, 'the name is the text up to the closing quote'); V.oblige(s, samep(s.cell(slot.rid, 0)[0], fld), 'the field is registered')
        g = {}; order = [x for x, y in d]
        for x, y in d: g.setdefault(x, []).append(y)
        V.oblige(s, z3.BoolVal(order[:1] == ['new'] and all(len(y) == 1 for y in g.values())), 'each thing is set once, on the new field')
        isf = 'SetFileName' in g; V.oblige(s, z3.BoolVal('SetType' in g) if 'SetType' not in g else z3.If(fnp >= 0, z3.And(g['SetType'][0] == kinds[1], z3.BoolVal(isf)), z3.And(g['SetType'][0] == kinds[0], z3.BoolVal(not isf))), 'a file exactly when it has a file name')
        if isf: V.oblige(s, g['SetFileName'][0] == fnm, 'file name is the text up to the closing quote'); c.cover(s, 'file')
        if 'SetFileContentType' in g:
            t = g['SetFileContentType'][0]; e = c0 + z3.Length(t); V.assume(s, uf(e)); V.oblige(s, z3.And(ctp >= 0, t == z3.SubSeq(h, c0, z3.Length(t)), E(c0, e), z3.Or(e == n, eol(h[e]))), 'content type up to the first blank or line end'); c.cover(s, 'content type')
        elif isf: V.oblige(s, ctp < 0, 'no content type only without one')
        P.frame(s)
UNITS = [boundary, truncate, start, content, headers, findparameter, parseheaders, process, accept, field]
