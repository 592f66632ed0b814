"""X01: lexicon stores"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_x01.cpp'
ASSUMPTIONS = ['std::lower_bound and std::copy behave as the standard says', 'numbers are added in growing order']
BOUNDED = ['random growing sequences of up to some hundred numbers around every width boundary; lexica of up to some hundred words, saved and loaded']
BUDGET = 16
D = 'tools/datastructures/lexica/'
SOURCES = [D + 'key_value_store.cpp', D + 'perfect_hash_index.cpp', D + 'murmur_hash3.cpp', D + 'lexicon_base.cpp', 'common/utt_like_quoter.cpp', 'common/quoter.cpp', 'common/logging.cpp', 'common/psi_exception.cpp']
HOPTS = {'extra_inc': (D,), 'cxx': 'g++', 'libs': ['-lcmph', '-lboost_filesystem', '-lboost_system', '-llog4cpp', '-lpthread']}
EXPLAIN = 'see DESIGN.md'
STEP = 20; MAXD = 65535
MV = r'MonotonicVector<unsigned int, unsigned short, \(?(unsigned int)?\)?20u?>::'
class Mono:
    """a MonotonicVector that represents the numbers S(0) <= ... <= S(n-1): blocks of STEP values, the first of each in anchors,
    the differences of the others in diffs, and what a difference exceeds MAXD by in rests, found by its position has/idx"""
    def __init__(m, c, base=0):
        V = m.V = c.load([os.path.join(build.VERIF, 'drivers/p_x01.cpp')], extra_inc=(D,)); st = m.st = c.st; I = z3.IntSort()
        PR = V.elemspecs['std::pair<unsigned int, unsigned int>'] = ElemSpec('std::pair<unsigned int, unsigned int>', 8, [(0, 4, 'int'), (4, 4, 'int')]); m.PR = PR
        U2, U4 = ElemSpec('unsigned short', 2, [(0, 2, 'int')]), ElemSpec('unsigned int', 4, [(0, 4, 'int')])
        m.diffs, m.anch = (V.fresh(x, z3.SeqSort(I)) for x in ('diffs', 'anchors')); m.rests = V.fresh('rests', z3.SeqSort(PR.sort(V)))
        m.n = V.fresh_int(st, 32, 'n'); m.S = z3.Function('S', I, I); m.has = z3.Function('has', I, z3.BoolSort()); m.idx = z3.Function('idx', I, I)
        m.cells = {base: (Vec(U2, m.diffs), 24), base + 24: (Vec(U4, m.anch), 24), base + 48: (Vec(PR, m.rests), 24)}
        V.assume(st, m.counts(m.n, m.diffs, m.anch)); V.assume(st, z3.And(m.n < 2**32 - 1, z3.Length(m.rests) <= z3.Length(m.diffs)))
        V.models.insert(0, (re.compile(r'(.* )?std::lower_bound<'), m.lower_bound))
    def counts(m, n, diffs, anch):
        na = z3.Length(anch); return z3.And(z3.Length(diffs) + na == n, STEP * na >= n, STEP * (na - 1) < n, z3.Implies(n == 0, na == 0), na >= 0, n >= 0)
    def first(m, e): return m.PR.sort(m.V).accessor(0, 0)(e)
    def second(m, e): return m.PR.sort(m.V).accessor(0, 1)(e)
    def rest(m, k, rests=None, has=None, idx=None):
        rests = m.rests if rests is None else rests
        return z3.If((has or m.has)(k), m.second(rests[(idx or m.idx)(k)]), 0)
    def fanch(m, q): return z3.Implies(z3.And(q >= 0, q < z3.Length(m.anch)), z3.And(m.anch[q] == m.S(STEP * q), m.range(STEP * q)))
    def range(m, i): return z3.And(m.S(i) >= 0, m.S(i) < 2**32)
    def fdiff(m, k, q):
        """what difference number k says, where k lies in block q"""
        t = k - (STEP - 1) * q; p = STEP * q + t
        return z3.Implies(z3.And(k >= 0, k < z3.Length(m.diffs), t >= 0, t < STEP - 1), z3.And(m.S(p + 1) == m.S(p) + m.diffs[k] + m.rest(k), m.diffs[k] >= 0, m.diffs[k] <= MAXD, m.range(p), m.range(p + 1), m.fhas(k)))
    def fhas(m, k): return z3.Implies(m.has(k), z3.And(m.diffs[k] == MAXD, m.idx(k) >= 0, m.idx(k) < z3.Length(m.rests), m.first(m.rests[m.idx(k)]) == k, m.second(m.rests[m.idx(k)]) >= 0, m.second(m.rests[m.idx(k)]) < 2**32))
    def frest(m, p): r = m.first(m.rests[p]); return z3.Implies(z3.And(p >= 0, p < z3.Length(m.rests)), z3.And(r >= 0, r < z3.Length(m.diffs), m.has(r), m.idx(r) == p, m.fhas(r)))
    def fsort(m, p, r): return z3.Implies(z3.And(p >= 0, p < r, r < z3.Length(m.rests)), m.first(m.rests[p]) < m.first(m.rests[r]))
    def lower_bound(m, V, st, a, ins):
        """assumed contract of std::lower_bound on the sorted rests: the first element not less than the key"""
        b, e = a[0], a[1]; k, x = (V.ival(V.load(st, V.gep(st, a[2], o, []), sym._FakeTy(32))) for o in (0, 4)); r = V.fresh_int(st, 64, 'lb'); nr = z3.Length(m.rests); V.assume(st, z3.And(x >= 0, x < 2**31))
        V.oblige(st, z3.And(V.ival(b.idx) == 0, V.ival(e.idx) == nr, x == 0), 'the rests are searched from the beginning to the end for the first entry of a position')
        V.assume(st, z3.And(r >= 0, r <= nr, z3.Implies(r < nr, m.first(m.rests[r]) >= k), z3.Implies(z3.And(m.has(k), m.idx(k) < r, m.idx(k) >= 0), m.first(m.rests[m.idx(k)]) < k)))
        V.assume(st, z3.And(m.frest(r), m.fsort(r, m.idx(k)), m.fhas(k)))
        return sym.Ptr(b.rid, b.off, r, b.stride) if hasattr(sym, 'Ptr') else Ptr(b.rid, b.off, r, b.stride)
def at(c):
    """reading value number i gives S(i)"""
    m = Mono(c); V, st = m.V, m.st; i = V.fresh_int(st, 32, 'i'); V.assume(st, i < m.n); q = V.fresh_int(st, 32, 'q'); V.assume(st, z3.And(STEP * q <= i, i < STEP * q + STEP))
    p = V.region(st, 'mv', m.cells); V.assume(st, z3.And(m.fanch(q), m.range(i), m.range(STEP * q)))
    def gen(V, lv, st0, H):
        out = []; cs = [l for l, k in V.intcells(lv)]
        for x in cs:
            out.append(('position in the block', (lambda a: lambda S: z3.And(V.ival(a(S)) >= (STEP - 1) * q, V.ival(a(S)) <= (STEP - 1) * q + (i - STEP * q)))(V.acc(x)), 'kpos'))
            for y in cs:
                if x != y: out.append(('sum so far', (lambda a, b: lambda S: V.ival(b(S)) == m.S(STEP * q + V.ival(a(S)) - (STEP - 1) * q))(V.acc(x), V.acc(y)), 'sum'))
        return out
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [m.fdiff(V.ival(V.acc(l)(H)), q) for l, k in V.intcells(lv)]]
    for k, s2, v in c.call('vp_at', [p, i], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        V.oblige(s2, V.ival(v) == m.S(i), 'the value read is the value stored'); c.cover(s2, 'at')
def push(c):
    """adding a value that is not less than the last one makes it value number n and keeps the others"""
    m = Mono(c); V, st = m.V, m.st; v = V.fresh_int(st, 32, 'v'); n = m.n; p = V.region(st, 'mv', m.cells)
    V.assume(st, z3.Implies(n > 0, z3.And(m.S(n - 1) <= v, m.range(n - 1))))
    def at_(V, s, a, ins):      # contract of at, proved above
        V.oblige(s, z3.And(V.ival(a[1]) >= 0, V.ival(a[1]) < n), 'only stored values are read'); V.assume(s, m.range(V.ival(a[1]))); return m.S(V.ival(a[1]))
    V.models.insert(0, (re.compile(MV + r'at\('), at_))
    q, k, j, l = (V.fresh_int(st, 32, x) for x in ('q', 'k', 'j', 'l')); bq = V.fresh_int(st, 32, 'bq')
    V.assume(st, z3.And(m.fanch(q), m.fdiff(k, bq), m.frest(j), m.frest(l), m.fsort(j, l), m.fhas(k), (STEP - 1) * bq <= k, k < (STEP - 1) * bq + STEP - 1))
    for kk, s2, _ in c.call('vp_push', [p, v], st):
        if kk == 'throw': V.oblige(s2, False, 'never throws'); continue
        d2, a2, r2 = (s2.cell(p.rid, o)[0].seq for o in (0, 24, 48)); nd, nr = z3.Length(m.diffs), z3.Length(m.rests); grown = z3.Length(r2) > nr
        S2 = lambda x: z3.If(x == n, v, m.S(x)); has2 = lambda x: z3.Or(m.has(x), z3.And(grown, x == nd)); idx2 = lambda x: z3.If(z3.And(grown, x == nd), nr, m.idx(x))
        V.assume(s2, z3.Not(m.has(nd)))      # by the invariant: entries of the rests lie below the number of differences
        V.oblige(s2, m.counts(n + 1, d2, a2), 'one value more, in blocks as before')
        V.oblige(s2, z3.Implies(z3.And(q >= 0, q < z3.Length(a2)), a2[q] == S2(STEP * q)), 'the anchors are the first values of the blocks')
        t = k - (STEP - 1) * bq; x = STEP * bq + t
        V.oblige(s2, z3.Implies(z3.And(k >= 0, k < z3.Length(d2)), S2(x + 1) == S2(x) + d2[k] + m.rest(k, r2, has2, idx2)), 'the differences lead from each value to the next')
        V.oblige(s2, z3.Implies(z3.And(k >= 0, k < z3.Length(d2), has2(k)), z3.And(d2[k] == MAXD, idx2(k) >= 0, idx2(k) < z3.Length(r2), m.first(r2[idx2(k)]) == k)), 'each rest is found where its difference is')
        V.oblige(s2, z3.Implies(z3.And(j >= 0, j < z3.Length(r2)), z3.And(has2(m.first(r2[j])), idx2(m.first(r2[j])) == j, m.first(r2[j]) < z3.Length(d2))), 'every rest belongs to one difference')
        V.oblige(s2, z3.Implies(z3.And(j >= 0, j < l, l < z3.Length(r2)), m.first(r2[j]) < m.first(r2[l])), 'the rests stay sorted by position'); c.cover(s2, 'push')
def at_contract(m, V):
    def at_(V, s, a, ins):
        i = V.ival(a[1]); V.oblige(s, z3.And(i >= 0, i < m.n), 'only stored positions are read'); V.assume(s, z3.And(m.range(i), z3.Implies(i + 1 < m.n, z3.And(m.S(i) <= m.S(i + 1), m.range(i + 1))), m.S(i) <= m.S(m.n - 1), m.S(m.n - 1) <= m.L)); return m.S(i)
    V.models.insert(0, (re.compile(MV + r'at\('), at_))
def strvec(c):
    m = Mono(c, 24); V, st = m.V, m.st; U1 = ElemSpec('unsigned char', 1, [(0, 1, 'int')]); m.chars = V.fresh('chars', z3.SeqSort(z3.IntSort())); m.L = z3.Length(m.chars); V.assume(st, m.L < 2**32 - 1)
    m.sorted = V.fresh('sorted', z3.BoolSort()); m.cells[0] = (Vec(U1, m.chars), 24); m.cells[96] = (m.sorted, 1); return m, V, st
def entry(fn, want, doc):
    def unit(c):
        m, V, st = strvec(c); p = V.region(st, 'sv', m.cells); at_contract(m, V); i = V.fresh_int(st, 32, 'i'); V.assume(st, i < m.n)
        for k, s2, v in c.call(fn, [p, i], st):
            if k == 'throw': V.oblige(s2, False, 'never throws'); continue
            hi = z3.If(i + 1 < m.n, m.S(i + 1), m.L); V.oblige(s2, V.ival(v) == want(m.S(i), hi), doc); c.cover(s2, fn)
    unit.__name__ = fn[3:]; unit.__doc__ = doc; return unit
def sadd(c):
    """adding a string appends its bytes and records where they start"""
    m, V, st = strvec(c); p = V.region(st, 'sv', m.cells); at_contract(m, V); s, sp = c.str_arg(st); pushed = []; V.assume(st, z3.And(z3.Length(s) < 2**31, z3.Implies(m.n > 0, m.S(m.n - 1) <= m.L))); lt = V.fresh('less', z3.BoolSort())
    def push_(V, x, a, ins):
        v = V.ival(a[1]); V.oblige(x, z3.Implies(m.n > 0, m.S(m.n - 1) <= v), 'positions grow'); x.ghost = dict(x.ghost or {}); x.ghost['pushed'] = x.ghost.get('pushed', ()) + (v,)
    def copy_(V, x, a, ins):      # assumed contract of std::copy into a back_insert_iterator of a vector
        d = a[2] if isinstance(a[2], Ptr) else V.load(x, a[2], sym._FakeTy(64)); src = models.itrange(V, x, a[0], a[1]); q = V.read_abs(x, d); V.write_abs(x, d, Vec(q.spec, z3.Concat(q.seq, src))); return d
    V.models.insert(0, (re.compile(MV + r'push_back\('), push_)); V.models.insert(0, (re.compile(r'(.* )?std::copy<'), copy_))
    V.models.insert(0, (re.compile(r'(.* )?ValueIteratorRange<.*>::operator<'), lambda V, x, a, ins: lt))
    for k, s2, v in c.call('vp_sadd', [p, sp], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        V.oblige(s2, s2.cell(p.rid, 0)[0].seq == z3.Concat(m.chars, s), 'the bytes of the string are appended'); g = (s2.ghost or {}).get('pushed', ())
        V.oblige(s2, len(g) == 1 and g[0] == m.L, 'the string is recorded as starting where the others end')
        b = s2.cell(p.rid, 96)[0]; b = b if z3.is_bool(b) else z3.BoolVal(b) if isinstance(b, bool) else V.ival(b) != 0
        V.oblige(s2, z3.Implies(b, z3.And(m.sorted, z3.Or(m.n == 0, lt))), 'sorted stays true only while each string is greater than the last'); c.cover(s2, 'sadd')
UNITS = [at, push, entry('vp_len', lambda b, e: e - b, 'the length of a string reaches to the next one, or to the end'), entry('vp_begin', lambda b, e: b, 'a string begins where it was recorded'), entry('vp_end', lambda b, e: e, 'a string ends where the next one begins, or at the end'), sadd]
