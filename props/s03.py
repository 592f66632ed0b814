"""S03: splitting over-long segments"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_s03.cpp'
ASSUMPTIONS = ['the text is valid UTF-8 with symbolic boundaries; limits are at least 1; sums stay below 2^62', 'the destructor of std::queue is not executed']
BOUNDED = ['whole texts of up to about 200 characters cut and compared with the segments and limits']
BUDGET = 12
SOURCES = ['common/cutter.cpp', 'common/string_helpers.cpp', 'common/string_frag.cpp', 'common/annotation_item.cpp', 'common/zvalue.cpp', 'common/logging.cpp', 'common/psi_exception.cpp']
HOPTS = {'libs': ['-llog4cpp', '-lpthread']}
EXPLAIN = 'see DESIGN.md'
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def setup(c):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_s03.cpp'), 'common/cutter.cpp', 'common/string_helpers.cpp'])
    V.models.insert(0, (re.compile(r'std::queue<AnnotationItem.*>::~?queue'), lambda V, st, a, ins: None))
    V.safety = True
    s, sp = c.str_arg(c.st); n = z3.Length(s); V.assume(c.st, n < 2**31 - 8)
    return V, c.st, s, sp, n
def limits(c):
    """limits are broken iff some limit is set and reached"""
    V, st, s, sp, n = setup(c)
    l, h, f = (V.fresh_int(st, 64, x) for x in 'lhf')
    for k, s2, v in c.call('vp_broken', [l, h, f], st):
        V.oblige(s2, tb(v) == z3.Or(z3.And(h != 0, l >= h), z3.And(f != 0, l >= f)) if k == 'ret' else False, 'limits broken iff a set limit is reached')
        c.cover(s2, 'limits')
def soft(c):
    """the soft cut point is the first space at or after cut+soft, or the end of the segment"""
    V, st, s, sp, n = setup(c)
    cut, sl, mx, j = (V.fresh_int(st, 64, x) for x in ('cut', 'soft', 'max', 'j'))
    V.assume(st, z3.And(cut >= 0, cut < mx, mx <= n, sl >= 1, cut + sl <= 2**62, cut + sl <= mx))
    def gen(V, lv, st0, H):
        out = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            out.append(('no space passed over', (lambda a: lambda S: z3.And(V.ival(a(S)) >= cut + sl, V.ival(a(S)) <= mx, z3.Implies(z3.And(j >= cut + sl, j < V.ival(a(S))), s[j] != 32)))(a), 'soft'))
        return out
    V.cand_gens = [gen]
    for k, s2, v in c.call('vp_soft', [sp, cut, sl, mx], st):
        if k == 'throw': V.oblige(s2, False, 'never throws'); continue
        v = V.ival(v)
        V.oblige(s2, z3.And(v >= cut + sl, v <= mx, z3.Implies(v < mx, s[v] == 32), z3.Implies(z3.And(j >= cut + sl, j < v), s[j] != 32)), 'first space after the soft limit, or the end'); c.cover(s2, 'soft')
def hard(c):
    """the hard cut point is within the limit, makes progress, and is a character boundary of valid UTF-8 text"""
    V, st, s, sp, n = setup(c)
    cut, h = (V.fresh_int(st, 64, x) for x in ('cut', 'hard'))
    V.assume(st, z3.And(cut >= 0, h >= 1, cut + h <= n))
    B = z3.Function('B', z3.IntSort(), z3.BoolSort())        # character boundaries of the text
    def bl(k):   # what validity says at position k
        b = s[k]
        ln = z3.If(b < 0x80, 1, z3.If(z3.And(b >= 0xC0, b < 0xE0), 2, z3.If(z3.And(b >= 0xE0, b < 0xF0), 3, 4)))
        return z3.Implies(z3.And(k >= 0, k < n), z3.And(b >= 0, b < 256,
            z3.Implies(B(k), z3.And(z3.Or(b < 0x80, z3.And(b >= 0xC0, b < 0xF8)), k + ln <= n, B(k + ln), *[z3.Implies(ln > d, z3.Not(B(k + d))) for d in (1, 2, 3)])),
            z3.Implies(z3.Not(B(k)), z3.And(b >= 0x80, b < 0xC0)),
            z3.Implies(k + 3 < n, z3.Or(*[B(k + d) for d in range(4)]))))
    V.assume(st, z3.And(B(0), B(n), B(cut)))
    c0 = z3.If(cut + h > 4, cut + h - 4, 0)
    for d in range(5): V.assume(st, bl(c0 + d))
    def gen(V, lv, st0, H):
        out = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            def f(S, a=a):
                x = V.ival(a(S))
                return z3.And(x >= c0, x <= cut + h, z3.Or(B(x), z3.And(*[z3.Implies(c0 + d < x, z3.Not(B(c0 + d))) for d in range(4)])))
            out.append(('at a boundary, or inside the first character since the start', f, 'hard'))
        return out
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [bl(V.ival(V.acc(l)(H)) + d) for l, k in V.intcells(lv) for d in range(4)]]
    for k, s2, v in c.call('vp_hard', [sp, cut, h], st):
        if k == 'throw': V.oblige(s2, h < 4, 'only limits below four bytes are refused'); continue
        v = V.ival(v)
        V.oblige(s2, z3.And(v > cut, v <= cut + h), 'progress within the hard limit')
        V.oblige(s2, B(v), 'no character is split'); c.cover(s2, 'hard')
UNITS = [limits, soft, hard]
