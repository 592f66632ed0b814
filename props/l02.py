"""L02: layer masks"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_l02.cpp'
ASSUMPTIONS = ['the list of alternatives is a sequence of bit sets of bounded word count (the width is symbolic)']
BOUNDED = ['random tag sets and alternatives (harness cases matching, sparse)']
BUDGET = 12
SOURCES = ['common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp', 'common/layer_tag_manager.cpp']
EXPLAIN = 'see DESIGN.md'
B64 = z3.BitVecSort(64)
SPEC = ElemSpec('LayerTagCollection', 8, [(0, 8, 'bv')])
def setup(c):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_l02.cpp'), 'common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp'])
    V.elemspecs['LayerTagCollection'] = SPEC
    return V, c.st
def vec(V, st, name):
    q = V.fresh(name, z3.SeqSort(B64)); V.assume(st, z3.Length(q) < MAXLEN)
    return q, V.region(st, name, {0: (Vec(SPEC, q), 24)})
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def mask_bytes(m, c, q):
    n = min(m.eval(z3.Length(q), model_completion=True).as_long(), 40)
    return b''.join(m.eval(q[i], model_completion=True).as_long().to_bytes(8, 'little') for i in range(n)), n

def matching(c):
    """matches(tags, alternatives) iff some alternative is a subset of tags; 'any' matches everything and 'none' nothing, for all tag sets and lists of alternatives"""
    V, st = setup(c)
    t = V.fresh('t', B64); tp = V.region(st, 't', {0: (t, 8)})
    q, qp = vec(V, st, 'alts'); n = z3.Length(q)
    EX = z3.Function('EX', z3.IntSort(), z3.BoolSort())     # some alternative before position k is a subset of t
    unfold = lambda k: z3.And(z3.Not(EX(0)), z3.Implies(z3.And(k >= 0, k < n), EX(k + 1) == z3.Or(EX(k), (q[k] & ~t) == 0)),
                              *[z3.Implies(z3.And(j >= 0, j <= n, EX(j)), EX(n)) for j in (k, k + 1)])   # monotone: lemma below
    L = st.fork(); k = V.fresh('k', z3.IntSort())
    V.assume(L, z3.And(k >= 0, k < n, EX(k + 1) == z3.Or(EX(k), (q[k] & ~t) == 0), z3.Implies(EX(k + 1), EX(n))))
    V.oblige(L, z3.Implies(EX(k), EX(n)), 'lemma: EX is monotone (induction step)')
    c.enc = lambda m: [('matching', c.int_of(m, t).to_bytes(8, 'little') + mask_bytes(m, c, q)[0])]
    V.cex_small = lambda k: [n <= k]
    def gen(V, lv, st0, H):
        out = []
        for loc, kind in V.intcells(lv):
            a = V.acc(loc)
            out.append(('no earlier alternative matches', (lambda a: lambda S: z3.And(V.ival(a(S)) >= 0, V.ival(a(S)) <= n, z3.Not(EX(V.ival(a(S))))))(a), 'ex'))
        return out
    V.cand_gens = [gen]; V.fact_gens = [lambda V, lv, H: [unfold(V.ival(V.acc(l)(H))) for l, k in V.intcells(lv)]]
    V.assume(st, unfold(z3.IntVal(0)))
    for k, s2, v in c.call('vp_matches_alts', [tp, qp], st):
        if k == 'throw': V.oblige(s2, False, 'matching never throws'); continue
        V.oblige(s2, tb(v) == EX(n), 'matches iff some alternative is a subset'); c.cover(s2, 'alts')
    for fn, want in (('vp_matches_any', True), ('vp_matches_none', False)):
        for k, s2, v in c.call(fn, [tp], st.fork()):
            V.oblige(s2, tb(v) == want if k == 'ret' else False, fn)
    m = V.fresh('m', B64); mp_ = V.region(st, 'm', {0: (m, 8)})
    for k, s2, v in c.call('vp_matches_single', [tp, mp_], st.fork()):
        V.oblige(s2, tb(v) == ((m & ~t) == 0) if k == 'ret' else False, 'single mask matches iff subset')
UNITS = [matching]
