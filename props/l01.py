"""L01: layer-tag collections behave as sets"""
from vc import *
LEVEL = 'proof'
HARNESS = 'h_l01.cpp'
ASSUMPTIONS = ['a collection holds at most 64 names per word as in the source; names themselves are opaque (the registry maps them to numbers, property L03)']
BOUNDED = ['collections built from random and sparse numbers (harness cases algebra, sparse)']
BUDGET = 12
SOURCES = ['common/layer_tag_collection.cpp', 'common/layer_tag_mask.cpp', 'common/layer_tag_manager.cpp']
EXPLAIN = 'see DESIGN.md'
def setup(c):
    V = c.load([os.path.join(build.VERIF, 'drivers/p_l01.cpp'), 'common/layer_tag_collection.cpp'], mode='bv')
    V.safety = True
    a, b = z3.BitVecs('a b', 64)
    st = c.st
    pa = V.region(st, 'a', {0: (a, 8)}); pb = V.region(st, 'b', {0: (b, 8)}); out = V.region(st, 'out')
    c.enc = lambda m: [('algebra', c.int_of(m, a).to_bytes(8, 'little') + c.int_of(m, b).to_bytes(8, 'little'))]
    return V, st, a, b, pa, pb, out
def val(V, s2, p):
    v = V.load(s2, p, sym._FakeTy(64)); return v
def tb(v): return v if isz(v) and z3.is_bool(v) else (z3.BoolVal(bool(v)) if not isz(v) else v != 0)
def algebra(c):
    """union, intersection, subset, equality, emptiness and hash of tag sets are the set operations, for all pairs of sets"""
    V, st, a, b, pa, pb, out = setup(c)
    def go(fn, args, post, name):
        for k, s2, v in c.call(fn, args, st.fork()):
            if k == 'throw': V.oblige(s2, False, name + ' never throws'); continue
            V.oblige(s2, post(s2, v), name)
            V.oblige(s2, z3.And(val(V, s2, pa) == a, val(V, s2, pb) == b), name + ': arguments unchanged')
            c.cover(s2, name)
    go('vp_union', [out, pa, pb], lambda s, v: val(V, s, out) == (a | b), 'union')
    go('vp_intersection', [out, pa, pb], lambda s, v: val(V, s, out) == (a & b), 'intersection')
    go('vp_subset', [pa, pb], lambda s, v: tb(v) == ((a & ~b) == 0), 'subset')
    go('vp_eq', [pa, pb], lambda s, v: tb(v) == (a == b), 'equality')
    go('vp_ne', [pa, pb], lambda s, v: tb(v) == (a != b), 'inequality')
    go('vp_lt', [pa, pb], lambda s, v: tb(v) == ((a & ~b) == 0), 'ordering is inclusion')
    go('vp_empty', [pa], lambda s, v: tb(v) == (a == 0), 'emptiness')
    go('vp_nonempty', [pa], lambda s, v: tb(v) == (a != 0), 'non-emptiness')
    for k, s2, v in c.call('vp_hash', [pa], st.fork()):
        for k3, s3, v3 in c.call('vp_hash', [pb], s2):
            V.oblige(s3, z3.Implies(a == b, v == v3), 'equal sets have equal hashes')
            V.oblige(s3, z3.Implies(v == v3, a == b), 'different sets have different hashes')
UNITS = [algebra]
